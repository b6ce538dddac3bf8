package main

// Properties of the runtime library, see package rt.

import (
	"blangcheck/rt"
)

var rtNeeds = map[string]map[string]int{
	"C17": {"symbols": 60},
	"C25": {"paths": 50, "operations": 50},
	"C26": {"paths": 50, "operations": 50},
	"C27": {"paths": 12, "accesses": 100},
	"C28": {"paths": 18, "accesses": 100},
	"C29": {"accesses": 2000, "references": 20},
	"C30": {"pieces of machine code": 5, "stubs": 1},
}

func runtimeCheck(r *Rep, prop string) {
	res := rt.Check(r.repo, prop)
	for k, n := range res.Count {
		rule := "runtime: " + k
		r.count[rule] += n
		r.okc[rule] += n
	}
	if len(res.Find) == 0 {
		for k, n := range rtNeeds[prop] {
			r.need("runtime: "+k, n)
		}
	}
	for _, u := range res.Units {
		r.units = append(r.units, map[string]interface{}{"function": u.Function, "machine": u.Machine, "paths": u.Paths, "instructions": u.Insns, "steps": u.Steps, "memory accesses": u.Accesses, "operations": u.Arithmetic, "loop heads": u.Heads, "transitions": u.Tr})
	}
	for _, f := range res.Find {
		rule := "runtime"
		switch f.Kind {
		case "undecided":
			rule = "analysis"
		case "overflow":
			rule = "runtime: operations"
		case "memory":
			rule = "runtime: accesses"
		}
		r.fail(rule, f.Where, "%s", f.Msg)
	}
}

// runtimeOnly are the checks that do not look at the compiler.
var runtimeOnly = map[string]bool{"C25": true, "C26": true, "C27": true, "C28": true, "C29": true, "C30": true}

const noteRt = "The files of the runtime library are translated by clang to its intermediate representation, unoptimised, for each machine, and each function is interpreted abstractly with everything it calls: words are linear expressions over unknown arguments, quotients and remainders, with intervals that every condition splits, so that all words and all strings are covered. "

func init() {
	for id, note := range map[string]string{
		"C25": "The bytes passed to the system on each path are compared with the digits of the argument.",
		"C26": "The loops of printf are analysed to a fixpoint in lockstep with a specification that reads the same format; what is written must be what the specification asks for.",
		"C27": "The bytes written, the memory read and stored on each path are compared with the characters of the arguments.",
		"C28": "The system calls on each path and the result are compared with those the function stands for.",
		"C29": "Each memory access on each path must lie inside of its object and read what was stored before; the symbols referred to must be defined by the library.",
		"C30": "The operands of each piece of machine code are compared with the convention of its machine, and the values that reach it with the parameters of its function.",
	} {
		id, note := id, note
		checks[id] = func(p *Prog, r *Rep) { r.notes = append(r.notes, noteRt+note); runtimeCheck(r, id) }
	}
}
