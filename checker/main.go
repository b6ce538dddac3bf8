package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dump := flag.String("dump", "", "function to dump")
	check := flag.String("check", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "directory of the evidence")
	flag.Parse()
	if *check == "all" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		rc := 0
		for _, id := range ids {
			rc |= runCheck(id, *tier, *repo, *verif)
		}
		os.Exit(rc)
	}
	if *check != "" {
		os.Exit(runCheck(*check, *tier, *repo, *verif))
	}
	p, err := loadProg(*repo)
	if err != nil {
		fmt.Println("cannot load:", err)
		os.Exit(1)
	}
	if *dump != "" {
		dumpFn(p, *dump)
	}
}

func dumpFn(p *Prog, spec string) {
	parts := strings.Split(spec, ":")
	fn := p.fn(parts[0])
	if fn == nil {
		fmt.Println("no function", parts[0])
		return
	}
	e := p.engine()
	st, err := e.setup()
	if err != nil {
		fmt.Println(err)
		return
	}
	if len(parts) > 1 && parts[1] == "lex" {
	} else {
		e.addCuts()
	}
	delete(e.cuts, fn)
	set := map[int]Val{}
	if len(parts) > 2 {
		for _, a := range strings.Split(parts[2], ",") {
			var i int
			var v int64
			fmt.Sscanf(a, "%d=%d", &i, &v)
			set[i] = mkInt(v, fn.Params[i].Type())
			if strings.HasSuffix(a, "nil") {
				set[i] = mkNil(fn.Params[i].Type())
			}
		}
	}
	outs, _, err := e.analyse(fn, st, set)
	fmt.Println(len(outs), "paths", err, e.steps, "steps")
	for i, o := range outs {
		var r []string
		for _, x := range o.res {
			r = append(r, e.show(x, o.st))
		}
		fmt.Printf("--- path %d %s (%s) at %s\n", i, o.kind, strings.Join(r, ", "), e.pos(o.pos))
		for _, ev := range o.st.events() {
			e.dumpEv(ev, o.st)
		}
		if pd := e.pending(o.st); len(pd) > 0 {
			fmt.Print("   pending:")
			for _, x := range pd {
				fmt.Print(" ", e.show(x, o.st))
			}
			fmt.Println()
		}
		e.dumpFacts(o.st)
		for _, u := range o.st.undec {
			fmt.Println("   UNDECIDED", u)
		}
	}
	for _, l := range e.loops {
		fmt.Println("=== loop in", l.Fn.Name(), e.pos(l.Pos))
		for _, h := range l.Heads {
			fmt.Printf(" head %d [%s]\n", h.Idx, h.Key)
			for k, v := range h.Vals {
				fmt.Println("     ", k, e.show(v, h.st))
			}
		}
		for _, t := range l.Trans {
			fmt.Printf(" trans %d -> %d\n", t.From, t.To)
			for k, v := range t.Vals {
				fmt.Println("     ", k, "=", e.show(v, t.St))
			}
			e.dumpFacts(t.St)
			for _, ev := range t.Evs {
				e.dumpEv(ev, t.St)
			}
		}
	}
}

func (e *Eng) dumpEv(ev *Event, st *State) {
	s := func(vs []Val) string {
		var r []string
		for _, v := range vs {
			r = append(r, e.show(v, st))
		}
		return strings.Join(r, ", ")
	}
	fmt.Printf("    %-9s %-12s %s(%s) -> %s", ev.Kind, ev.Name, ev.Flag, s(ev.Args), s(ev.Res))
	if len(ev.Pend) > 0 {
		fmt.Printf(" pend[%s]", s(ev.Pend))
	}
	fmt.Println()
}

func (e *Eng) dumpFacts(st *State) {
	if os.Getenv("BLANG_FACTS") == "" {
		return
	}
	for k, b := range st.bools {
		var id int
		fmt.Sscanf(k, "t%d", &id)
		fmt.Println("   FACT", k, e.show(termByID[id], st), b)
	}
	for id, o := range st.heap {
		if m, ok := o.V.(*MapVal); ok && len(m.Ents) > 0 {
			for _, en := range m.Ents {
				fmt.Println("   MAP", id, m.Name, m.Opaque, e.show(en.K, st), en.Present, e.show(en.V, st))
			}
		}
	}
}
