package main

import "strings"

// The checks of the properties: which rules decide which property.

const noteExpr = "Every function of the expression parser is interpreted abstractly on all its paths. The source text each piece of a path reads is compared with the grammar of the precedence level; the code each piece emits is run in lockstep with the code the specification gives for the operators read."

func checkExprs(rules ...string) checkFn {
	return func(p *Prog, r *Rep) {
		r.notes = append(r.notes, noteExpr)
		s := newRep(r.prop, r.tier)
		s.expressions(p)
		s.primary(p, "parsePrimary")
		r.take(s, rules...)
		for k, n := range map[string]int{"code:pieces": 200, "grammar": 500, "pushback": 100, "storage operators": 50, "blanks after": 50} {
			for _, x := range rules {
				if x == k || x == "code:" && k == "code:pieces" {
					r.need(k, n)
				}
			}
		}
	}
}

func init() {
	checks["C01"] = checkExprs("code:", "grammar")
	checks["C02"] = checkExprs("grammar", "pushback", "code:order", "code:value", "code:pieces")
	checks["C03"] = checkExprs("code:", "storage operators")
	checks["C04"] = checkExprs("code:", "grammar")
	checks["C08"] = func(p *Prog, r *Rep) {
		checkConstants(p, r)
		s := newRep(r.prop, r.tier)
		s.primary(p, "parsePrimary")
		r.take(s, "constants")
		r.need("constants", 2)
	}
	checks["C09"] = func(p *Prog, r *Rep) {
		checkStrings(p, r)
		s := newRep(r.prop, r.tier)
		s.primary(p, "parsePrimary")
		r.take(s, "strings")
		r.need("strings", 5)
	}
	checks["C10"] = func(p *Prog, r *Rep) {
		checkBlanks(p, r)
		checkExprs("blanks after", "pushback", "grammar")(p, r)
		checkAll("ds", "pushback", "grammar")(p, r)
	}
	checks["C11"] = func(p *Prog, r *Rep) {
		checkPushback(p, r)
		checkExprs("pushback", "grammar")(p, r)
		checkAll("ds", "pushback", "grammar")(p, r)
	}
}

const noteStmt = "Every function of the statement parser is interpreted abstractly on all its paths; each path is compared with the grammar of statements, and the control-flow graph and code it emits with the graph the specification gives for that statement."

// checkAll decides by rules of the declarations, statements and expressions: d, s and e
// choose what is analysed.
func checkAll(what string, rules ...string) checkFn {
	return func(p *Prog, r *Rep) {
		s := newRep(r.prop, r.tier)
		if strings.Contains(what, "d") {
			r.notes = append(r.notes, noteDecl)
			s.declarations(p)
		}
		if strings.Contains(what, "e") {
			r.notes = append(r.notes, noteExpr)
			s.expressions(p)
		}
		if strings.Contains(what, "p") {
			p.endsWS[exprFn] = true
			s.primary(p, "parsePrimary")
		}
		if strings.Contains(what, "s") {
			r.notes = append(r.notes, noteStmt)
			s.statements(p)
		}
		if strings.Contains(what, "d") && strings.Contains(what, "s") {
			s.labelTables(p)
			if strings.Contains(what, "e") {
				s.nameClash(s.uses)
			}
		}
		r.take(s, rules...)
		for k, n := range map[string]int{"grammar": 200, "words": 30, "flow": 40, "switch": 30, "cases": 15, "labels": 10, "context": 10, "auto": 1000, "extrn": 80, "names": 40, "numbers": 1000,
			"functions": 200, "variables": 1000, "symbols": 300, "scope": 50, "returns": 40, "parameters": 8, "errors": 20, "code:": 200} {
			for _, x := range rules {
				if x == k && k != "code:" {
					r.need(k, n)
				}
				if x == k && k == "code:" && strings.Contains(what, "e") {
					r.need("code:pieces", n)
				}
			}
		}
	}
}

const noteDecl = "The function that reads a program is interpreted abstractly on all its paths; each path is compared with the grammar of declarations, and the variables, functions, tables and code it makes with those the declaration read stands for, over all initial values and parameters by induction."

func init() {
	checks["C05"] = checkAll("s", "grammar", "pushback", "words", "context", "flow", "switch", "cases", "labels", "code:")
	checks["C06"] = checkAll("dse", "code:form", "code:pieces", "labels", "cases", "names", "numbers", "flow", "returns", "errors")
	checks["C13"] = checkAll("dsp", "names", "extrn", "auto", "scope", "symbols", "errors", "parameters", "extra")
	checks["C14"] = checkAll("ds", "auto", "code:", "functions", "scope")
	checks["C15"] = checkAll("d", "variables", "reading", "symbols", "grammar", "strings", "context", "errors")
	checks["C16"] = checkAll("dep", "functions", "returns", "parameters", "code:", "grammar", "context", "reading", "names")
	checks["C17"] = checkAll("dsp", "symbols", "names", "functions", "variables", "extrn", "strings", "numbers")
	compiler := checks["C17"]
	checks["C17"] = func(p *Prog, r *Rep) {
		compiler(p, r)
		runtimeCheck(r, "C17")
	}
}

func init() {
	checks["X"] = func(p *Prog, r *Rep) { p.endsWS[exprFn] = true; r.primary(p, "parsePrimary") }
}

func init() {
	checks["S"] = func(p *Prog, r *Rep) { r.expressions(p); r.statements(p); r.nameClash(r.uses) }
}

func init() {
	checks["D"] = func(p *Prog, r *Rep) { r.declarations(p) }
	checks["A"] = func(p *Prog, r *Rep) {
		r.declarations(p)
		r.expressions(p)
		r.statements(p)
		r.labelTables(p)
		r.nameClash(r.uses)
	}
}

// lexerUnits analyses the functions that read words, with the rules that concern their form.
func lexerUnits(p *Prog, r *Rep) {
	checkBlanks(p, r)
	identRules(p, r)
	checkConstants(p, r)
	checkStrings(p, r)
}

func init() {
	checks["C12"] = func(p *Prog, r *Rep) {
		driverCheck("driver:errors", "driver:status")(p, r)
		checkAll("dsep", "errors reported", "errors")(p, r)
		s := newRep(r.prop, r.tier)
		lexerUnits(p, s)
		r.take(s, "errors reported")
		r.need("errors reported", 500)
	}
	checks["C24"] = func(p *Prog, r *Rep) {
		checkAll("dsep", "panics")(p, r)
		s := newRep(r.prop, r.tier)
		lexerUnits(p, s)
		r.take(s, "panics")
		r.covers(p)
		r.need("panics", 500)
	}
}

func init() {
	checks["C23"] = func(p *Prog, r *Rep) {
		checkAll("dsep", "terminates")(p, r)
		s := newRep(r.prop, r.tier)
		lexerUnits(p, s)
		r.take(s, "terminates")
		r.descends(p)
		r.covers(p)
		r.need("terminates", 100)
	}
}
