package main

// Rules of the lexical level: characters, blanks, comments, identifiers, constants.

import (
	"fmt"
	"sort"
	"strings"
)

func rRaw(b ByteSet) *rx { return rChars(rawBase, b) }
func rWS(b ByteSet) *rx  { return rChars(wsBase, b) }
func rLA(b ByteSet) *rx  { return rChars(laBase, b) }
func rAny(b ByteSet) *rx { return rAlt(rChars(rawBase, b), rChars(wsBase, b)) }

var escSet = setOf("0e*'\"()tnr")

// escValue is the meaning of an escape character.
func escValue(c int) int64 {
	switch c {
	case '0', 'e':
		return 0
	case '(':
		return '{'
	case ')':
		return '}'
	case 't':
		return '\t'
	case 'n':
		return '\n'
	case 'r':
		return '\r'
	}
	return int64(c)
}

// escVal is the value of an escape whose character is one of a set.
func escVal(c Val, set ByteSet) Val {
	el := set.Elems()
	ident, konst := true, true
	for _, x := range el {
		if escValue(x) != int64(x) {
			ident = false
		}
		if escValue(x) != escValue(el[0]) {
			konst = false
		}
	}
	switch {
	case konst && len(el) > 0:
		return mkInt(escValue(el[0]), tInt)
	case ident:
		return c
	}
	return mk("escape", tInt, c)
}

func commentRx() *rx {
	star := setOf("*")
	return rSeq(rRaw(setOf("/")), rRaw(star),
		rStar(rAlt(rRaw(srcSet.Minus(star)), rSeq(rRaw(star), rStar(rRaw(star)), rRaw(srcSet.Minus(star).Minus(setOf("/")))))),
		rRaw(star), rStar(rRaw(star)), rRaw(setOf("/")))
}

// grammar reports what a machine accepts or rejects wrongly.
func (r *Rep) grammar(rule string, u *Unit, spec *rx, errOK func(*PEdge) bool) *Prod {
	return r.grammarI(rule, u, spec, nil, errOK)
}

func (r *Rep) grammarI(rule string, u *Unit, spec *rx, idents []string, errOK func(*PEdge) bool) *Prod {
	unknown := false
	pr := u.M.explore(spec, idents, func(x *Edge) string {
		c := u.errClass(x)
		if c == "unknown" {
			unknown = true
		}
		return c
	}, errOK)
	r.ob(rule, !unknown, u.Name, "whether %s succeeds is not decided", u.Name)
	for _, b := range pr.Bad {
		r.fail(rule, "", "%s: %s", u.Name, b)
	}
	r.count[rule] += pr.Runs
	r.okc[rule] += pr.Runs
	r.readErrors(u)
	return pr
}

func checkBlanks(p *Prog, r *Rep) {
	r.notes = append(r.notes, "the automaton of the function that skips blanks is compared with the language (blank | comment)*, and what it leaves in the lexer with what it looked at.")
	r.blankRules(p)
}

func (r *Rep) blankRules(p *Prog) {
	r.eachHeld(p, "Lexer.Whitespace", func(r *Rep, u *Unit) {
		r.grammar("blanks and comments", u, rStar(rAlt(rRaw(wsSet), commentRx())), nil)
		r.pushback(u)
	})
}

// pushback asks that what was read and not consumed is given back in order.
func (r *Rep) pushback(u *Unit) {
	for _, x := range u.M.Edges {
		if x.Out != nil && u.errClass(x) == "error" {
			// nothing is read after an error
			continue
		}
		for _, b := range x.Bad {
			r.fail("pushback", u.M.where(x), "%s: %s", u.Name, b)
		}
		r.count["pushback"]++
		if len(x.Bad) == 0 {
			r.okc["pushback"]++
		}
	}
}

// readErrors asks that a failed step makes the function fail at once. Read errors persist: a function
// that looks ahead may leave them to the next read, but what ends the reading may not.
func (r *Rep) readErrors(u *Unit) {
	strict := strings.HasPrefix(u.Name, "Lexer.") || u.Name == "ParseDeclarations"
	for _, x := range u.M.Edges {
		var bad *Event
		more := false
		for _, ev := range x.Evs {
			switch ev.Kind {
			case "readerr", "lexerr", "callfail":
				if ev.Kind == "readerr" && !strict {
					continue
				}
				if bad != nil {
					more = true
				} else {
					bad = ev
				}
			case "read", "tok", "call", "eof":
				more = more || bad != nil
			}
		}
		if bad == nil {
			continue
		}
		n := bad.Name
		if bad.Kind == "readerr" {
			n = "the reader"
		}
		r.ob("errors reported", x.Out != nil && !more && u.errClass(x) == "error", u.M.where(x), "%s goes on after an error of %s", u.Name, n)
	}
}

// okEdges are the successful ends.
func okEdges(pr *Prod) []*PEdge {
	var res []*PEdge
	for _, pe := range pr.Edges {
		if pe.X.Out != nil && pe.Class == "ok" {
			res = append(res, pe)
		}
	}
	return res
}

func identRules(p *Prog, r *Rep) {
	r.eachHeld(p, "Lexer.Identifier", r0identRules)
}

func r0identRules(r *Rep, u *Unit) {
	spec := rOpt(rSeq(rWS(identSet), rStar(rRaw(identSet))))
	pr := r.grammar("identifiers", u, spec, nil)
	r.pushback(u)
	step := func(pe *PEdge, in Ghosts, sub Sub) Ghosts {
		l := unseq(in["text"])
		for _, it := range pe.Items {
			if it.Kind == "char" {
				l = append(append([]Val(nil), l...), u.E.canon(pe.X.St, it.V, sub))
			}
		}
		return Ghosts{"text": seqVal(l)}
	}
	r.result(u, pr, "identifier text", []string{"text"}, Ghosts{"text": seqVal(nil)}, step)
}

// result asks that the first result is the first ghost at every successful end.
func (r *Rep) result(u *Unit, pr *Prod, rule string, names []string, init Ghosts, step func(pe *PEdge, in Ghosts, sub Sub) Ghosts) *Relation {
	rel := u.M.relate(pr, names, init, step)
	for _, pe := range okEdges(pr) {
		sub := rel.sub(pe.From)
		g := step(pe, rel.ghostIn(pe.From, init), sub)
		r.ob(rule, u.M.eqVal(pe.X.St, pe.X.Out.res[0], g[names[0]], sub), u.M.where(pe.X), "%s after %s: the result is %s, the specification says %s",
			u.Name, orNone(pe.Path), u.E.show(u.E.canon(pe.X.St, pe.X.Out.res[0], sub), nil), u.E.show(u.E.canon(pe.X.St, g[names[0]], sub), nil))
	}
	return rel
}

func checkConstants(p *Prog, r *Rep) {
	r.notes = append(r.notes, "the automata of the functions that read numbers and character constants are compared with their languages, and their results, as relations between loop variables and the values the language definition computes, with the positional value of the digits and characters.")
	// numbers
	r.eachHeld(p, "Lexer.Number", func(r *Rep, u *Unit) {
		oct := setOf("0")
		dec := digitSet.Minus(oct)
		spec := rAlt(rSeq(rWS(oct), rStar(rRaw(digitSet))), rSeq(rWS(dec), rStar(rRaw(digitSet))))
		pr := r.grammar("number syntax", u, spec, nil)
		r.pushback(u)
		r.readErrors(u)
		octal := map[int]bool{}
		for s := pr.spec.move(0, wsBase+'0'); s >= 0 && !octal[s]; s = pr.spec.move(s, '0') {
			octal[s] = true
		}
		step := func(pe *PEdge, in Ghosts, sub Sub) Ghosts {
			n := in["value"]
			for _, it := range pe.Items {
				if it.Kind != "char" {
					continue
				}
				base := int64(10)
				if octal[it.After] {
					base = 8
				}
				d := mk("-", tInt64, u.E.canon(pe.X.St, it.V, sub), mkInt('0', tInt64))
				n = mk("+", tInt64, mk("*", tInt64, n, mkInt(base, tInt64)), d)
			}
			return Ghosts{"value": n}
		}
		r.result(u, pr, "number value", []string{"value"}, Ghosts{"value": mkInt(0, tInt64)}, step)
	})
	// characters
	r.eachHeld(p, "Lexer.Character", func(r *Rep, u *Unit) { r.characterRules(u) })
	r.need("number value", 2)
	r.need("character value", 2)
}

func itemRx(end string) *rx {
	return rAlt(rRaw(srcSet.Minus(setOf("*"+end))), rSeq(rRaw(setOf("*")), rRaw(escSet)))
}

// literal steps through the items of a literal: the values of the characters in it.
func (u *Unit) literal(pe *PEdge, pr *Prod, sub Sub, end int) []Val {
	var l []Val
	for _, it := range pe.Items {
		if it.Kind != "char" || it.Before < 0 {
			continue
		}
		set := it.chars()
		esc := pr.spec.move(it.Before, 'z') < 0 // after a '*'
		v := u.E.canon(pe.X.St, it.V, sub)
		switch {
		case esc:
			l = append(l, escVal(v, set))
		case set == setOf(string(rune(end))) || set == setOf("*"):
		default:
			l = append(l, v)
		}
	}
	return l
}

func (r *Rep) characterRules(u *Unit) {
	const word = 8
	q := setOf("'")
	spec := rSeq(rStar(itemRx("'")), rRaw(q))
	init := Ghosts{"value": mkInt(0, tInt64), "count": mkInt(0, tInt)}
	var pr *Prod
	step := func(pe *PEdge, in Ghosts, sub Sub) Ghosts {
		v, n := in["value"], in["count"]
		for _, c := range u.literal(pe, pr, sub, '\'') {
			v = mk("+", tInt64, mk("*", tInt64, v, mkInt(256, tInt64)), c)
			n = mk("+", tInt, n, mkInt(1, tInt))
		}
		return Ghosts{"value": v, "count": n}
	}
	// first pass: the coupling; second pass: the language with the bound on the length
	var rel *Relation
	bounded := map[cfg]bool{}
	lo := func(pe *PEdge) int64 { return rel.bound(u, pe, "count", false) }
	errOK := func(pe *PEdge) bool {
		if rel == nil {
			return true
		}
		ch := 0
		for _, it := range pe.Items {
			if it.Kind == "char" {
				ch++
			}
		}
		k := len(u.literal(pe, pr, Sub{}, '\''))
		last := PItem{}
		if ch > 0 {
			last = pe.Items[len(pe.Items)-1]
		}
		n := lo(pe) + int64(k)
		if n > word {
			return true
		}
		// the next character of a full literal is not the quote
		return n == word && last.Kind == "char" && pr.spec.move(last.Before, 'z') >= 0 && last.chars() == setOf("*")
	}
	pr = u.M.explore(spec, nil, u.errClass, errOK)
	rel = u.M.relate(pr, []string{"value", "count"}, init, step)
	pr = r.grammar("character syntax", u, spec, errOK)
	rel = u.M.relate(pr, []string{"value", "count"}, init, step)
	r.pushback(u)
	// heads where the count cannot exceed the word
	for _, pe := range pr.Edges {
		if pe.To.n.Loop != nil {
			bounded[pe.To] = true
		}
	}
	hi := func(pe *PEdge) int64 {
		h := rel.bound(u, pe, "count", true)
		if pe.From.n.Loop == nil {
			h = 0
		} else if bounded[pe.From] && h > word {
			h = word
		}
		if h >= 1<<39 {
			return h
		}
		return h + int64(len(u.literal(pe, pr, Sub{}, '\'')))
	}
	for again := true; again; {
		again = false
		for _, pe := range pr.Edges {
			if pe.To.n.Loop != nil && bounded[pe.To] && hi(pe) > word {
				bounded[pe.To] = false
				again = true
			}
		}
	}
	for _, pe := range okEdges(pr) {
		sub := rel.sub(pe.From)
		g := step(pe, rel.ghostIn(pe.From, init), sub)
		r.ob("character value", u.M.eqVal(pe.X.St, pe.X.Out.res[0], g["value"], sub), u.M.where(pe.X), "%s after %s: the result is %s, the specification says %s",
			u.Name, orNone(pe.Path), u.E.show(u.E.canon(pe.X.St, pe.X.Out.res[0], sub), nil), u.E.show(u.E.canon(pe.X.St, g["value"], sub), nil))
		r.ob("character length", hi(pe) <= word, u.M.where(pe.X), "%s accepts more than %d characters", u.Name, word)
	}
}

// bound is a bound on a ghost at the start of a piece, under the conditions of the piece.
func (rel *Relation) bound(u *Unit, pe *PEdge, name string, upper bool) int64 {
	if pe.From.n.Loop == nil {
		return 0
	}
	b := Ivl{0, fullIvl.Hi}
	h := pe.From.n.Loop.Heads[pe.From.n.Head]
	for loc, m := range rel.cand[pe.From] {
		t, ok := h.Vals[loc].(*Term)
		if !ok {
			continue
		}
		for _, f := range forms(m) {
			if f.name != name {
				continue
			}
			iv := pe.X.St.interval(t)
			if iv.Lo < -1<<40 {
				iv.Lo = -1 << 40
			}
			if iv.Hi > 1<<40 {
				iv.Hi = 1 << 40
			}
			if f.sign < 0 {
				iv.Lo, iv.Hi = f.k-iv.Hi, f.k-iv.Lo
			} else {
				iv.Lo, iv.Hi = iv.Lo-f.k, iv.Hi-f.k
			}
			if iv.Lo > b.Lo {
				b.Lo = iv.Lo
			}
			if iv.Hi < b.Hi {
				b.Hi = iv.Hi
			}
		}
	}
	if upper {
		return b.Hi
	}
	return b.Lo
}

func checkStrings(p *Prog, r *Rep) {
	r.notes = append(r.notes, "the automaton of the function that reads string literals is compared with their language, and its result with the list of the characters read, escapes replaced.")
	r.eachHeld(p, "Lexer.String", func(r *Rep, u *Unit) {
		pr := r.grammar("string syntax", u, rSeq(rStar(itemRx("\"")), rRaw(setOf("\""))), nil)
		r.pushback(u)
		r.readErrors(u)
		step := func(pe *PEdge, in Ghosts, sub Sub) Ghosts {
			return Ghosts{"text": seqVal(append(append([]Val(nil), unseq(in["text"])...), u.literal(pe, pr, sub, '"')...))}
		}
		var fs []string
		for f := range u.E.wide {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		r.ob("string text", len(fs) == 0, "", "a character above 127 becomes several bytes of the text in %s", strings.Join(fs, ", "))
		r.result(u, pr, "string text", []string{"text"}, Ghosts{"text": seqVal(nil)}, step)
	})
	r.need("string text", 1)
}

func checkPushback(p *Prog, r *Rep) {
	for _, n := range []string{"Lexer.Whitespace", "Lexer.Identifier", "Lexer.Number", "Lexer.Character", "Lexer.String"} {
		r.eachHeld(p, n, func(r *Rep, u *Unit) { r.pushback(u) })
	}
	identRules(p, r)
}

var _ = fmt.Sprint
