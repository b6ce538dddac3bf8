package main

// Expressions: the grammar of the precedence levels and the code of the operators.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const exprFn = "parseExpressionWithLevel"

// levelClass is the level that stands for all levels with the same operators.
func levelClass(l int64) int64 {
	switch {
	case l >= 14:
		return 14
	case l == 13:
		return 13
	case l >= 10:
		return 10
	case l >= 8:
		return 8
	case l >= 3:
		return l
	}
	return 2
}

func eTok(l int64) *rx { return rTok("E" + strconv.FormatInt(levelClass(l), 10)) }

// notNext is the look-ahead that a longer operator is not there.
func notNext(s string) *rx {
	b := rChars(laBase, srcSet.Minus(setOf(s)))
	b.set[laEOF] = true
	return b
}

type binop struct {
	text  string
	level int64
	not   string // characters that would make a longer operator
	must  bool   // the look-ahead is needed
	ir    string
}

var binops = []binop{
	{"*", 3, "", false, "Mul"}, {"/", 3, "", false, "SDiv"}, {"%", 3, "", false, "SRem"},
	{"+", 4, "+", false, "Add"}, {"-", 4, "-", false, "Sub"},
	{"<<", 5, "", false, "Shl"}, {">>", 5, "", false, "AShr"},
	{"<", 6, "<=", true, "slt"}, {"<=", 6, "", false, "sle"}, {">", 6, ">=", true, "sgt"}, {">=", 6, "", false, "sge"},
	{"==", 7, "=", true, "eq"}, {"!=", 7, "", false, "ne"},
	{"&", 8, "", false, "And"}, {"|", 10, "", false, "Or"},
}

// assignment operators: what follows the '='.
var assops = []binop{
	{"", 0, "", true, ""}, // plain assignment, see assignNot
	{"+", 0, "", false, "Add"}, {"-", 0, "", false, "Sub"}, {"*", 0, "", false, "Mul"}, {"/", 0, "", false, "SDiv"}, {"%", 0, "", false, "SRem"},
	{"&", 0, "", false, "And"}, {"|", 0, "", false, "Or"}, {"<<", 0, "", false, "Shl"}, {">>", 0, "", false, "AShr"},
	{"<", 0, "<=", true, "slt"}, {"<=", 0, "", false, "sle"}, {">", 0, ">=", true, "sgt"}, {">=", 0, "", false, "sge"},
	{"==", 0, "", false, "eq"}, {"!=", 0, "", false, "ne"},
}

func opRx(text string, o binop, rest *rx) *rx {
	s := []*rx{rP(text)}
	if o.not != "" {
		if o.must {
			s = append(s, notNext(o.not))
		} else {
			s = append(s, rOpt(notNext(o.not)))
		}
	}
	return rSeq(append(s, rest)...)
}

func exprRx(level int64) *rx {
	var bin []*rx
	for _, o := range binops {
		if o.level <= level {
			bin = append(bin, opRx(o.text, o, eTok(o.level-1)))
		}
	}
	var tail []*rx
	if level >= 13 {
		tail = append(tail, rSeq(rP("?"), eTok(12), rP(":"), eTok(13)))
	}
	if level >= 14 {
		for _, o := range assops {
			if o.text == "" {
				// '=' alone, or before a '!' that does not make an operator with it
				tail = append(tail, rSeq(rP("="), notNext("+-*/%&|<>!="), eTok(14)))
				tail = append(tail, rSeq(rP("="), rChars(laBase, setOf("!")), notNext("="), eTok(14)))
				continue
			}
			tail = append(tail, opRx("="+o.text, o, eTok(14)))
		}
	}
	if len(bin) == 0 {
		bin = append(bin, rSet(SymSet{}))
	}
	r := []*rx{rTok("parseUnary"), rStar(rAlt(bin...))}
	if len(tail) > 0 {
		r = append(r, rOpt(rAlt(tail...)))
	}
	return rSeq(r...)
}

func unaryRx() *rx {
	u := rTok("parseUnary")
	return rAlt(rSeq(rP("!"), u), rSeq(rP("-"), notNext("-"), u), rSeq(rP("--"), u), rSeq(rP("++"), u),
		rSeq(rP("*"), u), rSeq(rP("&"), u), rTok("parsePostfix"))
}

func postfixRx() *rx {
	e := eTok(15)
	return rSeq(rTok("parsePrimary"), rStar(rAlt(
		rSeq(rP("["), e, rP("]")),
		rSeq(rP("("), rOpt(rSeq(e, rStar(rSeq(rP(","), e)), rOpt(rP(",")))), rP(")")),
		rP("++"), rP("--"))))
}

// ---------- the meaning of expressions ----------

// espec follows the source text of a piece and writes the code it stands for.
type espec struct {
	fr   *frel
	pe   *PEdge
	p    *sprog
	left func([]Val) Val
	lv   Val
	call func([]Val) Val // function of a call
	args func([]Val) []Val
	ctx  string
	errs []ffind
	lvOp bool // an operator needed storage and did not get it
	cond *sop
	tern int
	thn  *sop
}

func (s *espec) clone() *espec {
	n := *s
	q := *s.p
	q.ops = nil
	for _, o := range s.p.ops {
		c := *o
		q.ops = append(q.ops, &c)
		if o == s.cond {
			n.cond = &c
		}
		if o == s.thn {
			n.thn = &c
		}
	}
	n.p = &q
	n.errs = append([]ffind(nil), s.errs...)
	return &n
}

func (s *espec) isLv() (bool, bool) {
	return constBool(s.fr.decide(s.pe, s.lv))
}

func (s *espec) setLv(b bool) { s.lv = mkBool(b) }

func (s *espec) load(addr func([]Val) Val) func([]Val) Val {
	r := s.p.reg()
	s.p.add(&sop{op: "load", dst: r, f: addr})
	return regv(r)
}

// rv is the value of the operand in hand.
func (s *espec) rv() func([]Val) Val {
	b, ok := s.isLv()
	if !ok {
		l := s.left
		return func(g []Val) Val { return mk("value?", nil, l(g)) }
	}
	if b {
		return s.load(s.left)
	}
	return s.left
}

func (s *espec) needLv(op string) {
	b, ok := s.isLv()
	if !ok || !b {
		s.lvOp = true
		s.errs = append(s.errs, ffind{"lvalue", s.fr.u.M.where(s.pe.X), fmt.Sprintf("%s is accepted after %s without asking for storage", op, orNone(s.pe.Path))})
	}
}

func (s *espec) eval(ev *Event) func([]Val) Val {
	s.p.add(&sop{op: "eval", ev: ev})
	return konst(s.fr.u.E.canon(s.pe.X.St, ev.Res[0], nil))
}

func (s *espec) bad(format string, a ...interface{}) {
	s.errs = append(s.errs, ffind{"value", s.fr.u.M.where(s.pe.X), fmt.Sprintf(format, a...)})
}

func word(op string, a, b Val) Val {
	for _, p := range icmpPreds {
		if p == op {
			return cCmp(op, a, b)
		}
	}
	return cBin(op, a, b)
}

func (s *espec) incr(addr func([]Val) Val, d int64) (old func([]Val) Val) {
	old = s.load(addr)
	o := old
	s.p.add(&sop{op: "store", f: addr, h: func(g []Val) Val { return cAdd(o(g), mkInt(d, tInt64)) }})
	return
}

// char is a character of an operator.
func (s *espec) char(c byte) {
	switch {
	case s.ctx == "start" && strings.IndexByte("!-+*&", c) >= 0:
		s.ctx = "pre:" + string(c)
	case s.ctx == "pre:-" && c == '-', s.ctx == "pre:+" && c == '+':
		s.ctx += string(c)
	case s.ctx == "post" && c == '[' && s.postfix():
		l := s.rv()
		s.left, s.ctx = l, "idx"
		s.setLv(false)
	case s.ctx == "idx2" && c == ']':
		s.ctx = "post"
	case s.ctx == "post" && c == '(' && s.postfix():
		s.call = s.rv()
		s.args = func([]Val) []Val { return nil }
		s.ctx = "args"
	case (s.ctx == "args" || s.ctx == "args2") && c == ')':
		fn, args := s.call, s.args
		r := s.p.reg()
		s.p.add(&sop{op: "call", dst: r, f: fn, l: args})
		s.left, s.ctx = regv(r), "post"
		s.setLv(false)
	case s.ctx == "args2" && c == ',':
		s.ctx = "args"
	case s.ctx == "post" && c == '?' && !s.postfix():
		l := s.rv()
		s.cond = s.p.add(&sop{op: "cond", f: func(g []Val) Val { return cNot(cEq(l(g), mkInt(0, tInt64))) }})
		s.ctx = "then"
	case s.ctx == "then2" && c == ':':
		s.ctx = "else"
	case s.ctx == "post":
		s.ctx = "op:" + string(c)
	case strings.HasPrefix(s.ctx, "op:"):
		s.ctx += string(c)
	default:
		s.bad("character %q is not understood after %s", string(c), orNone(s.pe.Path))
	}
	if s.postfix() && (s.ctx == "op:++" || s.ctx == "op:--") {
		s.needLv("postfix " + s.ctx[3:])
		d := int64(1)
		if s.ctx == "op:--" {
			d = -1
		}
		s.left = s.incr(s.left, d)
		s.setLv(false)
		s.ctx = "post"
	}
}

func (s *espec) postfix() bool { return s.fr.u.Name == "parsePostfix" }

// sub is the evaluation of a sub-expression.
func (s *espec) sub(ev *Event) {
	name := ev.Name
	zero := mkInt(0, tInt64)
	if strings.HasPrefix(s.ctx, "op:") && name == exprFn {
		op := s.ctx[3:]
		s.ctx = "post"
		for _, o := range binops {
			if o.text == op {
				l := s.rv()
				r := s.eval(ev)
				ir := o.ir
				s.left = func(g []Val) Val { return word(ir, l(g), r(g)) }
				s.setLv(false)
				return
			}
		}
		for _, o := range assops {
			if "="+o.text == op {
				s.needLv(op)
				addr := s.left
				r := s.eval(ev)
				v := r
				if o.text != "" {
					old := s.load(addr)
					ir := o.ir
					v = func(g []Val) Val { return word(ir, old(g), r(g)) }
				}
				s.p.add(&sop{op: "store", f: addr, h: v})
				s.left = v
				s.setLv(false)
				return
			}
		}
		s.bad("operator %s is not understood", op)
		return
	}
	switch {
	case s.ctx == "start" || strings.HasPrefix(s.ctx, "pre:"):
		if name == exprFn || len(ev.Res) < 2 {
			s.bad("%s is called at the start of an operand", name)
			return
		}
		pre := strings.TrimPrefix(strings.TrimPrefix(s.ctx, "start"), "pre:")
		v := s.eval(ev)
		s.left, s.lv = v, ev.Res[1]
		s.ctx = "post"
		switch pre {
		case "!":
			l := s.rv()
			s.left = func(g []Val) Val { return cEq(l(g), zero) }
			s.setLv(false)
		case "-":
			l := s.rv()
			s.left = func(g []Val) Val { return cSub(zero, l(g)) }
			s.setLv(false)
		case "--", "++":
			s.needLv(pre)
			d := int64(1)
			if pre == "--" {
				d = -1
			}
			s.incr(s.left, d)
			s.setLv(true)
		case "*":
			s.left = s.rv()
			s.setLv(true)
		case "&":
			s.needLv(pre)
			s.setLv(false)
		}
	case s.ctx == "idx":
		l := s.left
		r := s.eval(ev)
		s.left = func(g []Val) Val { return cAdd(l(g), cMul(mkInt(8, tInt64), r(g))) }
		s.setLv(true)
		s.ctx = "idx2"
	case s.ctx == "args":
		a := s.args
		r := s.eval(ev)
		s.args = func(g []Val) []Val { return append(append([]Val(nil), a(g)...), r(g)) }
		s.ctx = "args2"
	case s.ctx == "then":
		r := s.eval(ev)
		s.tern = s.p.reg()
		s.thn = s.p.add(&sop{op: "let", dst: s.tern, f: r})
		s.ctx = "then2"
	case s.ctx == "else":
		s.cond.alt = len(s.p.ops)
		r := s.eval(ev)
		s.p.add(&sop{op: "let", dst: s.tern, f: r})
		s.thn.nxt = len(s.p.ops)
		s.left = regv(s.tern)
		s.setLv(false)
		s.ctx = "post"
	default:
		s.bad("the evaluation of %s after %s is not understood", name, orNone(s.pe.Path))
	}
}

func (s *espec) step(it PItem) []*espec {
	switch it.Kind {
	case "char":
		var r []*espec
		el := it.chars().Elems()
		if len(el) > 40 {
			s.bad("any of %d characters is taken after %s", len(el), orNone(s.pe.Path))
			return []*espec{s}
		}
		for i, c := range el {
			n := s
			if i < len(el)-1 {
				n = s.clone()
			}
			n.char(byte(c))
			r = append(r, n)
		}
		return r
	case "call":
		s.sub(it.Ev)
	case "eof", "readerr", "callfail", "lexerr":
	default:
		s.bad("%s is not understood", it.Kind)
	}
	return []*espec{s}
}

func exprSpecs(fr *frel, pe *PEdge, in Ghosts) []*espec {
	s := &espec{fr: fr, pe: pe, p: &sprog{}}
	s.left, s.lv = konst(in["left"]), in["lv"]
	s.call = konst(in["callee"])
	args := in["args"]
	s.args = func([]Val) []Val { return unseq(args) }
	if c, ok := constStr(in["ctx"]); ok {
		s.ctx = c
	} else {
		s.ctx = "?"
	}
	cur := []*espec{s}
	for _, it := range pe.Items {
		var nx []*espec
		for _, c := range cur {
			nx = append(nx, c.step(it)...)
		}
		cur = nx
	}
	return cur
}

func exprBuild(fr *frel, pe *PEdge, in Ghosts) []*sprog {
	var res []*sprog
	if pe.X.Out != nil && pe.Class != "ok" {
		// an error that is not one of the syntax
		return nil
	}
	for _, s := range exprSpecs(fr, pe, in) {
		s := s
		for _, b := range s.errs {
			fr.bad = append(fr.bad, b)
		}
		p := s.p
		if pe.X.Out != nil {
			// the end
			if s.ctx != "post" {
				fr.bad = append(fr.bad, ffind{"value", fr.u.M.where(pe.X), fmt.Sprintf("the expression ends after %s", orNone(pe.Path))})
			}
			p.outs = map[string]func([]Val) Val{}
			if fr.u.Name == exprFn {
				v := s.rv()
				p.outs["res0"] = v
				p.outs["type0"] = konst(mkStr("i64"))
			} else {
				p.outs["res0"] = s.left
				lv := fr.decide(pe, s.lv)
				p.outs["res1"] = konst(lv)
				if b, ok := constBool(lv); ok {
					t := "i64"
					if b {
						t = "i64*"
					}
					if fr.u.Name != "parsePrimary" {
						p.outs["type0"] = konst(mkStr(t))
					}
				}
			}
			p.add(&sop{op: "end"})
			res = append(res, p)
			continue
		}
		p.add(&sop{op: "end"})
		a := s.args
		p.outs = map[string]func([]Val) Val{
			"left": s.left, "lv": konst(fr.decide(pe, s.lv)), "callee": s.call, "ctx": konst(mkStr(s.ctx)),
			"args": func(g []Val) Val { return seqVal(a(g)) },
		}
		res = append(res, p)
	}
	return res
}

// exprTypes gives the IR types of the results of analysed calls.
func (u *Unit) exprTypes() func(t *Term, st *State) string {
	lv := map[int]Val{}
	for _, x := range u.M.Edges {
		for _, ev := range x.Evs {
			if ev.Kind == "call" && len(ev.Res) == 3 {
				if t, ok := ev.Res[0].(*Term); ok {
					lv[t.ID] = ev.Res[1]
				}
			}
		}
	}
	return func(t *Term, st *State) string {
		if t.Op == "idx" {
			return "i64"
		}
		if strings.HasPrefix(t.Name, exprFn+".") {
			return "i64"
		}
		if l, ok := lv[t.ID]; ok {
			if b, ok := constBool(u.E.norm(st, l)); ok {
				if b {
					return "i64*"
				}
				if !strings.HasPrefix(t.Name, "parsePrimary.") {
					return "i64"
				}
			}
		}
		return ""
	}
}

// lvalueOp tells whether a piece that fails has seen an operator that needs storage.
func lvalueOp(u *Unit, pe *PEdge) bool {
	s := ""
	after := ""
	for _, it := range pe.Items {
		switch it.Kind {
		case "char":
			el := it.chars().Elems()
			if len(el) == 1 {
				s += string(rune(el[0]))
			} else {
				s += "\x00"
			}
		case "call":
			after, s = s, ""
		}
	}
	switch u.Name {
	case "parseUnary":
		return s == "" && (after == "&" || after == "++" || after == "--")
	case "parsePostfix":
		return s == "++" || s == "--"
	}
	if !strings.HasPrefix(s, "=") {
		return false
	}
	if s == "=" {
		if len(pe.X.Pend) == 0 {
			for _, it := range pe.Items {
				if it.Kind == "eof" || it.Kind == "readerr" {
					return true
				}
			}
			return false
		}
		set, ok := pe.X.St.charSet(u.E.norm(pe.X.St, pe.X.Pend[0]))
		return ok && !set.Has('=')
	}
	return s != "=="
}

// expression analyses one of the expression functions at one level.
func (r *Rep) expression(p *Prog, name string, level int64, spec *rx, found map[int64]bool) {
	fn := p.fn(name)
	if fn == nil {
		r.ob("anchors", false, "", "function %s not found", name)
		return
	}
	set := map[int]Val{}
	if name == exprFn {
		n := 0
		for i, q := range fn.Params {
			if isIntT(q.Type()) {
				set[i] = mkInt(level, q.Type())
				n++
			}
		}
		if n != 1 {
			r.ob("anchors", false, "", "%s has %d level parameters", name, n)
			return
		}
	}
	keys := map[string]bool{}
	u := r.unitX(p, name, set, func(e *Eng, st *State) {
		e.onCut = func(st *State, f *ssa.Function, args []Val, key string) { keys[key] = true }
	})
	if u == nil {
		return
	}
	label := name
	if name == exprFn {
		label = fmt.Sprintf("%s(level %d)", name, level)
	}
	alias := map[string]string{}
	for k := range keys {
		if strings.HasPrefix(k, exprFn+"/") {
			n, err := strconv.ParseInt(k[len(exprFn)+1:], 10, 64)
			if err != nil {
				r.fail("grammar", "", "%s calls %s with a level that is not known", label, exprFn)
				continue
			}
			found[n] = true
			alias[k] = "E" + strconv.FormatInt(levelClass(n), 10)
		}
	}
	var first *Rep
	for mode := 0; mode < 3; mode++ {
		if mode > 0 {
			u.M = u.E.machineMode(name, u.St, u.Args, u.Outs, mode)
			if len(u.M.held) == 0 && mode == 1 {
				continue
			}
		}
		u.M.alias = alias
		s := newRep(r.prop, r.tier)
		s.exprMachine(u, label, spec)
		if first == nil {
			first = s
		}
		if len(s.viol) == 0 {
			first = s
			break
		}
	}
	r.merge(first)
}

func (r *Rep) exprMachine(u *Unit, label string, spec *rx) {
	var lvErrs []*PEdge
	pr := r.grammar("grammar", u, spec, func(pe *PEdge) bool {
		lvErrs = append(lvErrs, pe)
		return lvalueOp(u, pe)
	})
	r.pushback(u)
	ctx := "start"
	fr := &frel{u: u, pr: pr, names: []string{"left", "lv", "callee", "args", "ctx"}, build: exprBuild,
		init: Ghosts{"left": mk("none", nil), "lv": mkBool(false), "callee": mk("none", nil), "args": seqVal(nil), "ctx": mkStr(ctx)}}
	fr.typ = u.exprTypes()
	fr.gtyp = func(name string, in Ghosts) string {
		if name == "left" {
			if b, ok := constBool(in["lv"]); ok {
				if b {
					return "i64*"
				}
				if u.Name != "parsePostfix" {
					return "i64"
				}
			}
		}
		return ""
	}
	r.endsBlank(u, label)
	r.uses = append(r.uses, r.blockNames(u, label)...)
	fr.solve()
	r.count["code:pieces"] += fr.runs
	r.okc["code:pieces"] += fr.runs
	for _, b := range fr.bad {
		r.okc["code:pieces"]--
		r.fail("code:"+b.cat, b.where, "%s: %s", label, b.msg)
	}
	// errors that are not those of the syntax: storage was asked for
	for _, pe := range lvErrs {
		if !lvalueOp(u, pe) {
			continue
		}
		in := fr.in(pe.From)
		ok := in != nil
		if ok {
			for _, s := range exprSpecs(fr, pe, in) {
				b, known := s.isLv()
				if !s.lvOp && !(known && !b) {
					ok = false
				}
			}
		}
		r.ob("storage operators", ok, u.M.where(pe.X), "%s fails after %s although the operand may be storage", label, orNone(pe.Path))
	}
}

// endsBlank asks that a function called as one that skips the blanks after what it
// reads does so.
func (r *Rep) endsBlank(u *Unit, label string) {
	if !u.E.endsWS[u.Name] {
		return
	}
	for _, x := range u.M.Edges {
		if x.Out == nil || u.errClass(x) != "ok" {
			continue
		}
		ok := false
		st := x.Out.st
		if len(x.Pend) > 0 {
			c := u.E.norm(st, x.Pend[0])
			set, known := st.charSet(c)
			t, isT := c.(*Term)
			ok = known && !set.Meets(wsSet) && (!set.Has('/') || isT && st.postWS[t.ID])
		} else {
			ok = st.afterWS && wsSet.Sub(st.excl) || st.eof
			for _, it := range x.Items {
				if it.Kind == "eof" || it.Kind == "readerr" {
					ok = true
				}
			}
		}
		r.ob("blanks after", ok, u.M.where(x), "%s may return before the blanks that follow", label)
	}
}

// expressions analyses all functions of expressions.
func (r *Rep) expressions(p *Prog) {
	names := []string{"parseUnary", "parsePostfix", exprFn}
	for _, n := range names {
		p.endsWS[n] = true
	}
	for {
		s := newRep(r.prop, r.tier)
		s.files = r.files
		s.expressionPass(p)
		again := false
		if s.count["blanks after"] != s.okc["blanks after"] {
			for _, n := range names {
				for _, v := range s.viol {
					if p.endsWS[n] && strings.Contains(v, "blanks after: "+n) {
						p.endsWS[n] = false
						again = true
					}
				}
			}
		}
		if !again {
			r.merge(s)
			return
		}
	}
}

func (r *Rep) expressionPass(p *Prog) {
	r.expression(p, "parseUnary", 0, unaryRx(), map[int64]bool{})
	found := map[int64]bool{15: true}
	r.expression(p, "parsePostfix", 0, postfixRx(), found)
	done := map[int64]bool{}
	for {
		var todo []int64
		for l := range found {
			if !done[l] {
				todo = append(todo, l)
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i] < todo[j] })
		for _, l := range todo {
			done[l] = true
			r.expression(p, exprFn, l, exprRx(l), found)
		}
	}
}
