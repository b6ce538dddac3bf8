package main

// Statements: their grammar, the control flow they stand for, labels, declarations.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var stmtWords = []string{"auto", "case", "extrn", "goto", "if", "return", "switch", "while"}

// stmtAnchor is the function that reads one statement.
func (p *Prog) stmtAnchor() *ssa.Function {
	var res *ssa.Function
	for _, f := range p.anchors() {
		switch f.Name() {
		case "parseExpressionWithLevel", "parseUnary", "parsePostfix", "parsePrimary":
			continue
		}
		if res != nil {
			return nil
		}
		res = f
	}
	return res
}

// stmtParams are the positions of the number of the enclosing switch and of the list of its cases.
func stmtParams(fn *ssa.Function) (id, list int) {
	id, list = -1, -1
	for i, q := range fn.Params {
		t := q.Type()
		if isIntT(t) {
			id = i
			continue
		}
		if pt, ok := under(t).(*types.Pointer); ok {
			if sl, ok := under(pt.Elem()).(*types.Slice); ok && isIntT(sl.Elem()) {
				list = i
			}
		}
	}
	return
}

func rIdent(w string) *rx { return rSet(SymSet{identSym(w, stmtWords): true}) }

func stmtRx(inSwitch bool) *rx {
	E, S := eTok(15), rTok("S")
	name := rIdent("")
	any := rIdent("")
	for _, w := range stmtWords {
		any.set[identSym(w, stmtWords)] = true
	}
	alts := []*rx{
		rSeq(rP("{"), rStar(S), rP("}")),
		rP(";"),
		rSeq(E, rP(";")),
		rSeq(rIdent("return"), rOpt(rSeq(rP("("), E, rP(")"))), rP(";")),
		rSeq(rIdent("if"), rP("("), E, rP(")"), S, rAlt(rSeq(), rSeq(rP("else"), notNextSet(identSet), S))),
		rSeq(rIdent("while"), rP("("), E, rP(")"), S),
		rSeq(rIdent("switch"), E, S),
		rSeq(rIdent("goto"), any, rP(";")),
		rSeq(name, rP(":"), S),
	}
	decl := rSeq(any, rOpt(rSeq(rP("["), rOpt(rAlt(rTok("number"), rSeq(rP("'"), rTok("charlit")))), rP("]"))))
	alts = append(alts, rSeq(rIdent("auto"), decl, rStar(rSeq(rP(","), decl)), rP(";")))
	alts = append(alts, rSeq(rIdent("extrn"), any, rStar(rSeq(rP(","), any)), rP(";")))
	if inSwitch {
		alts = append(alts, rSeq(rIdent("case"), rAlt(rTok("number"), rSeq(rP("'"), rTok("charlit"))), rP(":"), S))
	}
	return rAlt(alts...)
}

func notNextSet(s ByteSet) *rx {
	b := rChars(laBase, srcSet.Minus(s))
	b.set[laEOF] = true
	return b
}

type stmtCtx struct {
	r        *Rep
	u        *Unit
	pr       *Prod
	fn       *ssa.Function
	idp, lsp int // parameters
	inSw     bool
	label    string
	defs     map[string]bool // sets of the labels that are defined

	forms     []autoForm // declarations that are remembered for later
	usedBy    map[*PEdge][]string
	loopSeen  map[*LoopInfo]bool
	nameField string
	lastKind  string
	dead      map[*PEdge]bool
}

// statements analyses the function that reads a statement, outside and inside of a switch.
func (r *Rep) statements(p *Prog) {
	fn := p.stmtAnchor()
	if fn == nil {
		r.ob("anchors", false, "", "the function that reads a statement is not found")
		return
	}
	idp, lsp := stmtParams(fn)
	if idp < 0 || lsp < 0 {
		r.ob("anchors", false, "", "%s has no parameters for the enclosing switch", fn.Name())
		return
	}
	for _, in := range []bool{false, true} {
		r.statement(p, fn, idp, lsp, in)
	}
}

func (r *Rep) statement(p *Prog, fn *ssa.Function, idp, lsp int, inSw bool) {
	set := map[int]Val{}
	alias := map[string]string{exprFn + "/15": "E14"}
	label := fn.Name() + " outside of switch"
	if inSw {
		label = fn.Name() + " in a switch"
	}
	u := r.unitX(p, fn.Name(), set, func(e *Eng, st *State) {
		if inSw {
			t := fresh("switch", fn.Params[idp].Type())
			st.ivl[t.ID] = Ivl{0, fullIvl.Hi}
			set[idp] = t
			lt := under(fn.Params[lsp].Type()).(*types.Pointer).Elem()
			o := st.newObj(lt, nil, "cases")
			o.Fresh = false
			o.V = st.newList([]Val{&Splat{fresh("cases", lt)}}, lt)
			for _, x := range st.heap {
				if x.Fresh {
					x.Fresh = false
				}
			}
			set[lsp] = &Ptr{Obj: o.ID}
		} else {
			set[idp] = mkInt(-1, fn.Params[idp].Type())
			set[lsp] = mkNil(fn.Params[lsp].Type())
		}
		e.onCut = func(st *State, f *ssa.Function, args []Val, key string) {
			if f == fn {
				alias[key] = "S"
				n, l := e.norm(st, args[idp]), args[lsp]
				iv := st.interval(n)
				out := iv.Hi < 0 && isNil(strip(l))
				_, ptr := strip(l).(*Ptr)
				if !out && !(iv.Lo >= 0 && ptr) {
					r.fail("context", "", "%s: a statement is read with switch %s and cases %s", label, e.show(n, st), e.show(l, st))
				}
				r.count["context"]++
				r.okc["context"]++
			}
		}
	})
	if u == nil {
		return
	}
	u.M.alias = alias
	c := &stmtCtx{r: r, u: u, fn: fn, idp: idp, lsp: lsp, inSw: inSw, label: label, defs: map[string]bool{},
		usedBy: map[*PEdge][]string{}, loopSeen: map[*LoopInfo]bool{}, dead: map[*PEdge]bool{}}
	c.findDefs()
	c.pr = r.grammarI("grammar", u, stmtRx(inSw), stmtWords, c.errAllowed)
	r.pushback(u)
	c.exprStart()
	r.uses = append(r.uses, r.blockNames(u, label)...)
	// what is remembered has to be known before it is looked at how it is used
	c.r = newRep(r.prop, r.tier)
	c.meaning()
	c.r = r
	c.usedBy, c.loopSeen, c.dead = map[*PEdge][]string{}, map[*LoopInfo]bool{}, map[*PEdge]bool{}
	c.meaning()
}

// errAllowed tells which errors are not errors of the syntax.
func (c *stmtCtx) errAllowed(pe *PEdge) bool {
	for _, it := range pe.Items {
		if it.Kind == "lexerr" || it.Kind == "callfail" || it.Kind == "readerr" {
			return false
		}
	}
	return c.redefinition(pe) || c.functionExtrn(pe)
}

// redefinition tells whether a piece has found a label, case or variable that is there already.
func (c *stmtCtx) redefinition(pe *PEdge) bool {
	e, x := c.u.E, pe.X
	lm := e.labelMap()
	kind, key := "", Val(nil)
	for i, it := range pe.Items {
		switch {
		case i == 0 && it.Kind == "tok" && it.Ev.Name == "ident":
			kind, key = "name", it.V
		case it.Kind == "tok" && it.Ev.Name == "ident":
			kind, key = "name", it.V
		case it.Kind == "tok" && (it.Ev.Name == "number" || it.Ev.Name == "charlit"):
			if c.word(pe) == "case" {
				kind, key = "case", it.V
			}
		}
	}
	if kind == "name" && c.word(pe) != "goto" {
		// a name that is the same as one remembered
		noted := false
		for _, ev := range x.Evs {
			noted = noted || ev.Kind == "mapup" && ev.Name == "map" && same(e.canon(x.St, ev.Args[1], nil), e.canon(x.St, key, nil))
		}
		for _, o := range x.St.heap {
			m, ok := o.V.(*MapVal)
			if !ok || m.Name != "" {
				continue
			}
			for _, en := range m.Ents {
				if en.Present && m.Opaque && same(e.canon(x.St, key, nil), e.canon(x.St, en.K, nil)) && !noted {
					return true
				}
				if b, known := x.St.bools[mkEq(key, en.K).Key()]; en.Present && known && b && !same(key, en.K) {
					return true
				}
			}
		}
	}
	for _, ev := range x.Evs {
		if ev.Kind != "maplook" || ev.Flag != "present" || ev.Name == lm {
			continue
		}
		switch kind {
		case "name":
			if same(e.canon(x.St, ev.Args[1], nil), e.canon(x.St, key, nil)) && (ev.Name == "locals" || ev.Name == "map" || e.defMap(ev.Name)) {
				return true
			}
		case "case":
			if e.defMap(ev.Name) && caseKey(e.canon(x.St, ev.Args[1], nil), e.canon(x.St, x.StartArg(c.u, c.idp), nil), e.canon(x.St, key, nil)) {
				return true
			}
		}
	}
	return false
}

// StartArg is an argument of the analysed function.
func (x *Edge) StartArg(u *Unit, i int) Val { return u.Args[i] }

// defMap tells whether a field of the compiler can be a set of names.
func (e *Eng) defMap(f string) bool {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			m, ok := under(s.Field(i).Type()).(*types.Map)
			return ok && isStrT(m.Key())
		}
	}
	return false
}

// caseKey tells whether a name is made of the number of the switch and the value of the case,
// with a separator, and can not be the name of a label of the program.
func caseKey(k, id, v Val) bool {
	s := unseq(k)
	var nums []Val
	bad, sep := false, false
	for _, c := range s {
		if n, ok := constInt(c); ok {
			if n < 256 && !identSet.Has(int(n)) {
				bad = true
				if len(nums) == 1 && n != '-' {
					sep = true
				}
			}
			continue
		}
		t, ok := c.(*Term)
		if ok && t.Op == "splat" {
			if q, ok := t.Args[0].(*Term); ok && q.Op == "itoa" {
				nums = append(nums, q.Args[0])
				continue
			}
		}
		return false
	}
	return bad && sep && len(nums) == 2 && same(nums[0], id) && same(nums[1], v)
}

// functionExtrn tells whether a piece has found that a name declared by extrn is a function.
func (c *stmtCtx) functionExtrn(pe *PEdge) bool {
	e, x := c.u.E, pe.X
	var id Val
	for _, it := range pe.Items {
		if it.Kind == "tok" && it.Ev.Name == "ident" {
			id = it.V
		}
	}
	if id == nil {
		return false
	}
	sym := e.symbolOf(x.St, id)
	if e.knownHas(x.St, "Globals", sym) == 1 {
		return false
	}
	if e.knownHas(x.St, "Funcs", sym) == 1 {
		return true
	}
	for _, ev := range x.Evs {
		if ev.Kind == "maplook" && ev.Flag == "present" && e.boolMap(ev.Name) && !c.labelDefs(ev.Name) &&
			same(e.canon(x.St, ev.Args[1], nil), e.canon(x.St, id, nil)) {
			return true
		}
	}
	return false
}

// boolMap tells whether a field of the compiler is a set of names.
func (e *Eng) boolMap(f string) bool {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			m, ok := under(s.Field(i).Type()).(*types.Map)
			if !ok {
				return false
			}
			if b, ok := under(m.Elem()).(*types.Basic); ok && b.Kind() == types.Bool {
				return true
			}
			st, ok := under(m.Elem()).(*types.Struct)
			return ok && st.NumFields() == 0
		}
	}
	return false
}

// labelDefs tells whether a set of names is the one of the labels defined.
func (c *stmtCtx) labelDefs(f string) bool { return c.defs[f] }

// word is the keyword a statement starts with, or the name of a label.
func (c *stmtCtx) word(pe *PEdge) string {
	for _, it := range pe.Items {
		if it.Kind == "tok" && it.Ev.Name == "ident" {
			if s, ok := constStr(c.u.E.norm(pe.X.St, it.V)); ok {
				return s
			}
			// a name that is known to be a word
			for _, w := range stmtWords {
				if c.u.E.isWord(pe.X.St, it.V, w) == 1 {
					return w
				}
			}
			return ""
		}
	}
	return ""
}

// isWord tells whether a name is a word: 1 it is, 0 it is not, -1 not known.
func (e *Eng) isWord(st *State, id Val, w string) int {
	n := e.norm(st, id)
	if s, ok := constStr(n); ok {
		if s == w {
			return 1
		}
		return 0
	}
	t, ok := n.(*Term)
	if !ok {
		return -1
	}
	if st.neqc[t.ID][mkStr(w).Key()] {
		return 0
	}
	if c := st.eqc[t.ID]; c != nil {
		if s, ok := constStr(c); ok && s == w {
			return 1
		}
		return 0
	}
	if b, ok := st.bools[mkEq(t, mkStr(w)).Key()]; ok {
		if b {
			return 1
		}
		return 0
	}
	return -1
}

// ---------- control flow ----------

// swalk follows the text of a statement and writes the control flow it stands for.
type swalk struct {
	ctx   string
	p     *sprog
	nS    int
	cond  *sop
	jump1 *sop // the end of the first branch
	val   func([]Val) Val
	id    Val // name of a label or variable
	num   Val // constant of a case or size
	body  *Event
	dead  bool // control does not go on
	jumps bool // it is a goto
	two   *sprog
	decls []sdecl
	brack bool
	errs  []string
}

// sdecl is a declared variable.
type sdecl struct {
	id   Val
	kind string // scalar vector
	size Val
}

func (w *swalk) bad(f string, a ...interface{}) { w.errs = append(w.errs, fmt.Sprintf(f, a...)) }

func nonzero(v func([]Val) Val) func([]Val) Val {
	return func(g []Val) Val { return cNot(cEq(v(g), mkInt(0, tInt64))) }
}

func (w *swalk) eval(c *stmtCtx, pe *PEdge, ev *Event) func([]Val) Val {
	w.p.add(&sop{op: "eval", ev: ev})
	if len(ev.Res) == 0 || ev.Res[0] == nil {
		return nil
	}
	return konst(c.u.E.canon(pe.X.St, ev.Res[0], nil))
}

func (w *swalk) step(c *stmtCtx, pe *PEdge, it PItem) {
	e, st := c.u.E, pe.X.St
	isS := it.Kind == "call" && it.Ev.Name == c.fn.Name()
	isE := it.Kind == "call" && !isS
	ch := byte(0)
	if it.Kind == "char" {
		el := it.chars().Elems()
		if len(el) == 1 {
			ch = byte(el[0])
		} else if w.ctx != "number" {
			w.bad("any of several characters is taken")
		}
	}
	switch {
	case it.Kind == "eof" || it.Kind == "readerr" || it.Kind == "lexerr" || it.Kind == "callfail":
	case w.ctx == "" && ch == '{':
		w.ctx = "block"
	case w.ctx == "block" && isS:
		w.eval(c, pe, it.Ev)
	case w.ctx == "block" && ch == '}', w.ctx == "" && ch == ';', w.ctx == "expr" && ch == ';':
		w.ctx = "done"
	case w.ctx == "" && isE:
		w.eval(c, pe, it.Ev)
		w.ctx = "expr"
	case w.ctx == "" && it.Kind == "tok" && it.Ev.Name == "ident":
		w.ctx = "name"
		w.id = it.V
		for _, k := range stmtWords {
			if e.isWord(st, it.V, k) == 1 {
				w.ctx = k
			}
		}
		if w.ctx == "return" {
			w.val = konst(mkInt(0, tInt64))
		}
	case w.ctx == "return" && ch == ';':
		v := w.val
		w.p.add(&sop{op: "ret", f: v})
		w.ctx, w.dead = "done", true
	case w.ctx == "return" && isE:
		w.val = w.eval(c, pe, it.Ev)
	case ch == '(' || ch == ')', w.ctx == "if" && ch != 0 && strings.IndexByte("else", ch) >= 0:
	case w.ctx == "if" && isE:
		w.cond = w.p.add(&sop{op: "cond", f: nonzero(w.eval(c, pe, it.Ev))})
		w.p.ops[len(w.p.ops)-1].nxt = len(w.p.ops)
	case w.ctx == "if" && isS && w.nS == 0:
		w.eval(c, pe, it.Ev)
		w.nS = 1
		w.jump1 = w.p.ops[len(w.p.ops)-1]
		w.cond.alt = len(w.p.ops)
	case w.ctx == "if" && isS && w.nS == 1:
		w.eval(c, pe, it.Ev)
		w.nS = 2
		w.jump1.nxt = len(w.p.ops)
	case w.ctx == "while" && isE:
		w.cond = &sop{op: "cond", f: nonzero(w.eval(c, pe, it.Ev))}
		w.p.add(w.cond)
	case w.ctx == "while" && isS:
		w.eval(c, pe, it.Ev)
		w.p.ops[len(w.p.ops)-1].nxt = 0
		w.cond.alt = len(w.p.ops)
		w.ctx = "done"
	case w.ctx == "switch" && isE:
		w.val = w.eval(c, pe, it.Ev)
		w.ctx = "switch2"
	case w.ctx == "switch2" && isS:
		w.body = it.Ev
		w.two = &sprog{}
		w.two.add(&sop{op: "eval", ev: it.Ev})
		w.two.add(&sop{op: "end"})
		w.ctx = "switched"
	case w.ctx == "goto" && it.Kind == "tok":
		w.id = it.V
	case w.ctx == "goto" && ch == ';':
		w.p.add(&sop{op: "jump", f: konst(e.canon(st, w.id, nil))})
		w.ctx, w.dead, w.jumps = "done", true, true
	case w.ctx == "name" && ch == ':':
		w.p.add(&sop{op: "label", f: konst(e.canon(st, w.id, nil))})
		w.ctx = "labelled"
	case w.ctx == "labelled" && isS:
		w.eval(c, pe, it.Ev)
		w.body = it.Ev
		w.ctx = "done"
	case w.ctx == "case" && it.Kind == "tok":
		w.num = it.V
	case w.ctx == "case" && ch == '\'':
	case w.ctx == "case" && ch == ':':
		w.ctx = "cased"
	case w.ctx == "cased" && isS:
		w.body = it.Ev
		w.ctx = "casedone"
	case w.ctx == "auto" && it.Kind == "tok" && it.Ev.Name == "ident":
		w.id = it.V
		w.decls = append(w.decls, sdecl{id: it.V, kind: "scalar"})
	case w.ctx == "auto" && ch == '[':
		if n := len(w.decls); n > 0 {
			w.decls[n-1].kind, w.decls[n-1].size = "vector", mkInt(0, tInt64)
		} else {
			w.bad("a name and its size are not read together")
		}
	case w.ctx == "auto" && it.Kind == "tok":
		if n := len(w.decls); n > 0 && w.decls[n-1].kind == "vector" {
			w.decls[n-1].size = it.V
		} else {
			w.bad("a name and its size are not read together")
		}
	case w.ctx == "auto" && (ch == ']' || ch == ',' || ch == '\''):
	case w.ctx == "auto" && ch == ';':
		w.ctx = "auto;"
	case w.ctx == "extrn" && it.Kind == "tok":
		w.decls = append(w.decls, sdecl{id: it.V, kind: "extrn"})
	case w.ctx == "extrn" && (ch == ',' || ch == ';'):
	default:
		w.bad("the meaning of %s in a statement is not understood after %s", it.Kind, orNone(pe.Path))
	}
}

type sstate struct {
	c   cfg
	ctx string
}

// meaning compares the emitted code of every piece with the control flow the text stands for.
func (c *stmtCtx) meaning() {
	r, u := c.r, c.u
	out := map[cfg][]*PEdge{}
	for _, pe := range c.pr.Edges {
		out[pe.From] = append(out[pe.From], pe)
	}
	q := []sstate{{cfg{}, ""}}
	seen := map[sstate]bool{q[0]: true}
	for len(q) > 0 {
		s := q[0]
		q = q[1:]
		for _, pe := range out[s.c] {
			if pe.X.Out != nil && pe.Class != "ok" {
				continue
			}
			w := &swalk{ctx: s.ctx, p: &sprog{}}
			for _, it := range pe.Items {
				w.step(c, pe, it)
			}
			for _, m := range w.errs {
				r.fail("flow", u.M.where(pe.X), "%s: %s", c.label, m)
			}
			c.piece(pe, s.ctx, w)
			if pe.X.Out == nil {
				n := sstate{pe.To, w.ctx}
				if !seen[n] {
					seen[n] = true
					q = append(q, n)
				}
			}
		}
	}
}

// own tells whether a statement is read with the switch of the analysed one.
func (c *stmtCtx) own(pe *PEdge, ev *Event) bool {
	e := c.u.E
	args := ev.Args
	if len(args) <= c.idp || len(args) <= c.lsp {
		return false
	}
	return same(e.norm(pe.X.St, args[c.idp]), e.norm(pe.X.St, c.u.Args[c.idp])) && same(strip(args[c.lsp]), strip(c.u.Args[c.lsp])) ||
		!c.inSw && isNil(strip(args[c.lsp]))
}

func (c *stmtCtx) piece(pe *PEdge, from string, w *swalk) {
	r, u, x := c.r, c.u, pe.X
	e, st := u.E, x.St
	where := u.M.where(x)
	f := u.flow(x)
	f.empty = map[string]bool{}
	f.typ = u.exprTypes()
	ob := func(rule string, ok bool, format string, a ...interface{}) {
		r.ob(rule, ok, where, "%s: %s", c.label, fmt.Sprintf(format, a...))
	}
	// statements inside
	for _, ev := range x.Evs {
		if ev.Kind != "call" || ev.Name != c.fn.Name() {
			continue
		}
		o := c.own(pe, ev)
		none := false
		if n, ok := constInt(e.norm(st, ev.Args[c.idp])); ok && n < 0 {
			none = true
		}
		switch w.ctx {
		case "block", "done", "casedone":
			if w.ctx == "done" && (w.cond != nil || w.nS > 0) {
				ob("switch", o || none, "the body of a loop is read with another switch")
			} else {
				ob("switch", o, "a statement in a block or after a label does not belong to the enclosing switch")
			}
		case "if", "while":
			ob("switch", o || none, "the body of a conditional is read with another switch")
		case "switched":
			ob("switch", !o && !none, "the body of a switch does not get a switch of its own")
		}
	}
	p := w.p
	f2 := (*Flow)(nil)
	switch w.ctx {
	case "switched":
		f2 = u.flow(x)
		f2.empty, f2.typ = f.empty, f.typ
		c.switchPiece(pe, w, f)
	case "casedone":
		c.casePiece(pe, w, f)
	case "auto", "auto;":
		c.autoPiece(pe, from, w, f)
	case "extrn":
		c.extrnPiece(pe, w)
	}
	switch {
	case w.ctx == "done" && w.body != nil:
		c.labelPiece(pe, f, e.canon(st, w.id, nil))
	case w.jumps:
		c.gotoPiece(pe, w)
	}
	if w.ctx != "auto" && w.ctx != "auto;" {
		p.add(&sop{op: "end"})
		ends := f.simulate(p, Sub{}, map[string]tv{})
		if f2 != nil {
			f2.start = ""
			for k, b := range f2.blocks {
				for i, o := range b.ops {
					if o.op == "eval" && o.ev == w.body {
						if i == 0 && b.here {
							f2.start = k
						}
					}
				}
			}
			if f2.start == "" {
				ob("flow", false, "the body of a switch does not start in a block of its own")
			} else {
				e2 := f2.simulate(w.two, Sub{}, map[string]tv{})
				f.bad = append(f.bad, f2.bad...)
				ob("flow", len(e2) > 0, "control does not go on after the body of a switch")
			}
		}
		if x.Out != nil {
			if w.dead {
				b := f.blocks[f.final]
				ob("flow", len(ends) == 0 && b != nil && b.here && len(b.ops) == 0 && len(f.preds(f.final)) == 0, "the code after a jump does not start in a fresh block")
			} else {
				ob("flow", len(ends) > 0, "control does not go on after the statement")
			}
		}
	}
	c.closed(pe, f)
	r.count["code:pieces"]++
	if len(f.bad) == 0 {
		r.okc["code:pieces"]++
	}
	for _, b := range f.bad {
		r.fail("code:"+b.cat, b.where, "%s: %s", c.label, b.msg)
	}
}

// closed asks that every block made in a piece ends and that the piece goes on in an open block.
func (c *stmtCtx) closed(pe *PEdge, f *Flow) {
	u := c.u
	for _, k := range f.order {
		b := f.blocks[k]
		if k == f.final {
			if b.term != nil {
				f.fail("form", nil, "the insertion point is left after the end of a block")
			}
			continue
		}
		if b.term != nil {
			continue
		}
		after := k == f.start
		for _, b2 := range f.blocks {
			for _, o := range b2.ops {
				after = after || o.op == "eval" && o.res == k
			}
		}
		if b.here || after {
			if len(b.ops) > 0 && b.ops[len(b.ops)-1].op == "eval" {
				continue
			}
			if _, ok := f.labels[k]; ok && len(b.ops) == 0 && !after {
				continue
			}
			f.fail("form", nil, "a block is made that does not end")
		}
	}
	_ = u
}
