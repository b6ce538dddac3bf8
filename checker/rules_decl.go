package main

// Top-level declarations: their grammar, the variables and functions they define.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const declFn = "ParseDeclarations"

func declRx() *rx {
	name := rIdent("")
	for _, w := range stmtWords {
		name.set[identSym(w, stmtWords)] = true
	}
	ival := rAlt(rSeq(rOpt(rP("-")), rTok("number")), rSeq(rP("'"), rTok("charlit")), rSeq(rP("\""), rTok("strlit")))
	ivals := rSeq(ival, rStar(rSeq(rP(","), ival)))
	params := rSeq(name, rStar(rSeq(rP(","), name)))
	decl := rSeq(name, rAlt(
		rSeq(rP("("), rOpt(params), rP(")"), rTok("S")),
		rSeq(rP("["), rOpt(rTok("number")), rP("]"), rOpt(ivals), rP(";")),
		rSeq(rOpt(ivals), rP(";"))))
	return rSeq(rStar(decl), rEOF())
}

func rEOF() *rx { return rSet(SymSet{symEOF: true}) }

// denv is what is known of the declaration that is being read.
type denv struct {
	ctx     string // "" name params open size sized vals
	vec     bool
	hasSize bool
	neg     bool
	name    []Val // values that are the name
	size    []Val // values that are the size
	pv      Val   // the parameters, once they are complete
	// the module and the tables
	fact  map[string]bool // nofunc noglob nodata
	clean map[string]bool // tables of the compiler known to be empty
	// the function being made
	fn, entry Val
	stage     string // "" made started
	variadic  bool
	va        string // "" started ended
	vaList    Val
	p0        bool
	ent       map[int]string // what a map made in this function holds
	pobjs     map[int]bool
}

func (v *denv) clone() *denv {
	n := *v
	n.name = append([]Val(nil), v.name...)
	n.size = append([]Val(nil), v.size...)
	n.fact, n.clean, n.ent, n.pobjs = map[string]bool{}, map[string]bool{}, map[int]string{}, map[int]bool{}
	for k := range v.fact {
		n.fact[k] = true
	}
	for k := range v.clean {
		n.clean[k] = true
	}
	for k, x := range v.ent {
		n.ent[k] = x
	}
	for k := range v.pobjs {
		n.pobjs[k] = true
	}
	return &n
}

func keyOf(v Val) string {
	if v == nil {
		return ""
	}
	return strip(v).Key()
}

// sum is the shape of what is known, without the facts that are joined.
func (v *denv) shape() string {
	return fmt.Sprint(v.ctx, v.vec, v.hasSize, v.neg, keyOf(v.fn), keyOf(v.entry), v.stage, v.va, keyOf(v.vaList), v.p0, v.variadic)
}

func inter(a, b []Val) (r []Val) {
	for _, x := range a {
		for _, y := range b {
			if same(x, y) {
				r = append(r, x)
				break
			}
		}
	}
	return
}

// join keeps what is known on both ways; ok is false when they do not fit together.
func (v *denv) join(w *denv) (n *denv, changed, ok bool) {
	if v.shape() != w.shape() {
		return v, false, false
	}
	n = v.clone()
	n.name, n.size = inter(v.name, w.name), inter(v.size, w.size)
	changed = len(n.name) != len(v.name) || len(n.size) != len(v.size)
	if n.pv != nil && (w.pv == nil || !same(n.pv, w.pv)) {
		n.pv, changed = nil, true
	}
	for k := range v.fact {
		if !w.fact[k] {
			delete(n.fact, k)
			changed = true
		}
	}
	for k := range v.clean {
		if !w.clean[k] {
			delete(n.clean, k)
			changed = true
		}
	}
	for k, x := range w.ent {
		if n.ent[k] != x {
			m := joinWords(n.ent[k], x)
			changed = changed || m != n.ent[k]
			n.ent[k] = m
		}
	}
	for k := range w.pobjs {
		if !n.pobjs[k] {
			n.pobjs[k] = true
			changed = true
		}
	}
	return n, changed, true
}

func joinWords(a, b string) string {
	m := map[string]bool{}
	for _, x := range strings.Fields(a + " " + b) {
		m[x] = true
	}
	var l []string
	for x := range m {
		l = append(l, x)
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

type declCtx struct {
	r     *Rep
	u     *Unit
	p     *Prog
	pr    *Prod
	fn    *ssa.Function
	rel   *Relation
	envs  map[cfg]*denv
	cur   *Edge
	label string
	errs  []*PEdge
	quiet bool // facts are only collected
	terms map[string]string
	fresh map[string]bool // tables that are empty in a new compiler
}

func (c *declCtx) ob(x *Edge, rule string, ok bool, f string, a ...interface{}) bool {
	if c.quiet {
		return ok
	}
	if m := os.Getenv("BLANG_OB"); !ok && m != "" && strings.Contains(f, m) {
		fmt.Printf("OB %s%s\n", fmt.Sprintf(f, a...), c.u.desc(x))
		for k, b := range x.St.bools {
			if t := termOfKey(k); t != nil {
				fmt.Printf("    %v %s\n", b, c.u.E.show(t, nil))
			}
		}
	}
	return c.r.ob(rule, ok, c.u.M.where(x), "%s", fmt.Sprintf(f, a...))
}

// declarations analyses the function that reads a program.
func (r *Rep) declarations(p *Prog) {
	fn := p.stmtAnchor()
	if fn == nil {
		r.ob("anchors", false, "", "the function that reads a statement is not found")
		return
	}
	idp, lsp := stmtParams(fn)
	alias := map[string]string{}
	u := r.unitX(p, declFn, nil, func(e *Eng, st *State) {
		e.fieldEvs = true
		e.onCut = func(st *State, f *ssa.Function, args []Val, key string) {
			if f == fn {
				alias[key] = "S"
				e.readLists(st)
				n := e.norm(st, args[idp])
				iv := st.interval(n)
				r.ob("context", iv.Hi < 0 && isNil(strip(args[lsp])), e.pos(fn.Pos()), "the statement of a function is read with switch %s and cases %s", e.show(n, st), e.show(args[lsp], st))
			}
		}
	})
	if u == nil {
		return
	}
	u.M.alias = alias
	c := &declCtx{r: r, u: u, p: p, fn: fn, envs: map[cfg]*denv{}}
	c.fresh = r.freshTables(p)
	c.pr = r.grammarI("grammar", u, declRx(), stmtWords, c.errAllowed)
	r.pushback(u)
	if len(c.pr.Bad) > 0 {
		return
	}
	u.E.wordOf = c.wordOf
	c.flow(false)
	c.rel = u.M.relate(c.pr, []string{"params", "vals", "va"}, Ghosts{"params": seqVal(nil), "vals": seqVal(nil), "va": mkInt(0, tInt64)}, c.ghosts)
	c.flow(true)
	c.flow(false)
	for _, pe := range c.pr.Edges {
		v := c.envs[pe.From]
		if v == nil || pe.X.Out != nil && pe.Class != "ok" {
			continue
		}
		c.edge(pe, v.clone())
	}
	for _, pe := range c.errs {
		if v := c.envs[pe.From]; v != nil {
			c.errorEnd(pe, v.clone())
		} else {
			c.ob(pe.X, "errors", false, "the declaration that fails here is not known")
		}
	}
	r.uses = append(r.uses, r.blockNames(u, declFn)...)
	c.paramNames()
	u.E.wordOf = nil
}

// errAllowed defers the judgement of an error that depends on what was declared before.
func (c *declCtx) errAllowed(pe *PEdge) bool {
	c.errs = append(c.errs, pe)
	return true
}

// ---------- values ----------

// wordOf is the word a constant of the module stands for.
func (c *declCtx) wordOf(st *State, p *Ptr, sub Sub) Val {
	ct := c.u.E.ctor(st, p)
	if ct == nil || !strings.HasPrefix(ct.Op, "constant.New") || ct.Op == "constant.NewArray" || ct.Op == "constant.NewZeroInitializer" {
		return nil
	}
	f := &Flow{e: c.u.E, u: c.u, x: c.cur, st: st}
	t := f.val(&fctx{sub: sub}, nil, p)
	if t.t != "i64" || len(f.bad) > 0 {
		return mk("notword:"+t.t, nil, t.v)
	}
	if d := stripConv(t.v); d != nil {
		return polyNF(d, tInt64)
	}
	return t.v
}

// vals are the ghosts and the replacements at the start of a piece, in terms of the program.
func (c *declCtx) start(pe *PEdge) (Ghosts, Sub) {
	g := Ghosts{"params": seqVal(nil), "vals": seqVal(nil), "va": mkInt(0, tInt64)}
	sub := Sub{}
	if pe.From.n.Loop == nil {
		return g, sub
	}
	h := pe.From.n.Loop.Heads[pe.From.n.Head]
	for n := range g {
		g[n] = gsym(pe.From, n)
	}
	var locs []string
	for loc := range c.rel.cand[pe.From] {
		locs = append(locs, loc)
	}
	sort.Strings(locs)
	st := pe.X.St
	for _, n := range []string{"params", "vals", "va"} {
		var rep Val
		for _, loc := range locs {
			for _, f := range forms(c.rel.cand[pe.From][loc]) {
				if f.name != n {
					continue
				}
				hv := h.Vals[loc]
				t, isT := hv.(*Term)
				if !isT {
					if hv == nil {
						continue
					}
					v := c.u.E.canon(h.st, hv, Sub{})
					if isNil(v) {
						v = seqVal(nil)
					}
					rep = f.inv(v)
					continue
				}
				if rep == nil {
					if n == "va" {
						rep = f.inv(t)
					} else {
						if c.emptyList(st, t) {
							rep = seqVal(nil)
							sub[t.ID] = rep
						} else {
							rep = seqVal([]Val{splat(t)})
						}
					}
				} else if n != "va" {
					sub[t.ID] = rep
				}
				break
			}
		}
		if rep == nil && n == "params" && c.envs[pe.From] != nil {
			rep = c.envs[pe.From].pv
		}
		if rep != nil {
			g[n] = rep
		}
	}
	return g, sub
}

func (c *declCtx) emptyList(st *State, t *Term) bool {
	iv := st.interval(mk("len", tInt, t))
	return iv.Hi <= 0
}

func (c *declCtx) canon(st *State, v Val, sub Sub) Val { return c.u.E.canon(st, v, sub) }

// list is the contents of a list as a sequence.
func (c *declCtx) list(st *State, v Val, sub Sub) []Val {
	var out []Val
	for _, x := range c.u.E.seqOf(st, v, sub) {
		out = append(out, x)
	}
	return out
}

// num is a number with the lengths of lists written out.
func (c *declCtx) num(st *State, v Val, sub Sub) Val {
	return c.num1(st, stripAll(c.canon(st, v, sub)))
}

func (c *declCtx) num1(st *State, v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	switch t.Op {
	case "len":
		if s, isS := t.Args[0].(*Term); isS && s.Op == "seq" {
			return lenSeq(s.Args)
		}
		if s, isS := t.Args[0].(*Term); isS && s.Op == "sym" {
			return mk("len", tInt, s)
		}
		if isNil(t.Args[0]) {
			return mkInt(0, tInt64)
		}
	case "+", "-", "*":
		if len(t.Args) == 2 {
			return polyNF(mk(t.Op, tInt64, c.num1(st, t.Args[0]), c.num1(st, t.Args[1])), tInt64)
		}
	}
	if strings.HasPrefix(t.Op, "conv:") || strings.HasPrefix(t.Op, "int") && len(t.Args) == 1 {
		return c.num1(st, t.Args[0])
	}
	return t
}

func lenSeq(l []Val) Val {
	var n Val = mkInt(0, tInt64)
	for _, x := range l {
		if t, ok := x.(*Term); ok && t.Op == "splat" {
			n = cAdd(n, mk("len", tInt, t.Args[0]))
		} else {
			n = cAdd(n, mkInt(1, tInt64))
		}
	}
	return n
}

// less decides a < b on a path: 1, 0, or -1 when it is not known.
func (c *declCtx) less(st *State, a, b Val, sub Sub) int {
	d := cSub(a, b)
	if n, ok := constInt(d); ok {
		if n < 0 {
			return 1
		}
		return 0
	}
	if iv, ok := c.range1(st, d); ok {
		if iv.Hi < 0 {
			return 1
		}
		if iv.Lo >= 0 {
			return 0
		}
	}
	for k, v := range st.bools {
		t := termOfKey(k)
		if t == nil || len(t.Args) != 2 || t.Op != "<" && t.Op != "<=" {
			continue
		}
		x, y := c.num(st, t.Args[0], sub), c.num(st, t.Args[1], sub)
		// x < y, x <= y, or their negations y <= x, y < x
		strict := t.Op == "<"
		if !v {
			x, y, strict = y, x, !strict
		}
		if n, ok := constInt(cSub(cSub(a, b), cSub(x, y))); ok {
			// a-b = x-y+n
			if strict && n <= 0 || !strict && n < 0 {
				return 1
			}
		}
		if n, ok := constInt(cSub(cSub(b, a), cSub(x, y))); ok {
			// b-a = x-y+n: b <= a wanted
			if strict && n <= 1 || !strict && n <= 0 {
				return 0
			}
		}
	}
	return -1
}

// range1 is the range of a number that is a variable and a constant.
func (c *declCtx) range1(st *State, d Val) (Ivl, bool) {
	p := toPoly(d)
	iv := Ivl{0, 0}
	for m, k := range p.m {
		if m == "" {
			iv.Lo, iv.Hi = iv.Lo+k, iv.Hi+k
			continue
		}
		t := termOfKey(m)
		if t == nil || k != 1 && k != -1 {
			return iv, false
		}
		x := st.interval(t)
		if t.Op == "len" {
			if s, ok := t.Args[0].(*Term); ok {
				x = st.interval(mk("len", tInt, s))
			}
			if x.Lo < 0 {
				x.Lo = 0
			}
		}
		if k == -1 {
			x = Ivl{-x.Hi, -x.Lo}
			if x.Lo == fullIvl.Lo || x.Hi == fullIvl.Lo {
				return iv, false
			}
		}
		if x.Lo < -1<<60 || x.Hi > 1<<60 {
			if x.Lo < -1<<60 {
				x.Lo = -1 << 60
			}
			if x.Hi > 1<<60 {
				x.Hi = 1 << 60
			}
		}
		iv.Lo, iv.Hi = iv.Lo+x.Lo, iv.Hi+x.Hi
	}
	return iv, true
}

// ---------- reading ----------

// dstep is one step of the text of a declaration.
type dstep struct {
	name, param, size bool // the token is one
	val               Val
	str               bool
	done              string // var or func
}

func (c *declCtx) step(v *denv, it PItem) (d dstep, err string) {
	ch := byte(0)
	if it.Kind == "char" {
		if el := it.chars().Elems(); len(el) == 1 {
			ch = byte(el[0])
		}
	}
	tok := func(n string) bool { return it.Kind == "tok" && it.Ev != nil && it.Ev.Name == n }
	switch {
	case it.Kind == "eof" || it.Kind == "readerr" || it.Kind == "lexerr" || it.Kind == "callfail":
		return
	case v.ctx == "" && tok("ident"):
		v.ctx, v.name, v.vec, v.hasSize, v.neg, v.size = "name", []Val{it.V}, false, false, false, nil
		v.fact = map[string]bool{}
		v.fn, v.entry, v.stage, v.va, v.vaList, v.p0, v.variadic = nil, nil, "", "", nil, false, false
		v.ent, v.pobjs = map[int]string{}, map[int]bool{}
		d.name = true
		return
	case v.ctx == "name" && ch == '(':
		v.ctx = "params"
		return
	case v.ctx == "params" && tok("ident"):
		d.param = true
		d.val = it.V
		return
	case v.ctx == "params" && ch == ',':
		return
	case v.ctx == "params" && ch == ')':
		v.ctx = "open"
		return
	case v.ctx == "open" && it.Kind == "call" && it.Ev.Name == c.fn.Name():
		d.done = "func"
		v.ctx = ""
		return
	case v.ctx == "name" && ch == '[':
		v.ctx, v.vec = "size", true
		return
	case v.ctx == "size" && tok("number"):
		v.hasSize, v.size = true, []Val{it.V}
		d.size = true
		return
	case v.ctx == "size" && ch == ']':
		v.ctx = "sized"
		return
	}
	if v.ctx == "name" || v.ctx == "sized" || v.ctx == "vals" {
		switch {
		case ch == ';' && !v.neg:
			d.done = "var"
			v.ctx = ""
			return
		case ch == '-' && !v.neg:
			v.neg, v.ctx = true, "vals"
			return
		case ch == ',' || ch == '\'' || ch == '"':
			v.ctx = "vals"
			return
		case tok("number"):
			d.val = polyNF(it.V, tInt64)
			if v.neg {
				d.val = cSub(mkInt(0, tInt64), it.V)
			}
			v.neg, v.ctx = false, "vals"
			return
		case tok("charlit") && !v.neg:
			d.val = polyNF(it.V, tInt64)
			v.ctx = "vals"
			return
		case tok("strlit") && !v.neg:
			d.val, d.str = it.V, true
			v.ctx = "vals"
			return
		}
	}
	return d, fmt.Sprintf("the meaning of %s in a declaration is not understood", it.Kind)
}

// globalAfter is the string constant made after a token is read.
func (c *declCtx) globalAfter(x *Edge, tok *Event) *Event {
	seen := false
	for _, ev := range x.Evs {
		if ev == tok {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if ev.Kind == "tok" && ev.Name != "ws" {
			return nil
		}
		if ev.Kind == "newglobal" {
			return ev
		}
	}
	return nil
}

// ghosts computes the lists of the declaration after a piece.
func (c *declCtx) ghosts(pe *PEdge, in Ghosts, sub Sub) Ghosts {
	v := c.envs[pe.From]
	if v == nil {
		return nil
	}
	v = v.clone()
	g := Ghosts{}
	for k, x := range in {
		g[k] = x
	}
	e, st := c.u.E, pe.X.St
	c.cur = pe.X
	for _, it := range pe.Items {
		d, _ := c.step(v, it)
		switch {
		case d.name, d.done != "":
			g["params"], g["vals"], g["va"] = seqVal(nil), seqVal(nil), mkInt(0, tInt64)
		case d.param:
			g["params"] = seqVal(append(append([]Val(nil), unseq(g["params"])...), e.norm(st, d.val)))
		case d.str:
			var w Val = mk("nostring", nil)
			if ev := c.globalAfter(pe.X, it.Ev); ev != nil && len(ev.Res) == 1 {
				w = mk("glob", nil, ev.Res[0])
			}
			g["vals"] = seqVal(append(append([]Val(nil), unseq(g["vals"])...), w))
		case d.val != nil:
			g["vals"] = seqVal(append(append([]Val(nil), unseq(g["vals"])...), polyNF(stripAll(e.canon(st, d.val, sub)), tInt64)))
		}
	}
	if v.ctx == "params" || v.ctx == "open" {
		for _, ev := range pe.X.Evs {
			if ev.Kind == "newfunc" && !isLLVM(e, st, ev) {
				g["va"] = mkInt(0, tInt64)
			}
			if ev.Kind == "emit" && ev.Name == "NewVAArg" {
				g["va"] = cAdd(g["va"], mkInt(1, tInt64))
			}
		}
	}
	return g
}

func isLLVM(e *Eng, st *State, ev *Event) bool {
	s, ok := constStr(e.norm(st, ev.Args[1]))
	return ok && strings.HasPrefix(s, "llvm.")
}

// flow propagates what is known along the pieces.
func (c *declCtx) flow(events bool) {
	c.quiet = true
	defer func() { c.quiet = false }()
	start := &denv{fact: map[string]bool{}, clean: map[string]bool{}, ent: map[int]string{}, pobjs: map[int]bool{}}
	e := c.u.E
	for _, f := range e.compFields() {
		if c.fresh[f] {
			start.clean[f] = true
		}
	}
	if events {
		// facts are collected afresh
		c.envs = map[cfg]*denv{}
	} else if len(c.envs) > 0 {
		return
	}
	c.envs[cfg{}] = start
	q := []cfg{{}}
	out := map[cfg][]*PEdge{}
	for _, pe := range c.pr.Edges {
		out[pe.From] = append(out[pe.From], pe)
	}
	for n := 0; len(q) > 0 && n < 200000; n++ {
		f := q[0]
		q = q[1:]
		for _, pe := range out[f] {
			if pe.X.Out != nil {
				continue
			}
			v := c.envs[f].clone()
			if events && c.rel != nil {
				g, sub := c.start(pe)
				pv := c.ghosts(pe, g, sub)["params"]
				c.edge(pe, v)
				v.pv = nil
				if v.ctx == "open" {
					v.pv = pv
				}
			} else {
				for _, it := range pe.Items {
					c.step(v, it)
				}
			}
			if pe.X.Trans != nil && pe.To.n.Loop != nil {
				h := pe.To.n.Loop.Heads[pe.To.n.Head]
				v.name = c.carried(pe, h, v.name)
				v.size = c.carried(pe, h, v.size)
			}
			if v.ctx == "" {
				v = &denv{fact: map[string]bool{}, clean: v.clean, ent: map[int]string{}, pobjs: map[int]bool{}}
			}
			old := c.envs[pe.To]
			if old == nil {
				c.envs[pe.To] = v
				q = append(q, pe.To)
				continue
			}
			m, ch, ok := old.join(v)
			if !ok && !events {
				c.quiet = false
				c.ob(pe.X, "analysis", false, "a declaration is read in two states at once: %s and %s", old.shape(), v.shape())
				c.quiet = true
			}
			if ch {
				c.envs[pe.To] = m
				q = append(q, pe.To)
			}
		}
	}
}

// carried adds the variables of a loop that hold a value.
func (c *declCtx) carried(pe *PEdge, h *HeadSt, l []Val) []Val {
	r := append([]Val(nil), l...)
	for loc, t := range pe.X.Trans.Vals {
		if t == nil || h.Vals[loc] == nil {
			continue
		}
		for _, v := range l {
			if same(c.u.E.norm(pe.X.Trans.St, t), c.u.E.norm(pe.X.Trans.St, v)) {
				r = append(r, h.Vals[loc])
				break
			}
		}
	}
	return r
}

// freshTables are the tables and lists that are empty in the compiler a program is read
// with: it comes from a function that makes it, and nothing is done with it before.
func (r *Rep) freshTables(p *Prog) map[string]bool {
	f := p.fn(declFn)
	if f == nil {
		return nil
	}
	pos := func(t token.Pos) string { return p.engine().pos(t) }
	var res map[string]bool
	calls := 0
	for _, fn := range p.all {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(f) {
						if cl, ok := in.(*ssa.Call); !ok || cl.Call.Value != ssa.Value(f) {
							r.ob("context", false, pos(in.Pos()), "the function that reads a program is used as a value")
						}
					}
				}
				cl, ok := in.(*ssa.Call)
				if !ok || cl.Call.StaticCallee() != f {
					continue
				}
				calls++
				for _, a := range cl.Call.Args {
					if !strings.HasSuffix(a.Type().String(), ".Compiler") {
						continue
					}
					mk, ok := a.(*ssa.Call)
					if !r.ob("context", ok && mk.Call.StaticCallee() != nil, pos(cl.Pos()), "a program is not read with a compiler made for it") {
						continue
					}
					for _, ref := range *mk.Referrers() {
						r.ob("context", ref == in || after(in, ref), pos(ref.Pos()), "a compiler is used before a program is read with it")
					}
					one, _ := newTables(mk.Call.StaticCallee(), 0)
					if res == nil {
						res = one
					} else {
						for k := range res {
							if !one[k] {
								delete(res, k)
							}
						}
					}
				}
			}
		}
	}
	r.ob("context", calls > 0, "", "no program is read")
	return res
}

// after tells whether an instruction only runs after another one.
func after(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// newTables are the fields that a function leaves empty in the object it makes.
func newTables(fn *ssa.Function, depth int) (res, bad map[string]bool) {
	res, bad = map[string]bool{}, map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				if s, ok := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && b.Index == 0 {
					for i := 0; i < s.NumFields(); i++ {
						switch s.Field(i).Type().Underlying().(type) {
						case *types.Map, *types.Slice:
							res[s.Field(i).Name()] = true // nil
						}
					}
				}
			case *ssa.Call:
				// a method that fills it
				if g := x.Call.StaticCallee(); g != nil && depth < 3 && len(x.Call.Args) > 0 && strings.HasSuffix(x.Call.Args[0].Type().String(), ".Compiler") {
					r2, b2 := newTables(g, depth+1)
					for n := range r2 {
						res[n] = true
					}
					for n := range b2 {
						bad[n] = true
					}
				}
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
				good := false
				switch v := x.Val.(type) {
				case *ssa.MakeMap:
					good = len(*v.Referrers()) == 1
				case *ssa.MakeSlice:
					c, ok := v.Len.(*ssa.Const)
					good = ok && c.Int64() == 0
				case *ssa.Slice:
					c, ok := v.High.(*ssa.Const)
					good = ok && c.Int64() == 0
				case *ssa.Const:
					good = v.IsNil()
				}
				if good {
					res[n] = true
				} else {
					bad[n] = true
				}
			}
		}
	}
	for n := range bad {
		delete(res, n)
	}
	return res, bad
}

// ---------- what is known of the module ----------

// bases are the lists of the module a list is made of.
func (c *declCtx) bases(st *State, v Val, list string, out map[string]bool) bool {
	switch y := v.(type) {
	case *ListVal:
		for _, it := range y.Items {
			if sp, ok := it.(*Splat); ok {
				c.bases(st, sp.S, list, out)
			}
		}
	case *SliceVal:
		for _, it := range st.items(y) {
			if sp, ok := it.(*Splat); ok {
				c.bases(st, sp.S, list, out)
			}
		}
	case *Splat:
		c.bases(st, y.S, list, out)
	case *Term:
		if y.Op == "slice" {
			return c.bases(st, y.Args[0], list, out)
		}
		if c.u.E.isModList(st, y, list) {
			out[y.Key()] = true
		}
	}
	return len(out) > 0
}

func (c *declCtx) modField(st *State, list string) Val {
	m, ok := strip(orNil(c.u.E.peekField(st, c.u.E.comp.Obj, c.moduleField()))).(*Ptr)
	if !ok {
		return nil
	}
	return c.u.E.peekField(st, m.Obj, list)
}

func (c *declCtx) moduleField() string {
	s, ok := under(c.u.E.compT).(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() == "*"+llir+".Module" {
			return s.Field(i).Name()
		}
	}
	return ""
}

// has is what a path knows about a symbol in the list of the module at the start of the piece.
func (c *declCtx) has(x *Edge, list string, sym Val) int {
	e, st := c.u.E, x.St
	base := map[string]bool{}
	if v := c.modField(x.StartSt, list); v != nil {
		c.bases(x.StartSt, v, list, base)
	} else {
		// the list is not looked at before this piece: the first value it has is that at the start
		first := (*Term)(nil)
		for k := range st.bools {
			if t := termOfKey(k); t != nil && t.Op == "has" {
				of := map[string]bool{}
				c.bases(st, t.Args[0], list, of)
				for o := range of {
					if s := termOfKey(o); s != nil && (first == nil || s.ID < first.ID) {
						first = s
					}
				}
			}
		}
		if first != nil {
			base[first.Key()] = true
		}
	}
	for k, b := range st.bools {
		t := termOfKey(k)
		if t == nil || t.Op != "has" || !same(e.norm(st, t.Args[1]), sym) {
			continue
		}
		of := map[string]bool{}
		if !c.bases(st, t.Args[0], list, of) {
			continue
		}
		ok := true
		for o := range of {
			ok = ok && base[o]
		}
		if !ok {
			continue
		}
		if !b {
			return 0
		}
		if _, ok := t.Args[0].(*Term); ok {
			return 1
		}
	}
	return -1
}

func (c *declCtx) sym(st *State, v *denv, data bool) Val {
	if len(v.name) == 0 {
		return nil
	}
	s := c.u.E.symbolOf(st, v.name[0])
	if t, ok := s.(*Term); ok && t.Op == "symbol?" {
		return nil
	}
	if data {
		return c.u.E.norm(st, mkCat(s, mkStr(".data")))
	}
	return s
}

func (c *declCtx) isName(st *State, v *denv, x Val) bool {
	for _, n := range v.name {
		if same(c.u.E.norm(st, n), c.u.E.norm(st, x)) {
			return true
		}
	}
	return false
}

// removed is the symbol of the element that is taken out of a list of the module.
func (c *declCtx) removed(x *Edge, nv Val) (Val, bool) {
	e, st := c.u.E, x.St
	items := listItems(st, nv)
	if len(items) != 2 {
		return nil, false
	}
	var sl [2]*Term
	for i := range items {
		sp, ok := items[i].(*Splat)
		if !ok {
			return nil, false
		}
		t, ok := sp.S.(*Term)
		if !ok || t.Op != "slice" || len(t.Args) != 3 {
			return nil, false
		}
		sl[i] = t
	}
	list := sl[0].Args[0]
	if !same(list, sl[1].Args[0]) {
		return nil, false
	}
	lo, k1, k2, hi := sl[0].Args[1], sl[0].Args[2], sl[1].Args[1], sl[1].Args[2]
	if n, ok := constInt(lo); !ok || n != 0 {
		return nil, false
	}
	if n, ok := diff(e, st, k2, k1); !ok || n != 1 {
		return nil, false
	}
	if !lenOf(st, hi, list) {
		n, ok := diff(e, st, hi, mk("len", tInt, list))
		if !ok || n != 0 {
			n, ok = diff(e, st, hi, e.length(st, list))
		}
		if !ok || n != 0 {
			return nil, false
		}
	}
	for k, b := range st.bools {
		t := termOfKey(k)
		if !b || t == nil || t.Op != "==" || len(t.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			q, ok := t.Args[i].(*Term)
			if !ok || q.Op != "irname" {
				continue
			}
			el, ok := q.Args[0].(*Term)
			if !ok || el.Op != "idx" || !same(el.Args[0], list) {
				continue
			}
			if d, ok := diff(e, st, el.Args[1], k1); ok && d == 0 {
				return e.norm(st, t.Args[1-i]), true
			}
		}
	}
	return nil, false
}

// ---------- what a piece does ----------

// edge follows the events of a piece and checks what it defines.
func (c *declCtx) edge(pe *PEdge, v *denv) {
	e, x := c.u.E, pe.X
	st := x.St
	c.cur = x
	g, sub := c.start(pe)
	steps := map[*Event]dstep{}
	w := v.clone()
	isFn := v.ctx == "params" || v.ctx == "open"
	var done *dstep
	atDone := Ghosts{}
	cg := Ghosts{}
	for k, y := range g {
		cg[k] = y
	}
	params := cg["params"]
	var dv *denv
	for _, it := range pe.Items {
		before := w.clone()
		d, msg := c.step(w, it)
		if msg != "" {
			c.ob(x, "reading", false, "%s", msg)
		}
		if it.Ev != nil {
			steps[it.Ev] = d
		}
		isFn = isFn || w.ctx == "params" || w.ctx == "open"
		switch {
		case d.name:
			cg["params"], cg["vals"] = seqVal(nil), seqVal(nil)
			params = cg["params"]
		case d.param:
			l := unseq(cg["params"])
			c.ob(x, "parameters", c.newParam(x, l, d.val, sub), "a parameter may have the name of another one")
			cg["params"] = seqVal(append(append([]Val(nil), l...), e.canon(st, d.val, sub)))
			params = cg["params"]
		case d.str:
			ev := c.globalAfter(x, it.Ev)
			var val Val = mk("nostring", nil)
			if c.ob(x, "strings", ev != nil && len(ev.Res) == 1, "a string makes no constant") {
				val = mk("glob", nil, ev.Res[0])
				if p, ok := strip(ev.Res[0]).(*Ptr); ok && !c.quiet {
					f := &Flow{e: e, u: c.u, x: x, st: st}
					if c.u.stringGlobal(c.r, x, f, p, d.val, c.u.M.where(x)) {
						c.r.ob("strings", true, "", "")
					}
				}
			}
			cg["vals"] = seqVal(append(append([]Val(nil), unseq(cg["vals"])...), val))
		case d.val != nil:
			cg["vals"] = seqVal(append(append([]Val(nil), unseq(cg["vals"])...), polyNF(stripAll(e.canon(st, d.val, sub)), tInt64)))
		}
		if d.done != "" {
			if done != nil {
				c.ob(x, "analysis", false, "two declarations end in one piece")
			}
			dd := d
			done, dv = &dd, before
			atDone["vals"], atDone["params"] = cg["vals"], cg["params"]
			cg["params"], cg["vals"] = seqVal(nil), seqVal(nil)
		}
	}
	c.collect(pe, v, steps, params, g, sub, done, dv, atDone, isFn)
}

// newParam tells whether a name is known to be different from all parameters so far.
func (c *declCtx) newParam(x *Edge, l []Val, v Val, sub Sub) bool {
	if len(l) == 0 {
		return true
	}
	e, st := c.u.E, x.St
	for k, b := range st.bools {
		t := termOfKey(k)
		if t == nil || b || t.Op != "has" || !same(e.norm(st, t.Args[1]), e.norm(st, v)) {
			continue
		}
		if seqEq(c.list(st, t.Args[0], sub), l) {
			return true
		}
	}
	// every one compared by itself
	for _, o := range l {
		if t, ok := o.(*Term); ok && t.Op == "splat" {
			return false
		}
		if b, ok := st.bools[mkEq(o, v).Key()]; !ok || b {
			return false
		}
	}
	return true
}

// collect follows the events of a piece.
func (c *declCtx) collect(pe *PEdge, v *denv, steps map[*Event]dstep, params Val, g Ghosts, sub Sub, done *dstep, dv *denv, at Ghosts, isFn bool) {
	var vd *denv // the variable that is complete
	if done != nil && done.done == "var" {
		vd = dv
	}
	e, x := c.u.E, pe.X
	st := x.St
	cur := map[string]int{} // maps of the compiler
	for _, f := range e.compFields() {
		if m, ok := e.peekField(x.StartSt, e.comp.Obj, f).(*MapRef); ok {
			cur[f] = m.Obj
		}
	}
	allocs := map[string]string{}
	vals := map[string]Val{} // pointers to the list of arguments, fetched arguments
	stored := map[string]Val{}
	va := g["va"]
	if v.va == "" {
		va = mkInt(0, tInt64) // no argument is fetched yet
	}
	made := []*Event{}
	strs := map[*Event]bool{}
	for _, it := range pe.Items {
		if it.Ev != nil && steps[it.Ev].str {
			if ev := c.globalAfter(x, it.Ev); ev != nil {
				strs[ev] = true
			}
		}
	}
	inFn := func() bool { return isFn }
	var after Val // the block after the statement
	var call *Event
	var tables map[string]int
	var cleanAt map[string]bool
	nRet := 0
	facts := func() {
		for _, q := range []struct {
			list, fact string
			data       bool
		}{{"Globals", "noglob", false}, {"Funcs", "nofunc", false}, {"Globals", "nodata", true}} {
			if s := c.sym(st, v, q.data); s != nil && c.has(x, q.list, s) == 0 {
				v.fact[q.fact] = true
			}
		}
	}
	if v.ctx != "" {
		facts()
	}
	it := 0
	adv := func(ev *Event) {
		// the text up to an event
		for it < len(pe.Items) {
			p := pe.Items[it]
			if p.Ev == nil {
				it++
				c.step(v, p)
				continue
			}
			if p.Ev != ev {
				return
			}
			it++
			d, _ := c.step(v, p)
			if d.name {
				facts()
				va = mkInt(0, tInt64)
			}
			return
		}
	}
	isItem := map[*Event]bool{}
	for _, p := range pe.Items {
		if p.Ev != nil {
			isItem[p.Ev] = true
		}
	}
	for _, ev := range x.Evs {
		if ev.Kind == "call" && isItem[ev] {
			// characters before the call
			for it < len(pe.Items) && pe.Items[it].Ev == nil {
				c.step(v, pe.Items[it])
				it++
			}
			if it < len(pe.Items) && pe.Items[it].Ev == ev {
				d := steps[ev]
				if d.done == "func" {
					call = ev
					c.atCall(pe, v, ev, cur, params, va, sub)
					if len(ev.Args) > 0 {
						if tp, ok := ev.Args[len(ev.Args)-1].(*Tuple); ok && len(tp.E) == 2 {
							c.ob(x, "functions", v.entry != nil && bkey(tp.E[0]) == bkey(v.entry), "the statement of a function is not put into its first block")
							after = tp.E[1]
						}
					}
					tables = map[string]int{}
					for k, o := range cur {
						tables[k] = o
					}
					cleanAt = v.clean
					v.clean = map[string]bool{}
				}
				c.step(v, pe.Items[it])
				it++
			}
			continue
		}
		if isItem[ev] {
			adv(ev)
			continue
		}
		switch ev.Kind {
		case "newglobal":
			if strs[ev] {
				continue
			}
			made = append(made, ev)
			s := e.norm(st, ev.Args[1])
			switch {
			case vd == nil && v.name == nil:
				c.ob(x, "variables", false, "a variable is made outside of declarations")
			case c.sym(st, v, false) != nil && same(s, c.sym(st, v, false)):
				c.ob(x, "symbols", v.fact["noglob"], "a variable is made although there may be one of the name: %s", e.show(s, st))
				delete(v.fact, "noglob")
			case c.sym(st, v, true) != nil && same(s, c.sym(st, v, true)):
				c.ob(x, "symbols", v.fact["nodata"], "the data of a vector are made although there may be some of the name: %s", e.show(s, st))
				delete(v.fact, "nodata")
			default:
				c.ob(x, "variables", false, "a declaration makes the variable %s", e.show(s, st))
			}
		case "irfield":
			switch ev.Name {
			case "sig.Variadic":
				var sig Val
				if p, ok := v.fn.(*Ptr); ok {
					sig = e.peekField(st, p.Obj, "Sig")
				}
				if b, ok := constBool(e.norm(st, ev.Args[1])); ok && sig != nil && keyOf(sig) == keyOf(ev.Args[0]) {
					v.variadic = b
				} else {
					c.ob(x, "functions", false, "the signature of a function is changed")
				}
			case "Globals", "Funcs":
				s, ok := c.removed(x, ev.Args[1])
				if !c.ob(x, "symbols", ok, "the list of the %s of the module is changed: %s", strings.ToLower(ev.Name), e.show(ev.Args[1], st)) {
					continue
				}
				switch {
				case ev.Name == "Funcs" && c.sym(st, v, false) != nil && same(s, c.sym(st, v, false)):
					v.fact["nofunc"] = true
				case ev.Name == "Globals" && c.sym(st, v, false) != nil && same(s, c.sym(st, v, false)):
					v.fact["noglob"] = true
				case ev.Name == "Globals" && c.sym(st, v, true) != nil && same(s, c.sym(st, v, true)):
					v.fact["nodata"] = true
				default:
					c.ob(x, "symbols", false, "a declaration removes %s", e.show(s, st))
				}
			}
		case "newfunc":
			if isLLVM(e, st, ev) {
				c.intrinsic(x, ev)
				continue
			}
			c.newFunc(x, v, ev, params, sub)
		case "newblock":
			if !inFn() || v.fn == nil || bkey(ev.Args[0]) != bkey(v.fn) {
				c.ob(x, "functions", false, "a block is made outside of the function")
				continue
			}
			if c.ob(x, "functions", v.entry == nil && len(ev.Res) == 1, "a function starts with two blocks") {
				v.entry = ev.Res[0]
			}
		case "setbuilder":
			if call == nil && inFn() {
				c.ob(x, "functions", v.entry != nil && bkey(ev.Args[0]) == bkey(v.entry), "code is put into another block than the first")
				if v.entry != nil && bkey(ev.Args[0]) == bkey(v.entry) {
					v.stage = "started"
				}
			}
		case "setfield":
			if m, ok := ev.Args[0].(*MapRef); ok {
				cur[ev.Name] = m.Obj
				if v.ent[m.Obj] == "" && c.freshMap(x, m.Obj) {
					v.clean[ev.Name] = true
				} else {
					delete(v.clean, ev.Name)
				}
				continue
			}
			delete(cur, ev.Name)
			a := strip(ev.Args[0])
			empty := isNil(a)
			if sl, ok := a.(*SliceVal); ok && len(st.items(sl)) == 0 {
				empty = true
			}
			if empty {
				v.clean[ev.Name] = true
			} else {
				delete(v.clean, ev.Name)
			}
		case "mapup", "mapdel":
			m, ok := ev.Args[0].(*MapRef)
			if !ok {
				c.ob(x, "analysis", false, "a table is changed that is not known")
				continue
			}
			what := "other"
			if k, isV := stored[keyOf(ev.Args[2])]; isV && ev.Kind == "mapup" {
				if !c.isParam(x, ev.Args[1], k, params, sub) {
					dbg("PARAM %s at %s of %s sub %v", e.show(ev.Args[1], st), e.show(k, st), e.show(params, st), sub)
				}
				if c.isParam(x, ev.Args[1], k, params, sub) {
					what = "param"
					v.pobjs[m.Obj] = true
					if n, isC := constInt(k); isC && n == 0 {
						v.p0 = true
					}
				}
			}
			if v.fn != nil && bkey(ev.Args[2]) == bkey(v.fn) && c.isName(st, v, ev.Args[1]) {
				what = "fn"
			}
			known := v.ent[m.Obj] != "" || c.freshMap(x, m.Obj)
			for f, o := range cur {
				if o == m.Obj {
					known = known || v.clean[f]
					delete(v.clean, f)
				}
			}
			if !known {
				what += " before"
			}
			v.ent[m.Obj] = joinWords(v.ent[m.Obj], what)
		case "emit":
			if call != nil {
				nRet++
				z := -1
				if ev.Name == "NewRet" && len(ev.Args) == 2 {
					if w := e.canon(st, ev.Args[1], sub); w != nil {
						if n, ok := constInt(stripAll(w)); ok && n == 0 {
							z = 0
						}
					}
				}
				c.ob(x, "returns", ev.Name == "NewRet" && z == 0, "a function ends with %s", ev.Name)
				c.ob(x, "returns", after != nil && bkey(ev.Args[0]) == bkey(after) && ev.Flag == "open", "the return at the end of a function is not put where control leaves the statement, or replaces another end of the block")
				continue
			}
			if !inFn() || v.entry == nil || bkey(ev.Args[0]) != bkey(v.entry) || v.stage != "started" {
				c.ob(x, "functions", false, "%s is emitted outside of the first block of a function", ev.Name)
				continue
			}
			va = c.prologue(x, v, ev, allocs, vals, stored, va, params, sub)
		case "setterm", "insts", "extstore":
			if ev.Kind == "setterm" || ev.Kind == "extstore" {
				c.ob(x, "functions", false, "a block is ended by hand")
			}
		}
	}
	// the rest of the text
	for ; it < len(pe.Items); it++ {
		c.step(v, pe.Items[it])
	}
	c.bound(x, v, stored, cur)
	if call != nil {
		c.atEnd(x, v, call, after, nRet, tables, cleanAt)
	}
	if vd != nil {
		vd.fact = v.fact
		c.variable(pe, vd, made, at["vals"], sub)
	} else if len(made) > 0 {
		c.ob(x, "variables", false, "a variable is made before its declaration is read")
	}
}

// freshMap tells whether a map has been made in this piece.
func (c *declCtx) freshMap(x *Edge, obj int) bool {
	return x.StartSt.heap[obj] == nil
}

// bound asks that every argument that is stored is made known under the name of its parameter.
func (c *declCtx) bound(x *Edge, v *denv, stored map[string]Val, cur map[string]int) {
	for k := range stored {
		n := 0
		for _, ev := range x.Evs {
			if ev.Kind == "mapup" && keyOf(ev.Args[2]) == k {
				n++
			}
		}
		c.ob(x, "functions", n == 1, "an argument is stored in a variable without a name")
	}
}

// intrinsic checks a function of LLVM that is declared.
func (c *declCtx) intrinsic(x *Edge, ev *Event) {
	e, st := c.u.E, x.St
	f := &Flow{e: e, u: c.u, x: x, st: st}
	s := e.norm(st, ev.Args[1])
	n, _ := constStr(s)
	ok := n == "llvm.va_start" || n == "llvm.va_end"
	ok = ok && len(ev.Args) == 4 && f.typeStr(ev.Args[2]) == "void"
	if ok {
		p := e.ctor(st, ev.Args[3])
		ok = p != nil && p.Op == "ir.NewParam" && f.typeStr(p.Args[1]) == "i8*"
	}
	c.ob(x, "functions", ok, "the function %s of LLVM is declared in another form", n)
	c.ob(x, "symbols", c.hasAny(x, "Funcs", s) == 0, "the function %s of LLVM is declared although it may be there", n)
}

// hasAny is what a path knows about a symbol in any form of a list.
func (c *declCtx) hasAny(x *Edge, list string, sym Val) int {
	for k, b := range x.St.bools {
		t := termOfKey(k)
		if t == nil || t.Op != "has" || !same(c.u.E.norm(x.St, t.Args[1]), sym) {
			continue
		}
		of := map[string]bool{}
		if c.bases(x.St, t.Args[0], list, of) {
			if b {
				return 1
			}
			return 0
		}
	}
	return -1
}

// newFunc checks the function that is made for a definition.
func (c *declCtx) newFunc(x *Edge, v *denv, ev *Event, params Val, sub Sub) {
	e, st := c.u.E, x.St
	f := &Flow{e: e, u: c.u, x: x, st: st}
	s := e.norm(st, ev.Args[1])
	own := c.sym(st, v, false)
	if !c.ob(x, "functions", own != nil && same(s, own), "a definition makes the function %s", e.show(s, st)) {
		return
	}
	c.ob(x, "functions", v.fn == nil, "a definition makes two functions")
	c.ob(x, "symbols", v.fact["nofunc"], "a function is made although there may be one of the name")
	c.ob(x, "symbols", v.fact["noglob"], "a function is made although there may be a variable of the name")
	delete(v.fact, "nofunc")
	v.fn, v.entry, v.stage, v.va, v.vaList, v.p0, v.variadic = ev.Res[0], nil, "made", "", nil, false, false
	v.pobjs = map[int]bool{}
	c.ob(x, "functions", f.typeStr(ev.Args[2]) == "i64", "a function returns %s", f.typeStr(ev.Args[2]))
	l := unseq(params)
	n := lenSeq(l)
	fixed := ev.Args[3:]
	switch {
	case c.less(st, mkInt(0, tInt64), n, sub) == 0:
		c.ob(x, "functions", len(fixed) == 0, "a function without parameters takes %d", len(fixed))
	case c.less(st, mkInt(0, tInt64), n, sub) == 1:
		c.ob(x, "functions", len(fixed) == 1, "a function with parameters takes %d", len(fixed))
		for _, p := range fixed {
			pc := e.ctor(st, p)
			c.ob(x, "functions", pc != nil && pc.Op == "ir.NewParam" && f.typeStr(pc.Args[1]) == "i64", "a parameter is %s", e.show(p, st))
		}
	default:
		c.ob(x, "functions", false, "the number of parameters is not looked at")
	}
}

// isParam tells whether a name is that of the parameter at a position.
func (c *declCtx) isParam(x *Edge, name, pos Val, params Val, sub Sub) bool {
	l := unseq(params)
	st := x.St
	n := c.canon(st, name, sub)
	if t, ok := n.(*Term); ok && t.Op == "seq" && len(t.Args) == 1 {
		n = t.Args[0]
		if q, ok := n.(*Term); ok && q.Op == "splat" {
			n = q.Args[0]
		}
	}
	if t, ok := n.(*Term); ok && t.Op == "idx" {
		var ls []Val
		if q, ok := t.Args[0].(*Term); ok && q.Op == "seq" {
			ls = q.Args
		} else {
			ls = c.list(st, t.Args[0], sub)
		}
		cl := append([]Val(nil), l...)
		for i, y := range l {
			if t, ok := y.(*Term); !ok || t.Op != "splat" {
				cl[i] = c.canon(st, y, sub)
			}
		}
		if seqEq(ls, l) || seqEq(ls, cl) {
			d, ok := constInt(cSub(c.num1(st, t.Args[1]), pos))
			return ok && d == 0
		}
	}
	elem := func(i int) bool {
		a := c.canon(st, name, sub)
		return same(a, l[i]) || same(a, c.canon(st, l[i], sub))
	}
	if k, ok := constInt(pos); ok && k >= 0 && int(k) < len(l) && !splatIn(l[:k+1]) {
		return elem(int(k))
	}
	for i := len(l) - 1; i >= 0; i-- {
		if q, ok := l[i].(*Term); ok && q.Op == "splat" {
			break
		}
		if d, ok := constInt(cSub(pos, lenSeq(l[:i]))); ok && d == 0 {
			return elem(i)
		}
	}
	return false
}

func splatIn(l []Val) bool {
	for _, v := range l {
		if t, ok := v.(*Term); ok && t.Op == "splat" {
			return true
		}
	}
	return false
}

// prologue follows an instruction that brings the arguments into variables.
func (c *declCtx) prologue(x *Edge, v *denv, ev *Event, allocs map[string]string, vals, stored map[string]Val, va Val, params Val, sub Sub) Val {
	e, st := c.u.E, x.St
	f := &Flow{e: e, u: c.u, x: x, st: st}
	zero := func(l []Val) bool {
		for _, a := range l {
			w, ok := strip(a).(*Ptr)
			if !ok {
				return false
			}
			ct := e.ctor(st, w)
			if ct == nil || ct.Op != "constant.NewInt" {
				return false
			}
			if n, ok := constInt(e.norm(st, ct.Args[1])); !ok || n != 0 {
				return false
			}
		}
		return true
	}
	res := ""
	if len(ev.Res) == 1 {
		res = keyOf(ev.Res[0])
	}
	a := ev.Args[1:]
	switch ev.Name {
	case "NewAlloca":
		allocs[res] = f.typeStr(a[0])
	case "NewGetElementPtr":
		t := allocs[keyOf(a[1])]
		ok := len(a) == 4 && t != "" && f.typeStr(a[0]) == t && strings.HasSuffix(t, " x i8]") && zero(a[2:])
		c.ob(x, "functions", ok, "the list of arguments is not the start of the memory reserved for it")
		n := 0
		fmt.Sscanf(t, "[%d x i8]", &n)
		if n == 0 {
			fmt.Sscanf(strings.TrimPrefix(t, "[c"), "%d", &n)
		}
		c.ob(x, "functions", arrayLen(e, st, x, a[1]) >= 32, "the memory for the list of arguments is too small: %s", t)
		vals[res] = mk("valist", nil, a[1])
	case "NewCall":
		fn := ""
		if ct := e.ctor(st, a[0]); ct != nil && ct.Op == "ir.NewFunc" {
			fn, _ = constStr(e.norm(st, ct.Args[0]))
		}
		for _, n := range []string{"llvm.va_start", "llvm.va_end"} {
			if c.elemNamed(st, a[0], "Funcs", mkStr(n)) {
				fn = n
			}
		}
		_, isList := vals[keyOf(a[len(a)-1])]
		isList = isList || v.vaList != nil && keyOf(a[len(a)-1]) == keyOf(v.vaList)
		switch {
		case fn == "llvm.va_start" && len(a) == 2:
			c.ob(x, "functions", isList && v.va == "", "the list of arguments is started twice, or not in its memory")
			v.va, v.vaList = "started", a[1]
		case fn == "llvm.va_end" && len(a) == 2:
			c.ob(x, "functions", v.va == "started" && v.vaList != nil && keyOf(a[1]) == keyOf(v.vaList), "a list of arguments is ended that is not started")
			v.va = "ended"
		default:
			c.ob(x, "functions", false, "the start of a function calls %s", e.show(a[0], st))
		}
	case "NewVAArg":
		c.ob(x, "functions", v.va == "started" && v.vaList != nil && keyOf(a[0]) == keyOf(v.vaList), "an argument is taken from a list that is not started")
		c.ob(x, "functions", f.typeStr(a[1]) == "i64", "an argument is taken as %s", f.typeStr(a[1]))
		va = cAdd(va, mkInt(1, tInt64))
		if c.less(st, va, lenSeq(unseq(params)), sub) != 1 {
			dbg("VAARG %s of %s", e.show(va, st), e.show(lenSeq(unseq(params)), st))
			for k, b := range st.bools {
				if t := termOfKey(k); t != nil {
					dbg("  %v %s", b, e.show(t, nil))
				}
			}
		}
		c.ob(x, "functions", c.less(st, va, lenSeq(unseq(params)), sub) == 1, "an argument is taken for which there is no parameter")
		vals[res] = mk("arg", nil, va)
	case "NewStore":
		to := keyOf(a[1])
		if !c.ob(x, "functions", allocs[to] == "i64" && stored[to] == nil, "an argument is stored in %s", allocs[to]) {
			return va
		}
		if t, ok := vals[keyOf(a[0])].(*Term); ok && t.Op == "arg" {
			stored[to] = t.Args[0]
			return va
		}
		ct := e.ctor(st, v.fn)
		if ct != nil && len(ct.Args) == 3 && keyOf(strip(ct.Args[2])) == keyOf(strip(a[0])) {
			stored[to] = mkInt(0, tInt64)
			return va
		}
		c.ob(x, "functions", false, "the start of a function stores %s", e.show(a[0], st))
	default:
		c.ob(x, "functions", false, "the start of a function does %s", ev.Name)
	}
	return va
}

// arrayLen is the number of elements of an allocated array.
func arrayLen(e *Eng, st *State, x *Edge, p Val) int64 {
	ct := e.ctor(st, strip(p))
	if ct == nil || ct.Op != "ir.NewAlloca" {
		return 0
	}
	t := e.ctor(st, strip(ct.Args[0]))
	if t == nil || t.Op != "types.NewArray" {
		return 0
	}
	n, _ := constInt(e.norm(st, t.Args[0]))
	return n
}

// tableType is the kind of a table of the compiler.
func (c *declCtx) tableType(f string) string {
	s := under(c.u.E.compT).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return types.TypeString(s.Field(i).Type(), shortQual)
		}
	}
	return ""
}

// atCall checks what the statement of a function starts with.
func (c *declCtx) atCall(pe *PEdge, v *denv, ev *Event, cur map[string]int, params, va Val, sub Sub) {
	x := pe.X
	st := x.St
	c.ob(x, "functions", v.fn != nil && v.stage == "started", "the statement of a function is read before the function is made")
	c.ob(x, "functions", v.va != "started", "the list of arguments of a function is not ended")
	n := lenSeq(unseq(params))
	if c.less(st, mkInt(0, tInt64), n, sub) != 0 {
		c.ob(x, "functions", v.variadic, "a function with parameters does not take any number of arguments")
		c.ob(x, "functions", v.p0, "the first argument of a function has no variable")
		c.ob(x, "functions", c.less(st, cAdd(va, mkInt(1, tInt64)), n, sub) == 0, "some arguments of a function have no variables")
	}
	e := c.u.E
	for _, f := range e.compFields() {
		o, isMap := cur[f]
		in := "before"
		if v.clean[f] {
			in = ""
		} else if isMap && v.ent[o] != "" {
			in = v.ent[o]
		}
		lm := e.labelMap()
		t := c.tableType(f)
		if !c.quiet && in != "" {
			c.p.stale[f] = c.u.M.where(x)
		}
		ok := true
		switch {
		case f == "locals":
			ok = in == "" || in == "param"
			for o := range v.pobjs {
				ok = ok && isMap && o == cur[f]
			}
		case f == lm:
			ok = in == ""
		case strings.HasSuffix(t, "]value.Value"):
			ok = in == ""
		case strings.HasSuffix(t, "]*ir.Func"):
			ok = in == "" || in == "fn"
		default:
			continue
		}
		c.ob(x, "scope", ok, "the table %s of the compiler may hold names of another declaration when a function starts: %s", f, in)
	}
}

// atEnd checks the end of a function.
func (c *declCtx) atEnd(x *Edge, v *denv, call *Event, after Val, nRet int, tables map[string]int, clean map[string]bool) {
	e, st := c.u.E, x.St
	if nRet == 0 {
		ends := false
		if p, ok := strip(orNil(after)).(*Ptr); ok {
			t := e.peekField(st, p.Obj, "Term")
			ends = t != nil && st.nilness(t) == 0
		}
		c.ob(x, "returns", ends, "a function may end without a return")
	} else {
		c.ob(x, "returns", nRet == 1, "a function ends with %d instructions", nRet)
	}
	// the labels
	field, def := "", ""
	after1 := false
	for _, ev := range x.Evs {
		if ev == call {
			after1 = true
		}
		if !after1 || ev.Kind != "loop" || len(ev.Loop.Heads) != 1 {
			continue
		}
		for f, l := range call.After {
			if c.tableType(f) != "[]string" {
				continue
			}
			if d := c.allLabels(x, ev.Loop, l, tables); d != "" {
				field, def = f, d
			}
		}
	}
	if !c.ob(x, "labels", field != "", "a function is complete without asking whether every label used is there") {
		return
	}
	c.ob(x, "scope", clean[field], "the list %s of the compiler may hold labels of another function", field)
	if !c.quiet {
		c.p.gotoField = field
		c.p.declDefs[def] = true
	}
}

// labelTables asks that what is known of the labels of a function starts empty, and that
// the labels that are looked for are those that are noted as placed.
func (r *Rep) labelTables(p *Prog) {
	for d := range p.declDefs {
		r.ob("labels", p.defFields[d], "", "the labels used are looked for in %s, where no label is noted as placed", d)
	}
	for f := range p.defFields {
		if !strings.HasPrefix(f, "*") {
			r.ob("scope", p.stale[f] == "", p.stale[f], "the table %s of the compiler may hold labels of another function when a function starts", f)
		}
	}
	r.need("labels", 10)
	r.need("scope", 10)
}

// allLabels tells whether a loop finds every label of a list among those that are placed.
func (c *declCtx) allLabels(x *Edge, li *LoopInfo, list Val, tables map[string]int) string {
	e, st := c.u.E, x.St
	var lt Val = list
	if items := listItems(st, list); len(items) == 1 {
		if sp, ok := items[0].(*Splat); ok {
			lt = sp.S
		}
	}
	h := li.Heads[0]
	for loc, hv := range h.Vals {
		s, ok := hv.(*Term)
		if !ok {
			continue
		}
		v0, known := int64(0), false
		for _, t := range li.Trans {
			if t.From < 0 {
				v0, known = constInt(orNil(t.Vals[loc]))
			}
		}
		if !known {
			continue
		}
		def := ""
		good := true
		for _, t := range li.Trans {
			if t.From < 0 {
				continue
			}
			if !same(t.Vals[loc], mkAdd(s, mkInt(1, s.T), s.T)) {
				good = false
			}
			found := false
			for _, ev := range t.Evs {
				if ev.Kind != "maplook" || ev.Flag != "present" {
					continue
				}
				k, ok := e.norm(t.St, ev.Args[1]).(*Term)
				m, isM := ev.Args[0].(*MapRef)
				if !ok || !isM || k.Op != "idx" || !same(k.Args[0], lt) && !same(k.Args[0], list) || !searchIndex(k.Args[1], s, v0) {
					continue
				}
				for f, o := range tables {
					if o == m.Obj && strings.HasSuffix(c.tableType(f), "]bool") {
						def, found = f, true
					}
				}
			}
			good = good && found
		}
		if !good || def == "" {
			continue
		}
		for k, b := range st.bools {
			t := termOfKey(k)
			if t == nil || b || t.Op != "<" || len(t.Args) != 2 || !searchIndex(t.Args[0], s, v0) {
				continue
			}
			if n, ok := t.Args[1].(*Term); ok && n.Op == "len" && (same(n.Args[0], lt) || same(n.Args[0], list)) {
				return def
			}
		}
	}
	return ""
}

// ---------- variables ----------

// dwords are the words of a variable: items, then a list written by a loop.
type dwords struct {
	items []Val // words, lists of words and "fill" terms
	n     Val   // number of words
}

// wordsOf are the words of a variable of the module.
func (c *declCtx) wordsOf(x *Edge, g Val, sub Sub, vals []Val) (w dwords, typ string, err string) {
	e, st := c.u.E, x.St
	f := &Flow{e: e, u: c.u, x: x, st: st}
	p, ok := strip(g).(*Ptr)
	if !ok {
		return w, "", "is not known"
	}
	ini := orNil(e.peekField(st, p.Obj, "Init"))
	ct := e.ctor(st, strip(ini))
	if ct == nil {
		return w, "", "has no initial value"
	}
	first := e.ctor(st, p) // the type is that of the first value
	typeOf := func(t *Term) string {
		if t == nil {
			return ""
		}
		if t.Op == "constant.NewArray" || t.Op == "constant.NewZeroInitializer" {
			return f.typeStr(t.Args[0])
		}
		return ""
	}
	if first != nil && len(first.Args) == 2 {
		if t1, t2 := typeOf(e.ctor(st, strip(first.Args[1]))), typeOf(ct); t1 != t2 {
			return w, "", fmt.Sprintf("has type %s and the initial value type %s", t1, t2)
		}
	}
	switch ct.Op {
	case "constant.NewInt", "constant.NewPtrToInt":
		v := c.canon(st, strip(ini), sub)
		w.items, w.n = []Val{v}, mkInt(1, tInt64)
		return w, "i64", ""
	case "constant.NewArray", "constant.NewZeroInitializer":
		at := e.ctor(st, strip(ct.Args[0]))
		if at == nil || at.Op != "types.NewArray" || f.typeStr(at.Args[1]) != "i64" {
			return w, "", "is not made of words"
		}
		w.n = c.num(st, at.Args[0], sub)
		typ = "array"
		if ct.Op == "constant.NewZeroInitializer" {
			w.items = []Val{mk("fill", nil, mkInt(0, tInt64), w.n)}
			return w, typ, ""
		}
		var total Val = mkInt(0, tInt64)
		for _, a := range ct.Args[1:] {
			for _, y := range c.elemsOf(st, a, sub) {
				t, isT := y.(*Term)
				if isT && t.Op == "splat" {
					s, _ := t.Args[0].(*Term)
					if s != nil && inVals(vals, y) {
						w.items = append(w.items, y)
						total = cAdd(total, lenSeq([]Val{y}))
						continue
					}
					fl, n, m := c.fill(x, s, sub, vals, total)
					if m != "" {
						return w, typ, m
					}
					w.items = append(w.items, fl)
					total = cAdd(total, n)
					continue
				}
				w.items = append(w.items, y)
				total = cAdd(total, mkInt(1, tInt64))
			}
		}
		if !polyEq(polyNF(cSub(total, w.n), tInt64), mkInt(0, tInt64)) {
			return w, typ, fmt.Sprintf("has %s words of type and %s words of value", e.show(w.n, st), e.show(total, st))
		}
		return w, typ, ""
	}
	return w, "", "starts as " + e.show(ini, st)
}

func inVals(vals []Val, y Val) bool {
	for _, v := range vals {
		if same(v, y) {
			return true
		}
	}
	return false
}

func (c *declCtx) elemsOf(st *State, a Val, sub Sub) []Val {
	if sp, ok := a.(*Splat); ok {
		return c.u.E.elems(st, sp, sub)
	}
	return []Val{c.canon(st, a, sub)}
}

// fill explains a list written by a loop: the initial values from a position on, then zeros.
func (c *declCtx) fill(x *Edge, s *Term, sub Sub, vals []Val, at Val) (what, num Val, res string) {
	const no = "is filled by a loop that is not understood"
	e, st := c.u.E, x.St
	defer func() {
		if res != "" && s != nil {
			for _, ev := range x.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, t := range ev.Loop.Trans {
					dbg("FILL %s loop %s at %s vals %s", e.show(s, st), e.pos(ev.Loop.Pos), e.show(at, nil), c.showList(vals))
					for k, v := range t.Vals {
						dbg("   %d %s = %s", t.From, k, e.show(v, t.St))
					}
					for k, b := range t.St.bools {
						dbg("     %v %s", b, e.show(termOfKey(k), nil))
					}
				}
			}
			for k, b := range st.bools {
				dbg("   exit %v %s", b, e.show(termOfKey(k), nil))
			}
		}
	}()
	if s == nil {
		return nil, nil, no
	}
	for _, ev := range x.Evs {
		if ev.Kind != "loop" || len(ev.Loop.Heads) != 1 {
			continue
		}
		li := ev.Loop
		h := li.Heads[0]
		tail := ""
		for loc, v := range h.Vals {
			if v == nil {
				continue
			}
			if same(v, s) {
				tail = loc
			}
		}
		if tail == "" {
			continue
		}
		var e0 []Val // what is there before the loop
		for _, t := range li.Trans {
			if t.From < 0 {
				e0 = unseq(seqVal(c.list(t.St, orNil(t.Vals[tail]), sub)))
				for i, y := range e0 {
					if _, isSeq := y.(*Term); !isSeq || y.(*Term).Op != "splat" {
						e0[i] = c.canon(t.St, y, sub)
					}
				}
			}
		}
		if len(e0) > 0 {
			// all the initial values
			if n, ok := constInt(at); !ok || n != 1 || !seqEq(e0, vals) {
				return nil, nil, no
			}
		}
		heads := map[string]Val{}
		for loc, hv := range h.Vals {
			heads[loc] = hv
		}
		// the number of elements written so far counts as well
		heads["~len"] = mk("len", tInt, s)
		for _, loc := range sortedKeys(heads) {
			q, ok := heads[loc].(*Term)
			if !ok || loc == tail || !isIntT(typeOrInt(q.T)) {
				continue
			}
			id := q.ID
			if loc == "~len" {
				id = s.ID
			}
			var c0 Val
			okLoc := true
			for _, t := range li.Trans {
				if t.From < 0 {
					c0 = t.Vals[loc]
				}
			}
			if loc == "~len" {
				c0 = mkInt(0, tInt)
			}
			if c0 == nil {
				continue
			}
			c0 = c.num(st, c0, sub)
			kind := "" // what is written
			var lim Val
			var off int64
			for _, t := range li.Trans {
				if t.From < 0 {
					continue
				}
				k, isC := constInt(orNil(t.Vals[loc]))
				iv := t.St.interval(q)
				if loc != "~len" && !same(t.Vals[loc], mkAdd(q, mkInt(1, q.T), q.T)) && !(isC && iv.Lo == k-1 && iv.Hi == k-1) {
					okLoc = false
					break
				}
				items := listItems(t.St, orNil(t.Vals[tail]))
				if len(items) != 2 {
					return nil, nil, no
				}
				if sp, ok := items[0].(*Splat); !ok || !same(sp.S, s) {
					return nil, nil, no
				}
				// the number of the element in the list
				var pos Val
				if isC {
					pos = cSub(mkInt(k-1, tInt64), c0)
				} else {
					pos = cSub(c.num(t.St, q, sub), c0)
				}
				el := c.canon(t.St, items[1], sub)
				dat := cSub(cAdd(at, pos), mkInt(1, tInt64)) // its place behind the address
				if z, ok := constInt(el); ok && z == 0 && len(e0) > 0 {
				} else if ok && z == 0 {
					in := c.less(t.St, dat, lenSeq(vals), sub)
					if len(vals) > 0 && in != 0 && !polyEq(polyNF(cSub(cSub(at, mkInt(1, tInt64)), lenSeq(vals)), tInt64), mkInt(0, tInt64)) {
						return nil, nil, "gets a zero where there may be an initial value"
					}
				} else if k, ok := constInt(e.norm(t.St, dat)); ok && k >= 0 && int(k) < len(vals) && !splatIn(vals[:k+1]) && same(el, vals[k]) {
					kind = "vals"
				} else {
					i, ok := el.(*Term)
					if !ok || i.Op != "idx" {
						return nil, nil, no
					}
					var ls []Val
					if a, ok := i.Args[0].(*Term); ok && a.Op == "seq" {
						ls = a.Args
					} else {
						ls = c.list(t.St, i.Args[0], sub)
					}
					d, ok := constInt(cSub(c.num1(t.St, i.Args[1]), dat))
					if !ok || d != 0 || !seqEq(ls, vals) {
						return nil, nil, "gets the initial values in other places"
					}
					kind = "vals"
				}
			}
			if !okLoc {
				continue
			}
			for k, b := range st.bools {
				tt := termOfKey(k)
				if tt == nil || tt.Op != "<" || len(tt.Args) != 2 {
					continue
				}
				// the loop has ended as q+d < l does not hold, or l < q+d holds
				qs, l, more := tt.Args[0], tt.Args[1], int64(0)
				if b {
					qs, l, more = l, qs, 1
				}
				d, ok := constInt(cSub(c.num(st, qs, sub), c.num(st, q, sub)))
				if !ok || !dependsOn(qs, id) || dependsOn(l, id) {
					continue
				}
				// every round asked the same
				all := true
				for _, t := range li.Trans {
					if t.From < 0 {
						continue
					}
					if v, ok := t.St.bools[k]; ok && v != b {
						continue
					}
					if c.less(t.St, c.num(t.St, qs, sub), cAdd(c.num(t.St, l, sub), mkInt(more, tInt64)), sub) != 1 {
						all = false
					}
				}
				if all {
					lim, off = cAdd(c.num(st, l, sub), mkInt(more, tInt64)), d
				}
			}
			if lim == nil {
				continue
			}
			n := cSub(cSub(lim, mkInt(off, tInt64)), c0)
			w := Val(mkInt(0, tInt64))
			if len(e0) > 0 {
				if loc != "~len" {
					n = cAdd(n, lenSeq(e0))
				}
				if kind != "" || c.less(st, n, lenSeq(e0), sub) != 0 {
					return nil, nil, no
				}
				return mk("fill", nil, mk("initial", nil), n), n, ""
			}
			if kind != "" {
				if d, ok := constInt(at); !ok || d != 1 {
					return nil, nil, no
				}
				w = mk("initial", nil)
			}
			return mk("fill", nil, w, n), n, ""
		}
		return nil, nil, no
	}
	return nil, nil, no
}

// variable checks a complete declaration of a variable.
func (c *declCtx) variable(pe *PEdge, v *denv, made []*Event, vals Val, sub Sub) {
	e, x := c.u.E, pe.X
	st := x.St
	c.ob(x, "names", v.fact["nofunc"], "a variable may have the name of a function")
	own, data := c.sym(st, v, false), c.sym(st, v, true)
	var main, extra Val
	for _, ev := range made {
		s := e.norm(st, ev.Args[1])
		switch {
		case len(ev.Res) != 1:
		case own != nil && same(s, own):
			if main != nil {
				c.ob(x, "variables", false, "a declaration makes two variables")
			}
			main = ev.Res[0]
		case data != nil && same(s, data):
			extra = ev.Res[0]
		}
	}
	if !c.ob(x, "variables", main != nil, "a declaration makes no variable") {
		return
	}
	for _, ev := range x.Evs {
		if ev.Kind == "irfield" && (keyOf(ev.Args[0]) == keyOf(main) || extra != nil && keyOf(ev.Args[0]) == keyOf(extra)) {
			c.ob(x, "variables", ev.Name == "Init", "the field %s of a variable is changed", ev.Name)
		}
	}
	l := unseq(vals)
	n := lenSeq(l)
	w, typ, msg := c.wordsOf(x, main, sub, l)
	if msg != "" {
		c.ob(x, "variables", false, "a variable %s", msg)
		return
	}
	if !v.vec {
		if len(l) == 0 {
			z := len(w.items) == 1
			if z {
				k, ok := constInt(w.items[0])
				z = ok && k == 0
			}
			c.ob(x, "variables", z && typ == "i64", "a variable without initial value is not the word 0")
			return
		}
		if one, ok := constInt(n); typ == "i64" && !(ok && one == 1) {
			// one word: there must be one value
			single := c.less(st, mkInt(1, tInt64), n, sub) == 0
			if !c.ob(x, "variables", single, "a variable with several initial values gets one word") {
				return
			}
			it := w.items[0]
			if t, ok := it.(*Term); ok && t.Op == "idx" {
				if k, ok := constInt(t.Args[1]); ok && k == 0 {
					if q, ok := t.Args[0].(*Term); ok && q.Op == "seq" && seqEq(q.Args, l) {
						c.ob(x, "variables", true, "")
						return
					}
				}
			}
			c.ob(x, "variables", false, "a variable starts as %s", e.show(it, st))
			return
		}
		if !seqEq(w.items, l) {
			for k, b := range st.bools {
				if t := termOfKey(k); t != nil {
					dbg("  %v %s", b, e.show(t, nil))
				}
			}
			dbg("VAR %s n=%s w=%s%s", c.showList(l), e.show(n, st), c.showList(w.items), c.u.desc(x))
		}
		c.ob(x, "variables", seqEq(w.items, l), "a variable starts as %s instead of %s", c.showList(w.items), c.showList(l))
		return
	}
	// a vector
	c.ob(x, "variables", typ == "array" && len(w.items) > 0, "a vector is a single word")
	if len(w.items) == 0 {
		return
	}
	// its size
	var size Val
	var decl Val = mkInt(0, tInt64)
	if v.hasSize {
		if !c.ob(x, "variables", len(v.size) > 0, "the size of a vector is lost") {
			return
		}
		decl = c.num(st, v.size[0], sub)
	}
	switch c.less(st, decl, n, sub) {
	case 1:
		size = n
	case 0:
		size = decl
	default:
		if c.less(st, n, decl, sub) == 0 {
			size = n
			break
		}
		c.ob(x, "variables", false, "a vector is made without asking whether its initial values are more than its size")
		return
	}
	zero := -1
	if k, ok := constInt(size); ok {
		zero = b2i(k <= 0)
	} else if c.less(st, mkInt(0, tInt64), size, sub) == 1 {
		zero = 0
	} else if c.less(st, mkInt(1, tInt64), size, sub) == 0 {
		// 0 or 1: one word in both cases
		zero = 1
	}
	if len(l) > 0 && zero < 0 {
		zero = 0
	}
	if !c.ob(x, "variables", zero >= 0, "a vector is made without asking whether its size is 0") {
		return
	}
	if zero == 1 {
		size = mkInt(1, tInt64)
	}
	// its first word is the address of the second, or of its data
	rest := w.items[1:]
	cnt := cSub(w.n, mkInt(1, tInt64))
	first := w.items[0]
	g := mk("glob", nil, main)
	switch {
	case same(first, cAdd(g, mkInt(8, tInt64))):
	case extra != nil && same(first, mk("glob", nil, extra)):
		if k, ok := constInt(w.n); !ok || k != 1 {
			c.ob(x, "variables", false, "a vector has data in two places")
			return
		}
		d, _, msg := c.wordsOf(x, extra, sub, l)
		if msg != "" {
			c.ob(x, "variables", false, "the data of a vector: %s", msg)
			return
		}
		rest, cnt = d.items, d.n
		extra = nil
	default:
		c.ob(x, "variables", false, "the first word of a vector is %s", e.show(first, st))
		return
	}
	c.ob(x, "variables", extra == nil, "data are made that are not those of the vector")
	d := cSub(cnt, size)
	k, ok := constInt(d)
	if !ok {
		// equal on this path
		k, ok = 1, false
		if c.less(st, cnt, size, sub) == 0 && c.less(st, size, cnt, sub) == 0 {
			k, ok = 0, true
		}
	}
	c.ob(x, "variables", ok && k == 0, "a vector of %s words gets %s", e.show(size, st), e.show(cnt, st))
	c.ob(x, "variables", c.content(rest, l), "the words of a vector are %s, and the initial values %s", c.showList(rest), c.showList(l))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// content tells whether words are the initial values and then zeros.
func (c *declCtx) content(w, vals []Val) bool {
	i := 0
	if len(w) == 1 {
		if t, ok := w[0].(*Term); ok && t.Op == "fill" {
			if q, ok := t.Args[0].(*Term); ok && q.Op == "initial" {
				return true
			}
		}
	}
	for i < len(vals) && i < len(w) && same(w[i], vals[i]) {
		i++
	}
	if i < len(vals) {
		return false
	}
	for ; i < len(w); i++ {
		if t, ok := w[i].(*Term); ok && t.Op == "fill" {
			if k, ok := constInt(t.Args[0]); ok && k == 0 {
				continue
			}
			return false
		}
		if k, ok := constInt(w[i]); !ok || k != 0 {
			return false
		}
	}
	return true
}

func (c *declCtx) showList(l []Val) string {
	var s []string
	for _, v := range l {
		s = append(s, c.u.E.show(v, nil))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// ---------- errors ----------

// errorEnd asks for the reason of an error that depends on other declarations.
func (c *declCtx) errorEnd(pe *PEdge, v *denv) {
	e, x := c.u.E, pe.X
	st := x.St
	_, sub := c.start(pe)
	g, _ := c.start(pe)
	params := unseq(g["params"])
	fn := v.ctx == "params" || v.ctx == "open"
	vr := v.ctx == "size" || v.ctx == "sized" || v.ctx == "vals"
	dup := false
	called := false
	for i, it := range pe.Items {
		was := v.ctx
		d, _ := c.step(v, it)
		switch {
		case d.name:
			fn, vr, params = false, false, nil
		case d.param:
			dup = i == len(pe.Items)-1 && c.oldParam(x, params, d.val, sub)
			params = append(append([]Val(nil), params...), e.canon(st, d.val, sub))
		case d.done == "func":
			called = true
		}
		fn = fn || v.ctx == "params" || v.ctx == "open"
		vr = vr || v.ctx == "size" || v.ctx == "sized" || v.ctx == "vals"
		if was == "name" && it.Kind == "char" && !fn && v.ctx != "name" {
			vr = true
		}
	}
	if v.ctx == "name" && c.nextNotParen(x) {
		vr = true
	}
	why := ""
	switch {
	case dup:
		why = "parameter"
	case called:
		why = c.missingLabel(x, pe)
	case fn:
		if s := c.sym(st, v, false); s != nil && c.has(x, "Globals", s) == 1 {
			why = "variable"
		}
	case vr:
		if s := c.sym(st, v, false); s != nil && c.has(x, "Funcs", s) == 1 {
			why = "function"
		}
	}
	if why == "" {
		for k, b := range st.bools {
			if t := termOfKey(k); t != nil {
				dbg("  %v %s", b, e.show(t, nil))
			}
		}
		dbg("ERR %s dup=%v called=%v fn=%v vr=%v ctx=%s sym=%v\n%s", orNone(pe.Path), dup, called, fn, vr, v.ctx, c.sym(st, v, false), c.u.desc(x))
	}
	c.ob(x, "errors", why != "", "the declaration fails after %s without a reason in the language", orNone(pe.Path))
}

// nextNotParen tells whether the character behind a name has been looked at and opens no function.
func (c *declCtx) nextNotParen(x *Edge) bool {
	var b ByteSet
	b.Add('(')
	if c.u.nextIs(x, b) == 0 {
		return true
	}
	for _, ev := range x.Evs {
		if ev.Kind == "read" && len(ev.Args) > 0 {
			if s, ok := x.St.charSet(ev.Args[0]); ok && !s.Has('(') {
				return true
			}
		}
	}
	return false
}

// oldParam tells whether a name is known to be one of the parameters.
func (c *declCtx) oldParam(x *Edge, l []Val, v Val, sub Sub) bool {
	e, st := c.u.E, x.St
	for k, b := range st.bools {
		t := termOfKey(k)
		if t == nil || !b {
			continue
		}
		if t.Op == "has" && same(e.norm(st, t.Args[1]), e.norm(st, v)) && seqEq(c.list(st, t.Args[0], sub), l) {
			return true
		}
		if t.Op == "==" && len(t.Args) == 2 {
			for i := 0; i < 2; i++ {
				if same(e.norm(st, t.Args[i]), e.norm(st, v)) {
					for _, o := range l {
						if same(o, c.canon(st, t.Args[1-i], sub)) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// missingLabel tells whether a label of the function is found missing.
func (c *declCtx) missingLabel(x *Edge, pe *PEdge) string {
	e, st := c.u.E, x.St
	var call *Event
	for _, ev := range x.Evs {
		if ev.Kind == "call" && ev.Name == c.fn.Name() {
			call = ev
		}
		if call == nil || ev.Kind != "maplook" || ev.Flag != "absent" {
			continue
		}
		k, ok := e.norm(st, ev.Args[1]).(*Term)
		if !ok || k.Op != "idx" {
			continue
		}
		for f, l := range call.After {
			if f != c.p.gotoField {
				continue
			}
			lt := l
			if items := listItems(st, l); len(items) == 1 {
				if sp, ok := items[0].(*Splat); ok {
					lt = sp.S
				}
			}
			if same(k.Args[0], lt) || same(k.Args[0], l) {
				return "label"
			}
		}
	}
	return ""
}

// paramNames are the names of parameters, which share a table with the names of blocks.
func (c *declCtx) paramNames() {
	e := c.u.E
	seen := map[string]bool{}
	for _, x := range c.u.M.Edges {
		for _, ev := range x.Evs {
			if ev.Kind != "newfunc" || isLLVM(e, x.St, ev) {
				continue
			}
			for _, p := range ev.Args[3:] {
				ct := e.ctor(x.St, p)
				if ct == nil || ct.Op != "ir.NewParam" {
					continue
				}
				pre := ""
				if t, ok := e.norm(x.St, ct.Args[0]).(*Term); ok && t.Op == "cat" {
					pre, _ = constStr(t.Args[0])
				} else if s, ok := constStr(e.norm(x.St, ct.Args[0])); ok {
					if s == "" {
						continue
					}
					if !seen["const"+s] {
						seen["const"+s] = true
						c.r.uses = append(c.r.uses, nameUse{s, "", "const", "", c.u.M.where(x)})
					}
					continue
				}
				if !seen[pre] {
					seen[pre] = true
					c.r.uses = append(c.r.uses, nameUse{pre, "", "label", "param", c.u.M.where(x)})
				}
			}
		}
	}
}

func seqEq(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key() != b[i].Key() {
			return false
		}
	}
	return true
}

// readLists makes the lists of the module known, so that they are told apart from what a call leaves.
func (e *Eng) readLists(st *State) {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Type().String() != "*"+llir+".Module" {
			continue
		}
		if m, ok := strip(orNil(e.peekField(st, e.comp.Obj, s.Field(i).Name()))).(*Ptr); ok {
			for _, l := range []string{"Globals", "Funcs"} {
				if ix := fieldIndex(st.heap[m.Obj].T, l); ix >= 0 && e.peekField(st, m.Obj, l) == nil {
					e.load(st, &Ptr{m.Obj, m.Path + "/" + strconv.Itoa(ix)})
				}
			}
		}
	}
}

// elemNamed tells whether a value is an element of a list of the module with a given name.
func (c *declCtx) elemNamed(st *State, v Val, list string, name Val) bool {
	ct := c.u.E.ctor(st, strip(v))
	if ct == nil || ct.Op != "idx" || len(ct.Args) != 2 || !c.bases(st, ct.Args[0], list, map[string]bool{}) {
		return false
	}
	b, known := st.bools[mkEq(mk("irname", tStr, ct), name).Key()]
	return known && b
}

func sortedKeys[V any](m map[string]V) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return
}
