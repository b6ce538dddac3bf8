package main

// Primary expressions: constants, strings, parentheses and names.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func primaryRx() *rx {
	return rAlt(rTok("charlit"), rSeq(rP("'"), rTok("charlit")), rSeq(rP("\""), rTok("strlit")), rSeq(rP("("), eTok(15), rP(")")), rTok("number"), rSet(SymSet{identSym("", nil): true}))
}

// mapEntry is what a path knows about a key of a map of the compiler: 1 there, 0 not, -1 not asked.
func (e *Eng) mapEntry(st *State, field string, key Val) (int, Val) {
	m, ok := e.peekField(st, e.comp.Obj, field).(*MapRef)
	if !ok {
		return -1, nil
	}
	mv, ok := st.heap[m.Obj].V.(*MapVal)
	if !ok {
		return -1, nil
	}
	for i := len(mv.Ents) - 1; i >= 0; i-- {
		en := mv.Ents[i]
		if same(e.norm(st, en.K), e.norm(st, key)) {
			if en.Present {
				return 1, en.V
			}
			return 0, nil
		}
	}
	if !mv.Opaque {
		return 0, nil
	}
	return -1, nil
}

// symbolOf is the symbol of a name of the program.
func (e *Eng) symbolOf(st *State, id Val) Val {
	if s, ok := constStr(e.norm(st, id)); ok {
		if s == "main" {
			return mkStr(s)
		}
		return e.norm(st, mkCat(orNil(e.norm(st, e.peekField(st, e.opt.Obj, "GlobalPrefix"))), mkStr(s)))
	}
	if t, ok := e.norm(st, id).(*Term); ok && !st.neqc[t.ID][mkStr("main").Key()] {
		// the entry point may be meant
		if b, ok := st.bools[mkEq(t, mkStr("main")).Key()]; !ok || b {
			if ok {
				return mkStr("main")
			}
			return mk("symbol?", tStr, id)
		}
	}
	return e.norm(st, mkCat(orNil(e.norm(st, e.peekField(st, e.opt.Obj, "GlobalPrefix"))), id))
}

// isModList tells whether a value is the contents of a list of the module.
func (e *Eng) isModList(st *State, v Val, list string) bool {
	if l, ok := v.(*ListVal); ok {
		for _, it := range l.Items {
			if sp, ok := it.(*Splat); ok && e.isModList(st, sp.S, list) {
				return true
			}
		}
		return false
	}
	t, ok := v.(*Term)
	if !ok || t.Op != "sym" {
		return false
	}
	if strings.HasPrefix(t.Name, "module."+list) {
		return true
	}
	var id, ix int
	if n, _ := fmt.Sscanf(t.Name, "loop:obj:%d/%d", &id, &ix); n == 2 && st.heap[id] != nil {
		if c := st.heap[id].Ctor; c != nil && c.Op == "module" {
			if s, ok := under(st.heap[id].T).(*types.Struct); ok && ix < s.NumFields() {
				return s.Field(ix).Name() == list
			}
		}
	}
	return false
}

// knownHas is what a path knows about a symbol in a list of the module.
func (e *Eng) knownHas(st *State, list string, sym Val) int {
	for k, b := range st.bools {
		t := termOfKey(k)
		if t == nil || t.Op != "has" || !e.isModList(st, t.Args[0], list) {
			continue
		}
		if same(e.norm(st, t.Args[1]), sym) {
			if b {
				return 1
			}
			return 0
		}
	}
	return -1
}

// elemNamed tells whether a value is an element of a list of the module with a symbol.
func (e *Eng) elemNamed(st *State, v Val, list string, sym Val) bool {
	c := e.ctor(st, v)
	if c == nil || c.Op != "idx" || !e.isModList(st, c.Args[0], list) {
		return false
	}
	n := mk("irname", tStr, c)
	for k, b := range st.bools {
		t := termOfKey(k)
		if !b || t == nil || t.Op != "==" || len(t.Args) != 2 {
			continue
		}
		for i := 0; i < 2; i++ {
			if same(t.Args[i], n) && same(e.norm(st, t.Args[1-i]), sym) {
				return true
			}
		}
	}
	return false
}

// nextIs tells whether the next character is (1), is not (0) or may be (-1) one of a set.
func (u *Unit) nextIs(x *Edge, s ByteSet) int {
	if len(x.Pend) == 0 {
		for _, it := range x.Items {
			if it.Kind == "eof" || it.Kind == "readerr" {
				return 0
			}
		}
		if s.Sub(x.St.excl) {
			return 0
		}
		return -1
	}
	set, ok := x.St.charSet(u.E.norm(x.St, x.Pend[0]))
	if !ok {
		return -1
	}
	if set.Sub(s) {
		return 1
	}
	if !set.Meets(s) {
		return 0
	}
	return -1
}

type primKind struct {
	kind string // char number string paren ident
	ev   *Event
	id   Val
	st   Val
}

func primOf(x *Edge) primKind {
	k := primKind{}
	for _, it := range x.Items {
		switch it.Kind {
		case "tok", "lexerr":
			switch it.Ev.Name {
			case "charlit", "number", "strlit", "ident":
				k.kind, k.ev, k.id = it.Ev.Name, it.Ev, it.V
			case "Character", "Number", "String", "Identifier":
				k.kind = "error"
			}
		case "call", "callfail":
			k.kind, k.ev = "paren", it.Ev
		}
	}
	return k
}

// primary analyses primary expressions.
func (r *Rep) primary(p *Prog, name string) {
	fn := p.fn(name)
	if fn == nil {
		r.ob("anchors", false, "", "function %s not found", name)
		return
	}
	keys := map[string]bool{}
	u := r.unitX(p, name, nil, func(e *Eng, st *State) {
		e.onCut = func(st *State, f *ssa.Function, args []Val, key string) { keys[key] = true }
	})
	if u == nil {
		return
	}
	u.M.alias = map[string]string{exprFn + "/15": "E14"}
	for k := range keys {
		if k != exprFn+"/15" {
			r.fail("grammar", "", "%s calls %s", name, k)
		}
	}
	pr := r.grammar("grammar", u, primaryRx(), func(pe *PEdge) bool {
		return primOf(pe.X).kind == "ident"
	})
	r.pushback(u)
	for _, x := range u.M.Edges {
		if x.Out == nil || u.errClass(x) != "error" || len(x.Items) != 1 || x.Items[0].Kind != "char" {
			continue
		}
		set, ok := x.St.charSet(u.E.norm(x.St, x.Items[0].V))
		r.ob("grammar", ok && !set.Meets(letterSet.Or(digitSet).Or(setOf("'\"("))), u.M.where(x), "%s fails at the start of an operand", name)
	}
	for _, pe := range pr.Edges {
		if pe.X.Out == nil {
			r.fail("code:value", u.M.where(pe.X), "%s: the code of an operand depends on a loop that is not understood", name)
			continue
		}
		u.primPath(r, pe)
	}
}

func (u *Unit) primPath(r *Rep, pe *PEdge) {
	e, x := u.E, pe.X
	st := x.St
	k := primOf(x)
	where := u.M.where(x)
	if pe.Class != "ok" {
		if k.kind == "ident" {
			for _, it := range pe.Items {
				if it.Kind == "lexerr" || it.Kind == "callfail" || it.Kind == "readerr" {
					return
				}
			}
			sym := e.symbolOf(st, k.id)
			l, _ := e.mapEntry(st, "locals", k.id)
			g, _ := e.mapEntry(st, "globals", k.id)
			why := ""
			switch {
			case l != 0:
				why = "may be a local variable"
			case g != 0:
				why = "may be a visible global variable"
			case u.nextIs(x, setOf("=")) == 1:
			case e.knownHas(st, "Globals", sym) == 1:
			default:
				why = "may denote a function"
			}
			r.ob("names", why == "", where, "a name is rejected that %s", why)
		}
		return
	}
	f := u.flow(x)
	f.empty = map[string]bool{}
	f.typ = u.exprTypes()
	p := &sprog{outs: map[string]func([]Val) Val{}}
	var want Val
	if k.kind == "paren" {
		p.add(&sop{op: "eval", ev: k.ev})
	}
	p.add(&sop{op: "end"})
	ends := f.simulate(p, Sub{}, map[string]tv{})
	res := x.Out.res[0]
	lv, lvKnown := constBool(e.norm(st, x.Out.res[1]))
	for _, en := range ends {
		ctx := &fctx{env: en.env, sub: Sub{}, psub: map[string]tv{}}
		ctx.undef = func(what string) { f.fail("form", nil, "the operand is not computed on every path") }
		got := f.val(ctx, nil, res)
		msg := ""
		isLv := false
		typ := "i64"
		switch k.kind {
		case "charlit", "number":
			want = e.canon(st, k.id, nil)
			if !same(got.v, want) {
				msg = fmt.Sprintf("the constant has the value %s", f.show(got.v))
			}
			r.ob("constants", msg == "", where, "%s", msg)
		case "strlit":
			typ = "i64"
			r.ob("strings", u.stringConst(r, x, f, got.v, k.id, where), where, "a string is not the address of its own copy")
		case "paren":
			want = e.canon(st, k.ev.Res[0], nil)
			if !same(got.v, want) {
				msg = fmt.Sprintf("an expression in parentheses has the value %s", f.show(got.v))
			}
		case "ident":
			isLv, typ, msg = u.nameValue(r, x, f, got, k.id)
			r.ob("names", msg == "", where, "%s", msg)
		default:
			msg = "an operand without text"
		}
		if msg != "" {
			f.fail("value", nil, "%s", msg)
		}
		if !lvKnown || lv != isLv {
			f.fail("lvalue", nil, "a %s counts as storage: %s instead of %v", k.kind, e.show(x.Out.res[1], st), isLv)
		}
		if typ != "" && got.t != "" && got.t != typ {
			f.fail("form", nil, "a %s has type %s instead of %s", k.kind, got.t, typ)
		}
	}
	r.count["code:pieces"]++
	if len(f.bad) == 0 {
		r.okc["code:pieces"]++
	}
	for _, b := range f.bad {
		r.fail("code:"+b.cat, b.where, "%s: %s", u.Name, b.msg)
	}
	// nothing else may be made on the way
	for _, ev := range x.Evs {
		switch ev.Kind {
		case "newglobal":
			r.ob("extra", k.kind == "strlit", where, "a global variable is made for a %s", k.kind)
		case "newfunc":
			r.ob("extra", k.kind == "ident", where, "a function is made for a %s", k.kind)
		case "mapset":
		}
	}
}

// nameValue is what a name has to stand for.
func (u *Unit) nameValue(r *Rep, x *Edge, f *Flow, got tv, id Val) (isLv bool, typ, msg string) {
	e, st := u.E, x.St
	l, lval := e.mapEntry(st, "locals", id)
	g, gval := e.mapEntry(st, "globals", id)
	sym := e.symbolOf(st, id)
	val := func(v Val) Val { return f.val(&fctx{}, nil, v).v }
	if l < 0 {
		return false, "", "a name is used without asking whether it is a local variable"
	}
	if l == 1 {
		if !same(got.v, val(lval)) {
			return true, "", "a local variable is not used although it has the name"
		}
		return true, "", ""
	}
	if g == 1 && same(got.v, val(gval)) {
		return true, "", ""
	}
	call := u.nextIs(x, setOf("("))
	// a function
	t, _ := got.v.(*Term)
	var fn Val
	if t != nil && (t.Op == "fn" || t.Op == "ext") {
		fn = t.Args[0]
	}
	if fn == nil {
		return false, "", fmt.Sprintf("a name has the value %s", f.show(got.v))
	}
	typ = "i64"
	if call == 1 {
		typ = ""
	} else if _, direct := strip(x.Out.res[0]).(*Ptr); direct {
		c := e.ctor(st, x.Out.res[0])
		if c == nil || !strings.HasSuffix(c.Op, "NewPtrToInt") {
			return false, "i64", "a function that is not called is used without taking its address"
		}
	}
	c := e.ctor(st, fn)
	switch {
	case c == nil:
		return false, typ, "the function a name stands for is not known"
	case e.elemNamed(st, fn, "Funcs", sym):
		return false, typ, ""
	case c.Op == "mapelem:functions" && same(e.norm(st, c.Args[0]), e.norm(st, id)):
		if g != 0 {
			return false, typ, "a function is used although a variable of the name may be visible"
		}
		return false, typ, ""
	case c.Op == "ir.NewFunc":
		switch {
		case g != 0:
			return false, typ, "a function is made although a variable of the name may be visible"
		case e.knownHas(st, "Globals", sym) != 0:
			return false, typ, "a function is made although a variable of the name may exist"
		case e.knownHas(st, "Funcs", sym) != 0:
			return false, typ, "a function is made although one of the name may exist"
		case !same(e.norm(st, c.Args[0]), sym):
			return false, typ, fmt.Sprintf("a function gets the symbol %s", e.show(c.Args[0], st))
		case len(c.Args) != 2 || f.typeStr(c.Args[1]) != "i64":
			return false, typ, "an undeclared function is not made as one that returns a word"
		}
		if p, ok := strip(fn).(*Ptr); !ok || !e.variadic(st, p) {
			return false, typ, "an undeclared function is not made variadic"
		}
		return false, typ, ""
	}
	return false, typ, fmt.Sprintf("a name stands for %s", e.show(fn, st))
}

func (e *Eng) variadic(st *State, fn *Ptr) bool {
	s, ok := strip(orNil(e.peekField(st, fn.Obj, "Sig"))).(*Ptr)
	if !ok {
		return false
	}
	b, ok := constBool(e.norm(st, orNil(e.peekField(st, s.Obj, "Variadic"))))
	return ok && b
}

// stringConst asks that a value is the address of a new constant of the characters of
// a string and a final NUL.
func (u *Unit) stringConst(r *Rep, x *Edge, f *Flow, v Val, str Val, where string) bool {
	t, ok := v.(*Term)
	if !ok || t.Op != "glob" {
		r.fail("strings", where, "a string has the value %s", f.show(v))
		return false
	}
	g, ok := strip(t.Args[0]).(*Ptr)
	if !ok {
		return false
	}
	return u.stringGlobal(r, x, f, g, str, where)
}

func (u *Unit) stringGlobal(r *Rep, x *Edge, f *Flow, g *Ptr, str Val, where string) bool {
	e, st := u.E, x.St
	made := false
	for _, ev := range x.Evs {
		if ev.Kind == "newglobal" && len(ev.Res) == 1 && same(ev.Res[0], g) {
			made = true
		}
	}
	c := e.ctor(st, g)
	if !made || c == nil {
		r.fail("strings", where, "a string does not get a copy of its own")
		return false
	}
	ok := true
	bad := func(format string, a ...interface{}) {
		ok = false
		r.fail("strings", where, format, a...)
	}
	// the name is new every time
	n, isT := e.norm(st, c.Args[0]).(*Term)
	if !isT || n.Op != "cat" || len(n.Args) < 2 {
		bad("the name of a string constant is %s", e.show(c.Args[0], st))
	} else {
		pre, _ := constStr(n.Args[0])
		num, _ := n.Args[1].(*Term)
		if !strings.HasPrefix(pre, ".") || num == nil || num.Op != "itoa" {
			bad("the name of a string constant is %s", e.show(c.Args[0], st))
		} else if !u.counted(x, num.Args[0]) && !u.uniqueNum(x, num.Args[0], nil) {
			bad("two string constants may get the same name")
		}
	}
	// the contents
	ini := e.ctor(st, orNil(e.peekField(st, g.Obj, "Init")))
	if ini == nil || (ini.Op != "constant.NewArray" && ini.Op != "constant.NewCharArray" && ini.Op != "constant.NewCharArrayFromString") {
		bad("the contents of a string constant are %s", e.show(c.Args[1], st))
		return ok
	}
	if ini.Op != "constant.NewArray" {
		bad("the contents of a string constant are %s", e.show(c.Args[1], st))
		return ok
	}
	elems := ini.Args[1:]
	if f.typeStr(ini.Args[0]) != fmt.Sprintf("[%d x i8]", len(elems)) {
		bad("a string of %d bytes has type %s", len(elems), f.typeStr(ini.Args[0]))
	}
	var chars []Val
	s, isTerm := e.norm(st, str).(*Term)
	if isTerm {
		cs, known := st.strs[s.ID]
		if !known {
			bad("the characters of a string are not looked at")
			return ok
		}
		chars = cs
	} else if cs, isS := constStr(e.norm(st, str)); isS {
		for i := 0; i < len(cs); i++ {
			chars = append(chars, mkInt(int64(cs[i]), tInt64))
		}
	}
	if len(elems) != len(chars)+1 {
		bad("a string of %d characters is made of %d bytes", len(chars), len(elems))
		return ok
	}
	for i, el := range elems {
		ec := e.ctor(st, el)
		if ec == nil || ec.Op != "constant.NewInt" || f.typeStr(ec.Args[0]) != "i8" {
			bad("byte %d of a string is %s", i, e.show(el, st))
			break
		}
		w := e.canon(st, ec.Args[1], nil)
		var want Val = mkInt(0, tInt64)
		if i < len(chars) {
			want = e.canon(st, chars[i], nil)
		}
		if !same(w, want) && !same(stripConv(w), stripConv(want)) {
			bad("byte %d of a string is %s instead of %s", i, e.show(w, st), e.show(want, st))
			break
		}
	}
	return ok
}

// counted tells whether a number comes from a counter of the compiler that is moved on.
func (u *Unit) counted(x *Edge, v Val) bool {
	e := u.E
	for _, name := range e.compFields() {
		old := e.peekField(u.St, e.comp.Obj, name)
		if old == nil || !same(e.norm(x.St, old), e.norm(x.St, v)) {
			continue
		}
		nw := e.peekField(x.St, e.comp.Obj, name)
		if nw != nil && same(e.norm(x.St, nw), mkAdd(e.norm(x.St, old), mkInt(1, typeOf(old)), typeOf(old))) {
			return true
		}
	}
	return false
}

// stripConv removes conversions between integer types.
func stripConv(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || len(t.Args) != 1 || !strings.HasPrefix(t.Op, "conv:") {
			return v
		}
		v = t.Args[0]
	}
}
