package main

// Labels, cases and declarations of statements.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
)

// findDefs finds the sets of names in which labels are noted as defined.
func (c *stmtCtx) findDefs() {
	e := c.u.E
	for _, x := range c.u.M.Edges {
		for _, ev := range x.Evs {
			if ev.Kind == "mapup" && e.boolMap(ev.Name) {
				c.defs[ev.Name] = true
				e.prg.defFields[ev.Name] = true
			}
		}
	}
}

// exprStart asks that a statement that starts with a letter is only read as an expression
// when its first name is none of the words of statements and not a label.
func (c *stmtCtx) exprStart() {
	r, u := c.r, c.u
	e := u.E
	for _, pe := range c.pr.Edges {
		if pe.From.n.Loop != nil || len(pe.Items) == 0 || pe.Items[0].Kind != "call" || pe.Items[0].Ev.Name == c.fn.Name() {
			continue
		}
		x := pe.X
		where := u.M.where(x)
		letters := false
		for i, v := range pe.Items[0].LA {
			if i > 0 {
				break
			}
			if set, ok := x.St.charSet(e.norm(x.St, v)); !ok || set.Meets(letterSet) {
				letters = true
			}
		}
		if len(pe.Items[0].LA) == 0 {
			letters = true
		}
		if !letters {
			continue
		}
		var id Val
		next := ByteSet{}
		known := false
		for _, ev := range x.Evs {
			if ev == pe.Items[0].Ev {
				break
			}
			switch {
			case ev.Kind == "tok" && ev.Name == "ident":
				id, known = ev.Res[0], false
			case ev.Kind == "read" && id != nil && !known:
				next, known = x.St.charSet(e.norm(x.St, ev.Args[0]))
			}
		}
		ok := id != nil
		if ok {
			for _, w := range stmtWords {
				ok = ok && e.isWord(x.St, id, w) == 0
			}
		}
		r.ob("words", ok, where, "%s: a statement that may start with a word of the language is read as an expression", c.label)
		r.ob("words", known && !next.Has(':'), where, "%s: a statement that may be a label is read as an expression", c.label)
	}
}

// listAt is the contents of the list of cases handed to a call.
func (c *stmtCtx) listAt(st *State, ev *Event) ([]Val, bool) {
	if c.lsp >= len(ev.List) || ev.List[c.lsp] == nil {
		if len(ev.Args) > c.lsp && isNil(strip(ev.Args[c.lsp])) {
			return nil, true
		}
		return nil, false
	}
	return ev.List[c.lsp], true
}

func (c *stmtCtx) ob(pe *PEdge, rule string, ok bool, format string, a ...interface{}) bool {
	return c.r.ob(rule, ok, c.u.M.where(pe.X), "%s: %s", c.label, fmt.Sprintf(format, a...))
}

// ownList is the list of cases of the analysed statement in a state.
func (c *stmtCtx) ownList(st *State) []Val {
	p, ok := strip(c.u.Args[c.lsp]).(*Ptr)
	if !ok || st.heap[p.Obj] == nil {
		return nil
	}
	return st.seq(st.heap[p.Obj].V)
}

// ownInit is the list of cases at the start.
func (u *Unit) ownInit(c *stmtCtx) Val {
	for _, v := range c.ownList(u.St) {
		if sp, ok := v.(*Splat); ok {
			return sp.S
		}
	}
	return nil
}

// define asks that a label is noted as defined, and was not before.
func (c *stmtCtx) define(pe *PEdge, key Val) {
	e, x := c.u.E, pe.X
	asked, noted := false, false
	for _, ev := range x.Evs {
		if (ev.Kind == "maplook" || ev.Kind == "mapup") && c.defs[ev.Name] && same(e.canon(x.St, ev.Args[1], nil), key) {
			if ev.Kind == "maplook" && ev.Flag == "absent" && !noted {
				asked = true
			}
			if ev.Kind == "mapup" {
				noted = true
			}
		}
	}
	c.ob(pe, "labels", asked, "a label is placed without asking whether it is there already")
	c.ob(pe, "labels", noted, "a label that is placed is not noted")
}

func (c *stmtCtx) labelPiece(pe *PEdge, f *Flow, key Val) { c.define(pe, key) }

// gotoPiece asks that a label that is used is noted.
func (c *stmtCtx) gotoPiece(pe *PEdge, w *swalk) {
	e, x := c.u.E, pe.X
	key := e.canon(x.St, w.id, nil)
	ok := false
	for _, name := range e.compFields() {
		if c.p().gotoField != "" && name != c.p().gotoField {
			continue
		}
		v := e.peekField(x.St, e.comp.Obj, name)
		if v == nil {
			continue
		}
		switch y := strip(v).(type) {
		case *SliceVal:
			if l := x.St.items(y); len(l) > 0 && same(e.canon(x.St, l[len(l)-1], nil), key) {
				ok = true
			}
		case *MapRef:
			if name == e.labelMap() || c.defs[name] {
				continue
			}
			for _, ev := range x.Evs {
				if ev.Kind == "mapup" && ev.Name == name && same(e.canon(x.St, ev.Args[1], nil), key) {
					ok = true
				}
			}
		}
	}
	c.ob(pe, "labels", ok, "a label that is used is not noted, so that it can be missed at the end of the function")
}

func (c *stmtCtx) p() *Prog { return c.u.E.prg }

// switchPiece looks at the cases of a switch.
func (c *stmtCtx) switchPiece(pe *PEdge, w *swalk, f *Flow) {
	e, x := c.u.E, pe.X
	st := x.St
	id := w.body.Args[c.idp]
	l, ok := c.listAt(st, w.body)
	if c.inSw {
		if p, isP := strip(w.body.Args[c.lsp]).(*Ptr); isP && same(p, strip(c.u.Args[c.lsp])) {
			c.ob(pe, "cases", false, "a switch shares its cases with the enclosing one")
		}
	}
	c.ob(pe, "cases", ok && len(l) == 0, "the list of cases is not empty at the start of the body of a switch")
	c.ob(pe, "cases", c.u.uniqueNum(x, id, nil), "the number of a switch may be used for another one")
	// the cases as they are after the body
	var after []Val
	if p, isP := strip(w.body.Args[c.lsp]).(*Ptr); isP {
		if o := st.heap[p.Obj]; o != nil && o.V != nil {
			after = st.seq(o.V)
		}
	}
	var list Val
	if len(after) == 1 {
		if sp, isS := after[0].(*Splat); isS {
			list = sp.S
		}
	}
	if list == nil {
		c.ob(pe, "cases", false, "the cases of a switch are not understood")
		return
	}
	// the branch
	var sw *fop
	for _, k := range f.order {
		for _, o := range f.blocks[k].ops {
			if o.op == "Switch" {
				if sw != nil {
					c.ob(pe, "cases", false, "two branches are made for a switch")
				}
				sw = o
			}
		}
	}
	n := e.norm(st, mkLen(st, list))
	if sw == nil {
		k, isC := constInt(n)
		if !isC {
			iv := st.interval(n)
			isC, k = iv.Hi <= 0, 0
		}
		if !isC {
			for key, b := range st.bools {
				t := termOfKey(key)
				if t == nil || len(t.Args) != 2 || !same(t.Args[1], n) && !same(t.Args[0], n) {
					continue
				}
				if z, ok := constInt(t.Args[0]); ok && z == 0 && t.Op == "<" && !b {
					isC, k = true, 0
				}
				if z, ok := constInt(t.Args[1]); ok && z == 0 && t.Op == "==" && b {
					isC, k = true, 0
				}
			}
		}
		if c.ob(pe, "cases", isC && k == 0, "no branch is made for a switch that may have cases") {
			// nothing to branch on
			return
		}
		return
	}
	v := w.val
	w.p.add(&sop{op: "switch", f: v})
	var items []Val
	if p, isP := strip(sw.ev.Res[0]).(*Ptr); isP {
		if cs := e.peekField(st, p.Obj, "Cases"); cs != nil {
			if isNil(strip(cs)) {
				items = []Val{}
			} else {
				items = st.seq(cs)
			}
		}
	}
	if items == nil {
		items = sw.args[2:]
	}
	var sym Val
	if len(items) == 1 {
		if sp, isS := items[0].(*Splat); isS {
			sym = sp.S
		}
	}
	if sym == nil {
		if k, isC := constInt(n); isC && k == 0 && len(items) == 0 {
			return
		}
		c.ob(pe, "cases", false, "the cases of the branch are not made from the cases of the switch")
		return
	}
	for _, li := range e.loops {
		for _, h := range li.Heads {
			for loc, hv := range h.Vals {
				if !c.isList(h.st, hv, sym) {
					continue
				}
				c.caseLoop(pe, li, h, loc, list, id, st)
				return
			}
		}
	}
	c.ob(pe, "cases", false, "the loop that makes the cases of the branch is not found")
}

func (c *stmtCtx) isList(st *State, hv, sym Val) bool {
	if same(hv, sym) {
		return true
	}
	if sl, ok := strip(hv).(*SliceVal); ok {
		if l := st.items(sl); len(l) == 1 {
			if sp, ok := l[0].(*Splat); ok {
				return same(sp.S, sym)
			}
		}
	}
	return false
}

func mkLen(st *State, list Val) Val { return mk("len", tInt, list) }

// caseLoop looks at the loop that makes one case of the branch for every case of the switch.
func (c *stmtCtx) caseLoop(pe *PEdge, li *LoopInfo, h *HeadSt, loc string, list, id Val, st *State) {
	e := c.u.E
	if len(li.Heads) != 1 {
		c.ob(pe, "cases", false, "the loop that makes the cases of the branch has several forms")
		return
	}
	var idx *Term
	var v0 int64
	for l, v := range h.Vals {
		if t, ok := v.(*Term); ok && l != loc && strings.HasPrefix(l, "phi:") && isIntT(typeOrInt(t.T)) {
			for _, t2 := range li.Trans {
				if t2.From < 0 {
					if n, ok := constInt(t2.Vals[l]); ok {
						idx, v0 = t, n
					}
				}
			}
		}
	}
	if idx == nil {
		c.ob(pe, "cases", false, "the loop over the cases of a switch is not understood")
		return
	}
	// it runs over all
	done := false
	for key, b := range st.bools {
		t := termOfKey(key)
		if t != nil && t.Op == "<" && !b && len(t.Args) == 2 && searchIndex(t.Args[0], idx, v0) {
			if n, ok := t.Args[1].(*Term); ok && n.Op == "len" && same(n.Args[0], list) {
				done = true
			}
		}
	}
	c.ob(pe, "cases", done, "the loop over the cases of a switch may stop before the last one")
	for _, t := range li.Trans {
		if t.From < 0 {
			items := t.St.seq(t.Vals[loc])
			c.ob(pe, "cases", len(items) == 0, "the branch has cases before those of the switch")
			continue
		}
		nv := t.Vals[loc]
		var items []Val
		if nv != nil {
			items = t.St.seq(nv)
		}
		ok := len(items) == 2
		if !c.ob(pe, "cases", ok, "a case of the switch does not give one case of the branch") {
			continue
		}
		ct := e.ctor(t.St, items[1])
		if !c.ob(pe, "cases", ct != nil && ct.Op == "ir.NewCase" && len(ct.Args) == 2, "a case of the branch is not understood") {
			continue
		}
		k := e.ctor(t.St, ct.Args[0])
		var val Val
		if k != nil && k.Op == "constant.NewInt" {
			val = e.norm(t.St, k.Args[1])
		}
		el := c.elemAt(t.St, val, list, idx, v0)
		c.ob(pe, "cases", el, "the value of a case of the branch is %s", e.show(val, t.St))
		if !el {
			continue
		}
		var name Val
		lm := e.labelMap()
		for _, ev := range t.Evs {
			if (ev.Kind == "maplook" && ev.Flag == "present" || ev.Kind == "mapup") && ev.Name == lm && bkey(ev.Args[2]) == bkey(ct.Args[1]) {
				name = e.canon(t.St, ev.Args[1], nil)
			}
		}
		c.ob(pe, "cases", name != nil && caseKey(name, e.canon(t.St, id, nil), e.canon(t.St, val, nil)), "a case of the branch does not go to the label of the case")
	}
}

func typeOrInt(t types.Type) types.Type {
	if t == nil {
		return tInt
	}
	return t
}

// elemAt tells whether a value is the element of a list a loop is at.
func (c *stmtCtx) elemAt(st *State, v, list Val, idx *Term, v0 int64) bool {
	t, ok := v.(*Term)
	if !ok || t.Op != "idx" || len(t.Args) != 2 || !searchIndex(t.Args[1], idx, v0) {
		return false
	}
	l := t.Args[0]
	if same(l, list) {
		return true
	}
	var items []Val
	switch y := l.(type) {
	case *ListVal:
		items = y.Items
	case *SliceVal:
		items = st.items(y)
	}
	if len(items) == 1 {
		if sp, ok := items[0].(*Splat); ok {
			return same(sp.S, list)
		}
	}
	return false
}

// casePiece looks at a case: its label, and that it is noted for the switch.
func (c *stmtCtx) casePiece(pe *PEdge, w *swalk, f *Flow) {
	e, x := c.u.E, pe.X
	st := x.St
	id, val := e.canon(st, c.u.Args[c.idp], nil), e.canon(st, w.num, nil)
	var key Val
	for _, ev := range x.Evs {
		if ev.Kind == "mapup" && c.defs[ev.Name] {
			k := e.canon(st, ev.Args[1], nil)
			if caseKey(k, id, val) {
				key = k
			}
		}
	}
	if !c.ob(pe, "cases", key != nil, "a case does not get a label of its own made of the number of the switch and its value") {
		return
	}
	c.define(pe, key)
	w.p.add(&sop{op: "label", f: konst(key)})
	w.p.add(&sop{op: "eval", ev: w.body})
	// noted once
	n := 0
	for i, v := range c.ownList(st) {
		if sp, ok := v.(*Splat); ok {
			if init := c.u.ownInit(c); i == 0 && (init == nil || !same(sp.S, init)) {
				n = 9
			}
			continue
		}
		if i > 0 && same(e.canon(st, v, nil), val) {
			n++
		} else {
			n = 9
		}
	}
	c.ob(pe, "cases", n == 1, "the value of a case is not added to the cases of its switch")
}

// extrnPiece looks at the variables a statement makes visible.
func (c *stmtCtx) extrnPiece(pe *PEdge, w *swalk) {
	e, x := c.u.E, pe.X
	st := x.St
	left := 0
	for _, ev := range x.Evs {
		if ev.Kind == "mapup" && ev.Name == "globals" {
			left++
		}
	}
	c.ob(pe, "extrn", left == len(w.decls), "%d names are made visible for %d in the declaration", left, len(w.decls))
	for _, d := range w.decls {
		sym := e.symbolOf(st, d.id)
		var v Val
		for _, ev := range x.Evs {
			if ev.Kind == "mapup" && ev.Name == "globals" && same(e.canon(st, ev.Args[1], nil), e.canon(st, d.id, nil)) {
				v = ev.Args[2]
			}
		}
		if !c.ob(pe, "extrn", v != nil, "a name of extrn is not made visible") {
			continue
		}
		if e.elemNamed(st, v, "Globals", sym) {
			c.ob(pe, "extrn", true, "")
			continue
		}
		ct := e.ctor(st, v)
		made := false
		link := false
		for _, ev := range x.Evs {
			if ev.Kind == "newglobal" && len(ev.Res) == 1 && bkey(ev.Res[0]) == bkey(v) {
				made = true
			}
			if ev.Kind == "irfield" && ev.Name == "Linkage" && bkey(ev.Args[0]) == bkey(v) {
				n, ok := constInt(e.norm(st, ev.Args[1]))
				link = ok && n == 3
			}
		}
		if !c.ob(pe, "extrn", made && ct != nil && ct.Op == "ir.NewGlobalDef", "a name of extrn stands for %s", e.show(v, st)) {
			continue
		}
		c.ob(pe, "extrn", same(e.norm(st, ct.Args[0]), sym), "a variable of extrn gets the symbol %s", e.show(ct.Args[0], st))
		z := e.ctor(st, ct.Args[1])
		zero := z != nil && z.Op == "constant.NewInt"
		if zero {
			n, ok := constInt(e.norm(st, z.Args[1]))
			zero = ok && n == 0
		}
		c.ob(pe, "extrn", zero, "a variable of extrn does not start as zero")
		c.ob(pe, "extrn", link, "a variable of extrn cannot be shared with other object files")
		c.ob(pe, "extrn", e.knownHas(st, "Globals", sym) == 0, "a variable of extrn is made although there may be one")
		c.ob(pe, "extrn", e.knownHas(st, "Funcs", sym) == 0, "a variable of extrn is made although there may be a function of the name")
	}
}

// fieldsOf are the fields of a structure by name.
func fieldsOf(v Val) map[string]Val {
	s, ok := strip(v).(*StructVal)
	if !ok {
		return nil
	}
	t, ok := under(s.T).(*types.Struct)
	if !ok {
		return nil
	}
	m := map[string]Val{}
	for i := 0; i < t.NumFields() && i < len(s.F); i++ {
		m[t.Field(i).Name()] = s.F[i]
	}
	return m
}

// selOf is the field of an element of a list a value stands for.
func selOf(v Val) (field string, el *Term) {
	t, ok := v.(*Term)
	if !ok || !strings.HasPrefix(t.Op, "sel:") || len(t.Args) != 1 {
		return "", nil
	}
	x, ok := t.Args[0].(*Term)
	if !ok || x.Op != "idx" {
		return "", nil
	}
	return t.Op[4:], x
}

// autoPiece looks at the variables a statement declares. A piece either makes them at once
// or puts them on a list, from which they are made later.
func (c *stmtCtx) autoPiece(pe *PEdge, from string, w *swalk, f *Flow) {
	e, x := c.u.E, pe.X
	st := x.St
	c.usedBy[pe] = nil
	var ups []*Event
	for _, ev := range x.Evs {
		if ev.Kind == "mapup" && ev.Name == "locals" {
			ups = append(ups, ev)
		}
	}
	for _, d := range w.decls {
		c.autoNew(pe, d)
	}
	for _, ev := range x.Evs {
		if ev.Kind != "mapup" || ev.Name != "map" {
			continue
		}
		own := false
		for _, d := range w.decls {
			own = own || same(e.canon(st, ev.Args[1], nil), e.canon(st, d.id, nil))
		}
		c.ob(pe, "auto", own, "a name is noted as declared that is not")
	}
	// what becomes of the declarations
	rest := w.decls
	p := &sprog{}
	p.add(&sop{op: "end"})
	p.ops = nil
	for i, ev := range ups {
		key := e.canon(st, ev.Args[1], nil)
		_ = i
		if fld, el := selOf(e.norm(st, ev.Args[1])); el != nil {
			c.autoElem(pe, f, ev, fld, el, p)
			continue
		}
		if len(rest) == 0 || !same(key, e.canon(st, rest[0].id, nil)) {
			c.ob(pe, "auto", false, "a variable is made that is not the next of the declaration: %s", e.show(ev.Args[1], st))
			continue
		}
		d := rest[0]
		rest = rest[1:]
		c.autoVar(pe, f, ev, d, p)
	}
	p.add(&sop{op: "end"})
	for i, o := range p.ops {
		o.nxt = i + 1
	}
	ends := f.simulate(p, Sub{}, map[string]tv{})
	c.ob(pe, "auto", len(ends) > 0, "control does not go on after a declaration")
	// the others have to be on a list
	if len(rest) > 0 {
		var lists [][]Val
		if x.Trans != nil {
			for _, v := range x.Trans.Vals {
				if sl, ok := strip(v).(*SliceVal); ok {
					lists = append(lists, x.Trans.St.items(sl))
				}
			}
		}
		if x.To.Loop != nil {
			// the list may be one that the next loop only reads
			for _, pe2 := range c.pr.Edges {
				if pe2.X.From.Loop != x.To.Loop {
					continue
				}
				for _, ev := range pe2.X.Evs {
					if ev.Kind == "mapup" && ev.Name == "locals" {
						if _, el := selOf(e.norm(pe2.X.St, ev.Args[1])); el != nil {
							lists = append(lists, listItems(pe2.X.St, el.Args[0]))
						}
					}
				}
			}
		}
		ok := false
		for _, l := range lists {
			if len(l) < len(rest) {
				continue
			}
			head, tail := l[:len(l)-len(rest)], l[len(l)-len(rest):]
			if len(head) > 1 {
				continue
			}
			if len(head) == 1 {
				if _, sp := head[0].(*Splat); !sp {
					continue
				}
			}
			good := true
			for i, v := range tail {
				fs := fieldsOf(v)
				has := false
				for _, fv := range fs {
					if fv != nil && same(e.canon(st, fv, nil), e.canon(st, rest[i].id, nil)) {
						has = true
					}
				}
				good = good && has
				if has {
					c.forms = append(c.forms, autoForm{rest[i], fs, v, st})
				}
			}
			ok = ok || good
		}
		c.ob(pe, "auto", ok, "a variable of the declaration is neither made nor remembered")
	} else {
		c.ob(pe, "auto", true, "")
	}
	// the loop over the list
	if x.Out != nil {
		c.autoLoops(pe)
	}
}

// autoForm is a declaration as it was remembered.
type autoForm struct {
	d  sdecl
	fs map[string]Val
	v  Val
	st *State
}

// autoNew asks that a name is new in its function.
func (c *stmtCtx) autoNew(pe *PEdge, d sdecl) {
	e, x := c.u.E, pe.X
	st := x.St
	key := e.canon(st, d.id, nil)
	here, inStmt, noted := false, false, false
	direct := false
	for _, ev := range x.Evs {
		if ev.Kind != "maplook" && ev.Kind != "mapup" || !same(e.canon(st, ev.Args[1], nil), key) {
			continue
		}
		switch {
		case ev.Kind == "maplook" && ev.Name == "locals" && ev.Flag == "absent":
			here = true
		case ev.Kind == "mapup" && ev.Name == "locals":
			direct = true
		case ev.Kind == "mapup" && ev.Name == "map":
			noted = true
		}
	}
	_ = inStmt
	c.ob(pe, "auto", here, "a variable is declared without asking whether there is one of the name")
	if !direct {
		c.ob(pe, "auto", noted, "a variable that is remembered for later is not noted as declared")
	}
}

// autoVar asks for the code of a variable.
func (c *stmtCtx) autoVar(pe *PEdge, f *Flow, ev *Event, d sdecl, p *sprog) {
	e, st := c.u.E, pe.X.St
	kind := d.kind
	var size Val
	if kind == "vector" {
		size = e.canon(st, d.size, nil)
		if n, ok := constInt(size); ok && n == -1 {
			kind = "scalar"
		}
		// the size that stands for all words of the memory and one more
		if b, ok := st.bools[mkEq(d.size, mkInt(-1, typeOf(d.size))).Key()]; ok && b {
			kind = "scalar"
		}
	}
	c.autoCode(pe, f, ev, kind, size, sizeZero(st, d.size), p)
}

// sizeZero tells whether a size is known to be (1) or not to be (0) zero.
func sizeZero(st *State, v Val) int {
	if v == nil {
		return -1
	}
	if n, ok := constInt(v); ok {
		if n == 0 {
			return 1
		}
		return 0
	}
	if b, ok := st.bools[mkEq(v, mkInt(0, typeOf(v))).Key()]; ok {
		if b {
			return 1
		}
		return 0
	}
	iv := st.interval(v)
	if iv.Lo == 0 && iv.Hi == 0 {
		return 1
	}
	if iv.Lo > 0 || iv.Hi < 0 {
		return 0
	}
	return -1
}

// autoCode asks that the value of a name is a new variable of the function, at its entry.
func (c *stmtCtx) autoCode(pe *PEdge, f *Flow, ev *Event, kind string, size Val, zero int, p *sprog) {
	e, st := c.u.E, pe.X.St
	k := bkey(ev.Args[2])
	var al *fop
	sub := ""
	for _, o := range f.entry {
		if o.res == k && o.op == "Alloca" {
			al = o
		}
		if o.res == k && o.op == "GetElementPtr" {
			sub = bkey(o.args[1])
			for _, ix := range o.args[2:] {
				z := e.ctor(st, ix)
				n, ok := constInt(e.norm(st, orNil(ctorArg(z, 1))))
				if !ok || n != 0 {
					sub = "?"
				}
			}
		}
	}
	for _, o := range f.entry {
		if o.res == sub && o.op == "Alloca" {
			al = o
		}
	}
	if !c.ob(pe, "auto", al != nil, "a variable is not storage made at the entry of the function") {
		return
	}
	for _, q := range c.used(pe) {
		if q == al.res {
			c.ob(pe, "auto", false, "two variables share their storage")
		}
	}
	c.usedBy[pe] = append(c.usedBy[pe], al.res)
	addr := f.alloca(al).v
	if kind == "scalar" {
		c.ob(pe, "auto", f.typeStr(al.args[0]) == "i64", "a variable is storage of type %s", f.typeStr(al.args[0]))
		p.add(&sop{op: "store", f: konst(addr), h: konst(mkInt(0, tInt64))})
		return
	}
	t := f.typeStr(al.args[0])
	var want []string
	one := "[" + cAdd(size, mkInt(1, tInt64)).Key() + " x i64]"
	n, isC := constInt(size)
	switch {
	case isC && n == 0 || zero == 1:
		want = []string{"[2 x i64]"}
	case zero == 0 || isC:
		want = []string{one}
	default:
		c.ob(pe, "auto", false, "a vector of unknown size is made without looking at its size")
		return
	}
	got := t
	if ar := e.ctor(st, al.args[0]); ar != nil && ar.Op == "types.NewArray" {
		got = "[" + polyNF(e.canon(st, ar.Args[0], nil), tInt64).Key() + " x " + f.typeStr(ar.Args[1]) + "]"
	}
	c.ob(pe, "auto", t == want[0] || got == want[0] || isC && n > 0 && t == fmt.Sprintf("[%d x i64]", n+1), "a vector of size %s gets storage of type %s", e.show(size, st), t)
	p.add(&sop{op: "store", f: konst(addr), h: konst(cAdd(addr, mkInt(8, tInt64)))})
}

func ctorArg(t *Term, i int) Val {
	if t == nil || i >= len(t.Args) {
		return nil
	}
	return t.Args[i]
}

func (c *stmtCtx) used(pe *PEdge) []string { return c.usedBy[pe] }

// autoElem looks at a variable made from an element of the list of declarations.
func (c *stmtCtx) autoElem(pe *PEdge, f *Flow, ev *Event, fld string, el *Term, p *sprog) {
	e, st := c.u.E, pe.X.St
	c.nameField = fld
	forms := c.formsOf(st, el)
	if len(forms) == 0 {
		c.ob(pe, "auto", false, "variables are made from a list that no declaration is put on")
		return
	}
	done := false
	old := c.usedBy[pe]
	for _, fm := range forms {
		c.ob(pe, "auto", fm.fs[fld] != nil && same(e.canon(fm.st, fm.fs[fld], nil), e.canon(fm.st, fm.d.id, nil)), "the name of a variable is not taken from its declaration")
		// does the piece apply to a declaration of this form?
		sub := Sub{}
		vals := map[int]Val{}
		for id, t := range termByID {
			if t.Op == "sel:"+strings.TrimPrefix(t.Op, "sel:") && len(t.Args) == 1 && same(t.Args[0], el) {
				if v := fm.fs[strings.TrimPrefix(t.Op, "sel:")]; v != nil {
					vals[id] = v
				}
			}
		}
		_ = sub
		applies := true
		zero := -1
		kind := fm.d.kind
		for id, v := range vals {
			t := termByID[id]
			for key, b := range st.bools {
				q := termOfKey(key)
				if q == nil || len(q.Args) != 2 {
					if q != nil && same(q, t) {
						if x, ok := constBool(v); ok && x != b {
							applies = false
						}
					}
					continue
				}
				for i := 0; i < 2; i++ {
					if !same(q.Args[i], t) {
						continue
					}
					o := q.Args[1-i]
					var r Val
					var ok bool
					if i == 0 {
						r, ok = evalBin(q.Op, tBool, v, o)
					} else {
						r, ok = evalBin(q.Op, tBool, o, v)
					}
					if ok {
						if x, isB := constBool(r); isB && x != b {
							applies = false
						}
					} else if q.Op == "==" && kind == "vector" && same(e.canon(fm.st, v, nil), e.canon(fm.st, fm.d.size, nil)) {
						n, isC := constInt(o)
						if isC && n == -1 && b {
							kind = "scalar" // a size of all words
						}
						if isC && n == 0 {
							zero = 0
							if b {
								zero = 1
							}
						}
					}
				}
			}
			if n, ok := constInt(v); ok {
				if iv := st.interval(t); n < iv.Lo || n > iv.Hi {
					applies = false
				}
				if st.neqc[t.ID][v.Key()] {
					applies = false
				}
				if cc := st.eqc[t.ID]; cc != nil {
					if m, ok := constInt(cc); ok && m != n {
						applies = false
					}
				}
			}
		}
		if !applies {
			continue
		}
		// the size as this piece sees it
		var size Val
		if kind == "vector" {
			for id, v := range vals {
				if same(e.canon(fm.st, v, nil), e.canon(fm.st, fm.d.size, nil)) && isIntT(typeOrInt(termByID[id].T)) {
					size = termByID[id]
				}
			}
			if size == nil {
				c.ob(pe, "auto", false, "the size of a vector is not taken from its declaration")
				continue
			}
			if n, ok := constInt(fm.d.size); ok && n == 0 {
				zero = 1
			}
			size = e.canon(st, size, nil)
		}
		q := &sprog{}
		c.usedBy[pe] = append([]string(nil), old...)
		c.autoCode(pe, f, ev, kind, size, zero, q)
		if !done {
			p.ops = append(p.ops, q.ops...)
			c.lastKind = kind
		} else {
			c.ob(pe, "auto", c.lastKind == kind, "a scalar and a vector are made in the same way")
		}
		done = true
	}
	if !done {
		c.ob(pe, "auto", true, "")
		// for no declaration: whatever it does is not done
		f.bad = nil
		c.dead[pe] = true
	}
}

// listItems are the items of a list an element is taken from.
func listItems(st *State, l Val) []Val {
	switch y := l.(type) {
	case *ListVal:
		return y.Items
	case *SliceVal:
		return st.items(y)
	}
	return nil
}

// formsOf are the declarations that can be on a list.
func (c *stmtCtx) formsOf(st *State, el *Term) []autoForm {
	items := listItems(st, el.Args[0])
	if items == nil || hasSplat(items) {
		return c.forms
	}
	var r []autoForm
	for _, fm := range c.forms {
		for _, it := range items {
			if same(it, fm.v) {
				r = append(r, fm)
			}
		}
	}
	return r
}

// autoLoops asks that the loop over the remembered declarations makes one variable for each.
func (c *stmtCtx) autoLoops(pe *PEdge) {
	e, u := c.u.E, c.u
	st := pe.X.St
	c.ob(pe, "auto", true, "")
	_ = e
	for _, pe2 := range c.pr.Edges {
		x := pe2.X
		if x.Trans == nil || x.From.Loop == nil || x.From.Loop != x.To.Loop {
			continue
		}
		n := 0
		var el *Term
		for _, ev := range x.Evs {
			if ev.Kind == "mapup" && ev.Name == "locals" {
				if _, l := selOf(e.norm(x.St, ev.Args[1])); l != nil {
					n++
					el = l
				}
			}
		}
		if el == nil || c.loopSeen[x.From.Loop] {
			continue
		}
		c.loopSeen[x.From.Loop] = true
		ix, list := el.Args[1], el.Args[0]
		_ = list
		ok := false
		why := "the loop over the declarations is not understood"
		h := x.From.Loop.Heads[x.From.Head]
		for loc, v := range h.Vals {
			t, isT := v.(*Term)
			if !isT || !dependsOn(ix, t.ID) {
				continue
			}
			for _, tr := range x.From.Loop.Trans {
				if tr.From >= 0 {
					continue
				}
				v0, isC := constInt(tr.Vals[loc])
				if !isC || !searchIndex(ix, t, v0) {
					why = "the loop over the declarations does not start at the first"
					continue
				}
				ok = true
				for _, t2 := range x.From.Loop.Trans {
					if t2.From >= 0 && !same(t2.Vals[loc], mkAdd(t, mkInt(1, t.T), t.T)) {
						ok, why = false, "the loop over the declarations passes over some"
					}
				}
				// every end of the loop has seen the last one
				for _, p3 := range c.pr.Edges {
					if p3.From.n.Loop != x.From.Loop || p3.X.Out == nil || p3.Class != "ok" {
						continue
					}
					last := false
					for key, b := range p3.X.St.bools {
						q := termOfKey(key)
						if q != nil && q.Op == "<" && !b && len(q.Args) == 2 && searchIndex(q.Args[0], t, v0) && lenOf(p3.X.St, q.Args[1], list) {
							last = true
						}
					}
					if !last {
						ok, why = false, "the loop over the declarations may stop before the last"
					}
				}
			}
		}
		c.r.ob("auto", ok && n == 1, u.M.where(x), "%s: %s", c.label, why)
	}
	_ = st
}

// lenOf tells whether a number is the length of a list.
func lenTerm(st *State, l Val) Val {
	if t, ok := l.(*Term); ok && t.Op == "slice" && len(t.Args) == 3 {
		return polyNF(mk("-", tInt, t.Args[2], t.Args[1]), tInt)
	}
	return mk("len", tInt, l)
}

func lenOf(st *State, n, list Val) bool {
	items := listItems(st, list)
	if items == nil {
		return same(n, mk("len", tInt, list))
	}
	var sum Val = mkInt(0, tInt)
	for _, it := range items {
		if sp, ok := it.(*Splat); ok {
			sum = mkAdd(sum, lenTerm(st, sp.S), tInt)
		} else {
			sum = mkAdd(sum, mkInt(1, tInt), tInt)
		}
	}
	return polyEq(polyNF(n, tInt), polyNF(sum, tInt))
}

// uniqueNum tells whether a number comes from a counter of the compiler that has moved
// beyond it before anyone else can use it.
func (u *Unit) uniqueNum(x *Edge, v Val, upto *Event) bool {
	e := u.E
	v = e.norm(x.St, v)
	for _, seg := range u.segments(x) {
		for name, s := range seg.from {
			t := seg.to[name]
			if s == nil || t == nil {
				continue
			}
			k, ok1 := diff(e, x.St, v, s)
			m, ok2 := diff(e, x.St, t, s)
			if ok1 && ok2 && k >= 0 && m > k {
				return true
			}
		}
	}
	return false
}

// diff is the constant difference of two numbers.
func diff(e *Eng, st *State, a, b Val) (int64, bool) {
	d := polyNF(mk("-", tInt64, stripAll(e.norm(st, a)), stripAll(e.norm(st, b))), tInt64)
	return constInt(d)
}

// stripAll removes conversions between integers of the same size.
func stripAll(v Val) Val {
	v = stripConv(v)
	if t, ok := v.(*Term); ok && len(t.Args) == 1 && strings.HasPrefix(t.Op, "int") {
		return stripAll(t.Args[0])
	}
	return v
}

type segment struct {
	from, to map[string]Val
}

// segments are the values of the counters of the compiler between the calls of a piece.
func (u *Unit) segments(x *Edge) []segment {
	e := u.E
	get := func(st *State) map[string]Val {
		m := map[string]Val{}
		if st == nil {
			return m
		}
		s, ok := under(e.compT).(*types.Struct)
		if !ok {
			return m
		}
		for i := 0; i < s.NumFields(); i++ {
			if isIntT(s.Field(i).Type()) {
				m[s.Field(i).Name()] = e.peekField(st, e.comp.Obj, s.Field(i).Name())
			}
		}
		return m
	}
	var r []segment
	cur := get(x.StartSt)
	for _, ev := range x.Evs {
		if ev.Kind == "call" && ev.Cnt != nil {
			before, after := map[string]Val{}, map[string]Val{}
			for n, p := range ev.Cnt {
				before[n], after[n] = p[0], p[1]
			}
			r = append(r, segment{cur, before})
			cur = after
		}
	}
	end := x.St
	if x.Trans != nil {
		end = x.Trans.St
	}
	return append(r, segment{cur, get(end)})
}

func dbg(f string, a ...interface{}) {
	if os.Getenv("BLANG_DBG") != "" {
		fmt.Printf("DBG "+f+"\n", a...)
	}
}

// desc shows a piece.
func (u *Unit) desc(x *Edge) string {
	s := fmt.Sprintf("\n  %v -> %v\n", x.From, x.To)
	for _, ev := range x.Evs {
		s += "  " + ev.Kind + " " + ev.Name + " " + ev.Flag + "("
		for _, a := range ev.Args {
			s += u.E.show(a, x.St) + "; "
		}
		s += ")\n"
	}
	return s
}
