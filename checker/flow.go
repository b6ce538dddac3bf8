package main

// The code that a piece of the compiler emits, as a control flow graph, compared with
// the code the specification asks for the same source text. The comparison runs both
// in lockstep: evaluations of sub-expressions, stores, calls, tests, returns and labels
// have to come in the same order with the same values; everything else may be computed
// in any way that gives the same value.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type tv struct {
	v Val
	t string // IR type, "" if unknown
}

type fop struct {
	op   string
	res  string
	args []Val
	ev   *Event
}

type fblk struct {
	key  string
	ops  []*fop
	term *fop
	here bool // made in this piece
}

type Flow struct {
	e      *Eng
	u      *Unit
	x      *Edge
	st     *State
	blocks map[string]*fblk
	order  []string
	start  string
	final  string
	defs   map[string]bool // instructions of this piece
	bad    []ffind
	typ    func(t *Term, st *State) string
	labels map[string]Val  // blocks of labels: block -> name
	allocs []*fop          // allocations
	entry  []*fop          // instructions put into the entry block
	empty  map[string]bool // lists known to be empty
}

type ffind struct{ cat, where, msg string }

func (f *Flow) fail(cat string, ev *Event, format string, a ...interface{}) {
	w := ""
	if ev != nil && ev.Pos.IsValid() {
		w = f.e.pos(ev.Pos)
	} else {
		w = f.u.M.where(f.x)
	}
	m := fmt.Sprintf(format, a...)
	for _, b := range f.bad {
		if b.cat == cat && b.where == w && b.msg == m {
			return
		}
	}
	f.bad = append(f.bad, ffind{cat, w, m})
}

func bkey(v Val) string {
	if p, ok := strip(v).(*Ptr); ok {
		return p.Key()
	}
	if v == nil {
		return ""
	}
	return strip(v).Key()
}

// builderAt is the block where code is inserted in a state.
func (e *Eng) builderAt(st *State) string {
	if st == nil {
		return ""
	}
	f := e.builderField()
	if f == "" {
		return ""
	}
	return bkey(e.peekField(st, e.comp.Obj, f))
}

func (u *Unit) flow(x *Edge) *Flow {
	f := &Flow{e: u.E, u: u, x: x, st: x.St, blocks: map[string]*fblk{}, defs: map[string]bool{}, labels: map[string]Val{}}
	f.start = u.E.builderAt(x.StartSt)
	cur := f.start
	get := func(k string) *fblk {
		b := f.blocks[k]
		if b == nil {
			b = &fblk{key: k}
			f.blocks[k] = b
			f.order = append(f.order, k)
		}
		return b
	}
	get(cur)
	for _, ev := range x.Evs {
		switch ev.Kind {
		case "newblock":
			get(bkey(ev.Res[0])).here = true
		case "setbuilder":
			cur = bkey(ev.Args[0])
			get(cur)
		case "setterm":
			b := get(bkey(ev.Args[0]))
			if isNil(strip(ev.Args[1])) {
				f.fail("form", ev, "a terminator is removed")
				b.term = nil
			} else {
				f.fail("form", ev, "an unknown terminator is set")
			}
		case "emit":
			b := get(bkey(ev.Args[0]))
			o := &fop{op: strings.TrimPrefix(ev.Name, "New"), args: ev.Args[1:], ev: ev}
			if len(ev.Res) > 0 && ev.Res[0] != nil {
				o.res = bkey(ev.Res[0])
				f.defs[o.res] = true
			}
			if o.op == "Alloca" {
				f.allocs = append(f.allocs, o)
				if u.isEntry(x, ev.Args[0]) {
					f.entry = append(f.entry, o)
					continue
				}
			} else if strings.HasSuffix(ev.Flag, "insert") || u.isEntry(x, ev.Args[0]) {
				if why := u.entryInsert(x, ev, f.entry); why != "" {
					f.fail("form", ev, "%s is inserted among other instructions: %s", o.op, why)
				}
				f.entry = append(f.entry, o)
				continue
			}
			if !strings.HasPrefix(ev.Flag, "open") && o.op != "Alloca" || b.term != nil {
				f.fail("form", ev, "%s may be emitted after the end of its block", o.op)
			}
			b.ops = append(b.ops, o)
			if terminators["New"+o.op] {
				b.term = o
			}
		case "call":
			if len(ev.Args) == 0 {
				continue
			}
			t, ok := ev.Args[len(ev.Args)-1].(*Tuple)
			if !ok || len(t.E) != 2 {
				continue
			}
			b := get(bkey(t.E[0]))
			if b.term != nil {
				f.fail("form", ev, "%s is called with the insertion point after the end of a block", ev.Name)
			}
			cur = bkey(t.E[1])
			b.ops = append(b.ops, &fop{op: "eval", res: cur, ev: ev})
			get(cur)
			for _, r := range ev.Res {
				if r != nil {
					f.defs[bkey(r)] = true
				}
			}
		}
	}
	f.final = cur
	for _, k := range append([]string(nil), f.order...) {
		for _, o := range f.blocks[k].ops {
			if terminators["New"+o.op] {
				for _, t := range f.targets(o) {
					if u.labelName(x, t) != nil {
						get(t)
					}
				}
			}
		}
	}
	for k := range f.blocks {
		if n := u.labelName(x, k); n != nil {
			f.labels[k] = n
		}
	}
	return f
}

// labelMap is the map of the blocks of labels.
func (e *Eng) labelMap() string {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return ""
	}
	r := ""
	for i := 0; i < s.NumFields(); i++ {
		m, ok := under(s.Field(i).Type()).(*types.Map)
		if !ok || !isStrT(m.Key()) {
			continue
		}
		if n := types.TypeString(m.Elem(), nil); strings.HasSuffix(n, "/ir.Block") {
			if r != "" {
				return ""
			}
			r = s.Field(i).Name()
		}
	}
	return r
}

// labelName is the name of the label a block belongs to.
func (u *Unit) labelName(x *Edge, key string) Val {
	e := u.E
	lm := e.labelMap()
	if lm == "" {
		return nil
	}
	for _, ev := range x.Evs {
		switch {
		case ev.Kind == "mapup" && ev.Name == lm && bkey(ev.Args[2]) == key:
			return e.canon(x.St, ev.Args[1], nil)
		case ev.Kind == "maplook" && ev.Name == lm && ev.Flag == "present" && bkey(ev.Args[2]) == key:
			return e.canon(x.St, ev.Args[1], nil)
		}
	}
	return nil
}

// isEntry tells whether a block is the first one of the current function.
func (u *Unit) isEntry(x *Edge, b Val) bool {
	c := u.E.ctor(x.St, b)
	if c == nil || c.Op != "idx" || len(c.Args) != 2 || !strings.HasPrefix(u.E.show(c.Args[0], nil), "currentFn.Blocks") {
		return false
	}
	n, ok := constInt(c.Args[1])
	return ok && n == 0
}

// entryInsert tells what is wrong with an instruction inserted into a list of instructions:
// it has to be an address within an allocation of the same piece, after that allocation.
func (u *Unit) entryInsert(x *Edge, ev *Event, entry []*fop) string {
	e := u.E
	if ev.Name != "NewGetElementPtr" {
		return "only addresses can be computed at the entry"
	}
	base := bkey(ev.Args[2])
	if !u.isEntry(x, ev.Args[0]) {
		return "it is not put into the entry block"
	}
	found := false
	for _, o := range entry {
		if o.res == base && o.op == "Alloca" && same(o.ev.Args[0], ev.Args[0]) {
			found = true
		}
	}
	if !found {
		return "it is not an address in a variable made there"
	}
	for _, a := range ev.Args[3:] {
		c := e.ctor(x.St, a)
		if c == nil || c.Op != "constant.NewInt" {
			return "its index is not a constant"
		}
	}
	// the place
	n := -1
	for i, v := range ev.Pend {
		if bkey(v) == bkey(ev.Res[0]) {
			n = i
		}
	}
	switch {
	case n < 0:
		return "its place is not known"
	case n == len(ev.Pend)-1:
		return ""
	case n == 0:
		// the place may be one that no list with an allocation has
		for _, l := range e.loops {
			for _, h := range l.Heads {
				for _, v := range h.Vals {
					if p, ok := v.(*Term); ok && isIntT(typeOrInt(p.T)) && x.St.interval(p).Hi <= 0 && u.behindLast(x, &ListVal{Items: ev.Pend[1:]}, p) {
						return ""
					}
				}
			}
		}
	}
	return u.afterAllocas(x, ev.Pend[:n])
}

// afterAllocas tells what is wrong with the place just after a part of a list when it
// should come after all allocations: the place comes from a loop over the whole list that
// moves it behind every allocation.
func (u *Unit) afterAllocas(x *Edge, before []Val) string {
	if len(before) != 1 {
		return "its place is not understood"
	}
	sp, ok := before[0].(*Splat)
	if !ok {
		return "its place is not understood"
	}
	sl, ok := sp.S.(*Term)
	if !ok || sl.Op != "slice" || len(sl.Args) != 3 {
		return "its place is not understood"
	}
	p, ok := sl.Args[2].(*Term)
	if !ok {
		return "its place is not understood"
	}
	if u.behindLast(x, sl.Args[0], p) {
		return ""
	}
	for _, l := range u.E.loops {
		for _, h := range l.Heads {
			loc := ""
			for k, v := range h.Vals {
				if same(v, p) {
					loc = k
				}
			}
			if loc == "" {
				continue
			}
			if len(l.Heads) != 1 {
				return "the loop that looks for its place is not understood"
			}
			for _, t := range l.Trans {
				nv := t.Vals[loc]
				if t.From < 0 {
					continue
				}
				if nv == nil || same(nv, p) {
					// the element must not be an allocation
					ok := false
					for id, ds := range t.St.notdyn {
						tm := termByID[id]
						if tm == nil || tm.Op != "idx" {
							continue
						}
						for _, d := range ds {
							if strings.Contains(d, "InstAlloca") {
								ok = true
							}
						}
					}
					if !ok {
						return "an allocation may be passed over when its place is looked for"
					}
				}
			}
			return ""
		}
	}
	return "its place is not understood"
}

// sameItems tells whether two lists have the same items.
func sameItems(st *State, a, b Val) bool {
	x, y := listItems(st, a), listItems(st, b)
	if x == nil || y == nil {
		return same(a, b)
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if bkey(x[i]) != bkey(y[i]) {
			return false
		}
	}
	return true
}

// behindLast tells whether a place comes from a loop that starts at the end of a list and
// goes back over what is no allocation.
func (u *Unit) behindLast(x *Edge, list Val, p *Term) bool {
	for _, l := range u.E.loops {
		for _, h := range l.Heads {
			loc := ""
			for k, v := range h.Vals {
				if same(v, p) {
					loc = k
				}
			}
			if loc == "" || len(l.Heads) != 1 {
				continue
			}
			ok := true
			for _, t := range l.Trans {
				nv := t.Vals[loc]
				if t.From < 0 {
					ok = ok && nv != nil && lenOf(t.St, nv, list)
					continue
				}
				step := false
				for id, ds := range t.St.notdyn {
					tm := termByID[id]
					if tm == nil || tm.Op != "idx" || len(tm.Args) != 2 || !sameItems(t.St, tm.Args[0], list) || !same(tm.Args[1], mkAdd(p, mkInt(-1, p.T), p.T)) {
						continue
					}
					for _, d := range ds {
						if strings.Contains(d, "InstAlloca") {
							step = true
						}
					}
				}
				ok = ok && step && nv != nil && same(nv, mkAdd(p, mkInt(-1, p.T), p.T))
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// preds are the blocks that branch to a block.
func (f *Flow) preds(k string) map[string]bool {
	r := map[string]bool{}
	for b, x := range f.blocks {
		if x.term == nil {
			continue
		}
		for _, t := range f.targets(x.term) {
			if t == k {
				r[b] = true
			}
		}
	}
	return r
}

func (f *Flow) targets(o *fop) []string {
	switch o.op {
	case "Br":
		return []string{bkey(o.args[0])}
	case "CondBr":
		return []string{bkey(o.args[1]), bkey(o.args[2])}
	case "Switch":
		r := []string{bkey(o.args[1])}
		for _, c := range o.args[2:] {
			if t := f.e.ctor(f.st, c); t != nil && t.Op == "ir.NewCase" && len(t.Args) == 2 {
				r = append(r, bkey(t.Args[1]))
			}
		}
		return r
	}
	return nil
}

// typeStr is the IR type a type value stands for.
func (f *Flow) typeStr(v Val) string {
	v = strip(v)
	if t, ok := v.(*Term); ok {
		if i := strings.LastIndex(t.Op, "types."); i >= 0 && strings.HasPrefix(t.Op, "glob:") {
			name := strings.ToLower(t.Op[i+6:])
			if b, ok := strings.CutSuffix(name, "ptr"); ok {
				return b + "*"
			}
			return name
		}
		if t.Op == "typeof" && len(t.Args) == 1 {
			return f.val(nil, nil, t.Args[0]).t
		}
		return ""
	}
	if p, ok := v.(*Ptr); ok && f.st.heap[p.Obj] != nil && namedAs(f.st.heap[p.Obj].T, "FuncType") {
		return f.funcTypeStr(p)
	}
	c := f.e.ctor(f.st, v)
	if c == nil {
		return ""
	}
	switch c.Op {
	case "types.NewPointer":
		if e := f.typeStr(c.Args[0]); e != "" {
			return e + "*"
		}
	case "types.NewArray":
		if e := f.typeStr(c.Args[1]); e != "" {
			return "[" + f.e.canon(f.st, c.Args[0], nil).Key() + " x " + e + "]"
		}
	}
	return ""
}

// funcTypeStr is the type a function type object describes now: its parts are fields,
// which can be set after it is made.
func (f *Flow) funcTypeStr(p *Ptr) string {
	ret := f.typeStr(orNil(f.e.peekField(f.st, p.Obj, "RetType")))
	var a []string
	switch x := strip(orNil(f.e.peekField(f.st, p.Obj, "Params"))).(type) {
	case *SliceVal:
		for _, y := range f.st.seq(x) {
			t := f.typeStr(y)
			if t == "" {
				return "func(?)"
			}
			a = append(a, t)
		}
	case *Const:
	default:
		if x != nil {
			return "func(?)"
		}
	}
	dots := ""
	if b, ok := constBool(f.e.norm(f.st, orNil(f.e.peekField(f.st, p.Obj, "Variadic")))); !ok {
		dots = "?"
	} else if b {
		dots = "..."
	}
	return ret + "(" + strings.Join(a, ",") + dots + ")"
}

func sizeOf(t string) int64 {
	switch t {
	case "i64":
		return 8
	case "i8":
		return 1
	case "i32":
		return 4
	case "i16":
		return 2
	}
	if strings.HasSuffix(t, "*") {
		return 8
	}
	return 0
}

// fctx is what is known when a value is looked up.
type fctx struct {
	env   map[string]tv
	sub   Sub
	psub  map[string]tv
	undef func(what string)
}

// val is the canonical value of an operand.
func (f *Flow) val(c *fctx, _ interface{}, v Val) tv {
	e := f.e
	if c == nil {
		c = &fctx{}
	}
	v = strip(v)
	if v == nil {
		return tv{mk("none", nil), ""}
	}
	k := v.Key()
	if r, ok := c.env[k]; ok {
		return r
	}
	if x, ok := c.psub[k]; ok && !f.defs[k] {
		return x
	}
	switch x := v.(type) {
	case *Ptr:
		if f.defs[k] && c.env != nil {
			if c.undef != nil {
				c.undef(e.show(v, f.st))
			}
			return tv{mk("undef", nil, v), ""}
		}
		ct := e.ctor(f.st, v)
		if ct == nil {
			return tv{mk("ext", nil, v), ""}
		}
		switch ct.Op {
		case "constant.NewInt":
			return tv{e.canon(f.st, ct.Args[1], c.sub), f.typeStr(ct.Args[0])}
		case "constant.NewPtrToInt", "constant.NewIntToPtr", "constant.NewBitCast":
			return tv{f.val(c, nil, ct.Args[0]).v, f.typeStr(ct.Args[1])}
		case "constant.NewGetElementPtr":
			return f.gep(c, ct.Args)
		case "ir.NewFunc":
			return tv{mk("fn", nil, v), "fn"}
		case "ir.NewParam":
			return tv{mk("param", nil, v), f.typeStr(ct.Args[1])}
		case "ir.NewGlobalDef":
			t := f.val(c, nil, ct.Args[1]).t
			if a := e.ctor(f.st, ct.Args[1]); a != nil && (a.Op == "constant.NewArray" || a.Op == "constant.NewZeroInitializer") {
				t = f.typeStr(a.Args[0])
			}
			if t != "" {
				t += "*"
			}
			return tv{mk("glob", nil, v), t}
		case "ir.NewGlobal":
			t := f.typeStr(ct.Args[1])
			if t != "" {
				t += "*"
			}
			return tv{mk("glob", nil, v), t}
		}
		if strings.HasPrefix(ct.Op, "dyn:") {
			r := f.val(c, nil, ct.Args[0])
			if strings.HasSuffix(ct.Op, ".Func") {
				r.t = "fn"
			}
			return r
		}
		return tv{mk("ext", nil, v), ""}
	case *Term:
		r := tv{e.canon(f.st, x, c.sub), ""}
		if f.typ != nil {
			r.t = f.typ(x, f.st)
		}
		return r
	case *Const:
		if x.V == nil {
			return tv{mk("nil", nil), ""}
		}
		return tv{x, ""}
	}
	return tv{mk("ext", nil, v), ""}
}

// gep is the address computed by an element access.
func (f *Flow) gep(c *fctx, args []Val) tv {
	el := f.typeStr(args[0])
	p := f.val(c, nil, args[1])
	if el != "" && p.t != "" && p.t != el+"*" {
		f.fail("form", nil, "getelementptr of type %s through a pointer of type %s", el, p.t)
	}
	a := p.v
	t := el
	for i, ix := range args[2:] {
		if i > 0 && t == "" {
			if n, ok := constInt(f.val(c, nil, ix).v); ok && n == 0 {
				continue
			}
		}
		if i > 0 {
			if !strings.HasPrefix(t, "[") {
				return tv{mk("gep?", nil, a), ""}
			}
			t = strings.TrimSuffix(t[strings.Index(t, " x ")+3:], "]")
		}
		iv := f.val(c, nil, ix).v
		if n, ok := constInt(iv); ok && n == 0 {
			continue
		}
		sz := sizeOf(t)
		if sz == 0 {
			a = mk("gep?", nil, a, iv, mkStr(t))
			continue
		}
		a = cAdd(a, cMul(mkInt(sz, tInt64), iv))
	}
	if t == "" {
		return tv{a, ""}
	}
	return tv{a, t + "*"}
}

// ---------- canonical operations ----------

func cAdd(a, b Val) Val { return polyNF(mk("+", tInt64, a, b), tInt64) }
func cSub(a, b Val) Val { return polyNF(mk("-", tInt64, a, b), tInt64) }
func cMul(a, b Val) Val { return polyNF(mk("*", tInt64, a, b), tInt64) }

func cInts(a, b Val) (x, y int64, ok bool) {
	x, ok1 := constInt(a)
	y, ok2 := constInt(b)
	return x, y, ok1 && ok2
}

func cBool(b bool) Val {
	if b {
		return mkInt(1, tInt64)
	}
	return mkInt(0, tInt64)
}

func isB(v Val) bool {
	if n, ok := constInt(v); ok {
		return n == 0 || n == 1
	}
	t, ok := v.(*Term)
	return ok && (t.Op == "eq" || t.Op == "slt" || t.Op == "ult" || t.Op == "not")
}

func cNot(v Val) Val {
	if n, ok := constInt(v); ok {
		return cBool(n == 0)
	}
	if t, ok := v.(*Term); ok && t.Op == "not" {
		return t.Args[0]
	}
	return mk("not", nil, v)
}

func cEq(a, b Val) Val {
	if x, y, ok := cInts(a, b); ok {
		return cBool(x == y)
	}
	if same(a, b) {
		return cBool(true)
	}
	for i := 0; i < 2; i++ {
		if n, ok := constInt(b); ok && isB(a) {
			switch n {
			case 0:
				return cNot(a)
			case 1:
				return a
			}
		}
		a, b = b, a
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	return mk("eq", nil, a, b)
}

func cLt(op string, a, b Val) Val {
	if x, y, ok := cInts(a, b); ok {
		if op == "slt" {
			return cBool(x < y)
		}
		return cBool(uint64(x) < uint64(y))
	}
	if same(a, b) {
		return cBool(false)
	}
	return mk(op, nil, a, b)
}

func cComm(op string, a, b Val) Val {
	if x, y, ok := cInts(a, b); ok {
		switch op {
		case "and":
			return mkInt(x&y, tInt64)
		case "or":
			return mkInt(x|y, tInt64)
		case "xor":
			return mkInt(x^y, tInt64)
		}
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	if op == "xor" {
		for i := 0; i < 2; i++ {
			if n, ok := constInt(a); ok && n == 1 && isB(b) {
				return cNot(b)
			}
			if n, ok := constInt(a); ok && n == -1 {
				return cSub(mkInt(-1, tInt64), b)
			}
			a, b = b, a
		}
	}
	return mk(op, nil, a, b)
}

// cBin is the value of an arithmetic instruction on words.
func cBin(op string, a, b Val) Val {
	switch op {
	case "Add":
		return cAdd(a, b)
	case "Sub":
		return cSub(a, b)
	case "Mul":
		return cMul(a, b)
	case "And":
		return cComm("and", a, b)
	case "Or":
		return cComm("or", a, b)
	case "Xor":
		return cComm("xor", a, b)
	case "Shl":
		if n, ok := constInt(b); ok && n >= 0 && n < 62 {
			return cMul(a, mkInt(1<<uint(n), tInt64))
		}
	}
	return mk(strings.ToLower(op), nil, a, b)
}

var icmpPreds = []string{"eq", "ne", "sge", "sgt", "sle", "slt", "uge", "ugt", "ule", "ult"}

// cCmp is the value of a comparison; the predicates are those of the LLVM library.
func cCmp(pred string, a, b Val) Val {
	switch pred {
	case "eq":
		return cEq(a, b)
	case "ne":
		return cNot(cEq(a, b))
	}
	op := pred[:1] + "lt"
	switch pred[1:] {
	case "lt":
		return cLt(op, a, b)
	case "gt":
		return cLt(op, b, a)
	case "ge":
		return cNot(cLt(op, a, b))
	}
	return cNot(cLt(op, b, a))
}

func cLoad(addr, clock Val) Val { return mk("load", nil, addr, clock) }

// ---------- specification programs ----------

type sop struct {
	op  string // let load store eval call cond ret end goto
	ev  *Event
	dst int
	f   func(g []Val) Val
	h   func(g []Val) Val
	l   func(g []Val) []Val
	s   string
	alt int // other successor of cond
	nxt int // successor, -1: the next one
}

type sprog struct {
	ops  []*sop
	nreg int
	outs map[string]func(g []Val) Val // ghosts at the end
	lets []func(g []Val) Val
}

func (p *sprog) reg() int { p.nreg++; return p.nreg - 1 }
func (p *sprog) add(o *sop) *sop {
	o.nxt = len(p.ops) + 1
	p.ops = append(p.ops, o)
	return o
}

func regv(i int) func(g []Val) Val  { return func(g []Val) Val { return g[i] } }
func konst(v Val) func(g []Val) Val { return func(g []Val) Val { return v } }

type simEnd struct {
	env  map[string]tv
	regs []Val
}

type simSt struct {
	blk   string
	idx   int
	prev  string
	pc    int
	env   map[string]tv
	regs  []Val
	clock Val
}

type simKey struct {
	blk     string
	idx, pc int
}

// simulate runs the emitted code of a piece against a specification.
func (f *Flow) simulate(p *sprog, sub Sub, psub map[string]tv) []simEnd {
	merged := map[simKey]bool{}
	for {
		nbad := len(f.bad)
		again := false
		ends := f.simRun(p, sub, psub, merged, &again)
		if !again {
			return ends
		}
		f.bad = f.bad[:nbad]
	}
}

func (f *Flow) simRun(p *sprog, sub Sub, psub map[string]tv, merged map[simKey]bool, again *bool) []simEnd {
	var ends []simEnd
	clocks := map[simKey]Val{}
	visited := map[string]bool{}
	env0 := map[string]tv{}
	for _, o := range f.entry {
		if o.op == "Alloca" {
			env0[o.res] = f.alloca(o)
		} else {
			env0[o.res] = f.gep(&fctx{env: env0, sub: sub, psub: psub}, o.args)
		}
	}
	work := []simSt{{blk: f.start, env: env0, regs: make([]Val, p.nreg), clock: mkStr("start")}}
	steps := 0
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		env := map[string]tv{}
		for k, v := range s.env {
			env[k] = v
		}
		s.env = env
		s.regs = append([]Val(nil), s.regs...)
		// silent steps of the specification
		advance := func() *sop {
			for n := 0; s.pc < len(p.ops) && n < 1000; n++ {
				o := p.ops[s.pc]
				switch o.op {
				case "let":
					s.regs[o.dst] = o.f(s.regs)
				case "load":
					s.regs[o.dst] = cLoad(o.f(s.regs), s.clock)
				default:
					return o
				}
				s.pc = o.nxt
			}
			return nil
		}
		want := func() string {
			o := advance()
			if o == nil {
				return "nothing"
			}
			return f.describe(o, s.regs)
		}
		push := func(n simSt) {
			k := simKey{n.blk, n.idx, n.pc}
			if merged[k] {
				n.clock = mk("clock", nil, mkStr(fmt.Sprint(k)))
			} else if c, ok := clocks[k]; ok && !same(c, n.clock) && n.idx == 0 {
				merged[k] = true
				*again = true
			}
			clocks[k] = n.clock
			vk := fmt.Sprint(k)
			if n.idx == 0 {
				// values of the phis make the difference
				var ph []string
				if b := f.blocks[n.blk]; b != nil {
					for _, o := range b.ops {
						if o.op == "Phi" {
							ph = append(ph, n.prev)
						}
					}
				}
				if n.blk == f.final {
					ph = append(ph, n.prev)
				}
				vk += strings.Join(ph, ",")
				if visited[vk] {
					return
				}
				visited[vk] = true
			}
			work = append(work, n)
		}
		run := true
		for run {
			steps++
			if steps > 20000 {
				f.fail("value", nil, "the emitted code is too large to compare")
				return ends
			}
			b := f.blocks[s.blk]
			ctx := &fctx{env: s.env, sub: sub, psub: psub}
			if b == nil || s.idx >= len(b.ops) {
				if s.blk == f.final {
					o := advance()
					if o == nil || o.op == "end" {
						ends = append(ends, simEnd{s.env, s.regs})
					} else {
						f.fail("order", nil, "the emitted code ends where it should %s", f.describe(o, s.regs))
					}
				} else if n, ok := f.labels[s.blk]; ok {
					_ = n
				} else {
					dbg("noend %s final %s path %s", s.blk, f.final, f.u.desc(f.x))
					f.fail("form", nil, "a block of the emitted code has no end")
				}
				break
			}
			o := b.ops[s.idx]
			ctx.undef = func(what string) {
				f.fail("form", o.ev, "%s uses a value that is not computed on every path to it", o.op)
			}
			v := func(i int) tv { return f.val(ctx, nil, o.args[i]) }
			set := func(x tv) { s.env[o.res] = x }
			wantT := func(what string, x tv, t string) {
				if x.t != "" && t != "" && x.t != t {
					f.fail("form", o.ev, "%s of %s has type %s instead of %s", what, o.op, x.t, t)
				}
			}
			switch o.op {
			case "Add", "Sub", "Mul", "SDiv", "SRem", "UDiv", "URem", "And", "Or", "Xor", "Shl", "AShr", "LShr":
				a, c := v(0), v(1)
				wantT("first operand", a, "i64")
				wantT("second operand", c, "i64")
				set(tv{cBin(o.op, a.v, c.v), "i64"})
			case "ICmp":
				pn := "?"
				if n, ok := constInt(f.e.norm(f.st, o.args[0])); ok && n >= 0 && int(n) < len(icmpPreds) {
					pn = icmpPreds[n]
				}
				a, c := v(1), v(2)
				if a.t != "" && c.t != "" && a.t != c.t {
					f.fail("form", o.ev, "values of types %s and %s are compared", a.t, c.t)
				}
				if pn == "?" {
					set(tv{mk("icmp?", nil, a.v, c.v), "i1"})
				} else {
					set(tv{cCmp(pn, a.v, c.v), "i1"})
				}
			case "ZExt":
				a := v(0)
				to := f.typeStr(o.args[1])
				if sz := sizeOf(a.t); a.t != "" && a.t != "i1" && (sz == 0 || sz >= sizeOf(to)) {
					f.fail("form", o.ev, "a value of type %s is extended to %s", a.t, to)
				}
				if a.t == "i1" {
					set(tv{a.v, to})
				} else {
					set(tv{mk("zext:"+a.t, nil, a.v), to})
				}
			case "SExt":
				a := v(0)
				to := f.typeStr(o.args[1])
				if a.t == "i1" {
					set(tv{cSub(mkInt(0, tInt64), a.v), to})
				} else {
					set(tv{mk("sext:"+a.t, nil, a.v), to})
				}
			case "Trunc":
				a := v(0)
				to := f.typeStr(o.args[1])
				set(tv{mk("trunc:"+to, nil, a.v), to})
			case "IntToPtr":
				a := v(0)
				wantT("operand", a, "i64")
				set(tv{a.v, f.typeStr(o.args[1])})
			case "PtrToInt":
				a := v(0)
				if a.t != "" && !strings.HasSuffix(a.t, "*") && a.t != "fn" {
					f.fail("form", o.ev, "ptrtoint of a value of type %s", a.t)
				}
				to := f.typeStr(o.args[1])
				if to != "i64" && to != "" {
					set(tv{mk("trunc:"+to, nil, a.v), to})
				} else {
					set(tv{a.v, to})
				}
			case "BitCast":
				a := v(0)
				to := f.typeStr(o.args[1])
				if a.t != "" && (a.t == "fn" || strings.HasSuffix(a.t, "*")) != strings.HasSuffix(to, "*") {
					f.fail("form", o.ev, "bitcast of %s to %s", a.t, to)
				}
				set(tv{a.v, to})
			case "GetElementPtr":
				set(f.gep(ctx, o.args))
			case "Load":
				t := f.typeStr(o.args[0])
				p := v(1)
				if p.t != "" && t != "" && p.t != t+"*" {
					f.fail("form", o.ev, "a %s is loaded through a value of type %s", t, p.t)
				}
				if t != "i64" {
					set(tv{mk("load:"+t, nil, p.v, s.clock), t})
				} else {
					set(tv{cLoad(p.v, s.clock), t})
				}
			case "Alloca":
				set(f.alloca(o))
			case "Phi":
				for _, q := range b.ops[:s.idx] {
					if q.op != "Phi" {
						f.fail("form", o.ev, "a phi comes after other instructions")
					}
				}
				inc := map[string]Val{}
				for _, a := range o.args {
					if t := f.e.ctor(f.st, a); t != nil && t.Op == "ir.NewIncoming" {
						inc[bkey(t.Args[1])] = t.Args[0]
					}
				}
				pr := f.preds(s.blk)
				for k := range pr {
					if inc[k] == nil {
						f.fail("form", o.ev, "a phi has no value for one of its predecessors")
					}
				}
				for k := range inc {
					if !pr[k] {
						f.fail("form", o.ev, "a phi names a block that does not branch to it")
					}
				}
				if x := inc[s.prev]; x != nil {
					r := f.val(ctx, nil, x)
					set(r)
				} else {
					set(tv{mk("undef", nil), ""})
				}
			case "Switch":
				w := advance()
				if w == nil || w.op != "switch" {
					f.fail("order", o.ev, "the code branches on a value where the specification asks to %s", want())
					run = false
					continue
				}
				x := v(0)
				wantT("value", x, "i64")
				if y := w.f(s.regs); !f.eq(x.v, y) {
					f.fail("value", o.ev, "the code branches on %s instead of %s", f.show(x.v), f.show(y))
				}
				push(simSt{f.targets(o)[0], 0, s.blk, w.nxt, s.env, s.regs, s.clock})
				run = false
				continue
			case "Br":
				if n, ok := f.labels[f.targets(o)[0]]; ok {
					w := advance()
					if w == nil || w.op != "jump" && w.op != "label" {
						f.fail("order", o.ev, "the code goes to a label where the specification asks to %s", want())
					} else if y := w.f(s.regs); !same(n, y) {
						f.fail("order", o.ev, "the code goes to the label %s instead of %s", f.show(n), f.show(y))
					} else if w.op == "label" {
						push(simSt{f.targets(o)[0], 0, s.blk, w.nxt, env0, s.regs, mk("at", nil, mkInt(int64(w.nxt), tInt64))})
					}
					run = false
					continue
				}
				push(simSt{f.targets(o)[0], 0, s.blk, s.pc, s.env, s.regs, s.clock})
				run = false
				continue
			case "eval":
				w := advance()
				if w == nil || w.op != "eval" || w.ev != o.ev {
					f.fail("order", o.ev, "the code of %s runs where the specification asks to %s", evalName(o.ev), want())
					run = false
					continue
				}
				s.pc = w.nxt
				s.clock = mk("at", nil, mkStr(fmt.Sprintf("%p", o.ev)))
				s.prev, s.blk, s.idx = s.blk, o.res, 0
				// the evaluated code defines its results
				continue
			case "Store":
				w := advance()
				x, p := v(0), v(1)
				if w == nil || w.op != "store" {
					f.fail("order", o.ev, "%s is stored where the specification asks to %s", f.show(x.v), want())
					run = false
					continue
				}
				if x.t != "" && p.t != "" && p.t != x.t+"*" {
					f.fail("form", o.ev, "a value of type %s is stored through a value of type %s", x.t, p.t)
				}
				if a := w.f(s.regs); !f.eq(p.v, a) {
					f.fail("value", o.ev, "the store goes to %s instead of %s", f.show(p.v), f.show(a))
				}
				if a := w.h(s.regs); !f.eq(x.v, a) {
					f.fail("value", o.ev, "%s is stored instead of %s", f.show(x.v), f.show(a))
				}
				s.pc = w.nxt
				s.clock = mk("at", nil, mkInt(int64(w.nxt), tInt64))
			case "Call":
				w := advance()
				if w == nil || w.op != "call" {
					f.fail("order", o.ev, "a function is called where the specification asks to %s", want())
					run = false
					continue
				}
				f.call(ctx, o, w, s.regs, set)
				s.pc = w.nxt
				s.clock = mk("at", nil, mkInt(int64(w.nxt), tInt64))
				if w.dst >= 0 {
					r := mk("callres", nil, mkInt(int64(w.nxt), tInt64))
					s.regs[w.dst] = r
					set(tv{r, "i64"})
				}
			case "CondBr":
				w := advance()
				x := v(0)
				wantT("condition", x, "i1")
				if n, ok := constInt(x.v); ok && (w == nil || w.op != "cond") {
					t := f.targets(o)
					if n != 0 {
						push(simSt{t[0], 0, s.blk, s.pc, s.env, s.regs, s.clock})
					} else {
						push(simSt{t[1], 0, s.blk, s.pc, s.env, s.regs, s.clock})
					}
					run = false
					continue
				}
				if w == nil || w.op != "cond" {
					f.fail("order", o.ev, "the code tests %s where the specification asks to %s", f.show(x.v), want())
					run = false
					continue
				}
				y := w.f(s.regs)
				t := f.targets(o)
				switch {
				case f.eq(x.v, y):
				case f.eq(x.v, cNot(y)):
					t[0], t[1] = t[1], t[0]
				default:
					f.fail("value", o.ev, "the code tests %s instead of %s", f.show(x.v), f.show(y))
				}
				ck := mk("at", nil, mkInt(int64(w.nxt), tInt64))
				push(simSt{t[0], 0, s.blk, w.nxt, s.env, s.regs, ck})
				push(simSt{t[1], 0, s.blk, w.alt, s.env, s.regs, ck})
				run = false
				continue
			case "Ret":
				w := advance()
				if w == nil || w.op != "ret" {
					f.fail("order", o.ev, "the code returns where the specification asks to %s", want())
					run = false
					continue
				}
				x := v(0)
				wantT("value", x, "i64")
				if a := w.f(s.regs); !f.eq(x.v, a) {
					f.fail("value", o.ev, "%s is returned instead of %s", f.show(x.v), f.show(a))
				}
				run = false
				continue
			default:
				f.fail("value", o.ev, "instruction %s is not understood", o.op)
				set(tv{mk("instr:"+o.op, nil, &Ptr{Obj: 0, Path: o.res}), ""})
			}
			s.idx++
		}
	}
	return ends
}

func (f *Flow) alloca(o *fop) tv {
	return tv{mk("alloca", nil, &Ptr{Obj: 0, Path: o.res}), f.typeStr(o.args[0]) + "*"}
}

func evalName(ev *Event) string {
	return ev.Name + " at this point"
}

// call compares a call with the one asked for.
func (f *Flow) call(c *fctx, o *fop, w *sop, g []Val, set func(tv)) {
	fn := f.val(c, nil, o.args[0])
	want := w.f(g)
	if !f.eq(fn.v, want) {
		f.fail("call", o.ev, "%s is called instead of %s", f.show(fn.v), f.show(want))
	}
	var got []Val
	for _, a := range o.args[1:] {
		if s, ok := a.(*Splat); ok {
			if x, ok := c.psub[bkey(s.S)]; ok {
				got = append(got, unseq(x.v)...)
			} else {
				got = append(got, f.e.elems(f.st, a, c.sub)...)
			}
			continue
		}
		x := f.val(c, nil, a)
		if x.t != "" && x.t != "i64" {
			f.fail("form", o.ev, "an argument of a call has type %s", x.t)
		}
		got = append(got, x.v)
	}
	exp := f.drop(w.l(g))
	got = f.drop(got)
	if len(exp) == 0 && len(got) == 1 && same(got[0], mkInt(0, tInt64)) {
		// a missing first argument is passed as zero
		f.callType(c, o, fn, 0)
		return
	}
	if !f.eq(seqVal(got), seqVal(exp)) {
		f.fail("call", o.ev, "the arguments of the call are %s instead of %s", f.show(seqVal(got)), f.show(seqVal(exp)))
	}
	f.callType(c, o, fn, len(exp))
}

// drop leaves out the lists known to be empty.
func (f *Flow) drop(l []Val) []Val {
	var r []Val
	for _, v := range l {
		if t, ok := v.(*Term); ok && t.Op == "splat" && f.empty[t.Args[0].Key()] {
			continue
		}
		r = append(r, v)
	}
	return r
}

// callType asks that a function called through a pointer gets its arguments as functions expect them.
func (f *Flow) callType(c *fctx, o *fop, fn tv, n int) {
	t := fn.t
	if t == "fn" || t == "" {
		return
	}
	want := "i64(i64...)*"
	if n == 0 {
		want = "i64()*"
		if t == "i64(...)*" || t == "i64(i64...)*" {
			return
		}
	}
	if t != want {
		f.fail("call", o.ev, "the function is called as %s instead of %s", t, want)
	}
}

func (f *Flow) eq(a, b Val) bool { return same(a, b) || polyEq(a, b) }

func (f *Flow) show(v Val) string { return f.e.show(v, nil) }

func (f *Flow) describe(o *sop, g []Val) string {
	switch o.op {
	case "eval":
		return "evaluate " + evalName(o.ev)
	case "store":
		return "store " + f.show(o.h(g)) + " to " + f.show(o.f(g))
	case "call":
		return "call " + f.show(o.f(g))
	case "cond":
		return "test " + f.show(o.f(g))
	case "ret":
		return "return " + f.show(o.f(g))
	case "jump", "label":
		return "go to the label " + f.show(o.f(g))
	case "switch":
		return "branch on " + f.show(o.f(g))
	case "end":
		return "do nothing more"
	}
	return o.op
}

var _ = sort.Strings
var _ types.Type

// namedAs tells whether a type, or the type it points to, has the given name.
func namedAs(t types.Type, name string) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}
