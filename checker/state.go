package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strconv"
	"strings"
)

type Obj struct {
	ID    int
	T     types.Type // type of the contents
	V     Val        // *StructVal, *ListVal, *MapVal, *IterState or the value of a simple cell; nil: not yet known
	Ctor  *Term      // how an external library object was made
	Name  string
	Fresh bool // allocated within the analysed function (cannot alias older objects)
}

type Event struct {
	Kind string
	Name string
	Args []Val
	Res  []Val
	Pend []Val
	Pos  token.Pos
	Fn   string
	Flag string
	Loop *LoopInfo
	List [][]Val           // contents of the lists handed to a call, by argument
	Cnt  map[string][2]Val // counters of the compiler before and after a call

	After map[string]Val // the compiler after a call
}

type evList struct {
	prev *evList
	ev   *Event
	n    int
}

type Ivl struct{ Lo, Hi int64 }

var fullIvl = Ivl{math.MinInt64, math.MaxInt64}

type State struct {
	heap    map[int]*Obj
	chars   map[int]ByteSet
	bools   map[string]bool
	ivl     map[int]Ivl
	nils    map[int]bool // term id -> is nil
	eqc     map[int]*Const
	neqc    map[int]map[string]bool
	strs    map[int][]Val    // string term bound to characters
	symobj  map[string]int   // lazily made objects: key -> object
	dyn     map[int]Val      // interface term -> *Iface once its dynamic type is known
	notdyn  map[int][]string // interface term -> excluded dynamic types
	excl    ByteSet          // the next source character read is not one of these
	evs     *evList
	undec   []string
	postWS  map[int]bool // characters read just after blanks were skipped
	afterWS bool         // blanks have just been skipped
	eof     bool         // the end of the source has been seen
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, chars: map[int]ByteSet{}, bools: map[string]bool{}, ivl: map[int]Ivl{},
		nils: map[int]bool{}, eqc: map[int]*Const{}, neqc: map[int]map[string]bool{}, strs: map[int][]Val{},
		symobj: map[string]int{}, dyn: map[int]Val{}, notdyn: map[int][]string{}, postWS: map[int]bool{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+1)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) clone() *State {
	n := *s
	n.heap = cpm(s.heap)
	n.chars = cpm(s.chars)
	n.bools = cpm(s.bools)
	n.ivl = cpm(s.ivl)
	n.nils = cpm(s.nils)
	n.eqc = cpm(s.eqc)
	n.neqc = make(map[int]map[string]bool, len(s.neqc))
	for k, v := range s.neqc {
		n.neqc[k] = cpm(v)
	}
	n.strs = cpm(s.strs)
	n.symobj = cpm(s.symobj)
	n.dyn = cpm(s.dyn)
	n.notdyn = cpm(s.notdyn)
	n.postWS = cpm(s.postWS)
	n.undec = append([]string(nil), s.undec...)
	return &n
}

func (s *State) add(ev *Event) {
	n := 1
	if s.evs != nil {
		n = s.evs.n + 1
	}
	s.evs = &evList{s.evs, ev, n}
}

func (s *State) events() []*Event {
	if s.evs == nil {
		return nil
	}
	r := make([]*Event, s.evs.n)
	for l := s.evs; l != nil; l = l.prev {
		r[l.n-1] = l.ev
	}
	return r
}

var objSeq int

func (s *State) newObj(t types.Type, v Val, name string) *Obj {
	objSeq++
	o := &Obj{ID: objSeq, T: t, V: v, Name: name, Fresh: true}
	s.heap[o.ID] = o
	return o
}

// ---------- paths into objects ----------

func splitPath(p string) []int {
	if p == "" {
		return nil
	}
	var r []int
	for _, x := range strings.Split(p[1:], "/") {
		n, _ := strconv.Atoi(x)
		r = append(r, n)
	}
	return r
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

// load reads the cell a pointer refers to.
func (e *Eng) load(st *State, p *Ptr) Val {
	o := st.heap[p.Obj]
	if o == nil {
		return fresh("lost", nil)
	}
	if o.V == nil {
		no := *o
		no.V = e.symValue(st, o.Name, o.T)
		o = &no
		st.heap[o.ID] = o
	}
	path := splitPath(p.Path)
	v, nroot, changed := e.getPath(st, o.V, path, o.Name)
	if changed {
		no := *st.heap[p.Obj]
		no.V = nroot
		st.heap[o.ID] = &no
	}
	return v
}

func (e *Eng) getPath(st *State, v Val, path []int, name string) (Val, Val, bool) {
	if len(path) == 0 {
		return v, v, false
	}
	switch x := v.(type) {
	case *StructVal:
		i := path[0]
		changed := false
		c := x.F[i]
		if c == nil {
			ft := under(x.T).(*types.Struct).Field(i)
			c = e.symValue(st, x.Name+"."+ft.Name(), ft.Type())
			changed = true
		}
		r, nc, ch := e.getPath(st, c, path[1:], name)
		if changed || ch {
			n := &StructVal{x.T, append([]Val(nil), x.F...), x.Name}
			n.F[i] = nc
			return r, n, true
		}
		return r, v, false
	case *ListVal:
		i := path[0]
		if i < 0 || i >= len(x.Items) {
			return fresh("oob", x.Elem), v, false
		}
		r, nc, ch := e.getPath(st, x.Items[i], path[1:], name)
		if ch {
			n := &ListVal{append([]Val(nil), x.Items...), x.Elem}
			n.Items[i] = nc
			return r, n, true
		}
		return r, v, false
	}
	return mk("field"+strconv.Itoa(path[0]), nil, v), v, false
}

func setPath(v Val, path []int, w Val) Val {
	if len(path) == 0 {
		return w
	}
	switch x := v.(type) {
	case *StructVal:
		n := &StructVal{x.T, append([]Val(nil), x.F...), x.Name}
		c := n.F[path[0]]
		if c == nil && len(path) > 1 {
			return v
		}
		n.F[path[0]] = setPath(c, path[1:], w)
		return n
	case *ListVal:
		n := &ListVal{append([]Val(nil), x.Items...), x.Elem}
		if path[0] >= 0 && path[0] < len(n.Items) {
			n.Items[path[0]] = setPath(n.Items[path[0]], path[1:], w)
		}
		return n
	}
	return v
}

func (e *Eng) store(st *State, p *Ptr, w Val) {
	o := st.heap[p.Obj]
	if o == nil {
		return
	}
	if p.Path != "" {
		e.load(st, p) // materialise
		o = st.heap[p.Obj]
	}
	no := *o
	no.V = setPath(o.V, splitPath(p.Path), w)
	st.heap[p.Obj] = &no
}

func (s *State) items(x *SliceVal) []Val {
	o := s.heap[x.Obj]
	if o == nil {
		return nil
	}
	l, ok := o.V.(*ListVal)
	if !ok {
		return nil
	}
	lo, hi := x.Lo, x.Hi
	if hi > len(l.Items) {
		hi = len(l.Items)
	}
	if lo > hi {
		lo = hi
	}
	return l.Items[lo:hi]
}

func (st *State) newList(items []Val, t types.Type) *SliceVal {
	var el types.Type
	if s, ok := under(t).(*types.Slice); ok {
		el = s.Elem()
	}
	o := st.newObj(nil, &ListVal{append([]Val(nil), items...), el}, "list")
	return &SliceVal{o.ID, 0, len(items), t}
}

// seq returns the items of a slice value: constants lists as items, opaque ones as one splat.
func (s *State) seq(v Val) []Val {
	switch x := v.(type) {
	case *SliceVal:
		return s.items(x)
	case *Const:
		return nil
	}
	return []Val{&Splat{v}}
}

func hasSplat(vs []Val) bool {
	for _, v := range vs {
		if _, ok := v.(*Splat); ok {
			return true
		}
	}
	return false
}

// field helpers on struct objects, by field name
func fieldIndex(t types.Type, name string) int {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (e *Eng) getField(st *State, p *Ptr, name string) Val {
	o := st.heap[p.Obj]
	if o == nil {
		return nil
	}
	i := fieldIndex(o.T, name)
	if i < 0 {
		return nil
	}
	return e.load(st, &Ptr{p.Obj, p.Path + "/" + strconv.Itoa(i)})
}

// peekField reads a field without materialising it.
func (e *Eng) peekField(st *State, obj int, name string) Val {
	o := st.heap[obj]
	if o == nil {
		return nil
	}
	i := fieldIndex(o.T, name)
	s, ok := o.V.(*StructVal)
	if i < 0 || !ok {
		return nil
	}
	return s.F[i]
}

func (e *Eng) setField(st *State, p *Ptr, name string, v Val) {
	o := st.heap[p.Obj]
	i := fieldIndex(o.T, name)
	if i < 0 {
		return
	}
	if o.V == nil {
		e.load(st, p)
	}
	e.store(st, &Ptr{p.Obj, p.Path + "/" + strconv.Itoa(i)}, v)
}

// ---------- integer intervals ----------

func satAdd(a, b int64) int64 {
	if a == math.MinInt64 || b == math.MinInt64 {
		if a == math.MaxInt64 || b == math.MaxInt64 {
			return 0
		}
		return math.MinInt64
	}
	if a == math.MaxInt64 || b == math.MaxInt64 {
		return math.MaxInt64
	}
	s := a + b
	if a > 0 && b > 0 && s < 0 {
		return math.MaxInt64
	}
	if a < 0 && b < 0 && s >= 0 {
		return math.MinInt64
	}
	return s
}

func (s *State) interval(v Val) Ivl {
	if n, ok := constInt(v); ok {
		return Ivl{n, n}
	}
	t, ok := v.(*Term)
	if !ok {
		return fullIvl
	}
	r := fullIvl
	if c, ok := s.eqc[t.ID]; ok {
		if n, ok := constInt(c); ok {
			return Ivl{n, n}
		}
	}
	if b, ok := s.chars[t.ID]; ok {
		e := b.Elems()
		if len(e) > 0 {
			r = Ivl{int64(e[0]), int64(e[len(e)-1])}
		}
	}
	switch t.Op {
	case "len":
		r.Lo = 0
	case "+":
		a, b := s.interval(t.Args[0]), s.interval(t.Args[1])
		r = Ivl{satAdd(a.Lo, b.Lo), satAdd(a.Hi, b.Hi)}
	case "-":
		a := s.interval(t.Args[0])
		if n, ok := constInt(t.Args[1]); ok {
			r = Ivl{satAdd(a.Lo, -n), satAdd(a.Hi, -n)}
			// the subtraction of a small constant from a length does not wrap
		}
	case "*":
		a, b := s.interval(t.Args[0]), s.interval(t.Args[1])
		if a.Lo > -1<<30 && a.Hi < 1<<30 && b.Lo > -1<<30 && b.Hi < 1<<30 {
			r = Ivl{math.MaxInt64, math.MinInt64}
			for _, x := range []int64{a.Lo * b.Lo, a.Lo * b.Hi, a.Hi * b.Lo, a.Hi * b.Hi} {
				if x < r.Lo {
					r.Lo = x
				}
				if x > r.Hi {
					r.Hi = x
				}
			}
		}
	case "&":
		if n, ok := constInt(t.Args[1]); ok && n >= 0 {
			r = Ivl{0, n}
		}
	}
	if f, ok := s.ivl[t.ID]; ok {
		if f.Lo > r.Lo {
			r.Lo = f.Lo
		}
		if f.Hi < r.Hi {
			r.Hi = f.Hi
		}
	}
	return r
}

// ---------- pointwise evaluation over characters ----------

func evalConst(v Val, env map[int]int64, st *State) (Val, bool) {
	switch x := v.(type) {
	case *Const:
		return x, true
	case *Iface:
		return evalConst(x.V, env, st)
	case *SliceVal:
		return x, true
	case *MapRef:
		return x, true
	case *Term:
		if n, ok := env[x.ID]; ok {
			return mkInt(n, x.T), true
		}
		if c, ok := st.eqc[x.ID]; ok {
			return c, true
		}
		if x.Op == "sym" {
			if cs, ok := st.strs[x.ID]; ok {
				var b []rune
				for _, c := range cs {
					w, ok := evalConst(c, env, st)
					n, ok2 := constInt(w)
					if !ok || !ok2 {
						return nil, false
					}
					b = append(b, rune(n))
				}
				return mkStr(string(b)), true
			}
			return nil, false
		}
		args := make([]Val, len(x.Args))
		for i, a := range x.Args {
			w, ok := evalConst(a, env, st)
			if !ok {
				return nil, false
			}
			args[i] = w
		}
		return evalOp(x.Op, x.T, args, st)
	}
	return nil, false
}

func evalOp(op string, t types.Type, a []Val, st *State) (Val, bool) {
	if f, ok := natives[op]; ok {
		return f(a, t, st)
	}
	switch op {
	case "!":
		if b, ok := constBool(a[0]); ok {
			return mkBool(!b), true
		}
	case "neg", "^":
		if n, ok := constInt(a[0]); ok {
			if op == "neg" {
				return mkInt(wrapInt(-n, t), t), true
			}
			return mkInt(wrapInt(^n, t), t), true
		}
	case "idx":
		i, ok := constInt(a[1])
		if !ok {
			return nil, false
		}
		if s, ok := constStr(a[0]); ok {
			if i >= 0 && int(i) < len(s) {
				return mkInt(int64(s[i]), t), true
			}
			return nil, false
		}
		if sl, ok := a[0].(*SliceVal); ok {
			it := st.items(sl)
			if !hasSplat(it) && i >= 0 && int(i) < len(it) {
				return it[i], true
			}
		}
		return nil, false
	case "maphas", "mapval":
		if m, ok := a[0].(*MapRef); ok {
			if o := st.heap[m.Obj]; o != nil {
				mv := o.V.(*MapVal)
				for _, en := range mv.Ents {
					if _, ok := en.K.(*Const); !ok {
						return nil, false
					}
					if constEq(en.K, a[1]) {
						if op == "maphas" {
							return mkBool(en.Present), true
						}
						return en.V, true
					}
				}
				if !mv.Opaque {
					if op == "maphas" {
						return mkBool(false), true
					}
					return zeroScalar(mv.T.Elem())
				}
			}
		}
		return nil, false
	}
	if len(a) == 2 {
		return evalBin(op, t, a[0], a[1])
	}
	if strings.HasPrefix(op, "conv:") {
		if n, ok := constInt(a[0]); ok {
			return mkInt(wrapInt(n, t), t), true
		}
	}
	return nil, false
}

func zeroScalar(t types.Type) (Val, bool) {
	switch b := under(t).(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			return mkInt(0, t), true
		case b.Info()&types.IsString != 0:
			return mkStr(""), true
		case b.Info()&types.IsBoolean != 0:
			return mkBool(false), true
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return mkNil(t), true
	}
	return nil, false
}

func constEq(a, b Val) bool {
	ca, ok1 := a.(*Const)
	cb, ok2 := b.(*Const)
	if !ok1 || !ok2 {
		return false
	}
	if ca.V == nil || cb.V == nil {
		return ca.V == nil && cb.V == nil
	}
	if ca.V.Kind() != cb.V.Kind() {
		return false
	}
	return constant.Compare(ca.V, token.EQL, cb.V)
}

func wrapInt(n int64, t types.Type) int64 {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func evalBin(op string, t types.Type, a, b Val) (Val, bool) {
	x, okx := constInt(a)
	y, oky := constInt(b)
	if okx && oky {
		switch op {
		case "+":
			return mkInt(wrapInt(x+y, t), t), true
		case "-":
			return mkInt(wrapInt(x-y, t), t), true
		case "*":
			return mkInt(wrapInt(x*y, t), t), true
		case "/":
			if y != 0 {
				return mkInt(wrapInt(x/y, t), t), true
			}
		case "%":
			if y != 0 {
				return mkInt(wrapInt(x%y, t), t), true
			}
		case "&":
			return mkInt(x&y, t), true
		case "|":
			return mkInt(x|y, t), true
		case "^":
			return mkInt(wrapInt(x^y, t), t), true
		case "&^":
			return mkInt(x&^y, t), true
		case "<<":
			if y >= 0 && y < 64 {
				return mkInt(wrapInt(x<<uint(y), t), t), true
			}
		case ">>":
			if y >= 0 && y < 64 {
				return mkInt(wrapInt(x>>uint(y), t), t), true
			}
		case "==":
			return mkBool(x == y), true
		case "<":
			return mkBool(x < y), true
		case "<=":
			return mkBool(x <= y), true
		}
		return nil, false
	}
	s, oks := constStr(a)
	u, oku := constStr(b)
	if oks && oku {
		switch op {
		case "+", "cat":
			return mkStr(s + u), true
		case "==":
			return mkBool(s == u), true
		case "<":
			return mkBool(s < u), true
		case "<=":
			return mkBool(s <= u), true
		}
		return nil, false
	}
	p, okp := constBool(a)
	q, okq := constBool(b)
	if okp && okq && op == "==" {
		return mkBool(p == q), true
	}
	if op == "==" && isNil(a) && isNil(b) {
		return mkBool(true), true
	}
	return nil, false
}

// charSyms returns the character symbols of v and whether all other leaves are constant.
func (s *State) charSyms(v Val) ([]int, bool) {
	m := map[int]*Term{}
	syms(v, m)
	var r []int
	for id := range m {
		if _, ok := s.chars[id]; ok {
			r = append(r, id)
			continue
		}
		if cs, ok := s.strs[id]; ok {
			mm := map[int]*Term{}
			for _, c := range cs {
				syms(c, mm)
			}
			for id2 := range mm {
				r = append(r, id2)
			}
			continue
		}
		if _, ok := s.eqc[id]; ok {
			continue
		}
		return nil, false
	}
	// sort for determinism
	for i := range r {
		for j := i + 1; j < len(r); j++ {
			if r[j] < r[i] {
				r[i], r[j] = r[j], r[i]
			}
		}
	}
	var u []int
	for i, x := range r {
		if i == 0 || x != r[i-1] {
			u = append(u, x)
		}
	}
	return u, true
}

// partition splits a state by the value of a term that depends on at most two characters.
// It returns nil if that is not possible.
func (e *Eng) partition(st *State, v Val) (vals []Val, sts []*State) {
	ids, ok := st.charSyms(v)
	if !ok || len(ids) > 3 {
		return nil, nil
	}
	if len(ids) == 0 {
		if w, ok := evalConst(v, nil, st); ok {
			return []Val{w}, []*State{st}
		}
		return nil, nil
	}
	// concretise all but the character with the largest set
	if len(ids) > 1 {
		best := 0
		for i, id := range ids {
			if st.chars[id].Count() > st.chars[ids[best]].Count() {
				best = i
			}
		}
		prod := 1
		for i, id := range ids {
			if i != best {
				prod *= st.chars[id].Count()
			}
		}
		if prod > 40 {
			return nil, nil
		}
		work := []*State{st}
		for i, id := range ids {
			if i == best {
				continue
			}
			var nw []*State
			for _, s := range work {
				el := s.chars[id].Elems()
				if len(el) == 1 {
					nw = append(nw, s)
					continue
				}
				for _, c := range el {
					n := s.clone()
					var b ByteSet
					b.Add(c)
					n.chars[id] = b
					nw = append(nw, n)
				}
			}
			work = nw
		}
		base := map[int]int64{}
		_ = base
		for _, s := range work {
			env := map[int]int64{}
			for i, id := range ids {
				if i != best {
					env[id] = int64(s.chars[id].Elems()[0])
				}
			}
			vs, ss := e.part1(s, v, ids[best], env)
			if vs == nil {
				return nil, nil
			}
			vals = append(vals, vs...)
			sts = append(sts, ss...)
		}
		return vals, sts
	}
	return e.part1(st, v, ids[0], map[int]int64{})
}

func (e *Eng) part1(st *State, v Val, id int, env map[int]int64) (vals []Val, sts []*State) {
	set := st.chars[id]
	groups := map[string]*ByteSet{}
	var order []string
	val := map[string]Val{}
	for _, c := range set.Elems() {
		env[id] = int64(c)
		w, ok := evalConst(v, env, st)
		if !ok {
			return nil, nil
		}
		k := w.Key()
		g := groups[k]
		if g == nil {
			g = &ByteSet{}
			groups[k] = g
			order = append(order, k)
			val[k] = w
		}
		g.Add(c)
	}
	for _, k := range order {
		n := st
		if len(order) > 1 {
			n = st.clone()
		}
		n.chars[id] = *groups[k]
		vals = append(vals, val[k])
		sts = append(sts, n)
	}
	return
}

// ---------- conditions ----------

// nilness: 1 nil, 0 not nil, -1 unknown
func (s *State) nilness(v Val) int {
	switch x := v.(type) {
	case *Const:
		if x.V == nil {
			return 1
		}
		return 0
	case *Term:
		if n, ok := s.nils[x.ID]; ok {
			if n {
				return 1
			}
			return 0
		}
		if strings.HasPrefix(x.Op, "glob:") || strings.HasPrefix(x.Op, "call:") || strings.HasPrefix(x.Op, "errorf") {
			return 0
		}
		if x.Op == "listof" {
			return 0
		}
		return -1
	case *SliceVal, *Ptr, *MapRef, *Closure, *Iface:
		return 0
	}
	return 0
}

type branchOut struct {
	st  *State
	val bool
}

// branch splits a state on a condition.
func (e *Eng) branch(st *State, cond Val) []branchOut {
	if b, ok := constBool(cond); ok {
		return []branchOut{{st, b}}
	}
	t, ok := cond.(*Term)
	if !ok {
		return []branchOut{{st, true}, {st.clone(), false}}
	}
	if t.Op == "!" {
		r := e.branch(st, t.Args[0])
		for i := range r {
			r[i].val = !r[i].val
		}
		return r
	}
	if b, ok := st.bools[t.Key()]; ok {
		return []branchOut{{st, b}}
	}
	if c, ok := st.eqc[t.ID]; ok {
		if b, ok := constBool(c); ok {
			return []branchOut{{st, b}}
		}
	}
	if vals, sts := e.partition(st, cond); vals != nil {
		var r []branchOut
		for i, v := range vals {
			if b, ok := constBool(v); ok {
				r = append(r, branchOut{sts[i], b})
			} else {
				r = nil
				break
			}
		}
		if r != nil {
			return r
		}
	}
	fork := func(onT, onF func(*State) bool) []branchOut {
		var r []branchOut
		a, b := st.clone(), st
		a.bools[t.Key()] = true
		b.bools[t.Key()] = false
		if onT == nil || onT(a) {
			r = append(r, branchOut{a, true})
		}
		if onF == nil || onF(b) {
			r = append(r, branchOut{b, false})
		}
		return r
	}
	switch t.Op {
	case "==":
		a, b := t.Args[0], t.Args[1]
		if isNil(a) {
			a, b = b, a
		}
		if isNil(b) {
			switch st.nilness(a) {
			case 1:
				return []branchOut{{st, true}}
			case 0:
				return []branchOut{{st, false}}
			}
			if x, ok := a.(*Term); ok {
				return fork(func(s *State) bool { s.nils[x.ID] = true; return true },
					func(s *State) bool { s.nils[x.ID] = false; return true })
			}
			return fork(nil, nil)
		}
		a, b = e.norm(st, a), e.norm(st, b)
		if same(strip(a), strip(b)) {
			return []branchOut{{st, true}}
		}
		if constEq(a, b) {
			return []branchOut{{st, true}}
		}
		_, ca := a.(*Const)
		_, cb := b.(*Const)
		if ca && cb {
			return []branchOut{{st, false}}
		}
		if ca {
			a, b = b, a
			ca, cb = cb, ca
		}
		if cb {
			c := b.(*Const)
			if x, ok := strip(a).(*Term); ok {
				if k, ok := st.eqc[x.ID]; ok {
					return []branchOut{{st, constEq(k, c)}}
				}
				if st.neqc[x.ID][c.Key()] {
					return []branchOut{{st, false}}
				}
				if n, ok := constInt(c); ok && x.Op == "+" && is64(x.T) {
					if k, ok := constInt(x.Args[1]); ok && !(k > 0 && n < math.MinInt64+k) && !(k < 0 && n > math.MaxInt64+k) {
						// x+k == n
						r := e.branch(st, mkEq(x.Args[0], mkInt(n-k, x.T)))
						for i := range r {
							r[i].st.bools[t.Key()] = r[i].val
							if r[i].val {
								r[i].st.eqc[x.ID] = c
							}
						}
						return r
					}
				}
				if n, ok := constInt(c); ok {
					iv := st.interval(x)
					if n < iv.Lo || n > iv.Hi {
						return []branchOut{{st, false}}
					}
					if iv.Lo == iv.Hi && iv.Lo == n {
						return []branchOut{{st, true}}
					}
				}
				if s, ok := constStr(c); ok {
					if r := e.strEq(st, x, s); r >= 0 {
						return []branchOut{{st, r == 1}}
					}
				}
				return fork(func(s *State) bool { s.eqc[x.ID] = c; return e.onEq(s, x, c) },
					func(s *State) bool {
						if s.neqc[x.ID] == nil {
							s.neqc[x.ID] = map[string]bool{}
						} else {
							s.neqc[x.ID] = cpm(s.neqc[x.ID])
						}
						s.neqc[x.ID][c.Key()] = true
						if n, ok := constInt(c); ok {
							iv := s.interval(x)
							if iv.Lo == n {
								iv.Lo++
							}
							if iv.Hi == n {
								iv.Hi--
							}
							if iv.Lo > iv.Hi {
								return false
							}
							s.ivl[x.ID] = iv
						}
						return true
					})
			}
		}
		pa, oka := strip(a).(*Ptr)
		pb, okb := strip(b).(*Ptr)
		if oka && okb {
			oa, ob := st.heap[pa.Obj], st.heap[pb.Obj]
			if pa.Path == "" && pb.Path == "" && oa != nil && ob != nil && !oa.Fresh && !ob.Fresh && types.Identical(oa.T, ob.T) {
				return fork(nil, nil)
			}
			return []branchOut{{st, false}}
		}
		ta, okta := strip(a).(*Term)
		tb, oktb := strip(b).(*Term)
		if okta && oktb && isErrAtom(ta) && isErrAtom(tb) {
			return []branchOut{{st, false}}
		}
		if polyEq(a, b) && isIntT(typeOf(a)) {
			return []branchOut{{st, true}}
		}
		if isIntT(typeOf(a)) {
			ia, ib := st.interval(a), st.interval(b)
			if ia.Hi < ib.Lo || ib.Hi < ia.Lo {
				return []branchOut{{st, false}}
			}
		}
		return fork(nil, nil)
	case "<", "<=":
		a, b := e.norm(st, t.Args[0]), e.norm(st, t.Args[1])
		if v, ok := evalBin(t.Op, tBool, a, b); ok {
			x, _ := constBool(v)
			return []branchOut{{st, x}}
		}
		ia, ib := st.interval(a), st.interval(b)
		strict := t.Op == "<"
		if ia.Hi < ib.Lo || (!strict && ia.Hi <= ib.Lo) {
			return []branchOut{{st, true}}
		}
		if ia.Lo > ib.Hi || (strict && ia.Lo >= ib.Hi) {
			return []branchOut{{st, false}}
		}
		if polyEq(a, b) {
			return []branchOut{{st, !strict}}
		}
		ref := func(s *State, x Val, lo, hi int64) bool {
			// bound x within [lo,hi], looking through additions of constants
			for {
				tm, ok := x.(*Term)
				if !ok {
					return true
				}
				iv := s.interval(tm)
				if lo > iv.Lo {
					iv.Lo = lo
				}
				if hi < iv.Hi {
					iv.Hi = hi
				}
				if iv.Lo > iv.Hi {
					return false
				}
				s.ivl[tm.ID] = iv
				if iv.Lo == iv.Hi {
					s.eqc[tm.ID] = mkInt(iv.Lo, tm.T)
				}
				if tm.Op == "+" || tm.Op == "-" {
					if n, ok := constInt(tm.Args[1]); ok {
						if tm.Op == "-" {
							n = -n
						}
						x = tm.Args[0]
						if lo != math.MinInt64 {
							lo -= n
						}
						if hi != math.MaxInt64 {
							hi -= n
						}
						continue
					}
				}
				return true
			}
		}
		d := int64(0)
		if strict {
			d = 1
		}
		return fork(func(s *State) bool {
			return ref(s, a, math.MinInt64, satAdd(ib.Hi, -d)) && ref(s, b, satAdd(ia.Lo, d), math.MaxInt64)
		}, func(s *State) bool {
			// not (a < b): a >= b ; not (a <= b): a >= b+1
			return ref(s, a, satAdd(ib.Lo, 1-d), math.MaxInt64) && ref(s, b, math.MinInt64, satAdd(ia.Hi, -(1-d)))
		})
	}
	if r := e.decidePred(st, t); r >= 0 {
		return []branchOut{{st, r == 1}}
	}
	return fork(func(s *State) bool { return e.onPred(s, t, true) }, func(s *State) bool { return e.onPred(s, t, false) })
}

func is64(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Int64)
}

func isIntT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func typeOf(v Val) types.Type {
	switch x := v.(type) {
	case *Const:
		return x.T
	case *Term:
		return x.T
	case *SliceVal:
		return x.T
	}
	return nil
}

// isErrAtom: distinct error values that are known to differ from each other.
func isErrAtom(t *Term) bool {
	return strings.HasPrefix(t.Op, "glob:") || strings.HasPrefix(t.Op, "errorf") || (t.Op == "sym" && strings.HasPrefix(t.Name, "err!") && !strings.HasPrefix(t.Name, "err!sub"))
}

// norm replaces a term by the constant it is known to equal.
func (e *Eng) norm(st *State, v Val) Val {
	switch x := v.(type) {
	case *Term:
		if c, ok := st.eqc[x.ID]; ok {
			return c
		}
		if b, ok := st.chars[x.ID]; ok && b.Count() == 1 {
			return mkInt(int64(b.Elems()[0]), x.T)
		}
		if b, ok := st.bools[x.Key()]; ok && x.T != nil {
			return mkBool(b)
		}
		if x.Op == "idx" && len(x.Args) == 2 {
			// a character of a string whose characters are known
			if s, ok := x.Args[0].(*Term); ok {
				if cs, ok := st.strs[s.ID]; ok {
					if i, ok := st.strIndex(x.Args[1]); ok && i >= 0 && i < int64(len(cs)) {
						return e.norm(st, cs[i])
					}
				}
			}
		}
	case *Iface:
		n := e.norm(st, x.V)
		if n != x.V {
			return &Iface{x.T, n}
		}
	}
	return v
}

// strIndex evaluates an index that depends on the lengths of strings.
func (st *State) strIndex(v Val) (int64, bool) {
	if n, ok := constInt(v); ok {
		return n, true
	}
	t, ok := v.(*Term)
	if !ok {
		return 0, false
	}
	if c, ok := st.eqc[t.ID]; ok {
		return constInt(c)
	}
	if t.Op == "len" && len(t.Args) == 1 {
		if s, ok := t.Args[0].(*Term); ok {
			if cs, ok := st.strs[s.ID]; ok {
				return int64(len(cs)), true
			}
		}
		return 0, false
	}
	if (t.Op == "+" || t.Op == "-") && len(t.Args) == 2 {
		a, ok1 := st.strIndex(t.Args[0])
		b, ok2 := st.strIndex(t.Args[1])
		if t.Op == "-" {
			b = -b
		}
		return a + b, ok1 && ok2
	}
	return 0, false
}
