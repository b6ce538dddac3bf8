package main

// Loops: natural loops of the control-flow graph are either unrolled, when the
// loop condition is decided by constants, or brought to a fixpoint by widening
// the values that change (phis and heap cells) at the loop head.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func natLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	m := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return m
}

// Trans is an arrival at a loop head: from outside (From == -1) or around the loop.
type Trans struct {
	From, To int
	Evs      []*Event
	Vals     map[string]Val
	St       *State
	Fr       *Frame
}

type HeadSt struct {
	Idx   int
	Key   string
	Vals  map[string]Val // widened locations
	Own   map[int]bool   // ids of the symbols of this head
	fr    *Frame
	st    *State
	flows []flow
	dirty bool
	entry map[ssa.Value]Val // what the loop was entered with
	keep  map[string]bool   // facts that hold at every arrival
	caps  map[int]int       // how often a bound was taken from a condition
}

// guard keeps the upper bound that a condition gives the arriving value.
func (h *HeadSt) guard(ast *State, s *Term, av Val, n Ivl) Ivl {
	t, ok := av.(*Term)
	if !ok || n.Hi != math.MaxInt64 {
		return n
	}
	f, ok := ast.ivl[t.ID]
	if !ok || f.Hi == math.MaxInt64 || h.caps[s.ID] >= 3 {
		return n
	}
	if h.caps == nil {
		h.caps = map[int]int{}
	}
	h.caps[s.ID]++
	n.Hi = f.Hi
	return n
}

type LoopInfo struct {
	Fn    *ssa.Function
	Pos   token.Pos
	Heads []*HeadSt
	Trans []*Trans
	Entry *State // the state on arrival from outside
	base  *evList
	head  *ssa.BasicBlock
}

func (li *LoopInfo) String() string { return fmt.Sprintf("loop(%s)", li.Fn.Name()) }

const (
	maxUnroll     = 70
	maxUnrollLive = 24
)

func (e *Eng) loop(it item, l *natLoop) []flow {
	if !it.first {
		e.phis(it)
		it.first = true
	}
	if fl, ok := e.unroll(it, l); ok {
		return fl
	}
	if sts := e.splitLen(it, l); sts != nil {
		var out []flow
		for _, s := range sts {
			out = append(out, e.loop(item{fr: it.fr.clone(), st: s, blk: it.blk, prev: it.prev, first: true}, l)...)
		}
		return out
	}
	if xs := e.splitBools(it, l); len(xs) > 1 {
		var out []flow
		for _, x := range xs {
			out = append(out, e.fix(x, l)...)
		}
		return out
	}
	return e.fix(it, l)
}

func (e *Eng) unroll(it item, l *natLoop) (out []flow, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooMany); is {
				out, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	sl := len(e.stack)
	defer func() { e.stack = e.stack[:sl] }()
	live := []item{{fr: it.fr.clone(), st: it.st.clone(), blk: it.blk, first: true}}
	for n := 0; n < maxUnroll; n++ {
		var next []item
		for _, x := range live {
			if !e.headDecided(x) {
				return nil, false
			}
			for _, f := range e.run([]item{x}, l) {
				if f.kind == "back" {
					y := f.item
					e.phis(y)
					y.first = true
					y.pc = 0
					next = append(next, y)
				} else {
					out = append(out, f)
				}
			}
		}
		if len(next) == 0 {
			return out, true
		}
		if len(next) > maxUnrollLive || len(out) > 400 {
			return nil, false
		}
		live = next
	}
	return nil, false
}

// headDecided tells whether the loop condition, evaluated in the head block, is known.
func (e *Eng) headDecided(x item) bool {
	if _, ok := x.blk.Instrs[len(x.blk.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	fr, st := x.fr.clone(), x.st.clone()
	n := st.evs
	w, f := e.block(item{fr: fr, st: st, blk: x.blk, first: true})
	return len(w) == 1 && len(f) == 0 && w[0].st.evs == n
}

// leaves tells whether the loop condition is known to end the loop.
func (e *Eng) leaves(x item, l *natLoop) bool {
	if _, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	n := x.st.evs
	w, f := e.block(item{fr: x.fr.clone(), st: x.st.clone(), blk: l.head, first: true})
	return len(w) == 1 && len(f) == 0 && w[0].st.evs == n && !l.blocks[w[0].blk]
}

// splitLen splits the entry of a loop by the length of an identifier when the loop
// condition depends on it.
func (e *Eng) splitLen(it item, l *natLoop) []*State {
	iff, ok := it.blk.Instrs[len(it.blk.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	fr, st := it.fr.clone(), it.st.clone()
	e.block(item{fr: fr, st: st, blk: it.blk, first: true})
	v := fr.env[iff.Cond]
	if v == nil {
		return nil
	}
	m := map[int]*Term{}
	syms(v, m)
	var ids []int
	for id := range m {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if n := m[id].Name; (strings.HasPrefix(n, "ident") || strings.HasPrefix(n, "strlit")) && it.st.strs[id] == nil {
			return e.bindString(it.st, m[id])
		}
	}
	return nil
}

// headKey tells apart abstract states that are not joined at a loop head.
func (e *Eng) headKey(it item, l *natLoop, lim int) string {
	var s []string
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := e.norm(it.st, it.fr.env[p])
		it.fr.env[p] = v
		if b, ok := constBool(v); ok {
			s = append(s, fmt.Sprintf("%s=%v", p.Name(), b))
		} else if c, ok := v.(*Const); ok && c.V != nil && (enumPhi(p) || modePhi(p, l)) {
			s = append(s, fmt.Sprintf("%s=%v", p.Name(), c.Key()))
		}
	}
	// local boolean variables
	var ids []int
	for id := range it.st.heap {
		if id <= lim {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		o := it.st.heap[id]
		switch x := o.V.(type) {
		case *Const:
			if b, ok := constBool(x); ok && o.Fresh {
				s = append(s, fmt.Sprintf("o%d=%v", id, b))
			}
		case *IterState:
			if e.liveIter(it.fr, id) {
				s = append(s, fmt.Sprintf("it=%d", x.Phase))
			}
		}
	}
	if n, ok := e.pushback(it.st); ok {
		s = append(s, fmt.Sprintf("buf=%d", n))
	}
	if it.st.eof {
		s = append(s, "eof")
	}
	if it.st.afterWS {
		s = append(s, "ws")
	}
	return strings.Join(s, ",")
}

// enumPhi tells whether a variable only ever gets one of a few constants.
func enumPhi(p *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	vals := map[string]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, y := range x.Edges {
				if !walk(y) {
					return false
				}
			}
			return true
		case *ssa.Const:
			if x.Value == nil {
				return false
			}
			vals[x.Value.ExactString()] = true
			return true
		}
		return false
	}
	return walk(p) && len(vals) <= 6
}

// modePhi tells whether the loop condition compares a variable with a constant, or the
// loop a character it keeps, and the variable is not computed: the character read last,
// for instance.
func modePhi(p *ssa.Phi, l *natLoop) bool {
	rn := false
	if b, ok := under(p.Type()).(*types.Basic); ok {
		rn = b.Kind() == types.Int32 || b.Kind() == types.Uint8
	}
	for _, x := range p.Edges {
		if b, ok := x.(*ssa.BinOp); ok && (b.X == p || b.Y == p) {
			return false
		}
	}
	for _, u := range *p.Referrers() {
		b, ok := u.(*ssa.BinOp)
		if !ok || b.Block() != p.Block() && !(rn && l.blocks[b.Block()]) || b.Op != token.EQL && b.Op != token.NEQ {
			continue
		}
		if _, ok := b.X.(*ssa.Const); ok {
			return true
		}
		if _, ok := b.Y.(*ssa.Const); ok {
			return true
		}
	}
	return false
}

// splitBools decides the boolean variables of a loop head.
func (e *Eng) splitBools(x item, l *natLoop) []item {
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := under(p.Type()).(*types.Basic); !ok || b.Info()&types.IsBoolean == 0 {
			continue
		}
		v := e.norm(x.st, x.fr.env[p])
		if _, ok := constBool(v); ok {
			continue
		}
		if _, ok := v.(*Term); !ok {
			continue
		}
		var out []item
		for _, b := range e.branch(x.st.clone(), v) {
			y := x
			y.fr = x.fr.clone()
			y.st = b.st
			y.fr.env[p] = mkBool(b.val)
			out = append(out, e.splitBools(y, l)...)
		}
		return out
	}
	// boolean variables that live in memory because their address is taken
	for _, blk := range x.fr.fn.Blocks {
		for _, in := range blk.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || !isBoolT(a.Type().Underlying().(*types.Pointer).Elem()) {
				continue
			}
			p, ok := x.fr.env[a].(*Ptr)
			if !ok || p.Path != "" || x.st.heap[p.Obj] == nil || x.st.heap[p.Obj].V == nil {
				continue
			}
			v := e.norm(x.st, x.st.heap[p.Obj].V)
			if _, ok := v.(*Term); !ok {
				continue
			}
			var out []item
			for _, b := range e.branch(x.st.clone(), v) {
				y := x
				y.fr = x.fr.clone()
				y.st = b.st
				o := *y.st.heap[p.Obj]
				o.V = mkBool(b.val)
				y.st.heap[p.Obj] = &o
				out = append(out, e.splitBools(y, l)...)
			}
			return out
		}
	}
	return []item{x}
}

func (e *Eng) liveIter(fr *Frame, id int) bool {
	for _, v := range fr.env {
		if i, ok := v.(*IterVal); ok && i.Obj == id {
			return true
		}
	}
	return false
}

func (e *Eng) fix(it item, l *natLoop) []flow {
	info := &LoopInfo{Fn: it.fr.fn, Pos: loopPos(l), head: l.head, base: it.st.evs, Entry: it.st.clone()}
	byKey := map[string]*HeadSt{}
	lim := objSeq
	addHead := func(x item, key string) *HeadSt {
		h := &HeadSt{Idx: len(info.Heads), Key: key, Vals: map[string]Val{}, Own: map[int]bool{}, fr: x.fr.clone(), st: x.st.clone(), dirty: true, entry: it.fr.env, keep: map[string]bool{}}
		h.st.evs = info.base
		h.st.add(&Event{Kind: "loop", Loop: info, Flag: fmt.Sprint(h.Idx), Fn: it.fr.fn.Name(), Pos: info.Pos})
		info.Heads = append(info.Heads, h)
		byKey[key] = h
		return h
	}
	entryKey := e.headKey(it, l, lim)
	addHead(it, entryKey)
	for round := 0; ; round++ {
		if round > 60 {
			panic(tooMany{"no fixpoint for the loop in " + it.fr.fn.String()})
		}
		again := false
		for i := 0; i < len(info.Heads); i++ {
			h := info.Heads[i]
			if !h.dirty {
				continue
			}
			again = true
			h.dirty = false
			h.flows = e.run([]item{{fr: h.fr.clone(), st: h.st.clone(), blk: l.head, first: true}}, l)
			var flows []flow
			for j := range h.flows {
				f := h.flows[j]
				if f.kind != "back" {
					flows = append(flows, f)
					continue
				}
				e.phis(f.item)
				for _, y := range e.splitBools(f.item, l) {
					if e.leaves(y, l) {
						// the loop ends here: the path goes on after it
						y.first = true
						y.pc = 0
						y.blk = l.head
						flows = append(flows, e.run([]item{y}, l)...)
						continue
					}
					g := f
					g.item = y
					flows = append(flows, g)
				}
			}
			h.flows = flows
			for j := range h.flows {
				f := &h.flows[j]
				if f.kind != "back" {
					continue
				}
				key := e.headKey(f.item, l, lim)
				t := byKey[key]
				if t == nil {
					if len(info.Heads) >= 16 {
						panic(tooMany{"heads of the loop in " + it.fr.fn.String()})
					}
					addHead(f.item, key)
					continue
				}
				if e.joinHead(t, f.item, l) {
					t.dirty = true
				}
			}
		}
		if !again {
			break
		}
	}
	e.loops = append(e.loops, info)
	// the same locations at all heads
	for _, h := range info.Heads {
		for _, o := range info.Heads {
			for loc := range o.Vals {
				if _, ok := h.Vals[loc]; !ok {
					h.Vals[loc] = e.locValue(item{fr: h.fr, st: h.st}, l, loc)
				}
			}
		}
	}
	e.searches(it, l, info)
	e.upper(it, l, info)
	// transitions
	var out []flow
	tr := func(from int, x item, evs []*Event, key string) {
		h := byKey[key]
		t := &Trans{From: from, To: h.Idx, Evs: evs, Vals: map[string]Val{}, St: x.st, Fr: x.fr}
		for loc := range h.Vals {
			t.Vals[loc] = e.locValue(x, l, loc)
		}
		info.Trans = append(info.Trans, t)
	}
	tr(-1, it, nil, entryKey)
	for _, h := range info.Heads {
		hn := 0
		if h.st.evs != nil {
			hn = h.st.evs.n
		}
		for _, f := range h.flows {
			if f.kind == "back" {
				tr(h.Idx, f.item, f.st.events()[hn:], e.headKey(f.item, l, lim))
			} else {
				out = append(out, f)
			}
		}
	}
	return out
}

func loopPos(l *natLoop) token.Pos {
	best := token.NoPos
	for _, in := range l.head.Instrs {
		if p := in.Pos(); p != token.NoPos {
			return p
		}
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p != token.NoPos && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (e *Eng) locValue(x item, l *natLoop, loc string) Val {
	if i := strings.LastIndex(loc, "/tail:"); i >= 0 {
		n, err := strconv.Atoi(loc[i+6:])
		s, ok := e.locValue(x, l, loc[:i]).(*SliceVal)
		if err != nil || !ok || s.Hi-s.Lo < n {
			return nil
		}
		return &SliceVal{s.Obj, s.Lo + n, s.Hi, s.T}
	}
	if strings.HasPrefix(loc, "phi:") {
		for _, in := range l.head.Instrs {
			if p, ok := in.(*ssa.Phi); ok && "phi:"+p.Name() == loc {
				return x.fr.env[p]
			}
		}
		return nil
	}
	var id int
	path := ""
	if i := strings.IndexByte(loc, '/'); i >= 0 {
		path = loc[i:]
		loc = loc[:i]
	}
	fmt.Sscanf(loc, "obj:%d", &id)
	o := x.st.heap[id]
	if o == nil || o.V == nil {
		return nil
	}
	v := o.V
	for _, i := range splitPath(path) {
		switch y := v.(type) {
		case *StructVal:
			v = y.F[i]
		case *ListVal:
			if i >= len(y.Items) {
				return nil
			}
			v = y.Items[i]
		case *SliceVal:
			it := x.st.items(y)
			if i >= len(it) {
				return nil
			}
			v = it[i]
		default:
			return nil
		}
	}
	return v
}

// joinHead widens the head by an arrival; it reports whether the head grew.
func (e *Eng) joinHead(h *HeadSt, x item, l *natLoop) bool {
	changed := false
	own := func(id int) bool { return h.Own[id] }
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		hv, av := h.fr.env[p], x.fr.env[p]
		n, ch := e.widen(h, x.st, "phi:"+p.Name(), hv, av, p.Type())
		if ch {
			h.fr.env[p] = n
			changed = true
			// counters that only go down, or up, stay below, or above, what they start with
			if v0 := h.entry[p]; v0 != nil && types.Identical(p.Type(), tInt) {
				k := ""
				switch steps(p, l) {
				case -1:
					k = mk("<", tBool, v0, n).Key()
				case 1:
					k = mk("<", tBool, n, v0).Key()
				}
				if t := termOfKey(k); t != nil && t.Op == "<" {
					h.st.bools[k] = false
					h.keep[k] = true
				}
			}
		}
	}
	if len(h.fr.defers) != len(x.fr.defers) {
		e.undecided(h.st, "defer inside the loop of %s", h.fr.fn)
	}
	var ids []int
	for id := range h.st.heap {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		ho, ao := h.st.heap[id], x.st.heap[id]
		if ao == nil || ho == ao || ho.V == nil {
			continue
		}
		if ao.V == nil {
			no := *ho
			no.V = nil
			h.st.heap[id] = &no
			changed = true
			continue
		}
		n, ch := e.widen(h, x.st, fmt.Sprintf("obj:%d", id), ho.V, ao.V, ho.T)
		if ch {
			no := *h.st.heap[id]
			no.V = n
			h.st.heap[id] = &no
			changed = true
		}
	}
	// facts that do not hold on every arrival are dropped; facts about the symbols
	// of the head itself were set when they were made
	for k := range h.st.symobj {
		if v, ok := x.st.symobj[k]; !ok || v != h.st.symobj[k] {
			delete(h.st.symobj, k)
			changed = true
		}
	}
	ownKey := func(id int) bool {
		t := termByID[id]
		if t == nil {
			return false
		}
		m := map[int]*Term{}
		syms(t, m)
		for s := range m {
			if own(s) {
				return true
			}
		}
		return false
	}
	for id, b := range h.st.chars {
		if own(id) {
			continue
		}
		if a, ok := x.st.chars[id]; ok && !a.Sub(b) {
			h.st.chars[id] = a.Or(b)
			changed = true
		}
	}
	for k, b := range h.st.bools {
		var id int
		fmt.Sscanf(k, "t%d", &id)
		if h.keep[k] {
			continue
		}
		if ownKey(id) {
			if !own(id) {
				delete(h.st.bools, k)
				changed = true
			}
			continue
		}
		if a, ok := x.st.bools[k]; !ok || a != b {
			delete(h.st.bools, k)
			changed = true
		}
	}
	for id, iv := range h.st.ivl {
		if own(id) {
			continue
		}
		a, ok := x.st.ivl[id]
		if !ok || a.Lo < iv.Lo || a.Hi > iv.Hi {
			delete(h.st.ivl, id)
			changed = true
		}
	}
	for id, n := range h.st.nils {
		if own(id) {
			continue
		}
		if a, ok := x.st.nils[id]; !ok || a != n {
			delete(h.st.nils, id)
			changed = true
		}
	}
	for id, c := range h.st.eqc {
		if a, ok := x.st.eqc[id]; !ok || !constEq(a, c) {
			delete(h.st.eqc, id)
			changed = true
		}
	}
	for id, m := range h.st.neqc {
		if own(id) {
			delete(h.st.neqc, id)
			continue
		}
		for k := range m {
			if !x.st.neqc[id][k] {
				m2 := cpm(m)
				delete(m2, k)
				m = m2
				changed = true
			}
		}
		h.st.neqc[id] = m
	}
	for id, c := range h.st.strs {
		if a, ok := x.st.strs[id]; !ok || keys(a) != keys(c) {
			delete(h.st.strs, id)
			changed = true
		}
	}
	for id, d := range h.st.dyn {
		if a, ok := x.st.dyn[id]; !ok || !same(a, d) || own(id) {
			delete(h.st.dyn, id)
			changed = true
		}
	}
	for id, d := range h.st.notdyn {
		if own(id) {
			delete(h.st.notdyn, id)
			continue
		}
		if a := x.st.notdyn[id]; strings.Join(a, "|") != strings.Join(d, "|") {
			var k []string
			for _, y := range d {
				for _, z := range a {
					if y == z {
						k = append(k, y)
					}
				}
			}
			if len(k) != len(d) {
				changed = true
			}
			h.st.notdyn[id] = k
		}
	}
	if n := h.st.excl.And(x.st.excl); n != h.st.excl {
		h.st.excl = n
		changed = true
	}
	if h.st.eof && !x.st.eof {
		h.st.eof = false
		changed = true
	}
	for _, u := range x.st.undec {
		e.undecided(h.st, "%s", u)
	}
	return changed
}

func (h *HeadSt) sym(loc string, t types.Type) *Term {
	s := fresh("loop:"+loc, t)
	h.Vals[loc] = s
	h.Own[s.ID] = true
	return s
}

// charSet returns the possible characters of a value.
func (st *State) charSet(v Val) (ByteSet, bool) {
	var b ByteSet
	if n, ok := constInt(v); ok {
		if n < 0 || n > 255 {
			return b, false
		}
		b.Add(int(n))
		return b, true
	}
	if t, ok := v.(*Term); ok {
		if s, ok := st.chars[t.ID]; ok {
			return s, true
		}
	}
	return b, false
}

func widenIvl(old, nw Ivl) Ivl {
	r := old
	if nw.Lo < old.Lo {
		r.Lo = math.MinInt64
		if nw.Lo >= 0 {
			r.Lo = 0
		}
	}
	if nw.Hi > old.Hi {
		r.Hi = math.MaxInt64
	}
	return r
}

// widen joins a value at the head with an arriving value.
func (e *Eng) widen(h *HeadSt, ast *State, loc string, hv, av Val, t types.Type) (Val, bool) {
	if hv == nil {
		return nil, false
	}
	if av == nil {
		return nil, true
	}
	if same(hv, av) {
		if s, ok := hv.(*Term); ok && h.Own[s.ID] {
			// the arriving value may carry a weaker fact about the symbol
			return hv, e.growSym(h, ast, s, av)
		}
		return hv, false
	}
	if s, ok := hv.(*Term); ok && h.Vals[loc] == hv && h.Own[s.ID] {
		return hv, e.growSym(h, ast, s, av)
	}
	switch x := hv.(type) {
	case *StructVal:
		if y, ok := av.(*StructVal); ok && len(y.F) == len(x.F) {
			n := &StructVal{x.T, append([]Val(nil), x.F...), x.Name}
			ch := false
			for i := range x.F {
				var ft types.Type
				if s, ok := under(x.T).(*types.Struct); ok {
					ft = s.Field(i).Type()
				}
				v, c := e.widen(h, ast, fmt.Sprintf("%s/%d", loc, i), x.F[i], y.F[i], ft)
				if c {
					n.F[i] = v
					ch = true
				}
			}
			return n, ch
		}
	case *ListVal:
		if y, ok := av.(*ListVal); ok && len(y.Items) == len(x.Items) && !hasSplat(y.Items) && !hasSplat(x.Items) {
			n := &ListVal{append([]Val(nil), x.Items...), x.Elem}
			ch := false
			for i := range x.Items {
				v, c := e.widen(h, ast, fmt.Sprintf("%s/%d", loc, i), x.Items[i], y.Items[i], x.Elem)
				if c {
					n.Items[i] = v
					ch = true
				}
			}
			return n, ch
		}
		if y, ok := av.(*ListVal); ok && keys(x.Items) == keys(y.Items) {
			return hv, false
		}
		return &ListVal{[]Val{&Splat{h.sym(loc, nil)}}, x.Elem}, true
	case *SliceVal:
		xi := h.st.items(x)
		var yi []Val
		switch y := av.(type) {
		case *SliceVal:
			yi = ast.items(y)
		case *Const:
		default:
			goto scalar
		}
		if keys(xi) == keys(yi) {
			return hv, false
		}
		if len(xi) == 1 {
			if sp, ok := xi[0].(*Splat); ok && h.Vals[loc] == sp.S {
				return hv, false
			}
		}
		// what comes first stays
		pre := 0
		sl, isSl := under(x.T).(*types.Slice)
		isSl = isSl && types.IsInterface(sl.Elem())
		for isSl && pre < len(xi) && pre < len(yi) && xi[pre].Key() == yi[pre].Key() {
			if _, sp := xi[pre].(*Splat); sp {
				break
			}
			if s, ok := xi[pre].(*Term); ok && h.Own[s.ID] {
				break
			}
			pre++
		}
		if pre > 0 && len(xi) != len(yi) || pre > 0 && hasSplat(xi) {
			tail := fmt.Sprintf("%s/tail:%d", loc, pre)
			if len(xi) == pre+1 {
				if sp, ok := xi[pre].(*Splat); ok && h.Vals[tail] == sp.S {
					return hv, false
				}
			}
			return h.st.newList(append(append([]Val(nil), xi[:pre]...), &Splat{h.sym(tail, x.T)}), x.T), true
		}
		if len(xi) == len(yi) && !hasSplat(xi) && !hasSplat(yi) {
			n := append([]Val(nil), xi...)
			ch := false
			var et types.Type
			if st, ok := under(x.T).(*types.Slice); ok {
				et = st.Elem()
			}
			for i := range xi {
				v, c := e.widen(h, ast, fmt.Sprintf("%s/%d", loc, i), xi[i], yi[i], et)
				if c {
					n[i] = v
					ch = true
				}
			}
			if !ch {
				return hv, false
			}
			return h.st.newList(n, x.T), true
		}
		return h.st.newList([]Val{&Splat{h.sym(loc, x.T)}}, x.T), true
	case *Const:
		if y, ok := av.(*SliceVal); ok && x.V == nil {
			if len(ast.items(y)) == 0 {
				return hv, false
			}
			return h.st.newList([]Val{&Splat{h.sym(loc, y.T)}}, y.T), true
		}
	case *MapVal:
		y, ok := av.(*MapVal)
		if !ok {
			return &MapVal{Opaque: true, Name: x.Name, T: x.T}, true
		}
		n := &MapVal{Opaque: x.Opaque || y.Opaque, Name: x.Name, T: x.T}
		for _, en := range x.Ents {
			found := false
			for _, b := range y.Ents {
				if same(en.K, b.K) && en.Present == b.Present && (!en.Present || same(en.V, b.V)) {
					found = true
				}
			}
			if found {
				n.Ents = append(n.Ents, en)
			} else {
				n.Opaque = true
			}
		}
		if len(y.Ents) > len(n.Ents) {
			n.Opaque = true
		}
		if n.Opaque != x.Opaque || len(n.Ents) != len(x.Ents) {
			return n, true
		}
		return hv, false
	case *IterState:
		if y, ok := av.(*IterState); ok && x.Phase == y.Phase {
			return hv, false
		}
	case *Iface:
		if y, ok := av.(*Iface); ok && types.Identical(x.T, y.T) {
			v, c := e.widen(h, ast, loc, x.V, y.V, x.T)
			if c {
				return &Iface{x.T, v}, true
			}
			return hv, false
		}
	case *Ptr:
		if y, ok := av.(*Ptr); ok {
			return e.widenPtr(h, ast, loc, x, y)
		}
	case *MapRef:
		if y, ok := av.(*MapRef); ok && h.st.heap[x.Obj] != nil && ast.heap[y.Obj] != nil {
			hm, ok1 := h.st.heap[x.Obj].V.(*MapVal)
			_, ok2 := ast.heap[y.Obj].V.(*MapVal)
			if ok1 && ok2 {
				if cur, ok := h.Vals[loc].(*MapRef); ok && cur.Obj == x.Obj {
					// already stands for any map
					return hv, false
				}
				o := h.st.newObj(h.st.heap[x.Obj].T, &MapVal{Opaque: true, Name: hm.Name, T: hm.T}, h.st.heap[x.Obj].Name)
				o.Fresh = false
				r := &MapRef{o.ID}
				h.Vals[loc] = r
				return r, true
			}
		}
	case *Tuple:
		if y, ok := av.(*Tuple); ok && len(y.E) == len(x.E) {
			n := &Tuple{append([]Val(nil), x.E...)}
			ch := false
			for i := range x.E {
				v, c := e.widen(h, ast, fmt.Sprintf("%s/%d", loc, i), x.E[i], y.E[i], typeOf(x.E[i]))
				if c {
					n.E[i] = v
					ch = true
				}
			}
			return n, ch
		}
	}
scalar:
	// scalars
	if t == nil {
		t = typeOf(hv)
	}
	s := h.sym(loc, t)
	a, ok1 := h.st.charSet(hv)
	b, ok2 := ast.charSet(av)
	switch {
	case ok1 && ok2 && intBits(t) <= 32:
		h.st.chars[s.ID] = a.Or(b)
		if x, ok := hv.(*Term); ok && h.st.postWS[x.ID] {
			if y, ok := av.(*Term); ok && ast.postWS[y.ID] {
				h.st.postWS[s.ID] = true
			}
		}
	case isIntT(t):
		i, j := h.st.interval(hv), ast.interval(av)
		iv := h.guard(ast, s, av, widenIvl(i, j))
		if i == (Ivl{}) && j.Lo >= 0 {
			iv.Lo = 0
		}
		h.st.ivl[s.ID] = iv
	case isBoolT(t):
	default:
		if h.st.nilness(hv) == 0 && ast.nilness(av) == 0 {
			h.st.nils[s.ID] = false
		}
	}
	return s, true
}

func isBoolT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// growSym extends what is known about a head symbol by an arriving value.
func (e *Eng) growSym(h *HeadSt, ast *State, s *Term, av Val) bool {
	ch := false
	if h.st.postWS[s.ID] {
		if y, ok := av.(*Term); !ok || !ast.postWS[y.ID] {
			delete(h.st.postWS, s.ID)
			ch = true
		}
	}
	if set, ok := h.st.chars[s.ID]; ok {
		if b, ok := ast.charSet(av); ok {
			if !b.Sub(set) {
				h.st.chars[s.ID] = set.Or(b)
				ch = true
			}
		} else {
			delete(h.st.chars, s.ID)
			ch = true
		}
	}
	if iv, ok := h.st.ivl[s.ID]; ok {
		n := h.guard(ast, s, av, widenIvl(iv, ast.interval(av)))
		if n != iv {
			if n == fullIvl {
				delete(h.st.ivl, s.ID)
			} else {
				h.st.ivl[s.ID] = n
			}
			ch = true
		}
	}
	if n, ok := h.st.nils[s.ID]; ok {
		k := ast.nilness(av)
		if k < 0 || (k == 1) != n {
			delete(h.st.nils, s.ID)
			ch = true
		}
	}
	if b, ok := h.st.bools[s.Key()]; ok {
		if c, ok := constBool(e.norm(ast, av)); !ok || c != b {
			delete(h.st.bools, s.Key())
			ch = true
		}
	}
	return ch
}

// widenPtr joins two pointers into an object that stands for either of them.
func (e *Eng) widenPtr(h *HeadSt, ast *State, loc string, x, y *Ptr) (Val, bool) {
	ho := h.st.heap[x.Obj]
	ao := ast.heap[y.Obj]
	if ho == nil || ao == nil || x.Path != "" || y.Path != "" {
		var t types.Type
		s := h.sym(loc, t)
		h.st.nils[s.ID] = false
		return s, true
	}
	join := func(o *Obj, b Val) (Val, bool) {
		a, ok := o.V.(*StructVal)
		c, ok2 := b.(*StructVal)
		if o.V == nil {
			return nil, false
		}
		if !ok || !ok2 || len(a.F) != len(c.F) {
			return nil, true
		}
		n := &StructVal{a.T, make([]Val, len(a.F)), a.Name}
		ch := false
		for i := range a.F {
			if a.F[i] != nil && c.F[i] != nil && same(a.F[i], c.F[i]) {
				n.F[i] = a.F[i]
			} else if a.F[i] != nil {
				ch = true
			}
		}
		return n, ch
	}
	if cur, ok := h.Vals[loc].(*Ptr); ok && cur.Obj == x.Obj {
		v, ch := join(ho, ao.V)
		if ch {
			no := *ho
			no.V = v
			h.st.heap[ho.ID] = &no
		}
		return x, ch
	}
	o := h.st.newObj(ho.T, nil, "either:"+ho.Name)
	o.Fresh = false
	v, _ := join(&Obj{V: ho.V}, ao.V)
	o.V = v
	p := &Ptr{Obj: o.ID}
	h.Vals[loc] = p
	return p, true
}

var _ = constant.MakeBool

// silent loops neither read nor emit anything.
func (li *LoopInfo) silent() bool {
	for _, t := range li.Trans {
		if t.From < 0 {
			continue
		}
		for _, ev := range t.Evs {
			switch ev.Kind {
			case "maplook", "mapup", "newblock", "print":
			default:
				return false
			}
		}
	}
	return len(li.Heads) == 1
}

// searches recognises loops that look for an element of a given name in a list of the
// module. What they find out is remembered: "has(list, name)".
func (e *Eng) searches(it item, l *natLoop, info *LoopInfo) {
	if len(info.Heads) != 1 {
		return
	}
	h := info.Heads[0]
	for loc, hv := range h.Vals {
		s, ok := hv.(*Term)
		if !ok || !strings.HasPrefix(loc, "phi:") {
			continue
		}
		v0, ok := constInt(e.locValue(it, l, loc))
		if !ok {
			continue
		}
		// the test that goes on in every round
		var list, key Val
		good := true
		for _, f := range h.flows {
			if f.kind != "back" {
				continue
			}
			if !same(e.locValue(f.item, l, loc), mkAdd(s, mkInt(1, s.T), s.T)) {
				good = false
				break
			}
			found := false
			for k, b := range f.st.bools {
				if b {
					continue
				}
				if li, ky := searchTest(k, s, v0); li != nil && (list == nil || same(li, list) && same(ky, key)) && !dependsOn(ky, s.ID) {
					list, key, found = li, ky, true
				}
			}
			good = good && found
		}
		if !good || list == nil {
			continue
		}
		has := mk("has", tBool, list, key)
		old, known := it.st.bools[has.Key()]
		var flows []flow
		for _, f := range h.flows {
			if f.kind == "back" {
				flows = append(flows, f)
				continue
			}
			if f.st == nil {
				flows = append(flows, f)
				continue
			}
			res := -1
			for k, b := range f.st.bools {
				if b {
					if li, ky := searchTest(k, s, v0); li != nil && same(li, list) && same(ky, key) {
						res = 1
					}
				} else if t := termOfKey(k); t != nil && t.Op == "<" && len(t.Args) == 2 {
					if searchIndex(t.Args[0], s, v0) {
						if n, ok := t.Args[1].(*Term); ok && n.Op == "len" && same(n.Args[0], list) || lenOf(f.st, t.Args[1], list) {
							res = 0
						}
					}
				}
			}
			if res >= 0 {
				if known && old != (res == 1) {
					continue
				}
				f.st.bools[has.Key()] = res == 1
			}
			flows = append(flows, f)
		}
		h.flows = flows
	}
}

// upper finds variables of a loop that never exceed the length of a list it runs over.
func (e *Eng) upper(it item, l *natLoop, info *LoopInfo) {
	if len(info.Heads) != 1 {
		return
	}
	h := info.Heads[0]
	limits := map[string]Val{}
	for _, f := range h.flows {
		if f.kind != "back" {
			continue
		}
		for k, b := range f.st.bools {
			if t := termOfKey(k); b && t != nil && t.Op == "<" && len(t.Args) == 2 {
				if n, ok := t.Args[1].(*Term); ok && (n.Op == "len" || n.Op == "+") {
					limits[n.Key()] = n
				}
			}
		}
	}
	for loc, hv := range h.Vals {
		s, ok := hv.(*Term)
		if !ok || !strings.HasPrefix(loc, "phi:") || s.T == nil || !types.Identical(s.T, tInt) {
			continue
		}
		for _, n := range limits {
			if dependsOn(n, s.ID) || !e.atMost(it.st, e.locValue(it, l, loc), n) {
				continue
			}
			over := mk("<", tBool, n, s)
			good := true
			for _, f := range h.flows {
				if f.kind != "back" {
					continue
				}
				t := f.st.clone()
				t.bools[over.Key()] = false
				good = good && e.atMost(t, e.locValue(f.item, l, loc), n)
			}
			if !good {
				continue
			}
			for _, f := range h.flows {
				if f.kind != "back" && f.st != nil {
					f.st.bools[over.Key()] = false
				}
			}
		}
	}
}

func termOfKey(k string) *Term {
	var id int
	if n, _ := fmt.Sscanf(k, "t%d", &id); n != 1 {
		return nil
	}
	return termByID[id]
}

// searchIndex tells whether a value runs through 0, 1, 2, ... with the loop variable.
func searchIndex(v Val, s *Term, v0 int64) bool {
	return same(v, mkAdd(s, mkInt(-v0, s.T), s.T))
}

func searchTest(k string, s *Term, v0 int64) (list, key Val) {
	t := termOfKey(k)
	if t == nil || t.Op != "==" || len(t.Args) != 2 {
		return nil, nil
	}
	for i := 0; i < 2; i++ {
		n, ok := t.Args[i].(*Term)
		if ok && n.Op == "idx" && len(n.Args) == 2 && n.T != nil && isStrT(n.T) && searchIndex(n.Args[1], s, v0) {
			return n.Args[0], t.Args[1-i]
		}
		if !ok || n.Op != "irname" {
			continue
		}
		x, ok := n.Args[0].(*Term)
		if ok && x.Op == "idx" && len(x.Args) == 2 && searchIndex(x.Args[1], s, v0) {
			return x.Args[0], t.Args[1-i]
		}
	}
	return nil, nil
}

func dependsOn(v Val, id int) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	if t.ID == id {
		return true
	}
	for _, a := range t.Args {
		if dependsOn(a, id) {
			return true
		}
	}
	return false
}

// steps tells that a counter of a loop only goes up (1) or only goes down (-1).
func steps(p *ssa.Phi, l *natLoop) int {
	dir := 0
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Phi:
			if v == p {
				return true
			}
			if !l.blocks[v.Block()] {
				return false
			}
			for _, x := range v.Edges {
				if !walk(x) {
					return false
				}
			}
			return true
		case *ssa.BinOp:
			c, ok := v.Y.(*ssa.Const)
			if !ok || c.Value == nil || v.Op != token.ADD && v.Op != token.SUB {
				return false
			}
			n := int(constant.Sign(c.Value))
			if v.Op == token.SUB {
				n = -n
			}
			if n != 0 && dir != 0 && n != dir {
				return false
			}
			if n != 0 {
				dir = n
			}
			return walk(v.X)
		}
		return false
	}
	for i, x := range p.Edges {
		if l.blocks[p.Block().Preds[i]] && !walk(x) {
			return 0
		}
	}
	return dir
}
