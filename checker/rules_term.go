package main

// Rules about whole runs of the compiler: what is analysed, termination, determinism.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reach is the set of functions of the repository that compiling a file can call.
func (p *Prog) reach(roots ...string) (map[*ssa.Function]bool, []*ssa.Function) {
	own := map[*ssa.Function]bool{}
	for _, f := range p.all {
		own[f] = true
	}
	seen := map[*ssa.Function]bool{}
	var list []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || !own[f] {
			return
		}
		seen[f] = true
		list = append(list, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	for _, n := range roots {
		walk(p.fn(n))
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	return seen, list
}

// covers asks that every function that compiling a file can call was analysed.
func (r *Rep) covers(p *Prog) {
	_, l := p.reach("ParseDeclarations", "NewLexer", "NewCompiler")
	for _, f := range l {
		r.ob("coverage", p.covered[f], p.prog.Fset.Position(f.Pos()).String(), "%s is called by the compiler and was not analysed", f.Name())
	}
	r.need("coverage", 30)
}

// ---------- termination ----------

// uses tells whether reading an item takes at least one character of the source.
func (m *Machine) uses(x *Edge, it Item) bool {
	switch it.Kind {
	case "char", "call":
		return true
	case "tok":
		if it.Ev.Name != "ident" {
			return true
		}
		t, ok := it.V.(*Term)
		if !ok {
			s, isC := constStr(it.V)
			return isC && s != ""
		}
		if c, ok := x.St.eqc[t.ID]; ok {
			s, _ := constStr(c)
			return s != ""
		}
		return x.St.neqc[t.ID][mkStr("").Key()] || len(x.St.strs[t.ID]) > 0
	}
	return false
}

func (m *Machine) consumes(x *Edge) bool {
	for _, it := range x.Items {
		if m.uses(x, it) {
			return true
		}
	}
	return false
}

var dbgRank = os.Getenv("DBGRANK") != ""
var dbgE *Eng

// ranked finds a number that every passage round a loop moves by the same step towards a bound
// that does not change, or an iterator that every passage advances.
func (li *LoopInfo) ranked(use func(t *Trans) bool) bool {
	own := map[int]bool{}
	for _, h := range li.Heads {
		for id := range h.Own {
			own[id] = true
		}
	}
	fixed := func(v Val) bool {
		for id := range own {
			if dependsOn(v, id) {
				return false
			}
		}
		return true
	}
	back := 0
	for _, t := range li.Trans {
		if t.From >= 0 && use(t) {
			back++
		}
	}
	if back == 0 {
		return true
	}
	if len(li.Heads) == 0 {
		return false
	}
	var locs []string
	for loc := range li.Heads[0].Vals {
		locs = append(locs, loc)
	}
	sort.Strings(locs)
	for _, loc := range locs {
		up, down := true, true
		for _, t := range li.Trans {
			if t.From < 0 || !use(t) {
				continue
			}
			var hv *Term
			h0, nv := li.Heads[t.From].Vals[loc], t.Vals[loc]
			if a, ok := h0.(*Term); ok && nv != nil && isIntT(a.T) {
				hv = a
			} else if h0 != nil && nv != nil && isList(h0) && isList(nv) {
				// a list that grows or shrinks
				hv, _ = dbgE.length(li.Heads[t.From].st, h0).(*Term)
				nv = dbgE.length(t.St, nv)
			}
			if hv == nil || nv == nil {
				up, down = false, false
				break
			}
			d, isC := constInt(cSub(nv, hv))
			if iv := t.St.interval(hv); !isC && iv.Lo == iv.Hi {
				d, isC = constInt(cSub(nv, mkInt(iv.Lo, hv.T)))
			}
			if !isC || d == 0 {
				up, down = false, false
				break
			}
			lo, hi := false, false
			for k, b := range t.St.bools {
				c := termOfKey(k)
				if c == nil || c.Op != "<" || len(c.Args) != 2 {
					continue
				}
				x, y := c.Args[0], c.Args[1]
				if !b {
					x, y = y, x
				}
				if _, ok := constInt(cSub(x, hv)); ok && fixed(y) {
					hi = true
				}
				if _, ok := constInt(cSub(y, hv)); ok && fixed(x) {
					lo = true
				}
			}
			iv := t.St.interval(hv)
			hi = hi || iv.Hi < 1<<62
			lo = lo || iv.Lo > -1<<62
			up = up && d > 0 && hi
			down = down && d < 0 && lo
		}
		if up || down {
			return true
		}
	}
	if dbgRank {
		for _, t := range li.Trans {
			fmt.Println("TRANS", t.From, t.To, li.Fn.Name(), len(li.Heads), dbgE.pos(li.Pos))
			for k, v := range t.Vals {
				fmt.Println("  ", k, dbgE.show(v, nil))
			}
			for k, b := range t.St.bools {
				fmt.Println("   B", k, b, dbgE.show(termOfKey(k), nil))
			}
		}
	}
	return false
}

// iterates tells whether the head of a loop takes the next element of a string or map.
func (li *LoopInfo) iterates() bool {
	if li.head == nil {
		return false
	}
	for _, in := range li.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return true
		}
	}
	return false
}

// terminates asks of a unit that every loop without progress in the source counts towards a bound,
// and notes the calls made before anything is read.
func (r *Rep) terminates(p *Prog, u *Unit, key string) {
	m := u.M
	dbgE = u.E
	where := func(li *LoopInfo) string { return u.E.pos(li.Pos) }
	for _, li := range u.E.loops {
		if li.silent() {
			r.ob("terminates", li.iterates() || li.ranked(func(*Trans) bool { return true }), where(li), "%s: nothing shows that this loop ends", u.Name)
		}
	}
	// pieces between loop heads that read nothing
	out := map[Node][]*Edge{}
	nodes := map[Node]bool{}
	for _, x := range m.Edges {
		if x.From.Loop != nil && x.To.Loop != nil && (len(x.Bad) > 0 || !m.consumes(x)) {
			out[x.From] = append(out[x.From], x)
			nodes[x.From], nodes[x.To] = true, true
		}
	}
	gone := map[*Trans]bool{}
	for again := true; again; {
		again = false
		comp := scc(nodes, func(n Node) []Node {
			var l []Node
			for _, x := range out[n] {
				if x.Trans == nil || !gone[x.Trans] {
					l = append(l, x.To)
				}
			}
			return l
		})
		for _, c := range comp {
			in := map[Node]bool{}
			for _, n := range c {
				in[n] = true
			}
			stuck := map[*LoopInfo][]*Trans{}
			plain := false
			for _, n := range c {
				for _, x := range out[n] {
					if !in[x.To] || x.Trans != nil && gone[x.Trans] {
						continue
					}
					if x.Trans != nil && x.Trans.From >= 0 {
						stuck[x.To.Loop] = append(stuck[x.To.Loop], x.Trans)
					} else {
						plain = true
					}
				}
			}
			if len(stuck) == 0 && !plain {
				continue
			}
			found := false
			var at *LoopInfo
			for li, ts := range stuck {
				if at == nil || li.Pos < at.Pos {
					at = li
				}
				set := map[*Trans]bool{}
				for _, t := range ts {
					set[t] = true
				}
				if li.iterates() || li.ranked(func(t *Trans) bool { return set[t] }) {
					found = true
					for t := range set {
						gone[t] = true
					}
				}
			}
			if found {
				again = true
				continue
			}
			w := u.Name
			if at != nil {
				w = where(at)
			}
			r.fail("terminates", w, "%s: nothing shows that this loop ends: it may go round without reading anything", u.Name)
			for _, n := range c {
				delete(out, n)
			}
			again = true
		}
	}
	for _, li := range m.Loops {
		r.ob("terminates", true, where(li), "")
	}
	// what happens before anything is read
	all := map[Node][]*Edge{}
	for _, x := range m.Edges {
		all[x.From] = append(all[x.From], x)
	}
	seen := map[Node]bool{{}: true}
	q := []Node{{}}
	if p.first[key] == nil {
		p.first[key] = map[string]string{}
	}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		for _, x := range all[n] {
			read := false
			for _, it := range x.Items {
				if (it.Kind == "call" || it.Kind == "callfail") && !read {
					p.first[key][callNode(it.Ev)] = u.E.pos(it.Ev.Pos)
				}
				if m.uses(x, it) {
					read = true
					break
				}
			}
			if read {
				continue
			}
			if x.Out != nil {
				if u.mustRead(p) {
					r.ob("terminates", u.errClass(x) == "error", m.where(x), "%s may succeed without reading anything", u.Name)
				}
				continue
			}
			if !seen[x.To] {
				seen[x.To] = true
				q = append(q, x.To)
			}
		}
	}
}

// mustRead tells whether the callers of a unit rely on it to read something.
func (u *Unit) mustRead(p *Prog) bool {
	for _, f := range p.anchors() {
		if f == p.fn(u.Name) {
			return true
		}
	}
	return false
}

// callNode names the unit that a call stands for.
func callNode(ev *Event) string {
	if strings.HasPrefix(ev.Flag, exprFn+"/") {
		return ev.Flag
	}
	return ev.Name
}

// descends asks that no chain of calls comes back to its start before something is read.
func (r *Rep) descends(p *Prog) {
	nodes := map[string]bool{}
	for a, l := range p.first {
		nodes[a] = true
		for b, at := range l {
			nodes[b] = true
			r.ob("terminates", p.first[b] != nil, at, "%s calls %s, which was not analysed", a, b)
		}
	}
	for _, c := range scc(nodes, func(a string) []string {
		var l []string
		for b := range p.first[a] {
			l = append(l, b)
		}
		return l
	}) {
		in := map[string]bool{}
		for _, a := range c {
			in[a] = true
		}
		for _, a := range c {
			for b, at := range p.first[a] {
				if in[b] {
					r.fail("terminates", at, "%s calls %s before anything is read, which may call %s again", a, b, a)
				}
			}
		}
	}
}

// scc finds the strongly connected components of a graph.
func scc[N comparable](nodes map[N]bool, next func(N) []N) [][]N {
	idx, low := map[N]int{}, map[N]int{}
	on := map[N]bool{}
	var stack []N
	var res [][]N
	n := 0
	var visit func(a N)
	visit = func(a N) {
		n++
		idx[a], low[a] = n, n
		stack = append(stack, a)
		on[a] = true
		for _, b := range next(a) {
			if idx[b] == 0 {
				visit(b)
				if low[b] < low[a] {
					low[a] = low[b]
				}
			} else if on[b] && idx[b] < low[a] {
				low[a] = idx[b]
			}
		}
		if low[a] == idx[a] {
			var c []N
			for {
				b := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[b] = false
				c = append(c, b)
				if b == a {
					break
				}
			}
			res = append(res, c)
		}
	}
	for a := range nodes {
		if idx[a] == 0 {
			visit(a)
		}
	}
	return res
}

// isList tells that a value is a list.
func isList(v Val) bool {
	if _, ok := v.(*SliceVal); ok {
		return true
	}
	t, ok := v.(*Term)
	if !ok || t.T == nil {
		return false
	}
	_, ok = under(t.T).(*types.Slice)
	return ok
}
