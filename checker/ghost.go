package main

// Relations between the variables of a loop and the values the specification
// computes from the same input (ghosts). Candidate equalities are assumed at every
// loop head and removed until the rest is inductive.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
)

var dbgGhost = os.Getenv("BLANG_GHOST") != ""

type Sub map[int]Val

// canon rewrites a value of the analysed program into a normal form.
func (e *Eng) canon(st *State, v Val, sub Sub) Val {
	v = strip(v)
	if t, ok := v.(*Term); ok && t != nil {
		if w, ok := sub[t.ID]; ok {
			return w
		}
	}
	if st != nil {
		v = strip(e.norm(st, v))
	}
	switch x := v.(type) {
	case *Ptr:
		if e.wordOf != nil {
			if w := e.wordOf(st, x, sub); w != nil {
				return w
			}
		}
	case *Term:
		if w, ok := sub[x.ID]; ok {
			return w
		}
		if x.T != nil && isStrT(x.T) || x.Op == "str" || x.Op == "cat" {
			return seqVal(e.seqOf(st, x, sub))
		}
		if x.Op == "sym" {
			return x
		}
		args := make([]Val, len(x.Args))
		for i, a := range x.Args {
			args[i] = e.canon(st, a, sub)
		}
		return e.rebuild(st, x.Op, x.T, args)
	case *SliceVal, *ListVal:
		return seqVal(e.seqOf(st, x, sub))
	case *Tuple:
		n := &Tuple{make([]Val, len(x.E))}
		for i := range x.E {
			n.E[i] = e.canon(st, x.E[i], sub)
		}
		return n
	case *Const:
		if s, ok := constStr(x); ok {
			var r []Val
			for i := 0; i < len(s); i++ {
				r = append(r, mkInt(int64(s[i]), tInt))
			}
			return seqVal(r)
		}
	}
	return v
}

func seqVal(items []Val) Val { return mk("seq", nil, items...) }

func splat(g Val) Val { return mk("splat", nil, g) }

// seqOf lists the elements of a list or the characters of a string.
func (e *Eng) seqOf(st *State, v Val, sub Sub) []Val {
	v = strip(v)
	switch x := v.(type) {
	case *Const:
		if s, ok := constStr(x); ok {
			var r []Val
			for i := 0; i < len(s); i++ {
				r = append(r, mkInt(int64(s[i]), tInt))
			}
			return r
		}
		if x.V == nil {
			return nil
		}
	case *SliceVal:
		if st == nil {
			return []Val{x}
		}
		var r []Val
		for _, it := range st.items(x) {
			r = append(r, e.elems(st, it, sub)...)
		}
		return r
	case *ListVal:
		var r []Val
		for _, it := range x.Items {
			r = append(r, e.elems(st, it, sub)...)
		}
		return r
	case *Splat:
		return e.elems(st, x, sub)
	case *Term:
		if w, ok := sub[x.ID]; ok {
			return unseq(w)
		}
		switch x.Op {
		case "cat", "str":
			var r []Val
			for _, a := range x.Args {
				r = append(r, e.seqOf(st, a, sub)...)
			}
			return r
		case "chr":
			return []Val{e.canon(st, x.Args[0], sub)}
		case "seq":
			return x.Args
		case "splat":
			return []Val{x}
		case "sym":
			if st != nil {
				if cs, ok := st.strs[x.ID]; ok {
					var r []Val
					for _, c := range cs {
						r = append(r, e.canon(st, c, sub))
					}
					return r
				}
			}
			if x.T != nil && isIntT(x.T) {
				return []Val{e.canon(st, x, sub)}
			}
			return []Val{splat(x)}
		}
		if x.T != nil && isStrT(x.T) {
			args := make([]Val, len(x.Args))
			for i, a := range x.Args {
				args[i] = e.canon(st, a, sub)
			}
			return []Val{splat(mk(x.Op, x.T, args...))}
		}
	}
	return []Val{e.canon(st, v, sub)}
}

func (e *Eng) elems(st *State, it Val, sub Sub) []Val {
	if s, ok := it.(*Splat); ok {
		if t, ok := s.S.(*Term); ok {
			if w, ok := sub[t.ID]; ok {
				return unseq(w)
			}
		}
		return []Val{splat(s.S)}
	}
	return []Val{e.canon(st, it, sub)}
}

// unseq splices the value of a list ghost.
func unseq(w Val) []Val {
	if t, ok := w.(*Term); ok && t.Op == "seq" {
		return t.Args
	}
	return []Val{splat(w)}
}

// rebuild makes a term again after its arguments have changed.
func (e *Eng) rebuild(st *State, op string, t types.Type, a []Val) Val {
	if len(a) == 2 {
		switch op {
		case "+", "-", "*":
			return polyNF(mk(op, t, a...), t)
		case "&":
			for i := 0; i < 2; i++ {
				if n, ok := constInt(a[i]); ok && n == 255 && st != nil {
					if iv := st.interval(a[1-i]); iv.Lo >= 0 && iv.Hi <= 255 {
						return a[1-i]
					}
					if _, ok := st.charSet(a[1-i]); ok {
						return a[1-i]
					}
				}
			}
		case "<<":
			if n, ok := constInt(a[1]); ok && n >= 0 && n < 62 {
				return polyNF(mk("*", t, a[0], mkInt(1<<uint(n), t)), t)
			}
		case "|", "^":
			for i := 0; i < 2; i++ {
				p := toPoly(a[i])
				mult := len(p.m) > 0
				for _, c := range p.m {
					if c&255 != 0 {
						mult = false
					}
				}
				small := false
				if st != nil {
					if _, ok := st.charSet(a[1-i]); ok {
						small = true
					}
					if iv := st.interval(a[1-i]); iv.Lo >= 0 && iv.Hi <= 255 {
						small = true
					}
				}
				if mult && small {
					return polyNF(mk("+", t, a[0], a[1]), t)
				}
			}
		}
		if v, ok := evalBin(op, t, a[0], a[1]); ok {
			return v
		}
	}
	return mk(op, t, a...)
}

// polyNF is the normal form of a linear term.
func polyNF(v Val, t types.Type) Val {
	p := toPoly(v)
	if len(p.m) == 0 {
		return mkInt(0, t)
	}
	if c, ok := p.m[""]; ok && len(p.m) == 1 {
		return mkInt(c, t)
	}
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if len(ks) == 1 && p.m[ks[0]] == 1 && len(p.v[ks[0]]) == 1 {
		return p.v[ks[0]][0]
	}
	// the order of the parts is fixed by their keys
	var args []Val
	for _, k := range ks {
		if k == "" {
			continue
		}
		var f Val
		for i, x := range p.v[k] {
			if i == 0 {
				f = x
			} else {
				f = mk("*", t, f, x)
			}
		}
		if p.m[k] != 1 {
			f = mk("*", t, f, mkInt(p.m[k], t))
		}
		args = append(args, f)
	}
	if c := p.m[""]; c != 0 {
		args = append(args, mkInt(c, t))
	}
	r := args[0]
	for _, x := range args[1:] {
		r = mk("+", t, r, x)
	}
	return r
}

// Relation is the result of coupling the loop variables with ghosts. A location may
// equal a ghost or, for numbers, a ghost with a sign and an offset.
type Relation struct {
	pr    *Prod
	names []string
	cand  map[cfg]map[string]map[form]bool // loc -> ghost -> holds
}

type form struct {
	name string
	sign int64
	k    int64
}

func (f form) plain() bool { return f.sign == 1 && f.k == 0 }

type Ghosts map[string]Val

func gsym(c cfg, name string) *Term {
	return mk(fmt.Sprintf("ghost:%s@%v/%d/%v", name, c.n, c.s, c.held), nil)
}

// of computes a form from the value of its ghost.
func (f form) of(v Val) Val {
	if f.plain() || v == nil {
		return v
	}
	if f.sign < 0 {
		return polyNF(mk("-", tInt64, mkInt(f.k, tInt64), v), tInt64)
	}
	return polyNF(mk("+", tInt64, v, mkInt(f.k, tInt64)), tInt64)
}

// inv computes the ghost from the value of a form.
func (f form) inv(v Val) Val {
	if f.plain() {
		return v
	}
	if f.sign < 0 {
		return polyNF(mk("-", tInt64, mkInt(f.k, tInt64), v), tInt64)
	}
	return polyNF(mk("-", tInt64, v, mkInt(f.k, tInt64)), tInt64)
}

func forms(m map[form]bool) []form {
	var r []form
	for f, ok := range m {
		if ok {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].plain() != r[j].plain() {
			return r[i].plain()
		}
		return fmt.Sprint(r[i]) < fmt.Sprint(r[j])
	})
	return r
}

// ghostIn are the ghosts at the start of a piece.
func (r *Relation) ghostIn(c cfg, init Ghosts) Ghosts {
	if c.n.Loop == nil {
		return init
	}
	g := Ghosts{}
	rep := r.reps(c)
	for _, n := range r.names {
		g[n] = gsym(c, rep[n])
	}
	// a location with a known value
	h := c.n.Loop.Heads[c.n.Head]
	for loc, m := range r.cand[c] {
		if _, ok := h.Vals[loc].(*Term); ok || h.Vals[loc] == nil {
			continue
		}
		for _, f := range forms(m) {
			v := r.pr.m.e.canon(h.st, h.Vals[loc], Sub{})
			if isNil(v) {
				v = seqVal(nil)
			}
			v = f.inv(v)
			for _, k := range r.names {
				if rep[k] == rep[f.name] {
					g[k] = v
				}
			}
		}
	}
	return g
}

// reps chooses one of the ghosts that are equal because they equal the same location.
func (r *Relation) reps(c cfg) map[string]string {
	rep := map[string]string{}
	for _, n := range r.names {
		rep[n] = n
	}
	for again := true; again; {
		again = false
		for _, m := range r.cand[c] {
			fs := forms(m)
			for i := range fs {
				for j := range fs {
					if fs[i].sign != fs[j].sign || fs[i].k != fs[j].k {
						continue
					}
					a, b := rep[fs[i].name], rep[fs[j].name]
					if a < b {
						for k := range rep {
							if rep[k] == b {
								rep[k] = a
							}
						}
						again = true
					}
				}
			}
		}
	}
	return rep
}

// sub replaces the variables of a loop head by the ghosts they equal.
func (r *Relation) sub(c cfg) Sub {
	s := Sub{}
	if c.n.Loop == nil {
		return s
	}
	h := c.n.Loop.Heads[c.n.Head]
	known := r.ghostIn(c, nil)
	for loc, m := range r.cand[c] {
		t, ok := h.Vals[loc].(*Term)
		if !ok {
			continue
		}
		for _, f := range forms(m) {
			s[t.ID] = f.of(known[f.name])
			break
		}
	}
	return s
}

// relate finds the inductive equalities. step computes the ghosts after a piece.
func (m *Machine) relate(pr *Prod, names []string, init Ghosts, step func(pe *PEdge, in Ghosts, sub Sub) Ghosts) *Relation {
	r := &Relation{pr: pr, names: names, cand: map[cfg]map[string]map[form]bool{}}
	// offsets, from the arrival at the loop
	type lk struct {
		l   *LoopInfo
		loc string
	}
	offs := map[lk]map[form]bool{}
	for _, pe := range pr.Edges {
		if pe.To.n.Loop == nil || pe.X.Trans == nil {
			continue
		}
		in := init
		if pe.From.n.Loop != nil {
			in = Ghosts{}
			for _, n := range names {
				in[n] = gsym(pe.From, n)
			}
		}
		out := step(pe, in, Sub{})
		if out == nil {
			continue
		}
		for loc, v := range pe.X.Trans.Vals {
			if v == nil {
				continue
			}
			c, ok := constInt(m.e.norm(pe.X.St, v))
			if !ok {
				continue
			}
			for _, n := range names {
				g, ok := constInt(m.e.canon(pe.X.St, out[n], Sub{}))
				if !ok {
					continue
				}
				k := lk{pe.To.n.Loop, loc}
				if offs[k] == nil {
					offs[k] = map[form]bool{}
				}
				offs[k][form{n, 1, c - g}] = true
				offs[k][form{n, -1, c + g}] = true
			}
		}
	}
	for _, pe := range pr.Edges {
		if pe.To.n.Loop == nil || r.cand[pe.To] != nil {
			continue
		}
		r.cand[pe.To] = map[string]map[form]bool{}
		for loc := range pe.To.n.Loop.Heads[pe.To.n.Head].Vals {
			mm := map[form]bool{}
			for _, n := range names {
				mm[form{n, 1, 0}] = true
			}
			for f := range offs[lk{pe.To.n.Loop, loc}] {
				mm[f] = true
			}
			r.cand[pe.To][loc] = mm
		}
	}
	// the direction in which they move
	for _, pe := range pr.Edges {
		if pe.To.n.Loop == nil || pe.From.n.Loop != pe.To.n.Loop || pe.X.Trans == nil {
			continue
		}
		in := Ghosts{}
		for _, n := range names {
			in[n] = gsym(pe.From, n)
		}
		out := step(pe, in, Sub{})
		if out == nil {
			continue
		}
		for loc, mm := range r.cand[pe.To] {
			v, old := pe.X.Trans.Vals[loc], pe.From.n.Loop.Heads[pe.From.n.Head].Vals[loc]
			if t, ok := old.(*Term); !ok || v == nil || !isIntT(typeOrInt(t.T)) {
				continue
			}
			dl, ok := constInt(polyNF(mk("-", tInt64, v, old), tInt64))
			if !ok {
				continue
			}
			for _, n := range names {
				if out[n] == nil {
					continue
				}
				dg, ok := constInt(polyNF(mk("-", tInt64, out[n], in[n]), tInt64))
				if !ok || dg == 0 {
					continue
				}
				for f := range mm {
					if f.name == n && f.sign*dg != dl {
						delete(mm, f)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for _, pe := range pr.Edges {
			if pe.To.n.Loop == nil {
				continue
			}
			sub := r.sub(pe.From)
			out := step(pe, r.ghostIn(pe.From, init), sub)
			for loc, mm := range r.cand[pe.To] {
				var v Val
				if pe.X.Trans != nil {
					v = pe.X.Trans.Vals[loc]
				}
				for _, f := range forms(mm) {
					if v == nil || out == nil || !m.eqVal(pe.X.St, v, f.of(out[f.name]), sub) {
						delete(mm, f)
						again = true
						if dbgGhost {
							fmt.Println("drop", pe.To, loc, f, pe.Path, m.e.show(v, pe.X.St), "|", m.e.show(m.e.canon(pe.X.St, v, sub), nil), "|", m.e.show(m.e.canon(pe.X.St, f.of(out[f.name]), sub), nil))
						}
					}
				}
			}
		}
	}
	return r
}

// eqVal compares a value of the program with a value of the specification.
func (m *Machine) eqVal(st *State, v, g Val, sub Sub) bool {
	if v == nil || g == nil {
		return false
	}
	if narrow(st, m.e.norm(st, strip(v))) {
		return false
	}
	a, b := m.e.canon(st, v, sub), m.e.canon(st, g, sub)
	if t, ok := b.(*Term); ok && t.Op == "seq" {
		if at, ok := a.(*Term); !ok || at.Op != "seq" {
			a = seqVal(m.e.seqOf(st, v, sub))
		}
	}
	if t, ok := a.(*Term); ok && t.Op == "seq" {
		if bt, ok := b.(*Term); !ok || bt.Op != "seq" {
			b = seqVal(unseq(b))
		}
	}
	return same(a, b) || polyEq(a, b)
}

// narrow tells whether a value is computed in a type of less than 64 bits and may not fit in it.
func narrow(st *State, v Val) bool {
	t, ok := v.(*Term)
	if !ok || st == nil {
		return false
	}
	switch t.Op {
	case "+", "-", "*", "<<", "neg":
		if n := intBits(t.T); t.T != nil && isIntT(t.T) && n < 64 {
			iv := st.interval(t)
			lo, hi := int64(-1)<<uint(n-1), int64(1)<<uint(n-1)-1
			if under(t.T).(*types.Basic).Info()&types.IsUnsigned != 0 {
				lo, hi = 0, int64(1)<<uint(n)-1
			}
			if iv.Lo < lo || iv.Hi > hi {
				return true
			}
		}
		for _, a := range t.Args {
			if narrow(st, a) {
				return true
			}
		}
	}
	return false
}
