package main

// Relations between the values a parser function carries along and the values of the
// specification, for code that is emitted piece by piece.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

var dbgFlow = os.Getenv("BLANG_FLOW") != ""

type frel struct {
	u     *Unit
	pr    *Prod
	names []string
	init  Ghosts
	build func(fr *frel, pe *PEdge, in Ghosts) []*sprog
	typ   func(t *Term, st *State) string
	gtyp  func(name string, in Ghosts) string
	cand  map[cfg]map[string]map[string]bool
	known map[cfg]Ghosts
	free  []Val
	bad   []ffind
	runs  int
	edges map[cfg][]*PEdge
	psubs map[cfg]map[string]tv
	drops []fdrop
}

// in are the ghosts at the start of a piece.
func (r *frel) in(c cfg) Ghosts {
	if c.n.Loop == nil {
		return r.init
	}
	k := r.known[c]
	if k == nil {
		return nil
	}
	rep := r.reps(c)
	g := Ghosts{}
	for _, n := range r.names {
		if v := k[n]; v != nil {
			g[n] = v
		} else {
			g[n] = gsym(c, rep[n])
		}
	}
	return g
}

// reps chooses one of the ghosts that are equal because they equal the same location.
func (r *frel) reps(c cfg) map[string]string {
	rep := map[string]string{}
	for _, n := range r.names {
		rep[n] = n
	}
	for again := true; again; {
		again = false
		for _, m := range r.cand[c] {
			for a := range m {
				for b := range m {
					if rep[a] < rep[b] {
						old := rep[b]
						for k := range rep {
							if rep[k] == old {
								rep[k] = rep[a]
							}
						}
						again = true
					}
				}
			}
		}
	}
	return rep
}

func (r *frel) locs(c cfg) map[string]Val {
	l := map[string]Val{}
	if c.n.Loop == nil {
		return l
	}
	for k, v := range c.n.Loop.Heads[c.n.Head].Vals {
		l[k] = v
	}
	for _, v := range r.free {
		l["free:"+v.Key()] = v
	}
	return l
}

func (r *frel) subs(c cfg, in Ghosts) (Sub, map[string]tv) {
	s, ps := Sub{}, map[string]tv{}
	for loc, v := range r.locs(c) {
		var ns []string
		for n := range r.cand[c][loc] {
			ns = append(ns, n)
		}
		if len(ns) == 0 || v == nil {
			continue
		}
		sort.Strings(ns)
		g := in[ns[0]]
		if g == nil {
			continue
		}
		x := strip(v)
		if t, ok := x.(*Term); ok {
			s[t.ID] = g
		}
		if sl, ok := x.(*SliceVal); ok {
			// a list of unknown contents
			if it := c.n.Loop.Heads[c.n.Head].st.items(sl); len(it) == 1 {
				if sp, ok := it[0].(*Splat); ok {
					ps[sp.S.Key()] = tv{g, ""}
				}
			}
			continue
		}
		ps[x.Key()] = tv{g, r.gtyp(ns[0], in)}
	}
	return s, ps
}

// decide finds out what a truth value is on a piece.
func (r *frel) decide(pe *PEdge, v Val) Val {
	if v == nil {
		return nil
	}
	if _, ok := constBool(v); ok {
		return v
	}
	w := r.u.E.norm(pe.X.St, v)
	if _, ok := constBool(w); ok {
		return w
	}
	c := pe.From
	if c.n.Loop != nil {
		for loc, x := range r.locs(c) {
			for n := range r.cand[c][loc] {
				if g := r.in(c)[n]; g != nil && same(g, v) && x != nil {
					w := r.u.E.norm(pe.X.St, x)
					if _, ok := constBool(w); ok {
						return w
					}
				}
			}
		}
	}
	return v
}

func (r *frel) flowOf(pe *PEdge) *Flow {
	f := r.u.flow(pe.X)
	f.typ = r.typ
	return f
}

// listVal is the canonical value of a list or a plain value.
func (f *Flow) locVal(c *fctx, v Val) Val {
	v = strip(v)
	var items []Val
	switch x := v.(type) {
	case nil:
		return mk("none", nil)
	case *SliceVal:
		items = f.st.items(x)
	case *ListVal:
		items = x.Items
	case *Const:
		if x.V == nil {
			return seqVal(nil)
		}
		return x
	default:
		return f.val(c, nil, v).v
	}
	var r []Val
	for _, it := range items {
		if s, ok := it.(*Splat); ok {
			if x, ok := c.psub[bkey(s.S)]; ok {
				r = append(r, unseq(x.v)...)
			} else {
				r = append(r, f.e.elems(f.st, it, c.sub)...)
			}
			continue
		}
		r = append(r, f.val(c, nil, it).v)
	}
	return seqVal(r)
}

func listEq(a, b Val) bool {
	if same(a, b) || polyEq(a, b) {
		return true
	}
	isSeq := func(v Val) bool { t, ok := v.(*Term); return ok && t.Op == "seq" }
	if isSeq(a) != isSeq(b) {
		if isSeq(a) {
			b = seqVal(unseq(b))
		} else {
			a = seqVal(unseq(a))
		}
	}
	return same(a, b)
}

// solve finds the inductive relation and then reports what does not fit.
func (r *frel) solve() {
	pr := r.pr
	r.cand = map[cfg]map[string]map[string]bool{}
	r.known = map[cfg]Ghosts{}
	r.drops = nil
	defer r.report()
	// values that later pieces use
	seen := map[string]bool{}
	addFree := func(v Val) {
		v = strip(v)
		switch x := v.(type) {
		case *Ptr:
			if c := r.u.E.ctor(pr.Edges[0].X.St, x); c != nil && strings.HasPrefix(c.Op, "constant.") {
				return
			}
		case *Term:
			if x.Op != "sym" {
				return
			}
		default:
			return
		}
		if !seen[v.Key()] {
			seen[v.Key()] = true
			r.free = append(r.free, v)
		}
	}
	for _, pe := range pr.Edges {
		for _, ev := range pe.X.Evs {
			if ev.Kind == "emit" {
				for _, a := range ev.Args[1:] {
					addFree(a)
					if p, ok := strip(a).(*Ptr); ok {
						if c := r.u.E.ctor(pe.X.St, p); c != nil && strings.HasPrefix(c.Op, "dyn:") {
							addFree(c.Args[0])
						}
					}
				}
			}
		}
	}
	for round := 0; ; round++ {
		if round > 400 {
			r.bad = append(r.bad, ffind{"value", "", "the relation between loop variables and specification does not settle"})
			return
		}
		changed := false
		r.bad = nil
		r.runs = 0
		for _, pe := range pr.Edges {
			in := r.in(pe.From)
			if in == nil {
				continue
			}
			progs := r.build(r, pe, in)
			if pe.X.Out != nil && pe.Class != "ok" {
				continue
			}
			sub, psub := r.subs(pe.From, in)
			for _, p := range progs {
				f := r.flowOf(pe)
				f.empty = map[string]bool{}
				for _, v := range r.locs(pe.From) {
					if t, ok := strip(v).(*Term); ok {
						if iv := pe.X.St.interval(mk("len", tInt, t)); iv.Lo == 0 && iv.Hi == 0 {
							f.empty[t.Key()] = true
							if g, ok := sub[t.ID]; ok {
								f.empty[g.Key()] = true
							}
						}
					}
				}
				ends := f.simulate(p, sub, psub)
				r.runs++
				for _, b := range f.bad {
					r.bad = append(r.bad, b)
				}
				if pe.To.n.Loop == nil {
					r.final(pe, f, p, ends, sub, psub)
					for _, b := range f.bad {
						r.bad = append(r.bad, b)
					}
					continue
				}
				k := r.known[pe.To]
				first := k == nil
				if first {
					k = Ghosts{}
					r.known[pe.To] = k
					r.cand[pe.To] = map[string]map[string]bool{}
					for loc := range r.locs(pe.To) {
						m := map[string]bool{}
						for _, n := range r.names {
							m[n] = true
						}
						r.cand[pe.To][loc] = m
					}
					changed = true
				}
				for _, en := range ends {
					ctx := &fctx{env: en.env, sub: sub, psub: psub}
					for _, n := range r.names {
						v := p.outs[n](en.regs)
						_, isC := v.(*Const)
						if t, ok := v.(*Term); ok && (t.Op == "seq" && len(t.Args) == 0) {
							isC = true
						}
						if first && isC {
							k[n] = v
						} else if old := k[n]; old != nil && (!isC || !same(old, v)) {
							delete(k, n)
							// what was dropped because of the constant may hold now
							changed = true
						}
					}
					first = false
					for loc, v := range r.locs(pe.To) {
						m := r.cand[pe.To][loc]
						if len(m) == 0 {
							continue
						}
						w := v
						if !strings.HasPrefix(loc, "free:") {
							w = nil
							if pe.X.Trans != nil {
								w = pe.X.Trans.Vals[loc]
							}
						}
						var got Val
						gt := ""
						if w != nil {
							got = f.locVal(ctx, w)
							switch strip(w).(type) {
							case *SliceVal, *ListVal:
							default:
								gt = f.val(ctx, nil, w).t
							}
						}
						og := Ghosts{}
						for _, n := range r.names {
							og[n] = p.outs[n](en.regs)
						}
						for n := range m {
							exp := p.outs[n](en.regs)
							if got == nil || !listEq(got, exp) {
								if dbgFlow {
									fmt.Println("drop", pe.To, loc, n, pe.Path, "|", r.u.E.show(got, nil), "|", r.u.E.show(exp, nil))
								}
								delete(m, n)
								changed = true
								r.dropped(pe, loc, n, got, exp)
							} else if wt := r.gtyp(n, og); wt != "" && gt != "" && (wt != gt) {
								// the same number in another type
								if dbgFlow {
									fmt.Println("drop", pe.To, loc, n, pe.Path, "|", gt, wt)
								}
								delete(m, n)
								changed = true
								r.dropped(pe, loc, n, mk(gt, nil, orNil(got)), mk(wt, nil, exp))
							}
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
}

// final compares the results of a successful end: the ghosts res0, res1, ... are the
// results the specification gives, if it says something about them.
func (r *frel) final(pe *PEdge, f *Flow, p *sprog, ends []simEnd, sub Sub, psub map[string]tv) {
	for _, en := range ends {
		ctx := &fctx{env: en.env, sub: sub, psub: psub}
		for i, v := range pe.X.Out.res {
			o := p.outs[fmt.Sprintf("res%d", i)]
			if o == nil {
				continue
			}
			exp := o(en.regs)
			if b, ok := constBool(exp); ok {
				w := f.e.norm(f.st, v)
				if g, ok := constBool(w); !ok || g != b {
					f.fail("lvalue", nil, "after %s the result counts as storage: %s instead of %v", orNone(pe.Path), f.e.show(w, nil), b)
				}
				continue
			}
			var got tv
			ctx.undef = func(what string) {
				f.fail("form", nil, "the result after %s is not computed on every path", orNone(pe.Path))
			}
			switch strip(v).(type) {
			case *SliceVal, *ListVal:
				got = tv{f.locVal(ctx, v), ""}
			default:
				got = f.val(ctx, nil, v)
			}
			if !listEq(got.v, exp) {
				f.fail("value", nil, "after %s the result is %s instead of %s", orNone(pe.Path), f.show(got.v), f.show(exp))
			}
			if t := p.outs[fmt.Sprintf("type%d", i)]; t != nil {
				if want, ok := constStr(t(en.regs)); ok && want != "" && got.t != "" && got.t != want {
					f.fail("form", nil, "after %s the result has type %s instead of %s", orNone(pe.Path), got.t, want)
				}
			}
		}
	}
}

func (r *frel) dropped(pe *PEdge, loc, n string, got, exp Val) {
	if strings.HasPrefix(loc, "free:") || got == nil {
		return
	}
	// only the last location to fit says what is wrong
	left := false
	for l, m := range r.cand[pe.To] {
		if m[n] && !strings.HasPrefix(l, "free:") {
			left = true
		}
	}
	if !left {
		r.drops = append(r.drops, fdrop{pe.To, n, ffind{"value", r.u.M.where(pe.X), fmt.Sprintf("after %s the value carried on is %s instead of %s", orNone(pe.Path), r.u.E.show(got, nil), r.u.E.show(exp, nil))}})
	}
}

// report puts what broke the relation before what follows from that.
func (r *frel) report() {
	if len(r.bad) == 0 {
		return
	}
	var first []ffind
	all := ""
	for _, b := range r.bad {
		all += b.msg + "\n"
	}
	for _, d := range r.drops {
		if len(first) < 3 && r.known[d.c][d.n] == nil && strings.Contains(all, "ghost:"+d.n+"@") {
			first = append(first, d.f)
		}
	}
	r.bad = append(first, r.bad...)
}

type fdrop struct {
	c cfg
	n string
	f ffind
}
