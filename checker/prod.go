package main

// The product of the automaton of a function with the specification of its input.

import (
	"fmt"
	"sort"
	"strings"
)

type cfg struct {
	n    Node
	s    int
	held ByteSet
	ws   bool
}

type PItem struct {
	Item
	Syms   SymSet // what was read, restricted to the symbols with the same continuation
	Before int
	After  int
}

// chars are the possible characters of an item.
func (p PItem) chars() ByteSet {
	var b ByteSet
	for s := range p.Syms {
		if s < 768 {
			b.Add(s & 255)
		}
	}
	return b
}

type PEdge struct {
	X        *Edge
	From, To cfg
	Items    []PItem
	Class    string
	Path     string
	Last     int // state of the specification at the end
}

type Prod struct {
	m     *Machine
	spec  *nfaSpec
	Edges []*PEdge
	Bad   []string
	Runs  int
}

// explore compares a machine with a specification of its successful runs.
// A run that returns success must have consumed a word of the specification and must
// have looked far enough to know that no longer word is possible; a run that fails by
// itself must have seen something the specification does not allow there.
func (m *Machine) explore(spec *rx, idents []string, isOK func(*Edge) string, errOK func(*PEdge) bool) *Prod {
	n := compileRx(spec)
	pr := &Prod{m: m, spec: n}
	type qe struct {
		c    cfg
		path string
	}
	out := map[Node][]*Edge{}
	for _, x := range m.Edges {
		out[x.From] = append(out[x.From], x)
	}
	seen := map[cfg]bool{}
	q := []qe{{cfg{}, ""}}
	seen[q[0].c] = true
	badSeen := map[string]bool{}
	report := func(x *Edge, format string, a ...interface{}) {
		s := fmt.Sprintf(format, a...)
		if p := m.where(x); p != "" {
			s = p + ": " + s
		}
		if !badSeen[s] && len(pr.Bad) < 60 {
			badSeen[s] = true
			pr.Bad = append(pr.Bad, s)
		}
	}
	laSkip := func(p int) bool {
		for _, k := range n.expected(p) {
			if k >= laBase && k < symEOF || k == laEOF {
				return false
			}
		}
		return true
	}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		for _, x := range out[c.c.n] {
			class := ""
			if x.Out != nil {
				class = isOK(x)
				if class == "skip" {
					continue
				}
			}
			type pos struct {
				s     int
				path  string
				items []PItem
			}
			cur := []pos{{c.c.s, c.path, nil}}
			failed := false
			for _, it := range x.Items {
				if it.Kind == "lexerr" || it.Kind == "callfail" {
					failed = true
					break
				}
				if it.Kind == "char" && x.HeldIn != nil && same(it.V, x.HeldIn) {
					it.Set = it.Set.And(c.c.held)
					it.WS = c.c.ws
				}
				lab := m.labels(x, it, idents)
				for li, set := range lab {
					var nx []pos
					var keys []int
					for s := range set {
						keys = append(keys, s)
					}
					sort.Ints(keys)
					if len(keys) == 0 {
						failed = true
					}
					for _, p := range cur {
						deadShown := false
						group := map[int]SymSet{}
						var order []int
						for _, s := range keys {
							t := n.move(p.s, s)
							if t < 0 && p.s >= 0 && (s >= laBase && s < symEOF || s == laEOF) && laSkip(p.s) {
								// looking ahead is allowed where the specification does not ask for it
								t = p.s
							}
							if t < 0 && p.s >= 0 && s == symEOF {
								if class == "ok" && n.accepts(p.s) || class == "" {
									t = p.s
								}
							}
							if t < 0 && p.s >= 0 && (class == "ok" || x.Out == nil) && s != symEOF && s != symErr {
								if !deadShown {
									report(x, "accepts %s %s, which the language does not have there", p.path, symName(s))
									deadShown = true
								}
								continue
							}
							if group[t] == nil {
								group[t] = SymSet{}
								order = append(order, t)
							}
							group[t][s] = true
						}
						for _, t := range order {
							g := group[t]
							first := 1 << 30
							for s := range g {
								if s < first {
									first = s
								}
							}
							items := append([]PItem(nil), p.items...)
							if li == len(lab)-1 {
								items = append(items, PItem{Item: it, Syms: g, Before: p.s, After: t})
							}
							nx = append(nx, pos{t, strings.TrimSpace(p.path + " " + symName(first)), items})
						}
					}
					cur = nx
				}
			}
			pr.Runs++
			if failed {
				continue
			}
			for _, p := range cur {
				pe := &PEdge{X: x, From: c.c, Items: p.items, Class: class, Path: p.path, Last: p.s}
				if x.Out == nil {
					if p.s < 0 {
						continue
					}
					k := cfg{n: x.To, s: p.s}
					if x.HeldOut != nil {
						k.held, k.ws = x.HeldSet, x.HeldWS
					}
					pe.To = k
					pr.Edges = append(pr.Edges, pe)
					if !seen[k] {
						seen[k] = true
						q = append(q, qe{k, p.path})
					}
					continue
				}
				pe.To = cfg{n: x.To, s: p.s}
				// what has been looked at and given back
				type lp struct {
					s    int
					path string
				}
				la := []lp{{p.s, p.path}}
				var ahead []lp
				for _, v := range x.Pend {
					set, ok := x.St.charSet(m.e.norm(x.St, v))
					if !ok {
						set = srcSet
					}
					base := rawBase
					if t, ok := v.(*Term); ok && x.St.postWS[t.ID] {
						base = wsBase
					}
					if x.HeldIn != nil && same(v, x.HeldIn) {
						set = set.And(c.c.held)
						if c.c.ws {
							base = wsBase
						}
					}
					var nx []lp
					have := map[int]bool{}
					for _, y := range la {
						for _, ch := range set.Elems() {
							t := n.move(y.s, base+ch)
							if !have[t] {
								have[t] = true
								nx = append(nx, lp{t, y.path + " " + symName(base+ch)})
							}
							// a look-ahead that allows what comes next
							if t := n.move(y.s, laBase+ch); t >= 0 {
								ahead = append(ahead, lp{t, y.path + " " + symName(laBase+ch)})
							}
						}
					}
					la = nx
				}
				if len(la) == 0 {
					continue
				}
				pr.Edges = append(pr.Edges, pe)
				switch class {
				case "ok":
					if !n.accepts(p.s) {
						if p.s >= 0 {
							report(x, "returns success after %s where the language needs more (%s)", orNone(p.path), symList(n.expected(p.s)))
						}
						continue
					}
					hasEOF := false
					for _, it := range x.Items {
						if it.Kind == "eof" {
							hasEOF = true
						}
					}
					if hasEOF {
						continue
					}
					for _, y := range append(la, ahead...) {
						if y.s >= 0 && len(n.expected(y.s)) > 0 {
							report(x, "stops after %s although the language continues with %s", orNone(y.path), symList(n.expected(y.s)))
						}
					}
				case "error":
					var bad []string
					for _, y := range la {
						if y.s >= 0 && (n.accepts(y.s) || len(n.expected(y.s)) > 0) {
							ends := false
							for _, it := range x.Items {
								if it.Kind == "eof" || it.Kind == "readerr" {
									ends = true
								}
							}
							if ends && !n.accepts(y.s) {
								continue
							}
							if len(x.Pend) == 0 && !n.accepts(y.s) && m.excluded(n.expected(y.s), x.St.excl) {
								continue
							}
							bad = append(bad, y.path)
						}
					}
					if len(bad) > 0 && errOK != nil && errOK(pe) {
						continue
					}
					for _, b := range bad {
						report(x, "fails after %s, which the language allows", orNone(b))
					}
				}
			}
		}
	}
	return pr
}

// where is the place of a piece in the source.
func (m *Machine) where(x *Edge) string {
	if x.Out != nil {
		return m.e.pos(x.Out.pos)
	}
	for i := len(x.Evs) - 1; i >= 0; i-- {
		if x.Evs[i].Pos.IsValid() {
			return m.e.pos(x.Evs[i].Pos)
		}
	}
	if x.To.Loop != nil {
		return m.e.pos(x.To.Loop.Pos)
	}
	return ""
}

// excluded tells whether none of some symbols can come when the next character is not one of a set.
func (m *Machine) excluded(syms []int, excl ByteSet) bool {
	for _, s := range syms {
		switch {
		case s < laBase:
			if !excl.Has(s & 255) {
				return false
			}
		case s == symEOF || s == symErr || s == laEOF:
		case strings.HasPrefix(symName(s), "<identifier"):
			if !identSet.Sub(excl) {
				return false
			}
		case symName(s) == "<number>":
			if !digitSet.Sub(excl) {
				return false
			}
		default:
			return false
		}
	}
	return true
}
