package main

// Calls that are replaced by their specification: the lexer functions, which are
// analysed on their own, and the mutually recursive parser functions.

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees lists the repository functions a function may call or make closures of.
func (p *Prog) callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(g *ssa.Function) {
		if g != nil && g.Blocks != nil && (g.Pkg == p.pkg || g.Parent() != nil) && !seen[g] {
			seen[g] = true
			r = append(r, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o == nil {
					continue
				}
				switch x := (*o).(type) {
				case *ssa.Function:
					add(x)
				case *ssa.MakeClosure:
					add(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	return r
}

// recursive finds the groups of mutually recursive functions.
func (p *Prog) recursive() [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var res [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range p.callees(f) {
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return c[i].Name() < c[j].Name() })
				res = append(res, c)
			}
		}
	}
	for _, f := range p.all {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return res
}

var knownAnchors = []string{"parseExpressionWithLevel", "parseUnary", "parsePostfix", "parsePrimary", "parseStatementWithSwitch"}

// anchors chooses the functions where recursion is cut.
func (p *Prog) anchors() []*ssa.Function {
	var res []*ssa.Function
	for _, scc := range p.recursive() {
		cut := map[*ssa.Function]bool{}
		in := map[*ssa.Function]bool{}
		for _, f := range scc {
			in[f] = true
			for _, k := range knownAnchors {
				if f.Name() == k {
					cut[f] = true
				}
			}
		}
		cyclic := func() []*ssa.Function {
			// functions on a cycle that is not cut
			var onc []*ssa.Function
			for _, f := range scc {
				if cut[f] {
					continue
				}
				seen := map[*ssa.Function]bool{}
				var reach func(g *ssa.Function) bool
				reach = func(g *ssa.Function) bool {
					for _, h := range p.callees(g) {
						if h == f {
							return true
						}
						if in[h] && !cut[h] && !seen[h] {
							seen[h] = true
							if reach(h) {
								return true
							}
						}
					}
					return false
				}
				if reach(f) {
					onc = append(onc, f)
				}
			}
			return onc
		}
		for len(cyclic()) > 0 {
			c := cyclic()
			// prefer functions called from outside the group, then by name
			best := c[0]
			for _, f := range c {
				out := false
				for _, g := range p.all {
					if !in[g] {
						for _, h := range p.callees(g) {
							if h == f {
								out = true
							}
						}
					}
				}
				if out {
					best = f
					break
				}
			}
			cut[best] = true
		}
		for _, f := range scc {
			if cut[f] {
				res = append(res, f)
			}
		}
	}
	return res
}

func (e *Eng) addCuts() {
	for _, f := range e.prg.anchors() {
		e.cuts[f] = func(e *Eng, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
			return e.cutAnchor(e, st, fn, args, pos)
		}
	}
	e.addLexCuts()
}

func (e *Eng) addLexCuts() {
	for _, m := range []string{"Whitespace", "Identifier", "Number", "Character", "String"} {
		if f := e.prg.fn("Lexer." + m); f != nil {
			m := m
			e.cuts[f] = func(e *Eng, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
				return e.lexCut(st, m, fn, args, pos)
			}
		}
	}
}

func (e *Eng) lexCut(st *State, m string, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	if p, ok := args[0].(*Ptr); !ok || p.Obj != e.lex.Obj {
		e.undecided(st, "%s of another lexer at %s", m, e.pos(pos))
	}
	// what is waiting in the lexer decides how the call starts
	pend := e.pending(st)
	if len(pend) > 0 {
		top := e.norm(st, pend[len(pend)-1])
		set, ok := st.charSet(top)
		if !ok {
			e.undecided(st, "%s after an unknown character at %s", m, e.pos(pos))
			set = srcSet
		}
		// split: blank, slash, other
		split := func(b ByteSet) (in, out *State) {
			t, isT := top.(*Term)
			if !isT {
				if set.Meets(b) {
					return st, nil
				}
				return nil, st
			}
			if set.And(b).Empty() {
				return nil, st
			}
			if set.Sub(b) {
				return st, nil
			}
			in, out = st.clone(), st
			in.chars[t.ID] = set.And(b)
			out.chars[t.ID] = set.Minus(b)
			return
		}
		skips := m == "Whitespace" || m == "Identifier" || m == "Number"
		if skips {
			bl := wsSet
			if t, isT := top.(*Term); isT && !st.postWS[t.ID] && set.Has('/') {
				bl = wsSet.Or(setOf("/"))
			}
			in, out := split(bl)
			if in != nil && out != nil {
				return append(e.lexCut(in, m, fn, args, pos), e.lexCut(out, m, fn, args, pos)...)
			}
			if in != nil {
				// blanks or possibly a comment among what was pushed back: forget which
				if set.Has('/') {
					e.undecided(in, "%s with a '/' pushed back at %s", m, e.pos(pos))
				}
				return e.lexTok(in, m, fn, e.drain(in), pos)
			}
			if m == "Whitespace" {
				// nothing to skip
				return ret1(st, mkNil(tErr))
			}
			first := identSet
			if m == "Number" {
				first = digitSet
			}
			set, _ = st.charSet(top)
			in, out = split(first)
			var outs []Out
			if in != nil {
				outs = append(outs, e.lexTok(in, m, fn, e.drain(in), pos)...)
			}
			if out != nil {
				if m == "Identifier" {
					outs = append(outs, ret1(out, mkStr(""), mkNil(tErr))...)
				} else {
					er := e.err(out, "sub:"+m)
					out.nils[er.ID] = false
					out.add(&Event{Kind: "lexerr", Name: m, Res: []Val{er}, Flag: "bad", Pos: pos, Fn: e.curFn()})
					outs = append(outs, ret1(out, mkInt(0, types.Typ[types.Int64]), er)...)
				}
			}
			return outs
		}
		return e.lexTok(st, m, fn, e.drain(st), pos)
	}
	return e.lexTok(st, m, fn, nil, pos)
}

// lexTok is the call of a lexer function that reads on from the source.
func (e *Eng) lexTok(st *State, m string, fn *ssa.Function, pend []Val, pos token.Pos) []Out {
	var outs []Out
	before := st.excl
	fail := func(flag string, first ...Val) {
		s := st.clone()
		er := e.err(s, "sub:"+m)
		s.nils[er.ID] = false
		s.excl = ByteSet{}
		s.add(&Event{Kind: "lexerr", Name: m, Pend: pend, Res: []Val{er}, Flag: flag, Pos: pos, Fn: e.curFn()})
		outs = append(outs, Out{st: s, kind: "ret", res: append(first, er)})
	}
	tok := func(s *State, name string, excl ByteSet, res ...Val) {
		s.excl = excl
		s.add(&Event{Kind: "tok", Name: name, Pend: pend, Res: res, Pos: pos, Fn: e.curFn()})
	}
	switch m {
	case "Whitespace":
		fail("ws")
		if before.Sub(wsSet) || len(pend) > 0 || !wsSet.Sub(before) {
			tok(st, "ws", wsSet.Or(before.And(identSet)))
			if wsSet.Sub(before) {
				st.excl = st.excl.Or(before)
			} else {
				st.excl = wsSet
			}
		}
		st.afterWS = true
		outs = append(outs, ret1(st, mkNil(tErr))...)
	case "Identifier":
		fail("read", mkStr(""))
		if len(pend) == 0 {
			s := st.clone()
			tok(s, "ws", wsSet.Or(identSet))
			s.afterWS = true
			outs = append(outs, ret1(s, mkStr(""), mkNil(tErr))...)
		}
		id := fresh("ident", tStr)
		st.neqc[id.ID] = map[string]bool{mkStr("").Key(): true}
		tok(st, "ident", identSet, id)
		st.afterWS = false
		outs = append(outs, ret1(st, id, mkNil(tErr))...)
	case "Number":
		fail("read", mkInt(0, types.Typ[types.Int64]))
		if len(pend) == 0 {
			fail("bad", mkInt(0, types.Typ[types.Int64]))
		}
		n := fresh("number", types.Typ[types.Int64])
		tok(st, "number", digitSet, n)
		st.afterWS = false
		outs = append(outs, ret1(st, n, mkNil(tErr))...)
	case "Character":
		fail("bad", mkInt(0, types.Typ[types.Int64]))
		n := fresh("charlit", types.Typ[types.Int64])
		tok(st, "charlit", ByteSet{}, n)
		st.afterWS = false
		outs = append(outs, ret1(st, n, mkNil(tErr))...)
	case "String":
		fail("bad", mkStr(""))
		n := fresh("strlit", tStr)
		tok(st, "strlit", ByteSet{}, n)
		st.afterWS = false
		outs = append(outs, ret1(st, n, mkNil(tErr))...)
	}
	return outs
}

var _ = strings.HasPrefix
