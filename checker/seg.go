package main

// From explored paths to an automaton over source tokens. Every path is cut at the
// loop heads it passes; a piece carries what it consumed, what it emitted and the
// state at its end.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Symbols of the token alphabet.
const (
	rawBase  = 0    // character read
	wsBase   = 256  // character read after blanks were skipped
	laBase   = 512  // character looked at, left for the callee
	symEOF   = 1024 // end of the source
	laEOF    = 1025 // end of the source, seen before a call
	symErr   = 1026 // read error
	tokStart = 2000
)

var tokTab = map[string]int{}
var tokNames []string

func tokSym(s string) int {
	if n, ok := tokTab[s]; ok {
		return n
	}
	n := tokStart + len(tokNames)
	tokNames = append(tokNames, s)
	tokTab[s] = n
	return n
}

func symName(s int) string {
	q := func(c int) string {
		if c > 32 && c < 127 {
			return string(rune(c))
		}
		return fmt.Sprintf("\\x%02x", c)
	}
	switch {
	case s < wsBase:
		return "'" + q(s) + "'"
	case s < laBase:
		return "␣'" + q(s-wsBase) + "'"
	case s < 768:
		return "(next '" + q(s-laBase) + "')"
	case s == laEOF:
		return "(next: end of file)"
	case s == symEOF:
		return "<end of file>"
	case s == symErr:
		return "<read error>"
	case s >= tokStart && s-tokStart < len(tokNames):
		return "<" + tokNames[s-tokStart] + ">"
	}
	return fmt.Sprint(s)
}

type SymSet map[int]bool

func (s SymSet) key() string {
	var k []int
	for x := range s {
		k = append(k, x)
	}
	sort.Ints(k)
	return fmt.Sprint(k)
}

type Item struct {
	Kind string // char, tok, call, eof, readerr, lexerr, callfail
	V    Val    // the character or the token value
	Ev   *Event
	WS   bool
	LA   []Val // characters left for the callee
	Set  ByteSet
}

type Node struct {
	Loop *LoopInfo
	Head int
	Fin  int // index of the final edge, for final nodes
}

func (n Node) String() string {
	if n.Loop == nil {
		if n.Fin > 0 {
			return fmt.Sprintf("end%d", n.Fin)
		}
		return "start"
	}
	return fmt.Sprintf("loop@%v/%d", n.Loop.Pos, n.Head)
}

type Edge struct {
	From, To Node
	Items    []Item
	Evs      []*Event
	St       *State
	Out      *Out
	Trans    *Trans
	Pend     []Val // characters left at the end
	StartSt  *State
	Bad      []string // characters not given back in order
	HeldIn   Val      // the character in hand at the start
	HeldOut  Val      // the character in hand at the end
	HeldSet  ByteSet
	HeldWS   bool
}

type Machine struct {
	e     *Eng
	Fn    string
	Key   string
	Edges []*Edge
	Start *State
	Loops []*LoopInfo
	Args  []Val
	held  map[Node]string   // location of the character in hand at a loop head
	alias map[string]string // names of calls in the specification
}

// machine builds the automaton of the explored paths of a function.
func (e *Eng) machine(name string, start *State, args []Val, outs []Out) *Machine {
	return e.machineMode(name, start, args, outs, 0)
}

// machineMode: 0 a character in hand is recognised by its later use, 1 any character
// in hand counts as not yet consumed, 2 no character does.
func (e *Eng) machineMode(name string, start *State, args []Val, outs []Out, mode int) *Machine {
	m := &Machine{e: e, Fn: name, Start: start, Args: args, held: map[Node]string{}}
	m.build(outs)
	if mode < 2 {
		m.findHeld(mode == 1)
	}
	if len(m.held) > 0 {
		m.build(outs)
	}
	return m
}

func (m *Machine) build(outs []Out) {
	m.Edges, m.Loops = nil, nil
	seen := map[*LoopInfo]bool{}
	fin := 0
	var follow func(li *LoopInfo)
	cut := func(from Node, startSt *State, evs []*Event, st *State, end func() (Node, *Out, *Trans)) {
		cur := from
		cst := startSt
		i := 0
		for j, ev := range evs {
			if ev.Kind != "loop" || ev.Loop.silent() {
				continue
			}
			follow(ev.Loop)
			to := Node{Loop: ev.Loop, Head: 0}
			// the state on arrival
			m.Edges = append(m.Edges, m.edge(cur, to, cst, evs[i:j], ev.Loop.Entry, st, nil, entryTrans(ev.Loop)))
			h := 0
			fmt.Sscan(ev.Flag, &h)
			cur = Node{Loop: ev.Loop, Head: h}
			cst = ev.Loop.Heads[h].st
			i = j + 1
		}
		to, out, tr := end()
		m.Edges = append(m.Edges, m.edge(cur, to, cst, evs[i:], st, st, out, tr))
	}
	follow = func(li *LoopInfo) {
		if seen[li] {
			return
		}
		seen[li] = true
		m.Loops = append(m.Loops, li)
		for _, t := range li.Trans {
			if t.From < 0 {
				continue
			}
			t := t
			cut(Node{Loop: li, Head: t.From}, li.Heads[t.From].st, t.Evs, t.St, func() (Node, *Out, *Trans) {
				return Node{Loop: li, Head: t.To}, nil, t
			})
		}
	}
	for i := range outs {
		o := &outs[i]
		cut(Node{}, m.Start, o.st.events(), o.st, func() (Node, *Out, *Trans) {
			fin++
			return Node{Fin: fin}, o, nil
		})
	}
	// pieces shared by several paths
	have := map[string]bool{}
	var uniq []*Edge
	for _, x := range m.Edges {
		if x.Out != nil {
			uniq = append(uniq, x)
			continue
		}
		var b strings.Builder
		fmt.Fprintf(&b, "%v|%v|%p|", x.From, x.To, x.Trans)
		for _, ev := range x.Evs {
			fmt.Fprintf(&b, "%p ", ev)
		}
		for _, it := range x.Items {
			fmt.Fprintf(&b, "%v", it.Set)
		}
		if !have[b.String()] {
			have[b.String()] = true
			uniq = append(uniq, x)
		}
	}
	m.Edges = uniq
}

// headVal is the value of a location at a loop head.
func (n Node) headVal(loc string) Val {
	if v, ok := n.Loop.Heads[n.Head].Vals[loc]; ok {
		return v
	}
	return nil
}

// findHeld finds the loops that are entered with the character read last in hand.
func (m *Machine) findHeld(any bool) {
	in, out := map[Node][]*Edge{}, map[Node][]*Edge{}
	for _, x := range m.Edges {
		out[x.From] = append(out[x.From], x)
		if x.To.Loop != nil {
			in[x.To] = append(in[x.To], x)
		}
	}
	for n, xs := range in {
		var locs []string
		for loc := range n.Loop.Heads[n.Head].Vals {
			locs = append(locs, loc)
		}
		sort.Strings(locs)
		for _, loc := range locs {
			hv, ok := n.headVal(loc).(*Term)
			if !ok {
				continue
			}
			if m.e.lex != nil && strings.HasPrefix(loc, fmt.Sprintf("obj:%d/", m.e.lex.Obj)) {
				continue
			}
			ok = true
			for _, x := range xs {
				if x.Trans == nil || len(x.Items) == 0 {
					ok = ok && n == x.From && x.Trans != nil && same(x.Trans.Vals[loc], hv)
					continue
				}
				l := x.Items[len(x.Items)-1]
				if l.Kind != "char" || x.Trans.Vals[loc] == nil || !same(x.Trans.Vals[loc], l.V) && !same(m.e.norm(x.St, l.V), x.Trans.Vals[loc]) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			used := any
			hs, _ := n.Loop.Heads[n.Head].st.charSet(hv)
			for _, x := range out[n] {
				if s, ok := x.St.charSet(hv); ok && s != hs {
					used = true
				}
				for _, p := range x.Pend {
					if same(p, hv) {
						used = true
					}
				}
			}
			if used {
				m.held[n] = loc
				break
			}
		}
	}
}

func entryTrans(li *LoopInfo) *Trans {
	for _, t := range li.Trans {
		if t.From < 0 {
			return t
		}
	}
	return nil
}

// elem is an element of the source as seen by a piece: a character or a token.
type elem struct {
	v   Val
	it  Item
	tok int // group of the characters of one identifier, 0 for single characters
}

// edge works out what a piece of a path consumed.
func (m *Machine) edge(from, to Node, startSt *State, evs []*Event, endSt, facts *State, out *Out, tr *Trans) *Edge {
	e := m.e
	x := &Edge{From: from, To: to, Evs: evs, St: facts, Out: out, Trans: tr, StartSt: startSt}
	var stream []elem
	group := 0
	pendOf := func(st *State) []Val {
		p := e.pending(st)
		r := make([]Val, len(p))
		for i := range p {
			r[len(p)-1-i] = p[i]
		}
		return r
	}
	if loc, ok := m.held[from]; ok {
		c := from.headVal(loc)
		x.HeldIn = c
		stream = append(stream, elem{v: c, it: Item{Kind: "char", V: c}})
	}
	for _, c := range pendOf(startSt) {
		stream = append(stream, elem{v: c, it: Item{Kind: "char", V: c}})
	}
	flush := func(keep []Val) {
		n := len(stream) - len(keep)
		ok := n >= 0
		if ok {
			for i, k := range keep {
				if !same(e.norm(facts, stream[n+i].v), e.norm(facts, k)) {
					ok = false
				}
			}
			if n > 0 && n < len(stream) && stream[n].tok != 0 && stream[n].tok == stream[n-1].tok {
				ok = false
			}
			if w := m.joined(facts, stream[n:], keep); ok && w != "" {
				x.Bad = append(x.Bad, w)
			}
		}
		if !ok {
			var a, b []string
			for _, s := range stream {
				a = append(a, e.show(s.v, facts))
			}
			for _, k := range keep {
				b = append(b, e.show(k, facts))
			}
			x.Bad = append(x.Bad, fmt.Sprintf("read %s but %s is left to be read again", strings.Join(a, " "), strings.Join(b, " ")))
			n = len(stream)
			if len(keep) < n {
				n -= len(keep)
			}
		}
		last := 0
		for _, s := range stream[:n] {
			if s.tok != 0 {
				if s.tok == last {
					continue
				}
				last = s.tok
			}
			x.Items = append(x.Items, s.it)
		}
		stream = nil
	}
	for _, ev := range evs {
		switch ev.Kind {
		case "read":
			stream = append(stream, elem{v: ev.Args[0], it: Item{Kind: "char", V: ev.Args[0], Ev: ev}})
		case "eof":
			stream = append(stream, elem{v: mkStr("eof"), it: Item{Kind: "eof", Ev: ev}})
		case "readerr":
			stream = append(stream, elem{v: mkStr("readerr"), it: Item{Kind: "readerr", Ev: ev}})
		case "tok", "lexerr":
			if ev.Name == "ws" {
				if len(ev.Pend) > 0 {
					// blanks among the pushed back characters: they are consumed
					flush(nil)
				}
				continue
			}
			flush(ev.Pend)
			it := Item{Kind: ev.Kind, Ev: ev, LA: nil}
			if len(ev.Res) > 0 {
				it.V = ev.Res[0]
			}
			if ev.Kind == "tok" && ev.Name == "ident" {
				// an identifier may be given back character by character
				if t, ok := it.V.(*Term); ok {
					if cs, ok := facts.strs[t.ID]; ok && len(cs) > 0 {
						group++
						for _, c := range cs {
							stream = append(stream, elem{v: c, it: it, tok: group})
						}
						continue
					}
				}
				group++
				stream = append(stream, elem{v: it.V, it: it, tok: group})
				continue
			}
			x.Items = append(x.Items, it)
		case "call", "callfail":
			eofs := 0
			var rerr []elem
			for len(stream) > 0 && (stream[len(stream)-1].it.Kind == "eof" || stream[len(stream)-1].it.Kind == "readerr") {
				// the end of file is seen again by the callee
				if l := stream[len(stream)-1]; l.it.Kind == "eof" {
					eofs++
				} else {
					rerr = append(rerr, l)
				}
				stream = stream[:len(stream)-1]
			}
			flush(ev.Pend)
			for _, s := range rerr {
				x.Items = append(x.Items, s.it)
			}
			x.Items = append(x.Items, Item{Kind: ev.Kind, Ev: ev, LA: ev.Pend, WS: eofs > 0})
		}
	}
	var keep []Val
	if endSt != nil {
		keep = pendOf(endSt)
	}
	x.Pend = keep
	var eofs []elem
	for len(stream) > 0 && (stream[len(stream)-1].it.Kind == "eof" || stream[len(stream)-1].it.Kind == "readerr") {
		eofs = append(eofs, stream[len(stream)-1])
		stream = stream[:len(stream)-1]
	}
	if loc, ok := m.held[to]; ok && tr != nil {
		x.HeldOut = tr.Vals[loc]
		if h, ok := facts.charSet(e.norm(facts, x.HeldOut)); ok {
			x.HeldSet = h
		} else {
			x.HeldSet = srcSet
		}
		for _, s := range stream {
			if same(s.v, x.HeldOut) || same(e.norm(facts, s.v), e.norm(facts, x.HeldOut)) {
				if t, ok := s.v.(*Term); ok && facts.postWS[t.ID] {
					x.HeldWS = true
				}
			}
		}
		flush(append([]Val{x.HeldOut}, keep...))
	} else {
		flush(keep)
	}
	for _, s := range eofs {
		x.Items = append(x.Items, s.it)
	}
	for i := range x.Items {
		it := &x.Items[i]
		if it.Kind == "char" {
			v := e.norm(facts, it.V)
			if set, ok := facts.charSet(v); ok {
				it.Set = set
			} else {
				it.Set = srcSet
			}
			if t, ok := it.V.(*Term); ok && facts.postWS[t.ID] {
				it.WS = true
			}
		}
	}
	return x
}

// joined tells whether characters left to be read again without the blanks between them
// may be taken for something else.
func (m *Machine) joined(st *State, el []elem, keep []Val) string {
	ops := setOf("+-*/%&|<>=!")
	set := func(v elem) ByteSet {
		if s, ok := st.charSet(m.e.norm(st, v.v)); ok {
			return s
		}
		if v.tok != 0 {
			return identSet
		}
		return srcSet
	}
	for i := 1; i < len(el); i++ {
		t, ok := el[i].v.(*Term)
		if !ok || !st.postWS[t.ID] {
			continue
		}
		a, b := set(el[i-1]), set(el[i])
		if a.Meets(identSet) && b.Meets(identSet) || a.Meets(ops) && b.Meets(ops) {
			return fmt.Sprintf("blanks were skipped between %s and %s, which are left to be read again as one", m.e.show(el[i-1].v, st), m.e.show(el[i].v, st))
		}
	}
	return ""
}

// labels are the symbol sets of an item, in order.
func (m *Machine) labels(x *Edge, it Item, idents []string) []SymSet {
	switch it.Kind {
	case "char":
		s := SymSet{}
		base := rawBase
		if it.WS {
			base = wsBase
		}
		for _, c := range it.Set.Elems() {
			s[base+c] = true
		}
		return []SymSet{s}
	case "eof":
		return []SymSet{{symEOF: true}}
	case "readerr":
		return []SymSet{{symErr: true}}
	case "tok":
		return []SymSet{m.tokSet(x, it, idents)}
	case "call":
		var r []SymSet
		for _, l := range it.LA {
			s := SymSet{}
			set, ok := x.St.charSet(m.e.norm(x.St, l))
			if !ok {
				set = srcSet
			}
			for _, c := range set.Elems() {
				s[laBase+c] = true
			}
			r = append(r, s)
		}
		if it.WS {
			r = append(r, SymSet{laEOF: true})
		}
		n := it.Ev.Flag
		if a, ok := m.alias[n]; ok {
			n = a
		}
		return append(r, SymSet{tokSym(n): true})
	}
	return nil
}

func (m *Machine) tokSet(x *Edge, it Item, idents []string) SymSet {
	if it.Ev.Name != "ident" {
		return SymSet{tokSym(it.Ev.Name): true}
	}
	s := SymSet{}
	t, _ := it.V.(*Term)
	if t != nil {
		if c, ok := x.St.eqc[t.ID]; ok {
			k, _ := constStr(c)
			s[identSym(k, idents)] = true
			return s
		}
		if cs, ok := x.St.strs[t.ID]; ok {
			// known characters: which of the words are possible
			for _, w := range idents {
				if len(w) == len(cs) {
					fit := true
					for i := range cs {
						if set, ok := x.St.charSet(m.e.norm(x.St, cs[i])); ok && !set.Has(int(w[i])) {
							fit = false
						}
					}
					if fit && !x.St.neqc[t.ID][mkStr(w).Key()] {
						s[identSym(w, idents)] = true
					}
				}
			}
			s[identSym("", nil)] = true
			return s
		}
		for _, w := range idents {
			if !x.St.neqc[t.ID][mkStr(w).Key()] {
				s[identSym(w, idents)] = true
			}
		}
	}
	s[identSym("", nil)] = true
	return s
}

func identSym(w string, idents []string) int {
	for _, k := range idents {
		if k == w {
			return tokSym("identifier " + w)
		}
	}
	return tokSym("identifier")
}

// ---------- specifications ----------

type rx struct {
	op  string // sym, seq, alt, star, eps
	set SymSet
	sub []*rx
}

func rSet(s SymSet) *rx { return &rx{op: "sym", set: s} }
func rSeq(a ...*rx) *rx { return &rx{op: "seq", sub: a} }
func rAlt(a ...*rx) *rx { return &rx{op: "alt", sub: a} }
func rStar(a *rx) *rx   { return &rx{op: "star", sub: []*rx{a}} }
func rOpt(a *rx) *rx    { return rAlt(a, rSeq()) }
func rTok(names ...string) *rx {
	s := SymSet{}
	for _, n := range names {
		s[tokSym(n)] = true
	}
	return rSet(s)
}
func rChars(base int, b ByteSet) *rx {
	s := SymSet{}
	for _, c := range b.Elems() {
		s[base+c] = true
	}
	return rSet(s)
}

// rP is a punctuation character, where blanks may come first; the following ones directly.
func rP(s string) *rx {
	r := rSeq(rChars(wsBase, setOf(s[:1])))
	for i := 1; i < len(s); i++ {
		r.sub = append(r.sub, rChars(rawBase, setOf(s[i:i+1])))
	}
	return r
}

type nfaSpec struct {
	eps  [][]int
	step []map[int][]int
	acc  int
	live []bool
	memo map[string]int
	sets [][]int
	next []map[int]int
}

func compileRx(r *rx) *nfaSpec {
	n := &nfaSpec{memo: map[string]int{}}
	mkState := func() int {
		n.eps = append(n.eps, nil)
		n.step = append(n.step, map[int][]int{})
		return len(n.eps) - 1
	}
	var build func(r *rx, a int) int
	build = func(r *rx, a int) int {
		switch r.op {
		case "sym":
			b := mkState()
			for s := range r.set {
				n.step[a][s] = append(n.step[a][s], b)
			}
			return b
		case "seq":
			for _, x := range r.sub {
				a = build(x, a)
			}
			return a
		case "alt":
			b := mkState()
			for _, x := range r.sub {
				c := mkState()
				n.eps[a] = append(n.eps[a], c)
				d := build(x, c)
				n.eps[d] = append(n.eps[d], b)
			}
			return b
		case "star":
			b := mkState()
			n.eps[a] = append(n.eps[a], b)
			c := build(r.sub[0], b)
			n.eps[c] = append(n.eps[c], b)
			d := mkState()
			n.eps[b] = append(n.eps[b], d)
			return d
		}
		return a
	}
	s := mkState()
	n.acc = build(r, s)
	n.set([]int{s})
	return n
}

func (n *nfaSpec) set(s []int) int {
	in := map[int]bool{}
	var w []int
	add := func(x int) {
		if !in[x] {
			in[x] = true
			w = append(w, x)
		}
	}
	for _, x := range s {
		add(x)
	}
	for i := 0; i < len(w); i++ {
		for _, y := range n.eps[w[i]] {
			add(y)
		}
	}
	sort.Ints(w)
	k := fmt.Sprint(w)
	if id, ok := n.memo[k]; ok {
		return id
	}
	id := len(n.sets)
	n.memo[k] = id
	n.sets = append(n.sets, w)
	n.next = append(n.next, map[int]int{})
	return id
}

// move returns the successor state, or -1 if there is none.
func (n *nfaSpec) move(s, sym int) int {
	if s < 0 {
		return -1
	}
	if t, ok := n.next[s][sym]; ok {
		return t
	}
	var r []int
	for _, x := range n.sets[s] {
		r = append(r, n.step[x][sym]...)
	}
	t := -1
	if len(r) > 0 {
		t = n.set(r)
	}
	n.next[s][sym] = t
	return t
}

func (n *nfaSpec) accepts(s int) bool {
	if s < 0 {
		return false
	}
	for _, x := range n.sets[s] {
		if x == n.acc {
			return true
		}
	}
	return false
}

// canContinue tells whether some symbol is possible in a state.
func (n *nfaSpec) expected(s int) []int {
	m := map[int]bool{}
	if s >= 0 {
		for _, x := range n.sets[s] {
			for k := range n.step[x] {
				m[k] = true
			}
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func orNone(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

func symList(s []int) string {
	var r []string
	for i, x := range s {
		if i == 4 {
			r = append(r, "…")
			break
		}
		r = append(r, symName(x))
	}
	return strings.Join(r, " or ")
}

func (e *Eng) posOf(p token.Pos) string { return e.pos(p) }
