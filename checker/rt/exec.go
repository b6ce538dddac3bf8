package rt

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Obj is a piece of memory.
type Obj struct {
	id    int
	name  string
	kind  string // local, global, const, args
	size  int64
	args  []Val
	entry bool // arguments of the analysed function: as many as are asked for
	t     *Type
}

// Val is a value: a number, or an address inside of an object.
type Val struct {
	w     int
	l     *Lin
	obj   *Obj
	fn    *Fn
	undef bool
}

type cell struct {
	n int64
	v Val
}

// Frame is a call that is being interpreted.
type Frame struct {
	fn    *Fn
	regs  map[string]Val
	blk   *Block
	i     int
	prev  string
	id    int
	args  *Obj
	vals  []Val
	dest  string
	own   []*Obj
	seen  map[string]int
	where string // call sites
}

// Event is something the outside can see.
type Event struct {
	kind  string // sys, store, call
	nr    int64
	args  []Val
	res   *Lin
	bytes []Val // written from a variable of the library
	local bool
	ins   *Ins
	fn    string
}

// State is a state of a path.
type State struct {
	e      *Eng
	cons   map[string]Iv
	facts  map[string]bool
	mem    map[int]map[int64]cell
	dead   map[int]bool
	frames []*Frame
	ev     []*Event
	loads  []*Event // of memory outside
	ver    int
	ids    int
	sys    int
	ret    *Val
	exited bool
	spec   *Spec
	marks  map[string]string // heads passed: the position of the specification then
	steps  int
}

func (s *State) clone() *State {
	n := *s
	n.cons = map[string]Iv{}
	for k, v := range s.cons {
		n.cons[k] = v
	}
	n.facts = map[string]bool{}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.mem = map[int]map[int64]cell{}
	for k, v := range s.mem {
		m := map[int64]cell{}
		for a, b := range v {
			m[a] = b
		}
		n.mem[k] = m
	}
	n.dead = map[int]bool{}
	for k := range s.dead {
		n.dead[k] = true
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.regs = map[string]Val{}
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.seen = map[string]int{}
		for k, v := range f.seen {
			g.seen[k] = v
		}
		g.own = append([]*Obj(nil), f.own...)
		n.frames[i] = &g
	}
	n.ev = append([]*Event(nil), s.ev...)
	n.loads = append([]*Event(nil), s.loads...)
	if s.spec != nil {
		n.spec = s.spec.clone()
	}
	n.marks = map[string]string{}
	for k, v := range s.marks {
		n.marks[k] = v
	}
	return &n
}

// Finding is something wrong.
type Finding struct{ Kind, Where, Msg string }

// Eng interprets the functions of one machine.
type Eng struct {
	began  time.Time
	over   bool // the analysis was given up
	// addresses that are read or written, and sums that may overflow unless they are addresses
	touched map[string]bool
	doubt   map[string]Finding
	lib    *Lib
	atoms  map[string]*Atom
	find   []Finding
	seen   map[string]bool
	objs   int
	globs  map[string]*Obj
	inits  map[int]map[int64]cell
	steps  int
	paths  int
	onHead func(s *State, b *Block) bool
	onLoad func(s *State, addr *Lin, in *Ins)
	sysnr  map[string]int64
	calls  map[string]bool // functions interpreted
	insns  map[*Ins]bool
	access int
	arith  int
}

func newEng(lib *Lib) *Eng {
	return &Eng{lib: lib, touched: map[string]bool{}, doubt: map[string]Finding{}, began: time.Now(), atoms: map[string]*Atom{}, seen: map[string]bool{}, globs: map[string]*Obj{}, inits: map[int]map[int64]cell{}, calls: map[string]bool{}, insns: map[*Ins]bool{}}
}

func (e *Eng) report(kind, where, f string, a ...interface{}) {
	x := Finding{kind, where, fmt.Sprintf(f, a...)}
	k := kind + where + x.Msg
	if kind == "overflow" {
		k = kind + where // once is enough
	}
	if !e.seen[k] && len(e.find) < 60 {
		e.seen[k] = true
		e.find = append(e.find, x)
	}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) where(in *Ins) string {
	fn := ""
	if len(s.frames) > 0 {
		fn = s.top().fn.Name
	}
	return place(in, fn)
}

func place(in *Ins, fn string) string {
	if in == nil {
		return fn
	}
	return fmt.Sprintf("%s:%d (%s)", in.File, in.Line, fn)
}

func (e *Eng) newObj(name, kind string, size int64, t *Type) *Obj {
	e.objs++
	return &Obj{id: e.objs, name: name, kind: kind, size: size, t: t}
}

func number(l *Lin, w int) Val { return Val{w: w, l: l} }

// global returns the object of a variable.
func (e *Eng) global(m *Mod, name string) (Val, bool) {
	if f := m.Fns[name]; f != nil {
		if d := e.lib.resolve(m, name); d != nil {
			return Val{w: 64, l: num(0), fn: d}, true
		}
		return Val{w: 64, l: num(0), fn: f}, true
	}
	g := m.Globs[name]
	if g == nil {
		return Val{}, false
	}
	key := name
	if g.Internal {
		key = m.File + ":" + name
	}
	if g.Extern {
		for _, o := range e.lib.Mods {
			if d := o.Globs[name]; d != nil && !d.Extern && !d.Internal {
				g = d
			}
		}
	}
	o := e.globs[key]
	if o == nil {
		kind := "global"
		if g.Const {
			kind = "const"
		}
		o = e.newObj(name, kind, g.T.size(), g.T)
		e.globs[key] = o
		if g.Const && g.Init != nil {
			cells := map[int64]cell{}
			e.fill(m, cells, 0, g.Init)
			e.inits[o.id] = cells
		}
	}
	return Val{w: 64, l: num(0), obj: o}, true
}

func (e *Eng) fill(m *Mod, c map[int64]cell, off int64, o *Opd) {
	switch o.Kind {
	case "bytes":
		for i := 0; i < len(o.Text); i++ {
			c[off+int64(i)] = cell{1, number(num(int64(o.Text[i])), 8)}
		}
	case "int":
		n := o.T.size()
		c[off] = cell{n, number(numB(o.Int), int(n)*8)}
	case "zero":
		for i := int64(0); i < o.T.size(); i++ {
			c[off+i] = cell{1, number(num(0), 8)}
		}
	case "list":
		for i, a := range o.Args {
			if o.T.Kind == "struct" {
				e.fill(m, c, off+o.T.field(i), a)
			} else {
				e.fill(m, c, off+int64(i)*o.T.Elem.size(), a)
			}
		}
	case "global":
		if v, ok := e.global(m, o.Name); ok {
			c[off] = cell{8, v}
		}
	case "expr":
		if v, ok := e.constExpr(m, o); ok {
			c[off] = cell{8, v}
		}
	}
}

func (e *Eng) constExpr(m *Mod, o *Opd) (Val, bool) {
	switch o.Op {
	case "getelementptr":
		base, ok := e.constant(m, o.Args[0])
		if !ok {
			return Val{}, false
		}
		t := o.Src
		off := base.l
		for i, a := range o.Args[1:] {
			x, ok := e.constant(m, a)
			if !ok || !x.l.isNum() {
				return Val{}, false
			}
			k := x.l.c.Int64()
			if i == 0 {
				off = plus(off, k*t.size())
				continue
			}
			switch t.Kind {
			case "array":
				t = t.Elem
				off = plus(off, k*t.size())
			case "struct":
				off = plus(off, t.field(int(k)))
				t = t.Flds[k]
			default:
				return Val{}, false
			}
		}
		base.l = off
		return base, true
	case "ptrtoint", "inttoptr", "bitcast":
		return e.constant(m, o.Args[0])
	}
	return Val{}, false
}

func bits(t *Type) int {
	if t == nil {
		return 64
	}
	switch t.Kind {
	case "int":
		return t.Bits
	case "ptr":
		return 64
	}
	return int(t.size() * 8)
}

func (e *Eng) constant(m *Mod, o *Opd) (Val, bool) {
	switch o.Kind {
	case "int", "zero":
		if o.T != nil && (o.T.Kind == "struct" || o.T.Kind == "array") {
			return Val{}, false
		}
		w := bits(o.T)
		return number(numB(symm(o.Int, pow2(w))), w), true
	case "undef":
		return Val{w: bits(o.T), undef: true, l: num(0)}, true
	case "global":
		return e.global(m, o.Name)
	case "expr":
		return e.constExpr(m, o)
	}
	return Val{}, false
}

func (s *State) val(o *Opd) Val {
	f := s.top()
	if o.Kind == "reg" {
		v, ok := f.regs[o.Name]
		if !ok {
			panic(undecided{"a register without value: " + o.Name})
		}
		if v.l != nil {
			v.l = s.again(v.l)
		}
		return v
	}
	v, ok := s.e.constant(f.fn.Mod, o)
	if !ok {
		panic(undecided{"an operand that is not understood: " + o.Text})
	}
	return v
}

func (s *State) numOf(v Val, in *Ins) *Lin {
	if v.undef {
		panic(bad{"memory", "a value is used that was never stored"})
	}
	if v.obj != nil || v.fn != nil {
		panic(undecided{"arithmetic on an address"})
	}
	return v.l
}

type bad struct{ kind, msg string }

// setup makes the first state of a function.
func (e *Eng) start(fn *Fn, args []Val) *State {
	s := &State{e: e, cons: map[string]Iv{}, facts: map[string]bool{}, mem: map[int]map[int64]cell{}, dead: map[int]bool{}, marks: map[string]string{}}
	s.enter(fn, args, "", true, "")
	return s
}

func (s *State) enter(fn *Fn, args []Val, dest string, entry bool, site string) {
	e := s.e
	e.calls[fn.Name] = true
	s.ids++
	f := &Frame{fn: fn, regs: map[string]Val{}, blk: fn.Blocks[0], id: s.ids, dest: dest, seen: map[string]int{}, where: site}
	for i, p := range fn.Params {
		var v Val
		if i < len(args) {
			v = args[i]
		} else if entry {
			v = number(e.argument(int64(i)), 64)
		} else {
			v = Val{w: bits(p), undef: true, l: num(0)}
		}
		if w := bits(p); !v.undef && w < v.w {
			v = number(s.wrap(s.numOf(v, nil), w), w)
		} else if w > v.w && !v.undef {
			panic(undecided{"an argument that is too narrow"})
		}
		f.regs[fn.PNames[i]] = v
	}
	o := e.newObj("the arguments", "args", -1, nil)
	o.entry = entry
	if len(args) > len(fn.Params) {
		o.args = args[len(fn.Params):]
	}
	if entry {
		o.args = nil
		for i := 0; i < len(fn.Params); i++ {
			o.args = append(o.args, Val{}) // marks how many are gone
		}
	}
	f.args = o
	s.frames = append(s.frames, f)
}

func (e *Eng) argument(i int64) *Lin { return e.word("arg"+strconv.FormatInt(i, 10), 64) }

// budget is the time one function may take on one machine.
const budget = 100 * time.Second

func (s *State) fnName() string {
	if len(s.frames) == 0 {
		return ""
	}
	return s.frames[0].fn.Name
}

// run interprets a function from a state to all its ends.
func (e *Eng) run(s0 *State) (ends []*State) {
	work := []*State{s0}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s != nil {
			e.steps++
			if e.steps > 1000000 || e.paths > 60000 || e.steps%256 == 0 && time.Since(e.began) > budget {
				e.over = true
				e.report("undecided", s.fnName(), "the analysis does not end")
				return nil
			}
			if len(s.frames) == 0 || s.exited {
				e.paths++
				ends = append(ends, s)
				break
			}
			next := e.step(s)
			if len(next) == 0 {
				break
			}
			s = next[0]
			work = append(work, next[1:]...)
		}
	}
	return
}

// step interprets one instruction.
func (e *Eng) step(s *State) (next []*State) {
	f := s.top()
	if f.i >= len(f.blk.Ins) {
		e.report("undecided", f.fn.Name, "a block without end")
		return nil
	}
	in := f.blk.Ins[f.i]
	e.insns[in] = true
	defer func() {
		x := recover()
		switch x := x.(type) {
		case nil:
		case split:
			var ok bool
			if next, ok = s.divide(x); !ok {
				e.report("undecided", s.where(in), "cases cannot be distinguished")
			}
		case dead:
			next = nil
		case undecided:
			e.report("undecided", s.where(in), "%s [%s]", x.s, in.Raw)
			next = nil
		case bad:
			e.report(x.kind, s.where(in), "%s", x.msg)
			next = nil
		default:
			panic(x)
		}
	}()
	// a split may ask for a restart, so that nothing is changed before values are known
	t := s
	return e.do(t, f, in)
}

// divide makes the cases of a state that a question asks for. A question that comes up while they are made is answered first.
func (s *State) divide(x split) (out []*State, ok bool) {
	for n := 0; n < 20; n++ {
		out = nil
		var again *split
		for _, k := range []int{0, 1} {
			t := s.clone()
			ok := func() (ok bool) {
				defer func() {
					switch y := recover().(type) {
					case nil:
					case dead:
						ok = false
					case split:
						ok, again = false, &y
					default:
						panic(y)
					}
				}()
				if k == 0 {
					t.restrict(x.a, new(big.Int).Neg(pow2(200)), sub1(x.at))
				} else {
					t.restrict(x.a, x.at, pow2(200))
				}
				return true
			}()
			if again != nil {
				break
			}
			if !ok {
				continue
			}
			if r, r0 := t.atomRange(x.a), s.atomRange(x.a); r.lo.Cmp(r0.lo) == 0 && r.hi.Cmp(r0.hi) == 0 {
				return nil, false
			}
			out = append(out, t)
		}
		if again == nil {
			return out, true
		}
		x = *again
	}
	return nil, false
}

func (s *State) set(f *Frame, in *Ins, v Val) []*State {
	if in.Res != "" {
		if v.l != nil && v.obj == nil && !v.undef {
			v.l = s.wrap(v.l, v.w)
		}
		f.regs[in.Res] = v
	}
	f.i++
	return []*State{s}
}

func (s *State) jump(f *Frame, to string) []*State {
	b := f.fn.ByName[to]
	if b == nil {
		panic(undecided{"a jump to an unknown block"})
	}
	f.prev = f.blk.Name
	// all phis of the block at once
	vals := map[string]Val{}
	n := 0
	for _, in := range b.Ins {
		if in.Op != "phi" {
			break
		}
		n++
		found := false
		for k, l := range in.Lbls {
			if l == f.prev {
				vals[in.Res] = s.val(in.Args[k])
				found = true
			}
		}
		if !found {
			panic(undecided{"a phi without the edge"})
		}
	}
	f.blk, f.i = b, n
	for k, v := range vals {
		f.regs[k] = v
	}
	f.seen[to]++
	if f.seen[to] > 120 {
		panic(undecided{"a loop that is not bounded"})
	}
	if b.Head && s.e.onHead != nil && !s.e.onHead(s, b) {
		return nil
	}
	return []*State{s}
}

func (e *Eng) do(s *State, f *Frame, in *Ins) []*State {
	switch in.Op {
	case "alloca":
		n := int64(1)
		if len(in.Args) > 0 {
			c := s.numOf(s.val(in.Args[0]), in)
			if !c.isNum() {
				panic(undecided{"a variable of unknown size"})
			}
			n = c.c.Int64()
		}
		o := e.newObj("variable "+in.Res+" of "+f.fn.Name, "local", n*in.T.size(), in.T)
		f.own = append(f.own, o)
		return s.set(f, in, Val{w: 64, l: num(0), obj: o})
	case "load":
		v := s.load(s.val(in.Args[0]), in.T.size(), bits(in.T), in)
		return s.set(f, in, v)
	case "store":
		v, p := s.val(in.Args[0]), s.val(in.Args[1])
		n := in.Args[0].T.size()
		s.store(p, n, v, in)
		f.i++
		return []*State{s}
	case "getelementptr":
		p := s.val(in.Args[0])
		if p.undef {
			panic(bad{"memory", "an address is used that was never stored"})
		}
		t := in.T
		off := num(0)
		for i, a := range in.Args[1:] {
			v := s.val(a)
			x := s.sval(s.numOf(v, in), v.w)
			if i == 0 {
				off = addK(off, x, bi(t.size()))
				continue
			}
			switch t.Kind {
			case "array":
				t = t.Elem
				off = addK(off, x, bi(t.size()))
			case "struct":
				if !x.isNum() {
					panic(undecided{"a field that is not known"})
				}
				k := x.c.Int64()
				off = plus(off, t.field(int(k)))
				t = t.Flds[k]
			default:
				panic(undecided{"an address that is not understood"})
			}
		}
		p.l = s.wrap(add(p.l, off), 64)
		return s.set(f, in, p)
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor":
		e.arith++
		return s.set(f, in, s.binary(in, s.val(in.Args[0]), s.val(in.Args[1])))
	case "icmp":
		return s.compare(f, in)
	case "trunc":
		v := s.val(in.Args[0])
		if v.undef {
			return s.set(f, in, Val{w: bits(in.T), undef: true, l: num(0)})
		}
		return s.set(f, in, number(s.numOf(v, in), bits(in.T)))
	case "zext", "sext":
		v := s.val(in.Args[0])
		if v.undef {
			return s.set(f, in, Val{w: bits(in.T), undef: true, l: num(0)})
		}
		l := s.numOf(v, in)
		if in.Op == "zext" {
			l = s.uval(l, v.w)
		} else {
			l = s.sval(l, v.w)
		}
		return s.set(f, in, number(l, bits(in.T)))
	case "ptrtoint", "inttoptr", "bitcast", "freeze":
		v := s.val(in.Args[0])
		if in.Op == "ptrtoint" && bits(in.T) < 64 {
			l := s.numOf(v, in)
			return s.set(f, in, number(l, bits(in.T)))
		}
		if in.Op == "inttoptr" && v.w < 64 {
			v = number(s.uval(s.numOf(v, in), v.w), 64)
		}
		return s.set(f, in, v)
	case "br":
		if len(in.Lbls) == 1 {
			return s.jump(f, in.Lbls[0])
		}
		v := s.val(in.Args[0])
		l := s.numOf(v, in)
		if !l.isNum() {
			l = s.uval(l, 1)
		}
		if !l.isNum() {
			yes, no := s.cases(l, "==")
			var out []*State
			for _, t := range no {
				out = append(out, t.jump(t.top(), in.Lbls[0])...)
			}
			for _, t := range yes {
				out = append(out, t.jump(t.top(), in.Lbls[1])...)
			}
			return out
		}
		if l.c.Bit(0) == 1 {
			return s.jump(f, in.Lbls[0])
		}
		return s.jump(f, in.Lbls[1])
	case "switch":
		v := s.val(in.Args[0])
		l := s.uval(s.numOf(v, in), v.w)
		rest := []*State{s}
		var out []*State
		for k, c := range in.Cases {
			var left []*State
			cv := new(big.Int).Mod(c, pow2(v.w))
			for _, t := range rest {
				yes, no := t.cases(sub(l, numB(cv)), "==")
				for _, y := range yes {
					out = append(out, y.jump(y.top(), in.Lbls[k+1])...)
				}
				left = append(left, no...)
			}
			rest = left
		}
		for _, t := range rest {
			out = append(out, t.jump(t.top(), in.Lbls[0])...)
		}
		return out
	case "select":
		c := s.val(in.Args[0])
		l := s.uval(s.numOf(c, in), 1)
		if !l.isNum() {
			yes, no := s.cases(l, "==")
			var out []*State
			for _, t := range no {
				out = append(out, t.set(t.top(), in, t.val(in.Args[1]))...)
			}
			for _, t := range yes {
				out = append(out, t.set(t.top(), in, t.val(in.Args[2]))...)
			}
			return out
		}
		if l.c.Bit(0) == 1 {
			return s.set(f, in, s.val(in.Args[1]))
		}
		return s.set(f, in, s.val(in.Args[2]))
	case "ret":
		var v *Val
		if len(in.Args) > 0 {
			x := s.val(in.Args[0])
			v = &x
		}
		for _, o := range f.own {
			delete(s.mem, o.id)
			s.dead[o.id] = true
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			s.ret = v
			return []*State{s}
		}
		g := s.top()
		if f.dest != "" {
			if v == nil {
				panic(undecided{"a result that does not exist"})
			}
			g.regs[f.dest] = *v
		}
		g.i++
		return []*State{s}
	case "asm":
		return s.asm(f, in)
	case "call":
		return s.call(f, in)
	case "unreachable":
		// after a call that does not return; otherwise undefined behaviour
		panic(bad{"memory", "a point that is declared unreachable can be reached"})
	}
	panic(undecided{"an instruction that is not understood"})
}

// compare interprets a comparison; cases are told apart at once.
func (s *State) compare(f *Frame, in *Ins) []*State {
	a, b := s.val(in.Args[0]), s.val(in.Args[1])
	if a.undef || b.undef {
		panic(bad{"memory", "a condition depends on a value that was never stored"})
	}
	res := func(t *State, n int64) []*State { return t.set(t.top(), in, number(num(n), 1)) }
	if a.fn != nil || b.fn != nil {
		eq := a.fn == b.fn && a.obj == b.obj
		switch in.Pred {
		case "eq":
			return res(s, b2i(eq))
		case "ne":
			return res(s, b2i(!eq))
		}
		panic(undecided{"an order of functions"})
	}
	if a.obj != b.obj {
		switch in.Pred {
		case "eq":
			return res(s, 0)
		case "ne":
			return res(s, 1)
		}
		panic(undecided{"an order of the addresses of different objects"})
	}
	var d *Lin
	signed := strings.HasPrefix(in.Pred, "s")
	if a.obj != nil {
		d = s.sval(sub(a.l, b.l), 64)
	} else if signed {
		d = sub(s.sval(a.l, a.w), s.sval(b.l, b.w))
	} else {
		d = sub(s.uval(a.l, a.w), s.uval(b.l, b.w))
		if in.Pred == "eq" || in.Pred == "ne" {
			x := s.wrap(sub(s.again(a.l), s.again(b.l)), a.w)
			if x.isNum() {
				d = x
			}
		}
	}
	op, neg, flip := "", false, false
	switch in.Pred {
	case "eq":
		op = "=="
	case "ne":
		op, neg = "==", true
	case "slt", "ult":
		op = "<"
	case "sle", "ule":
		op = "<="
	case "sgt", "ugt":
		op, flip = "<", true
	case "sge", "uge":
		op, flip = "<=", true
	default:
		panic(undecided{"a comparison that is not understood"})
	}
	if flip {
		d = scale(d, bi(-1))
	}
	yes, no := s.cases(d, op)
	if neg {
		yes, no = no, yes
	}
	var out []*State
	for _, t := range yes {
		out = append(out, res(t, 1)...)
	}
	for _, t := range no {
		out = append(out, res(t, 0)...)
	}
	return out
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (s *State) binary(in *Ins, a, b Val) Val {
	w := bits(in.T)
	if a.undef || b.undef {
		return Val{w: w, undef: true, l: num(0)}
	}
	// addresses
	if a.obj != nil || b.obj != nil {
		switch {
		case in.Op == "add" && b.obj == nil && b.fn == nil:
			a.l = s.wrap(add(a.l, b.l), w)
			return a
		case in.Op == "add" && a.obj == nil && a.fn == nil:
			b.l = s.wrap(add(a.l, b.l), w)
			return b
		case in.Op == "sub" && a.obj == b.obj:
			return number(sub(a.l, b.l), w)
		case in.Op == "sub" && b.obj == nil && b.fn == nil:
			a.l = s.wrap(sub(a.l, b.l), w)
			return a
		}
		panic(undecided{"arithmetic on an address"})
	}
	x, y := s.numOf(a, in), s.numOf(b, in)
	nsw := func(r *Lin, f func(p, q *Lin) *Lin) *Lin {
		if in.Flags["nsw"] && f != nil {
			v := f(s.sval(x, w), s.sval(y, w))
			h := pow2(w - 1)
			iv := s.rng(v)
			if iv.lo.Cmp(new(big.Int).Neg(h)) < 0 || iv.hi.Cmp(h) >= 0 {
				over, _ := s.cases(sub(numB(sub1(h)), v), "<")
				under, _ := s.cases(add(v, numB(h)), "<")
				if len(over)+len(under) > 0 {
					t := append(over, under...)[0]
					if w == 64 && (in.Op == "add" || in.Op == "sub") {
						// the address of an object, or of the end of one, lies below 2^63
						k := s.wrap(s.again(r), w)
						if !s.e.touched[k.key()] && !s.e.touched[s.wrap(plus(k, -1), w).key()] {
							s.e.doubt[k.key()] = Finding{"overflow", s.where(in), "signed arithmetic may overflow" + t.example()}
						}
						return r
					}
					s.e.report("overflow", s.where(in), "signed arithmetic may overflow%s", t.example())
				}
			}
		}
		return r
	}
	konst := func(l *Lin) (*big.Int, bool) {
		if !l.isNum() {
			return nil, false
		}
		return new(big.Int).Mod(l.c, pow2(w)), true
	}
	opaque := func() Val {
		k := fmt.Sprintf("[%s %s %s]%d", x.key(), in.Op, y.key(), w)
		return number(s.e.word(k, w), w)
	}
	switch in.Op {
	case "add":
		return number(nsw(add(x, y), add), w)
	case "sub":
		return number(nsw(sub(x, y), sub), w)
	case "mul":
		if k, ok := konst(y); ok {
			return number(nsw(scale(x, symm(k, pow2(w))), func(p, q *Lin) *Lin { return scale(p, symm(k, pow2(w))) }), w)
		}
		if k, ok := konst(x); ok {
			return number(nsw(scale(y, symm(k, pow2(w))), func(p, q *Lin) *Lin { return scale(q, symm(k, pow2(w))) }), w)
		}
		return opaque()
	case "shl":
		k, ok := konst(y)
		if !ok {
			s.small(y, w)
			return opaque()
		}
		if k.Cmp(bi(int64(w))) >= 0 {
			panic(bad{"overflow", "a shift by more than the width"})
		}
		return number(nsw(scale(x, pow2(int(k.Int64()))), nil), w)
	case "lshr", "ashr":
		k, ok := konst(y)
		if !ok {
			s.small(y, w)
			return opaque()
		}
		if k.Cmp(bi(int64(w))) >= 0 {
			panic(bad{"overflow", "a shift by more than the width"})
		}
		v := s.uval(x, w)
		if in.Op == "ashr" {
			v = s.sval(x, w)
		}
		return number(s.fdiv(v, pow2(int(k.Int64()))), w)
	case "udiv", "urem":
		k, ok := konst(y)
		if !ok {
			return opaque()
		}
		if k.Sign() == 0 {
			panic(bad{"overflow", "a division by zero"})
		}
		v := s.uval(x, w)
		if in.Op == "udiv" {
			return number(s.fdiv(v, k), w)
		}
		return number(s.fmod(v, k), w)
	case "sdiv", "srem":
		k, ok := konst(y)
		if !ok {
			return opaque()
		}
		k = symm(k, pow2(w))
		if k.Sign() == 0 {
			panic(bad{"overflow", "a division by zero"})
		}
		v := s.sval(x, w)
		sg := 1
		if k.Sign() < 0 {
			k = new(big.Int).Neg(k)
			sg = -1
		}
		var q *Lin
		if s.needSign(v) >= 0 {
			q = s.fdiv(v, k)
		} else {
			q = scale(s.fdiv(scale(v, bi(-1)), k), bi(-1))
			sg2 := s.fmod(scale(v, bi(-1)), k)
			if in.Op == "srem" {
				return number(scale(sg2, bi(-1)), w)
			}
		}
		if in.Op == "srem" {
			return number(s.fmod(v, k), w)
		}
		return number(scale(q, bi(int64(sg))), w)
	case "and":
		k, ok := konst(y)
		if !ok {
			k, ok = konst(x)
			x = y
		}
		if !ok {
			if x.same(y) {
				return number(x, w)
			}
			return opaque()
		}
		return number(s.mask(s.uval(x, w), k, w), w)
	case "or", "xor":
		if in.Op == "xor" {
			m := sub1(pow2(w))
			if k, ok := konst(y); ok && k.Cmp(m) == 0 {
				return number(sub(num(-1), x), w)
			}
			if k, ok := konst(x); ok && k.Cmp(m) == 0 {
				return number(sub(num(-1), y), w)
			}
		}
		u, v := s.uval(x, w), s.uval(y, w)
		if s.disjoint(u, v) {
			return number(add(u, v), w)
		}
		if k, ok := konst(y); ok && in.Op == "or" {
			// the bits of the constant replace those of the other
			return number(add(s.mask(u, new(big.Int).Xor(sub1(pow2(w)), k), w), numB(k)), w)
		}
		if k, ok := konst(y); ok && in.Op == "xor" {
			clear := s.mask(u, new(big.Int).Xor(sub1(pow2(w)), k), w)
			set := s.mask(u, k, w)
			return number(add(clear, sub(numB(k), set)), w)
		}
		return opaque()
	}
	panic(undecided{"an operation that is not understood"})
}

// mask keeps some bits of an exact non-negative number.
func (s *State) mask(u *Lin, k *big.Int, w int) *Lin {
	r := num(0)
	for i := 0; i < w; {
		if k.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < w && k.Bit(j) == 1 {
			j++
		}
		f := s.fdiv(u, pow2(i))
		if j < w || true {
			f = s.fmod(f, pow2(j-i))
		}
		r = addK(r, f, pow2(i))
		i = j
	}
	return r
}

// disjoint says whether two exact non-negative numbers have no bits in common.
func (s *State) disjoint(u, v *Lin) bool {
	for k := 0; k < 2; k++ {
		r := s.rng(u)
		if r.lo.Sign() >= 0 {
			n := r.hi.BitLen()
			g := pow2(n)
			ok := new(big.Int).Mod(v.c, g).Sign() == 0
			for _, m := range v.t {
				ok = ok && new(big.Int).Mod(m.k, g).Sign() == 0
			}
			if ok {
				return true
			}
			// a constant with zero bits where the other may have ones
			if v.isNum() && new(big.Int).And(v.c, sub1(g)).Sign() == 0 {
				return true
			}
		}
		u, v = v, u
	}
	return false
}

// small splits a number that has few values into its values.
func (s *State) small(l *Lin, w int) {
	u := s.uval(l, w)
	r := s.rng(u)
	d := new(big.Int).Sub(r.hi, r.lo)
	if d.Sign() > 0 && d.Cmp(bi(130)) <= 0 {
		mid := new(big.Int).Rsh(new(big.Int).Add(add1(r.hi), r.lo), 1)
		s.splitOn(u, mid)
	}
}

// example describes a state.
func (s *State) example() string {
	var r []string
	var ks []string
	for k := range s.cons {
		if a := s.e.atoms[k]; a != nil && a.kind == 's' {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := s.cons[k]
		if len(r) >= 4 {
			break
		}
		if c.lo.Cmp(c.hi) == 0 {
			r = append(r, k+" = "+c.lo.String())
		} else {
			r = append(r, fmt.Sprintf("%s from %s to %s", k, c.lo, c.hi))
		}
	}
	if len(r) == 0 {
		return ""
	}
	return " when " + strings.Join(r, ", ")
}

// offset finds the offset of an access inside of an object.
func (s *State) offset(p Val, n int64, what string) int64 {
	l := s.sval(p.l, 64)
	if !l.isNum() {
		r := s.rng(l)
		if new(big.Int).Sub(r.hi, r.lo).Cmp(bi(300)) > 0 {
			panic(bad{"memory", fmt.Sprintf("%s %s at an offset that may lie outside of it: %s", what, p.obj.name, l)})
		}
		mid := new(big.Int).Rsh(new(big.Int).Add(add1(r.hi), r.lo), 1)
		s.splitOn(l, mid)
	}
	o := l.c.Int64()
	if !l.c.IsInt64() || p.obj.size >= 0 && (o < 0 || o+n > p.obj.size) {
		panic(bad{"memory", fmt.Sprintf("%s %s outside of its %d bytes (%d at offset %s)%s", what, p.obj.name, p.obj.size, n, l.c, s.example())})
	}
	if s.dead[p.obj.id] {
		panic(bad{"memory", fmt.Sprintf("%s %s that does not exist any more", what, p.obj.name)})
	}
	return o
}

func (s *State) byteOf(v Val, i int64) Val {
	if v.undef {
		return Val{w: 8, undef: true, l: num(0)}
	}
	if v.obj != nil || v.fn != nil {
		panic(undecided{"a part of an address"})
	}
	return number(s.wrap(s.fdiv(s.uval(v.l, v.w), pow2(int(8*i))), 8), 8)
}

func (s *State) cells(o *Obj) map[int64]cell {
	if m, ok := s.mem[o.id]; ok {
		return m
	}
	m := map[int64]cell{}
	for k, v := range s.e.inits[o.id] {
		m[k] = v
	}
	s.mem[o.id] = m
	return m
}

func (s *State) load(p Val, n int64, w int, in *Ins) Val {
	s.e.access++
	if p.undef {
		panic(bad{"memory", "a load from an address that was never stored"})
	}
	if p.fn != nil {
		panic(bad{"memory", "a load from a function"})
	}
	if p.obj == nil {
		addr := s.wrap(s.again(p.l), 64)
		s.e.touched[addr.key()] = true
		ev := &Event{kind: "load", args: []Val{number(addr, 64), number(num(n), 64)}, ins: in, fn: s.top().fn.Name}
		s.loads = append(s.loads, ev)
		if addr.isNum() {
			panic(bad{"memory", "a load from a fixed address"})
		}
		if s.e.onLoad != nil {
			s.e.onLoad(s, addr, in)
		}
		if n == 1 {
			return number(s.e.byteAt(addr, s.ver), w)
		}
		l := num(0)
		for i := int64(0); i < n && n <= 8; i++ {
			l = addK(l, s.e.byteAt(s.wrap(plus(addr, i), 64), s.ver), pow2(int(8*i)))
		}
		return number(l, w)
	}
	if p.obj.kind == "args" {
		return s.loadArg(p, n, w)
	}
	if p.obj.kind == "const" {
		if v, ok := s.table(p, n, w); ok {
			return v
		}
	}
	off := s.offset(p, n, "a load from")
	m := s.cells(p.obj)
	if c, ok := m[off]; ok && c.n == n {
		v := c.v
		v.w = w
		return v
	}
	if p.obj.kind == "global" && n == 8 && off%8 == 0 {
		whole := true
		for k, c := range m {
			whole = whole && (k+c.n <= off || k >= off+8)
		}
		if whole {
			return number(s.globalWord(p.obj, off), 64)
		}
	}
	var parts []Val
	undef := false
	for i := int64(0); i < n; i++ {
		v := s.cellByte(p.obj, m, off+i)
		undef = undef || v.undef
		parts = append(parts, v)
	}
	if undef {
		return Val{w: w, undef: true, l: num(0)}
	}
	l := num(0)
	for i, v := range parts {
		l = addK(l, s.uval(v.l, 8), pow2(8*i))
	}
	return number(s.wrap(l, w), w)
}

func (s *State) cellByte(o *Obj, m map[int64]cell, off int64) Val {
	for d := int64(0); d < 16; d++ {
		if c, ok := m[off-d]; ok && d < c.n {
			return s.byteOf(c.v, d)
		}
	}
	switch o.kind {
	case "global":
		// the value a variable has at the start is not known
		w := s.globalWord(o, off)
		return s.byteOf(number(w, 64), off%8)
	case "const":
		return number(num(0), 8)
	}
	return Val{w: 8, undef: true, l: num(0)}
}

// fout is the selected output: a small number.
func (e *Eng) fout() *Lin { return e.sym("b.fout[0]", zero, pow2(30)) }

func (s *State) globalWord(o *Obj, off int64) *Lin {
	if o.name == "b.fout" && off/8 == 0 {
		return s.e.fout()
	}
	return s.e.word(fmt.Sprintf("%s[%d]", o.name, off/8*8), 64)
}

func (e *Eng) byteAt(addr *Lin, ver int) *Lin {
	k := fmt.Sprintf("m[%s]", addr.key())
	if ver > 0 {
		k += "." + strconv.Itoa(ver)
	}
	l := e.word(k, 8)
	e.lib.addrs[k] = addr
	return l
}

func (s *State) loadArg(p Val, n int64, w int) Val {
	l := s.sval(p.l, 64)
	o := p.obj
	if l.isNum() {
		k := l.c.Int64()
		if k < 0 {
			panic(bad{"memory", "an argument before the first is read"})
		}
		i := k / 8
		if k%8+n > 8 {
			panic(bad{"memory", "an argument is read that is not a word"})
		}
		var v Val
		if o.entry {
			v = number(s.e.argument(i+int64(len(o.args))), 64)
		} else if i < int64(len(o.args)) {
			v = o.args[i]
		} else {
			panic(bad{"memory", "an argument is read that was not given"})
		}
		if v.undef || n == 8 && v.w == 64 && w == 64 {
			return v
		}
		if v.w < int(n)*8 {
			panic(bad{"memory", "an argument is read as wider than it was given"})
		}
		x := s.fdiv(s.uval(s.numOf(v, nil), v.w), pow2(int(8*(k%8))))
		return number(s.wrap(x, w), w)
	}
	if !o.entry {
		panic(undecided{"an argument is chosen by a number that is not known"})
	}
	// argument number (l / 8) of the analysed function
	i := s.fdiv(l, bi(8))
	if !scale(i, bi(8)).same(l) || n != 8 {
		panic(undecided{"a part of an argument that is not known"})
	}
	i = plus(i, int64(len(o.args)))
	return number(s.e.word("arg["+i.key()+"]", 64), w)
}

// table is a load from a constant array whose elements go up evenly.
func (s *State) table(p Val, n int64, w int) (Val, bool) {
	l := s.sval(p.l, 64)
	if l.isNum() || n != 1 {
		return Val{}, false
	}
	r := s.rng(l)
	if r.lo.Sign() < 0 || r.hi.Cmp(bi(p.obj.size-1)) > 0 {
		panic(bad{"memory", fmt.Sprintf("a load from %s that may lie outside of it: offset %s", p.obj.name, l)})
	}
	lo, hi := r.lo.Int64(), r.hi.Int64()
	if hi-lo > 300 || hi == lo {
		return Val{}, false
	}
	m := s.cells(p.obj)
	at := func(i int64) (int64, bool) {
		v := s.cellByte(p.obj, m, i)
		if v.undef || !v.l.isNum() {
			return 0, false
		}
		return new(big.Int).Mod(v.l.c, bi(256)).Int64(), true
	}
	a, ok := at(lo)
	b, ok2 := at(lo + 1)
	if !ok || !ok2 {
		return Val{}, false
	}
	for i := lo; i <= hi; i++ {
		if x, ok := at(i); !ok || x != a+(i-lo)*(b-a) {
			return Val{}, false
		}
	}
	v := plus(scale(plus(l, -lo), bi(b-a)), a)
	return number(s.wrap(v, w), w), true
}

func (s *State) store(p Val, n int64, v Val, in *Ins) {
	s.e.access++
	if p.undef {
		panic(bad{"memory", "a store to an address that was never stored"})
	}
	if p.fn != nil {
		panic(bad{"memory", "a store to a function"})
	}
	if p.obj == nil {
		if p.l.isNum() {
			panic(bad{"memory", "a store to a fixed address"})
		}
		if v.undef {
			panic(bad{"memory", "a value is stored that was never computed"})
		}
		s.e.touched[s.wrap(s.again(p.l), 64).key()] = true
		s.ev = append(s.ev, &Event{kind: "store", args: []Val{number(s.wrap(p.l, 64), 64), number(num(n), 64), v}, ins: in, fn: s.top().fn.Name})
		s.ver++
		return
	}
	if p.obj.kind == "const" {
		panic(bad{"memory", "a store to the constant " + p.obj.name})
	}
	if p.obj.kind == "args" {
		panic(undecided{"a store to an argument"})
	}
	off := s.offset(p, n, "a store to")
	if p.obj.kind == "global" && !s.e.private(p.obj) {
		s.ev = append(s.ev, &Event{kind: "global", args: []Val{v}, ins: in, fn: p.obj.name})
	}
	s.put(p.obj, off, n, v)
}

func (e *Eng) private(o *Obj) bool {
	for k, v := range e.globs {
		if v == o {
			return strings.Contains(k, ":")
		}
	}
	return false
}

func (s *State) put(o *Obj, off, n int64, v Val) {
	m := s.cells(o)
	// what is overwritten in part
	var ks []int64
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	type wr struct {
		off int64
		c   cell
	}
	var add []wr
	for _, k := range ks {
		c := m[k]
		if k+c.n <= off || k >= off+n {
			continue
		}
		if k >= off && k+c.n <= off+n {
			continue
		}
		for i := int64(0); i < c.n; i++ {
			if k+i < off || k+i >= off+n {
				add = append(add, wr{k + i, cell{1, s.byteOf(c.v, i)}})
			}
		}
	}
	for _, k := range ks {
		if c := m[k]; k+c.n > off && k < off+n {
			delete(m, k)
		}
	}
	for _, a := range add {
		m[a.off] = a.c
	}
	m[off] = cell{n, v}
}

// asm interprets a system call.
func (s *State) asm(f *Frame, in *Ins) []*State {
	st, err := stub(s.e.lib.Target, in)
	if err != "" {
		panic(undecided{"a piece of machine code that is not a system call: " + err})
	}
	arg := func(i int) Val {
		if i < 0 {
			return Val{w: 64, undef: true, l: num(0)}
		}
		v := s.val(in.Args[1+i])
		if !v.undef && v.obj == nil && v.fn == nil && v.w < 64 {
			panic(undecided{"a system call with a narrow argument"})
		}
		return v
	}
	nrv := arg(st.nr)
	args := []Val{arg(st.args[0]), arg(st.args[1]), arg(st.args[2])}
	return s.system(f, in, nrv, args)
}

func (s *State) system(f *Frame, in *Ins, nrv Val, args []Val) []*State {
	e := s.e
	ev := &Event{kind: "sys", args: args, ins: in, fn: f.fn.Name, nr: -1}
	for i := len(s.frames) - 1; i > 0; i-- {
		// the place of a system call is that in the function that asks for it
		if s.frames[i].fn.Internal {
			if ci := s.frames[i-1].blk.Ins[s.frames[i-1].i]; ci != nil {
				ev.ins, ev.fn = ci, s.frames[i-1].fn.Name
				continue
			}
		}
		break
	}
	if nrv.undef {
		panic(bad{"output", "a system call without number"})
	}
	nr := s.uval(s.numOf(nrv, in), 64)
	if nr.isNum() {
		ev.nr = nr.c.Int64()
	} else {
		ev.args = append([]Val{nrv}, ev.args...)
		ev.kind = "stub"
	}
	res := e.word(fmt.Sprintf("result%d", s.sys), 64)
	s.sys++
	ev.res = res
	if ev.kind == "sys" && (ev.nr == e.sysnr["read"] || ev.nr == e.sysnr["write"]) {
		p, c := args[1], args[2]
		if c.undef || p.undef || args[0].undef {
			panic(bad{"memory", "a system call with an argument that was never stored"})
		}
		if p.obj != nil {
			n := s.sval(s.numOf(c, in), 64)
			if !n.isNum() {
				r := s.rng(n)
				if new(big.Int).Sub(r.hi, r.lo).Cmp(bi(300)) <= 0 {
					s.splitOn(n, new(big.Int).Rsh(new(big.Int).Add(add1(r.hi), r.lo), 1))
				}
				panic(bad{"memory", "a system call with a count that may exceed " + p.obj.name})
			}
			cnt := n.c.Int64()
			if cnt < 0 {
				panic(bad{"memory", "a system call with a negative count"})
			}
			if cnt > 0 {
				off := s.offset(p, cnt, "a system call with")
				ev.local = true
				if ev.nr == e.sysnr["write"] {
					m := s.cells(p.obj)
					for i := int64(0); i < cnt; i++ {
						b := s.cellByte(p.obj, m, off+i)
						if b.undef {
							panic(bad{"memory", "a byte is written that was never stored"})
						}
						ev.bytes = append(ev.bytes, b)
					}
				} else {
					if p.obj.kind == "const" {
						panic(bad{"memory", "a system call that stores to the constant " + p.obj.name})
					}
					for i := int64(0); i < cnt; i++ {
						b := number(e.word(fmt.Sprintf("input%d.%d", s.sys, i), 8), 8)
						ev.bytes = append(ev.bytes, b)
						s.put(p.obj, off+i, 1, b)
					}
				}
			} else {
				ev.local = true
			}
		} else if ev.nr == e.sysnr["read"] {
			s.ver++
		}
	} else {
		s.ver++
	}
	s.ev = append(s.ev, ev)
	if ev.kind == "sys" && (ev.nr == e.sysnr["exit"] || ev.nr == e.sysnr["exit_group"]) {
		s.exited = true
		return []*State{s}
	}
	return s.set(f, in, number(res, 64))
}

func (s *State) call(f *Frame, in *Ins) []*State {
	c := s.val(in.Args[0])
	if c.fn == nil {
		panic(undecided{"a call of an unknown function"})
	}
	if in.Flags["strange"] {
		f.i++
		return []*State{s}
	}
	name := c.fn.Name
	var args []Val
	for _, a := range in.Args[1:] {
		args = append(args, s.val(a))
	}
	switch {
	case name == "__vva_args":
		return s.set(f, in, Val{w: 64, l: num(0), obj: f.args})
	case strings.HasPrefix(name, "llvm.lifetime"), strings.HasPrefix(name, "llvm.stackrestore"), strings.HasPrefix(name, "llvm.dbg"), strings.HasPrefix(name, "llvm.assume"):
		f.i++
		return []*State{s}
	case strings.HasPrefix(name, "llvm.stacksave"):
		return s.set(f, in, number(num(0), 64))
	case strings.HasPrefix(name, "llvm.expect"):
		return s.set(f, in, args[0])
	case strings.HasPrefix(name, "llvm.memset"), strings.HasPrefix(name, "llvm.memcpy"), strings.HasPrefix(name, "llvm.memmove"):
		n := s.uval(s.numOf(args[2], in), args[2].w)
		if !n.isNum() {
			s.small(n, 64)
			panic(undecided{"a block of memory of unknown size"})
		}
		cnt := n.c.Int64()
		if cnt > 4096 {
			panic(undecided{"a large block of memory"})
		}
		var bs []Val
		for i := int64(0); i < cnt; i++ {
			if strings.HasPrefix(name, "llvm.memset") {
				bs = append(bs, args[1])
				continue
			}
			p := args[1]
			p.l = plus(p.l, i)
			bs = append(bs, s.load(p, 1, 8, in))
		}
		for i, b := range bs {
			p := args[0]
			p.l = plus(p.l, int64(i))
			s.store(p, 1, b, in)
		}
		f.i++
		return []*State{s}
	case strings.HasPrefix(name, "llvm.ctlz"):
		w := args[0].w
		u := s.uval(s.numOf(args[0], in), w)
		r := s.rng(u)
		if r.lo.BitLen() != r.hi.BitLen() {
			s.splitOn(u, pow2(r.hi.BitLen()-1))
		}
		if r.hi.Sign() == 0 && s.uval(args[1].l, 1).c.Sign() != 0 {
			panic(bad{"overflow", "the leading zeros of zero are counted"})
		}
		return s.set(f, in, number(num(int64(w-r.lo.BitLen())), w))
	case strings.HasPrefix(name, "llvm.abs"), strings.HasPrefix(name, "llvm.smax"), strings.HasPrefix(name, "llvm.smin"), strings.HasPrefix(name, "llvm.umax"), strings.HasPrefix(name, "llvm.umin"):
		panic(undecided{"an operation that is not understood"})
	case strings.HasPrefix(name, "llvm.bswap"):
		w := args[0].w
		l := num(0)
		for i := 0; i < w/8; i++ {
			b := s.byteOf(args[0], int64(i))
			l = addK(l, s.uval(b.l, 8), pow2(w-8-8*i))
		}
		return s.set(f, in, number(l, w))
	}
	fn := s.e.lib.resolve(f.fn.Mod, name)
	if fn == nil {
		// defined elsewhere
		res := s.e.word(fmt.Sprintf("%s()%d", name, s.sys), 64)
		s.sys++
		s.ver++
		s.ev = append(s.ev, &Event{kind: "call", args: args, res: res, ins: in, fn: name})
		if in.Res == "" {
			f.i++
			return []*State{s}
		}
		w := bits(in.T)
		return s.set(f, in, number(res, w))
	}
	if len(s.frames) > 80 {
		panic(undecided{"a recursion that is not bounded"})
	}
	if len(fn.Blocks) == 0 || len(fn.Blocks[0].Ins) == 0 {
		panic(undecided{"a function without body"})
	}
	if fn.Ret.Kind != "void" && in.Res != "" && bits(fn.Ret) != bits(in.T) {
		panic(undecided{"a result of another type"})
	}
	s.enter(fn, args, in.Res, false, f.where+"/"+fmt.Sprintf("%s:%s:%d", f.fn.Name, f.blk.Name, f.i))
	return []*State{s}
}
