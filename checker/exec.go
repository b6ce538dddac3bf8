package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Out struct {
	st   *State
	kind string // ret, panic, exit
	res  []Val
	pos  token.Pos
}

type CutFn func(e *Eng, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out

type Eng struct {
	prog     *ssa.Program
	pkg      *ssa.Package
	fset     *token.FileSet
	cuts     map[*ssa.Function]CutFn
	cutBy    func(*ssa.Function) CutFn
	stack    []*ssa.Function
	root     *ssa.Function
	paths    int
	limit    int
	loops    []*LoopInfo
	globals  map[*ssa.Global]Val // initial contents of repository globals
	covered  map[*ssa.Function]bool
	coverBl  map[*ssa.BasicBlock]bool
	loopTab  map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
	facts    *Facts
	ctors    bool
	steps    int
	extCalls map[string]int

	lex, comp   *Ptr // the lexer and the compiler object of the analysed context
	lexT, compT types.Type
	blockT      types.Type
	mods        map[*ssa.Function]map[string]bool
	onCut       func(st *State, fn *ssa.Function, args []Val, key string)
	opt         *Ptr
	prg         *Prog
	fieldEvs    bool // stores into the compiler object are events
	wordOf      func(st *State, p *Ptr, sub Sub) Val
	mutableG    map[*ssa.Global]bool
	endsWS      map[string]bool    // analysed functions that return with whitespace skipped
	ops         map[string]*opStat // operations that may fail at run time
	wide        map[string]bool    // functions that encode characters above 127
}

// opStat counts how often an operation that may fail was met, and whether it was safe.
type opStat struct {
	kind    string
	n, open int
}

func (e *Eng) op(kind string, pos token.Pos, fn *ssa.Function, safe bool) {
	if e.ops == nil {
		e.ops = map[string]*opStat{}
	}
	k := kind + " at " + e.pos(pos)
	if !pos.IsValid() && fn != nil {
		k = kind + " in " + fn.Name()
	}
	o := e.ops[k]
	if o == nil {
		o = &opStat{kind: kind}
		e.ops[k] = o
	}
	o.n++
	if !safe {
		o.open++
	}
}

// sure tells whether a condition holds in a state.
func (e *Eng) sure(st *State, c Val) bool {
	if b, ok := constBool(c); ok {
		return b
	}
	for _, o := range e.branch(st.clone(), c) {
		if !o.val {
			return false
		}
	}
	return true
}

// within tells whether an index lies in a list, lim more allowed at the end.
func (e *Eng) within(st *State, x, idx Val, incl bool) bool {
	t := st.clone()
	var n Val
	if _, isBuf := x.(*Ptr); isBuf {
		return false
	}
	n = e.length(t, x)
	if !e.sure(t, e.binop(t, token.GEQ, idx, mkInt(0, tInt), tInt)) {
		return false
	}
	return e.sure(t, e.binop(t, token.LSS, idx, n, tInt)) || e.atMost(t, e.binop(t, token.ADD, idx, mkInt(int64(1-b2i(incl)), tInt), tInt), n)
}

// atMost tells whether a <= b holds.
func (e *Eng) atMost(st *State, a, b Val) bool {
	less := e.binop(st, token.SUB, a, mkInt(1, tInt), tInt)
	return e.sure(st, e.binop(st, token.LEQ, a, b, tInt)) || e.sure(st, e.binop(st, token.LSS, less, b, tInt)) || e.sure(st, e.binop(st, token.LSS, a, b, tInt))
}

type deferred struct {
	fn    Val
	call  *ssa.CallCommon
	args  []Val
	isInv bool
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	binds  []Val
	defers []deferred
}

func (f *Frame) clone() *Frame {
	n := &Frame{fn: f.fn, env: cpm(f.env), binds: f.binds, defers: append([]deferred(nil), f.defers...)}
	return n
}

type item struct {
	fr        *Frame
	st        *State
	blk, prev *ssa.BasicBlock
	first     bool // at the head of the loop being run
	pc        int  // resume inside the block (after a call)
}

type flow struct {
	kind string // ret panic exit back leave
	item
	res []Val
	pos token.Pos
}

type tooMany struct{ why string }

func (e *Eng) undecided(st *State, format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, u := range st.undec {
		if u == s {
			return
		}
	}
	st.undec = append(st.undec, s)
}

// call analyses a call to a function with known body.
func (e *Eng) call(fn *ssa.Function, args []Val, binds []Val, st *State, pos token.Pos) []Out {
	if c := e.cuts[fn]; c != nil {
		return c(e, st, fn, args, pos)
	}
	for _, f := range e.stack {
		if f == fn {
			return e.cutGeneric(st, fn, args, pos)
		}
	}
	if len(e.stack) > 60 {
		panic(tooMany{"call depth in " + fn.String()})
	}
	return e.body(fn, args, binds, st)
}

func (e *Eng) body(fn *ssa.Function, args []Val, binds []Val, st *State) []Out {
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			return e.external(st, fn, args, token.NoPos)
		}
	}
	e.covered[fn] = true
	e.prg.covered[fn] = true
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, binds: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = e.symValue(st, p.Name(), p.Type())
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			fr.env[f] = binds[i]
		}
	}
	flows := e.run([]item{{fr: fr, st: st, blk: fn.Blocks[0]}}, nil)
	var outs []Out
	for _, f := range flows {
		outs = append(outs, Out{f.st, f.kind, f.res, f.pos})
	}
	return outs
}

func (e *Eng) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := e.loopTab[fn]; ok {
		return l
	}
	l := natLoops(fn)
	e.loopTab[fn] = l
	return l
}

// run explores from the given items until they return or leave the current loop.
func (e *Eng) run(work []item, cur *natLoop) (flows []flow) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.pc == 0 {
			if cur != nil && it.blk == cur.head && !it.first {
				flows = append(flows, flow{kind: "back", item: it})
				continue
			}
			if cur != nil && !cur.blocks[it.blk] {
				flows = append(flows, flow{kind: "leave", item: it})
				continue
			}
			if l := e.loopsOf(it.fr.fn)[it.blk]; l != nil && !(cur != nil && it.blk == cur.head) {
				for _, f := range e.loop(it, l) {
					switch f.kind {
					case "leave":
						work = append(work, f.item)
					default:
						flows = append(flows, f)
					}
				}
				continue
			}
			if !it.first {
				e.phis(it)
			}
		}
		nw, fl := e.block(it)
		work = append(work, nw...)
		flows = append(flows, fl...)
		if len(flows)+len(work) > e.limit {
			panic(tooMany{"paths in " + it.fr.fn.String()})
		}
	}
	return
}

func (e *Eng) phis(it item) {
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range it.blk.Preds {
			if pr == it.prev {
				vals = append(vals, e.val(it.fr, it.st, p.Edges[i]))
				ps = append(ps, p)
				break
			}
		}
	}
	for i, p := range ps {
		it.fr.env[p] = vals[i]
	}
}

// block interprets one basic block from it.pc.
func (e *Eng) block(it item) (work []item, flows []flow) {
	fr, st, blk := it.fr, it.st, it.blk
	e.coverBl[blk] = true
	for pc := it.pc; pc < len(blk.Instrs); pc++ {
		e.steps++
		if e.steps > 3000000 {
			panic(tooMany{"analysis steps"})
		}
		switch in := blk.Instrs[pc].(type) {
		case *ssa.Phi:
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			c := e.val(fr, st, in.Cond)
			bs := e.branch(st, c)
			for i, b := range bs {
				f := fr
				if i < len(bs)-1 {
					f = fr.clone()
				}
				t := blk.Succs[1]
				if b.val {
					t = blk.Succs[0]
				}
				work = append(work, item{fr: f, st: b.st, blk: t, prev: blk})
			}
			return
		case *ssa.Jump:
			work = append(work, item{fr: fr, st: st, blk: blk.Succs[0], prev: blk})
			return
		case *ssa.Return:
			var res []Val
			for _, r := range in.Results {
				res = append(res, e.val(fr, st, r))
			}
			flows = append(flows, flow{kind: "ret", item: item{fr: fr, st: st, blk: blk}, res: res, pos: in.Pos()})
			return
		case *ssa.Panic:
			flows = append(flows, flow{kind: "panic", item: item{fr: fr, st: st, blk: blk}, pos: in.Pos()})
			return
		case *ssa.RunDefers:
			outs := []Out{{st: st, kind: "ret"}}
			for i := len(fr.defers) - 1; i >= 0; i-- {
				var no []Out
				for _, o := range outs {
					if o.kind != "ret" {
						no = append(no, o)
						continue
					}
					no = append(no, e.invoke(o.st, fr.defers[i].fn, fr.defers[i].call, fr.defers[i].args, in.Pos())...)
				}
				outs = no
			}
			fr.defers = nil
			w, f := e.resume(outs, fr, blk, pc, nil)
			return w, append(flows, f...)
		case *ssa.Defer:
			fn, args := e.callee(fr, st, &in.Call)
			fr.defers = append(fr.defers, deferred{fn: fn, call: &in.Call, args: args})
			continue
		case *ssa.Go:
			e.undecided(st, "goroutine started at %s", e.pos(in.Pos()))
			continue
		case *ssa.Call:
			fn, args := e.callee(fr, st, &in.Call)
			outs := e.invoke(st, fn, &in.Call, args, in.Pos())
			w, f := e.resume(outs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Lookup:
			vs := e.lookup(st, fr, in)
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.TypeAssert:
			vs := e.typeAssert(st, fr, in)
			if !in.CommaOk {
				e.op("type assertion", in.Pos(), fr.fn, len(vs) == 1 && vs[0].kind == "ret")
			}
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Next:
			vs := e.next(st, fr, in)
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.IndexAddr:
			e.indexOp(st, fr, e.val(fr, st, in.X), e.val(fr, st, in.Index), in.Pos())
			vs := e.indexAddr(st, e.val(fr, st, in.X), e.val(fr, st, in.Index), in.Type(), in.Pos())
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Index:
			e.indexOp(st, fr, e.val(fr, st, in.X), e.val(fr, st, in.Index), in.Pos())
			vs := e.index(st, e.val(fr, st, in.X), e.val(fr, st, in.Index), in.Type())
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Convert:
			vs := e.convert(st, e.val(fr, st, in.X), in.Type())
			if len(vs) == 1 && vs[0].kind == "ret" && vs[0].st == st {
				fr.env[in] = vs[0].res[0]
				continue
			}
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Slice:
			e.sliceOp(st, fr, in)
			vs := e.slice(st, fr, in)
			if len(vs) == 1 && vs[0].kind == "ret" && vs[0].st == st {
				fr.env[in] = vs[0].res[0]
				continue
			}
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		case *ssa.Range:
			vs := e.rng(st, fr, in)
			w, f := e.resume(vs, fr, blk, pc, in)
			return w, append(flows, f...)
		default:
			e.memOp(st, fr, in)
			if v, ok := in.(ssa.Value); ok {
				fr.env[v] = e.simple(fr, st, v)
			} else {
				e.effect(fr, st, in)
			}
		}
	}
	return
}

// resume continues after an instruction with several possible outcomes.
func (e *Eng) resume(outs []Out, fr *Frame, blk *ssa.BasicBlock, pc int, def ssa.Value) (work []item, flows []flow) {
	for i, o := range outs {
		f := fr
		if i < len(outs)-1 {
			f = fr.clone()
		}
		if o.kind != "ret" {
			flows = append(flows, flow{kind: o.kind, item: item{fr: f, st: o.st, blk: blk}, res: o.res, pos: o.pos})
			continue
		}
		if def != nil {
			switch len(o.res) {
			case 0:
			case 1:
				f.env[def] = o.res[0]
			default:
				f.env[def] = &Tuple{o.res}
			}
		}
		it := item{fr: f, st: o.st, blk: blk, pc: pc + 1}
		w, fl := e.block(it)
		work = append(work, w...)
		flows = append(flows, fl...)
	}
	return
}

func (e *Eng) pos(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	x := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", x.Filename, x.Line)
}

// val evaluates an SSA operand.
func (e *Eng) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		if isIntT(x.Type()) {
			return &Const{constant.ToInt(x.Value), x.Type()}
		}
		return &Const{x.Value, x.Type()}
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Builtin:
		return mk("builtin:"+x.Name(), nil)
	case *ssa.Global:
		return e.globalPtr(st, x)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	r := e.symValue(st, v.Name(), v.Type())
	e.undecided(st, "value %s of %s not tracked", v.Name(), fr.fn)
	return r
}

func (e *Eng) globalPtr(st *State, g *ssa.Global) Val {
	if g.Pkg != e.pkg {
		return mk("glob&:"+g.Pkg.Pkg.Path()+"."+g.Name(), g.Type())
	}
	k := "global:" + g.Name()
	if id, ok := st.symobj[k]; ok {
		return &Ptr{Obj: id}
	}
	t := under(g.Type()).(*types.Pointer).Elem()
	o := st.newObj(t, nil, g.Name())
	o.Fresh = false
	st.symobj[k] = o.ID
	if e.mutableG[g] {
		o.V = nil
	} else if f := e.globals[g]; f != nil {
		o.V = e.importVal(st, f)
	} else {
		o.V = e.zero(t)
	}
	return &Ptr{Obj: o.ID}
}

// zero is the zero value of a type.
func (e *Eng) zero(t types.Type) Val {
	if v, ok := zeroScalar(t); ok {
		return v
	}
	switch u := under(t).(type) {
	case *types.Struct:
		s := &StructVal{T: t, F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		l := &ListVal{Elem: u.Elem()}
		if u.Len() > 4096 {
			return mk("zero", t)
		}
		for i := int64(0); i < u.Len(); i++ {
			l.Items = append(l.Items, e.zero(u.Elem()))
		}
		return l
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 {
			return &Const{constant.MakeFloat64(0), t}
		}
		return mkNil(t)
	case *types.Tuple:
		var r []Val
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return &Tuple{r}
	}
	return mk("zero:"+t.String(), t)
}

// symValue makes an unknown value of a type.
func (e *Eng) symValue(st *State, name string, t types.Type) Val {
	if t == nil {
		return fresh(name, nil)
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		o := st.newObj(u.Elem(), nil, name)
		o.Fresh = false
		return &Ptr{Obj: o.ID}
	case *types.Map:
		o := st.newObj(t, &MapVal{Opaque: true, Name: name, T: u}, name)
		o.Fresh = false
		return &MapRef{o.ID}
	case *types.Struct:
		return &StructVal{T: t, F: make([]Val, u.NumFields()), Name: name}
	case *types.Tuple:
		var r []Val
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.symValue(st, name+"."+strconv.Itoa(i), u.At(i).Type()))
		}
		return &Tuple{r}
	}
	x := fresh(name, t)
	if isErrT(t) {
		x.Name = "e:" + name
	}
	return x
}

func isErrT(t types.Type) bool { return types.Identical(t, tErr) }

// importVal copies a value computed in another state (package initialisation).
func (e *Eng) importVal(st *State, v Val) Val {
	iv, ok := v.(*imported)
	if !ok {
		return v
	}
	return iv.into(e, st)
}

type imported struct {
	v  Val
	st *State
}

func (i *imported) Key() string { return i.v.Key() }
func (i *imported) into(e *Eng, st *State) Val {
	seen := map[int]bool{}
	var cp func(v Val)
	cp = func(v Val) {
		id := -1
		switch x := v.(type) {
		case *Ptr:
			id = x.Obj
		case *MapRef:
			id = x.Obj
		case *SliceVal:
			id = x.Obj
		case *Iface:
			cp(x.V)
		case *StructVal:
			for _, f := range x.F {
				cp(f)
			}
		case *ListVal:
			for _, f := range x.Items {
				cp(f)
			}
		case *MapVal:
			for _, f := range x.Ents {
				cp(f.K)
				cp(f.V)
			}
		case *Closure:
			for _, f := range x.Binds {
				cp(f)
			}
		}
		if id >= 0 && !seen[id] {
			seen[id] = true
			if o := i.st.heap[id]; o != nil {
				st.heap[id] = o
				cp(o.V)
			}
		}
	}
	cp(i.v)
	return i.v
}

// simple evaluates instructions with exactly one outcome.
func (e *Eng) simple(fr *Frame, st *State, v ssa.Value) Val {
	switch in := v.(type) {
	case *ssa.Alloc:
		t := under(in.Type()).(*types.Pointer).Elem()
		o := st.newObj(t, e.zero(t), in.Comment)
		return &Ptr{Obj: o.ID}
	case *ssa.BinOp:
		x, y := e.val(fr, st, in.X), e.val(fr, st, in.Y)
		if v := e.ubinop(st, in.Op, x, y, in.X.Type(), in.Type()); v != nil {
			return v
		}
		return e.binop(st, in.Op, x, y, in.Type())
	case *ssa.UnOp:
		x := e.val(fr, st, in.X)
		switch in.Op {
		case token.MUL:
			if p, ok := x.(*Ptr); ok {
				if n, ok := in.Type().(*types.Named); ok && (n.Obj().Name() == "GlobalIdent" || n.Obj().Name() == "LocalIdent") && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "github.com/llir/llvm/ir" {
					// a copy of the identifier stands for the object it names
					return mk("ident-of", in.Type(), &Ptr{Obj: p.Obj})
				}
				return e.load(st, p)
			}
			if t, ok := x.(*Term); ok {
				if strings.HasPrefix(t.Op, "glob&:") {
					return e.extGlobal(st, "glob:"+t.Op[6:], in.Type())
				}
				return e.load(st, e.symPtr(st, t))
			}
			return e.symValue(st, "deref", in.Type())
		case token.NOT:
			return mkNot(x)
		case token.SUB:
			if n, ok := constInt(x); ok {
				return mkInt(wrapInt(-n, in.Type()), in.Type())
			}
			return mk("neg", in.Type(), x)
		case token.XOR:
			return mk("^", in.Type(), x)
		}
		return e.symValue(st, "unop", in.Type())
	case *ssa.ChangeInterface:
		return e.val(fr, st, in.X)
	case *ssa.ChangeType:
		return e.val(fr, st, in.X)
	case *ssa.MakeInterface:
		return &Iface{in.X.Type(), e.val(fr, st, in.X)}
	case *ssa.MakeClosure:
		c := &Closure{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			c.Binds = append(c.Binds, e.val(fr, st, b))
		}
		return c
	case *ssa.MakeMap:
		o := st.newObj(in.Type(), &MapVal{T: under(in.Type()).(*types.Map)}, "map")
		return &MapRef{o.ID}
	case *ssa.MakeSlice:
		if n, ok := constInt(e.val(fr, st, in.Len)); ok && n < 4096 {
			el := under(in.Type()).(*types.Slice).Elem()
			var it []Val
			for i := int64(0); i < n; i++ {
				it = append(it, e.zero(el))
			}
			return st.newList(it, in.Type())
		}
		return mk("makeslice", in.Type(), e.val(fr, st, in.Len))
	case *ssa.FieldAddr:
		x := e.val(fr, st, in.X)
		if p, ok := x.(*Ptr); ok {
			return &Ptr{p.Obj, p.Path + "/" + strconv.Itoa(in.Field)}
		}
		if t, ok := x.(*Term); ok {
			p := e.symPtr(st, t)
			return &Ptr{p.Obj, p.Path + "/" + strconv.Itoa(in.Field)}
		}
		return e.symValue(st, "fieldaddr", in.Type())
	case *ssa.Field:
		x := e.val(fr, st, in.X)
		if s, ok := x.(*StructVal); ok {
			if s.F[in.Field] == nil {
				return mk("fld:"+s.Name+"."+strconv.Itoa(in.Field), in.Type(), s)
			}
			return s.F[in.Field]
		}
		return mk("field"+strconv.Itoa(in.Field), in.Type(), x)
	case *ssa.Extract:
		x := e.val(fr, st, in.Tuple)
		if t, ok := x.(*Tuple); ok && in.Index < len(t.E) {
			return t.E[in.Index]
		}
		return mk("extract"+strconv.Itoa(in.Index), in.Type(), x)
	case *ssa.MultiConvert:
		return e.val(fr, st, in.X)
	case *ssa.SliceToArrayPointer, *ssa.Select, *ssa.MakeChan:
		e.undecided(st, "unsupported instruction %s in %s", v, fr.fn)
	}
	return e.symValue(st, v.Name(), v.Type())
}

// symPtr gives a memory object to an unknown pointer.
func (e *Eng) symPtr(st *State, t *Term) *Ptr {
	k := "ptr:" + t.Key()
	if id, ok := st.symobj[k]; ok {
		return &Ptr{Obj: id}
	}
	var el types.Type
	if p, ok := under(t.T).(*types.Pointer); ok {
		el = p.Elem()
	}
	o := st.newObj(el, nil, t.Op+t.Name)
	o.Fresh = false
	o.Ctor = t
	st.symobj[k] = o.ID
	return &Ptr{Obj: o.ID}
}

// indexOp: an index lies within its list.
func (e *Eng) indexOp(st *State, fr *Frame, x, idx Val, pos token.Pos) {
	idx, x = e.norm(st, idx), e.norm(st, x)
	if p, ok := x.(*Ptr); ok {
		safe := false
		if o := st.heap[p.Obj]; o != nil && p.Path == "" {
			if a, ok := under(o.T).(*types.Array); ok {
				iv := st.interval(idx)
				safe = iv.Lo >= 0 && iv.Hi < a.Len()
			}
		} else if _, ok := constInt(idx); ok {
			safe = true // checked by the compiler
		}
		e.op("index", pos, fr.fn, safe)
		return
	}
	if s, ok := x.(*SliceVal); ok {
		if i, ok := e.itemIndex(st, s, idx); ok {
			e.op("index", pos, fr.fn, i >= 0)
			return
		}
	}
	list := x
	if s, ok := x.(*SliceVal); ok {
		if it := st.items(s); len(it) > 0 {
			if sp, ok := it[0].(*Splat); ok {
				list = sp.S
			}
		}
	}
	if t, ok := list.(*Term); ok && strings.HasPrefix(e.show(t, st), "currentFn.Blocks") {
		// a function that is being compiled has its entry block (rule "functions")
		if n, ok := constInt(idx); ok && n == 0 {
			e.op("index", pos, fr.fn, true)
			return
		}
	}
	e.op("index", pos, fr.fn, e.within(st, x, idx, false))
}

func (e *Eng) sliceOp(st *State, fr *Frame, in *ssa.Slice) {
	if in.Low == nil && in.High == nil {
		return
	}
	x := e.norm(st, e.val(fr, st, in.X))
	if _, ok := x.(*Ptr); ok {
		return // an array sliced with constants
	}
	safe := true
	var lo, hi Val = mkInt(0, tInt), nil
	if in.Low != nil {
		lo = e.norm(st, e.val(fr, st, in.Low))
		safe = safe && e.within(st, x, lo, true)
	}
	if in.High != nil {
		hi = e.norm(st, e.val(fr, st, in.High))
		safe = safe && e.within(st, x, hi, true)
		t := st.clone()
		safe = safe && e.atMost(t, lo, hi)
	}
	e.op("slice", in.Pos(), fr.fn, safe)
}

// memOp: pointers that are used point to something.
func (e *Eng) memOp(st *State, fr *Frame, in ssa.Instruction) {
	ptr := func(v ssa.Value, what string) {
		switch v.(type) {
		case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
			return
		}
		x := e.val(fr, st, v)
		if _, ok := x.(*Ptr); ok {
			e.op(what, in.Pos(), fr.fn, true)
			return
		}
		e.op(what, in.Pos(), fr.fn, st.nilness(x) == 0)
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ptr(in.X, "nil dereference")
		}
	case *ssa.FieldAddr:
		ptr(in.X, "nil dereference")
	case *ssa.Store:
		ptr(in.Addr, "nil dereference")
	case *ssa.MapUpdate:
		_, ok := e.val(fr, st, in.Map).(*MapRef)
		e.op("store into a nil map", in.Pos(), fr.fn, ok)
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				iv := st.interval(e.norm(st, e.val(fr, st, in.Y)))
				e.op("division by zero", in.Pos(), fr.fn, iv.Lo > 0 || iv.Hi < 0)
			}
		case token.SHL, token.SHR:
			if b, ok := under(in.Y.Type()).(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				iv := st.interval(e.norm(st, e.val(fr, st, in.Y)))
				e.op("negative shift", in.Pos(), fr.fn, iv.Lo >= 0)
			}
		}
	case *ssa.MakeSlice:
		iv := st.interval(e.norm(st, e.val(fr, st, in.Len)))
		e.op("size of a list", in.Pos(), fr.fn, iv.Lo >= 0)
	}
}

func (e *Eng) effect(fr *Frame, st *State, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		p := e.val(fr, st, x.Addr)
		v := e.val(fr, st, x.Val)
		switch q := p.(type) {
		case *Ptr:
			e.hookStore(st, q, v, x.Pos(), fr.fn)
			if o := st.heap[q.Obj]; o != nil && o.Ctor != nil && o.Ctor.Op == "idxaddr" {
				st.add(&Event{Kind: "elemstore", Args: append(append([]Val(nil), o.Ctor.Args...), v), Pos: x.Pos(), Fn: fr.fn.Name()})
			}
			e.store(st, q, v)
		case *Term:
			st.add(&Event{Kind: "extstore", Name: q.Op, Args: []Val{v}, Pos: x.Pos(), Fn: fr.fn.Name()})
		}
	case *ssa.MapUpdate:
		m := e.val(fr, st, x.Map)
		k := e.val(fr, st, x.Key)
		v := e.val(fr, st, x.Value)
		e.mapUpdate(st, m, k, v, true, x.Pos(), fr.fn.Name())
	default:
		e.undecided(st, "unsupported instruction %T in %s", in, fr.fn)
	}
}

func (e *Eng) mapUpdate(st *State, m, k, v Val, present bool, pos token.Pos, fn string) {
	r, ok := m.(*MapRef)
	if !ok {
		st.add(&Event{Kind: "mapup", Name: "?", Args: []Val{m, k, v}, Pos: pos, Fn: fn})
		return
	}
	o := st.heap[r.Obj]
	mv := o.V.(*MapVal)
	n := &MapVal{Opaque: mv.Opaque, Name: mv.Name, T: mv.T}
	for _, en := range mv.Ents {
		if same(en.K, k) {
			continue
		}
		_, c1 := en.K.(*Const)
		_, c2 := k.(*Const)
		if c1 && c2 || e.knownNeq(st, en.K, k) {
			n.Ents = append(n.Ents, en)
			continue
		}
		// possibly the same key: forget
		n.Opaque = true
	}
	n.Ents = append(n.Ents, MapEnt{k, present, v})
	no := *o
	no.V = n
	st.heap[o.ID] = &no
	kind := "mapup"
	if !present {
		kind = "mapdel"
	}
	st.add(&Event{Kind: kind, Name: o.Name, Args: []Val{m, k, v}, Pos: pos, Fn: fn})
}

func (e *Eng) knownNeq(st *State, a, b Val) bool {
	c := mkEq(a, b)
	r := e.branch(st.clone(), c)
	return len(r) == 1 && !r[0].val
}

func mkNot(x Val) Val {
	if b, ok := constBool(x); ok {
		return mkBool(!b)
	}
	if t, ok := x.(*Term); ok && t.Op == "!" {
		return t.Args[0]
	}
	return mk("!", tBool, x)
}

func mkEq(a, b Val) Val {
	if v, ok := evalBin("==", tBool, a, b); ok {
		return v
	}
	ka, kb := a.Key(), b.Key()
	_, ca := a.(*Const)
	_, cb := b.(*Const)
	if ca && !cb || (ca == cb && kb < ka) {
		a, b = b, a
	}
	return mk("==", tBool, a, b)
}

func mkCat(parts ...Val) Val {
	var fl []Val
	for _, p := range parts {
		if t, ok := p.(*Term); ok && t.Op == "cat" {
			fl = append(fl, t.Args...)
		} else {
			fl = append(fl, p)
		}
	}
	var r []Val
	for _, p := range fl {
		if s, ok := constStr(p); ok {
			if s == "" {
				continue
			}
			if len(r) > 0 {
				if q, ok := constStr(r[len(r)-1]); ok {
					r[len(r)-1] = mkStr(q + s)
					continue
				}
			}
		}
		r = append(r, p)
	}
	if len(r) == 0 {
		return mkStr("")
	}
	if len(r) == 1 {
		return r[0]
	}
	return mk("cat", tStr, r...)
}

func mkAdd(a, b Val, t types.Type) Val {
	p := toPoly(mk("+", t, a, b))
	return polyVal(p, t, mk("+", t, a, b))
}

func polyVal(p poly, t types.Type, dflt Val) Val {
	c := p.m[""]
	n := 0
	var only string
	for k := range p.m {
		if k != "" {
			n++
			only = k
		}
	}
	if n == 0 {
		return mkInt(wrapInt(c, t), t)
	}
	if n == 1 && p.m[only] == 1 && len(p.v[only]) == 1 {
		if c == 0 {
			return p.v[only][0]
		}
		return mk("+", t, p.v[only][0], mkInt(c, t))
	}
	return dflt
}

func isStrT(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (e *Eng) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	a, b = e.norm(st, a), e.norm(st, b)
	switch op {
	case token.EQL:
		return e.mkEqSt(st, a, b)
	case token.NEQ:
		return mkNot(e.mkEqSt(st, a, b))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		o := "<"
		if op == token.LEQ || op == token.GEQ {
			o = "<="
		}
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		if v, ok := evalBin(o, tBool, a, b); ok {
			return v
		}
		if o == "<=" {
			// a <= b  is  !(b < a)
			return mkNot(mk("<", tBool, b, a))
		}
		return mk("<", tBool, a, b)
	case token.ADD:
		if isStrT(t) {
			return mkCat(a, b)
		}
		if v, ok := evalBin("+", t, a, b); ok {
			return v
		}
		return mkAdd(a, b, t)
	case token.SUB:
		if v, ok := evalBin("-", t, a, b); ok {
			return v
		}
		d := mk("-", t, a, b)
		return polyVal(toPoly(d), t, d)
	}
	o := op.String()
	if v, ok := evalBin(o, t, a, b); ok {
		return v
	}
	if op == token.AND || op == token.OR || op == token.XOR || op == token.MUL {
		// commutative: constant second, otherwise by key
		_, ca := a.(*Const)
		_, cb := b.(*Const)
		if ca && !cb || (ca == cb && b.Key() < a.Key()) {
			a, b = b, a
		}
	}
	return mk(o, t, a, b)
}

// ubinop is an operation that takes whole words as numbers without sign; conversions
// between words keep their bits.
func (e *Eng) ubinop(st *State, op token.Token, a, b Val, xt, t types.Type) Val {
	bt, ok := under(xt).(*types.Basic)
	if !ok {
		return nil
	}
	switch bt.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
	default:
		return nil
	}
	a, b = e.norm(st, a), e.norm(st, b)
	if st.interval(a).Lo >= 0 && (st.interval(b).Lo >= 0 || op == token.SHR) {
		return nil
	}
	switch op {
	case token.GTR:
		return e.ubinop(st, token.LSS, b, a, xt, t)
	case token.LEQ:
		return mkNot(e.ubinop(st, token.LSS, b, a, xt, t))
	case token.GEQ:
		return mkNot(e.ubinop(st, token.LSS, a, b, xt, t))
	case token.LSS:
		if n, ok := constInt(b); ok && n == 1 {
			return e.mkEqSt(st, a, mkInt(0, typeOf(a)))
		}
		if n, ok := constInt(b); ok && n == 0 {
			return mkBool(false)
		}
		if n, ok := constInt(a); ok && n == 0 {
			return mkNot(e.mkEqSt(st, b, mkInt(0, typeOf(b))))
		}
		if n, ok := constInt(a); ok && n == -1 {
			return mkBool(false)
		}
		if x, ok := constInt(a); ok {
			if y, ok := constInt(b); ok {
				return mkBool(uint64(x) < uint64(y))
			}
		}
		return mk("u<", tBool, a, b)
	case token.QUO, token.REM, token.SHR:
		x, ok1 := constInt(a)
		y, ok2 := constInt(b)
		if ok1 && ok2 && (y != 0 || op == token.SHR) {
			switch op {
			case token.QUO:
				return mkInt(int64(uint64(x)/uint64(y)), t)
			case token.REM:
				return mkInt(int64(uint64(x)%uint64(y)), t)
			}
			return mkInt(int64(uint64(x)>>uint64(y)), t)
		}
		return mk("u"+op.String(), t, a, b)
	}
	return nil
}

func (e *Eng) mkEqSt(st *State, a, b Val) Val {
	return mkEq(a, b)
}

// ---------- calls ----------

func (e *Eng) callee(fr *Frame, st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := e.val(fr, st, c.Value)
		for _, a := range c.Args {
			args = append(args, e.val(fr, st, a))
		}
		return recv, args
	}
	fn := e.val(fr, st, c.Value)
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	return fn, args
}

func (e *Eng) invoke(st *State, fn Val, c *ssa.CallCommon, args []Val, pos token.Pos) []Out {
	if c != nil && c.IsInvoke() {
		recv := fn
		if t, ok := recv.(*Term); ok {
			if d := st.dyn[t.ID]; d != nil {
				recv = d
			}
		}
		if i, ok := recv.(*Iface); ok {
			m := e.prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return e.dispatch(st, &Closure{Fn: m}, append([]Val{i.V}, args...), pos)
			}
		}
		return e.invokeModel(st, recv, c.Method, args, pos)
	}
	return e.dispatch(st, fn, args, pos)
}

func (e *Eng) dispatch(st *State, fn Val, args []Val, pos token.Pos) []Out {
	switch f := fn.(type) {
	case *Closure:
		if f.Fn.Blocks != nil && (f.Fn.Pkg == e.pkg || f.Fn.Synthetic != "" && f.Fn.Pkg == nil || f.Fn.Parent() != nil) {
			return e.call(f.Fn, args, f.Binds, st, pos)
		}
		if f.Fn.Pkg == e.pkg && f.Fn.Pkg != nil {
			return e.call(f.Fn, args, f.Binds, st, pos)
		}
		return e.external(st, f.Fn, args, pos)
	case *Term:
		if strings.HasPrefix(f.Op, "builtin:") {
			return e.builtin(st, f.Op[8:], args, pos)
		}
		if strings.HasPrefix(f.Op, "glob:") {
			st.add(&Event{Kind: "ext", Name: f.Op, Args: args, Pos: pos})
			return ret1(st)
		}
	}
	e.undecided(st, "call of unknown function value at %s", e.pos(pos))
	var t types.Type
	if x := typeOf(fn); x != nil {
		if s, ok := under(x).(*types.Signature); ok {
			return []Out{{st: st, kind: "ret", res: e.symResults(st, "unk", s)}}
		}
	}
	_ = t
	return ret1(st, fresh("unk", nil))
}

func ret1(st *State, res ...Val) []Out { return []Out{{st: st, kind: "ret", res: res}} }

func (e *Eng) symResults(st *State, name string, s *types.Signature) []Val {
	var r []Val
	for i := 0; i < s.Results().Len(); i++ {
		r = append(r, e.symValue(st, name+"."+strconv.Itoa(i), s.Results().At(i).Type()))
	}
	return r
}

// cutGeneric replaces a call by an unknown result of the right type.
func (e *Eng) cutGeneric(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	return e.cutAnchor(e, st, fn, args, pos)
}

func (e *Eng) builtin(st *State, name string, args []Val, pos token.Pos) []Out {
	switch name {
	case "len", "cap":
		return ret1(st, e.length(st, args[0]))
	case "append":
		a := st.seq(args[0])
		b := st.seq(args[1])
		if s, ok := args[1].(*Term); ok && isStrT(s.T) {
			b = []Val{&Splat{mk("bytes", nil, s)}}
		} else if s, ok := constStr(args[1]); ok {
			b = nil
			for i := 0; i < len(s); i++ {
				b = append(b, mkInt(int64(s[i]), types.Typ[types.Uint8]))
			}
		}
		if len(b) == 0 {
			return ret1(st, args[0])
		}
		items := append(append([]Val(nil), a...), b...)
		t := typeOf(args[0])
		return ret1(st, st.newList(items, t))
	case "panic":
		return []Out{{st: st, kind: "panic", pos: pos}}
	case "delete":
		e.mapUpdate(st, args[0], args[1], mkNil(nil), false, pos, "")
		return ret1(st)
	case "print", "println":
		return ret1(st)
	case "min", "max":
		r := args[0]
		outs := []Out{{st: st, kind: "ret", res: []Val{r}}}
		for _, a := range args[1:] {
			var no []Out
			for _, o := range outs {
				x, y := o.res[0], a
				if name == "max" {
					x, y = y, x
				}
				c := e.binop(o.st, token.LSS, x, y, tBool)
				for _, b := range e.branch(o.st, c) {
					v := a
					if b.val {
						v = o.res[0]
					}
					no = append(no, Out{st: b.st, kind: "ret", res: []Val{v}})
				}
			}
			outs = no
		}
		return outs
	case "copy":
		d, ok1 := args[0].(*SliceVal)
		if ok1 {
			src := st.seq(args[1])
			o := st.heap[d.Obj]
			l := o.V.(*ListVal)
			if !hasSplat(src) && !hasSplat(l.Items) {
				n := &ListVal{append([]Val(nil), l.Items...), l.Elem}
				k := 0
				for k < len(src) && d.Lo+k < d.Hi {
					n.Items[d.Lo+k] = src[k]
					k++
				}
				no := *o
				no.V = n
				st.heap[o.ID] = &no
				return ret1(st, mkInt(int64(k), tInt))
			}
			no := *o
			no.V = &ListVal{[]Val{&Splat{mk("copied", nil, args[1])}}, l.Elem}
			st.heap[o.ID] = &no
			e.undecided(st, "copy of unknown slices at %s", e.pos(pos))
		}
		return ret1(st, fresh("copy", tInt))
	case "close", "recover":
		return ret1(st, mkNil(nil))
	case "ssa:wrapnilchk":
		return ret1(st, args[0])
	}
	e.undecided(st, "builtin %s at %s", name, e.pos(pos))
	return ret1(st, fresh(name, nil))
}

func (e *Eng) length(st *State, v Val) Val {
	switch x := v.(type) {
	case *SliceVal:
		var r Val = mkInt(0, tInt)
		n := int64(0)
		for _, i := range st.items(x) {
			if s, ok := i.(*Splat); ok {
				r = mkAdd(r, e.length(st, s.S), tInt)
			} else {
				n++
			}
		}
		return mkAdd(r, mkInt(n, tInt), tInt)
	case *Const:
		if x.V == nil {
			return mkInt(0, tInt)
		}
		if s, ok := constStr(x); ok {
			return mkInt(int64(len(s)), tInt)
		}
	case *Term:
		if c, ok := st.eqc[x.ID]; ok {
			return e.length(st, c)
		}
		if cs, ok := st.strs[x.ID]; ok {
			return mkInt(int64(len(cs)), tInt)
		}
		switch x.Op {
		case "cat":
			var r Val = mkInt(0, tInt)
			for _, a := range x.Args {
				r = mkAdd(r, e.length(st, a), tInt)
			}
			return r
		case "bytes":
			return e.length(st, x.Args[0])
		case "slice":
			return e.binop(st, token.SUB, x.Args[2], x.Args[1], tInt)
		}
		l := mk("len", tInt, x)
		if c, ok := st.eqc[l.ID]; ok {
			return c
		}
		return l
	case *MapRef:
		mv := st.heap[x.Obj].V.(*MapVal)
		if !mv.Opaque {
			return mkInt(int64(len(mv.Ents)), tInt)
		}
		return mk("len", tInt, x)
	case *Ptr:
		if a, ok := under(st.heap[x.Obj].T).(*types.Array); ok {
			return mkInt(a.Len(), tInt)
		}
	case *ListVal:
		return mkInt(int64(len(x.Items)), tInt)
	}
	return mk("len", tInt, v)
}

// ---------- indexing ----------

// itemIndex resolves an index into a partially known list.
func (e *Eng) itemIndex(st *State, s *SliceVal, idx Val) (int, bool) {
	it := st.items(s)
	idx = e.norm(st, idx)
	if n, ok := constInt(idx); ok {
		if n < 0 || int(n) >= len(it) {
			if !hasSplat(it) {
				return -1, true
			}
			return 0, false
		}
		if hasSplat(it[:n+1]) {
			// parts that are known to be empty do not count
			k := n
			for i, y := range it {
				sp, ok := y.(*Splat)
				if ok {
					if l := e.length(st, sp.S); st.interval(l).Hi > 0 {
						return 0, false
					}
					continue
				}
				if k == 0 {
					return i, true
				}
				k--
			}
			return 0, false
		}
		return int(n), true
	}
	d := mk("-", tInt, e.length(st, s), idx)
	if n, ok := constInt(polyVal(toPoly(d), tInt, d)); ok && n >= 1 && int(n) <= len(it) && !hasSplat(it[len(it)-int(n):]) {
		return len(it) - int(n), true
	}
	return 0, false
}

func (e *Eng) indexAddr(st *State, x, idx Val, t types.Type, pos token.Pos) []Out {
	idx = e.norm(st, idx)
	for {
		t, ok := x.(*Term)
		if !ok || t.Op != "slice" || len(t.Args) != 3 {
			break
		}
		// an element of a part is one of the whole
		x, idx = t.Args[0], e.norm(st, e.binop(st, token.ADD, idx, t.Args[1], tInt))
	}
	switch s := x.(type) {
	case *SliceVal:
		if i, ok := e.itemIndex(st, s, idx); ok {
			if i < 0 {
				return []Out{{st: st, kind: "panic", pos: pos}}
			}
			return ret1(st, &Ptr{s.Obj, "/" + strconv.Itoa(s.Lo+i)})
		}
		if it := st.items(s); !hasSplat(it) && len(it) <= 512 {
			if vals, sts := e.partition(st, idx); vals != nil && len(vals) > 1 {
				var outs []Out
				for i, v := range vals {
					outs = append(outs, e.indexAddr(sts[i], x, v, t, pos)...)
				}
				return outs
			}
		}
	case *Ptr: // pointer to array
		if i, ok := constInt(idx); ok {
			return ret1(st, &Ptr{s.Obj, s.Path + "/" + strconv.FormatInt(i, 10)})
		}
		if vals, sts := e.partition(st, idx); vals != nil {
			var outs []Out
			for i, v := range vals {
				outs = append(outs, e.indexAddr(sts[i], x, v, t, pos)...)
			}
			return outs
		}
	case *Const:
		return []Out{{st: st, kind: "panic", pos: pos}}
	}
	el := under(t).(*types.Pointer).Elem()
	k := "cell:" + x.Key() + ":" + idx.Key()
	if id, ok := st.symobj[k]; ok {
		return ret1(st, &Ptr{Obj: id})
	}
	o := st.newObj(el, nil, "elem")
	o.Fresh = false
	o.Ctor = mk("idxaddr", t, x, idx)
	st.symobj[k] = o.ID
	switch under(el).(type) {
	case *types.Pointer:
		// an element of an unknown list: an object of its own
		p := e.symValue(st, "elem", el).(*Ptr)
		st.heap[p.Obj].Ctor = mk("idx", el, x, idx)
		o.V = p
	case *types.Struct:
		v := e.symValue(st, "elem", el).(*StructVal)
		s := under(el).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := under(s.Field(i).Type()).(*types.Basic); ok {
				v.F[i] = mk("sel:"+s.Field(i).Name(), s.Field(i).Type(), mk("idx", el, x, idx))
			}
		}
		o.V = v
	default:
		o.V = mk("idx", el, x, idx)
	}
	return ret1(st, &Ptr{Obj: o.ID})
}

func (e *Eng) index(st *State, x, idx Val, t types.Type) []Out {
	idx = e.norm(st, idx)
	x = e.norm(st, x)
	for {
		t, ok := x.(*Term)
		if !ok || t.Op != "slice" || len(t.Args) != 3 {
			break
		}
		x, idx = t.Args[0], e.norm(st, e.binop(st, token.ADD, idx, t.Args[1], tInt))
	}
	if l, ok := x.(*ListVal); ok {
		if i, ok := constInt(idx); ok && i >= 0 && int(i) < len(l.Items) {
			return ret1(st, l.Items[i])
		}
		if vals, sts := e.partition(st, idx); vals != nil {
			var outs []Out
			for i, v := range vals {
				outs = append(outs, e.index(sts[i], x, v, t)...)
			}
			return outs
		}
	}
	if tm, ok := x.(*Term); ok {
		if cs, ok := st.strs[tm.ID]; ok {
			if i, ok := constInt(idx); ok {
				if i >= 0 && int(i) < len(cs) {
					return ret1(st, cs[i])
				}
				return []Out{{st: st, kind: "panic"}}
			}
		}
		if tm.Op == "cat" {
			if i, ok := constInt(idx); ok {
				if s, ok := constStr(tm.Args[0]); ok && int(i) < len(s) {
					return ret1(st, mkInt(int64(s[i]), t))
				}
			}
		}
	}
	if s, ok := constStr(x); ok {
		if i, ok := constInt(idx); ok {
			if i >= 0 && int(i) < len(s) {
				return ret1(st, mkInt(int64(s[i]), t))
			}
			return []Out{{st: st, kind: "panic"}}
		}
		v := mk("idx", t, x, idx)
		if vals, sts := e.partition(st, v); vals != nil {
			var outs []Out
			for i, v := range vals {
				outs = append(outs, Out{st: sts[i], kind: "ret", res: []Val{v}})
			}
			return outs
		}
		return ret1(st, v)
	}
	return ret1(st, mk("idx", t, x, idx))
}

func (e *Eng) slice(st *State, fr *Frame, in *ssa.Slice) []Out {
	x := e.norm(st, e.val(fr, st, in.X))
	var lo, hi Val = mkInt(0, tInt), nil
	if in.Low != nil {
		lo = e.norm(st, e.val(fr, st, in.Low))
	}
	if in.High != nil {
		hi = e.norm(st, e.val(fr, st, in.High))
	}
	t := in.Type()
	loN, loOK := constInt(lo)
	if s, ok := constStr(x); ok {
		h := int64(len(s))
		hok := true
		if hi != nil {
			h, hok = constInt(hi)
		}
		if loOK && hok {
			if loN < 0 || h > int64(len(s)) || loN > h {
				return []Out{{st: st, kind: "panic", pos: in.Pos()}}
			}
			return ret1(st, mkStr(s[loN:h]))
		}
	}
	if isStrT(t) {
		if tm, ok := x.(*Term); ok {
			if cs, ok := st.strs[tm.ID]; ok && loOK {
				h := int64(len(cs))
				hok := true
				if hi != nil {
					h, hok = constInt(hi)
				}
				if hok && loN >= 0 && loN <= h && h <= int64(len(cs)) {
					n := fresh("sub", tStr)
					st.strs[n.ID] = cs[loN:h]
					return ret1(st, n)
				}
			}
		}
		if loOK && loN == 0 && hi == nil {
			return ret1(st, x)
		}
		if hi == nil {
			hi = e.length(st, x)
		}
		return ret1(st, mk("substr", t, x, lo, hi))
	}
	switch s := x.(type) {
	case *Ptr: // array
		a := under(st.heap[s.Obj].T)
		if arr, ok := a.(*types.Array); ok && s.Path == "" {
			h := arr.Len()
			hok := true
			if hi != nil {
				h, hok = constInt(hi)
			}
			if loOK && hok {
				return ret1(st, &SliceVal{s.Obj, int(loN), int(h), t})
			}
		}
		e.undecided(st, "slice of array at %s", e.pos(in.Pos()))
	case *SliceVal:
		it := st.items(s)
		li, lok := -1, false
		if loOK && int(loN) <= len(it) && loN >= 0 && !hasSplat(it[:loN]) {
			li, lok = int(loN), true
		}
		hi2 := len(it)
		hok := hi == nil
		if hi != nil {
			if n, ok := constInt(hi); ok {
				if n >= 0 && int(n) <= len(it) && !hasSplat(it[:n]) {
					hi2, hok = int(n), true
				} else if !hasSplat(it) {
					return []Out{{st: st, kind: "panic", pos: in.Pos()}}
				}
			} else {
				d := mk("-", tInt, e.length(st, s), hi)
				if n, ok := constInt(polyVal(toPoly(d), tInt, d)); ok && n >= 0 && int(n) <= len(it) && !hasSplat(it[len(it)-int(n):]) {
					hi2, hok = len(it)-int(n), true
				}
			}
		}
		if lok && hok && li <= hi2 {
			return ret1(st, &SliceVal{s.Obj, s.Lo + li, s.Lo + hi2, t})
		}
		if lok && hok {
			return []Out{{st: st, kind: "panic", pos: in.Pos()}}
		}
		if len(it) == 1 && hasSplat(it) {
			x = it[0].(*Splat).S
		}
	case *Const:
		return ret1(st, x)
	}
	if hi == nil {
		if loOK && loN == 0 {
			return ret1(st, x)
		}
		hi = e.length(st, x)
	}
	if same(lo, hi) {
		return ret1(st, st.newList(nil, t))
	}
	return ret1(st, mk("slice", t, x, lo, hi))
}

// ---------- maps, ranges, type assertions ----------

func (e *Eng) lookup(st *State, fr *Frame, in *ssa.Lookup) []Out {
	x := e.val(fr, st, in.X)
	k := e.norm(st, e.val(fr, st, in.Index))
	if isStrT(in.X.Type()) {
		return e.index(st, x, k, in.Type())
	}
	mt := under(in.X.Type()).(*types.Map)
	mkRes := func(s *State, v Val, ok bool) Out {
		if v == nil {
			v = e.zero(mt.Elem())
		}
		if r, isRef := x.(*MapRef); isRef && s.heap[r.Obj] != nil && e.compMap(s, r) {
			flag := "absent"
			if ok {
				flag = "present"
			}
			s.add(&Event{Kind: "maplook", Name: s.heap[r.Obj].Name, Args: []Val{r, k, v}, Flag: flag, Pos: in.Pos(), Fn: fr.fn.Name()})
		}
		if in.CommaOk {
			return Out{st: s, kind: "ret", res: []Val{v, mkBool(ok)}}
		}
		return Out{st: s, kind: "ret", res: []Val{v}}
	}
	m, ok := x.(*MapRef)
	if !ok {
		if isNil(x) {
			return []Out{mkRes(st, nil, false)}
		}
		e.undecided(st, "lookup in unknown map at %s", e.pos(in.Pos()))
		return []Out{mkRes(st, e.symValue(st, "lookup", mt.Elem()), true), mkRes(st.clone(), nil, false)}
	}
	// lookups by a character are decided for all characters at once
	if _, isC := k.(*Const); !isC {
		has := mk("maphas", tBool, m, k)
		mv := st.heap[m.Obj].V.(*MapVal)
		allConst := !mv.Opaque
		for _, en := range mv.Ents {
			if _, ok := en.K.(*Const); !ok {
				allConst = false
			}
		}
		if allConst {
			if vals, sts := e.partition(st, has); vals != nil {
				var outs []Out
				for i, v := range vals {
					b, _ := constBool(v)
					if !b {
						outs = append(outs, mkRes(sts[i], nil, false))
						continue
					}
					vt := mk("mapval", mt.Elem(), m, k)
					vs2, sts2 := e.partition(sts[i], vt)
					if vs2 == nil {
						outs = append(outs, mkRes(sts[i], vt, true))
						continue
					}
					for j, w := range vs2 {
						outs = append(outs, mkRes(sts2[j], w, true))
					}
				}
				return outs
			}
		}
	}
	var outs []Out
	cur := []*State{st}
	n := len(st.heap[m.Obj].V.(*MapVal).Ents)
	for i := 0; i < n; i++ {
		var rest []*State
		for _, s := range cur {
			en := s.heap[m.Obj].V.(*MapVal).Ents[i]
			if same(en.K, k) {
				outs = append(outs, mkRes(s, en.V, en.Present))
				continue
			}
			for _, b := range e.branch(s, mkEq(k, en.K)) {
				if b.val {
					outs = append(outs, mkRes(b.st, en.V, en.Present))
				} else {
					rest = append(rest, b.st)
				}
			}
		}
		cur = rest
	}
	for _, s := range cur {
		mv := s.heap[m.Obj].V.(*MapVal)
		if !mv.Opaque {
			outs = append(outs, mkRes(s, nil, false))
			continue
		}
		remember := func(z *State, en MapEnt) {
			o := *z.heap[m.Obj]
			mv := o.V.(*MapVal)
			o.V = &MapVal{append(append([]MapEnt(nil), mv.Ents...), en), mv.Opaque, mv.Name, mv.T}
			z.heap[m.Obj] = &o
		}
		a := s.clone()
		v := e.symValue(a, mv.Name+"["+k.Key()+"]", mt.Elem())
		if p, ok := v.(*Ptr); ok {
			a.heap[p.Obj].Ctor = mk("mapelem:"+mv.Name, mt.Elem(), k)
		} else if _, ok := v.(*Term); ok {
			v = mk("mapelem:"+mv.Name, mt.Elem(), k)
			if _, isIface := under(mt.Elem()).(*types.Interface); isIface {
				a.nils[v.(*Term).ID] = false
			}
		}
		if b, ok := under(mt.Elem()).(*types.Basic); ok && b.Kind() == types.Bool && !in.CommaOk {
			// a set: fork on the value itself
			remember(a, MapEnt{k, true, mkBool(true)})
			outs = append(outs, mkRes(a, mkBool(true), true))
		} else {
			remember(a, MapEnt{k, true, v})
			outs = append(outs, mkRes(a, v, true))
		}
		remember(s, MapEnt{k, false, nil})
		outs = append(outs, mkRes(s, nil, false))
	}
	return outs
}

// compMap tells whether a map is a table of the compiler object.
func (e *Eng) compMap(st *State, r *MapRef) bool {
	if e.comp == nil || st.heap[e.comp.Obj] == nil {
		return false
	}
	if sv, ok := st.heap[e.comp.Obj].V.(*StructVal); ok {
		for _, f := range sv.F {
			if m, ok := f.(*MapRef); ok && m.Obj == r.Obj {
				return true
			}
		}
	}
	return false
}

func (e *Eng) rng(st *State, fr *Frame, in *ssa.Range) []Out {
	x := e.norm(st, e.val(fr, st, in.X))
	if isStrT(in.X.Type()) {
		if s, ok := constStr(x); ok {
			var ents []MapEnt
			for i, r := range s {
				ents = append(ents, MapEnt{mkInt(int64(i), tInt), true, mkInt(int64(r), types.Typ[types.Rune])})
			}
			o := st.newObj(nil, &IterState{Known: ents, M: x}, "iter")
			return ret1(st, &IterVal{o.ID})
		}
		var outs []Out
		for _, s := range e.bindString(st, x) {
			t := x.(*Term)
			cs := s.strs[t.ID]
			var ents []MapEnt
			for i, r := range cs {
				ents = append(ents, MapEnt{mkInt(int64(i), tInt), true, r})
			}
			o := s.newObj(nil, &IterState{Known: ents, M: x}, "iter")
			outs = append(outs, Out{st: s, kind: "ret", res: []Val{&IterVal{o.ID}}})
		}
		if outs == nil {
			e.undecided(st, "range over string at %s", e.pos(in.Pos()))
			o := st.newObj(nil, &IterState{M: x, Open: true, Phase: -1}, "iter")
			return ret1(st, &IterVal{o.ID})
		}
		return outs
	}
	is := &IterState{M: x}
	if m, ok := x.(*MapRef); ok {
		mv := st.heap[m.Obj].V.(*MapVal)
		for _, en := range mv.Ents {
			if en.Present {
				is.Known = append(is.Known, en)
			}
		}
		is.Open = mv.Opaque
	} else {
		is.Open = !isNil(x)
	}
	if is.Open {
		is.Phase = -1
	}
	o := st.newObj(nil, is, "iter")
	return ret1(st, &IterVal{o.ID})
}

func (e *Eng) next(st *State, fr *Frame, in *ssa.Next) []Out {
	iv := e.val(fr, st, in.Iter).(*IterVal)
	o := st.heap[iv.Obj]
	is := o.V.(*IterState)
	var outs []Out
	tt := under(in.Type()).(*types.Tuple)
	emit := func(s *State, phase int, ok bool, k, v Val) {
		no := *s.heap[iv.Obj]
		ni := *is
		ni.Phase = phase
		no.V = &ni
		s.heap[iv.Obj] = &no
		if k == nil {
			k = e.zero(orInt(tt.At(1).Type()))
		}
		if v == nil {
			v = e.zero(orInt(tt.At(2).Type()))
		}
		outs = append(outs, Out{st: s, kind: "ret", res: []Val{mkBool(ok), k, v}})
	}
	if is.Phase < 0 {
		a := st.clone()
		k := e.symValue(a, "key", orInt(tt.At(1).Type()))
		v := e.symValue(a, "elem", orInt(tt.At(2).Type()))
		emit(a, -1, true, k, v)
		if len(is.Known) > 0 {
			emit(st, 1, true, is.Known[0].K, is.Known[0].V)
		} else {
			emit(st, 0, false, nil, nil)
		}
		return outs
	}
	if is.Phase < len(is.Known) {
		emit(st, is.Phase+1, true, is.Known[is.Phase].K, is.Known[is.Phase].V)
	} else {
		emit(st, is.Phase, false, nil, nil)
	}
	return outs
}

func orInt(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return tInt
	}
	return t
}

func (e *Eng) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) []Out {
	x := e.val(fr, st, in.X)
	at := in.AssertedType
	_, toIface := under(at).(*types.Interface)
	res := func(s *State, v Val, ok bool) Out {
		if in.CommaOk {
			if v == nil {
				v = e.zero(at)
			}
			return Out{st: s, kind: "ret", res: []Val{v, mkBool(ok)}}
		}
		if !ok {
			return Out{st: s, kind: "panic", pos: in.Pos()}
		}
		return Out{st: s, kind: "ret", res: []Val{v}}
	}
	if t, ok := x.(*Term); ok {
		if d := st.dyn[t.ID]; d != nil {
			x = d
		}
	}
	switch v := x.(type) {
	case *Const:
		return []Out{res(st, nil, false)}
	case *Iface:
		if toIface {
			if types.Implements(v.T, under(at).(*types.Interface)) {
				return []Out{res(st, v, true)}
			}
			return []Out{res(st, nil, false)}
		}
		if types.Identical(v.T, at) {
			return []Out{res(st, v.V, true)}
		}
		return []Out{res(st, nil, false)}
	case *Term:
		if toIface {
			return []Out{res(st, v, true)}
		}
		for _, n := range st.notdyn[v.ID] {
			if n == at.String() {
				return []Out{res(st, nil, false)}
			}
		}
		if e.neverDyn(st, v, at) {
			return []Out{res(st, nil, false)}
		}
		a := st.clone()
		p := e.symValue(a, "as("+v.Key()+")", at)
		if q, ok := p.(*Ptr); ok {
			a.heap[q.Obj].Ctor = mk("dyn:"+at.String(), at, v)
		}
		a.dyn[v.ID] = &Iface{at, p}
		st.notdyn[v.ID] = append(append([]string(nil), st.notdyn[v.ID]...), at.String())
		return []Out{res(a, p, true), res(st, nil, false)}
	}
	e.undecided(st, "type assertion at %s", e.pos(in.Pos()))
	return []Out{res(st, e.symValue(st, "as", at), true)}
}

// ---------- conversions ----------

func (e *Eng) convert(st *State, x Val, t types.Type) []Out {
	x = e.norm(st, x)
	if isIntT(t) {
		if n, ok := constInt(x); ok {
			return ret1(st, mkInt(wrapInt(n, t), t))
		}
		if tm, ok := x.(*Term); ok && isIntT(tm.T) {
			if set, ok := st.chars[tm.ID]; ok && tm.Op == "sym" {
				okAll := true
				for _, c := range set.Elems() {
					if wrapInt(int64(c), t) != int64(c) {
						okAll = false
					}
				}
				if okAll {
					return ret1(st, x)
				}
			}
			if intBits(t) >= intBits(tm.T) {
				return ret1(st, x)
			}
			return ret1(st, mk("conv:"+under(t).String(), t, x))
		}
		return ret1(st, mk("conv:"+under(t).String(), t, x))
	}
	if isStrT(t) {
		switch v := x.(type) {
		case *Const:
			if n, ok := constInt(v); ok {
				return ret1(st, mkStr(string(rune(n))))
			}
			return ret1(st, v)
		case *SliceVal:
			it := st.items(v)
			e.encodes(st, v.T, it...)
			return ret1(st, e.strOf(st, it, v.T))
		case *Term:
			e.encodes(st, v.T, v)
			if isIntT(v.T) {
				return ret1(st, mk("chr", tStr, v))
			}
			if v.Op == "bytes" || v.Op == "runes" {
				return ret1(st, v.Args[0])
			}
			return ret1(st, mk("str", tStr, &Splat{v}))
		}
		return ret1(st, mk("str", tStr, x))
	}
	if s, ok := under(t).(*types.Slice); ok {
		isByte := intBits(s.Elem()) == 8
		if c, ok := constStr(x); ok {
			var it []Val
			if isByte {
				for i := 0; i < len(c); i++ {
					it = append(it, mkInt(int64(c[i]), s.Elem()))
				}
			} else {
				for _, r := range c {
					it = append(it, mkInt(int64(r), s.Elem()))
				}
			}
			return ret1(st, st.newList(it, t))
		}
		if tm, ok := x.(*Term); ok {
			if tm.Op == "str" && !isByte {
				return ret1(st, st.newList(tm.Args, t))
			}
			if sts := e.bindString(st, tm); sts != nil {
				var outs []Out
				for _, z := range sts {
					outs = append(outs, Out{st: z, kind: "ret", res: []Val{z.newList(z.strs[tm.ID], t)}})
				}
				return outs
			}
			if isByte {
				return ret1(st, mk("bytes", t, x))
			}
			return ret1(st, mk("runes", t, x))
		}
	}
	if tm, ok := x.(*Term); ok {
		return ret1(st, mk("conv:"+t.String(), t, tm))
	}
	return ret1(st, x)
}

func intBits(t types.Type) int {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// encodes notes that characters are made into a string that encodes those above 127.
func (e *Eng) encodes(st *State, t types.Type, it ...Val) {
	if t == nil {
		return
	}
	if s, ok := under(t).(*types.Slice); ok && intBits(s.Elem()) == 8 {
		return
	}
	for _, c := range it {
		set, ok := st.charSet(e.norm(st, c))
		if n, isC := constInt(c); isC && n >= 0 && n < 128 || ok && set.Sub(asciiSet) {
			continue
		}
		if e.wide == nil {
			e.wide = map[string]bool{}
		}
		e.wide[e.curFn()] = true
		return
	}
}

// strOf makes a string of a list of characters.
func (e *Eng) strOf(st *State, it []Val, t types.Type) Val {
	all := true
	var rs []rune
	var bs []byte
	for _, c := range it {
		n, ok := constInt(e.norm(st, c))
		if !ok {
			all = false
			break
		}
		rs = append(rs, rune(n))
		bs = append(bs, byte(n))
	}
	isByte := false
	if s, ok := under(t).(*types.Slice); ok && intBits(s.Elem()) == 8 {
		isByte = true
	}
	if all {
		if isByte {
			return mkStr(string(bs))
		}
		return mkStr(string(rs))
	}
	if len(it) == 1 {
		if s, ok := it[0].(*Splat); ok {
			if tm, ok := s.S.(*Term); ok && (tm.Op == "bytes" || tm.Op == "runes") {
				return tm.Args[0]
			}
		}
	}
	return mk("str", tStr, it...)
}
