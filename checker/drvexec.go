package main

// Abstract interpretation of the command: every path from main to its end, with loops over
// lists of unknown length summarised by what one step does.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type dUndec struct{ msg string }

type dSplit struct {
	ctx  *dctx
	atom *dv
}

// dctx is a loop being summarised.
type dctx struct{ start int64 }

type dEng struct {
	p     *Prog
	ord   int64
	ctxs  []*dctx
	depth int
	steps int
	fns   map[*ssa.Function]bool
	loops int
	stop  map[string]bool // functions of the repository that stay calls
	rpo   map[*ssa.Function]*dcfg
	glob  map[*ssa.Global]int64
	init  bool
	usage []*dv // functions that show how the command is used
}

// dout is an end of a function or of the process.
type dout struct {
	st   *dst
	res  []*dv
	exit *dv // exit status
	pos  string
}

type dclo struct {
	fn    *ssa.Function
	binds []*dv
}

type dcall struct {
	common *ssa.CallCommon
	fn     *dv
	args   []*dv
	pos    token.Pos
}

type ditem struct {
	blk    *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]*dv
	st     *dst
	iter   int
	defers []dcall
	fresh  bool // arrives at a loop head from outside
}

func (it *ditem) clone() *ditem {
	n := *it
	n.env = make(map[ssa.Value]*dv, len(it.env))
	for k, v := range it.env {
		n.env[k] = v
	}
	n.st = it.st.clone()
	n.defers = append([]dcall{}, it.defers...)
	return &n
}

type dcfg struct {
	num   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // by head
}

func (e *dEng) cfg(fn *ssa.Function) *dcfg {
	if c := e.rpo[fn]; c != nil {
		return c
	}
	c := &dcfg{num: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	for i := range post {
		c.num[post[len(post)-1-i]] = i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := c.loops[s]
				if l == nil {
					l = map[*ssa.BasicBlock]bool{s: true}
					c.loops[s] = l
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l[x] {
						return
					}
					l[x] = true
					for _, q := range x.Preds {
						back(q)
					}
				}
				back(b)
			}
		}
	}
	e.rpo[fn] = c
	return c
}

func (e *dEng) undec(pos token.Pos, f string, a ...interface{}) {
	panic(dUndec{e.pos(pos) + ": " + fmt.Sprintf(f, a...)})
}

func (e *dEng) pos(p token.Pos) string {
	q := e.p.prog.Fset.Position(p)
	if q.Line == 0 {
		return "-"
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (e *dEng) next() int64 { e.ord++; return e.ord }

// fork decides a condition, taking both ways when it is open.
func (e *dEng) fork(st *dst, c *dv) (t, f *dst) {
	v, known, dead := st.decide(c)
	if dead {
		return nil, nil
	}
	if known {
		if v {
			return st, nil
		}
		return nil, st
	}
	l := litOf(c, true)
	// a condition that does not depend on the steps of a loop is decided before the loop
	for i := len(e.ctxs) - 1; i >= 0; i-- {
		if l.atom.max < e.ctxs[i].start {
			panic(dSplit{e.ctxs[i], l.atom})
		}
		break
	}
	t, f = st, st.clone()
	if !t.assume(c, true) {
		t = nil
	}
	if !f.assume(c, false) {
		f = nil
	}
	return
}

func (e *dEng) call(fn *ssa.Function, args, binds []*dv, st *dst, pos token.Pos) []*dout {
	if fn.Blocks == nil {
		e.undec(pos, "%s has no body", fn)
	}
	e.fns[fn] = true
	if e.depth > 40 {
		e.undec(pos, "%s calls itself", fn)
	}
	e.depth++
	defer func() { e.depth-- }()
	env := map[ssa.Value]*dv{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		env[p] = binds[i]
	}
	start := e.ord
	outs, backs, exits := e.explore(fn, []*ditem{{blk: fn.Blocks[0], env: env, st: st}}, nil, start)
	if len(backs)+len(exits) > 0 {
		e.undec(pos, "control leaves %s", fn)
	}
	// equal results are one
	groups := map[string][]*dst{}
	var order []string
	first := map[string]*dout{}
	var res []*dout
	for _, o := range outs {
		if o.exit != nil {
			res = append(res, o)
			continue
		}
		k := ""
		for _, x := range o.res {
			k += x.key + ";"
		}
		e.gc(o.st, start, o.res)
		if first[k] == nil {
			first[k] = o
			order = append(order, k)
		}
		groups[k] = append(groups[k], o.st)
	}
	for _, k := range order {
		for _, s := range e.merge(groups[k]) {
			res = append(res, &dout{st: s, res: first[k].res, pos: first[k].pos})
		}
	}
	return res
}

// gc drops the cells made since start that nothing refers to.
func (e *dEng) gc(st *dst, start int64, roots []*dv) {
	live := map[int64]bool{}
	var mark func(v *dv)
	var obj func(id int64)
	obj = func(id int64) {
		if live[id] {
			return
		}
		live[id] = true
		if v := st.mem[id]; v != nil {
			mark(v)
		}
	}
	mark = func(v *dv) {
		if v == nil {
			return
		}
		switch r := v.ref.(type) {
		case *dptr:
			obj(r.obj)
		case *dclo:
			for _, b := range r.binds {
				mark(b)
			}
		}
		for _, x := range v.a {
			mark(x)
		}
	}
	for _, r := range roots {
		mark(r)
	}
	for id := range st.mem {
		if id <= start {
			obj(id)
		}
	}
	for _, r := range st.regs {
		mark(r.cell)
	}
	for id := range st.mem {
		if id > start && !live[id] {
			delete(st.mem, id)
		}
	}
}

// weak atoms speak of directories of the system only; paths that differ in them are joined.
func weakAtom(c *dv) bool {
	ok, some := true, false
	var walk func(x *dv)
	walk = func(x *dv) {
		switch x.op {
		case "var", "elem", "fm":
			ok = false
		case "sym":
			if !strings.HasPrefix(x.s, "stat.") {
				ok = false
			}
			some = true
		case "app":
			if x.s == "getenv" {
				some = true
			}
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(c)
	return ok && some
}

// merge joins states that differ in weak facts and in elements of lists these decide.
func (e *dEng) merge(l []*dst) []*dst {
	if len(l) < 2 {
		return l
	}
	buckets := map[string][]*dst{}
	var order []string
	for _, s := range l {
		var k []string
		for a, v := range s.facts {
			k = append(k, fmt.Sprint(a, v))
		}
		// facts about anything else must agree
		k = k[:0]
		for _, x := range s.ord {
			if !weakAtom(x.atom) {
				k = append(k, fmt.Sprint(x.atom.key, x.val))
			}
		}
		sort.Strings(k)
		for _, v := range s.evs {
			k = append(k, fmt.Sprint("ev", v.id))
		}
		k = append(k, fmt.Sprint("u", len(s.univ), "r", len(s.regs)))
		var ids []int64
		for id := range s.mem {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			v := s.mem[id]
			if v.op == "list" || v.op == "nil" {
				k = append(k, fmt.Sprint("cell", id))
			} else {
				k = append(k, fmt.Sprint("cell", id, v.key))
			}
		}
		key := strings.Join(k, "|")
		if buckets[key] == nil {
			order = append(order, key)
		}
		buckets[key] = append(buckets[key], s)
	}
	var res []*dst
	for _, k := range order {
		res = append(res, e.mergeBucket(buckets[k])...)
	}
	return res
}

func (e *dEng) mergeBucket(l []*dst) []*dst {
	if len(l) < 2 {
		return l
	}
	common := map[string]bool{}
	for a, v := range l[0].facts {
		all := true
		for _, s := range l[1:] {
			if w, ok := s.facts[a]; !ok || w != v {
				all = false
			}
		}
		if all {
			common[a] = v
		}
	}
	groups := map[string][]*dst{}
	var order []string
	for _, s := range l {
		var ids []int64
		for id := range s.mem {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		k := ""
		for _, id := range ids {
			k += s.mem[id].key + ";"
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	base := func(s *dst) *dst {
		n := newDst()
		n.mem = s.clone().mem
		for _, x := range s.ord {
			if v, ok := common[x.atom.key]; ok && v == x.val {
				n.ord = append(n.ord, x)
				n.note(x)
			}
		}
		n.evs, n.univ, n.regs = s.evs, s.univ, s.regs
		return n
	}
	if len(order) == 1 {
		return []*dst{base(l[0])}
	}
	if len(order) != 2 {
		return l
	}
	for _, sw := range [][2]string{{order[0], order[1]}, {order[1], order[0]}} {
		a, b := groups[sw[0]], groups[sw[1]]
		if len(b) != 1 {
			continue
		}
		var lits []dlit
		for _, x := range b[0].ord {
			if v, ok := common[x.atom.key]; !ok || v != x.val {
				lits = append(lits, x)
			}
		}
		n := base(a[0])
		ok := true
		for id, v := range b[0].mem {
			w := n.mem[id]
			if w == nil {
				ok = false
				break
			}
			if v.key == w.key {
				continue
			}
			pv, pw := listParts(v), listParts(w)
			if len(pv) <= len(pw) {
				ok = false
				break
			}
			var el []*dv
			for i, p := range pv {
				if i < len(pw) {
					if p.key != pw[i].key {
						ok = false
					}
				} else {
					el = append(el, p)
				}
			}
			np := append([]*dv{}, pw...)
			for i := 0; i < len(el); i++ {
				switch el[i].op {
				case "el":
					np = append(np, dOpt(lits, []*dv{el[i].a[0]}))
				case "opt":
					np = append(np, dOpt(append(append([]dlit{}, el[i].ref.([]dlit)...), lits...), el[i].a))
				default:
					ok = false
				}
			}
			n.mem[id] = normList(np)
		}
		for _, s := range a {
			con := false
			for _, x := range lits {
				if v, k := s.basic(x.atom); k && v != x.val {
					con = true
				}
			}
			if !con {
				ok = false
			}
		}
		if ok {
			return []*dst{n}
		}
	}
	return l
}

// explore runs items to the ends of the function, or, within a loop, to its head and its exits.
func (e *dEng) explore(fn *ssa.Function, items []*ditem, within map[*ssa.BasicBlock]bool, start int64) (outs []*dout, backs, exits []*ditem) {
	c := e.cfg(fn)
	var head *ssa.BasicBlock
	if within != nil {
		head = items[0].blk
	}
	first := true
	for len(items) > 0 {
		best := 0
		for i, it := range items {
			b := items[best]
			if it.iter < b.iter || it.iter == b.iter && c.num[it.blk] < c.num[b.blk] {
				best = i
			}
		}
		it := items[best]
		var same, rest []*ditem
		for _, x := range items {
			if x.blk == it.blk && x.iter == it.iter {
				same = append(same, x)
			} else {
				rest = append(rest, x)
			}
		}
		items = rest
		same = e.mergeItems(fn, same, start)
		for _, it := range same {
			if it.iter > 400 {
				e.undec(fn.Pos(), "a loop of %s goes on and on", fn)
			}
			var nx []*ditem
			if l := c.loops[it.blk]; l != nil && it.fresh && !(first && it.blk == head) {
				var o []*dout
				nx, o = e.loop(fn, it, l, start)
				outs = append(outs, o...)
			} else {
				o, n := e.block(fn, it)
				outs = append(outs, o...)
				nx = n
			}
			first = false
			for _, n := range nx {
				if within != nil && n.blk == head {
					backs = append(backs, n)
				} else if within != nil && !within[n.blk] {
					exits = append(exits, n)
				} else {
					items = append(items, n)
				}
			}
		}
	}
	return
}

func (e *dEng) mergeItems(fn *ssa.Function, l []*ditem, start int64) []*ditem {
	if len(l) < 2 {
		return l
	}
	groups := map[string][]*ditem{}
	var order []string
	for _, it := range l {
		var ks []string
		for v, d := range it.env {
			in, isIn := v.(ssa.Instruction)
			if isIn && in.Block() != it.blk && !in.Block().Dominates(it.blk) {
				delete(it.env, v)
				continue
			}
			if isIn && in.Block() == it.blk {
				if _, isPhi := v.(*ssa.Phi); !isPhi {
					delete(it.env, v)
					continue
				}
			}
			ks = append(ks, v.Name()+"="+d.key)
		}
		sort.Strings(ks)
		k := strings.Join(ks, ";") + fmt.Sprint("defers", len(it.defers), it.fresh, it.idx)
		for _, d := range it.defers {
			k += fmt.Sprint(d.pos)
			for _, a := range d.args {
				k += a.key
			}
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	var res []*ditem
	for _, k := range order {
		g := groups[k]
		var sts []*dst
		for _, it := range g {
			var roots []*dv
			for _, d := range it.env {
				roots = append(roots, d)
			}
			for _, d := range it.defers {
				roots = append(roots, d.args...)
				if d.fn != nil {
					roots = append(roots, d.fn)
				}
			}
			e.gc(it.st, start, roots)
			sts = append(sts, it.st)
		}
		for i, s := range e.merge(sts) {
			n := *g[0]
			if i > 0 {
				n.env = map[ssa.Value]*dv{}
				for k, v := range g[0].env {
					n.env[k] = v
				}
			}
			n.st = s
			res = append(res, &n)
		}
	}
	return res
}

// to continues at a successor.
func (e *dEng) to(it *ditem, s *ssa.BasicBlock) *ditem {
	n := *it
	n.env = make(map[ssa.Value]*dv, len(it.env))
	for k, v := range it.env {
		n.env[k] = v
	}
	pi := -1
	for i, p := range s.Preds {
		if p == it.blk {
			pi = i
		}
	}
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n.env[ph] = e.val(it, ph.Edges[pi])
	}
	n.blk, n.idx = s, 0
	if s.Dominates(it.blk) {
		n.iter++
	}
	n.fresh = true
	return &n
}

func (e *dEng) val(it *ditem, v ssa.Value) *dv {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return e.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return dBool(constant.BoolVal(x.Value))
		case constant.String:
			return dStr(constant.StringVal(x.Value))
		case constant.Int:
			n, ok := constant.Int64Val(x.Value)
			if ok {
				return dInt(n)
			}
		}
		return dApp("const:" + x.Value.String())
	case *ssa.Function:
		d := mkd("clo", x.String(), 0)
		d.ref = &dclo{x, nil}
		return d
	case *ssa.Global:
		return e.global(it.st, x)
	case *ssa.Builtin:
		return dApp("builtin:" + x.Name())
	}
	if d := it.env[v]; d != nil {
		return d
	}
	e.undec(v.Pos(), "no value of %s in %s", v.Name(), it.blk.Parent())
	return nil
}

func (e *dEng) global(st *dst, g *ssa.Global) *dv {
	if g.Pkg == e.p.pkg {
		id, ok := e.glob[g]
		if !ok {
			id = -int64(len(e.glob) + 1)
			e.glob[g] = id
		}
		if st.mem[id] == nil {
			if e.init {
				st.mem[id] = e.zero(g.Type().(*types.Pointer).Elem())
			} else {
				st.mem[id] = dVar("global " + g.Name())
			}
		}
		return dPtr(id)
	}
	return mkd("fptr", "global "+g.String(), 0)
}

func (e *dEng) zero(t types.Type) *dv {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return dFalse
		case u.Info()&types.IsString != 0:
			return dStr("")
		case u.Info()&types.IsInteger != 0:
			return dInt(0)
		case u.Kind() == types.UntypedNil:
			return dNil
		}
		return dApp("zero:" + t.String())
	case *types.Struct:
		a := make([]*dv, u.NumFields())
		for i := range a {
			a[i] = e.zero(u.Field(i).Type())
		}
		return mkd("struct", "", 0, a...)
	case *types.Array:
		if u.Len() > 4096 {
			return dApp("zero:" + t.String())
		}
		a := make([]*dv, u.Len())
		for i := range a {
			a[i] = e.zero(u.Elem())
		}
		return mkd("array", "", 0, a...)
	case *types.Slice:
		return dList()
	}
	return dNil
}

func dgetPath(v *dv, path []int) *dv {
	for _, i := range path {
		if v == nil || v.op != "struct" && v.op != "array" || i >= len(v.a) {
			return nil
		}
		v = v.a[i]
	}
	return v
}

func dsetPath(v *dv, path []int, x *dv) *dv {
	if len(path) == 0 {
		return x
	}
	if v.op != "struct" && v.op != "array" || path[0] >= len(v.a) {
		return nil
	}
	a := append([]*dv{}, v.a...)
	a[path[0]] = dsetPath(a[path[0]], path[1:], x)
	if a[path[0]] == nil {
		return nil
	}
	return mkd(v.op, v.s, v.n, a...)
}

func (e *dEng) load(st *dst, p *dv, pos token.Pos) *dv {
	switch p.op {
	case "ptr":
		r := p.ref.(*dptr)
		if v := st.mem[r.obj]; v != nil {
			if x := dgetPath(v, r.path); x != nil {
				return x
			}
			if v.op != "struct" && v.op != "array" {
				t := v
				for _, i := range r.path {
					t = dApp("field", t, dInt(int64(i)))
				}
				return t
			}
		}
	case "eptr":
		return dElem(p.a[0], p.a[1])
	case "fptr":
		if p.s == "global os.Args" {
			return dVar("os.Args")
		}
		return dApp("load", p)
	case "nil":
		e.undec(pos, "a nil pointer is used")
	}
	if p.op == "ptr" {
		e.undec(pos, "reading %s", showD(p))
	}
	return dApp("load", p)
}

func (e *dEng) store(st *dst, p, v *dv, pos token.Pos) {
	switch p.op {
	case "ptr":
		r := p.ref.(*dptr)
		if o := st.mem[r.obj]; o != nil {
			if n := dsetPath(o, r.path, v); n != nil {
				st.mem[r.obj] = n
				return
			}
		}
	case "fptr":
		if strings.HasPrefix(p.s, "global ") {
			if strings.HasSuffix(p.s, "pflag.Usage") {
				e.usage = append(e.usage, v)
			}
			return
		}
	}
	e.undec(pos, "storing to %s", showD(p))
}

// block runs a block to its end.
func (e *dEng) block(fn *ssa.Function, it0 *ditem) (outs []*dout, next []*ditem) {
	work := []*ditem{it0}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
	instrs:
		for it.idx < len(it.blk.Instrs) {
			in := it.blk.Instrs[it.idx]
			it.idx++
			e.steps++
			if e.steps > 30000000 {
				e.undec(in.Pos(), "too many steps")
			}
			// set continues with several outcomes of an instruction
			multi := func(v ssa.Value, l []*dout) {
				for _, o := range l {
					if o.exit != nil {
						outs = append(outs, o)
						continue
					}
					n := *it
					n.env = make(map[ssa.Value]*dv, len(it.env))
					for k, x := range it.env {
						n.env[k] = x
					}
					n.defers = append([]dcall{}, it.defers...)
					n.st = o.st
					if v != nil {
						switch len(o.res) {
						case 0:
						case 1:
							n.env[v] = o.res[0]
						default:
							n.env[v] = mkd("tuple", "", 0, o.res...)
						}
					}
					work = append(work, &n)
				}
			}
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Alloc:
				id := e.next()
				it.st.mem[id] = e.zero(x.Type().(*types.Pointer).Elem())
				it.env[x] = dPtr(id)
			case *ssa.Store:
				e.store(it.st, e.val(it, x.Addr), e.val(it, x.Val), x.Pos())
			case *ssa.UnOp:
				v := e.val(it, x.X)
				switch x.Op {
				case token.MUL:
					it.env[x] = e.load(it.st, v, x.Pos())
				case token.NOT:
					it.env[x] = dNot(v)
				case token.SUB:
					if v.op == "int" {
						it.env[x] = dInt(-v.n)
					} else {
						it.env[x] = dApp("neg", v)
					}
				default:
					it.env[x] = dApp("unop"+x.Op.String(), v)
				}
			case *ssa.BinOp:
				it.env[x] = e.binop(it.st, x, e.val(it, x.X), e.val(it, x.Y))
			case *ssa.FieldAddr:
				b := e.val(it, x.X)
				if b.op == "ptr" {
					r := b.ref.(*dptr)
					it.env[x] = dPtr(r.obj, append(append([]int{}, r.path...), x.Field)...)
				} else if b.op == "nil" {
					e.undec(x.Pos(), "a nil pointer is used")
				} else {
					it.env[x] = mkd("fptr", "", int64(x.Field), b)
				}
			case *ssa.Field:
				b := e.val(it, x.X)
				if b.op == "struct" {
					it.env[x] = b.a[x.Field]
				} else {
					it.env[x] = dApp("field", b, dInt(int64(x.Field)))
				}
			case *ssa.IndexAddr:
				b, i := e.val(it, x.X), e.resolve(it.st, e.val(it, x.Index))
				if b.op == "ptr" {
					r := b.ref.(*dptr)
					if i.op != "int" {
						// an array at an unknown place: as a list
						arr := e.load(it.st, b, x.Pos())
						if arr.op != "array" {
							e.undec(x.Pos(), "index of %s", showD(b))
						}
						var parts []*dv
						for _, y := range arr.a {
							parts = append(parts, dEl(y))
						}
						it.env[x] = mkd("eptr", "", 0, dList(parts...), i)
						break
					}
					it.env[x] = dPtr(r.obj, append(append([]int{}, r.path...), int(i.n))...)
				} else {
					it.env[x] = mkd("eptr", "", 0, b, i)
				}
			case *ssa.Index:
				b, i := e.resolve(it.st, e.val(it, x.X)), e.resolve(it.st, e.val(it, x.Index))
				switch {
				case b.op == "str" && i.op == "int" && i.n >= 0 && int(i.n) < len(b.s):
					it.env[x] = dInt(int64(b.s[i.n]))
				case b.op == "array" && i.op == "int" && i.n >= 0 && int(i.n) < len(b.a):
					it.env[x] = b.a[i.n]
				default:
					it.env[x] = dApp("byte", b, i)
				}
			case *ssa.Slice:
				it.env[x] = e.slice(it, x)
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				var bs []*dv
				var a []*dv
				for _, b := range x.Bindings {
					v := e.val(it, b)
					bs = append(bs, v)
					a = append(a, v)
				}
				d := mkd("clo", fn.String(), 0, a...)
				d.ref = &dclo{fn, bs}
				it.env[x] = d
			case *ssa.MakeSlice:
				n := e.resolve(it.st, e.val(it, x.Len))
				if n.op != "int" || n.n < 0 || n.n > 64 {
					e.undec(x.Pos(), "a list of unknown length is made")
				}
				if n.n == 0 {
					it.env[x] = dList()
					break
				}
				var parts []*dv
				for i := int64(0); i < n.n; i++ {
					parts = append(parts, dEl(e.zero(x.Type().Underlying().(*types.Slice).Elem())))
				}
				it.env[x] = dList(parts...)
			case *ssa.MakeMap:
				id := e.next()
				it.st.mem[id] = mkd("mapv", "", 0)
				m := mkd("map", "", id)
				m.ref = &dptr{obj: id}
				it.env[x] = m
			case *ssa.MapUpdate:
				m := e.val(it, x.Map)
				k, v := e.resolve(it.st, e.val(it, x.Key)), e.val(it, x.Value)
				if m.op != "map" || !k.isConst() || len(e.ctxs) > 0 {
					e.undec(x.Pos(), "a map is changed in an unknown way")
				}
				id := m.ref.(*dptr).obj
				o := it.st.mem[id]
				a := append([]*dv{}, o.a...)
				done := false
				for i := 0; i < len(a); i += 2 {
					if a[i].key == k.key {
						a[i+1] = v
						done = true
					}
				}
				if !done {
					a = append(a, k, v)
				}
				it.st.mem[id] = mkd("mapv", "", 0, a...)
			case *ssa.Lookup:
				m, k := e.val(it, x.X), e.resolve(it.st, e.val(it, x.Index))
				if m.op != "map" {
					if m.op == "str" && k.op == "int" && k.n >= 0 && int(k.n) < len(m.s) {
						it.env[x] = dInt(int64(m.s[k.n]))
						break
					}
					if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
						b := e.resolve(it.st, m)
						if b.op == "str" && k.op == "int" && k.n >= 0 && int(k.n) < len(b.s) {
							it.env[x] = dInt(int64(b.s[k.n]))
							break
						}
						it.env[x] = dApp("byte", b, k)
						break
					}
					e.undec(x.Pos(), "look-up in an unknown map")
				}
				o := it.st.mem[m.ref.(*dptr).obj]
				ret := func(v *dv, ok bool) []*dv {
					if x.CommaOk {
						return []*dv{v, dBool(ok)}
					}
					return []*dv{v}
				}
				cur := it.st
				var l []*dout
				for i := 0; i < len(o.a) && cur != nil; i += 2 {
					t, f := e.fork(cur, dEq(k, o.a[i]))
					if t != nil {
						l = append(l, &dout{st: t, res: ret(o.a[i+1], true)})
					}
					cur = f
				}
				if cur != nil {
					l = append(l, &dout{st: cur, res: ret(e.zero(x.X.Type().Underlying().(*types.Map).Elem()), false)})
				}
				multi(x, l)
				it = nil
				break instrs
			case *ssa.Extract:
				t := e.val(it, x.Tuple)
				if t.op == "tuple" {
					it.env[x] = t.a[x.Index]
				} else {
					it.env[x] = dApp("result", t, dInt(int64(x.Index)))
				}
			case *ssa.ChangeType:
				it.env[x] = e.val(it, x.X)
			case *ssa.ChangeInterface:
				it.env[x] = e.val(it, x.X)
			case *ssa.MakeInterface:
				it.env[x] = e.val(it, x.X)
			case *ssa.Convert:
				v := e.val(it, x.X)
				tb, _ := x.Type().Underlying().(*types.Basic)
				fb, _ := x.X.Type().Underlying().(*types.Basic)
				switch {
				case tb != nil && fb != nil && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
					it.env[x] = v
				case tb != nil && fb != nil && tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
					if r := e.resolve(it.st, v); r.op == "int" {
						it.env[x] = dStr(string(rune(r.n)))
					} else {
						it.env[x] = dApp("string", v)
					}
				default:
					// between strings and bytes
					it.env[x] = v
				}
			case *ssa.TypeAssert:
				e.undec(x.Pos(), "a type assertion is not modelled")
			case *ssa.Call:
				l := e.docall(it, &x.Call, x.Pos())
				if len(l) == 1 && l[0].exit == nil {
					it.st = l[0].st
					switch r := l[0].res; len(r) {
					case 0:
					case 1:
						it.env[x] = r[0]
					default:
						it.env[x] = mkd("tuple", "", 0, r...)
					}
					break
				}
				multi(x, l)
				it = nil
				break instrs
			case *ssa.Defer:
				c := dcall{common: &x.Call, pos: x.Pos()}
				if !x.Call.IsInvoke() {
					if _, ok := x.Call.Value.(*ssa.Builtin); ok {
						e.undec(x.Pos(), "a deferred builtin is not modelled")
					}
				}
				c.fn = e.val(it, x.Call.Value)
				for _, a := range x.Call.Args {
					c.args = append(c.args, e.val(it, a))
				}
				it.defers = append(append([]dcall{}, it.defers...), c)
			case *ssa.RunDefers:
				if len(it.defers) == 0 {
					break
				}
				d := it.defers[len(it.defers)-1]
				it.defers = it.defers[:len(it.defers)-1]
				it.idx-- // until none is left
				l := e.invoke(it.st, d.common, d.fn, d.args, d.pos)
				multi(nil, l)
				it = nil
				break instrs
			case *ssa.Return:
				o := &dout{st: it.st, pos: e.pos(x.Pos())}
				for _, r := range x.Results {
					o.res = append(o.res, e.val(it, r))
				}
				outs = append(outs, o)
				it = nil
				break instrs
			case *ssa.Jump:
				next = append(next, e.to(it, it.blk.Succs[0]))
				it = nil
				break instrs
			case *ssa.If:
				c := e.val(it, x.Cond)
				t, f := e.fork(it.st, c)
				for i, s := range []*dst{t, f} {
					for _, s := range splitBytes(s, c) {
						n := *it
						n.st = s
						next = append(next, e.to(&n, it.blk.Succs[i]))
					}
				}
				it = nil
				break instrs
			case *ssa.Panic:
				outs = append(outs, &dout{st: it.st, exit: dApp("panic"), pos: e.pos(x.Pos())})
				it = nil
				break instrs
			default:
				e.undec(in.Pos(), "%T is not modelled", in)
			}
		}
	}
	return
}

// splitBytes treats the few possible values of a byte of a string one by one.
func splitBytes(s *dst, c *dv) []*dst {
	if s == nil {
		return nil
	}
	var b *dv
	var find func(x *dv)
	find = func(x *dv) {
		if x.op == "app" && x.s == "byte" {
			b = x
		}
		for _, y := range x.a {
			find(y)
		}
	}
	find(c)
	if b == nil {
		return []*dst{s}
	}
	r := s.rangeOf(b)
	if r.lo == r.hi || r.hi-r.lo > 12 {
		return []*dst{s}
	}
	var res []*dst
	for n := r.lo; n <= r.hi; n++ {
		t := s.clone()
		if t.assume(dEq(b, dInt(n)), true) {
			res = append(res, t)
		}
	}
	return res
}

// resolve replaces what the facts say is a constant.
func (e *dEng) resolve(st *dst, v *dv) *dv {
	if c := st.eqc[v.key]; c != nil {
		return c
	}
	return v
}

func (e *dEng) binop(st *dst, x *ssa.BinOp, a, b *dv) *dv {
	str := false
	slice := false
	if t, ok := x.X.Type().Underlying().(*types.Basic); ok {
		str = t.Info()&types.IsString != 0
	}
	_, slice = x.X.Type().Underlying().(*types.Slice)
	_ = slice
	if a.op == "app" && a.s == "byte" {
		a = e.resolve(st, a)
	}
	if b.op == "app" && b.s == "byte" {
		b = e.resolve(st, b)
	}
	switch x.Op {
	case token.ADD:
		if str {
			return dCat(a, b)
		}
		a, b = e.resolve(st, a), e.resolve(st, b)
		if b.op == "int" {
			return dAdd(a, b.n)
		}
		if a.op == "int" {
			return dAdd(b, a.n)
		}
	case token.SUB:
		a, b = e.resolve(st, a), e.resolve(st, b)
		if b.op == "int" {
			return dAdd(a, -b.n)
		}
		return dApp("sub", a, b)
	case token.EQL:
		return dEq(a, b)
	case token.NEQ:
		return dNot(dEq(a, b))
	case token.LSS:
		if !str {
			return dLt(a, b)
		}
	case token.GTR:
		if !str {
			return dLt(b, a)
		}
	case token.LEQ:
		if !str {
			return dNot(dLt(b, a))
		}
	case token.GEQ:
		if !str {
			return dNot(dLt(a, b))
		}
	}
	return dApp("op"+x.Op.String(), a, b)
}

func (e *dEng) slice(it *ditem, x *ssa.Slice) *dv {
	b := e.val(it, x.X)
	get := func(v ssa.Value) *dv {
		if v == nil {
			return nil
		}
		return e.resolve(it.st, e.val(it, v))
	}
	lo, hi := get(x.Low), get(x.High)
	if lo != nil && lo.op == "int" && lo.n == 0 {
		lo = nil
	}
	if b.op == "ptr" {
		arr := e.load(it.st, b, x.Pos())
		if arr.op != "array" {
			e.undec(x.Pos(), "a slice of %s", showD(arr))
		}
		var parts []*dv
		for _, y := range arr.a {
			parts = append(parts, dEl(y))
		}
		b = dList(parts...)
		if lo == nil && hi == nil {
			return b
		}
	}
	if t, ok := x.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
		if lo == nil && hi == nil {
			return b
		}
		if lo == nil && hi.key == dApp("sub", mkd("slen", "", 0, b), mkd("slen", "", 0, dExt(b))).key {
			return dStem(b)
		}
		// x[:len(x)-len(c)] where c is the suffix of x
		if lo == nil {
			if y, n := linOf(hi); y != nil && y.op == "slen" && y.a[0].key == b.key {
				if c := it.st.eqc[dExt(b).key]; c != nil && int64(len(c.s)) == -n {
					return dStem(b)
				}
			}
		}
		if b.op == "str" && (lo == nil || lo.op == "int") && (hi == nil || hi.op == "int") {
			l, h := int64(0), int64(len(b.s))
			if lo != nil {
				l = lo.n
			}
			if hi != nil {
				h = hi.n
			}
			if 0 <= l && l <= h && h <= int64(len(b.s)) {
				return dStr(b.s[l:h])
			}
		}
		n := []*dv{b, dInt(0), dApp("end")}
		if lo != nil {
			n[1] = lo
		}
		if hi != nil {
			n[2] = hi
		}
		return dApp("substr", n...)
	}
	if lo == nil && hi == nil {
		return b
	}
	// a list
	parts := listParts(b)
	el := true
	for _, p := range parts {
		if p.op != "el" {
			el = false
		}
	}
	if el && (lo == nil || lo.op == "int") && (hi == nil || hi.op == "int") {
		l, h := int64(0), int64(len(parts))
		if lo != nil {
			l = lo.n
		}
		if hi != nil {
			h = hi.n
		}
		if 0 <= l && l <= h && h <= int64(len(parts)) {
			return dList(parts[l:h]...)
		}
	}
	if hi != nil && hi.op == "int" && hi.n == 0 {
		return dList()
	}
	if hi == nil && lo.op == "int" && len(parts) > 0 {
		k := lo.n
		for k > 0 && len(parts) > 0 && parts[0].op == "el" {
			parts = parts[1:]
			k--
		}
		if k == 0 {
			return normList(parts)
		}
		return dApp("slice", normList(parts), dInt(k))
	}
	e.undec(x.Pos(), "this slice of a list is not modelled")
	return nil
}

func (e *dEng) docall(it *ditem, c *ssa.CallCommon, pos token.Pos) []*dout {
	var args []*dv
	for _, a := range c.Args {
		args = append(args, e.val(it, a))
	}
	var f *dv
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return []*dout{{st: it.st, res: e.builtin(it.st, b.Name(), c, args, pos)}}
	}
	f = e.val(it, c.Value)
	return e.invoke(it.st, c, f, args, pos)
}

func (e *dEng) builtin(st *dst, name string, c *ssa.CallCommon, args []*dv, pos token.Pos) []*dv {
	switch name {
	case "append":
		if len(args) == 1 {
			return args
		}
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return []*dv{dCat(args[0], args[1])}
		}
		return []*dv{listCat(args[0], args[1])}
	case "len":
		if b, ok := c.Args[0].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			x := e.resolve(st, args[0])
			if x.op == "str" {
				return []*dv{dInt(int64(len(x.s)))}
			}
			return []*dv{mkd("slen", "", 0, x)}
		}
		if args[0].op == "map" {
			return []*dv{dInt(int64(len(st.mem[args[0].ref.(*dptr).obj].a) / 2))}
		}
		return []*dv{dLen(args[0])}
	case "cap":
		return []*dv{dApp("cap", args...)}
	case "print", "println":
		return nil
	case "min", "max":
		return []*dv{dApp(name, args...)}
	}
	e.undec(pos, "%s is not modelled", name)
	return nil
}

func (e *dEng) invoke(st *dst, c *ssa.CallCommon, f *dv, args []*dv, pos token.Pos) []*dout {
	if c.IsInvoke() {
		n := c.Method.Name()
		if f.op == "clo" || f.op == "ptr" {
			e.undec(pos, "the method %s of an interface is not modelled", n)
		}
		switch n {
		case "Error", "String", "IsDir", "Mode", "Size", "Name", "IsRegular", "Perm":
			return []*dout{{st: st, res: []*dv{dApp("method:"+n, append([]*dv{f}, args...)...)}}}
		}
		e.undec(pos, "the method %s of an interface is not modelled", n)
	}
	if f.op != "clo" {
		e.undec(pos, "a call of an unknown function (%s)", showD(f))
	}
	cl := f.ref.(*dclo)
	fn := cl.fn
	if r, ok := e.model(st, fn, c, args, pos); ok {
		return r
	}
	if (fn.Pkg == e.p.pkg || fn.Pkg == nil && fn.Blocks != nil && e.ours(fn)) && fn.Blocks != nil {
		return e.call(fn, args, cl.binds, st, pos)
	}
	e.undec(pos, "a call of %s is not modelled", fn)
	return nil
}

// ours are the wrappers of methods and instances of generic functions.
func (e *dEng) ours(fn *ssa.Function) bool {
	return fn.Synthetic != "" && (strings.Contains(fn.Synthetic, "bound method") || strings.Contains(fn.Synthetic, "thunk") || strings.Contains(fn.Synthetic, "wrapper")) || fn.Origin() != nil && fn.Origin().Pkg == e.p.pkg
}

// loop runs a loop from its entry: step by step while its length is known, by a summary of
// its steps otherwise.
func (e *dEng) loop(fn *ssa.Function, it *ditem, body map[*ssa.BasicBlock]bool, start int64) (next []*ditem, outs []*dout) {
	h := it.blk
	// does the head decide?
	open, cond := e.tryHead(fn, it)
	if !open {
		n := *it
		n.fresh = false
		o, nx := e.block(fn, &n)
		return nx, o
	}
	_ = cond
	for {
		sp := func() (sp *dSplit) {
			nctx := len(e.ctxs)
			dep := e.depth
			defer func() {
				if x := recover(); x != nil {
					e.ctxs = e.ctxs[:nctx]
					e.depth = dep
					if s, ok := x.(dSplit); ok && len(e.ctxs) == nctx && s.ctx.start == -1 {
						sp = &s
						return
					}
					panic(x)
				}
			}()
			next, outs = e.summary(fn, it, body, h, start)
			return nil
		}()
		if sp == nil {
			return
		}
		t, f := e.fork(it.st.clone(), sp.atom)
		next, outs = nil, nil
		for _, s := range []*dst{t, f} {
			if s == nil {
				continue
			}
			n := it.clone()
			n.st = s
			nx, o := e.loop(fn, n, body, start)
			next = append(next, nx...)
			outs = append(outs, o...)
		}
		return
	}
}

// tryHead runs the head of the loop to see whether its condition is open.
func (e *dEng) tryHead(fn *ssa.Function, it *ditem) (open bool, cond *dv) {
	n := it.clone()
	ifi, ok := it.blk.Instrs[len(it.blk.Instrs)-1].(*ssa.If)
	if !ok {
		return false, nil
	}
	for _, in := range it.blk.Instrs[:len(it.blk.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef, *ssa.Field:
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false, nil
			}
		default:
			return false, nil
		}
	}
	// run it with a copy of the block's instructions before the test
	sub := *n
	sub.idx = 0
	for _, in := range it.blk.Instrs[:len(it.blk.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.BinOp:
			sub.env[x] = e.binop(sub.st, x, e.val(&sub, x.X), e.val(&sub, x.Y))
		case *ssa.UnOp:
			if x.Op == token.MUL {
				sub.env[x] = e.load(sub.st, e.val(&sub, x.X), x.Pos())
			} else if x.Op == token.NOT {
				sub.env[x] = dNot(e.val(&sub, x.X))
			} else {
				return false, nil
			}
		case *ssa.FieldAddr:
			b := e.val(&sub, x.X)
			if b.op == "ptr" {
				r := b.ref.(*dptr)
				sub.env[x] = dPtr(r.obj, append(append([]int{}, r.path...), x.Field)...)
			} else {
				sub.env[x] = mkd("fptr", "", int64(x.Field), b)
			}
		case *ssa.Field, *ssa.IndexAddr:
			return false, nil
		case *ssa.Call:
			sub.env[x] = e.builtin(sub.st, "len", &x.Call, []*dv{e.val(&sub, x.Call.Args[0])}, x.Pos())[0]
		}
	}
	c := e.val(&sub, ifi.Cond)
	v, known, dead := sub.st.decide(c)
	if known && !v || dead {
		return false, c
	}
	// a step that is made because the list is not empty says nothing about the others
	l := litOf(c, true).atom
	return !known || l.op == "lt", c
}

type dcar struct {
	phi  *ssa.Phi
	cell int64
	mode string // const, count, acc, any
	v0   *dv
	sym  *dv
}

func (e *dEng) summary(fn *ssa.Function, it *ditem, body map[*ssa.BasicBlock]bool, h *ssa.BasicBlock, start int64) (next []*ditem, outs []*dout) {
	e.loops++
	ctx := &dctx{start: e.ord + 1}
	var cars []*dcar
	for _, in := range h.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			cars = append(cars, &dcar{phi: p, mode: "const", v0: it.env[p]})
		}
	}
	cells := map[int64]*dcar{}
	k := dSym("k", e.next())
	for _, c := range cars {
		for i, ed := range c.phi.Edges {
			if h.Dominates(h.Preds[i]) {
				if b, ok := ed.(*ssa.BinOp); ok && b.Op == token.ADD {
					if n, ok := b.Y.(*ssa.Const); ok && b.X == c.phi && n.Int64() == 1 {
						c.mode = "count"
					}
				}
			}
		}
	}
	lp := &dloop{id: k.n, k: k, pos: e.pos(h.Instrs[0].Pos())}
	for _, b := range h.Instrs {
		if b.Pos() != token.NoPos {
			lp.pos = e.pos(b.Pos())
		}
	}
	for round := 0; ; round++ {
		if round > 12 {
			e.undec(fn.Pos(), "a loop of %s has no invariant", fn)
		}
		st := it.st.clone()
		n := it.clone()
		n.st = st
		n.fresh = false
		hyp := func(c *dcar) *dv {
			switch c.mode {
			case "count":
				if c.v0.op == "int" || c.v0.op == "add" {
					if c.v0.op == "int" {
						return dAdd(k, c.v0.n)
					}
				}
				c.mode = "any"
			case "acc":
				if c.sym == nil {
					c.sym = mkd("acc", "", e.next())
					c.sym.max = c.sym.n
				}
				return normList(append(append([]*dv{}, listParts(c.v0)...), c.sym))
			}
			if c.mode == "any" {
				if c.sym == nil || c.sym.op != "sym" {
					c.sym = dSym("carried", e.next())
				}
				return c.sym
			}
			return c.v0
		}
		hv := map[*dcar]*dv{}
		for _, c := range cars {
			if c.phi != nil {
				hv[c] = hyp(c)
				n.env[c.phi] = hv[c]
			} else {
				hv[c] = hyp(c)
				st.mem[c.cell] = hv[c]
			}
		}
		base := len(st.ord)
		evb := len(st.evs)
		unb := len(st.univ)
		e.ctxs = append(e.ctxs, ctx)
		o, backs, exits := func() (o []*dout, b, x []*ditem) {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(dSplit); ok && s.ctx == ctx {
						panic(dSplit{&dctx{start: -1}, s.atom})
					}
					panic(r)
				}
			}()
			return e.explore(fn, []*ditem{n}, body, start)
		}()
		e.ctxs = e.ctxs[:len(e.ctxs)-1]
		// what did the steps change?
		stable := true
		weaken := func(c *dcar, nv *dv) {
			stable = false
			if c.mode == "const" && isListish(c.v0) && isListish(nv) && prefixParts(listParts(c.v0), listParts(nv)) {
				c.mode = "acc"
			} else {
				c.mode = "any"
			}
			c.sym = nil
		}
		for _, b := range backs {
			if len(b.defers) != len(it.defers) {
				e.undec(fn.Pos(), "a deferred call in a loop of %s", fn)
			}
			for _, c := range cars {
				var nv *dv
				if c.phi != nil {
					nv = b.env[c.phi]
				} else {
					nv = b.st.mem[c.cell]
				}
				switch c.mode {
				case "const", "any":
					if c.mode == "const" && nv.key != c.v0.key {
						weaken(c, nv)
					}
				case "count":
					if nv.key != dAdd(hv[c], 1).key {
						weaken(c, nv)
					}
				case "acc":
					if !isListish(nv) || !prefixParts(listParts(hv[c]), listParts(nv)) {
						weaken(c, nv)
					}
				}
			}
			for id, v := range it.st.mem {
				if cells[id] == nil && b.st.mem[id] != nil && b.st.mem[id].key != v.key {
					c := &dcar{cell: id, mode: "const", v0: v}
					cells[id] = c
					cars = append(cars, c)
					weaken(c, b.st.mem[id])
				}
			}
		}
		if !stable {
			continue
		}
		// cases of one step
		lp.cases = nil
		for _, b := range backs {
			cs := &dcase{app: map[int64][]*dv{}}
			cs.lits = append(cs.lits, b.st.ord[base:]...)
			cs.evs = append(cs.evs, b.st.evs[evb:]...)
			if len(b.st.univ) > unb {
				// facts of inner loops do not outlive the step
				_ = unb
			}
			for _, c := range cars {
				if c.mode == "acc" {
					nv := b.env[c.phi]
					if c.phi == nil {
						nv = b.st.mem[c.cell]
					}
					for _, p := range listParts(nv)[len(listParts(hv[c])):] {
						cs.app[c.sym.n] = append(cs.app[c.sym.n], p)
					}
				}
			}
			lp.cases = append(lp.cases, cs)
		}
		// the end of the loop: the exits of the head
		var nCond *dv
		ex := []*ditem{}
		var early []*ditem
		headExit := func(x *ditem) bool {
			// only the test of the head was made
			return len(x.st.evs) == evb && x.blk != h && x.headOnly(h, base)
		}
		for _, x := range exits {
			if headExit(x) && len(x.st.ord) == base+1 {
				l := x.st.ord[base]
				if l.atom.op == "lt" && !l.val && (l.atom.a[0].key == k.key || l.atom.a[0].op == "add" && l.atom.a[0].a[0].key == k.key) && !contains(l.atom.a[1], k.key) {
					nCond = dAdd(l.atom.a[1], -linN(l.atom.a[0]))
					ex = append(ex, x)
					continue
				}
			}
			early = append(early, x)
		}
		if nCond == nil {
			e.undec(fn.Pos(), "a loop of %s at %s does not count the elements of a list", fn, lp.pos)
		}
		if nCond.max >= ctx.start {
			e.undec(fn.Pos(), "the bound of a loop of %s changes in it", fn)
		}
		lp.n = nCond
		fin := func(x *dst, env map[ssa.Value]*dv, res []*dv, defers []dcall, whole bool) {
			f := func(v *dv) *dv {
				if v.op == "acc" {
					for _, c := range cars {
						if c.sym != nil && c.sym.key == v.key {
							w := "prefix"
							var a []*dv
							if whole {
								w = "whole"
							} else {
								a = []*dv{k}
							}
							fm := mkd("fm", w, c.sym.n, a...)
							fm.ref = lp
							return fm
						}
					}
				}
				if whole && v.key == k.key {
					return nCond
				}
				return nil
			}
			sub := func(v *dv) *dv {
				if v == nil {
					return nil
				}
				if v.ref != nil && v.op == "clo" {
					cl := v.ref.(*dclo)
					var bs []*dv
					for _, b := range cl.binds {
						bs = append(bs, dmap(b, f))
					}
					n := mkd("clo", v.s, 0, bs...)
					n.ref = &dclo{cl.fn, bs}
					return n
				}
				return dmap(v, f)
			}
			for id, v := range x.mem {
				x.mem[id] = sub(v)
			}
			for q, v := range env {
				env[q] = sub(v)
			}
			for i, v := range res {
				res[i] = sub(v)
			}
			for i := range defers {
				for j, a := range defers[i].args {
					defers[i].args[j] = sub(a)
				}
			}
			// the events: those before, the steps, those of the last one
			var evs []*dev
			evs = append(evs, x.evs[:evb]...)
			busy := false
			for _, c := range lp.cases {
				if len(c.evs) > 0 {
					busy = true
				}
			}
			if busy {
				evs = append(evs, &dev{kind: "foreach", loop: lp, whole: whole, id: lp.id, pos: lp.pos})
			}
			for _, v := range x.evs[evb:] {
				n := *v
				n.args = nil
				for _, a := range v.args {
					n.args = append(n.args, sub(a))
				}
				evs = append(evs, &n)
			}
			x.evs = evs
		}
		for _, x := range ex {
			x.st.ord = x.st.ord[:base]
			delete(x.st.facts, mkd("lt", "", 0, k, nCond).key)
			x.st.univ = append(x.st.univ, duniv{lp})
			fin(x.st, x.env, nil, x.defers, true)
			x.iter = it.iter
			next = append(next, x)
		}
		for _, x := range early {
			fin(x.st, x.env, nil, x.defers, false)
			x.iter = it.iter
			next = append(next, x)
		}
		for _, x := range o {
			fin(x.st, nil, x.res, nil, false)
			outs = append(outs, x)
		}
		return
	}
}

func (it *ditem) headOnly(h *ssa.BasicBlock, base int) bool {
	for _, p := range it.blk.Preds {
		if p == h {
			return true
		}
	}
	return false
}

func linN(v *dv) int64 { _, n := linOf(v); return n }

func contains(v *dv, key string) bool {
	if v.key == key {
		return true
	}
	for _, x := range v.a {
		if contains(x, key) {
			return true
		}
	}
	return false
}

func isListish(v *dv) bool {
	return v.op == "list" || v.op == "nil" || v.op == "var" || v.op == "app" && v.s == "slice"
}

func prefixParts(a, b []*dv) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key {
			return false
		}
	}
	return true
}

// runMain gives all ends of the process.
func (e *dEng) runMain() (outs []*dout, err error) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(dUndec); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if os.Getenv("BLANG_PANIC") != "" {
				panic(x)
			}
			err = fmt.Errorf("the analysis broke off: %v", x)
		}
	}()
	st := newDst()
	e.initGlobals(st)
	main := e.p.pkg.Func("main")
	if main == nil {
		return nil, fmt.Errorf("function main not found")
	}
	for _, o := range e.call(main, nil, nil, st, main.Pos()) {
		if o.exit == nil {
			o.exit = dInt(0)
		}
		outs = append(outs, o)
	}
	return outs, nil
}

// initGlobals gives the variables of the package their first values; those written anywhere
// else, or made by calls, are unknown.
func (e *dEng) initGlobals(st *dst) {
	ini := e.p.pkg.Func("init")
	if ini == nil {
		return
	}
	e.init = true
	defer func() { e.init = false }()
	written := map[*ssa.Global]int{}
	for _, f := range append([]*ssa.Function{ini}, e.p.all...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := rootGlobal(s.Addr).(*ssa.Global); ok && (f != ini || true) {
						written[g]++
						if f != ini {
							written[g] += 100
						}
					}
				}
			}
		}
	}
	var blk *ssa.BasicBlock
	for _, b := range ini.Blocks {
		if blk == nil || len(b.Instrs) > len(blk.Instrs) {
			blk = b
		}
	}
	it := &ditem{blk: blk, env: map[ssa.Value]*dv{}, st: st}
	for _, in := range blk.Instrs {
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(dUndec); !ok {
						panic(x)
					}
				}
			}()
			switch x := in.(type) {
			case *ssa.Call, *ssa.If, *ssa.Jump, *ssa.Return:
				if c, ok := in.(*ssa.Call); ok && c.Call.Value != nil {
					// results of calls are unknown
					return
				}
				return
			case *ssa.Store:
				g, _ := rootGlobal(x.Addr).(*ssa.Global)
				if g != nil && written[g] > 100 {
					return
				}
				e.store(st, e.val(it, x.Addr), e.val(it, x.Val), x.Pos())
				return
			}
			// one instruction as a block of its own
			one := *it
			one.blk = &ssa.BasicBlock{Instrs: []ssa.Instruction{in}}
			one.idx = 0
			e.block(ini, &one)
		}()
	}
	for g, n := range written {
		if n > 100 && g.Pkg == e.p.pkg {
			id := e.global(st, g).ref.(*dptr).obj
			st.mem[id] = dVar("global " + g.Name())
		}
	}
}
