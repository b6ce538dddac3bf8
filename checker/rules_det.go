package main

// Determinism: nothing that the compilation of a file does depends on anything but the source and options.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// quiet packages compute their results from their arguments alone.
var quietPkgs = map[string]bool{"fmt": true, "strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "errors": true,
	"bufio": true, "io": true, "bytes": true, "sort": true, "slices": true, "math": true, "math/bits": true, "math/big": true, "cmp": true, "path/filepath": true, "path": true}

// hidden are functions whose results depend on the process, the time or the machine.
func hiddenFn(f *ssa.Function) string {
	if f.Pkg == nil {
		if o := f.Origin(); o != nil && o.Pkg != nil {
			f = o
		} else {
			return ""
		}
	}
	path := f.Pkg.Pkg.Path()
	switch {
	case quietPkgs[path], strings.HasPrefix(path, "github.com/llir/"):
		return ""
	case path == "maps":
		switch f.Name() {
		case "Keys", "Values", "All":
			return "the order of a map"
		}
		return ""
	}
	return path + "." + f.Name()
}

func (r *Rep) deterministic(p *Prog) {
	seen, l := p.reach("ParseDeclarations", "NewLexer", "NewCompiler")
	for _, f := range l {
		at := func(ps token.Pos) string {
			if ps == token.NoPos {
				ps = f.Pos()
			}
			return p.prog.Fset.Position(ps).String()
		}
		r.files[p.prog.Fset.Position(f.Pos()).Filename] = true
		loops := natLoops(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					r.ob("deterministic", false, at(in.Pos()), "%s runs something at the same time", f.Name())
				case *ssa.Store:
					g, ok := rootGlobal(x.Addr).(*ssa.Global)
					r.ob("deterministic", !ok, at(in.Pos()), "%s changes %v, which outlives the compilation of the file", f.Name(), g)
				case *ssa.MapUpdate:
					if u, ok := x.Map.(*ssa.UnOp); ok {
						g, ok := rootGlobal(u.X).(*ssa.Global)
						r.ob("deterministic", !ok, at(in.Pos()), "%s changes %v, which outlives the compilation of the file", f.Name(), g)
					}
				case *ssa.UnOp:
					if x.Op == token.ARROW {
						r.ob("deterministic", false, at(in.Pos()), "%s receives from a channel", f.Name())
					}
					if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
						path := g.Pkg.Pkg.Path()
						own := g.Pkg == p.pkg
						ok := own && !p.mutable[g] || quietPkgs[path] || strings.HasPrefix(path, "github.com/llir/") || path == "os" && (g.Name() == "Stderr" || g.Name() == "Stdout")
						r.ob("deterministic", ok, at(in.Pos()), "%s reads %v, which is not part of the source or the options", f.Name(), g)
					}
				case *ssa.Convert:
					bt, ok := under(x.X.Type()).(*types.Basic)
					r.ob("deterministic", !ok || bt.Kind() != types.UnsafePointer, at(in.Pos()), "%s makes a number of an address", f.Name())
				case *ssa.Range:
					if _, ok := under(x.X.Type()).(*types.Map); ok {
						w := p.mapRange(f, x, loops, seen)
						r.ob("deterministic", w == "", at(x.Pos()), "%s goes through a map, whose order is not fixed, and %s", f.Name(), w)
					}
				case *ssa.MakeInterface:
					r.ob("deterministic", !printsAddr(x), at(x.Pos()), "%s prints an address", f.Name())
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					com := c.Common()
					if g := com.StaticCallee(); g != nil && !seen[g] && g.Parent() == nil {
						w := hiddenFn(g)
						if w != "" && strings.HasPrefix(w, "os.") && f.Pkg == p.pkg && g.Signature.Recv() != nil {
							w = "" // methods of files
						}
						if w == "the order of a map" && sortedAtOnce(in) {
							w = ""
						}
						r.ob("deterministic", w == "", at(in.Pos()), "%s depends on %s", f.Name(), w)
						for _, a := range com.Args {
							if k, ok := a.(*ssa.Const); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" && k.Value != nil {
								r.ob("deterministic", !strings.Contains(k.Value.ExactString(), "%p"), at(in.Pos()), "%s prints an address", f.Name())
							}
						}
					}
				}
			}
		}
	}
	r.need("deterministic", 500)
}

// printsAddr tells whether a pointer is printed that has no text of its own.
func printsAddr(x *ssa.MakeInterface) bool {
	switch under(x.X.Type()).(type) {
	case *types.Pointer, *types.Chan, *types.Signature, *types.Map:
	default:
		return false
	}
	if i, ok := under(x.Type()).(*types.Interface); !ok || i.NumMethods() > 0 {
		return false
	}
	ms := types.NewMethodSet(x.X.Type())
	for _, n := range []string{"String", "Error", "Format"} {
		if ms.Lookup(nil, n) != nil {
			return false
		}
	}
	// handed to a function of fmt
	for _, ref := range *x.Referrers() {
		if s, ok := ref.(*ssa.Store); ok {
			if a, ok := s.Addr.(*ssa.IndexAddr); ok {
				for _, ref := range *a.X.Referrers() {
					if sl, ok := ref.(*ssa.Slice); ok {
						for _, ref := range *sl.Referrers() {
							if c, ok := ref.(ssa.CallInstruction); ok {
								if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "fmt" {
									return true
								}
							}
						}
					}
				}
			}
		}
	}
	return false
}

// sortedAtOnce: slices.Sorted(maps.Keys(m)).
func sortedAtOnce(in ssa.Instruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, ref := range *v.Referrers() {
			switch x := ref.(type) {
			case *ssa.ChangeType:
				if !only(x) {
					return false
				}
			case ssa.CallInstruction:
				g := x.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.Name(), "Sorted") {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return only(v)
}

// pureFn tells whether a function changes nothing.
func (p *Prog) pureFn(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Pkg != p.pkg {
		return f.Pkg != nil && quietPkgs[f.Pkg.Pkg.Path()] && f.Signature.Recv() == nil && !strings.HasPrefix(f.Name(), "Fp") && !strings.HasPrefix(f.Name(), "Print")
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select:
				return false
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
				g := x.Common().StaticCallee()
				if g == nil || !p.pureFn(g, seen) {
					return false
				}
			}
		}
	}
	return true
}

// mapRange tells in what way the result of a loop over a map depends on its order.
func (p *Prog) mapRange(f *ssa.Function, rg *ssa.Range, loops map[*ssa.BasicBlock]*natLoop, reach map[*ssa.Function]bool) string {
	var next *ssa.Next
	for _, ref := range *rg.Referrers() {
		n, ok := ref.(*ssa.Next)
		if !ok || next != nil {
			return "uses its iterator in another way"
		}
		next = n
	}
	if next == nil {
		return ""
	}
	l := loops[next.Block()]
	if l == nil {
		return "takes any element"
	}
	var key, val ssa.Value
	for _, ref := range *next.Referrers() {
		if x, ok := ref.(*ssa.Extract); ok {
			switch x.Index {
			case 1:
				key = x
			case 2:
				val = x
			}
		}
	}
	def := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && in.Block() != nil && l.blocks[in.Block()]
	}
	// blocks reached only for one given element
	one := func(b *ssa.BasicBlock, to *ssa.BasicBlock) bool {
		is := func(c ssa.Value) bool {
			e, ok := c.(*ssa.BinOp)
			if !ok || e.Op != token.EQL {
				return false
			}
			for _, q := range [][2]ssa.Value{{e.X, e.Y}, {e.Y, e.X}} {
				if def(q[1]) {
					continue
				}
				if q[0] == key && key != nil || q[0] == val && val != nil && p.injective(rg.X, reach) {
					return true
				}
			}
			return false
		}
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && to != nil && b.Succs[0] == to && b.Succs[1] != to && is(i.Cond) {
			return true
		}
		for d := b; d != nil && l.blocks[d] && d != next.Block(); d = d.Idom() {
			if len(d.Preds) == 1 {
				q := d.Preds[0]
				if i, ok := q.Instrs[len(q.Instrs)-1].(*ssa.If); ok && q.Succs[0] == d && q.Succs[1] != d && is(i.Cond) {
					return true
				}
			}
		}
		return false
	}
	accum := map[ssa.Value]bool{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.Next, *ssa.Extract, *ssa.If, *ssa.Jump, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Lookup,
				*ssa.Convert, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.DebugRef, *ssa.Slice:
			case *ssa.Alloc:
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := a.X.(*ssa.Alloc); ok && def(al) {
						continue // arguments of a call
					}
				}
				if one(b, nil) {
					continue
				}
				return "stores something for each element"
			case *ssa.MapUpdate:
				if x.Key == key || one(b, nil) {
					continue
				}
				return "changes a map for each element"
			case *ssa.Range:
				return "goes through another collection"
			case ssa.CallInstruction:
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "delete":
						continue
					case "append":
						accum[x.(ssa.Value)] = true
						continue
					}
				}
				g := x.Common().StaticCallee()
				if g != nil && p.pureFn(g, map[*ssa.Function]bool{}) || one(b, nil) {
					continue
				}
				return "does something for each element"
			default:
				return "does something for each element"
			}
		}
	}
	// what is carried round the loop
	for _, in := range next.Block().Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range ph.Edges {
			pr := next.Block().Preds[i]
			if !l.blocks[pr] || e == ph {
				continue
			}
			if w := p.carried(ph, e, pr, def, one, accum, l, map[ssa.Value]bool{}); w != "" {
				return w
			}
		}
	}
	// what leaves the loop before its end
	for b := range l.blocks {
		for _, to := range b.Succs {
			if l.blocks[to] || b == next.Block() {
				continue
			}
			if one(b, to) || failsAt(to) {
				continue
			}
			for _, in := range to.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, q := range to.Preds {
						if q == b && def(ph.Edges[i]) {
							return "keeps the first element that fits"
						}
					}
				}
			}
			for c := range l.blocks {
				for _, in := range c.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || v.Referrers() == nil {
						continue
					}
					for _, ref := range *v.Referrers() {
						if _, isPhi := ref.(*ssa.Phi); !isPhi && !l.blocks[ref.Block()] && to.Dominates(ref.Block()) {
							return "keeps the first element that fits"
						}
					}
				}
			}
		}
	}
	return ""
}

// carried decides whether what a loop over a map carries round depends on the order.
func (p *Prog) carried(ph *ssa.Phi, e ssa.Value, from *ssa.BasicBlock, def func(ssa.Value) bool, one func(b, to *ssa.BasicBlock) bool, accum map[ssa.Value]bool, l *natLoop, seen map[ssa.Value]bool) string {
	if e == ph || !def(e) || seen[e] {
		return ""
	}
	seen[e] = true
	if in := e.(ssa.Instruction); one(in.Block(), nil) || one(from, nil) {
		return ""
	}
	switch x := e.(type) {
	case *ssa.Phi:
		for i, y := range x.Edges {
			pr := x.Block().Preds[i]
			if one(pr, x.Block()) {
				continue
			}
			if w := p.carried(ph, y, pr, def, one, accum, l, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.BinOp:
		if x.X == ph && !def(x.Y) && isIntT(x.Type()) {
			switch x.Op {
			case token.ADD, token.OR, token.XOR, token.AND, token.MUL:
				return ""
			}
		}
	case *ssa.Call:
		if accum[x] && x.Call.Args[0] == ph {
			// a list that is sorted before any other use
			var sorts []ssa.Instruction
			var others []ssa.Instruction
			var look func(v ssa.Value)
			look = func(v ssa.Value) {
				for _, ref := range *v.Referrers() {
					if l.blocks[ref.Block()] {
						continue
					}
					switch y := ref.(type) {
					case *ssa.MakeInterface:
						look(y)
					case *ssa.ChangeType:
						look(y)
					case *ssa.Call:
						if g := y.Call.StaticCallee(); g != nil && g.Pkg != nil || g != nil && g.Origin() != nil {
							pk := g.Pkg
							if pk == nil {
								pk = g.Origin().Pkg
							}
							if pk != nil && (pk.Pkg.Path() == "sort" || pk.Pkg.Path() == "slices" && strings.HasPrefix(g.Name(), "Sort")) {
								sorts = append(sorts, ref)
								continue
							}
						}
						others = append(others, ref)
					default:
						others = append(others, ref)
					}
				}
			}
			look(ph)
			for _, o := range others {
				ok := false
				for _, s := range sorts {
					if s.Block() != o.Block() && s.Block().Dominates(o.Block()) {
						ok = true
					}
					if s.Block() == o.Block() {
						for _, in := range s.Block().Instrs {
							if in == s {
								ok = true
								break
							}
							if in == o {
								break
							}
						}
					}
				}
				if !ok {
					return "lists the elements in that order"
				}
			}
			return ""
		}
	}
	return "carries something from element to element"
}

// failsAt tells whether a block ends the function with an error.
func failsAt(b *ssa.BasicBlock) bool {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(ret.Results) == 0 {
		return false
	}
	v := ret.Results[len(ret.Results)-1]
	if !isErrT(v.Type()) {
		return false
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	g := c.Call.StaticCallee()
	return g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "fmt" && g.Name() == "Errorf" || g.Pkg.Pkg.Path() == "errors")
}

// injective tells whether a map of the compiler never has one value twice: every value put into it has
// just been made.
func (p *Prog) injective(m ssa.Value, reach map[*ssa.Function]bool) bool {
	field := func(v ssa.Value) (types.Type, int) {
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, 0
		}
		a, ok := u.X.(*ssa.FieldAddr)
		if !ok {
			return nil, 0
		}
		return a.X.Type(), a.Field
	}
	t, n := field(m)
	if t == nil {
		return false
	}
	for f := range reach {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				t2, n2 := field(u.Map)
				if t2 == nil {
					if types.Identical(u.Map.Type(), m.Type()) {
						if _, ok := u.Map.(*ssa.MakeMap); !ok {
							return false
						}
					}
					continue
				}
				if !types.Identical(t, t2) || n != n2 {
					continue
				}
				c, ok := u.Value.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(c.Call.StaticCallee().Name(), "New") {
					return false
				}
				cnt := 0
				for _, ref := range *c.Referrers() {
					if _, ok := ref.(*ssa.MapUpdate); ok {
						cnt++
					}
				}
				if cnt != 1 {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	checks["C22"] = func(p *Prog, r *Rep) {
		r.notes = append(r.notes, "Every function that compiling a file can call is searched for loops over maps whose order could reach the output, for state that outlives the compilation, for time, chance, environment and addresses.")
		r.deterministic(p)
		driverCheck("driver:outputs", "driver:inputs")(p, r)
	}
}
