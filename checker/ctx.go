package main

// Loading the repository and building the contexts in which its functions are analysed.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	all       []*ssa.Function // functions of the repository, without tests
	inits     map[*ssa.Global]Val
	lexT      types.Type
	compT     types.Type
	optT      types.Type
	blockT    types.Type
	endsWS    map[string]bool
	repo      string
	mutable   map[*ssa.Global]bool
	gotoField string // where the labels used are noted
	declDefs  map[string]bool
	stale     map[string]string            // tables that may not be empty when a function starts
	defFields map[string]bool              // where the labels and cases placed are noted
	covered   map[*ssa.Function]bool       // what was analysed
	first     map[string]map[string]string // the units called before anything is read, by unit
}

func loadProg(dir string) (*Prog, error) {
	os.Setenv("GOFLAGS", "-mod=readonly -buildvcs=false")
	os.Setenv("GOPROXY", "off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}
	ps, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(ps), dir)
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%v", e)
		}
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	if sp[0] == nil {
		return nil, fmt.Errorf("no SSA form")
	}
	sp[0].Build()
	p := &Prog{prog: prog, pkg: sp[0], repo: dir, endsWS: map[string]bool{}, covered: map[*ssa.Function]bool{}, first: map[string]map[string]string{}, defFields: map[string]bool{}, declDefs: map[string]bool{}, stale: map[string]string{}, mutable: map[*ssa.Global]bool{}}
	look := func(n string) types.Type {
		if o := sp[0].Pkg.Scope().Lookup(n); o != nil {
			if t, ok := o.(*types.TypeName); ok {
				return t.Type()
			}
		}
		return nil
	}
	p.lexT, p.compT, p.optT = look("Lexer"), look("Compiler"), look("CompileOptions")
	if p.lexT == nil || p.compT == nil || p.optT == nil {
		return nil, fmt.Errorf("types Lexer, Compiler, CompileOptions not found")
	}
	for _, q := range prog.AllPackages() {
		if q.Pkg.Path() == llir {
			p.blockT = q.Pkg.Scope().Lookup("Block").Type()
		}
	}
	if p.blockT == nil {
		return nil, fmt.Errorf("package %s is not used", llir)
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		file := prog.Fset.Position(f.Pos()).Filename
		if strings.HasSuffix(file, "_test.go") || strings.HasSuffix(file, "/test_utils.go") {
			return
		}
		seen[f] = true
		p.all = append(p.all, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range sp[0].Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
	// globals written outside of the package initialisation are unknown
	for _, f := range p.all {
		if f.Name() == "init" && f.Synthetic != "" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := rootGlobal(s.Addr).(*ssa.Global); ok {
						p.mutable[g] = true
					}
				}
				if s, ok := in.(*ssa.MapUpdate); ok {
					if u, ok := s.Map.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok {
							p.mutable[g] = true
						}
					}
				}
			}
		}
	}
	// package initialisation
	p.inits = map[*ssa.Global]Val{}
	if ini := sp[0].Func("init"); ini != nil {
		e := p.engine()
		st := newState()
		for _, m := range sp[0].Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
				st.symobj["global:init$guard"] = st.newObj(types.Typ[types.Bool], mkBool(false), "guard").ID
			}
		}
		func() {
			defer func() { recover() }()
			outs := e.body(ini, nil, nil, st)
			if len(outs) != 1 {
				return
			}
			fs := outs[0].st
			for _, m := range sp[0].Members {
				g, ok := m.(*ssa.Global)
				if !ok || p.mutable[g] {
					continue
				}
				if id, ok := fs.symobj["global:"+g.Name()]; ok && fs.heap[id].V != nil {
					p.inits[g] = &imported{fs.heap[id].V, fs}
				}
			}
		}()
	}
	return p, nil
}

func rootGlobal(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

func (p *Prog) engine() *Eng {
	e := &Eng{prog: p.prog, pkg: p.pkg, fset: p.prog.Fset, cuts: map[*ssa.Function]CutFn{}, limit: 6000,
		globals: p.inits, mutableG: p.mutable, covered: map[*ssa.Function]bool{}, coverBl: map[*ssa.BasicBlock]bool{},
		loopTab: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}, extCalls: map[string]int{},
		lexT: p.lexT, compT: p.compT, blockT: p.blockT, mods: map[*ssa.Function]map[string]bool{}, endsWS: p.endsWS, prg: p}
	return e
}

// fn finds a function or method ("Lexer.Number") of the repository.
func (p *Prog) fn(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		o := p.pkg.Pkg.Scope().Lookup(name[:i])
		if o == nil {
			return nil
		}
		for _, t := range []types.Type{types.NewPointer(o.Type()), o.Type()} {
			if m := p.prog.LookupMethod(t, p.pkg.Pkg, name[i+1:]); m != nil {
				return m
			}
		}
		return nil
	}
	return p.pkg.Func(name)
}

// setup makes the lexer and the compiler object of the analysed context.
func (e *Eng) setup() (*State, error) {
	st := newState()
	p := e.prg
	nopt, nlex, ncomp := p.fn("NewCompileOptions"), p.fn("NewLexer"), p.fn("NewCompiler")
	if nopt == nil || nlex == nil || ncomp == nil {
		return nil, fmt.Errorf("NewCompileOptions, NewLexer or NewCompiler not found")
	}
	one := func(outs []Out, what string) (*State, *Ptr, error) {
		if len(outs) != 1 || outs[0].kind != "ret" || len(outs[0].res) != 1 {
			return nil, nil, fmt.Errorf("%s is not understood", what)
		}
		q, ok := outs[0].res[0].(*Ptr)
		if !ok {
			return nil, nil, fmt.Errorf("%s does not make an object", what)
		}
		return outs[0].st, q, nil
	}
	symArgs := func(f *ssa.Function) (r []Val) {
		for _, q := range f.Params {
			r = append(r, e.symValue(st, q.Name(), q.Type()))
		}
		return
	}
	st, opt, err := one(e.body(nopt, symArgs(nopt), nil, st), "NewCompileOptions")
	if err != nil {
		return nil, err
	}
	// the options set by the command line are unknown
	so := under(p.optT).(*types.Struct)
	for i := 0; i < so.NumFields(); i++ {
		n := so.Field(i).Name()
		if n == "WordSize" || n == "GlobalPrefix" {
			continue
		}
		e.setField(st, opt, n, e.symValue(st, "opt."+n, so.Field(i).Type()))
	}
	st.heap[opt.Obj].Fresh = false
	args := symArgs(nlex)
	for i, q := range nlex.Params {
		if types.Identical(q.Type(), types.NewPointer(p.optT)) {
			args[i] = opt
		} else {
			args[i] = fresh("reader", q.Type())
			st.nils[args[i].(*Term).ID] = false
		}
	}
	st, e.lex, err = one(e.body(nlex, args, nil, st), "NewLexer")
	if err != nil {
		return nil, err
	}
	args = symArgs(ncomp)
	for i, q := range ncomp.Params {
		if types.Identical(q.Type(), types.NewPointer(p.optT)) {
			args[i] = opt
		}
	}
	st, e.comp, err = one(e.body(ncomp, args, nil, st), "NewCompiler")
	if err != nil {
		return nil, err
	}
	e.opt = opt
	// an arbitrary later state of the compiler
	sc := under(p.compT).(*types.Struct)
	for i := 0; i < sc.NumFields(); i++ {
		f := sc.Field(i)
		old := e.peekField(st, e.comp.Obj, f.Name())
		if p2, ok := old.(*Ptr); ok && p2.Obj == opt.Obj {
			continue
		}
		switch u := under(f.Type()).(type) {
		case *types.Map:
			e.setField(st, e.comp, f.Name(), e.symValue(st, f.Name(), f.Type()))
		case *types.Pointer:
			if types.Identical(u.Elem(), p.blockT) {
				b := e.newBlock(st, f.Name())
				st.heap[b.Obj].Ctor = mk("cur", f.Type(), fresh("cur", nil))
				e.setField(st, e.comp, f.Name(), b)
			} else if strings.HasSuffix(u.Elem().String(), llir+".Module") {
				q := e.symValue(st, f.Name(), f.Type()).(*Ptr)
				st.heap[q.Obj].Ctor = mk("module", f.Type())
				e.setField(st, e.comp, f.Name(), q)
			} else {
				q := e.symValue(st, f.Name(), f.Type()).(*Ptr)
				e.setField(st, e.comp, f.Name(), q)
			}
		case *types.Slice:
			e.setField(st, e.comp, f.Name(), st.newList([]Val{&Splat{fresh(f.Name(), f.Type())}}, f.Type()))
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				s := fresh(f.Name(), f.Type())
				if n, ok := constInt(old); ok {
					st.ivl[s.ID] = Ivl{n, fullIvl.Hi}
				}
				e.setField(st, e.comp, f.Name(), s)
			} else {
				e.setField(st, e.comp, f.Name(), e.symValue(st, f.Name(), f.Type()))
			}
		default:
			e.setField(st, e.comp, f.Name(), e.symValue(st, f.Name(), f.Type()))
		}
	}
	for _, o := range st.heap {
		if o.Fresh {
			n := *o
			n.Fresh = false
			st.heap[o.ID] = &n
		}
	}
	st.evs = nil
	return st, nil
}

// analyse runs a function from an arbitrary context. The arguments override the
// unknown ones by parameter position.
func (e *Eng) analyse(fn *ssa.Function, st *State, set map[int]Val) (outs []Out, args []Val, err error) {
	defer func() {
		if r := recover(); r != nil {
			if t, ok := r.(tooMany); ok {
				err = fmt.Errorf("analysis of %s gave up: %s", fn.Name(), t.why)
				return
			}
			panic(r)
		}
	}()
	for i, q := range fn.Params {
		if v, ok := set[i]; ok {
			args = append(args, v)
			continue
		}
		switch {
		case types.Identical(q.Type(), types.NewPointer(e.lexT)):
			args = append(args, e.lex)
		case types.Identical(q.Type(), types.NewPointer(e.compT)):
			args = append(args, e.comp)
		case types.Identical(q.Type(), types.NewPointer(e.prg.optT)):
			args = append(args, e.opt)
		default:
			args = append(args, e.symValue(st, q.Name(), q.Type()))
		}
	}
	e.root = fn
	outs = e.body(fn, args, nil, st)
	return
}

// compFields are the fields of the compiler object.
func (e *Eng) compFields() (r []string) {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i).Name())
	}
	return
}
