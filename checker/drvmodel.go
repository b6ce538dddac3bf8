package main

// What the functions called from outside of the repository do to the world.

import (
	"go/token"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// event records an effect; fallible ones give an error result.
func (e *dEng) event(st *dst, kind string, pos token.Pos, fallible bool, args ...*dv) *dev {
	ev := &dev{kind: kind, args: args, id: e.next(), pos: e.pos(pos)}
	if fallible {
		ev.err = dSym(kind+".err", ev.id)
	}
	st.evs = append(st.evs, ev)
	return ev
}

// snap replaces a pointer by what it points to.
func (e *dEng) snap(st *dst, v *dv) *dv {
	if v.op == "ptr" {
		r := v.ref.(*dptr)
		if o := st.mem[r.obj]; o != nil {
			if x := dgetPath(o, r.path); x != nil {
				return x
			}
		}
	}
	return v
}

func (e *dEng) model(st *dst, fn *ssa.Function, c *ssa.CallCommon, args []*dv, pos token.Pos) ([]*dout, bool) {
	one := func(r ...*dv) ([]*dout, bool) { return []*dout{{st: st, res: r}}, true }
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if fn.Pkg == e.p.pkg {
		switch fn.Name() {
		case "NewCompiler", "NewLexer":
			var a []*dv
			for _, x := range args {
				a = append(a, e.snap(st, x))
			}
			ev := e.event(st, fn.Name(), pos, false, a...)
			return one(dSym(fn.Name(), ev.id))
		case "ParseDeclarations":
			ev := e.event(st, "parse", pos, true, args...)
			return one(ev.err)
		}
		return nil, false
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			pkg = n.Obj().Pkg().Path()
		}
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	arg := func(i int) *dv { return e.resolve(st, args[i]) }
	isFile := func(v *dv) bool { return v.op == "sym" && strings.HasPrefix(v.s, "file:") }
	std := func(v *dv) string {
		if v.op == "app" && v.s == "load" && v.a[0].op == "fptr" {
			switch v.a[0].s {
			case "global os.Stderr":
				return "stderr"
			case "global os.Stdout":
				return "stdout"
			}
		}
		return ""
	}
	out := func(w *dv, content *dv) ([]*dout, bool) {
		if s := std(w); s != "" {
			e.event(st, "print", pos, false, dStr(s), content)
			return one(dApp("n"), dNil)
		}
		if isFile(w) {
			ev := e.event(st, "write", pos, true, w, content)
			return one(dApp("n"), ev.err)
		}
		e.undec(pos, "writing to %s is not modelled", showD(w))
		return nil, false
	}
	rest := func(i int) *dv {
		if i < len(args) {
			return args[i]
		}
		return dList()
	}
	switch name {
	case "os.Open":
		ev := e.event(st, "open", pos, true, args[0])
		return one(dSym("file:r", ev.id, args[0]), ev.err)
	case "os.Create":
		ev := e.event(st, "create", pos, true, args[0])
		return one(dSym("file:w", ev.id, args[0]), ev.err)
	case "os.OpenFile":
		if f := arg(1); f.op == "int" && f.n == 0 {
			ev := e.event(st, "open", pos, true, args[0])
			return one(dSym("file:r", ev.id, args[0]), ev.err)
		} else if f.op == "int" && f.n&0x241 == 0x241 && f.n&^0x243 == 0 && f.n&3 != 3 {
			ev := e.event(st, "create", pos, true, args[0])
			return one(dSym("file:w", ev.id, args[0]), ev.err)
		}
		e.undec(pos, "this way to open a file is not modelled")
	case "os.WriteFile":
		ev := e.event(st, "create", pos, true, args[0])
		t, f := e.fork(st, dEq(ev.err, dNil))
		var l []*dout
		if f != nil {
			l = append(l, &dout{st: f, res: []*dv{ev.err}})
		}
		if t != nil {
			w := e.event(t, "write", pos, true, dSym("file:w", ev.id, args[0]), args[1])
			l = append(l, &dout{st: t, res: []*dv{w.err}})
		}
		return l, true
	case "(*os.File).Close":
		if !isFile(args[0]) {
			e.undec(pos, "closing %s is not modelled", showD(args[0]))
		}
		ev := e.event(st, "close", pos, true, args[0])
		return one(ev.err)
	case "(*os.File).Sync":
		ev := e.event(st, "sync", pos, true, args[0])
		return one(ev.err)
	case "(*os.File).WriteString", "(*os.File).Write":
		return out(args[0], args[1])
	case "io.WriteString":
		return out(args[0], args[1])
	case "(*os.File).Name":
		if isFile(args[0]) {
			return one(args[0].a[0])
		}
	case "os.Remove", "os.RemoveAll":
		ev := e.event(st, "remove", pos, true, args[0])
		return one(ev.err)
	case "os.Rename":
		ev := e.event(st, "rename", pos, true, args[0], args[1])
		return one(ev.err)
	case "os.Stat", "os.Lstat":
		n := e.next()
		return one(dSym("stat.info", n, args[0]), dSym("stat.err", n, args[0]))
	case "os.IsNotExist", "os.IsExist", "os.IsPermission":
		return one(dApp(name, args...))
	case "os.Getenv":
		return one(dApp("getenv", args[0]))
	case "os.LookupEnv":
		return one(dApp("getenv", args[0]), dNot(dEq(dApp("getenv", args[0]), dStr(""))))
	case "os.Exit":
		return []*dout{{st: st, exit: arg(0), pos: e.pos(pos)}}, true
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		e.event(st, "print", pos, false, dStr("stdout"), e.sprint(st, strings.TrimPrefix(name, "fmt."), args))
		return one(dApp("n"), dNil)
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf":
		return out(args[0], e.sprint(st, strings.TrimPrefix(name, "fmt.F"), args[1:]))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one(e.sprint(st, strings.TrimPrefix(name, "fmt.S"), args))
	case "fmt.Errorf", "errors.New":
		return one(dApp("error:"+name, args...))
	case "errors.Is", "errors.As", "errors.Unwrap", "errors.Join":
		if name == "errors.Join" {
			e.undec(pos, "%s is not modelled", name)
		}
		return one(dApp(name, args...))
	case "os/exec.Command":
		id := e.next()
		t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := e.zero(t)
		o = dsetPath(o, []int{0}, args[0])
		o = dsetPath(o, []int{1}, listCat(dList(dEl(args[0])), rest(1)))
		st.mem[id] = o
		return one(dPtr(id))
	case "(*os/exec.Cmd).String":
		return one(dApp("cmdstring"))
	case "(*os/exec.Cmd).Run", "(*os/exec.Cmd).Output", "(*os/exec.Cmd).CombinedOutput":
		cmd := e.snap(st, args[0])
		if cmd.op != "struct" {
			e.undec(pos, "an unknown command is run")
		}
		a := append([]*dv{cmd.a[0], cmd.a[1]}, cmd.a[2], cmd.a[3])
		ev := e.event(st, "run", pos, true, a...)
		if strings.HasSuffix(name, ".Run") {
			return one(ev.err)
		}
		return one(dSym("output", ev.id), ev.err)
	case "path/filepath.Base", "path.Base":
		return one(dBase(args[0]))
	case "path/filepath.Ext", "path.Ext":
		return one(dExt(arg(0)))
	case "path/filepath.Join", "path.Join":
		l := args[0]
		var a []*dv
		str := true
		for _, p := range listParts(l) {
			if p.op != "el" {
				e.undec(pos, "joining an unknown list")
			}
			a = append(a, p.a[0])
			if p.a[0].op != "str" {
				str = false
			}
		}
		if str {
			var s []string
			for _, x := range a {
				s = append(s, x.s)
			}
			return one(dStr(filepath.Join(s...)))
		}
		return one(dApp("join", a...))
	case "strings.HasSuffix":
		return one(dHasSuffix(arg(0), arg(1)))
	case "strings.TrimSuffix":
		x, s := args[0], args[1]
		if s.key == dExt(x).key {
			return one(dStem(x))
		}
		if r := arg(1); r.op == "str" {
			if k := st.eqc[dExt(x).key]; k != nil && k.key == r.key && isExtConst(r.s) {
				return one(dStem(x))
			}
			if x.op == "str" {
				return one(dStr(strings.TrimSuffix(x.s, r.s)))
			}
			if x.op == "cat" {
				if l := x.a[len(x.a)-1]; l.op == "str" && strings.HasSuffix(l.s, r.s) {
					return one(dCat(append(append([]*dv{}, x.a[:len(x.a)-1]...), dStr(strings.TrimSuffix(l.s, r.s)))...))
				}
			}
		}
		return one(dApp("trimSuffix", args...))
	case "strconv.Itoa":
		return one(dItoa(arg(0)))
	case "strconv.Quote":
		return one(dApp("quote", args...))
	case "strconv.Atoi":
		if x := arg(0); x.op == "str" {
			n, neg, ok := int64(0), false, x.s != ""
			for i, ch := range x.s {
				if i == 0 && (ch == '-' || ch == '+') && len(x.s) > 1 {
					neg = ch == '-'
				} else if ch < '0' || ch > '9' || n > 1<<50 {
					ok = false
				} else {
					n = n*10 + int64(ch-'0')
				}
			}
			if neg {
				n = -n
			}
			if ok {
				return one(dInt(n), dNil)
			}
			return one(dInt(0), dApp("error:Atoi"))
		}
		n := e.next()
		return one(dSym("atoi", n, args[0]), dSym("atoi.err", n, args[0]))
	case "slices.Contains":
		parts := listParts(args[0])
		cur := st
		var l []*dout
		for _, p := range parts {
			if p.op != "el" {
				e.undec(pos, "looking for an element of an unknown list")
			}
			if cur == nil {
				break
			}
			t, f := e.fork(cur, dEq(args[1], p.a[0]))
			if t != nil {
				l = append(l, &dout{st: t, res: []*dv{dTrue}})
			}
			cur = f
		}
		if cur != nil {
			l = append(l, &dout{st: cur, res: []*dv{dFalse}})
		}
		return l, true
	case "slices.Clone":
		return one(args[0])
	case "slices.Concat":
		e.undec(pos, "%s is not modelled", name)
	}
	if pkg == "github.com/spf13/pflag" || pkg == "flag" {
		return e.flags(st, fn, args, pos)
	}
	if pkg == "github.com/fatih/color" {
		switch fn.Name() {
		case "New":
			return one(dApp("color"))
		case "Fprint", "Fprintln", "Fprintf":
			return out(args[1], e.sprint(st, fn.Name()[1:], args[2:]))
		case "Sprint", "Sprintf", "Sprintln":
			return one(e.sprint(st, fn.Name()[1:], args[1:]))
		case "Print", "Printf", "Println":
			e.event(st, "print", pos, false, dStr("stdout"), dApp("text"))
			return one(dApp("n"), dNil)
		}
		var r []*dv
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			r = append(r, dApp("color"))
		}
		return one(r...)
	}
	switch pkg {
	case "strings", "strconv", "path/filepath", "path", "github.com/llir/llvm/ir", "unicode", "errors", "sort", "slices":
		// no effects; names and texts made this way are terms of their own
		if pkg == "sort" || pkg == "slices" {
			break
		}
		if fn.Name() == "WriteTo" && pkg == "github.com/llir/llvm/ir" {
			return out(args[1], dApp("(*github.com/llir/llvm/ir.Module).String", args[0]))
		}
		var r []*dv
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				r = append(r, dSym(name+".err", e.next(), args...))
			} else if fn.Signature.Results().Len() == 1 {
				r = append(r, dApp(name, args...))
			} else {
				r = append(r, dApp(name+"#"+string(rune('0'+i)), args...))
			}
		}
		return one(r...)
	}
	return nil, false
}

// sprint gives the text of a formatted print.
func (e *dEng) sprint(st *dst, kind string, args []*dv) *dv {
	l := args
	if len(args) > 0 {
		last := args[len(args)-1]
		l = append([]*dv{}, args[:len(args)-1]...)
		for _, p := range listParts(last) {
			if p.op == "el" {
				l = append(l, p.a[0])
			} else {
				return dApp("text", args...)
			}
		}
	}
	text := func(v *dv) *dv {
		v = e.resolve(st, v)
		switch v.op {
		case "str", "cat", "itoa", "elem":
			return v
		case "int":
			return dItoa(v)
		case "sym":
			if v.s == "k" {
				return dItoa(v)
			}
		case "add", "len", "slen":
			return dItoa(v)
		}
		if v.op == "var" || v.op == "app" && !strings.HasPrefix(v.s, "error:") {
			return v
		}
		return dApp("text", v)
	}
	if kind != "printf" && kind != "Printf" && kind != "f" {
		if strings.HasSuffix(kind, "ln") {
			return dApp("text", l...)
		}
		// Print adds blanks between operands that are not strings
		if len(l) == 1 {
			return text(l[0])
		}
		return dApp("text", l...)
	}
	if len(l) == 0 {
		return dStr("")
	}
	f := e.resolve(st, l[0])
	if f.op != "str" {
		return dApp("text", l...)
	}
	var r []*dv
	ai := 1
	s := f.s
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r = append(r, dStr(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return dApp("text", l...)
		}
		if s[i] == '%' {
			r = append(r, dStr("%"))
			continue
		}
		if ai >= len(l) {
			return dApp("text", l...)
		}
		switch s[i] {
		case 's', 'v':
			r = append(r, text(l[ai]))
		case 'd':
			r = append(r, dItoa(e.resolve(st, l[ai])))
		default:
			return dApp("text", l...)
		}
		ai++
	}
	return dCat(r...)
}

// flags models the registration and the reading of command-line flags.
func (e *dEng) flags(st *dst, fn *ssa.Function, args []*dv, pos token.Pos) ([]*dout, bool) {
	one := func(r ...*dv) ([]*dout, bool) { return []*dout{{st: st, res: r}}, true }
	n := fn.Name()
	if fn.Signature.Recv() != nil {
		return nil, false
	}
	switch n {
	case "Parse":
		for _, r := range st.regs {
			e.store(st, r.cell, flagVar(r.name), pos)
		}
		e.event(st, "parseflags", pos, false)
		return one()
	case "Args":
		return one(dVar("Args"))
	case "NArg":
		return one(dLen(dVar("Args")))
	case "Arg":
		return one(dElem(dVar("Args"), args[0]))
	case "PrintDefaults":
		e.event(st, "print", pos, false, dStr("stderr"), dApp("flags"))
		return one()
	}
	kind, hasVar, hasP := n, false, false
	if strings.HasSuffix(kind, "P") {
		kind, hasP = kind[:len(kind)-1], true
	}
	if strings.HasSuffix(kind, "Var") {
		kind, hasVar = kind[:len(kind)-3], true
	}
	switch kind {
	case "String", "Bool", "StringSlice", "StringArray", "Int", "Count":
	default:
		return nil, false
	}
	r := &dreg{kind: kind, pos: e.pos(pos)}
	i := 0
	if hasVar {
		r.cell = args[0]
		i = 1
	} else {
		id := e.next()
		st.mem[id] = dNil
		r.cell = dPtr(id)
	}
	s := func(v *dv) string {
		if v.op != "str" {
			e.undec(pos, "a flag without a constant name")
		}
		return v.s
	}
	r.name = s(args[i])
	i++
	if hasP {
		r.short = s(args[i])
		i++
	}
	r.def = args[i]
	e.store(st, r.cell, r.def, pos)
	st.regs = append(st.regs, r)
	if hasVar {
		return one()
	}
	return one(r.cell)
}

func flagVar(name string) *dv { return dVar("flag " + name) }

func newDEng(p *Prog) *dEng {
	return &dEng{p: p, fns: map[*ssa.Function]bool{}, rpo: map[*ssa.Function]*dcfg{}, glob: map[*ssa.Global]int64{}}
}
