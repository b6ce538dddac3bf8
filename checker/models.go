package main

// Models of the library functions the compiler calls: what they return and do,
// as far as the properties need it.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// srcSet is the alphabet of source characters.
var srcSet = setIf(func(c int) bool { return c < 256 })
var asciiSet = setIf(func(c int) bool { return c < 128 })
var wsSet = setIf(func(c int) bool { return unicode.IsSpace(rune(c)) }).And(srcSet)
var letterSet = setIf(func(c int) bool { return unicode.IsLetter(rune(c)) }).And(srcSet)
var digitSet = setOf("0123456789")
var identSet = letterSet.Or(digitSet).Or(setOf("_"))

const llir = "github.com/llir/llvm/ir"

type native func(a []Val, t types.Type, st *State) (Val, bool)

var natives map[string]native

func init() {
	runeP := func(f func(rune) bool) native {
		return func(a []Val, t types.Type, st *State) (Val, bool) {
			if n, ok := constInt(a[0]); ok {
				return mkBool(f(rune(n))), true
			}
			return nil, false
		}
	}
	ss := func(f func(a, b string) Val) native {
		return func(a []Val, t types.Type, st *State) (Val, bool) {
			x, ok1 := constStr(a[0])
			y, ok2 := constStr(a[1])
			if ok1 && ok2 {
				return f(x, y), true
			}
			return nil, false
		}
	}
	s1 := func(f func(a string) Val) native {
		return func(a []Val, t types.Type, st *State) (Val, bool) {
			if x, ok := constStr(a[0]); ok {
				return f(x), true
			}
			return nil, false
		}
	}
	sr := func(f func(a string, r rune) Val) native {
		return func(a []Val, t types.Type, st *State) (Val, bool) {
			x, ok1 := constStr(a[0])
			y, ok2 := constInt(a[1])
			if ok1 && ok2 {
				return f(x, rune(y)), true
			}
			return nil, false
		}
	}
	r1 := func(f func(rune) rune) native {
		return func(a []Val, t types.Type, st *State) (Val, bool) {
			if n, ok := constInt(a[0]); ok {
				return mkInt(int64(f(rune(n))), t), true
			}
			return nil, false
		}
	}
	i := func(n int) Val { return mkInt(int64(n), tInt) }
	natives = map[string]native{
		"call:unicode.IsLetter":     runeP(unicode.IsLetter),
		"call:unicode.IsDigit":      runeP(unicode.IsDigit),
		"call:unicode.IsNumber":     runeP(unicode.IsNumber),
		"call:unicode.IsSpace":      runeP(unicode.IsSpace),
		"call:unicode.IsUpper":      runeP(unicode.IsUpper),
		"call:unicode.IsLower":      runeP(unicode.IsLower),
		"call:unicode.IsControl":    runeP(unicode.IsControl),
		"call:unicode.IsPrint":      runeP(unicode.IsPrint),
		"call:unicode.IsPunct":      runeP(unicode.IsPunct),
		"call:unicode.IsGraphic":    runeP(unicode.IsGraphic),
		"call:unicode.ToLower":      r1(unicode.ToLower),
		"call:unicode.ToUpper":      r1(unicode.ToUpper),
		"call:strings.ContainsRune": sr(func(a string, r rune) Val { return mkBool(strings.ContainsRune(a, r)) }),
		"call:strings.IndexRune":    sr(func(a string, r rune) Val { return i(strings.IndexRune(a, r)) }),
		"call:strings.IndexByte":    sr(func(a string, r rune) Val { return i(strings.IndexByte(a, byte(r))) }),
		"call:strings.Contains":     ss(func(a, b string) Val { return mkBool(strings.Contains(a, b)) }),
		"call:strings.ContainsAny":  ss(func(a, b string) Val { return mkBool(strings.ContainsAny(a, b)) }),
		"call:strings.HasPrefix":    ss(func(a, b string) Val { return mkBool(strings.HasPrefix(a, b)) }),
		"call:strings.HasSuffix":    ss(func(a, b string) Val { return mkBool(strings.HasSuffix(a, b)) }),
		"call:strings.TrimSuffix":   ss(func(a, b string) Val { return mkStr(strings.TrimSuffix(a, b)) }),
		"call:strings.TrimPrefix":   ss(func(a, b string) Val { return mkStr(strings.TrimPrefix(a, b)) }),
		"call:strings.Index":        ss(func(a, b string) Val { return i(strings.Index(a, b)) }),
		"call:strings.ToLower":      s1(func(a string) Val { return mkStr(strings.ToLower(a)) }),
		"call:strings.ToUpper":      s1(func(a string) Val { return mkStr(strings.ToUpper(a)) }),
		"call:filepath.Ext":         s1(func(a string) Val { return mkStr(filepath.Ext(a)) }),
		"call:filepath.Base":        s1(func(a string) Val { return mkStr(filepath.Base(a)) }),
		"chr": func(a []Val, t types.Type, st *State) (Val, bool) {
			if n, ok := constInt(a[0]); ok {
				return mkStr(string(rune(n))), true
			}
			return nil, false
		},
		"itoa": func(a []Val, t types.Type, st *State) (Val, bool) {
			if n, ok := constInt(a[0]); ok {
				return mkStr(strconv.FormatInt(n, 10)), true
			}
			return nil, false
		},
		"len": s1(func(a string) Val { return i(len(a)) }),
		"cat": func(a []Val, t types.Type, st *State) (Val, bool) {
			r := ""
			for _, x := range a {
				s, ok := constStr(x)
				if !ok {
					return nil, false
				}
				r += s
			}
			return mkStr(r), true
		},
		"str": func(a []Val, t types.Type, st *State) (Val, bool) {
			var r []rune
			for _, x := range a {
				n, ok := constInt(x)
				if !ok {
					return nil, false
				}
				r = append(r, rune(n))
			}
			return mkStr(string(r)), true
		},
		"substr": func(a []Val, t types.Type, st *State) (Val, bool) {
			s, ok := constStr(a[0])
			l, ok1 := constInt(a[1])
			h, ok2 := constInt(a[2])
			if ok && ok1 && ok2 && l >= 0 && l <= h && int(h) <= len(s) {
				return mkStr(s[l:h]), true
			}
			return nil, false
		},
	}
}

// evalPure folds a pure term over constants.
func (e *Eng) pure(st *State, op string, t types.Type, args ...Val) Val {
	var n []Val
	all := true
	for _, a := range args {
		a = e.norm(st, a)
		if _, ok := a.(*Const); !ok {
			all = false
		}
		n = append(n, a)
	}
	if all {
		if f, ok := natives[op]; ok {
			if v, ok := f(n, t, st); ok {
				return v
			}
		}
	}
	return mk(op, t, n...)
}

// flat lists the arguments of a call, with the variadic part spread.
func (e *Eng) flat(st *State, sig *types.Signature, args []Val) []Val {
	if sig == nil || !sig.Variadic() || len(args) == 0 {
		return args
	}
	r := append([]Val(nil), args[:len(args)-1]...)
	return append(r, st.seq(args[len(args)-1])...)
}

func (e *Eng) err(st *State, name string) *Term {
	return fresh("err!"+name, tErr)
}

func (e *Eng) curFn() string {
	if len(e.stack) == 0 {
		return ""
	}
	return e.stack[len(e.stack)-1].Name()
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return fnPkg(fn.Origin())
	}
	return ""
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

func (e *Eng) external(st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	pkg := fnPkg(fn)
	recv := recvName(fn)
	name := fn.Name()
	sig := fn.Signature
	full := pkg + "." + name
	if recv != "" {
		full = pkg + "." + recv + "." + name
	}
	e.extCalls[full]++
	rt := func(i int) types.Type {
		if i < sig.Results().Len() {
			return sig.Results().At(i).Type()
		}
		return nil
	}
	ev := func(kind string, a []Val, res ...Val) *Event {
		x := &Event{Kind: kind, Name: name, Args: a, Res: res, Pos: pos, Fn: e.curFn()}
		st.add(x)
		return x
	}
	short := pkg
	if i := strings.LastIndexByte(pkg, '/'); i >= 0 {
		short = pkg[i+1:]
	}
	fargs := args
	if sig.Variadic() {
		// for methods the receiver comes first
		fargs = e.flat(st, sig, args)
	}
	switch pkg {
	case "fmt":
		switch name {
		case "Sprintf":
			return ret1(st, e.sprintf(st, fargs[0], fargs[1:]))
		case "Sprint":
			var p []Val
			for _, a := range fargs {
				p = append(p, e.toStr(st, a))
			}
			return ret1(st, mkCat(p...))
		case "Errorf":
			return ret1(st, e.errorf(st, e.sprintf(st, fargs[0], fargs[1:])))
		case "Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint":
			ev("print", fargs)
			return ret1(st, fresh("n", tInt), e.err(st, "print"))
		}
	case "errors":
		switch name {
		case "New":
			return ret1(st, e.errorf(st, args[0]))
		case "Is":
			return ret1(st, mkEq(args[0], args[1]))
		}
	case "os":
		switch recv + name {
		case "Open", "Create", "OpenFile", "CreateTemp":
			bad := st.clone()
			f := e.symValue(st, "file", rt(0))
			ev("open", append([]Val{mkStr(name)}, args...), f)
			er := e.err(bad, name)
			bad.nils[er.ID] = false
			bad.add(&Event{Kind: "openfail", Name: name, Args: args, Pos: pos, Fn: e.curFn()})
			return []Out{{st: st, kind: "ret", res: []Val{f, mkNil(tErr)}}, {st: bad, kind: "ret", res: []Val{mkNil(rt(0)), er}}}
		case "Remove", "RemoveAll", "Rename", "Chmod", "Truncate", "Mkdir", "MkdirAll":
			ev("fs", args)
			return ret1(st, e.err(st, name))
		case "WriteFile":
			er := e.err(st, name)
			ev("writefile", args, er)
			return ret1(st, er)
		case "Exit":
			ev("exit", args)
			return []Out{{st: st, kind: "exit", pos: pos, res: args}}
		case "Getenv":
			return ret1(st, mk("env", tStr, args[0]))
		case "Stat", "Lstat":
			ok := mk("exists", tBool, args[0])
			bad := st.clone()
			st.bools[ok.Key()] = true
			bad.bools[ok.Key()] = false
			er := e.err(bad, name)
			bad.nils[er.ID] = false
			info := mk("stat", rt(0), args[0])
			st.nils[info.ID] = false
			return []Out{{st: st, kind: "ret", res: []Val{info, mkNil(tErr)}}, {st: bad, kind: "ret", res: []Val{mkNil(rt(0)), er}}}
		case "FileClose":
			er := e.err(st, name)
			ev("close", args, er)
			return ret1(st, er)
		case "FileWriteString", "FileWrite":
			er := e.err(st, name)
			ev("write", args, er)
			return ret1(st, fresh("n", tInt), er)
		case "FileName":
			return ret1(st, mk("call:Name", tStr, args...))
		}
	case "os/exec":
		switch recv + name {
		case "Command":
			p := e.symValue(st, "cmd", rt(0)).(*Ptr)
			o := *st.heap[p.Obj]
			o.Ctor = mk("exec.Command", rt(0), fargs...)
			o.Fresh = true
			st.heap[p.Obj] = &o
			return ret1(st, p)
		case "CmdRun", "CmdStart", "CmdWait":
			er := e.err(st, "run")
			ev("run", args, er)
			return ret1(st, er)
		case "CmdOutput", "CmdCombinedOutput":
			er := e.err(st, "run")
			ev("run", args, er)
			return ret1(st, fresh("out", rt(0)), er)
		case "CmdString":
			return ret1(st, mk("cmdstring", tStr, args...))
		}
	case "github.com/spf13/pflag":
		if strings.HasSuffix(name, "Var") || strings.HasSuffix(name, "VarP") {
			if p, ok := args[0].(*Ptr); ok {
				o := st.heap[p.Obj]
				nm, _ := constStr(args[1])
				v := fresh("flag:"+nm, o.T)
				e.store(st, p, v)
				ev("flag", args, v)
			}
			return ret1(st)
		}
		switch name {
		case "Parse", "PrintDefaults":
			ev("pflag", args)
			return ret1(st)
		case "Args":
			return ret1(st, mk("args", rt(0)))
		case "NArg":
			return ret1(st, mk("len", tInt, mk("args", types.NewSlice(tStr))))
		case "Arg":
			return ret1(st, mk("idx", tStr, mk("args", types.NewSlice(tStr)), args[0]))
		}
		if strings.HasSuffix(name, "P") || sig.Results().Len() == 1 {
			if _, ok := rt(0).(*types.Pointer); ok {
				nm, _ := constStr(args[0])
				p := e.symValue(st, "flag:"+nm, rt(0)).(*Ptr)
				v := fresh("flag:"+nm, rt(0).(*types.Pointer).Elem())
				e.store(st, p, v)
				ev("flag", append([]Val{p}, args...), v)
				return ret1(st, p)
			}
		}
	case "github.com/fatih/color":
		if strings.HasPrefix(name, "Sprint") {
			return ret1(st, mk("color", tStr, fargs...))
		}
		if strings.Contains(name, "rint") {
			ev("print", fargs)
			return ret1(st, fresh("n", tInt), e.err(st, "print"))
		}
		if sig.Results().Len() == 1 {
			return ret1(st, e.symValue(st, "color", rt(0)))
		}
	case "bufio":
		switch {
		case recv == "" && strings.HasPrefix(name, "NewReader"):
			return ret1(st, e.newLib(st, rt(0), mk("bufio.NewReader", rt(0), args...), name))
		case recv == "Reader" && name == "Read":
			return e.readModel(st, args, pos)
		case recv == "Reader" && name == "ReadByte":
			return e.readChar(st, pos, func(s *State, c Val, er Val) Out {
				if c == nil {
					c = mkInt(0, types.Typ[types.Uint8])
				}
				return Out{st: s, kind: "ret", res: []Val{c, er}}
			})
		}
	case "io":
		if name == "ReadFull" && recv == "" {
			return e.readModel(st, args, pos)
		}
	case "strings", "bytes":
		if recv == "Builder" || recv == "Buffer" {
			if o, ok := e.builderCall(st, name, args); ok {
				return o
			}
		}
	case "strconv":
		switch name {
		case "Itoa":
			return ret1(st, e.pure(st, "itoa", tStr, args[0]))
		case "FormatInt":
			if n, ok := constInt(args[1]); ok && n == 10 {
				return ret1(st, e.pure(st, "itoa", tStr, args[0]))
			}
		case "Atoi":
			er := e.err(st, name)
			return ret1(st, mk("atoi", tInt, args[0]), er)
		}
	}
	switch short {
	case "unicode", "utf8", "strings", "bytes", "strconv", "filepath", "path", "math", "sort", "bits":
		if sig.Results().Len() == 1 && recv == "" {
			if short == "strings" && name == "HasSuffix" {
				if s, ok := constStr(args[1]); ok && strings.HasPrefix(s, ".") && strings.Count(s, ".") == 1 && !strings.Contains(s, "/") {
					return ret1(st, mkEq(e.pure(st, "call:filepath.Ext", tStr, args[0]), args[1]))
				}
			}
			if short == "path" {
				short = "filepath"
			}
			if name == "Join" && short == "strings" {
				return ret1(st, mk("call:strings.Join", tStr, args...))
			}
			return ret1(st, e.pure(st, "call:"+short+"."+name, rt(0), fargs...))
		}
	case "time", "rand":
		ev("nondet", args)
		return ret1(st, e.symResults(st, name, sig)...)
	}
	if pkg == llir || strings.HasPrefix(pkg, llir+"/") {
		return e.llirCall(st, fn, short, recv, name, fargs, pos)
	}
	ev("ext", args)
	if recv == "" {
		e.undecided(st, "call of %s is not modelled", full)
	}
	return ret1(st, e.symResults(st, name, sig)...)
}

func (e *Eng) errorf(st *State, msg Val) Val {
	return mk("errorf", tErr, msg)
}

func (e *Eng) toStr(st *State, a Val) Val {
	x := e.norm(st, strip(a))
	if _, ok := constStr(x); ok {
		return x
	}
	if isIntT(typeOf(x)) {
		return e.pure(st, "itoa", tStr, x)
	}
	if isStrT(typeOf(x)) {
		return x
	}
	return mk("fmt", tStr, x)
}

func (e *Eng) sprintf(st *State, f Val, args []Val) Val {
	s, ok := constStr(f)
	if !ok || hasSplat(args) {
		return mk("sprintf", tStr, append([]Val{f}, args...)...)
	}
	var parts []Val
	k := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' || i+1 >= len(s) {
			j := i
			for j+1 < len(s) && s[j+1] != '%' {
				j++
			}
			parts = append(parts, mkStr(s[i:j+1]))
			i = j
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			parts = append(parts, mkStr(s[i:]))
			break
		}
		verb := s[j]
		mod := s[i+1 : j]
		i = j
		if verb == '%' {
			parts = append(parts, mkStr("%"))
			continue
		}
		if k >= len(args) {
			parts = append(parts, mkStr("%!"+string(verb)))
			continue
		}
		a := args[k]
		k++
		x := e.norm(st, strip(a))
		switch {
		case verb == 'd' && mod == "" && isIntT(typeOf(x)):
			parts = append(parts, e.pure(st, "itoa", tStr, x))
		case verb == 'c' && mod == "":
			parts = append(parts, e.pure(st, "chr", tStr, x))
		case (verb == 's' || verb == 'v') && mod == "" && isStrT(typeOf(x)):
			parts = append(parts, x)
		case verb == 'v' && mod == "" && isIntT(typeOf(x)):
			parts = append(parts, e.pure(st, "itoa", tStr, x))
		default:
			parts = append(parts, mk("fmt:"+mod+string(verb), tStr, x))
		}
	}
	return mkCat(parts...)
}

func (e *Eng) builderCall(st *State, name string, args []Val) ([]Out, bool) {
	p, ok := args[0].(*Ptr)
	if !ok {
		return nil, false
	}
	cur := e.getField(st, p, "buf")
	if cur == nil {
		return nil, false
	}
	items := st.seq(cur)
	bt := types.NewSlice(types.Typ[types.Int32])
	add := func(x ...Val) {
		e.setField(st, p, "buf", st.newList(append(append([]Val(nil), items...), x...), bt))
	}
	switch name {
	case "WriteRune", "WriteByte":
		if name == "WriteRune" {
			e.encodes(st, tInt, args[1])
		}
		add(args[1])
		if name == "WriteByte" {
			return ret1(st, mkNil(tErr)), true
		}
		return ret1(st, mkInt(1, tInt), mkNil(tErr)), true
	case "WriteString":
		if s, ok := constStr(args[1]); ok {
			for i := 0; i < len(s); i++ {
				items = append(append([]Val(nil), items...), mkInt(int64(s[i]), types.Typ[types.Int32]))
			}
			add()
		} else {
			add(&Splat{mk("bytes", nil, args[1])})
		}
		return ret1(st, e.length(st, args[1]), mkNil(tErr)), true
	case "String":
		return ret1(st, e.strOf(st, items, bt)), true
	case "Len":
		return ret1(st, e.length(st, cur)), true
	case "Reset":
		e.setField(st, p, "buf", mkNil(bt))
		return ret1(st), true
	case "Grow":
		return ret1(st), true
	}
	return nil, false
}

// ---------- the LLVM IR library ----------

var terminators = map[string]bool{"NewRet": true, "NewBr": true, "NewCondBr": true, "NewSwitch": true, "NewIndirectBr": true,
	"NewInvoke": true, "NewCallBr": true, "NewResume": true, "NewCatchSwitch": true, "NewCatchRet": true, "NewCleanupRet": true, "NewUnreachable": true}

func (e *Eng) newLib(st *State, t types.Type, ctor *Term, name string) *Ptr {
	el := t
	if p, ok := under(t).(*types.Pointer); ok {
		el = p.Elem()
	}
	o := st.newObj(el, nil, name)
	o.Ctor = ctor
	return &Ptr{Obj: o.ID}
}

func (e *Eng) newBlock(st *State, name string) *Ptr {
	o := st.newObj(e.blockT, nil, name)
	n := under(e.blockT).(*types.Struct).NumFields()
	o.V = &StructVal{T: e.blockT, F: make([]Val, n), Name: name}
	p := &Ptr{Obj: o.ID}
	e.setField(st, p, "Term", mkNil(nil))
	return p
}

func (e *Eng) llirCall(st *State, fn *ssa.Function, short, recv, name string, args []Val, pos token.Pos) []Out {
	sig := fn.Signature
	var rt types.Type
	if sig.Results().Len() > 0 {
		rt = sig.Results().At(0).Type()
	}
	add := func(kind string, a []Val, res ...Val) *Event {
		x := &Event{Kind: kind, Name: name, Args: a, Res: res, Pos: pos, Fn: e.curFn()}
		st.add(x)
		return x
	}
	appendField := func(p *Ptr, f string, v Val) {
		cur := e.getField(st, p, f)
		if cur == nil {
			return
		}
		e.setField(st, p, f, st.newList(append(append([]Val(nil), st.seq(cur)...), v), typeOf(cur)))
	}
	switch recv {
	case "Block":
		if strings.HasPrefix(name, "New") {
			blk, ok := args[0].(*Ptr)
			res := e.newLib(st, rt, mk("ir."+name, rt, args[1:]...), name)
			x := add("emit", args, res)
			if !ok {
				e.undecided(st, "instruction into an unknown block at %s", e.pos(pos))
				return ret1(st, res)
			}
			e.emitState(st, x, blk)
			if terminators[name] {
				e.setField(st, blk, "Term", &Iface{rt, res})
			}
			if name == "NewSwitch" {
				e.setField(st, res, "Cases", st.newList(args[3:], e.fieldType(res, st, "Cases")))
			}
			if name == "NewPhi" {
				e.setField(st, res, "Incs", st.newList(args[1:], e.fieldType(res, st, "Incs")))
			}
			return ret1(st, res)
		}
	case "Func":
		switch name {
		case "NewBlock":
			b := e.newBlock(st, "block")
			o := *st.heap[b.Obj]
			o.Ctor = mk("ir.NewBlock", rt, args[1])
			st.heap[b.Obj] = &o
			add("newblock", args, b)
			if f, ok := args[0].(*Ptr); ok {
				appendField(f, "Blocks", b)
			}
			return ret1(st, b)
		case "Name":
			return ret1(st, e.libName(st, args[0]))
		}
	case "Module":
		m, ok := args[0].(*Ptr)
		switch name {
		case "NewFunc":
			res := e.newLib(st, rt, mk("ir.NewFunc", rt, args[1:]...), name)
			o := st.heap[res.Obj]
			o.V = e.symValue(st, name, o.T)
			e.initFunc(st, res, args[2], args[3:])
			add("newfunc", args, res)
			if ok {
				appendField(m, "Funcs", res)
			}
			return ret1(st, res)
		case "NewGlobal", "NewGlobalDef":
			res := e.newLib(st, rt, mk("ir."+name, rt, args[1:]...), name)
			o := st.heap[res.Obj]
			o.V = e.zero(o.T)
			if name == "NewGlobalDef" {
				e.setField(st, res, "Init", args[2])
				e.setField(st, res, "ContentType", mk("typeof", nil, args[2]))
				if c := e.ctor(st, args[2]); c != nil && strings.HasPrefix(c.Op, "constant.") && len(c.Args) > 0 {
					if tt, isP := strip(c.Args[0]).(*Ptr); isP && st.heap[tt.Obj] != nil && st.heap[tt.Obj].Ctor != nil && strings.HasPrefix(st.heap[tt.Obj].Ctor.Op, "types.") {
						e.setField(st, res, "ContentType", &Iface{types.NewPointer(st.heap[tt.Obj].T), tt})
					}
				}
			} else {
				e.setField(st, res, "ContentType", args[2])
			}
			add("newglobal", args, res)
			if ok {
				appendField(m, "Globals", res)
			}
			return ret1(st, res)
		case "String":
			return ret1(st, mk("modstring", tStr, args[0]))
		}
	case "Global", "GlobalIdent", "LocalIdent", "Param":
		if name == "Name" {
			return ret1(st, e.libName(st, args[0]))
		}
		if name == "SetName" {
			add("setname", args)
			return ret1(st)
		}
	}
	if name == "Type" && len(args) == 1 {
		return ret1(st, mk("typeof", rt, args[0]))
	}
	if recv == "" && strings.HasPrefix(name, "New") && rt != nil {
		res := e.newLib(st, rt, mk(short+"."+name, rt, args...), name)
		if short == "ir" && name == "NewBlock" {
			b := e.newBlock(st, "block")
			o := *st.heap[b.Obj]
			o.Ctor = mk("ir.NewBlock", rt, args...)
			st.heap[b.Obj] = &o
			add("newblock", append([]Val{mkNil(nil)}, args...), b)
			return ret1(st, b)
		}
		if short == "ir" && name == "NewFunc" {
			o := st.heap[res.Obj]
			o.V = e.symValue(st, name, o.T)
			e.initFunc(st, res, args[1], args[2:])
			add("newfunc", append([]Val{mkNil(nil)}, args...), res)
		}
		if short == "types" && name == "NewFunc" {
			o := st.heap[res.Obj]
			o.V = e.zero(o.T)
			e.setField(st, res, "RetType", args[0])
			e.setField(st, res, "Params", st.newList(args[1:], e.fieldType(res, st, "Params")))
		}
		if short == "types" && name == "NewArray" {
			o := st.heap[res.Obj]
			o.V = e.zero(o.T)
			e.setField(st, res, "Len", args[0])
			e.setField(st, res, "ElemType", args[1])
		}
		if short == "ir" && (name == "NewGlobal" || name == "NewGlobalDef") {
			o := st.heap[res.Obj]
			o.V = e.zero(o.T)
			if name == "NewGlobalDef" {
				e.setField(st, res, "Init", args[1])
			}
			add("newglobal", append([]Val{mkNil(nil)}, args...), res)
		}
		return ret1(st, res)
	}
	if recv == "" && sig.Results().Len() == 1 {
		return ret1(st, mk(short+"."+name, rt, args...))
	}
	if sig.Results().Len() == 1 && len(args) >= 1 && (isStrT(rt) || isBoolT(rt) || isIntT(rt)) {
		return ret1(st, mk("call:"+name, rt, args...))
	}
	add("ext", args)
	e.undecided(st, "call of %s.%s.%s is not modelled", short, recv, name)
	return ret1(st, e.symResults(st, name, sig)...)
}

func (e *Eng) ctor(st *State, v Val) *Term {
	if p, ok := strip(v).(*Ptr); ok && p.Path == "" && st.heap[p.Obj] != nil {
		return st.heap[p.Obj].Ctor
	}
	return nil
}

func (e *Eng) fieldType(p *Ptr, st *State, f string) types.Type {
	o := st.heap[p.Obj]
	if i := fieldIndex(o.T, f); i >= 0 {
		return under(o.T).(*types.Struct).Field(i).Type()
	}
	return nil
}

func (e *Eng) initFunc(st *State, fn *Ptr, ret Val, params []Val) {
	e.setField(st, fn, "Params", st.newList(params, e.fieldType(fn, st, "Params")))
	sigT := e.fieldType(fn, st, "Sig")
	if sigT == nil {
		return
	}
	so := st.newObj(under(sigT).(*types.Pointer).Elem(), nil, "sig")
	so.V = e.zero(so.T)
	so.Ctor = mk("funcsig", sigT, append([]Val{ret}, params...)...)
	e.setField(st, fn, "Sig", &Ptr{Obj: so.ID})
	e.setField(st, fn, "Blocks", mkNil(e.fieldType(fn, st, "Blocks")))
}

// libName is the name of a function, global or block of the module.
func (e *Eng) libName(st *State, v Val) Val {
	// the receiver may be the embedded GlobalIdent
	x := strip(v)
	if t, ok := x.(*Term); ok && t.Op == "ident-of" {
		x = t.Args[0]
	}
	if p, ok := x.(*Ptr); ok {
		if o := st.heap[p.Obj]; o != nil && o.Ctor != nil {
			switch o.Ctor.Op {
			case "ir.NewFunc", "ir.NewGlobalDef", "ir.NewGlobal", "ir.NewBlock", "ir.NewParam":
				return o.Ctor.Args[0]
			case "idx":
				return mk("irname", tStr, o.Ctor)
			}
			if strings.HasPrefix(o.Ctor.Op, "mapelem:") {
				return mk("irname", tStr, o.Ctor)
			}
		}
		x = &Ptr{Obj: p.Obj}
	}
	return mk("call:Name", tStr, x)
}

// emitState records the state of the target block at an emission.
func (e *Eng) emitState(st *State, x *Event, blk *Ptr) {
	t := e.getField(st, blk, "Term")
	switch st.nilness(t) {
	case 1:
		x.Flag = "open"
	case 0:
		x.Flag = "closed"
	default:
		x.Flag = "maybe"
	}
}

// hookStore sees stores into objects of the LLVM library.
func (e *Eng) hookStore(st *State, p *Ptr, v Val, pos token.Pos, fn *ssa.Function) {
	o := st.heap[p.Obj]
	if o == nil || o.T == nil {
		return
	}
	path := splitPath(p.Path)
	if len(path) != 1 {
		return
	}
	s, ok := under(o.T).(*types.Struct)
	if !ok || path[0] >= s.NumFields() {
		return
	}
	f := s.Field(path[0]).Name()
	switch {
	case types.Identical(o.T, e.blockT) && f == "Insts":
		old := map[string]bool{}
		if c := e.getField(st, &Ptr{Obj: p.Obj}, "Insts"); c != nil {
			for _, i := range st.seq(c) {
				old[i.Key()] = true
			}
		}
		for i, it := range st.seq(v) {
			if _, sp := it.(*Splat); sp || old[it.Key()] {
				continue
			}
			q, ok := strip(it).(*Ptr)
			if !ok {
				continue
			}
			c := st.heap[q.Obj]
			if c == nil || c.Ctor == nil || !strings.HasPrefix(c.Ctor.Op, "ir.New") || e.emitted(st, q) {
				continue
			}
			x := &Event{Kind: "emit", Name: c.Ctor.Op[3:], Args: append([]Val{&Ptr{Obj: p.Obj}}, c.Ctor.Args...), Res: []Val{q}, Pos: pos, Fn: fn.Name()}
			e.emitState(st, x, &Ptr{Obj: p.Obj})
			if i < len(st.seq(v))-1 || !hasPrefixList(st.seq(v), old) {
				x.Flag += " insert"
				x.Pend = st.seq(v)
			}
			st.add(x)
		}
		st.add(&Event{Kind: "insts", Args: append([]Val{&Ptr{Obj: p.Obj}}, st.seq(v)...), Pos: pos, Fn: fn.Name()})
	case types.Identical(o.T, e.blockT) && f == "Term":
		q, ok := strip(v).(*Ptr)
		if ok && st.heap[q.Obj] != nil && st.heap[q.Obj].Ctor != nil {
			c := st.heap[q.Obj].Ctor
			x := &Event{Kind: "emit", Name: strings.TrimPrefix(c.Op, "ir."), Args: append([]Val{&Ptr{Obj: p.Obj}}, c.Args...), Res: []Val{q}, Pos: pos, Fn: fn.Name()}
			e.emitState(st, x, &Ptr{Obj: p.Obj})
			st.add(x)
		} else {
			st.add(&Event{Kind: "setterm", Args: []Val{&Ptr{Obj: p.Obj}, v}, Pos: pos, Fn: fn.Name()})
		}
	case types.Identical(o.T, e.compT) && types.Identical(s.Field(path[0]).Type(), types.NewPointer(e.blockT)):
		st.add(&Event{Kind: "setbuilder", Args: []Val{v}, Pos: pos, Fn: fn.Name()})
	case e.fieldEvs && e.comp != nil && p.Obj == e.comp.Obj:
		st.add(&Event{Kind: "setfield", Name: f, Args: []Val{v}, Pos: pos, Fn: fn.Name()})
	case e.fieldEvs && o.Ctor != nil && o.Ctor.Op == "funcsig":
		st.add(&Event{Kind: "irfield", Name: "sig." + f, Args: []Val{&Ptr{Obj: p.Obj}, v}, Pos: pos, Fn: fn.Name()})
	case o.T.String() == llir+".Func" || o.T.String() == llir+".Module" || o.T.String() == llir+".Global":
		st.add(&Event{Kind: "irfield", Name: f, Args: []Val{&Ptr{Obj: p.Obj}, v}, Pos: pos, Fn: fn.Name()})
	}
}

func hasPrefixList(n []Val, old map[string]bool) bool {
	k := 0
	for k < len(n) && old[n[k].Key()] {
		k++
	}
	return k == len(old)
}

func (e *Eng) emitted(st *State, q *Ptr) bool {
	for l := st.evs; l != nil; l = l.prev {
		if l.ev.Kind == "emit" && len(l.ev.Res) == 1 && same(l.ev.Res[0], q) {
			return true
		}
	}
	return false
}

// ---------- interface methods of unknown values ----------

func (e *Eng) invokeModel(st *State, recv Val, m *types.Func, args []Val, pos token.Pos) []Out {
	sig := m.Type().(*types.Signature)
	switch m.Name() {
	case "Read":
		return e.readModel(st, args, pos)
	case "ReadByte":
		return e.readChar(st, pos, func(s *State, c Val, er Val) Out {
			return Out{st: s, kind: "ret", res: []Val{c, er}}
		})
	case "ReadRune":
		return e.readChar(st, pos, func(s *State, c Val, er Val) Out {
			return Out{st: s, kind: "ret", res: []Val{c, mkInt(1, tInt), er}}
		})
	}
	if isNil(recv) {
		return []Out{{st: st, kind: "panic", pos: pos}}
	}
	if sig.Results().Len() == 1 {
		if m.Name() == "Type" {
			return ret1(st, mk("typeof", sig.Results().At(0).Type(), strip(recv)))
		}
		v := mk("call:"+m.Name(), sig.Results().At(0).Type(), append([]Val{strip(recv)}, args...)...)
		return ret1(st, v)
	}
	st.add(&Event{Kind: "ext", Name: m.Name(), Args: append([]Val{recv}, args...), Pos: pos, Fn: e.curFn()})
	return ret1(st, e.symResults(st, m.Name(), sig)...)
}

func (e *Eng) readChar(st *State, pos token.Pos, mkOut func(s *State, c, er Val) Out) []Out {
	var outs []Out
	set := srcSet.Minus(st.excl)
	if !st.eof && !set.Empty() {
		s := st.clone()
		c := fresh("ch", types.Typ[types.Int32])
		s.chars[c.ID] = set
		s.excl = ByteSet{}
		if s.afterWS {
			s.postWS[c.ID] = true
			s.afterWS = false
		}
		s.add(&Event{Kind: "read", Args: []Val{c}, Pos: pos, Fn: e.curFn()})
		outs = append(outs, mkOut(s, c, mkNil(tErr)))
	}
	if !st.eof {
		s := st.clone()
		er := e.err(s, "read")
		s.nils[er.ID] = false
		s.eof = true
		s.excl = ByteSet{}
		s.add(&Event{Kind: "readerr", Res: []Val{er}, Pos: pos, Fn: e.curFn()})
		outs = append(outs, mkOut(s, nil, er))
	}
	st.eof = true
	st.excl = ByteSet{}
	st.add(&Event{Kind: "eof", Pos: pos, Fn: e.curFn()})
	outs = append(outs, mkOut(st, nil, e.extGlobal(st, "glob:io.EOF", tErr)))
	return outs
}

func (e *Eng) readModel(st *State, args []Val, pos token.Pos) []Out {
	buf, ok := args[len(args)-1].(*SliceVal)
	if !ok || len(st.items(buf)) != 1 {
		e.undecided(st, "read into a buffer of unknown size at %s", e.pos(pos))
	}
	return e.readChar(st, pos, func(s *State, c, er Val) Out {
		if c == nil {
			return Out{st: s, kind: "ret", res: []Val{mkInt(0, tInt), er}}
		}
		if ok {
			e.store(s, &Ptr{buf.Obj, "/" + strconv.Itoa(buf.Lo)}, c)
		}
		return Out{st: s, kind: "ret", res: []Val{mkInt(1, tInt), er}}
	})
}

func (e *Eng) extGlobal(st *State, op string, t types.Type) Val {
	return mk(op, t)
}

// ---------- equality of partly known strings ----------

// strPieces splits a string term into its parts.
func (e *Eng) strPieces(st *State, v Val) []Val {
	v = e.norm(st, v)
	if t, ok := v.(*Term); ok {
		if t.Op == "cat" {
			var r []Val
			for _, a := range t.Args {
				r = append(r, e.strPieces(st, a)...)
			}
			return r
		}
		if cs, ok := st.strs[t.ID]; ok {
			return []Val{mk("str", tStr, cs...)}
		}
	}
	return []Val{v}
}

// strEq decides whether a string term equals a constant: 1 yes, 0 no, -1 unknown.
func (e *Eng) strEq(st *State, x *Term, s string) int {
	p := e.strPieces(st, x)
	// fixed prefix and suffix
	rest := s
	for len(p) > 0 {
		c, ok := constStr(p[0])
		if !ok {
			break
		}
		if !strings.HasPrefix(rest, c) {
			return 0
		}
		rest = rest[len(c):]
		p = p[1:]
	}
	for len(p) > 0 {
		c, ok := constStr(p[len(p)-1])
		if !ok {
			break
		}
		if !strings.HasSuffix(rest, c) {
			return 0
		}
		rest = rest[:len(rest)-len(c)]
		p = p[:len(p)-1]
	}
	if len(p) == 0 {
		if rest == "" {
			return 1
		}
		return 0
	}
	if len(p) == 1 {
		if t, ok := p[0].(*Term); ok {
			switch t.Op {
			case "str":
				if !hasSplat(t.Args) {
					if len(t.Args) != len(rest) {
						return 0
					}
					for i, a := range t.Args {
						if set, ok := st.charSet(e.norm(st, a)); ok && !set.Has(int(rest[i])) {
							return 0
						}
					}
				}
			case "chr":
				if len([]rune(rest)) != 1 {
					return 0
				}
			case "itoa":
				if _, err := strconv.ParseInt(rest, 10, 64); err != nil {
					return 0
				}
			case "sym":
				if st.neqc[t.ID][mkStr(rest).Key()] {
					return 0
				}
				if k, ok := st.eqc[t.ID]; ok {
					if ks, ok := constStr(k); ok {
						if ks == rest {
							return 1
						}
						return 0
					}
				}
				if strings.HasPrefix(t.Name, "ident") {
					for i := 0; i < len(rest); i++ {
						if !identSet.Has(int(rest[i])) {
							return 0
						}
					}
				}
			case "call:filepath.Ext":
				if rest != "" && rest[0] != '.' {
					return 0
				}
			}
		}
	}
	return -1
}

func (e *Eng) onEq(st *State, x *Term, c *Const) bool {
	s, ok := constStr(c)
	if !ok {
		return true
	}
	if cs, ok := st.strs[x.ID]; ok {
		if len(cs) != len(s) {
			return false
		}
		for i, a := range cs {
			if t, ok := a.(*Term); ok {
				var b ByteSet
				b.Add(int(s[i]))
				st.chars[t.ID] = b
			}
		}
	}
	p := e.strPieces(st, x)
	if len(p) == 2 {
		if k, ok := constStr(p[0]); ok {
			if t, ok := p[1].(*Term); ok && t.Op == "sym" {
				st.eqc[t.ID] = mkStr(strings.TrimPrefix(s, k))
			}
		}
	}
	return true
}

// bindString gives an identifier of unknown length a list of characters, for a set of lengths.
func (e *Eng) bindString(st *State, x Val) []*State {
	t, ok := x.(*Term)
	if !ok {
		return nil
	}
	if st.strs[t.ID] != nil {
		return []*State{st}
	}
	if t.Op != "sym" || !(strings.HasPrefix(t.Name, "ident") || strings.HasPrefix(t.Name, "strlit")) {
		return nil
	}
	var outs []*State
	lens := []int{1, 2, 3, 40}
	if !st.neqc[t.ID][mkStr("").Key()] {
		lens = append(lens, 0)
	}
	lt := mk("len", tInt, t)
	iv := st.interval(lt)
	for _, n := range lens {
		if int64(n) < iv.Lo || int64(n) > iv.Hi {
			continue
		}
		s := st.clone()
		cs := make([]Val, n)
		for i := range cs {
			c := fresh("sc", types.Typ[types.Int32])
			if strings.HasPrefix(t.Name, "ident") {
				s.chars[c.ID] = identSet
			} else {
				s.chars[c.ID] = srcSet
			}
			cs[i] = c
		}
		s.strs[t.ID] = cs
		s.eqc[lt.ID] = mkInt(int64(n), tInt)
		outs = append(outs, s)
	}
	return outs
}

func (e *Eng) decidePred(st *State, t *Term) int { return -1 }

func (e *Eng) onPred(st *State, t *Term, v bool) bool { return true }

// neverDyn: values that are certainly not of a dynamic type.
func (e *Eng) neverDyn(st *State, t *Term, at types.Type) bool { return false }

// ---------- calls that are not entered ----------

// pushback counts the characters waiting in the lexer.
func (e *Eng) pushback(st *State) (int, bool) {
	if e.lex == nil || st.heap[e.lex.Obj] == nil {
		return 0, false
	}
	return len(e.pending(st)), true
}

// lexBuf finds the lexer field that holds characters read ahead.
func (e *Eng) lexBuf(st *State) int {
	if e.lex == nil {
		return -1
	}
	o := st.heap[e.lex.Obj]
	s, ok := under(o.T).(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if sl, ok := under(s.Field(i).Type()).(*types.Slice); ok && isIntT(sl.Elem()) {
			return i
		}
	}
	return -1
}

func (e *Eng) pending(st *State) []Val {
	i := e.lexBuf(st)
	if i < 0 {
		return nil
	}
	v := e.load(st, &Ptr{e.lex.Obj, "/" + strconv.Itoa(i)})
	return st.seq(v)
}

// drain takes the characters waiting in the lexer, in the order they will be read.
func (e *Eng) drain(st *State) []Val {
	p := e.pending(st)
	if len(p) == 0 {
		return nil
	}
	var r []Val
	for i := len(p) - 1; i >= 0; i-- {
		r = append(r, p[i])
	}
	i := e.lexBuf(st)
	q := &Ptr{e.lex.Obj, "/" + strconv.Itoa(i)}
	e.store(st, q, st.newList(nil, under(e.lexT).(*types.Struct).Field(i).Type()))
	return r
}

// modset lists the fields of repository structures a function may change,
// directly or through the functions it calls.
func (e *Eng) modset(fn *ssa.Function) map[string]bool {
	if m, ok := e.mods[fn]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		note := func(v ssa.Value) {
			for {
				switch x := v.(type) {
				case *ssa.FieldAddr:
					t := under(x.X.Type()).(*types.Pointer).Elem()
					if s, ok := under(t).(*types.Struct); ok {
						m[types.TypeString(t, shortQual)+"."+s.Field(x.Field).Name()] = true
					}
					return
				case *ssa.IndexAddr:
					v = x.X
					continue
				case *ssa.UnOp:
					v = x.X
					continue
				}
				return
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					note(x.Addr)
				case *ssa.MapUpdate:
					note(x.Map)
				case ssa.CallInstruction:
					c := x.Common()
					if g := c.StaticCallee(); g != nil {
						if g.Pkg == e.pkg || g.Parent() != nil {
							visit(g)
						} else if recvName(g) == "Module" {
							switch g.Name() {
							case "NewFunc":
								m["ir.Module.Funcs"] = true
							case "NewGlobal", "NewGlobalDef":
								m["ir.Module.Globals"] = true
							}
						}
					}
					if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "delete" {
						note(c.Args[0])
					}
					for _, a := range c.Args {
						if mc, ok := a.(*ssa.MakeClosure); ok {
							visit(mc.Fn.(*ssa.Function))
						}
						if g, ok := a.(*ssa.Function); ok && g.Pkg == e.pkg {
							visit(g)
						}
					}
				case *ssa.MakeClosure:
					visit(x.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	e.mods[fn] = m
	return m
}

// havoc forgets what a call may have changed.
func (e *Eng) havoc(st *State, fn *ssa.Function, args []Val) {
	mods := e.modset(fn)
	seen := map[int]bool{}
	var touch func(id int)
	touch = func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.heap[id]
		if o == nil || o.V == nil || o.T == nil {
			return
		}
		sv, ok := o.V.(*StructVal)
		if !ok {
			return
		}
		s, ok := under(o.T).(*types.Struct)
		if !ok {
			return
		}
		tn := types.TypeString(o.T, shortQual)
		n := &StructVal{sv.T, append([]Val(nil), sv.F...), sv.Name}
		for i := 0; i < s.NumFields(); i++ {
			if sv.F[i] == nil {
				continue
			}
			if e.lex != nil && id == e.lex.Obj && i == e.lexBuf(st) {
				// what the callee gives back is read again like the rest of the source
				continue
			}
			if mods[tn+"."+s.Field(i).Name()] {
				n.F[i] = e.forget(st, sv.F[i], tn+"."+s.Field(i).Name(), s.Field(i).Type())
			} else if p, ok := sv.F[i].(*Ptr); ok {
				touch(p.Obj)
			}
		}
		no := *st.heap[id]
		no.V = n
		st.heap[id] = &no
	}
	for _, a := range args {
		p, ok := a.(*Ptr)
		if !ok {
			continue
		}
		o := st.heap[p.Obj]
		if o == nil || o.T == nil {
			continue
		}
		if _, isStruct := under(o.T).(*types.Struct); isStruct {
			if p.Path == "" {
				touch(p.Obj)
			}
			continue
		}
		// a cell handed to the callee, e.g. the list of cases
		v := e.load(st, p)
		nv := fresh("after:"+o.Name, o.T)
		if sl, ok := under(o.T).(*types.Slice); ok {
			// callees only extend lists handed to them
			e.store(st, p, st.newList(append(append([]Val(nil), st.seq(v)...), &Splat{nv}), types.NewSlice(sl.Elem())))
			continue
		}
		e.store(st, p, nv)
	}
}

// forget gives an unknown value after a call.
func (e *Eng) forget(st *State, old Val, name string, t types.Type) Val {
	if types.Identical(t, types.NewPointer(e.blockT)) {
		// the block where code is inserted: a new one, without terminator
		b := e.newBlock(st, "cur")
		st.heap[b.Obj].Ctor = mk("cur", t, fresh("cur", nil))
		return b
	}
	if m, ok := old.(*MapRef); ok {
		o := *st.heap[m.Obj]
		mv := o.V.(*MapVal)
		o.V = &MapVal{Opaque: true, Name: mv.Name, T: mv.T}
		st.heap[m.Obj] = &o
		// the field may also refer to another map now; both are unknown
		return old
	}
	if isIntT(t) {
		n := fresh("after:"+name, t)
		st.ivl[n.ID] = Ivl{st.interval(old).Lo, fullIvl.Hi}
		return n
	}
	return nil
}

// cutAnchor stands for a call of a function that is analysed on its own.
func (e *Eng) cutAnchor(_ *Eng, st *State, fn *ssa.Function, args []Val, pos token.Pos) []Out {
	pend := e.drain(st)
	before := e.builderOf(st, args)
	ev := &Event{Kind: "call", Name: fn.Name(), Args: append([]Val(nil), args...), Pend: pend, Pos: pos, Fn: e.curFn()}
	key := e.callKey(st, fn, args)
	ev.Flag = key
	if e.onCut != nil {
		e.onCut(st, fn, args, key)
	}
	ev.List = make([][]Val, len(args))
	for i, a := range args {
		if p, ok := a.(*Ptr); ok && st.heap[p.Obj] != nil {
			if _, isL := under(st.heap[p.Obj].T).(*types.Slice); isL && p.Path == "" {
				ev.List[i] = st.seq(e.load(st, p))
				if ev.List[i] == nil {
					ev.List[i] = []Val{}
				}
			}
		}
	}
	ev.Cnt = map[string][2]Val{}
	for _, n := range e.counters() {
		ev.Cnt[n] = [2]Val{orNil(e.peekField(st, e.comp.Obj, n))}
	}
	e.havoc(st, fn, args)
	for n, p := range ev.Cnt {
		p[1] = orNil(e.getField(st, e.comp, n))
		ev.Cnt[n] = p
	}
	if e.fieldEvs {
		ev.After = map[string]Val{}
		for _, n := range e.compFields() {
			v := e.peekField(st, e.comp.Obj, n)
			if v == nil {
				v = e.getField(st, e.comp, n)
			}
			ev.After[n] = orNil(v)
		}
	}
	after := e.builderOf(st, args)
	sig := fn.Signature
	nres := sig.Results().Len()
	hasErr := nres > 0 && isErrT(sig.Results().At(nres-1).Type())
	var outs []Out
	if hasErr {
		bad := st.clone()
		b := *ev
		er := e.err(bad, "sub:"+fn.Name())
		bad.nils[er.ID] = false
		var res []Val
		for i := 0; i < nres-1; i++ {
			z, ok := zeroScalar(sig.Results().At(i).Type())
			if !ok {
				z = e.zero(sig.Results().At(i).Type())
			}
			res = append(res, z)
		}
		res = append(res, er)
		b.Kind = "callfail"
		b.Res = res
		bad.add(&b)
		bad.excl = ByteSet{}
		bad.afterWS = false
		outs = append(outs, Out{st: bad, kind: "ret", res: res})
	}
	var res []Val
	for i := 0; i < nres; i++ {
		if hasErr && i == nres-1 {
			res = append(res, mkNil(tErr))
			continue
		}
		t := sig.Results().At(i).Type()
		v := e.symValue(st, fn.Name()+"."+strconv.Itoa(i), t)
		if tm, ok := v.(*Term); ok {
			if _, isI := under(t).(*types.Interface); isI {
				st.nils[tm.ID] = false
			}
		}
		res = append(res, v)
	}
	ev.Res = res
	ev.Loop = nil
	st.add(ev)
	if before != nil || after != nil {
		ev.Args = append(ev.Args, &Tuple{[]Val{orNil(before), orNil(after)}})
	}
	st.excl = ByteSet{}
	st.afterWS = false
	if e.endsWS[fn.Name()] {
		st.excl = wsSet
		st.afterWS = true
	}
	outs = append(outs, Out{st: st, kind: "ret", res: res})
	return outs
}

func orNil(v Val) Val {
	if v == nil {
		return mkNil(nil)
	}
	return v
}

// callKey identifies a call of an analysed function by its constant arguments.
func (e *Eng) callKey(st *State, fn *ssa.Function, args []Val) string {
	s := fn.Name()
	for i, p := range fn.Params {
		if i >= len(args) {
			break
		}
		if _, ok := under(p.Type()).(*types.Basic); ok {
			if c, ok := e.norm(st, args[i]).(*Const); ok {
				s += "/" + c.Key()
			} else {
				s += "/_"
			}
		}
	}
	return s
}

// builderOf is the current insertion block of the compiler object among the arguments.
func (e *Eng) builderOf(st *State, args []Val) Val {
	if e.comp == nil || st.heap[e.comp.Obj] == nil {
		return nil
	}
	if f := e.builderField(); f != "" {
		return e.getField(st, e.comp, f)
	}
	return nil
}

// counters are the whole numbers the compiler keeps.
func (e *Eng) counters() []string {
	if e.comp == nil || e.compT == nil {
		return nil
	}
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return nil
	}
	var r []string
	for i := 0; i < s.NumFields(); i++ {
		if isIntT(s.Field(i).Type()) {
			r = append(r, s.Field(i).Name())
		}
	}
	return r
}

// builderField is the field of the compiler that holds the current block.
func (e *Eng) builderField() string {
	s, ok := under(e.compT).(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < s.NumFields(); i++ {
		if types.Identical(s.Field(i).Type(), types.NewPointer(e.blockT)) {
			return s.Field(i).Name()
		}
	}
	return ""
}

type Facts struct{}

var _ = constant.MakeBool
var _ = fmt.Sprint
var _ = sort.Ints
