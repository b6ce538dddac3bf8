// Package rt decides properties of the runtime library from its source. The C files are
// translated to LLVM's intermediate representation (unoptimised, for each supported
// machine), which is interpreted abstractly: words are linear expressions over unknown
// inputs with intervals, and every conditional splits the intervals.
package rt

import (
	"fmt"
	"math/big"
	"os"
	"regexp"
	"strconv"
	"strings"
)

// Type is a type of the representation.
type Type struct {
	Kind  string // int ptr void array struct other
	Bits  int
	Len   int64
	Elem  *Type
	Flds  []*Type
	Pack  bool
	Label string
}

func (t *Type) align() int64 {
	switch t.Kind {
	case "int":
		switch {
		case t.Bits <= 8:
			return 1
		case t.Bits <= 16:
			return 2
		case t.Bits <= 32:
			return 4
		case t.Bits <= 64:
			return 8
		}
		return 16
	case "ptr":
		return 8
	case "array":
		return t.Elem.align()
	case "struct":
		var a int64 = 1
		if !t.Pack {
			for _, f := range t.Flds {
				if f.align() > a {
					a = f.align()
				}
			}
		}
		return a
	}
	return 1
}

func up(n, a int64) int64 { return (n + a - 1) / a * a }

func (t *Type) size() int64 {
	switch t.Kind {
	case "int":
		return up(int64(t.Bits+7)/8, t.align())
	case "ptr":
		return 8
	case "array":
		return t.Len * t.Elem.size()
	case "struct":
		var n int64
		for _, f := range t.Flds {
			if !t.Pack {
				n = up(n, f.align())
			}
			n += f.size()
		}
		return up(n, t.align())
	}
	return 0
}

func (t *Type) field(i int) int64 {
	var n int64
	for k, f := range t.Flds {
		if !t.Pack {
			n = up(n, f.align())
		}
		if k == i {
			return n
		}
		n += f.size()
	}
	return n
}

// Opd is an operand: a register, a constant, a global or an expression of constants.
type Opd struct {
	T    *Type
	Kind string // reg int global undef zero expr list bytes
	Name string
	Int  *big.Int
	Op   string
	Args []*Opd
	Src  *Type // of getelementptr
	Text string
}

// Ins is an instruction.
type Ins struct {
	Res   string
	Op    string
	T     *Type
	Args  []*Opd
	Flags map[string]bool
	Pred  string
	Lbls  []string
	Cases []*big.Int
	Asm   string
	Cons  string
	Line  int // of the source
	File  string
	Raw   string
	dbg   int
}

// Block is a basic block.
type Block struct {
	Name string
	Ins  []*Ins
	Head bool // some jump goes back to it
}

// Fn is a function.
type Fn struct {
	Name     string
	Mod      *Mod
	Internal bool
	Variadic bool
	Params   []*Type
	PNames   []string
	Ret      *Type
	Blocks   []*Block
	ByName   map[string]*Block
	Attrs    string
	Decl     bool
	Line     int
	File     string
	Raw      string
}

// Glob is a variable.
type Glob struct {
	Name     string
	Mod      *Mod
	T        *Type
	Init     *Opd
	Const    bool
	Internal bool
	Extern   bool
}

// Mod is a translated file.
type Mod struct {
	File   string
	Types  map[string]*Type
	Fns    map[string]*Fn
	Order  []*Fn
	Globs  map[string]*Glob
	attrs  map[string]string
	Assert []string // module level assembly, aliases and other things not analysed
}

type parser struct {
	m   *Mod
	tok []string
	i   int
	err error
	raw string
}

var tokRE = regexp.MustCompile(`c?"(?:[^"])*"|[%@!#$][-a-zA-Z0-9_.$]+|[%@]"[^"]*"|[-a-zA-Z0-9_.]+|\.\.\.|.`)

func lexLine(s string) []string {
	var out []string
	for _, t := range tokRE.FindAllString(s, -1) {
		if t == " " || t == "\t" {
			continue
		}
		if t == ";" {
			break
		}
		out = append(out, t)
	}
	return out
}

func (p *parser) peek() string {
	if p.i < len(p.tok) {
		return p.tok[p.i]
	}
	return ""
}

func (p *parser) next() string {
	t := p.peek()
	p.i++
	return t
}

func (p *parser) is(t string) bool {
	if p.peek() == t {
		p.i++
		return true
	}
	return false
}

func (p *parser) want(t string) {
	if !p.is(t) {
		p.bad("%q expected instead of %q", t, p.peek())
	}
}

type parseErr struct{ s string }

func (p *parser) bad(f string, a ...interface{}) {
	panic(parseErr{fmt.Sprintf(f, a...) + " in: " + p.raw})
}

func unq(s string) string {
	if len(s) > 1 && (s[0] == '%' || s[0] == '@') {
		if s[1] == '"' {
			return s[:1] + s[2:len(s)-1]
		}
	}
	return s
}

func (p *parser) typ() *Type {
	t := p.next()
	var r *Type
	switch {
	case t == "void":
		r = &Type{Kind: "void"}
	case t == "ptr":
		r = &Type{Kind: "ptr"}
	case t == "[":
		n, _ := strconv.ParseInt(p.next(), 10, 64)
		p.want("x")
		e := p.typ()
		p.want("]")
		r = &Type{Kind: "array", Len: n, Elem: e}
	case t == "{" || t == "<":
		r = &Type{Kind: "struct"}
		if t == "<" {
			if p.peek() != "{" {
				p.bad("vector type")
			}
			p.next()
			r.Pack = true
		}
		for !p.is("}") {
			r.Flds = append(r.Flds, p.typ())
			p.is(",")
		}
		if r.Pack {
			p.want(">")
		}
	case strings.HasPrefix(t, "%"):
		r = p.m.Types[unq(t)]
		if r == nil {
			p.bad("unknown type %s", t)
		}
	case len(t) > 1 && t[0] == 'i' && t[1] >= '0' && t[1] <= '9':
		n, err := strconv.Atoi(t[1:])
		if err != nil {
			p.bad("type %s", t)
		}
		r = &Type{Kind: "int", Bits: n}
	default:
		r = &Type{Kind: "other", Label: t}
		if t != "metadata" && t != "label" && t != "float" && t != "double" && t != "half" && t != "x86_fp80" && t != "fp128" && t != "token" {
			p.bad("unknown type %q", t)
		}
	}
	if p.is("addrspace") {
		p.bad("address space")
	}
	// function types
	if p.peek() == "(" && r.Kind != "other" {
		d := 0
		for {
			x := p.next()
			if x == "(" {
				d++
			} else if x == ")" {
				d--
				if d == 0 {
					break
				}
			} else if x == "" {
				break
			}
		}
		r = &Type{Kind: r.Kind, Bits: r.Bits, Elem: r.Elem, Flds: r.Flds, Len: r.Len, Pack: r.Pack}
	}
	return r
}

var attrWords = map[string]bool{"noundef": true, "signext": true, "zeroext": true, "inreg": true, "nonnull": true, "noalias": true, "readonly": true, "writeonly": true, "readnone": true, "nocapture": true, "returned": true, "immarg": true, "dso_local": true, "local_unnamed_addr": true, "unnamed_addr": true, "hidden": true, "internal": true, "private": true, "external": true, "global": true, "constant": true, "fastcc": true, "ccc": true, "tail": true, "notail": true, "musttail": true, "weak": true, "common": true, "linkonce_odr": true, "dso_preemptable": true, "protected": true, "volatile": true, "inbounds": true, "nuw": true, "nsw": true, "exact": true, "disjoint": true, "nneg": true}

func (p *parser) attrs() map[string]bool {
	f := map[string]bool{}
	for {
		t := p.peek()
		switch {
		case attrWords[t]:
			f[t] = true
			p.next()
		case t == "align" || t == "dereferenceable" || t == "dereferenceable_or_null":
			p.next()
			if p.is("(") {
				p.next()
				p.want(")")
			} else {
				p.next()
			}
		case t == "sideeffect" || t == "alignstack" || t == "inteldialect" || t == "unwind":
			f[t] = true
			p.next()
		case strings.HasPrefix(t, "#"):
			f[t] = true
			p.next()
		default:
			return f
		}
	}
}

func (p *parser) operand(t *Type) *Opd {
	s := p.next()
	o := &Opd{T: t, Text: s}
	switch {
	case strings.HasPrefix(s, "%"):
		o.Kind, o.Name = "reg", unq(s)
	case strings.HasPrefix(s, "@"):
		o.Kind, o.Name = "global", unq(s)[1:]
	case s == "undef" || s == "poison":
		o.Kind = "undef"
	case s == "null" || s == "zeroinitializer" || s == "none":
		o.Kind, o.Int = "zero", new(big.Int)
	case s == "true" || s == "false":
		o.Kind, o.Int = "int", big.NewInt(0)
		if s == "true" {
			o.Int = big.NewInt(1)
		}
	case strings.HasPrefix(s, "c\""):
		o.Kind, o.Text = "bytes", unesc(s[2:len(s)-1])
	case s == "[" || s == "{" || s == "<":
		o.Kind = "list"
		end := map[string]string{"[": "]", "{": "}", "<": ">"}[s]
		if s == "<" {
			p.want("{")
			end = "}"
		}
		for !p.is(end) {
			et := p.typ()
			o.Args = append(o.Args, p.operand(et))
			p.is(",")
			if p.peek() == "" {
				break
			}
		}
		if s == "<" {
			p.want(">")
		}
	case s == "getelementptr" || s == "ptrtoint" || s == "inttoptr" || s == "bitcast" || s == "sub" || s == "add" || s == "trunc":
		o.Kind, o.Op = "expr", s
		p.attrs()
		p.want("(")
		if s == "getelementptr" {
			o.Src = p.typ()
			p.want(",")
		}
		for {
			at := p.typ()
			o.Args = append(o.Args, p.operand(at))
			if p.is("to") {
				p.typ()
			}
			if p.is(")") {
				break
			}
			p.want(",")
		}
	default:
		n, ok := new(big.Int).SetString(s, 10)
		if !ok {
			p.bad("operand %q", s)
		}
		o.Kind, o.Int = "int", n
	}
	return o
}

func unesc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+2 < len(s) {
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err == nil {
				b.WriteByte(byte(n))
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// parseMod reads the text of a translated file.
func parseMod(file, text string) (m *Mod, err error) {
	m = &Mod{File: file, Types: map[string]*Type{}, Fns: map[string]*Fn{}, Globs: map[string]*Glob{}, attrs: map[string]string{}}
	p := &parser{m: m}
	defer func() {
		if x := recover(); x != nil {
			if pe, ok := x.(parseErr); ok {
				err = fmt.Errorf("%s: %s", file, pe.s)
				return
			}
			panic(x)
		}
	}()
	lines := strings.Split(text, "\n")
	// attributes and debugging data come last but are referred to earlier
	md := map[int]string{}
	for _, l := range lines {
		if strings.HasPrefix(l, "attributes #") {
			f := strings.SplitN(l[len("attributes "):], " ", 2)
			m.attrs[f[0]] = f[1]
		}
		if strings.HasPrefix(l, "!") {
			if k := strings.Index(l, " = "); k > 0 {
				if n, e := strconv.Atoi(l[1:k]); e == nil {
					md[n] = l[k+3:]
				}
			}
		}
	}
	ref := func(s, key string) int {
		if k := strings.Index(s, key+": !"); k >= 0 {
			n := 0
			fmt.Sscanf(s[k+len(key)+3:], "%d", &n)
			return n
		}
		return -1
	}
	num := func(s, key string) int {
		if k := strings.Index(s, key+": "); k >= 0 {
			n := 0
			fmt.Sscanf(s[k+len(key)+2:], "%d", &n)
			return n
		}
		return 0
	}
	var fileOf func(n, d int) string
	fileOf = func(n, d int) string {
		s := md[n]
		if d > 20 || s == "" {
			return file
		}
		if strings.Contains(s, "!DIFile(") {
			if k := strings.Index(s, "filename: \""); k >= 0 {
				r := s[k+len("filename: \""):]
				if e := strings.Index(r, "\""); e >= 0 {
					return r[:e]
				}
			}
			return file
		}
		if f := ref(s, "file"); f >= 0 {
			return fileOf(f, d+1)
		}
		if f := ref(s, "scope"); f >= 0 {
			return fileOf(f, d+1)
		}
		return file
	}
	at := func(n int) (string, int) {
		s, ok := md[n]
		if !ok {
			return file, 0
		}
		return fileOf(n, 0), num(s, "line")
	}
	dbg := func(raw string) int {
		if k := strings.LastIndex(raw, "!dbg !"); k >= 0 {
			n := -1
			fmt.Sscanf(raw[k+6:], "%d", &n)
			return n
		}
		return -1
	}
	// types first, they may be used before
	for pass := 0; pass < 3; pass++ {
		for _, l := range lines {
			if strings.HasPrefix(l, "%") && strings.Contains(l, " = type ") {
				p.tok, p.i, p.raw = lexLine(l), 0, l
				name := unq(p.next())
				p.want("=")
				p.want("type")
				if p.is("opaque") {
					m.Types[name] = &Type{Kind: "other", Label: "opaque"}
					continue
				}
				if m.Types[name] == nil {
					m.Types[name] = &Type{Kind: "struct"}
				}
				*m.Types[name] = *p.typ()
			}
		}
	}
	var fn *Fn
	var blk *Block
	for li := 0; li < len(lines); li++ {
		l := lines[li]
		t := strings.TrimSpace(l)
		if t == "" || t[0] == ';' {
			continue
		}
		p.tok, p.i, p.raw = lexLine(l), 0, l
		if fn == nil {
			switch {
			case strings.HasPrefix(t, "define ") || strings.HasPrefix(t, "declare "):
				f := p.header()
				f.Raw = l
				f.File, f.Line = at(dbg(l))
				if old := m.Fns[f.Name]; old == nil || old.Decl {
					m.Fns[f.Name] = f
				}
				m.Order = append(m.Order, f)
				if !f.Decl {
					fn, blk = f, nil
				}
			case strings.HasPrefix(t, "@"):
				p.global()
			case strings.HasPrefix(t, "module asm"):
				m.Assert = append(m.Assert, t)
			case strings.HasPrefix(t, "%"), strings.HasPrefix(t, "!"), strings.HasPrefix(t, "source_filename"), strings.HasPrefix(t, "target "), strings.HasPrefix(t, "attributes "), strings.HasPrefix(t, "$"):
			default:
				p.bad("unknown line")
			}
			continue
		}
		if t == "}" {
			fn.heads()
			fn = nil
			continue
		}
		if k := strings.Index(t, ":"); k > 0 && !strings.HasPrefix(l, " ") {
			name := strings.Trim(t[:k], "\"")
			blk = &Block{Name: "%" + name}
			fn.Blocks = append(fn.Blocks, blk)
			fn.ByName[blk.Name] = blk
			continue
		}
		if blk == nil {
			blk = &Block{Name: "%" + fn.entryName()}
			fn.Blocks = append(fn.Blocks, blk)
			fn.ByName[blk.Name] = blk
		}
		// a switch goes over several lines
		if p.peek() == "switch" && strings.HasSuffix(t, "[") {
			for li+1 < len(lines) {
				li++
				l += " " + strings.TrimSpace(lines[li])
				if strings.HasPrefix(strings.TrimSpace(lines[li]), "]") {
					break
				}
			}
			p.tok, p.i, p.raw = lexLine(l), 0, l
		}
		in := p.ins()
		in.Raw = t
		if d := dbg(l); d >= 0 {
			in.File, in.Line = at(d)
		} else {
			in.File, in.Line = fn.File, fn.Line
		}
		blk.Ins = append(blk.Ins, in)
	}
	return m, nil
}

func (f *Fn) entryName() string {
	n := 0
	for _, x := range f.PNames {
		if _, err := strconv.Atoi(strings.TrimPrefix(x, "%")); err == nil {
			n++
		}
	}
	return strconv.Itoa(n)
}

func (p *parser) header() *Fn {
	f := &Fn{Mod: p.m, ByName: map[string]*Block{}}
	f.Decl = p.next() == "declare"
	fl := p.attrs()
	f.Internal = fl["internal"] || fl["private"]
	f.Ret = p.typ()
	p.attrs()
	f.Name = unq(p.next())[1:]
	p.want("(")
	for !p.is(")") {
		if p.is("...") {
			f.Variadic = true
			continue
		}
		t := p.typ()
		p.attrs()
		name := ""
		if strings.HasPrefix(p.peek(), "%") {
			name = unq(p.next())
		} else if !f.Decl {
			name = "%" + strconv.Itoa(len(f.Params))
		}
		f.Params = append(f.Params, t)
		f.PNames = append(f.PNames, name)
		if !p.is(",") && p.peek() != ")" {
			p.bad("parameter")
		}
	}
	for a := range p.attrs() {
		if s := p.m.attrs[a]; s != "" {
			f.Attrs += s
		}
	}
	return f
}

func (p *parser) global() {
	name := unq(p.next())[1:]
	p.want("=")
	g := &Glob{Name: name, Mod: p.m}
	fl := p.attrs()
	if p.is("alias") || p.is("ifunc") {
		p.m.Assert = append(p.m.Assert, p.raw)
		return
	}
	g.Const = fl["constant"]
	g.Internal = fl["internal"] || fl["private"]
	g.Extern = fl["external"]
	if p.is("thread_local") {
		p.bad("thread local variable")
	}
	g.T = p.typ()
	if !g.Extern {
		g.Init = p.operand(g.T)
	}
	p.m.Globs[name] = g
}

func (p *parser) ins() *Ins {
	in := &Ins{Flags: map[string]bool{}}
	if strings.HasPrefix(p.peek(), "%") {
		in.Res = unq(p.next())
		p.want("=")
	}
	add := func(f map[string]bool) {
		for k := range f {
			in.Flags[k] = true
		}
	}
	add(p.attrs())
	in.Op = p.next()
	switch in.Op {
	case "alloca":
		add(p.attrs())
		in.T = p.typ()
		for p.is(",") {
			if p.is("align") {
				p.next()
				continue
			}
			if strings.HasPrefix(p.peek(), "!") {
				break
			}
			t := p.typ()
			in.Args = append(in.Args, p.operand(t))
		}
	case "load":
		add(p.attrs())
		in.T = p.typ()
		p.want(",")
		in.Args = append(in.Args, p.operand(p.typ()))
	case "store":
		add(p.attrs())
		in.Args = append(in.Args, p.operand(p.typ()))
		p.want(",")
		in.Args = append(in.Args, p.operand(p.typ()))
	case "getelementptr":
		add(p.attrs())
		in.T = p.typ()
		for p.is(",") {
			if strings.HasPrefix(p.peek(), "!") {
				break
			}
			in.Args = append(in.Args, p.operand(p.typ()))
		}
	case "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor":
		add(p.attrs())
		in.T = p.typ()
		in.Args = append(in.Args, p.operand(in.T))
		p.want(",")
		in.Args = append(in.Args, p.operand(in.T))
	case "icmp":
		in.Pred = p.next()
		t := p.typ()
		in.T = t
		in.Args = append(in.Args, p.operand(t))
		p.want(",")
		in.Args = append(in.Args, p.operand(t))
	case "trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "freeze":
		add(p.attrs())
		t := p.typ()
		in.Args = append(in.Args, p.operand(t))
		if in.Op == "freeze" {
			in.T = t
		} else {
			p.want("to")
			in.T = p.typ()
		}
	case "br":
		if p.is("label") {
			in.Lbls = []string{unq(p.next())}
		} else {
			in.Args = append(in.Args, p.operand(p.typ()))
			for p.is(",") {
				if !p.is("label") {
					break
				}
				in.Lbls = append(in.Lbls, unq(p.next()))
			}
		}
	case "switch":
		t := p.typ()
		in.Args = append(in.Args, p.operand(t))
		p.want(",")
		p.want("label")
		in.Lbls = append(in.Lbls, unq(p.next()))
		p.want("[")
		for !p.is("]") {
			o := p.operand(p.typ())
			in.Cases = append(in.Cases, o.Int)
			p.want(",")
			p.want("label")
			in.Lbls = append(in.Lbls, unq(p.next()))
		}
	case "ret":
		t := p.typ()
		if t.Kind != "void" {
			in.Args = append(in.Args, p.operand(t))
		}
	case "unreachable":
	case "phi":
		in.T = p.typ()
		for {
			p.want("[")
			in.Args = append(in.Args, p.operand(in.T))
			p.want(",")
			in.Lbls = append(in.Lbls, unq(p.next()))
			p.want("]")
			if !p.is(",") || p.peek() != "[" {
				break
			}
		}
	case "select":
		for k := 0; k < 3; k++ {
			t := p.typ()
			in.Args = append(in.Args, p.operand(t))
			in.T = t
			p.is(",")
		}
	case "call":
		add(p.attrs())
		in.T = p.typ()
		add(p.attrs())
		if p.is("asm") {
			add(p.attrs())
			s := p.next()
			in.Asm = unesc(s[1 : len(s)-1])
			p.want(",")
			s = p.next()
			in.Cons = s[1 : len(s)-1]
			in.Op = "asm"
			in.Args = append(in.Args, nil)
		} else {
			in.Args = append(in.Args, p.operand(&Type{Kind: "ptr"}))
		}
		p.want("(")
		for !p.is(")") {
			t := p.typ()
			p.attrs()
			if t.Kind == "other" {
				in.Flags["strange"] = true
				for p.peek() != "," && p.peek() != ")" && p.peek() != "" {
					if p.is("(") {
						for !p.is(")") && p.peek() != "" {
							p.next()
						}
						continue
					}
					p.next()
				}
			} else {
				in.Args = append(in.Args, p.operand(t))
			}
			if !p.is(",") && p.peek() != ")" {
				p.bad("argument")
			}
		}
	default:
		in.Flags["unknown"] = true
	}
	return in
}

// heads finds the blocks loops go back to.
func (f *Fn) heads() {
	state := map[string]int{}
	var walk func(b *Block)
	walk = func(b *Block) {
		state[b.Name] = 1
		if len(b.Ins) > 0 {
			in := b.Ins[len(b.Ins)-1]
			if in.Op == "br" || in.Op == "switch" {
				for _, l := range in.Lbls {
					n := f.ByName[l]
					if n == nil {
						continue
					}
					switch state[l] {
					case 0:
						walk(n)
					case 1:
						n.Head = true
					}
				}
			}
		}
		state[b.Name] = 2
	}
	if len(f.Blocks) > 0 {
		walk(f.Blocks[0])
	}
}

func readFile(n string) string {
	b, err := os.ReadFile(n)
	if err != nil {
		return ""
	}
	return string(b)
}
