package main

// Abstract values of the analysis: constants, hash-consed symbolic terms,
// references to abstract heap objects, and aggregates of these.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{ Key() string }

// ---------- byte sets ----------

type ByteSet [4]uint64

func (b ByteSet) Has(c int) bool { return c >= 0 && c < 256 && b[c>>6]>>(uint(c)&63)&1 == 1 }
func (b *ByteSet) Add(c int)     { b[c>>6] |= 1 << (uint(c) & 63) }
func (b ByteSet) And(o ByteSet) (r ByteSet) {
	for i := range b {
		r[i] = b[i] & o[i]
	}
	return
}
func (b ByteSet) Or(o ByteSet) (r ByteSet) {
	for i := range b {
		r[i] = b[i] | o[i]
	}
	return
}
func (b ByteSet) Minus(o ByteSet) (r ByteSet) {
	for i := range b {
		r[i] = b[i] &^ o[i]
	}
	return
}
func (b ByteSet) Empty() bool          { return b == ByteSet{} }
func (b ByteSet) Sub(o ByteSet) bool   { return b.Minus(o).Empty() }
func (b ByteSet) Meets(o ByteSet) bool { return !b.And(o).Empty() }
func (b ByteSet) Not() ByteSet         { return fullSet.Minus(b) }
func (b ByteSet) Count() (n int) {
	for c := 0; c < 256; c++ {
		if b.Has(c) {
			n++
		}
	}
	return
}
func (b ByteSet) Elems() (r []int) {
	for c := 0; c < 256; c++ {
		if b.Has(c) {
			r = append(r, c)
		}
	}
	return
}
func (b ByteSet) String() string {
	e := b.Elems()
	if len(e) == 256 {
		return "any"
	}
	if len(e) > 128 {
		return "^" + b.Not().String()
	}
	var sb strings.Builder
	sb.WriteByte('[')
	for i := 0; i < len(e); {
		j := i
		for j+1 < len(e) && e[j+1] == e[j]+1 {
			j++
		}
		q := func(c int) string {
			if c > 32 && c < 127 {
				return string(rune(c))
			}
			return fmt.Sprintf("\\x%02x", c)
		}
		if j > i+1 {
			sb.WriteString(q(e[i]) + "-" + q(e[j]))
		} else {
			for k := i; k <= j; k++ {
				sb.WriteString(q(e[k]))
			}
		}
		i = j + 1
	}
	sb.WriteByte(']')
	return sb.String()
}
func setOf(s string) (b ByteSet) {
	for i := 0; i < len(s); i++ {
		b.Add(int(s[i]))
	}
	return
}
func setIf(f func(c int) bool) (b ByteSet) {
	for c := 0; c < 256; c++ {
		if f(c) {
			b.Add(c)
		}
	}
	return
}

var fullSet = setIf(func(int) bool { return true })

// ---------- constants ----------

type Const struct {
	V constant.Value // nil: the nil value of a pointer, map, slice, func, interface
	T types.Type
}

func (c *Const) Key() string {
	if c.V == nil {
		return "nil"
	}
	if c.V.Kind() == constant.String {
		return strconv.Quote(constant.StringVal(c.V))
	}
	return c.V.ExactString()
}

func isNil(v Val) bool { c, ok := v.(*Const); return ok && c.V == nil }

var tInt = types.Typ[types.Int]
var tInt64 = types.Typ[types.Int64]
var tStr = types.Typ[types.String]
var tBool = types.Typ[types.Bool]
var tErr = types.Universe.Lookup("error").Type()

func mkInt(n int64, t types.Type) *Const { return &Const{constant.MakeInt64(n), t} }
func mkStr(s string) *Const              { return &Const{constant.MakeString(s), tStr} }
func mkBool(b bool) *Const               { return &Const{constant.MakeBool(b), tBool} }
func mkNil(t types.Type) *Const          { return &Const{nil, t} }

func constInt(v Val) (int64, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Int {
		n, ex := constant.Int64Val(c.V)
		if !ex {
			if u, ok := constant.Uint64Val(c.V); ok {
				return int64(u), true
			}
		}
		return n, ex
	}
	return 0, false
}
func constStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}
func constBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V != nil && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}

// ---------- terms ----------

type Term struct {
	ID   int
	Op   string // "sym" for atoms
	Name string // atoms only
	Args []Val
	T    types.Type
	key  string
}

func (t *Term) Key() string { return t.key }

var (
	termTab  = map[string]*Term{}
	termSeq  int
	termByID = map[int]*Term{}
)

func mk(op string, t types.Type, args ...Val) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		if x, ok := a.(*Term); ok {
			sb.WriteString("t" + strconv.Itoa(x.ID))
		} else {
			sb.WriteString(a.Key())
		}
	}
	sb.WriteByte(')')
	k := sb.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termSeq++
	x := &Term{ID: termSeq, Op: op, Args: append([]Val(nil), args...), T: t}
	x.key = "t" + strconv.Itoa(x.ID)
	termTab[k] = x
	termByID[x.ID] = x
	return x
}

func fresh(name string, t types.Type) *Term {
	termSeq++
	x := &Term{ID: termSeq, Op: "sym", Name: name, T: t}
	x.key = "t" + strconv.Itoa(x.ID)
	termByID[x.ID] = x
	return x
}

func isSym(v Val) bool { t, ok := v.(*Term); return ok && t.Op == "sym" }

// syms collects the atoms of a value.
func syms(v Val, out map[int]*Term) {
	switch x := v.(type) {
	case *Term:
		if x.Op == "sym" {
			out[x.ID] = x
			return
		}
		for _, a := range x.Args {
			syms(a, out)
		}
	case *Iface:
		syms(x.V, out)
	}
}

// ---------- references and aggregates ----------

type Ptr struct {
	Obj  int
	Path string
}

func (p *Ptr) Key() string { return "p" + strconv.Itoa(p.Obj) + p.Path }

type MapRef struct{ Obj int }

func (p *MapRef) Key() string { return "m" + strconv.Itoa(p.Obj) }

type SliceVal struct {
	Obj    int
	Lo, Hi int
	T      types.Type
}

func (s *SliceVal) Key() string { return fmt.Sprintf("s%d[%d:%d]", s.Obj, s.Lo, s.Hi) }

type Splat struct{ S Val }

func (s *Splat) Key() string { return s.S.Key() + "..." }

type Iface struct {
	T types.Type // dynamic type
	V Val
}

func (i *Iface) Key() string { return "i(" + types.TypeString(i.T, shortQual) + ":" + i.V.Key() + ")" }

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
}

func (c *Closure) Key() string { return "f:" + c.Fn.String() + keys(c.Binds) }

type Tuple struct{ E []Val }

func (t *Tuple) Key() string { return "(" + keys(t.E) + ")" }

type StructVal struct {
	T    types.Type
	F    []Val // nil: not yet known
	Name string
}

func (s *StructVal) Key() string { return "{" + keys(s.F) + "}" }

type ListVal struct {
	Items []Val
	Elem  types.Type
}

func (s *ListVal) Key() string { return "[" + keys(s.Items) + "]" }

type MapEnt struct {
	K       Val
	Present bool
	V       Val
}
type MapVal struct {
	Ents   []MapEnt
	Opaque bool
	Name   string
	T      *types.Map
}

func (m *MapVal) Key() string {
	var s []string
	for _, e := range m.Ents {
		x := e.K.Key() + "="
		if e.Present {
			x += e.V.Key()
		} else {
			x += "-"
		}
		s = append(s, x)
	}
	sort.Strings(s)
	return fmt.Sprintf("map[%v %s %s]", m.Opaque, m.Name, strings.Join(s, ","))
}

// IterVal is the state of a range statement over a map or a string.
type IterVal struct{ Obj int }

func (i *IterVal) Key() string { return "it" + strconv.Itoa(i.Obj) }

type IterState struct {
	Phase int // -1: unknown elements; k>=0: next known element
	M     Val
	Known []MapEnt
	Open  bool // unknown elements possible
}

func (i *IterState) Key() string { return fmt.Sprintf("iter%d", i.Phase) }

func keys(vs []Val) string {
	var s []string
	for _, v := range vs {
		if v == nil {
			s = append(s, "?")
		} else {
			s = append(s, v.Key())
		}
	}
	return strings.Join(s, ",")
}

func shortQual(p *types.Package) string { return p.Name() }

func same(a, b Val) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Key() == b.Key()
}

func strip(v Val) Val {
	for {
		i, ok := v.(*Iface)
		if !ok {
			return v
		}
		v = i.V
	}
}

// ---------- linear normal form of integer terms ----------

type poly struct {
	m map[string]int64 // monomial key -> coefficient ("" is the constant)
	v map[string][]Val // monomial key -> factors
}

func toPoly(v Val) poly {
	p := poly{map[string]int64{}, map[string][]Val{}}
	if n, ok := constInt(v); ok {
		p.m[""] = n
		return p
	}
	if t, ok := v.(*Term); ok {
		switch t.Op {
		case "+", "-":
			a, b := toPoly(t.Args[0]), toPoly(t.Args[1])
			s := int64(1)
			if t.Op == "-" {
				s = -1
			}
			for k, c := range b.m {
				a.m[k] += s * c
				a.v[k] = b.v[k]
			}
			return a.clean()
		case "neg":
			a := toPoly(t.Args[0])
			for k := range a.m {
				a.m[k] = -a.m[k]
			}
			return a.clean()
		case "*":
			a, b := toPoly(t.Args[0]), toPoly(t.Args[1])
			for ka, ca := range a.m {
				for kb, cb := range b.m {
					f := append(append([]Val(nil), a.v[ka]...), b.v[kb]...)
					sort.Slice(f, func(i, j int) bool { return f[i].Key() < f[j].Key() })
					k := keys(f)
					p.m[k] += ca * cb
					p.v[k] = f
				}
			}
			return p.clean()
		case "<<":
			if n, ok := constInt(t.Args[1]); ok && n >= 0 && n < 63 {
				a := toPoly(t.Args[0])
				for k := range a.m {
					a.m[k] <<= uint(n)
				}
				return a.clean()
			}
		}
	}
	p.m[v.Key()] = 1
	p.v[v.Key()] = []Val{v}
	return p
}

func (p poly) clean() poly {
	for k, c := range p.m {
		if c == 0 {
			delete(p.m, k)
		}
	}
	return p
}

func (p poly) key() string {
	var s []string
	for k, c := range p.m {
		s = append(s, fmt.Sprintf("%d*%s", c, k))
	}
	sort.Strings(s)
	return strings.Join(s, "+")
}

func polyEq(a, b Val) bool {
	if same(a, b) {
		return true
	}
	return toPoly(a).key() == toPoly(b).key()
}

// ---------- rendering ----------

func (e *Eng) show(v Val, st *State) string { return e.showD(v, st, 6) }

func (e *Eng) showD(v Val, st *State, d int) string {
	if v == nil {
		return "?"
	}
	if d < 0 {
		return "…"
	}
	switch x := v.(type) {
	case *Const:
		return x.Key()
	case *Term:
		if x.Op == "sym" {
			s := x.Name + "#" + strconv.Itoa(x.ID)
			if st != nil {
				if b, ok := st.chars[x.ID]; ok {
					s += ":" + b.String()
				}
			}
			return s
		}
		var a []string
		for _, y := range x.Args {
			a = append(a, e.showD(y, st, d-1))
		}
		return x.Op + "(" + strings.Join(a, ", ") + ")"
	case *Iface:
		return e.showD(x.V, st, d)
	case *Ptr:
		if st != nil {
			if o := st.heap[x.Obj]; o != nil {
				if o.Ctor != nil && x.Path == "" {
					return e.showD(o.Ctor, st, d-1) + "@" + strconv.Itoa(x.Obj)
				}
				return "&" + o.Name + "@" + strconv.Itoa(x.Obj) + x.Path
			}
		}
		return x.Key()
	case *SliceVal:
		if st != nil {
			if l := st.items(x); l != nil {
				var a []string
				for _, y := range l {
					a = append(a, e.showD(y, st, d-1))
				}
				return "[" + strings.Join(a, ", ") + "]"
			}
		}
		return x.Key()
	case *Splat:
		return e.showD(x.S, st, d) + "..."
	case *Tuple:
		var a []string
		for _, y := range x.E {
			a = append(a, e.showD(y, st, d-1))
		}
		return "(" + strings.Join(a, ", ") + ")"
	case *StructVal:
		var a []string
		for _, y := range x.F {
			a = append(a, e.showD(y, st, d-1))
		}
		return "{" + strings.Join(a, ", ") + "}"
	}
	return v.Key()
}

var _ = token.ADD
