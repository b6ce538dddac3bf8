package main

// Terms and states of the analysis of the command (main, the options and the driver).

import (
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// dv is a value: a constant, a symbol or a term over them. Terms are compared by key.
type dv struct {
	op  string
	s   string
	n   int64
	a   []*dv
	ref interface{}
	key string
	max int64 // latest symbol in it
}

func mkd(op, s string, n int64, a ...*dv) *dv {
	var b strings.Builder
	b.WriteString(op)
	if s != "" || op == "str" {
		b.WriteString(strconv.Quote(s))
	}
	if n != 0 || op == "int" || op == "sym" {
		fmt.Fprintf(&b, "#%d", n)
	}
	v := &dv{op: op, s: s, n: n, a: a}
	if len(a) > 0 {
		b.WriteByte('(')
		for i, x := range a {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.key)
			if x.max > v.max {
				v.max = x.max
			}
		}
		b.WriteByte(')')
	}
	if op == "sym" && n > v.max {
		v.max = n
	}
	v.key = b.String()
	return v
}

var (
	dNil   = mkd("nil", "", 0)
	dTrue  = mkd("bool", "", 1)
	dFalse = mkd("bool", "", 0)
)

func dInt(n int64) *dv                     { return mkd("int", "", n) }
func dStr(s string) *dv                    { return mkd("str", s, 0) }
func dVar(s string) *dv                    { return mkd("var", s, 0) }
func dApp(f string, a ...*dv) *dv          { return mkd("app", f, 0, a...) }
func dSym(s string, n int64, a ...*dv) *dv { return mkd("sym", s, n, a...) }
func dBool(b bool) *dv {
	if b {
		return dTrue
	}
	return dFalse
}

// dptr points to a part of a cell.
type dptr struct {
	obj  int64
	path []int
}

func dPtr(obj int64, path ...int) *dv {
	v := mkd("ptr", fmt.Sprint(obj, path), 0)
	v.ref = &dptr{obj, path}
	v.max = 0
	return v
}

func (v *dv) isConst() bool {
	switch v.op {
	case "int", "str", "bool", "nil":
		return true
	}
	return false
}

func dNot(x *dv) *dv {
	if x.op == "not" {
		return x.a[0]
	}
	if x.op == "bool" {
		return dBool(x.n == 0)
	}
	return mkd("not", "", 0, x)
}

func dAdd(x *dv, n int64) *dv {
	switch {
	case x.op == "int":
		return dInt(x.n + n)
	case x.op == "add":
		return dAdd(x.a[0], x.n+n)
	case n == 0:
		return x
	}
	return mkd("add", "", n, x)
}

func linOf(x *dv) (*dv, int64) {
	if x.op == "add" {
		return x.a[0], x.n
	}
	if x.op == "int" {
		return nil, x.n
	}
	return x, 0
}

// nonNil values are never nil.
func (v *dv) nonNil() bool {
	switch v.op {
	case "ptr", "clo", "map", "fptr":
		return true
	case "app":
		return strings.HasPrefix(v.s, "error:")
	case "sym":
		return !strings.HasSuffix(v.s, ".err")
	}
	return false
}

func dEq(a, b *dv) *dv {
	if a.key == b.key {
		return dTrue
	}
	if a.isConst() && !b.isConst() {
		a, b = b, a
	}
	if a.isConst() && b.isConst() {
		return dFalse
	}
	if b.op == "nil" {
		if a.nonNil() {
			return dFalse
		}
		if a.op == "list" {
			for _, p := range a.a {
				if p.op == "el" {
					return dFalse
				}
			}
			if len(a.a) == 0 {
				return dTrue
			}
		}
		return mkd("eq", "", 0, a, b)
	}
	if b.op == "bool" {
		if b.n == 1 {
			return a
		}
		return dNot(a)
	}
	if b.op == "int" {
		if x, c := linOf(a); c != 0 {
			return dEq(x, dInt(b.n-c))
		}
		if a.op == "slen" && b.n == 0 {
			return dEq(a.a[0], dStr(""))
		}
		if b.n < 0 && (a.op == "len" || a.op == "slen") {
			return dFalse
		}
	} else if a.op == "add" || b.op == "add" {
		x, c := linOf(a)
		y, d := linOf(b)
		if x != nil && y != nil {
			if x.key == y.key {
				return dBool(c == d)
			}
			a, b = x, dAdd(y, d-c)
		}
	}
	if b.op == "str" && a.op == "cat" {
		// the constant parts at the ends decide some comparisons
		l := a.a[len(a.a)-1]
		if l.op == "str" && !strings.HasSuffix(b.s, l.s) {
			return dFalse
		}
		if f := a.a[0]; f.op == "str" && !strings.HasPrefix(b.s, f.s) {
			return dFalse
		}
	}
	if !b.isConst() && b.key < a.key {
		a, b = b, a
	}
	return mkd("eq", "", 0, a, b)
}

// dLt is a < b on integers.
func dLt(a, b *dv) *dv {
	x, c := linOf(a)
	y, d := linOf(b)
	switch {
	case x == nil && y == nil:
		return dBool(c < d)
	case x != nil && y != nil && x.key == y.key:
		return dBool(c < d)
	case x == nil:
		// c < y+d
		if c-d < 0 && (y.op == "len" || y.op == "slen") {
			return dTrue
		}
		if y.op == "slen" && c-d == 0 {
			return dNot(dEq(y.a[0], dStr("")))
		}
		return dNot(mkd("lt", "", 0, y, dInt(c-d+1)))
	case y == nil:
		if x.op == "len" || x.op == "slen" {
			if d-c <= 0 {
				return dFalse
			}
			if x.op == "slen" && d-c == 1 {
				return dEq(x.a[0], dStr(""))
			}
		}
		return mkd("lt", "", 0, x, dInt(d-c))
	}
	return mkd("lt", "", 0, x, dAdd(y, d-c))
}

func dCat(a ...*dv) *dv {
	var r []*dv
	var add func(x *dv)
	add = func(x *dv) {
		if x.op == "cat" {
			for _, y := range x.a {
				add(y)
			}
			return
		}
		if x.op == "str" {
			if x.s == "" {
				return
			}
			if len(r) > 0 && r[len(r)-1].op == "str" {
				r[len(r)-1] = dStr(r[len(r)-1].s + x.s)
				return
			}
		}
		r = append(r, x)
	}
	for _, x := range a {
		add(x)
	}
	switch len(r) {
	case 0:
		return dStr("")
	case 1:
		return r[0]
	}
	return mkd("cat", "", 0, r...)
}

func dItoa(x *dv) *dv {
	if x.op == "int" {
		return dStr(strconv.FormatInt(x.n, 10))
	}
	return mkd("itoa", "", 0, x)
}

// Lists: el(x) is one element, spread(V) the elements of a list from outside, fm what a
// loop appended, opt elements that are there when its literals hold.

func dList(parts ...*dv) *dv { return mkd("list", "", 0, parts...) }
func dEl(x *dv) *dv          { return mkd("el", "", 0, x) }

func listParts(v *dv) []*dv {
	switch v.op {
	case "list":
		return v.a
	case "nil":
		return nil
	}
	return []*dv{mkd("spread", "", 0, v)}
}

func normList(parts []*dv) *dv {
	if len(parts) == 1 && parts[0].op == "spread" {
		return parts[0].a[0]
	}
	return dList(parts...)
}

func listCat(a, b *dv) *dv {
	return normList(append(append([]*dv{}, listParts(a)...), listParts(b)...))
}

func dLen(v *dv) *dv {
	switch v.op {
	case "nil":
		return dInt(0)
	case "str":
		return dInt(int64(len(v.s)))
	case "list":
		n := int64(0)
		var rest []*dv
		for _, p := range v.a {
			if p.op == "el" {
				n++
			} else {
				rest = append(rest, p)
			}
		}
		if len(rest) == 0 {
			return dInt(n)
		}
		if len(rest) == 1 && rest[0].op == "spread" {
			return dAdd(mkd("len", "", 0, rest[0].a[0]), n)
		}
		return mkd("len", "", 0, v)
	}
	return mkd("len", "", 0, v)
}

func dElem(l, i *dv) *dv {
	if l.op == "list" && i.op == "int" {
		k := i.n
		for _, p := range l.a {
			if p.op != "el" {
				if p.op == "spread" {
					return dElem(p.a[0], dInt(k))
				}
				break
			}
			if k == 0 {
				return p.a[0]
			}
			k--
		}
	}
	if x, n := linOf(i); l.op == "list" && x != nil && x.op == "sym" && x.s == "k" {
		for j, p := range l.a {
			if p.op == "spread" && n >= int64(j) {
				return dElem(p.a[0], dAdd(x, n-int64(j)))
			}
			if p.op != "el" {
				break
			}
		}
	}
	if l.op == "app" && l.s == "slice" && l.a[1].op == "int" {
		return dElem(l.a[0], dAdd(i, l.a[1].n))
	}
	return mkd("elem", "", 0, l, i)
}

// file names

func dBase(x *dv) *dv {
	if x.op == "str" {
		return dStr(filepath.Base(x.s))
	}
	if x.op == "app" && (x.s == "base" || x.s == "stem" && x.a[0].op == "app" && x.a[0].s == "base") {
		return x
	}
	return dApp("base", x)
}

// dExt: the suffix of the last element is that of the path for every path that has one.
func dExt(x *dv) *dv {
	if x.op == "str" {
		return dStr(filepath.Ext(x.s))
	}
	if x.op == "cat" {
		if l := x.a[len(x.a)-1]; l.op == "str" && strings.ContainsAny(l.s, "./") {
			return dStr(filepath.Ext(l.s))
		}
	}
	if x.op == "app" && x.s == "base" {
		return dExt(x.a[0])
	}
	return dApp("ext", x)
}

func dStem(x *dv) *dv {
	if x.op == "str" {
		return dStr(strings.TrimSuffix(x.s, filepath.Ext(x.s)))
	}
	return dApp("stem", x)
}

func isExtConst(c string) bool {
	return len(c) > 1 && c[0] == '.' && !strings.ContainsAny(c[1:], "./")
}

func dHasSuffix(x, s *dv) *dv {
	if s.op == "str" && x.op == "str" {
		return dBool(strings.HasSuffix(x.s, s.s))
	}
	if s.op == "str" && x.op == "cat" {
		if l := x.a[len(x.a)-1]; l.op == "str" && len(l.s) >= len(s.s) {
			return dBool(strings.HasSuffix(l.s, s.s))
		}
	}
	if s.op == "str" && isExtConst(s.s) {
		return dEq(dExt(x), s)
	}
	return dApp("hasSuffix", x, s)
}

// dlit is an atom with its truth value.
type dlit struct {
	atom *dv
	val  bool
}

func litOf(c *dv, val bool) dlit {
	for c.op == "not" {
		c, val = c.a[0], !val
	}
	return dlit{c, val}
}

func (l dlit) String() string {
	if l.val {
		return showD(l.atom)
	}
	return "not " + showD(l.atom)
}

// dloop is what a loop does, by cases of one step.
type dloop struct {
	id    int64
	n     *dv // number of steps
	k     *dv // symbol of the step
	cases []*dcase
	pos   string
}

type dcase struct {
	lits []dlit
	evs  []*dev
	app  map[int64][]*dv // what it appends to the lists, by carrier
}

// dev is an effect on the world.
type dev struct {
	kind  string
	args  []*dv
	id    int64
	err   *dv // its error result
	pos   string
	loop  *dloop
	whole bool
}

// duniv says that a loop went through: for every step one of the cases holds.
type duniv struct {
	l *dloop
}

type drng struct {
	lo, hi int64
	ne     map[int64]bool
}

// dst is a state.
type dst struct {
	mem   map[int64]*dv
	facts map[string]bool
	ord   []dlit
	eqc   map[string]*dv
	rng   map[string]drng
	evs   []*dev
	univ  []duniv
	regs  []*dreg
}

// dreg is a registered flag.
type dreg struct {
	name, short, kind string
	def               *dv
	cell              *dv
	pos               string
}

func newDst() *dst {
	return &dst{mem: map[int64]*dv{}, facts: map[string]bool{}, eqc: map[string]*dv{}, rng: map[string]drng{}}
}

func (s *dst) clone() *dst {
	t := &dst{mem: make(map[int64]*dv, len(s.mem)), facts: make(map[string]bool, len(s.facts)), eqc: make(map[string]*dv, len(s.eqc)), rng: make(map[string]drng, len(s.rng))}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	for k, v := range s.facts {
		t.facts[k] = v
	}
	for k, v := range s.eqc {
		t.eqc[k] = v
	}
	for k, v := range s.rng {
		ne := map[int64]bool{}
		for x := range v.ne {
			ne[x] = true
		}
		t.rng[k] = drng{v.lo, v.hi, ne}
	}
	t.ord = append([]dlit{}, s.ord...)
	t.evs = append([]*dev{}, s.evs...)
	t.univ = append([]duniv{}, s.univ...)
	t.regs = append([]*dreg{}, s.regs...)
	return t
}

const dBig = int64(1) << 60

func (s *dst) rangeOf(x *dv) drng {
	if r, ok := s.rng[x.key]; ok {
		return r
	}
	r := drng{-dBig, dBig, map[int64]bool{}}
	if x.op == "len" || x.op == "slen" || x.op == "sym" && x.s == "k" {
		r.lo = 0
	}
	if x.op == "app" && x.s == "byte" {
		r.lo, r.hi = 0, 255
	}
	return r
}

// basic decides an atom from the facts alone.
func (s *dst) basic(c *dv) (bool, bool) {
	switch c.op {
	case "bool":
		return c.n != 0, true
	case "not":
		b, k := s.basic(c.a[0])
		return !b, k
	}
	if b, ok := s.facts[c.key]; ok {
		return b, true
	}
	switch c.op {
	case "eq":
		a, b := c.a[0], c.a[1]
		x, y := s.eqc[a.key], s.eqc[b.key]
		if x == nil && a.isConst() {
			x = a
		}
		if y == nil && b.isConst() {
			y = b
		}
		if x != nil && y != nil {
			return x.key == y.key, true
		}
		if b.op == "int" {
			r := s.rangeOf(a)
			if b.n < r.lo || b.n > r.hi || r.ne[b.n] {
				return false, true
			}
			if r.lo == r.hi {
				return r.lo == b.n, true
			}
		}
		if b.op == "str" && a.op == "var" {
			// character by character
			n := s.rangeOf(mkd("slen", "", 0, a))
			if l := int64(len(b.s)); l < n.lo || l > n.hi || n.ne[l] {
				return false, true
			} else if n.lo == n.hi && l > 0 {
				same := true
				for i := int64(0); i < l; i++ {
					c := s.rangeOf(dApp("byte", a, dInt(i)))
					if x := int64(b.s[i]); x < c.lo || x > c.hi || c.ne[x] {
						return false, true
					}
					same = same && c.lo == c.hi
				}
				if same {
					return true, true
				}
			}
		}
	case "lt":
		a, b := c.a[0], c.a[1]
		if b.op == "int" {
			r := s.rangeOf(a)
			if r.hi < b.n {
				return true, true
			}
			if r.lo >= b.n {
				return false, true
			}
		}
	}
	return false, false
}

// decide uses what loops that went through have shown about the elements, too.
// It fails when the facts contradict each other.
func (s *dst) decide(c *dv) (val, known, dead bool) {
	for c.op == "not" {
		v, k, d := s.decide(c.a[0])
		return !v, k, d
	}
	if v, k := s.basic(c); k {
		return v, true, false
	}
	for _, k := range elemsIn(c) {
		for _, u := range s.univ {
			cs := u.at(k.l, k.i)
			if cs == nil {
				continue
			}
			have, val, all := false, false, true
			live := 0
			for _, lits := range cs {
				t := s.cheap()
				ok := true
				for _, l := range lits {
					if v, kn := t.basic(l.atom); kn && v != l.val {
						ok = false
						break
					}
					t.note(l)
				}
				if !ok {
					continue
				}
				live++
				v, kn := t.basic(c)
				if !kn || have && v != val {
					all = false
				}
				have, val = true, v
			}
			if live == 0 {
				return false, false, true
			}
			if all && have {
				return val, true, false
			}
		}
	}
	return false, false, false
}

// cheap copies the facts only.
func (s *dst) cheap() *dst {
	t := &dst{facts: make(map[string]bool, len(s.facts)+4), eqc: make(map[string]*dv, len(s.eqc)+2), rng: make(map[string]drng, len(s.rng))}
	for k, v := range s.facts {
		t.facts[k] = v
	}
	for k, v := range s.eqc {
		t.eqc[k] = v
	}
	for k, v := range s.rng {
		t.rng[k] = v
	}
	return t
}

// note adds a literal to the facts.
func (s *dst) note(l dlit) {
	s.facts[l.atom.key] = l.val
	if l.atom.op == "eq" {
		a, b := l.atom.a[0], l.atom.a[1]
		if b.isConst() && l.val {
			s.eqc[a.key] = b
		}
		if b.op == "int" {
			r := s.rangeOf(a)
			ne := map[int64]bool{}
			for x := range r.ne {
				ne[x] = true
			}
			if l.val {
				r.lo, r.hi = b.n, b.n
			} else {
				ne[b.n] = true
				for ne[r.lo] {
					r.lo++
				}
				for ne[r.hi] {
					r.hi--
				}
			}
			r.ne = ne
			s.rng[a.key] = r
		}
	}
	if l.atom.op == "lt" && l.atom.a[1].op == "int" {
		a, n := l.atom.a[0], l.atom.a[1].n
		r := s.rangeOf(a)
		if l.val {
			r.hi = n - 1
		} else {
			r.lo = n
		}
		for r.ne[r.lo] {
			r.lo++
		}
		for r.ne[r.hi] {
			r.hi--
		}
		s.rng[a.key] = r
		if r.lo == r.hi {
			s.eqc[a.key] = dInt(r.lo)
		}
	}
}

// assume adds a literal; false when it contradicts the facts.
func (s *dst) assume(c *dv, val bool) bool {
	l := litOf(c, val)
	v, known, dead := s.decide(l.atom)
	if dead || known && v != l.val {
		return false
	}
	if known {
		if _, k := s.basic(l.atom); k {
			return true
		}
	}
	s.ord = append(s.ord, l)
	s.note(l)
	if _, _, dead := s.decide(mkd("dead?", "", 0, l.atom)); dead {
		return false
	}
	return true
}

type dElemRef struct{ l, i *dv }

func elemsIn(c *dv) []dElemRef {
	var r []dElemRef
	seen := map[string]bool{}
	var walk func(x *dv)
	walk = func(x *dv) {
		if x.op == "elem" && !seen[x.key] {
			seen[x.key] = true
			r = append(r, dElemRef{x.a[0], x.a[1]})
		}
		for _, y := range x.a {
			walk(y)
		}
	}
	walk(c)
	return r
}

// at gives the cases of a loop over a list for one of its elements, nil when the loop is
// not over this list.
func (u duniv) at(l, i *dv) [][]dlit {
	if u.l.n.key != dLen(l).key {
		return nil
	}
	var r [][]dlit
	for _, c := range u.l.cases {
		lits := []dlit{}
		for _, x := range c.lits {
			lits = append(lits, dlit{dsubst(x.atom, u.l.k.key, i), x.val})
		}
		r = append(r, lits)
	}
	return r
}

// dsubst replaces a symbol.
func dsubst(v *dv, key string, by *dv) *dv {
	return dmap(v, func(x *dv) *dv {
		if x.key == key {
			return by
		}
		return nil
	})
}

// dmap rebuilds a term with f applied from the outside in; f gives nil for no change.
func dmap(v *dv, f func(*dv) *dv) *dv {
	if r := f(v); r != nil {
		return r
	}
	if v.op == "opt" {
		o := v.ref.([]dlit)
		var n []dlit
		for _, l := range o {
			m := litOf(dmap(l.atom, f), l.val)
			n = append(n, m)
		}
		var a []*dv
		for _, x := range v.a {
			a = append(a, dmap(x, f))
		}
		return dOpt(n, a)
	}
	if len(v.a) == 0 {
		return v
	}
	ch := false
	a := make([]*dv, len(v.a))
	for i, x := range v.a {
		a[i] = dmap(x, f)
		if a[i] != x {
			ch = true
		}
	}
	if !ch {
		return v
	}
	return rebuild(v, a)
}

func rebuild(v *dv, a []*dv) *dv {
	switch v.op {
	case "not":
		return dNot(a[0])
	case "add":
		return dAdd(a[0], v.n)
	case "eq":
		return dEq(a[0], a[1])
	case "lt":
		return dLt(a[0], a[1])
	case "cat":
		return dCat(a...)
	case "itoa":
		return dItoa(a[0])
	case "elem":
		return dElem(a[0], a[1])
	case "len":
		return dLen(a[0])
	case "list":
		// a list from outside put in place of a part is spread
		var p []*dv
		for _, x := range a {
			switch x.op {
			case "el", "fm", "opt", "spread":
				p = append(p, x)
			case "parts":
				p = append(p, x.a...)
			default:
				p = append(p, x)
			}
		}
		return normList(p)
	case "spread":
		return mkd("spread", "", 0, a[0])
	case "app":
		switch v.s {
		case "base":
			return dBase(a[0])
		case "ext":
			return dExt(a[0])
		case "stem":
			return dStem(a[0])
		case "hasSuffix":
			return dHasSuffix(a[0], a[1])
		}
	}
	n := mkd(v.op, v.s, v.n, a...)
	n.ref = v.ref
	return n
}

func dOpt(lits []dlit, elems []*dv) *dv {
	var ks []string
	max := int64(0)
	for _, l := range lits {
		ks = append(ks, fmt.Sprint(l.atom.key, "=", l.val))
		if l.atom.max > max {
			max = l.atom.max
		}
	}
	sort.Strings(ks)
	v := mkd("opt", strings.Join(ks, "&"), 0, elems...)
	v.ref = lits
	if max > v.max {
		v.max = max
	}
	return v
}

// showD writes a term for a report.
func showD(v *dv) string {
	var l []string
	for _, x := range v.a {
		l = append(l, showD(x))
	}
	j := strings.Join(l, ", ")
	switch v.op {
	case "int":
		return fmt.Sprint(v.n)
	case "str":
		return strconv.Quote(v.s)
	case "bool":
		return fmt.Sprint(v.n != 0)
	case "nil":
		return "nil"
	case "var":
		return v.s
	case "sym":
		if len(l) > 0 {
			return fmt.Sprintf("%s%d(%s)", v.s, v.n, j)
		}
		return fmt.Sprintf("%s%d", v.s, v.n)
	case "not":
		return "not " + j
	case "eq":
		return l[0] + "==" + l[1]
	case "lt":
		return l[0] + "<" + l[1]
	case "add":
		return fmt.Sprintf("%s%+d", j, v.n)
	case "cat":
		return strings.Join(l, "+")
	case "list":
		return "[" + j + "]"
	case "el":
		return j
	case "spread":
		return j + "..."
	case "elem":
		return l[0] + "[" + l[1] + "]"
	case "fm":
		lp := v.ref.(*dloop)
		var cs []string
		for _, c := range lp.cases {
			var e []string
			for _, x := range c.app[v.n] {
				e = append(e, showD(x))
			}
			if len(e) > 0 {
				cs = append(cs, strings.Join(e, ","))
			}
		}
		w := ""
		if v.s == "prefix" {
			w = "the first of "
		}
		return fmt.Sprintf("%s{%s | %s<%s}", w, strings.Join(cs, " or "), showD(lp.k), showD(lp.n))
	case "opt":
		return "maybe(" + j + ")"
	case "app":
		return v.s + "(" + j + ")"
	}
	if len(l) > 0 {
		return v.op + "(" + j + ")"
	}
	return v.op + v.s
}
