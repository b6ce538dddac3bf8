package rt

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// The byte streams the functions must write.

// amb is a question that must be answered before an expectation is known.
type amb struct {
	d  *Lin
	op string
}

// number gives the digits of an exact non-negative number.
func (s *State) digits(v *Lin, base int64) ([]*Lin, *amb) {
	v = s.again(v)
	r := s.rng(v)
	n := 1
	p := bi(base)
	for p.Cmp(r.lo) <= 0 {
		n++
		p = new(big.Int).Mul(p, bi(base))
	}
	if r.hi.Cmp(p) >= 0 {
		return nil, &amb{sub(v, numB(p)), "<"}
	}
	var out []*Lin
	for i := n - 1; i >= 0; i-- {
		q := new(big.Int).Exp(bi(base), bi(int64(i)), nil)
		out = append(out, plus(s.fmod(s.fdiv(v, q), bi(base)), '0'))
	}
	return out, nil
}

func (s *State) decimal(l *Lin) ([]*Lin, *amb) {
	v := s.sval(l, 64)
	r := s.rng(v)
	if r.lo.Sign() < 0 && r.hi.Sign() >= 0 {
		return nil, &amb{v, "<"}
	}
	if r.lo.Sign() >= 0 {
		return s.digits(v, 10)
	}
	d, a := s.digits(scale(v, bi(-1)), 10)
	if a != nil {
		return nil, a
	}
	return append([]*Lin{num('-')}, d...), nil
}

// octal of printf: a minus sign and the magnitude for negative words.
func (s *State) octal(l *Lin) ([]*Lin, *amb) {
	v := s.sval(l, 64)
	r := s.rng(v)
	if r.lo.Sign() < 0 && r.hi.Sign() >= 0 {
		return nil, &amb{v, "<"}
	}
	if r.lo.Sign() >= 0 {
		return s.digits(v, 8)
	}
	d, a := s.digits(scale(v, bi(-1)), 8)
	if a != nil {
		return nil, a
	}
	return append([]*Lin{num('-')}, d...), nil
}

// chars gives the characters of a word.
func (s *State) chars(l *Lin) ([]*Lin, *amb) {
	v := s.uval(l, 64)
	at := func(k int) *Lin { return s.fmod(s.fdiv(v, pow2(8*k)), bi(256)) }
	n := 7
	for ; n > 0; n-- {
		r := s.rng(at(n))
		if r.hi.Sign() == 0 {
			continue
		}
		if r.lo.Sign() == 0 {
			return nil, &amb{at(n), "=="}
		}
		break
	}
	var out []*Lin
	for ; n >= 0; n-- {
		out = append(out, at(n))
	}
	return out, nil
}

// written flattens what was written since event number from.
func (s *State) written() (out []Val, at []*Event, err string) {
	for _, ev := range s.ev {
		switch {
		case ev.kind == "sys" && ev.nr == s.e.sysnr["write"] && ev.local:
			for _, b := range ev.bytes {
				out = append(out, b)
				at = append(at, ev)
			}
		case ev.kind == "sys":
			return out, at, fmt.Sprintf("%s: a system call that does not belong here (number %d)", place(ev.ins, ev.fn), ev.nr)
		case ev.kind == "store":
			return out, at, fmt.Sprintf("%s: memory outside of the library is changed", place(ev.ins, ev.fn))
		case ev.kind == "global":
			return out, at, fmt.Sprintf("%s: the variable %s is changed", place(ev.ins, ev.fn), ev.fn)
		default:
			return out, at, fmt.Sprintf("%s: %s is called", place(ev.ins, ev.fn), ev.fn)
		}
	}
	return
}

func (s *State) foutPlus1() *Lin {
	return plus(s.e.fout(), 1)
}

// sameBits compares the low bits of two expressions.
func (s *State) sameBits(a, b *Lin, w int) bool {
	d := s.wrap(sub(s.again(a), s.again(b)), w)
	if d.isNum() {
		return d.c.Sign() == 0
	}
	x := s.uval(d, w)
	return x.isNum() && x.c.Sign() == 0
}

func (s *State) byteIs(v Val, want *Lin) bool {
	if v.undef || v.obj != nil || v.fn != nil {
		return false
	}
	return s.sameBits(v.l, want, 8)
}

// fdOK says whether the events write to the selected output.
func (s *State) fds() string {
	for _, ev := range s.ev {
		if ev.kind == "sys" && ev.nr == s.e.sysnr["write"] {
			v := ev.args[0]
			if v.undef || v.obj != nil || v.fn != nil || !s.sameBits(v.l, s.foutPlus1(), 32) {
				return fmt.Sprintf("%s: output goes to file %s instead of 1 + fout", place(ev.ins, ev.fn), show(v))
			}
		}
	}
	return ""
}

func show(v Val) string {
	switch {
	case v.undef:
		return "(undefined)"
	case v.fn != nil:
		return "function " + v.fn.Name
	case v.obj != nil:
		if v.l.isNum() && v.l.c.Sign() == 0 {
			return v.obj.name
		}
		return v.obj.name + "+" + v.l.key()
	}
	return v.l.key()
}

// Spec is the state of the specification of printf.
type Spec struct {
	mode       string // F: in the format, S: in a string, D: done
	P, A, J, X *Lin
	used       int // bytes of the output explained
}

func (p *Spec) clone() *Spec { q := *p; return &q }

func (p *Spec) pos() string {
	k := p.mode + "|" + p.P.key() + "|" + p.A.key()
	if p.mode == "S" {
		k += "|" + p.J.key()
	}
	return k
}

func (p *Spec) parts() map[string]*Lin {
	m := map[string]*Lin{"P": p.P, "A": p.A}
	if p.mode == "S" {
		m["J"], m["X"] = p.J, p.X
	}
	return m
}

func (s *State) argAt(i *Lin) *Lin {
	i = plus(i, 1) // after the format
	if i.isNum() {
		return s.e.argument(i.c.Int64())
	}
	return s.e.word("arg["+i.key()+"]", 64)
}

func (s *State) charAt(base, off *Lin) *Lin {
	return s.again(s.e.byteAt(s.wrap(add(base, off), 64), s.ver))
}

func (s *State) fmtPtr() *Lin { return s.e.argument(0) }

// advance lets the specification go as far as the facts and the output allow.
func (s *State) advance() (err string, a *amb) {
	p := s.spec
	out, at, e := s.written()
	if e != "" {
		return e, nil
	}
	if e := s.fds(); e != "" {
		return e, nil
	}
	consume := func(want []*Lin, what string) (ok bool, err string) {
		pend := out[p.used:]
		for i, w := range want {
			if i >= len(pend) {
				return false, ""
			}
			if !s.byteIs(pend[i], w) {
				return false, fmt.Sprintf("%s: byte %d written for %s is %s instead of %s%s", place(at[p.used+i].ins, at[p.used+i].fn), i+1, what, show(pend[i]), w, s.example())
			}
		}
		p.used += len(want)
		return true, ""
	}
	is := func(c *Lin, ch int64) (yes, no bool) {
		r := s.rng(c)
		if r.lo.Cmp(bi(ch)) == 0 && r.hi.Cmp(bi(ch)) == 0 {
			return true, false
		}
		return false, r.lo.Cmp(bi(ch)) > 0 || r.hi.Cmp(bi(ch)) < 0
	}
	for {
		switch p.mode {
		case "D":
			if len(out) > p.used {
				return fmt.Sprintf("%s: a byte is written after the end of the format: %s", place(at[p.used].ins, at[p.used].fn), show(out[p.used])), nil
			}
			return "", nil
		case "F":
			c := s.charAt(s.fmtPtr(), p.P)
			if yes, no := is(c, 0); yes {
				p.mode = "D"
				continue
			} else if !no {
				return "", &amb{c, "=="}
			}
			yes, no := is(c, '%')
			if !yes && !no {
				return "", &amb{plus(c, -'%'), "=="}
			}
			if no {
				ok, e := consume([]*Lin{c}, "a character of the format")
				if !ok {
					return e, nil
				}
				p.P = plus(p.P, 1)
				continue
			}
			d := s.charAt(s.fmtPtr(), plus(p.P, 1))
			kind := int64(0)
			for _, k := range []int64{'%', 'c', 'd', 'o', 's'} {
				if yes, no := is(d, k); yes {
					kind = k
				} else if !no {
					return "", &amb{plus(d, -k), "=="}
				}
			}
			var want []*Lin
			var am *amb
			what := "%" + string(rune(kind))
			switch kind {
			case 0:
				ok, e := consume([]*Lin{num('%')}, "an unknown conversion")
				if !ok {
					return e, nil
				}
				p.P = plus(p.P, 1)
				continue
			case '%':
				want = []*Lin{num('%')}
			case 'c':
				want, am = s.chars(s.argAt(p.A))
			case 'd':
				want, am = s.decimal(s.argAt(p.A))
			case 'o':
				want, am = s.octal(s.argAt(p.A))
			case 's':
				p.X = s.argAt(p.A)
				p.J = num(0)
				p.P = plus(p.P, 2)
				p.A = plus(p.A, 1)
				p.mode = "S"
				continue
			}
			if am != nil {
				return "", am
			}
			ok, e := consume(want, what)
			if !ok {
				return e, nil
			}
			p.P = plus(p.P, 2)
			if kind != '%' {
				p.A = plus(p.A, 1)
			}
		case "S":
			c := s.charAt(p.X, p.J)
			if yes, no := is(c, 0); yes {
				p.mode = "F"
				p.X, p.J = num(0), num(0)
				continue
			} else if !no {
				return "", &amb{c, "=="}
			}
			ok, e := consume([]*Lin{c}, "a character of %s")
			if !ok {
				return e, nil
			}
			p.J = plus(p.J, 1)
		}
	}
}

// Gen is a set of states at the head of a loop, described relative to the specification.
type Gen struct {
	key   string
	mode  string
	desc  map[string][]string
	hull  map[string]Iv
	at    map[string]*Lin // parts of the position that are the same each time
	tmpl  *State
	dirty bool
}

// lockstep analyses printf.
type lockstep struct {
	e       *Eng
	fn      *Fn
	cuts    map[string]bool
	gens    map[string]*Gen
	restart bool
	final   bool
	fails   map[string]bool
	heads   int
	trans   int
	kept    map[string]*Lin
}

func (k *lockstep) fail(where, f string, a ...interface{}) { k.e.report("output", where, f, a...) }

// head is called when a loop head is reached.
func (k *lockstep) head(s *State, b *Block) bool {
	if k.restart {
		return false
	}
	k.trans++
	if err, _ := s.advance(); err != "" {
		k.e.report("output", "", "%s", err)
		return false
	}
	f := s.top()
	id := fmt.Sprintf("%d:%s", f.id, b.Name)
	key := f.where + "|" + f.fn.Name + ":" + b.Name + "|" + s.spec.mode
	pos := s.spec.pos()
	old, seen := s.marks[id]
	if !k.cuts[key] {
		// a loop in which the specification moves only once is left by itself
		moved := 0
		if seen {
			moved = int(old[0] - '0')
			if old = old[1:]; old != pos && s.spec.mode != "D" && old[0] == pos[0] {
				moved++
			}
		}
		if moved == 2 {
			k.cuts[key] = true
			k.restart = true
			return false
		}
		s.marks[id] = string(rune('0'+moved)) + pos
		return true
	}
	// a cut: everything written must be explained
	out, at, _ := s.written()
	if len(out) > s.spec.used {
		// bytes that may still turn out to be right are told apart by cases
		k.e.report("output", place(at[s.spec.used].ins, at[s.spec.used].fn), "a byte is written that the format has not asked for: %s%s", show(out[s.spec.used]), s.example())
		return false
	}
	g := k.gens[key]
	if g == nil {
		g = &Gen{key: key, mode: s.spec.mode, tmpl: s.clone(), dirty: true}
		g.desc = k.describe(s)
		g.hull = k.facts(s)
		g.at = map[string]*Lin{}
		for n, l := range s.spec.parts() {
			if !volatile(l.key()) {
				g.at[n] = l
			}
		}
		k.gens[key] = g
		k.heads++
		return false
	}
	for n, l := range s.spec.parts() {
		if old := g.at[n]; old != nil && !old.same(l) {
			delete(g.at, n)
			g.dirty = true
		}
	}
	d := k.describe(s)
	for c, have := range g.desc {
		var keep []string
		got := map[string]bool{}
		for _, x := range d[c] {
			got[x] = true
		}
		for _, x := range have {
			if got[x] {
				keep = append(keep, x)
			}
		}
		if len(keep) != len(have) {
			g.desc[c] = keep
			if len(keep) == 0 || keep[0] != have[0] {
				g.dirty = true
			}
		}
	}
	h := k.facts(s)
	for c, iv := range g.hull {
		n, ok := h[c]
		if !ok {
			delete(g.hull, c)
			g.dirty = true
			continue
		}
		lo, hi := iv.lo, iv.hi
		if n.lo.Cmp(lo) < 0 {
			lo = n.lo
		}
		if n.hi.Cmp(hi) > 0 {
			hi = n.hi
		}
		if lo.Cmp(iv.lo) != 0 || hi.Cmp(iv.hi) != 0 {
			g.hull[c] = Iv{lo, hi}
			g.dirty = true
		}
	}
	if s.ver != 0 {
		panic(undecided{"memory outside of the library changes in a loop"})
	}
	return false
}

// volatile says whether an expression is about a certain state only.
func volatile(key string) bool {
	for _, x := range []string{"?P", "?A", "?J", "?X", "?h", "result", "input"} {
		if strings.Contains(key, x) {
			return true
		}
	}
	return false
}

// forms describes an expression relative to the specification, the best description last resort first.
func (k *lockstep) forms(s *State, l *Lin, w int, depth int) []string {
	p := s.spec
	var out []string
	type base struct {
		n string
		l *Lin
	}
	bases := []base{{"", num(0)}, {"P", p.P}, {"8A", scale(p.A, bi(8))}, {"A", p.A}}
	if p.mode == "S" {
		bases = append(bases, base{"X", p.X}, base{"XJ", add(p.X, p.J)}, base{"J", p.J})
	}
	for _, b := range bases {
		d := s.wrap(sub(l, b.l), w)
		if !volatile(d.key()) {
			out = append(out, b.n+"#"+d.key())
			k.keep(d)
		}
	}
	if depth == 0 && len(l.t) == 1 && l.t[0].k.Cmp(one) == 0 {
		a := l.t[0].a
		if strings.HasPrefix(a.key, "m[") {
			if ad := k.e.lib.addrs[a.key]; ad != nil {
				for _, f := range k.forms(s, s.again(ad), 64, 1) {
					out = append(out, "m<"+f+">"+l.c.String())
				}
			}
		}
		if strings.HasPrefix(a.key, "arg") {
			for _, d := range []int64{-2, -1, 0, 1} {
				if x := s.argAt(plus(p.A, d)); x.t[0].a == a {
					out = append(out, fmt.Sprintf("arg<%d>%s", d, l.c))
				}
			}
		}
	}
	return out
}

func (k *lockstep) keep(l *Lin) {
	if k.kept == nil {
		k.kept = map[string]*Lin{}
	}
	k.kept[l.key()] = l
}

// build is the opposite of forms.
func (k *lockstep) build(s *State, f string) *Lin {
	p := s.spec
	if strings.HasPrefix(f, "m<") {
		e := strings.LastIndex(f, ">")
		ad := k.build(s, f[2:e])
		c, _ := new(big.Int).SetString(f[e+1:], 10)
		return add(s.e.byteAt(s.wrap(ad, 64), 0), numB(c))
	}
	if strings.HasPrefix(f, "arg<") {
		e := strings.Index(f, ">")
		var d int64
		fmt.Sscanf(f[4:e], "%d", &d)
		c, _ := new(big.Int).SetString(f[e+1:], 10)
		return add(s.argAt(plus(p.A, d)), numB(c))
	}
	i := strings.Index(f, "#")
	d := k.kept[f[i+1:]]
	switch f[:i] {
	case "P":
		d = add(d, p.P)
	case "A":
		d = add(d, p.A)
	case "8A":
		d = addK(d, p.A, bi(8))
	case "X":
		d = add(d, p.X)
	case "XJ":
		d = add(d, add(p.X, p.J))
	case "J":
		d = add(d, p.J)
	}
	return d
}

// objName names an object independently of the path.
func (k *lockstep) objName(s *State, o *Obj) string {
	if o == nil {
		return ""
	}
	for fi, f := range s.frames {
		if f.args == o {
			return fmt.Sprintf("args%d", fi)
		}
		for i, x := range f.own {
			if x == o {
				return fmt.Sprintf("own%d.%d", fi, i)
			}
		}
	}
	return fmt.Sprintf("g%d", o.id)
}

func (k *lockstep) descVal(s *State, v Val) []string {
	if v.undef {
		return nil
	}
	pre := fmt.Sprintf("%d;%s;", v.w, k.objName(s, v.obj))
	if v.fn != nil {
		return []string{pre + "fn " + v.fn.Name}
	}
	var out []string
	for _, f := range k.forms(s, s.again(v.l), v.w, 0) {
		out = append(out, pre+f)
	}
	if v.obj == nil {
		out = append(out, fmt.Sprintf("%d;;any", v.w))
	}
	return out
}

// describe describes all variables of a state.
func (k *lockstep) describe(s *State) map[string][]string {
	d := map[string][]string{}
	for fi, f := range s.frames {
		for r, v := range f.regs {
			d[fmt.Sprintf("%d r %s", fi, r)] = k.descVal(s, v)
		}
		for oi, o := range f.own {
			for off, c := range s.mem[o.id] {
				d[fmt.Sprintf("%d o %d %d %d", fi, oi, off, c.n)] = k.descVal(s, c.v)
			}
		}
	}
	return d
}

// facts are the intervals of characters near the position of the specification.
func (k *lockstep) facts(s *State) map[string]Iv {
	h := map[string]Iv{}
	for key, iv := range s.cons {
		if !strings.HasPrefix(key, "m[") {
			continue
		}
		ad := k.e.lib.addrs[key]
		if ad == nil {
			continue
		}
		for _, f := range k.forms(s, s.again(ad), 64, 1) {
			if strings.HasPrefix(f, "P#") || strings.HasPrefix(f, "XJ#") {
				h[f] = iv
			}
		}
	}
	return h
}

// instance makes the state a Gen stands for.
func (k *lockstep) instance(g *Gen) *State {
	s := g.tmpl.clone()
	e := k.e
	big30 := pow2(30)
	s.spec = &Spec{mode: g.mode, P: e.sym("?P", zero, big30), A: e.sym("?A", zero, big30), J: num(0), X: num(0)}
	if g.mode == "S" {
		s.spec.J = e.sym("?J", zero, big30)
		s.spec.X = e.word("?X", 64)
	}
	for n, l := range g.at {
		switch n {
		case "P":
			s.spec.P = l
		case "A":
			s.spec.A = l
		case "J":
			s.spec.J = l
		case "X":
			s.spec.X = l
		}
	}
	s.cons = map[string]Iv{}
	s.facts = map[string]bool{}
	s.ev, s.loads = nil, nil
	for f, iv := range g.hull {
		l := e.byteAt(s.wrap(k.build(s, f), 64), 0)
		s.cons[l.t[0].a.key] = iv
	}
	pick := func(cell string, old Val) Val {
		fs := g.desc[cell]
		if len(fs) == 0 {
			return Val{w: old.w, l: num(0), undef: true}
		}
		p := strings.SplitN(fs[0], ";", 3)
		switch {
		case p[2] == "any":
			return number(e.word("?h("+g.key+" "+cell+")", old.w), old.w)
		case strings.HasPrefix(p[2], "fn "):
			return old
		}
		v := old
		v.l = s.wrap(k.build(s, p[2]), old.w)
		return v
	}
	for fi, f := range s.frames {
		for r, v := range f.regs {
			f.regs[r] = pick(fmt.Sprintf("%d r %s", fi, r), v)
		}
		for oi, o := range f.own {
			m := s.mem[o.id]
			for off, c := range m {
				m[off] = cell{c.n, pick(fmt.Sprintf("%d o %d %d %d", fi, oi, off, c.n), c.v)}
			}
		}
		f.seen = map[string]int{}
	}
	f := s.top()
	s.marks = map[string]string{fmt.Sprintf("%d:%s", f.id, f.blk.Name): "0" + s.spec.pos()}
	return s
}

// finish checks a path that returns.
func (k *lockstep) finish(s *State) {
	if k.restart {
		return
	}
	if s.exited {
		k.fail("", "printf ends the program")
		return
	}
	work := []*State{s}
	for n := 0; len(work) > 0; n++ {
		t := work[0]
		work = work[1:]
		err, a := t.advance()
		if err != "" {
			k.e.report("output", "", "%s", err)
			return
		}
		if t.spec.mode == "D" {
			continue
		}
		if a != nil && n < 400 {
			yes, no, ok := ask(t, a)
			if ok {
				work = append(append(work, yes...), no...)
				continue
			}
		}
		what := "before its end"
		if t.spec.mode == "S" {
			what = "in the middle of a string"
		}
		k.fail(k.fn.Name, "printf returns %s%s", what, t.example())
		return
	}
}

// ask answers a question by cases.
func ask(s *State, a *amb) (yes, no []*State, ok bool) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case split:
			no = nil
			yes, ok = s.divide(x)
		default:
			panic(x)
		}
	}()
	yes, no = s.cases(a.d, a.op)
	ok = len(yes)+len(no) > 1
	return
}

// load checks that a byte that is read belongs to the format or to the string of %s.
func (k *lockstep) load(s *State, addr *Lin, in *Ins) {
	if err, _ := s.advance(); err != "" {
		return // reported at the next head or end
	}
	p := s.spec
	try := func(base, pos *Lin) (bool, string) {
		d := s.wrap(sub(addr, add(base, pos)), 64)
		if !d.isNum() || d.c.CmpAbs(bi(1000)) > 0 {
			return false, ""
		}
		n := d.c.Int64()
		for i := int64(0); i < n; i++ {
			c := s.charAt(base, plus(pos, i))
			if s.rng(c).lo.Sign() == 0 {
				return true, "a character after the end of a string may be read"
			}
		}
		return true, ""
	}
	if ok, e := try(s.fmtPtr(), p.P); ok {
		if p.mode == "D" && e == "" {
			e = ""
		}
		if e != "" {
			k.e.report("memory", s.where(in), "%s (of the format)", e)
		}
		return
	}
	if p.mode == "S" {
		if ok, e := try(p.X, p.J); ok {
			if e != "" {
				k.e.report("memory", s.where(in), "%s (of an argument)", e)
			}
			return
		}
	}
	// what was read before may be read again
	key := fmt.Sprintf("m[%s]", addr.key())
	if _, ok := s.cons[key]; ok {
		return
	}
	k.e.report("memory", s.where(in), "memory is read that belongs neither to the format nor to the string of %%s: address %s", addr)
}

// run analyses printf to a fixpoint.
func (k *lockstep) run() {
	e := k.e
	e.onHead = k.head
	e.onLoad = k.load
	for round := 0; round < 12; round++ {
		k.restart = false
		k.gens = map[string]*Gen{}
		e.find, e.seen = nil, map[string]bool{}
		k.heads, k.trans = 0, 0
		for it := 0; it < 40 && !k.restart; it++ {
			if it == 0 {
				k.first()
			}
			var ks []string
			for key, g := range k.gens {
				if g.dirty {
					ks = append(ks, key)
				}
			}
			if len(ks) == 0 {
				break
			}
			sort.Strings(ks)
			for _, key := range ks {
				if k.restart {
					break
				}
				g := k.gens[key]
				g.dirty = false
				for _, s := range e.run(k.instance(g)) {
					k.finish(s)
				}
				if e.over {
					return
				}
			}
		}
		if !k.restart {
			break
		}
	}
	if k.restart {
		e.report("undecided", k.fn.Name, "the loops of printf are not understood")
		return
	}
	// what is reported now is about the final descriptions only
	e.find, e.seen = nil, map[string]bool{}
	e.doubt = map[string]Finding{}
	k.first()
	var ks []string
	for key := range k.gens {
		ks = append(ks, key)
	}
	sort.Strings(ks)
	for _, key := range ks {
		g := k.gens[key]
		for _, s := range e.run(k.instance(g)) {
			k.finish(s)
		}
	}
	for _, key := range ks {
		if k.gens[key].dirty {
			e.report("undecided", k.fn.Name, "the description of a loop of printf is not stable")
		}
	}
}

func (k *lockstep) first() {
	s := k.e.start(k.fn, nil)
	s.spec = &Spec{mode: "F", P: num(0), A: num(0), J: num(0), X: num(0)}
	for _, t := range k.e.run(s) {
		k.finish(t)
	}
}
