package rt

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Atom is an unknown number: an input, or the quotient or remainder of an expression by a
// constant (both rounded towards minus infinity).
type Atom struct {
	key    string
	kind   byte // s symbol, / quotient, % remainder
	x      *Lin
	c      *big.Int
	lo, hi *big.Int // of a symbol
	depth  int
}

type mono struct {
	a *Atom
	k *big.Int
}

// Lin is a linear expression over atoms.
type Lin struct {
	c *big.Int
	t []mono // sorted by key
	k string
}

var zero, one = big.NewInt(0), big.NewInt(1)

func bi(n int64) *big.Int      { return big.NewInt(n) }
func pow2(n int) *big.Int      { return new(big.Int).Lsh(one, uint(n)) }
func sub1(n *big.Int) *big.Int { return new(big.Int).Sub(n, one) }
func add1(n *big.Int) *big.Int { return new(big.Int).Add(n, one) }

func num(n int64) *Lin          { return &Lin{c: bi(n)} }
func numB(n *big.Int) *Lin      { return &Lin{c: n} }
func atom(a *Atom) *Lin         { return &Lin{c: zero, t: []mono{{a, one}}} }
func (l *Lin) isNum() bool      { return len(l.t) == 0 }
func (l *Lin) same(m *Lin) bool { return l.key() == m.key() }

func (l *Lin) key() string {
	if l.k == "" {
		var b strings.Builder
		for _, m := range l.t {
			if m.k.Cmp(one) == 0 {
				b.WriteString("+")
			} else {
				fmt.Fprintf(&b, "+%s*", m.k)
			}
			b.WriteString(m.a.key)
		}
		if l.c.Sign() != 0 || len(l.t) == 0 {
			b.WriteString("+" + l.c.String())
		}
		l.k = strings.TrimPrefix(b.String(), "+")
	}
	return l.k
}

func (l *Lin) String() string { return l.key() }

func addK(l, m *Lin, k *big.Int) *Lin {
	if k.Sign() == 0 {
		return l
	}
	r := &Lin{c: new(big.Int).Add(l.c, new(big.Int).Mul(m.c, k))}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || i < len(l.t) && l.t[i].a.key < m.t[j].a.key:
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a.key < l.t[i].a.key:
			r.t = append(r.t, mono{m.t[j].a, new(big.Int).Mul(m.t[j].k, k)})
			j++
		default:
			x := new(big.Int).Add(l.t[i].k, new(big.Int).Mul(m.t[j].k, k))
			if x.Sign() != 0 {
				r.t = append(r.t, mono{l.t[i].a, x})
			}
			i++
			j++
		}
	}
	return r
}

func add(l, m *Lin) *Lin            { return addK(l, m, one) }
func sub(l, m *Lin) *Lin            { return addK(l, m, bi(-1)) }
func scale(l *Lin, k *big.Int) *Lin { return addK(num(0), l, k) }
func plus(l *Lin, n int64) *Lin     { return add(l, num(n)) }

// mod returns the representative of n modulo m nearest to zero.
func symm(n, m *big.Int) *big.Int {
	r := new(big.Int).Mod(n, m)
	if new(big.Int).Lsh(r, 1).Cmp(m) > 0 {
		r.Sub(r, m)
	}
	return r
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, b is positive
	return q
}

func ceilDiv(a, b *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(a), b))
}

// Cons are the intervals known on a path.
type Iv struct{ lo, hi *big.Int }

// split says that a conclusion needs the cases a < at and a >= at.
type split struct {
	a  *Atom
	at *big.Int
}

// dead says that a path is impossible.
type dead struct{}

func (s *State) atomRange(a *Atom) Iv {
	var r Iv
	switch a.kind {
	case 's':
		r = Iv{a.lo, a.hi}
	case '/':
		x := s.rng(a.x)
		r = Iv{floorDiv(x.lo, a.c), floorDiv(x.hi, a.c)}
	case '%':
		x := s.rng(a.x)
		q, p := floorDiv(x.lo, a.c), floorDiv(x.hi, a.c)
		if q.Cmp(p) == 0 {
			d := new(big.Int).Mul(q, a.c)
			r = Iv{new(big.Int).Sub(x.lo, d), new(big.Int).Sub(x.hi, d)}
		} else {
			r = Iv{zero, sub1(a.c)}
		}
	}
	if c, ok := s.cons[a.key]; ok {
		if c.lo.Cmp(r.lo) > 0 {
			r.lo = c.lo
		}
		if c.hi.Cmp(r.hi) < 0 {
			r.hi = c.hi
		}
	}
	return r
}

func (s *State) rng(l *Lin) Iv {
	r := Iv{l.c, l.c}
	for _, m := range l.t {
		x := s.atomRange(m.a)
		a, b := new(big.Int).Mul(x.lo, m.k), new(big.Int).Mul(x.hi, m.k)
		if m.k.Sign() < 0 {
			a, b = b, a
		}
		r = Iv{new(big.Int).Add(r.lo, a), new(big.Int).Add(r.hi, b)}
	}
	return r
}

// restrict restricts an atom to an interval.
func (s *State) restrict(a *Atom, lo, hi *big.Int) {
	r := s.atomRange(a)
	if lo.Cmp(r.lo) < 0 {
		lo = r.lo
	}
	if hi.Cmp(r.hi) > 0 {
		hi = r.hi
	}
	if lo.Cmp(hi) > 0 {
		panic(dead{})
	}
	if lo.Cmp(r.lo) == 0 && hi.Cmp(r.hi) == 0 {
		return
	}
	switch a.kind {
	case '/':
		s.restrictLin(a.x, new(big.Int).Mul(lo, a.c), new(big.Int).Add(new(big.Int).Mul(hi, a.c), sub1(a.c)))
	case '%':
		x := s.rng(a.x)
		q, p := floorDiv(x.lo, a.c), floorDiv(x.hi, a.c)
		d := new(big.Int).Mul(q, a.c)
		if q.Cmp(p) == 0 {
			s.restrictLin(a.x, new(big.Int).Add(d, lo), new(big.Int).Add(d, hi))
		} else if new(big.Int).Sub(p, q).Cmp(bi(3)) <= 0 && len(a.x.t) == 1 {
			s.cutAt(a.x, new(big.Int).Add(d, a.c))
		}
	}
	s.cons[a.key] = Iv{lo, hi}
}

// cutAt asks for a case split of an expression of one atom at a value.
func (s *State) cutAt(l *Lin, at *big.Int) {
	m := l.t[0]
	n := new(big.Int).Sub(at, l.c)
	k := m.k
	// k*a >= n  <=>  a >= ceil(n/k) for positive k, else a <= floor(n/k), so a split at floor+1
	if k.Sign() > 0 {
		panic(split{m.a, ceilDiv(n, k)})
	}
	nk := new(big.Int).Neg(k)
	nn := new(big.Int).Neg(n)
	panic(split{m.a, add1(floorDiv(nn, nk))})
}

func (s *State) restrictLin(l *Lin, lo, hi *big.Int) {
	if len(l.t) == 0 {
		if l.c.Cmp(lo) < 0 || l.c.Cmp(hi) > 0 {
			panic(dead{})
		}
		return
	}
	for i, m := range l.t {
		rest := &Lin{c: l.c}
		for j, n := range l.t {
			if i != j {
				rest.t = append(rest.t, n)
			}
		}
		r := s.rng(rest)
		a, b := new(big.Int).Sub(lo, r.hi), new(big.Int).Sub(hi, r.lo)
		k := m.k
		if k.Sign() < 0 {
			k = new(big.Int).Neg(k)
			a, b = new(big.Int).Neg(b), new(big.Int).Neg(a)
		}
		a, b = ceilDiv(a, k), floorDiv(b, k)
		if a.Cmp(b) > 0 {
			panic(dead{})
		}
		s.restrict(m.a, a, b)
	}
}

// fdiv is the quotient of an expression by a positive constant.
func (s *State) fdiv(l *Lin, c *big.Int) *Lin {
	if c.Cmp(one) == 0 {
		return l
	}
	q := &Lin{c: floorDiv(l.c, c)}
	r := &Lin{c: new(big.Int).Mod(l.c, c)}
	for _, m := range l.t {
		k := new(big.Int)
		rem := new(big.Int)
		k.DivMod(m.k, c, rem)
		if rem.Sign() == 0 {
			q.t = append(q.t, mono{m.a, k})
		} else {
			r.t = append(r.t, m)
		}
	}
	if len(r.t) == 0 {
		return q
	}
	x := s.rng(r)
	a, b := floorDiv(x.lo, c), floorDiv(x.hi, c)
	if a.Cmp(b) == 0 {
		return add(q, numB(a))
	}
	g := new(big.Int).Set(c)
	for _, m := range r.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.k))
	}
	if g.Cmp(one) > 0 {
		t := &Lin{c: floorDiv(r.c, g)}
		for _, m := range r.t {
			t.t = append(t.t, mono{m.a, new(big.Int).Quo(m.k, g)})
		}
		return add(q, s.fdiv(t, new(big.Int).Quo(c, g)))
	}
	if len(r.t) == 1 && r.t[0].k.Cmp(one) == 0 {
		y := r.t[0].a
		if y.kind == '/' {
			return add(q, s.fdiv(addK(y.x, numB(y.c), r.c), new(big.Int).Mul(c, y.c)))
		}
		if y.kind == '%' && r.c.Sign() == 0 && new(big.Int).Mod(y.c, c).Sign() == 0 {
			return add(q, s.fmod(s.fdiv(y.x, c), new(big.Int).Quo(y.c, c)))
		}
	}
	return add(q, atom(s.e.op('/', r, c)))
}

// fmod is the remainder of an expression by a positive constant.
func (s *State) fmod(l *Lin, c *big.Int) *Lin {
	if c.Cmp(one) == 0 {
		return num(0)
	}
	r := &Lin{c: new(big.Int).Mod(l.c, c)}
	again := false
	for _, m := range l.t {
		k := symm(m.k, c)
		if k.Sign() == 0 {
			continue
		}
		if m.a.kind == '%' && new(big.Int).Mod(m.a.c, c).Sign() == 0 {
			r = addK(r, m.a.x, k)
			again = true
			continue
		}
		r = addK(r, atom(m.a), k)
	}
	if again {
		return s.fmod(r, c)
	}
	if len(r.t) == 0 {
		return numB(new(big.Int).Mod(r.c, c))
	}
	for _, base := range []*Lin{l, r} {
		x := s.rng(base)
		a, b := floorDiv(x.lo, c), floorDiv(x.hi, c)
		if a.Cmp(b) == 0 {
			return addK(base, numB(new(big.Int).Mul(a, c)), bi(-1))
		}
	}
	g := new(big.Int).Set(c)
	for _, m := range r.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.k))
	}
	if g.Cmp(one) > 0 {
		t := &Lin{c: floorDiv(r.c, g)}
		for _, m := range r.t {
			t.t = append(t.t, mono{m.a, new(big.Int).Quo(m.k, g)})
		}
		rest := new(big.Int).Mod(r.c, g)
		return add(scale(s.fmod(t, new(big.Int).Quo(c, g)), g), numB(rest))
	}
	return atom(s.e.op('%', r, c))
}

func (e *Eng) op(kind byte, x *Lin, c *big.Int) *Atom {
	key := fmt.Sprintf("(%s%c%s)", x.key(), kind, c)
	if a := e.atoms[key]; a != nil {
		return a
	}
	d := 0
	for _, m := range x.t {
		if m.a.depth >= d {
			d = m.a.depth + 1
		}
	}
	a := &Atom{key: key, kind: kind, x: x, c: c, depth: d}
	e.atoms[key] = a
	return a
}

func (e *Eng) sym(name string, lo, hi *big.Int) *Lin {
	if a := e.atoms[name]; a != nil {
		return atom(a)
	}
	a := &Atom{key: name, kind: 's', lo: lo, hi: hi}
	e.atoms[name] = a
	return atom(a)
}

func (e *Eng) word(name string, bits int) *Lin { return e.sym(name, zero, sub1(pow2(bits))) }

// again simplifies an expression with what is known now.
func (s *State) again(l *Lin) *Lin {
	r := &Lin{c: l.c}
	for _, m := range l.t {
		a := m.a
		var x *Lin
		switch a.kind {
		case 's':
			x = atom(a)
			if iv := s.atomRange(a); iv.lo.Cmp(iv.hi) == 0 {
				x = numB(iv.lo)
			}
		case '/':
			x = s.fdiv(s.again(a.x), a.c)
		case '%':
			x = s.fmod(s.again(a.x), a.c)
		}
		r = addK(r, x, m.k)
	}
	return r
}

// wrap reduces an expression modulo 2^w to its normal form.
func (s *State) wrap(l *Lin, w int) *Lin {
	m := pow2(w)
	for again := true; again; {
		again = false
		r := &Lin{c: symm(l.c, m)}
		for _, x := range l.t {
			k := symm(x.k, m)
			if k.Sign() == 0 {
				continue
			}
			if x.a.kind == '%' && new(big.Int).Mod(x.a.c, m).Sign() == 0 {
				r = addK(r, x.a.x, k)
				again = true
				continue
			}
			r = addK(r, atom(x.a), k)
		}
		l = r
	}
	// x - c*(x/c) is a remainder
	for again := true; again; {
		again = false
		for _, x := range l.t {
			if x.a.kind != '/' || len(x.a.x.t) == 0 {
				continue
			}
			k := new(big.Int)
			rem := new(big.Int)
			k.DivMod(new(big.Int).Neg(x.k), x.a.c, rem)
			if rem.Sign() != 0 {
				continue
			}
			all := true
			for _, y := range x.a.x.t {
				want := new(big.Int).Mul(y.k, k)
				found := false
				for _, z := range l.t {
					if z.a == y.a && z.k.Cmp(want) == 0 {
						found = true
					}
				}
				all = all && found
			}
			if !all {
				continue
			}
			n := addK(l, x.a.x, new(big.Int).Neg(k))
			n = addK(n, atom(x.a), new(big.Int).Mul(k, x.a.c))
			n = addK(n, s.fmod(x.a.x, x.a.c), k)
			if n.same(l) {
				continue
			}
			l = n
			again = true
			break
		}
	}
	return &Lin{c: symm(l.c, m), t: l.t}
}

// uval and sval are the exact unsigned and signed values of an expression modulo 2^w.
func (s *State) uval(l *Lin, w int) *Lin { return s.fmod(s.again(l), pow2(w)) }

func (s *State) sval(l *Lin, w int) *Lin {
	h := pow2(w - 1)
	r := add(s.fmod(add(s.again(l), numB(h)), pow2(w)), scale(numB(h), bi(-1)))
	return r
}

// sign is the sign of an exact expression, splitting cases if it is not known.
func (s *State) needSign(l *Lin) int {
	r := s.rng(l)
	if r.lo.Sign() >= 0 {
		return 1
	}
	if r.hi.Sign() <= 0 {
		return -1
	}
	s.splitOn(l, zero)
	return 1
}

// splitOn asks for cases that decide whether an expression is at least at.
func (s *State) splitOn(l *Lin, at *big.Int) {
	if len(l.t) == 1 {
		m := l.t[0]
		if m.a.kind == '%' {
			x := s.rng(m.a.x)
			q, p := floorDiv(x.lo, m.a.c), floorDiv(x.hi, m.a.c)
			if new(big.Int).Sub(p, q).Cmp(bi(3)) <= 0 && q.Cmp(p) != 0 && len(m.a.x.t) == 1 {
				s.cutAt(m.a.x, new(big.Int).Mul(add1(q), m.a.c))
			}
		}
		s.cutAt(l, at)
	}
	// the widest symbol of several is halved
	panic(undecided{"a sign depends on several unknown numbers: " + l.key()})
}

type undecided struct{ s string }

// cases returns the states in which an expression is, and is not, in a relation with zero.
func (s *State) cases(d *Lin, op string) (yes, no []*State) {
	try := func(f func(t *State)) *State {
		t := s.clone()
		ok := func() (ok bool) {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(dead); is {
						ok = false
						return
					}
					panic(x)
				}
			}()
			f(t)
			return true
		}()
		if !ok {
			return nil
		}
		return t
	}
	inf := pow2(200)
	ninf := new(big.Int).Neg(inf)
	put := func(l *[]*State, t *State) {
		if t != nil {
			*l = append(*l, t)
		}
	}
	in := func(lo, hi *big.Int) *State { return try(func(t *State) { t.restrictLin(d, lo, hi) }) }
	switch op {
	case "<":
		put(&yes, in(ninf, bi(-1)))
		put(&no, in(zero, inf))
	case "<=":
		put(&yes, in(ninf, zero))
		put(&no, in(one, inf))
	case "==":
		put(&yes, in(zero, zero))
		if len(d.t) == 1 {
			put(&no, in(ninf, bi(-1)))
			put(&no, in(one, inf))
		} else if len(yes) == 0 || len(d.t) > 1 {
			if d.isNum() && d.c.Sign() == 0 {
				break
			}
			put(&no, s.clone())
		}
	}
	if len(d.t) > 1 {
		k := op + d.key()
		if b, ok := s.facts[k]; ok {
			if b {
				no = nil
			} else {
				yes = nil
			}
		}
		for _, t := range yes {
			t.facts[k] = true
		}
		for _, t := range no {
			t.facts[k] = false
		}
	}
	return
}

func (s *State) showCons() string {
	var ks []string
	for k, v := range s.cons {
		ks = append(ks, fmt.Sprintf("%s in [%s, %s]", k, v.lo, v.hi))
	}
	sort.Strings(ks)
	return strings.Join(ks, "; ")
}
