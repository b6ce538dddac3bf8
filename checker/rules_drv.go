package main

// Rules for the command: what is run, written, removed and reported on every way through
// main and the driver.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

type drvRes struct {
	e    *dEng
	outs []*dout
	err  error
}

var drvMemo *drvRes

func drvOf(p *Prog) *drvRes {
	if drvMemo == nil {
		e := newDEng(p)
		outs, err := e.runMain()
		drvMemo = &drvRes{e, outs, err}
	}
	return drvMemo
}

func showEvs(l []*dev, ind string) {
	for _, v := range l {
		if v.kind == "foreach" {
			fmt.Println(ind, "foreach", v.whole, showD(v.loop.k), showD(v.loop.n))
			for _, c := range v.loop.cases {
				fmt.Print(ind, "   case")
				for _, l := range c.lits {
					fmt.Print(" ", l, ";")
				}
				fmt.Println()
				showEvs(c.evs, ind+"      ")
			}
			continue
		}
		fmt.Print(ind, " ", v.kind, v.id)
		for _, a := range v.args {
			fmt.Print(" ", showD(a))
		}
		fmt.Println()
	}
}

// loops over lists that are made of parts

func listOfLoop(lp *dloop) *dv {
	var found *dv
	look := func(v *dv) {
		for _, x := range elemsIn(v) {
			if x.i.key == lp.k.key && dLen(x.l).key == lp.n.key {
				found = x.l
			}
		}
	}
	var evs func(l []*dev)
	evs = func(l []*dev) {
		for _, v := range l {
			for _, a := range v.args {
				look(a)
			}
			if v.loop != nil {
				for _, c := range v.loop.cases {
					evs(c.evs)
				}
			}
		}
	}
	for _, c := range lp.cases {
		for _, l := range c.lits {
			look(l.atom)
		}
		for _, x := range c.app {
			for _, y := range x {
				look(y)
			}
		}
		evs(c.evs)
	}
	return found
}

func substEvs(l []*dev, f func(*dv) *dv) []*dev {
	var r []*dev
	for _, v := range l {
		n := *v
		n.args = nil
		for _, a := range v.args {
			n.args = append(n.args, dmap(a, f))
		}
		if v.loop != nil {
			n.loop = substLoop(v.loop, f)
		}
		r = append(r, &n)
	}
	return r
}

func substCase(c *dcase, f func(*dv) *dv) *dcase {
	n := &dcase{app: map[int64][]*dv{}}
	for _, l := range c.lits {
		n.lits = append(n.lits, litOf(dmap(l.atom, f), l.val))
	}
	for k, x := range c.app {
		for _, y := range x {
			n.app[k] = append(n.app[k], dmap(y, f))
		}
	}
	n.evs = substEvs(c.evs, f)
	return n
}

func substLoop(lp *dloop, f func(*dv) *dv) *dloop {
	n := &dloop{id: lp.id, n: dmap(lp.n, f), k: lp.k, pos: lp.pos}
	for _, c := range lp.cases {
		n.cases = append(n.cases, substCase(c, f))
	}
	return n
}

func elemTo(l, k, by *dv) func(*dv) *dv {
	key := dElem(l, k).key
	return func(x *dv) *dv {
		if x.key == key {
			return by
		}
		return nil
	}
}

// liveCases drops the cases whose conditions are decided against.
func liveCases(st *dst, cs []*dcase, lp *dloop) []*dcase {
	var r []*dcase
	for _, c := range cs {
		ok := true
		for _, l := range c.lits {
			if v, k := st.basic(l.atom); k && v != l.val && !eventLit(l) {
				ok = false
			}
		}
		if ok {
			r = append(r, c)
		}
	}
	return r
}

// expand writes a loop over a list made of parts as loops over what the parts come from.
func expand(st *dst, lp *dloop, whole bool, emit func(lp *dloop, whole bool), one func(c *dcase)) bool {
	l := listOfLoop(lp)
	if l == nil || l.op != "list" {
		emit(lp, whole)
		return true
	}
	if !whole {
		return false
	}
	for _, p := range l.a {
		switch p.op {
		case "el":
			var cs []*dcase
			f := elemTo(l, lp.k, p.a[0])
			for _, c := range lp.cases {
				cs = append(cs, substCase(c, f))
			}
			cs = liveCases(st, cs, lp)
			if len(cs) != 1 {
				return false
			}
			one(cs[0])
		case "spread":
			v := p.a[0]
			n := substLoop(lp, elemTo(l, lp.k, dElem(v, lp.k)))
			n.n = dLen(v)
			emit(n, true)
		case "opt":
			for _, x := range p.a {
				var cs []*dcase
				f := elemTo(l, lp.k, x)
				for _, c := range lp.cases {
					cs = append(cs, substCase(c, f))
				}
				cs = liveCases(st, cs, lp)
				if len(cs) != 1 {
					return false
				}
				n := &dcase{app: map[int64][]*dv{}, evs: cs[0].evs}
				for k, y := range cs[0].app {
					n.app[k] = []*dv{dOpt(p.ref.([]dlit), y)}
					n.app[k][0].ref = p.ref
				}
				if len(n.evs) > 0 {
					return false
				}
				one(n)
			}
		case "fm":
			in := p.ref.(*dloop)
			n := &dloop{id: in.id, n: in.n, k: in.k, pos: lp.pos}
			for _, ci := range in.cases {
				acc := []*dcase{{lits: ci.lits, app: map[int64][]*dv{}}}
				for _, y := range ci.app[p.n] {
					if y.op != "el" {
						return false
					}
					var nx []*dcase
					f := elemTo(l, lp.k, y.a[0])
					var cs []*dcase
					for _, c := range lp.cases {
						cs = append(cs, substCase(c, f))
					}
					for _, a := range acc {
						for _, c := range liveCases(st, cs, lp) {
							m := &dcase{app: map[int64][]*dv{}}
							m.lits = append(append([]dlit{}, a.lits...), c.lits...)
							m.evs = append(append([]*dev{}, a.evs...), c.evs...)
							for k, z := range a.app {
								m.app[k] = append(m.app[k], z...)
							}
							for k, z := range c.app {
								m.app[k] = append(m.app[k], z...)
							}
							nx = append(nx, m)
						}
					}
					acc = nx
				}
				n.cases = append(n.cases, acc...)
			}
			emit(n, p.s == "whole")
		default:
			return false
		}
	}
	return true
}

// parts gives the parts of a list with the lists its loops run over resolved.
func (x *drvPath) parts(l []*dv) []*dv {
	var r []*dv
	for _, p := range l {
		if p.op != "fm" {
			r = append(r, p)
			continue
		}
		id := p.n
		ok := expand(x.st, p.ref.(*dloop), p.s == "whole", func(lp *dloop, whole bool) {
			w := "prefix"
			var a []*dv
			if whole {
				w = "whole"
			} else {
				a = []*dv{lp.k}
			}
			f := mkd("fm", w, id, a...)
			f.ref = lp
			r = append(r, f)
		}, func(c *dcase) {
			for _, y := range c.app[id] {
				if y.op == "opt" {
					var a []*dv
					for _, z := range y.a {
						if z.op == "el" {
							a = append(a, z.a[0])
						} else {
							a = append(a, z)
						}
					}
					r = append(r, dOpt(y.ref.([]dlit), a))
					continue
				}
				r = append(r, y)
			}
		})
		if !ok {
			r = append(r, mkd("unknown", "", 0, p))
		}
	}
	return r
}

// eventLit speaks of the outcome of an event.
func eventLit(l dlit) bool {
	ev := false
	var walk func(v *dv)
	walk = func(v *dv) {
		if v.op == "sym" && v.s != "k" {
			ev = true
		}
		for _, y := range v.a {
			walk(y)
		}
	}
	walk(l.atom)
	return ev
}

// fev is an event with the loop it is in.
type fev struct {
	v     *dev
	loop  *dloop
	whole bool
	cas   *dcase
	idx   int
	last  bool // the last step of a loop that is left early, or no loop at all
}

type drvPath struct {
	st    *dst
	o     *dout
	evs   []*fev
	kinds []string
	bad   bool
}

var drvKinds = []string{"asm", "obj", "ir", "exe"}

var drvExts = map[string][]string{"asm": {".b", ".ll"}, "obj": {".b", ".ll", ".s"}, "ir": {".b"}, "exe": {".b", ".ll", ".s", ".o", ".a"}}

var drvSuffix = map[string]string{"asm": ".s", "obj": ".o", "ir": ".ll"}

func (x *drvPath) flag(n string) (bool, bool) { return x.st.basic(flagVar(n)) }

func newDrvPath(o *dout) *drvPath {
	x := &drvPath{st: o.st, o: o}
	// output kinds that agree with the flags: -S before -c before --emit-llvm
	seen := map[string]bool{}
	for m := 0; m < 8; m++ {
		k := "exe"
		ok := true
		for i, n := range []string{"emit-llvm", "compile", "assemble"} {
			b := m>>i&1 == 1
			if v, known := x.flag(n); known && v != b {
				ok = false
			}
			if b {
				k = []string{"ir", "obj", "asm"}[i]
			}
		}
		if ok {
			seen[k] = true
		}
	}
	for _, k := range drvKinds {
		if seen[k] {
			x.kinds = append(x.kinds, k)
		}
	}
	var add func(v *dev, idx int)
	add = func(v *dev, idx int) {
		if v.kind != "foreach" {
			x.evs = append(x.evs, &fev{v: v, idx: idx, last: true})
			return
		}
		ok := expand(x.st, v.loop, v.whole, func(lp *dloop, whole bool) {
			for _, c := range lp.cases {
				for _, w := range c.evs {
					if w.kind == "foreach" {
						x.bad = true
						continue
					}
					x.evs = append(x.evs, &fev{v: w, loop: lp, whole: whole, cas: c, idx: idx})
				}
			}
		}, func(c *dcase) {
			for _, w := range c.evs {
				x.evs = append(x.evs, &fev{v: w, idx: idx, last: true})
			}
		})
		if !ok {
			x.bad = true
		}
	}
	for i, v := range o.st.evs {
		add(v, i)
	}
	return x
}

// norm replaces the flags whose values the path knows.
func (x *drvPath) norm(v *dv) *dv {
	return dmap(v, func(t *dv) *dv {
		if t.op == "var" || t.op == "sym" && t.s == "k" {
			if c := x.st.eqc[t.key]; c != nil {
				return c
			}
		}
		return nil
	})
}

var (
	argsVar = dVar("Args")
	outVar  = flagVar("output")
)

// lit tells what a literal list says about an atom.
func litsSay(st *dst, lits []dlit, c *dv) (bool, bool) {
	t := st.cheap()
	for _, l := range lits {
		t.note(l)
	}
	return t.basic(c)
}

// every tells whether a condition is known of each input: c is given for the input's term.
func (x *drvPath) every(c func(e *dv, say func(*dv) (bool, bool), lits []dlit) bool) bool {
	for _, u := range x.st.univ {
		if u.l.n.key != dLen(argsVar).key {
			continue
		}
		all := true
		for _, cs := range u.l.cases {
			cs := cs
			// cases that contradict what is known already do not happen
			if !c(dElem(argsVar, u.l.k), func(a *dv) (bool, bool) { return litsSay(x.st, cs.lits, a) }, cs.lits) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	if n := x.st.rangeOf(dLen(argsVar)); n.lo == 1 && n.hi == 1 {
		return c(dElem(argsVar, dInt(0)), func(a *dv) (bool, bool) {
			v, k, _ := x.st.decide(a)
			return v, k
		}, x.st.ord)
	}
	return false
}

func extIn(say func(*dv) (bool, bool), e *dv, l []string) bool {
	for _, s := range l {
		if v, k := say(dEq(dExt(e), dStr(s))); k && v {
			return true
		}
	}
	return false
}

func statOK(lits []dlit, e *dv) bool {
	for _, l := range lits {
		if l.val && l.atom.op == "eq" && l.atom.a[1].op == "nil" && l.atom.a[0].op == "sym" && l.atom.a[0].s == "stat.err" && l.atom.a[0].a[0].key == e.key {
			return true
		}
	}
	return false
}

// essential steps must not fail unnoticed.
func essential(v *dev) bool {
	switch v.kind {
	case "open", "parse", "create", "write", "sync", "run", "rename":
		return true
	case "close":
		return len(v.args) > 0 && v.args[0].s == "file:w"
	}
	return false
}

func isWrite(v *dev) bool {
	switch v.kind {
	case "create", "write", "run", "remove", "rename":
		return true
	}
	return false
}

func isStep(v *dev) bool {
	return essential(v) && v.kind != "close" || v.kind == "NewCompiler" || v.kind == "NewLexer"
}

// driver checks all ways through the command.
func (r *Rep) driver(p *Prog) {
	d := drvOf(p)
	if !r.ob("analysis", d.err == nil, "", "the command cannot be analysed: %v", d.err) {
		return
	}
	for f := range d.e.fns {
		if q := p.prog.Fset.Position(f.Pos()).Filename; q != "" {
			r.files[q] = true
		}
	}
	if os.Getenv("BLANG_DRV") != "" {
		for _, o := range d.outs {
			fmt.Println("--- exit", showD(o.exit), o.pos)
			for _, l := range o.st.ord {
				fmt.Println("    if", l)
			}
			showEvs(o.st.evs, "   ")
		}
	}
	var paths []*drvPath
	for _, o := range d.outs {
		x := newDrvPath(o)
		if !r.ob("analysis", !x.bad, o.pos, "the effects of a loop cannot be told") {
			continue
		}
		paths = append(paths, x)
	}
	r.ob("anchors", len(paths) > 0, "", "no way through the command")
	temps := map[string]bool{}
	for _, x := range paths {
		for _, f := range x.evs {
			if f.v.kind == "create" && !x.isOutput(f.v.args[0]) {
				temps[canonK(x.norm(f.v.args[0]))] = true
			}
		}
	}
	for _, x := range paths {
		r.drvErrors(x)
		r.drvAccept(x)
		r.drvUnits(x)
		r.drvTemps(x, temps)
		r.drvVerbose(x)
	}
	r.drvFlags(p, d)
	succ := map[string]int{}
	for _, x := range paths {
		if x.ended() && x.success() && len(x.kinds) == 1 {
			succ[x.kinds[0]]++
		}
	}
	for _, k := range drvKinds {
		r.ob("driver:outputs", succ[k] > 0, "", "no way to an output of kind %s succeeds", k)
	}
	r.units = append(r.units, map[string]interface{}{"unit": "main", "paths": len(paths), "loops summarised": d.e.loops, "functions": len(d.e.fns)})
}

func (x *drvPath) where() string { return x.o.pos }

func (x *drvPath) ended() bool { return x.o.exit.op == "int" && x.o.exit.n == 0 }

// success: the command ran to its end and was not only asked for a text.
func (x *drvPath) success() bool {
	for _, n := range []string{"help", "version"} {
		if v, k := x.flag(n); k && v {
			return false
		}
	}
	return true
}

// canonK makes the steps of different loops comparable.
func canonK(v *dv) string {
	return dmap(v, func(t *dv) *dv {
		if t.op == "sym" && t.s == "k" {
			return dVar("k")
		}
		return nil
	}).key
}

func (x *drvPath) brief() string {
	var l []string
	for _, q := range x.st.ord {
		if !weakAtom(q.atom) {
			l = append(l, q.String())
		}
	}
	s := strings.Join(l, ", ")
	if len(s) > 400 {
		s = "... " + s[len(s)-400:]
	}
	return s
}

// failed gives the event whose error the path knows, by its place, -1 for none.
func (x *drvPath) failed() (int, *dev) {
	for i, f := range x.evs {
		if f.loop != nil {
			continue
		}
		if essential(f.v) && f.v.err != nil {
			if v, k := x.st.basic(dEq(f.v.err, dNil)); k && !v {
				return i, f.v
			}
		}
	}
	return -1, nil
}

func (r *Rep) drvErrors(x *drvPath) {
	ok0 := x.ended()
	r.ob("driver:errors", x.o.exit.op == "int", x.where(), "the exit status is %s", showD(x.o.exit))
	fi, fv := x.failed()
	if fv != nil {
		r.ob("driver:errors", !ok0, fv.pos, "%s fails and the command exits with 0 (%s)", fv.kind, x.brief())
		for _, f := range x.evs[fi+1:] {
			if isStep(f.v) {
				r.ob("driver:errors", false, f.v.pos, "%s is done after %s at %s failed", f.v.kind, fv.kind, fv.pos)
			}
		}
	}
	for i, f := range x.evs {
		if !essential(f.v) || f.v.err == nil {
			continue
		}
		c := dEq(f.v.err, dNil)
		if f.loop != nil {
			v, k := litsSay(newDst(), f.cas.lits, c)
			if !k || !v {
				// an error that is not looked at, or that the next step follows
				r.ob("driver:errors", false, f.v.pos, "the loop goes on whether or not %s succeeded", f.v.kind)
			} else {
				r.ob("driver:errors", true, "", "")
			}
			continue
		}
		if v, k := x.st.basic(c); !k {
			after := fi >= 0 && i > fi
			r.ob("driver:errors", after && !ok0, f.v.pos, "the error of %s is not looked at", f.v.kind)
		} else {
			r.ob("driver:errors", v || !ok0, f.v.pos, "%s fails and the command exits with 0", f.v.kind)
		}
	}
	msg := false
	for _, f := range x.evs {
		if f.v.kind == "print" && f.loop == nil && (f.v.args[0].s == "stderr" || fv == nil && ok0 == false) {
			msg = true
		}
	}
	if !ok0 {
		// the library that reads the flags reports its errors itself
		r.ob("driver:errors", msg, x.where(), "the command fails without a message (%s)", x.brief())
	}
}

// rejects tells whether the path has a reason to refuse the command line.
func (x *drvPath) rejects() bool {
	n := dLen(argsVar)
	if v, k := x.st.basic(dEq(n, dInt(0))); k && v {
		return true
	}
	if v, k := x.st.basic(dEq(dLen(dVar("os.Args")), dInt(1))); k && v {
		return true
	}
	bad := true
	for _, s := range []string{"0", "1", "2", "3"} {
		if v, k := x.st.basic(dEq(flagVar("optimize"), dStr(s))); !k || v {
			bad = false
		}
	}
	if bad {
		return true
	}
	all := true
	for _, kind := range x.kinds {
		why := false
		if kind != "exe" {
			v, k := x.st.basic(dEq(outVar, dStr("")))
			w, l := x.st.basic(dEq(n, dInt(1)))
			if k && !v && l && !w {
				why = true
			}
		}
		for _, q := range x.st.ord {
			for _, e := range elemsIn(q.atom) {
				if e.l.key != argsVar.key {
					continue
				}
				el := dElem(e.l, e.i)
				none := true
				for _, s := range drvExts[kind] {
					if v, k := x.st.basic(dEq(dExt(el), dStr(s))); !k || v {
						none = false
					}
				}
				if none {
					why = true
				}
			}
		}
		if !why {
			all = false
		}
	}
	if all {
		return true
	}
	for _, q := range x.st.ord {
		// an input that is not there
		if !q.val && q.atom.op == "eq" && q.atom.a[1].op == "nil" && q.atom.a[0].op == "sym" && q.atom.a[0].s == "stat.err" && q.atom.a[0].a[0].op == "elem" {
			return true
		}
	}
	return false
}

func (r *Rep) drvAccept(x *drvPath) {
	_, fv := x.failed()
	if h, k := x.flag("help"); k && h {
		r.ob("driver:status", x.ended(), x.where(), "asking for help exits with %s", showD(x.o.exit))
		r.noSteps(x, "help is asked for")
		return
	}
	if v, k := x.flag("version"); k && v {
		r.ob("driver:status", x.ended(), x.where(), "asking for the version exits with %s", showD(x.o.exit))
		r.noSteps(x, "the version is asked for")
		return
	}
	if !x.ended() {
		if fv == nil {
			r.ob("driver:status", x.rejects(), x.where(), "the command fails without a reason (%s)", x.brief())
			for _, f := range x.evs {
				if isWrite(f.v) {
					r.ob("driver:inputs", false, f.v.pos, "%s is done before the command line is refused at %s (%s)", f.v.kind, x.where(), x.brief())
					break
				}
			}
			r.ob("driver:inputs", true, "", "")
		}
		return
	}
	// success
	hv, hk := x.flag("help")
	vv, vk := x.flag("version")
	r.ob("driver:status", hk && !hv && vk && !vv, x.where(), "files are compiled although help or the version may be asked for (%s)", x.brief())
	opt := false
	for _, s := range []string{"0", "1", "2", "3"} {
		if v, k := x.st.basic(dEq(flagVar("optimize"), dStr(s))); k && v {
			opt = true
		}
	}
	r.ob("driver:inputs", opt, x.where(), "an optimization level other than 0 to 3 is accepted (%s)", x.brief())
	n := x.st.rangeOf(dLen(argsVar))
	r.ob("driver:inputs", n.lo >= 1, x.where(), "a command without files succeeds (%s)", x.brief())
	for _, kind := range x.kinds {
		kind := kind
		ok := x.every(func(e *dv, say func(*dv) (bool, bool), lits []dlit) bool {
			if extIn(say, e, drvExts[kind]) {
				return true
			}
			// what is left of the five suffixes
			left := 0
			for _, s := range drvExts["exe"] {
				v, k := say(dEq(dExt(e), dStr(s)))
				in := false
				for _, t := range drvExts[kind] {
					if s == t {
						in = true
					}
				}
				if !in && !(k && !v) {
					left++
				}
			}
			return left == 0 && kind != "exe" && x.every(func(e *dv, say func(*dv) (bool, bool), lits []dlit) bool { return extIn(say, e, drvExts["exe"]) })
		})
		r.ob("driver:inputs", ok, x.where(), "inputs with other suffixes than %s are accepted for an output of kind %s (%s)", strings.Join(drvExts[kind], " "), kind, x.brief())
		if kind != "exe" {
			v, k := x.st.basic(dEq(outVar, dStr("")))
			r.ob("driver:inputs", k && v || n.lo == 1 && n.hi == 1, x.where(), "several inputs are accepted with -o for an output of kind %s (%s)", kind, x.brief())
		}
	}
	ok := x.every(func(e *dv, say func(*dv) (bool, bool), lits []dlit) bool { return statOK(lits, e) })
	r.ob("driver:inputs", ok, x.where(), "a missing input is not refused at once (%s)", x.brief())
}

func (r *Rep) noSteps(x *drvPath, why string) {
	for _, f := range x.evs {
		if isStep(f.v) || isWrite(f.v) {
			r.ob("driver:status", false, f.v.pos, "%s is done although %s", f.v.kind, why)
			return
		}
	}
	r.ob("driver:status", true, "", "")
}

// outFor is where the output of an input goes.
func (x *drvPath) outFor(kind string, e *dv) *dv {
	v, k := x.st.basic(dEq(outVar, dStr("")))
	if !k {
		return nil
	}
	if !v {
		return outVar
	}
	if kind == "exe" {
		return dStem(dBase(dElem(argsVar, dInt(0))))
	}
	return dCat(dStem(dBase(e)), dStr(drvSuffix[kind]))
}

// isOutput: intermediate code is written there because it is asked for.
func (x *drvPath) isOutput(v *dv) bool {
	if len(x.kinds) != 1 || x.kinds[0] != "ir" {
		return false
	}
	if x.norm(v).key == outVar.key {
		return true
	}
	for _, e := range elemsIn(v) {
		if o := x.outFor("ir", dElem(e.l, e.i)); o != nil && o.key == x.norm(v).key {
			return true
		}
	}
	return false
}

// drvUnits checks what is made of each input.
func (r *Rep) drvUnits(x *drvPath) {
	steps := false
	for _, f := range x.evs {
		if isStep(f.v) {
			steps = true
		}
	}
	_, fv := x.failed()
	if !steps {
		if x.ended() && x.success() {
			r.ob("driver:outputs", false, x.where(), "the command succeeds and does nothing (%s)", x.brief())
		}
		return
	}
	if !r.ob("driver:status", len(x.kinds) == 1, x.where(), "the kind of output is not settled when the work begins (%s)", x.brief()) {
		return
	}
	kind := x.kinds[0]
	// groups of events of one input
	type group struct {
		loop  *dloop
		whole bool
		cas   *dcase
		evs   []*dev
	}
	var groups []*group // those of loops first: what they make is used by the linking
	byCase := map[*dcase]*group{}
	top := &group{}
	var order []*fev
	for _, f := range x.evs {
		if f.v.kind == "print" || f.v.kind == "parseflags" || f.v.kind == "remove" {
			continue
		}
		order = append(order, f)
		if f.loop == nil {
			top.evs = append(top.evs, f.v)
			continue
		}
		g := byCase[f.cas]
		if g == nil {
			g = &group{loop: f.loop, whole: f.whole, cas: f.cas}
			byCase[f.cas] = g
			groups = append(groups, g)
		}
		g.evs = append(g.evs, f.v)
	}
	groups = append(groups, top)
	irOf := map[string]*dv{}   // where the code of an input is written, by case
	madeBy := map[*dcase]*dv{} // what each case writes
	var topIR *dv
	runs := 0
	var loops []*dloop
	wholeLoops := map[*dloop]bool{}
	for _, g := range groups {
		say := func(a *dv) (bool, bool) {
			if g.cas != nil {
				if v, k := litsSay(x.st, g.cas.lits, a); k {
					return v, k
				}
				// what earlier loops have shown of this input
				t := x.st.cheap()
				for _, l := range g.cas.lits {
					t.note(l)
				}
				t.univ = x.st.univ
				v, k, _ := t.decide(a)
				return v, k
			}
			v, k, _ := x.st.decide(a)
			return v, k
		}
		if g.loop != nil {
			if !wholeLoops[g.loop] {
				wholeLoops[g.loop] = true
				loops = append(loops, g.loop)
			}
			for _, v := range g.evs {
				if v.kind == "open" || v.kind == "run" {
					r.ob("driver:outputs", g.loop.n.key == dLen(argsVar).key, v.pos, "the loop does not run over all inputs but over %s", showD(g.loop.n))
				}
			}
		}
		r.compilation(x, g.evs, kind, say, g.loop, func(in, out *dv) {
			irOf[in.key] = out
			if g.cas != nil {
				madeBy[g.cas] = out
			} else {
				topIR = out
			}
		})
		for _, v := range g.evs {
			if v.kind != "run" {
				continue
			}
			runs++
			if kind == "ir" {
				r.ob("driver:args", false, v.pos, "a command is run although only intermediate code is asked for")
				continue
			}
			if kind == "exe" {
				r.ob("driver:args", g.loop == nil, v.pos, "the linking command is run for each input")
				r.linkArgs(x, v, topIR, madeBy)
				continue
			}
			// the input of this command
			var e *dv
			if g.loop != nil {
				e = dElem(argsVar, g.loop.k)
			} else {
				for _, q := range order {
					if q.loop == nil {
						for _, a := range q.v.args {
							for _, y := range elemsIn(x.norm(a)) {
								if y.l.key == argsVar.key {
									e = dElem(y.l, y.i)
								}
							}
						}
					}
				}
				if e == nil {
					e = dElem(argsVar, dInt(0))
				}
			}
			r.unitArgs(x, v, kind, e, irOf, say)
		}
	}
	if !x.ended() || fv != nil {
		return
	}
	// everything was done
	if kind == "exe" {
		r.ob("driver:outputs", runs == 1, x.where(), "%d commands are run to link", runs)
		return
	}
	// one output for each input: a loop over all, or the only one
	n := x.st.rangeOf(dLen(argsVar))
	topUnit := false
	for _, v := range top.evs {
		if kind == "ir" && v.kind == "create" || kind != "ir" && v.kind == "run" {
			topUnit = true
		}
	}
	done := topUnit && n.lo == 1 && n.hi == 1
	for _, l := range loops {
		w, all := true, true
		for _, f := range x.evs {
			if f.loop == l && !f.whole {
				w = false
			}
		}
		for _, c := range l.cases {
			has := false
			for _, v := range c.evs {
				if kind == "ir" && v.kind == "create" || kind != "ir" && v.kind == "run" {
					has = true
				}
			}
			if !has && !dcaseDead(x, l, c, kind) {
				all = false
			}
		}
		if w && all {
			done = true
		}
	}
	r.ob("driver:outputs", done, x.where(), "not every input gets its output (%s)", x.brief())
}

// dcaseDead: no accepted input is of this case.
func dcaseDead(x *drvPath, l *dloop, c *dcase, kind string) bool {
	t := x.st.cheap()
	for _, q := range c.lits {
		if v, k := t.basic(q.atom); k && v != q.val && !eventLit(q) {
			return true
		}
		t.note(q)
	}
	t.univ = x.st.univ
	for _, q := range c.lits {
		if eventLit(q) {
			continue
		}
		if _, _, dead := t.decide(mkd("dead?", "", 0, q.atom)); dead {
			return true
		}
	}
	return false
}

// compilation checks the steps from a source to its intermediate code.
func (r *Rep) compilation(x *drvPath, evs []*dev, kind string, say func(*dv) (bool, bool), loop *dloop, made func(in, out *dv)) {
	var open, comp, lex, parse, create *dev
	wrote := 0
	for _, v := range evs {
		switch v.kind {
		case "open":
			open, comp, lex, parse, create, wrote = v, nil, nil, nil, nil, 0
			in := x.norm(v.args[0])
			isIn := in.op == "elem" && in.a[0].key == argsVar.key
			r.ob("driver:args", isIn, v.pos, "%s is read, which is not an input", showD(in))
			if isIn {
				s, k := say(dEq(dExt(in), dStr(".b")))
				r.ob("driver:args", k && s, v.pos, "an input that may not be a B source is compiled (%s)", x.brief())
			}
		case "NewCompiler":
			comp = v
			r.options(x, v)
		case "NewLexer":
			lex = v
			r.options(x, v)
			ok := open != nil && len(v.args) > 1 && v.args[1].op == "sym" && v.args[1].n == open.id
			r.ob("driver:args", ok, v.pos, "the source read is not the file that was opened for it")
		case "parse":
			parse = v
			ok := lex != nil && comp != nil && len(v.args) > 1 && v.args[0].n == lex.id && v.args[1].n == comp.id
			r.ob("driver:args", ok, v.pos, "a source is compiled with what belongs to another one")
		case "create":
			create, wrote = v, 0
			if open == nil || parse == nil {
				r.ob("driver:args", false, v.pos, "%s is written before the source is compiled", showD(v.args[0]))
				break
			}
			e := x.norm(open.args[0])
			path := x.norm(v.args[0])
			if kind == "ir" {
				want := x.outFor("ir", e)
				if !r.ob("driver:outputs", want != nil, v.pos, "the name of the output is not settled (%s)", x.brief()) {
					break
				}
				r.ob("driver:outputs", path.key == x.norm(want).key, v.pos, "the intermediate code of %s is written to %s instead of %s", showD(e), showD(path), showD(want))
				made(e, path)
				break
			}
			suf := dHasSuffix(path, dStr(".ll"))
			r.ob("driver:args", suf.key == dTrue.key, v.pos, "the temporary file %s is not taken for intermediate code by the external compiler", showD(path))
			for _, o := range []*dv{outVar, x.outFor(kind, e), e} {
				if o != nil {
					r.ob("driver:temps", x.norm(o).key != path.key, v.pos, "the temporary file %s overwrites another file", showD(path))
				}
			}
			n := x.st.rangeOf(dLen(argsVar))
			if kind == "exe" && !(n.lo == 1 && n.hi == 1) {
				r.ob("driver:temps", oneToOne(path), v.pos, "several inputs may share the temporary file %s", showD(path))
			}
			made(e, path)
		case "write":
			wrote++
			ok := create != nil && v.args[0].op == "sym" && v.args[0].n == create.id && wrote == 1
			r.ob("driver:args", ok, v.pos, "the intermediate code is not written once to the file made for it")
			c := v.args[1]
			good := comp != nil && c.op == "app" && strings.HasSuffix(c.s, "ir.Module).String") && len(c.a) == 1 && contains(c.a[0], dSym("NewCompiler", comp.id).key)
			r.ob("driver:args", good, v.pos, "what is written is not the module made from the source: %s", showD(c))
		}
	}
	if create != nil && wrote == 0 {
		if v, k := say(dEq(create.err, dNil)); k && v {
			r.ob("driver:args", false, create.pos, "nothing is written to %s", showD(create.args[0]))
		}
	}
}

// options checks the options a compilation gets.
func (r *Rep) options(x *drvPath, v *dev) {
	s := v.args[0]
	found := 0
	if s.op == "struct" {
		for _, f := range s.a {
			if f.op == "int" && f.n == 8 {
				found |= 1
			}
			if f.op == "str" && f.s == "b." {
				found |= 2
			}
		}
	}
	r.ob("driver:options", found == 3, v.pos, "a source is compiled without the word size 8 or the prefix \"b.\": %s", showD(s))
}

// oneToOne: the number of the input is a delimited part of the name.
func oneToOne(v *dv) bool {
	l := []*dv{v}
	if v.op == "cat" {
		l = v.a
	}
	for i, p := range l {
		if p.op != "itoa" || p.a[0].op != "sym" || p.a[0].s != "k" {
			continue
		}
		digit := func(c byte) bool { return c >= '0' && c <= '9' }
		before := i > 0 && l[i-1].op == "str" && !digit(l[i-1].s[len(l[i-1].s)-1])
		if i == 0 {
			before = true
		}
		after := i+1 == len(l) || l[i+1].op == "str" && !digit(l[i+1].s[0])
		// what follows, or what precedes, is the same for all inputs
		fix := func(q []*dv) bool {
			for _, y := range q {
				for _, e := range elemsIn(y) {
					if e.i.op == "sym" {
						return false
					}
				}
			}
			return true
		}
		if before && after && (fix(l[:i]) || fix(l[i+1:])) {
			return true
		}
	}
	return false
}

// common options of the external compiler
func (r *Rep) flagArgs(x *drvPath, v *dev, args []*dv) (rest []*dv) {
	opt := ""
	for _, s := range []string{"0", "1", "2", "3"} {
		if v, k := x.st.basic(dEq(flagVar("optimize"), dStr(s))); k && v {
			opt = s
		}
	}
	dbg, known := x.flag("debug")
	nO, nG := 0, 0
	for _, a := range args {
		if a.op == "el" && a.a[0].op == "str" {
			s := a.a[0].s
			if strings.HasPrefix(s, "-O") {
				nO++
				r.ob("driver:args", s == "-O"+opt, v.pos, "the option %s is given for the optimization level %s", s, opt)
				continue
			}
			if s == "-g" {
				nG++
				r.ob("driver:args", known && dbg, v.pos, "debug information is asked for without -g (%s)", x.brief())
				continue
			}
		}
		rest = append(rest, a)
	}
	r.ob("driver:args", opt != "" && (nO == 1 || opt == "0" && nO == 0), v.pos, "the optimization level %q is passed on %d times (%s)", opt, nO, x.brief())
	r.ob("driver:args", known && (dbg && nG >= 1 || !dbg && nG == 0), v.pos, "debug information: -g is passed on %d times (%s)", nG, x.brief())
	return
}

// takeOut removes the output option from the arguments.
func takeOut(args []*dv) (out *dv, rest []*dv) {
	for i := 0; i < len(args); i++ {
		a := args[i]
		if a.op == "el" && a.a[0].op == "str" && a.a[0].s == "-o" && i+1 < len(args) && args[i+1].op == "el" && out == nil {
			out = args[i+1].a[0]
			i++
			continue
		}
		rest = append(rest, a)
	}
	return
}

func takeStr(args []*dv, s string) (n int, rest []*dv) {
	for _, a := range args {
		if a.op == "el" && a.a[0].op == "str" && a.a[0].s == s {
			n++
			continue
		}
		rest = append(rest, a)
	}
	return
}

func (r *Rep) runArgs(x *drvPath, v *dev) []*dv {
	r.ob("driver:args", v.args[0].op == "str" && v.args[0].s == "clang", v.pos, "%s is run instead of clang", showD(v.args[0]))
	ok := (v.args[2].op == "list" && len(v.args[2].a) == 0 || v.args[2].op == "nil") && v.args[3].op == "str" && v.args[3].s == ""
	r.ob("driver:args", ok, v.pos, "the command runs in another environment or directory")
	var norm []*dv
	for _, p := range x.parts(listParts(v.args[1])) {
		if p.op == "fm" {
			norm = append(norm, p)
			continue
		}
		norm = append(norm, x.norm(p))
	}
	if len(norm) == 0 {
		return nil
	}
	return norm[1:]
}

func showParts(l []*dv) string {
	var s []string
	for _, p := range l {
		s = append(s, showD(p))
	}
	return strings.Join(s, " ")
}

func (r *Rep) unitArgs(x *drvPath, v *dev, kind string, e *dv, irOf map[string]*dv, say func(*dv) (bool, bool)) {
	args := r.flagArgs(x, v, r.runArgs(x, v))
	out, args := takeOut(args)
	want := x.outFor(kind, e)
	if !r.ob("driver:outputs", want != nil, v.pos, "the name of the output is not settled (%s)", x.brief()) {
		return
	}
	r.ob("driver:outputs", out != nil && x.norm(out).key == x.norm(want).key, v.pos, "the output goes to %v instead of %s (%s)", showO(out), showD(want), x.brief())
	mode := map[string]string{"asm": "-S", "obj": "-c"}[kind]
	n, args := takeStr(args, mode)
	r.ob("driver:args", n == 1, v.pos, "the command does not ask for the output %s once (%s)", mode, x.brief())
	in := e
	isB, k := say(dEq(dExt(e), dStr(".b")))
	if !r.ob("driver:args", k, v.pos, "a command is run for an input whose kind was not looked at (%s)", x.brief()) {
		return
	}
	if isB {
		in = irOf[e.key]
		if !r.ob("driver:args", in != nil, v.pos, "the command is run without the intermediate code of its input (%s)", x.brief()) {
			return
		}
	}
	ok := len(args) == 1 && args[0].op == "el" && x.norm(args[0].a[0]).key == x.norm(in).key
	r.ob("driver:args", ok, v.pos, "the command gets %s instead of %s", showParts(args), showD(in))
}

func showO(v *dv) string {
	if v == nil {
		return "nothing"
	}
	return showD(v)
}

var drvDirs = []string{"/opt/homebrew/lib", "/opt/local/lib", "/usr/local/lib", "/usr/lib"}

func (r *Rep) linkArgs(x *drvPath, v *dev, topIR *dv, madeBy map[*dcase]*dv) {
	args := r.flagArgs(x, v, r.runArgs(x, v))
	out, args := takeOut(args)
	want := x.outFor("exe", nil)
	if !r.ob("driver:outputs", want != nil, v.pos, "the name of the output is not settled (%s)", x.brief()) {
		return
	}
	r.ob("driver:outputs", out != nil && x.norm(out).key == x.norm(want).key, v.pos, "the output goes to %v instead of %s (%s)", showO(out), showD(want), x.brief())
	for _, s := range []string{"-static", "-nostdlib"} {
		var n int
		n, args = takeStr(args, s)
		r.ob("driver:args", n == 1, v.pos, "%s is passed %d times to the linking command", s, n)
	}
	// what is left: the inputs, directories and libraries
	inputs, dirs, libs, lb := -1, []*dv{}, -1, -1
	var other []*dv
	for i, p := range args {
		switch {
		case p.op == "el" && p.a[0].op == "str" && p.a[0].s == "-lb" && lb < 0:
			lb = i
		case p.op == "el" && p.a[0].op == "str" && strings.HasPrefix(p.a[0].s, "-L"):
			dirs = append(dirs, p)
		case p.op == "el" && p.a[0].op == "cat" && p.a[0].a[0].op == "str" && strings.HasPrefix(p.a[0].a[0].s, "-L"):
			dirs = append(dirs, p)
		case p.op == "opt":
			dirs = append(dirs, p)
		case p.op == "fm":
			lp := p.ref.(*dloop)
			switch lp.n.key {
			case dLen(argsVar).key:
				if inputs >= 0 {
					other = append(other, p)
				}
				inputs = i
				r.inputList(x, v, p, madeBy)
			case dLen(flagVar("library-dir")).key:
				dirs = append(dirs, p)
			case dLen(flagVar("library")).key:
				if libs >= 0 || !prefixed(p, "-l", flagVar("library")) {
					other = append(other, p)
				}
				libs = i
			default:
				other = append(other, p)
			}
		case p.op == "el" && inputs < 0 && topIR != nil && x.norm(p.a[0]).key == topIR.key && nOne(x):
			inputs = i
		case p.op == "spread" && inputs < 0 && p.a[0].key == argsVar.key:
			inputs = i
			r.ob("driver:args", false, v.pos, "the inputs themselves are linked, not the code made from them")
		default:
			other = append(other, p)
		}
	}
	r.ob("driver:args", len(other) == 0, v.pos, "the linking command gets %s, which nobody asked for", showParts(other))
	r.ob("driver:args", inputs >= 0, v.pos, "the linking command does not get the inputs")
	r.ob("driver:args", lb > inputs, v.pos, "the runtime library is not linked after the inputs")
	r.ob("driver:args", libs > inputs, v.pos, "the libraries asked for are not linked after the inputs")
	r.libDirs(x, v, dirs)
}

func nOne(x *drvPath) bool {
	n := x.st.rangeOf(dLen(argsVar))
	return n.lo == 1 && n.hi == 1
}

// prefixed: each element of the list with a prefix.
func prefixed(p *dv, pre string, l *dv) bool {
	lp := p.ref.(*dloop)
	if p.s != "whole" || len(lp.cases) == 0 {
		return false
	}
	for _, c := range lp.cases {
		a := c.app[p.n]
		if len(a) != 1 || a[0].op != "el" || a[0].a[0].key != dCat(dStr(pre), dElem(l, lp.k)).key {
			return false
		}
	}
	return true
}

// inputList: the code of each source and every other input, in order.
func (r *Rep) inputList(x *drvPath, v *dev, p *dv, madeBy map[*dcase]*dv) {
	lp := p.ref.(*dloop)
	r.ob("driver:args", p.s == "whole", v.pos, "only some of the inputs are linked")
	for _, c := range lp.cases {
		if dcaseDead(x, lp, c, "exe") {
			continue
		}
		a := c.app[p.n]
		e := dElem(argsVar, lp.k)
		t := x.st.cheap()
		for _, l := range c.lits {
			t.note(l)
		}
		t.univ = x.st.univ
		isB, k, _ := t.decide(dEq(dExt(e), dStr(".b")))
		if !r.ob("driver:args", k, v.pos, "an input is linked whose kind was not looked at") {
			continue
		}
		want := e
		if isB {
			want = nil
			for q, o := range madeBy {
				if q == c || sameCase(q, c) {
					want = o
				}
			}
			if !r.ob("driver:args", want != nil, v.pos, "a source is linked without its intermediate code") {
				continue
			}
		}
		ok := len(a) == 1 && a[0].op == "el" && canonK(x.norm(a[0].a[0])) == canonK(x.norm(want))
		r.ob("driver:args", ok, v.pos, "for an input (%s) the linking command gets %s instead of %s", litsShow(c.lits), showParts(a), showD(want))
	}
}

func litsShow(l []dlit) string {
	var s []string
	for _, x := range l {
		if !eventLit(x) {
			s = append(s, x.String())
		}
	}
	return strings.Join(s, ", ")
}

// sameCase: the same condition on the input, apart from outcomes.
func sameCase(a, b *dcase) bool {
	f := func(c *dcase) string {
		var s []string
		for _, l := range c.lits {
			if !eventLit(l) {
				s = append(s, canonK(l.atom)+fmt.Sprint(l.val))
			}
		}
		sort.Strings(s)
		return strings.Join(s, ";")
	}
	return f(a) == f(b)
}

// libDirs: the directories of the system that exist, and those asked for in order.
func (r *Rep) libDirs(x *drvPath, v *dev, dirs []*dv) {
	home := dApp("getenv", dStr("HOME"))
	user := 0
	seen := map[string]bool{}
	good := func(path *dv, lits []dlit) bool {
		errOK, isDir := false, false
		for _, l := range lits {
			if l.val && l.atom.op == "eq" && l.atom.a[1].op == "nil" && l.atom.a[0].s == "stat.err" && len(l.atom.a[0].a) > 0 && l.atom.a[0].a[0].key == path.key {
				errOK = true
			}
			if l.val && l.atom.op == "app" && l.atom.s == "method:IsDir" && l.atom.a[0].s == "stat.info" && l.atom.a[0].a[0].key == path.key {
				isDir = true
			}
		}
		return errOK && isDir
	}
	homeKeys := map[string]bool{dApp("join", home, dStr(".local/lib")).key: true, dApp("join", home, dStr(".local"), dStr("lib")).key: true, dCat(home, dStr("/.local/lib")).key: true}
	known := func(path *dv) string {
		if path.op == "str" {
			for _, s := range drvDirs {
				if s == path.s {
					return s
				}
			}
		}
		if homeKeys[path.key] {
			return "$HOME/.local/lib"
		}
		return ""
	}
	one := func(a *dv, lits []dlit) {
		path := a
		switch {
		case a.op == "str" && strings.HasPrefix(a.s, "-L"):
			path = dStr(a.s[2:])
		case a.op == "cat" && a.a[0].op == "str" && strings.HasPrefix(a.a[0].s, "-L"):
			path = dCat(append([]*dv{dStr(a.a[0].s[2:])}, a.a[1:]...)...)
		default:
			r.ob("driver:args", false, v.pos, "the linking command gets %s", showD(a))
			return
		}
		n := known(path)
		r.ob("driver:args", n != "" && !seen[n], v.pos, "the directory %s is searched, which nobody asked for", showD(path))
		seen[n] = true
		r.ob("driver:args", good(path, append(append([]dlit{}, lits...), x.st.ord...)), v.pos, "the directory %s is searched whether or not it exists", showD(path))
		if n == "$HOME/.local/lib" {
			set := false
			for _, l := range append(append([]dlit{}, lits...), x.st.ord...) {
				if l.atom.key == dEq(home, dStr("")).key && !l.val {
					set = true
				}
			}
			r.ob("driver:args", set, v.pos, "the directory %s is searched although HOME may not be set", showD(path))
		}
	}
	for _, p := range dirs {
		switch p.op {
		case "el":
			one(p.a[0], nil)
		case "opt":
			for _, a := range p.a {
				one(a, p.ref.([]dlit))
			}
		case "fm":
			user++
			r.ob("driver:args", prefixed(p, "-L", flagVar("library-dir")), v.pos, "the directories asked for are not passed on in order: %s", showD(p))
		}
	}
	r.ob("driver:args", user == 1, v.pos, "the directories asked for are passed on %d times", user)
	for _, s := range append([]string{"$HOME/.local/lib"}, drvDirs...) {
		if seen[s] {
			continue
		}
		// not there: the path knows that it does not exist
		gone := false
		for _, l := range x.st.ord {
			if s[0] == '$' && l.atom.key == dEq(home, dStr("")).key && l.val {
				gone = true
			}
			for _, y := range l.atom.a {
				if y.op == "sym" && strings.HasPrefix(y.s, "stat.") && known(y.a[0]) == s && !l.val {
					gone = true
				}
			}
		}
		r.ob("driver:args", gone, v.pos, "the directory %s is not searched (%s)", s, x.brief())
	}
}

// drvTemps: temporary files are removed, and nothing else is.
func (r *Rep) drvTemps(x *drvPath, temps map[string]bool) {
	save, known := x.flag("save-temps")
	var made, gone []*fev
	for _, f := range x.evs {
		switch f.v.kind {
		case "create":
			if x.isOutput(f.v.args[0]) {
				continue
			}
			if f.loop == nil {
				if v, k := x.st.basic(dEq(f.v.err, dNil)); k && !v {
					continue // it was not made
				}
			}
			made = append(made, f)
		case "remove":
			gone = append(gone, f)
		case "rename":
			r.ob("driver:temps", false, f.v.pos, "a file is renamed")
		}
	}
	for _, g := range gone {
		key := canonK(x.norm(g.v.args[0]))
		r.ob("driver:temps", temps[key], g.v.pos, "%s is removed, which is not a temporary file", showD(g.v.args[0]))
		r.ob("driver:temps", known && !save, g.v.pos, "a temporary file is removed although temporaries may have to be kept (%s)", x.brief())
		// not before it is used
		for _, f := range x.evs {
			if f.v.kind != "run" {
				continue
			}
			if f.loop == nil && f.idx > g.idx && x.uses(f.v, g) {
				r.ob("driver:temps", false, g.v.pos, "%s is removed before the command that uses it", showD(g.v.args[0]))
			}
			if f.cas != nil && f.cas == g.cas && before(f.cas.evs, g.v, f.v) && contains(f.v.args[1], g.v.args[0].key) {
				r.ob("driver:temps", false, g.v.pos, "%s is removed before the command that uses it", showD(g.v.args[0]))
			}
		}
	}
	if known && save {
		r.ob("driver:temps", len(gone) == 0, x.where(), "a temporary file is removed although it is to be kept")
		return
	}
	for _, m := range made {
		ok := false
		for _, g := range gone {
			if g.idx < m.idx || g.idx == m.idx && g.cas == m.cas && m.cas != nil && before(m.cas.evs, g.v, m.v) {
				continue
			}
			if x.covers(g, m) {
				ok = true
			}
		}
		r.ob("driver:temps", ok, m.v.pos, "the temporary file %s is left behind when the command ends at %s (%s)", showD(m.v.args[0]), x.where(), x.brief())
	}
}

func before(l []*dev, a, b *dev) bool {
	ia, ib := -1, -1
	for i, v := range l {
		if v == a {
			ia = i
		}
		if v == b {
			ib = i
		}
	}
	return ia >= 0 && ib >= 0 && ia < ib
}

// uses: the command gets the file removed at g.
func (x *drvPath) uses(run *dev, g *fev) bool {
	for _, p := range x.parts(listParts(run.args[1])) {
		switch p.op {
		case "el":
			if g.loop == nil && x.norm(p.a[0]).key == x.norm(g.v.args[0]).key {
				return true
			}
		case "fm":
			for _, c := range p.ref.(*dloop).cases {
				for _, a := range c.app[p.n] {
					if a.op == "el" && canonK(x.norm(a.a[0])) == canonK(x.norm(g.v.args[0])) {
						return true
					}
				}
			}
		}
	}
	return false
}

// covers: the file made at m is removed at g.
func (x *drvPath) covers(g, m *fev) bool {
	gp, mp := x.norm(g.v.args[0]), x.norm(m.v.args[0])
	switch {
	case g.loop == nil && m.loop == nil:
		return gp.key == mp.key
	case g.loop == nil:
		return false
	case m.loop == nil:
		if !g.whole || canonK(gp) != canonK(mp) {
			return false
		}
		ok := false
		for _, e := range elemsIn(mp) {
			if dLen(e.l).key == g.loop.n.key {
				c := substCase(g.cas, func(t *dv) *dv {
					if t.key == g.loop.k.key {
						return e.i
					}
					return nil
				})
				ok = true
				for _, l := range c.lits {
					if v, k, _ := x.st.decide(l.atom); !eventLit(l) && l.atom.op != "lt" && !(k && v == l.val) {
						ok = false
					}
				}
			}
		}
		return ok
	}
	if g.cas == m.cas {
		return gp.key == mp.key
	}
	if g.loop.n.key != m.loop.n.key || canonK(gp) != canonK(mp) {
		return false
	}
	if m.whole && !g.whole || !g.whole && g.loop.k.key != m.loop.k.key {
		return false
	}
	for _, l := range g.cas.lits {
		if eventLit(l) || l.atom.op == "lt" {
			continue
		}
		a := dsubst(l.atom, g.loop.k.key, m.loop.k)
		v, k := litsSay(x.st, m.cas.lits, a)
		if !k || v != l.val {
			return false
		}
	}
	return true
}

// drvVerbose: progress is reported when asked for, and only then.
func (r *Rep) drvVerbose(x *drvPath) {
	v, k := x.flag("verbose")
	n := 0
	steps := false
	for _, f := range x.evs {
		if isStep(f.v) {
			steps = true
		}
	}
	for _, f := range x.evs {
		if f.v.kind == "print" && f.v.args[0].s == "stdout" {
			n++
			if steps {
				r.ob("driver:flags", k && v, f.v.pos, "progress is reported without -v")
			}
		}
	}
	if steps && x.ended() {
		r.ob("driver:flags", k && (!v || n > 0), x.where(), "-v reports nothing")
	}
}

type flagSpec struct {
	name, short, kind string
	def               []string
}

var drvFlagTable = []flagSpec{
	{"output", "o", "String", []string{`str""`}},
	{"save-temps", "", "Bool", []string{"bool"}},
	{"emit-llvm", "", "Bool", []string{"bool"}},
	{"compile", "c", "Bool", []string{"bool"}},
	{"assemble", "S", "Bool", []string{"bool"}},
	{"optimize", "O", "String", []string{`str"0"`, `str"1"`}},
	{"debug", "g", "Bool", []string{"bool"}},
	{"verbose", "v", "Bool", []string{"bool"}},
	{"library-dir", "L", "StringSlice", []string{"list", "nil"}},
	{"library", "l", "StringSlice", []string{"list", "nil"}},
	{"version", "V", "Bool", []string{"bool"}},
	{"help", "h", "Bool", []string{"bool"}},
}

func (r *Rep) drvFlags(p *Prog, d *drvRes) {
	if len(d.outs) == 0 {
		return
	}
	var best *dout
	for _, o := range d.outs {
		if best == nil || len(o.st.regs) > len(best.st.regs) {
			best = o
		}
	}
	by := map[string]*dreg{}
	cells := map[string]string{}
	short := map[string]string{}
	for _, g := range best.st.regs {
		r.ob("driver:flags", by[g.name] == nil, g.pos, "the flag --%s is defined twice", g.name)
		by[g.name] = g
		r.ob("driver:flags", cells[g.cell.key] == "", g.pos, "the flags --%s and --%s set the same option", g.name, cells[g.cell.key])
		cells[g.cell.key] = g.name
		if g.short != "" {
			r.ob("driver:flags", short[g.short] == "", g.pos, "the flag -%s is defined twice", g.short)
			short[g.short] = g.name
		}
	}
	for _, f := range drvFlagTable {
		g := by[f.name]
		if !r.ob("driver:flags", g != nil, "", "the flag --%s is not defined", f.name) {
			continue
		}
		r.ob("driver:flags", g.short == f.short, g.pos, "the short form of --%s is %q instead of %q", f.name, g.short, f.short)
		r.ob("driver:flags", g.kind == f.kind, g.pos, "the flag --%s is of the kind %s instead of %s", f.name, g.kind, f.kind)
		ok := false
		for _, k := range f.def {
			if g.def.key == k {
				ok = true
			}
		}
		r.ob("driver:flags", ok, g.pos, "the flag --%s is set to %s when it is not given", f.name, showD(g.def))
	}
	// a wrong flag shows how the command is used and fails
	for _, u := range d.e.usage {
		cl, ok := u.ref.(*dclo)
		if !ok {
			r.ob("driver:status", false, "", "the function that shows how the command is used is not known")
			continue
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.ob("driver:status", false, p.prog.Fset.Position(cl.fn.Pos()).String(), "%s cannot be analysed: %v", cl.fn.Name(), x)
				}
			}()
			st := newDst()
			for _, o := range d.e.call(cl.fn, nil, cl.binds, st, cl.fn.Pos()) {
				r.ob("driver:status", o.exit == nil || o.exit.op == "int" && o.exit.n != 0, o.pos, "a wrong flag ends the command with status 0")
			}
		}()
	}
}

const noteDrv = "main and the driver are interpreted abstractly on all their paths with unknown flags, files and outcomes of every call from outside; loops over the inputs are summarised by what one step does, and every end of the command is compared with what the options ask for."

func driverCheck(rules ...string) checkFn {
	return func(p *Prog, r *Rep) {
		s := newRep(r.prop, r.tier)
		r.notes = append(r.notes, noteDrv)
		s.driver(p)
		r.take(s, rules...)
		for _, x := range rules {
			if !strings.HasSuffix(x, ":") {
				r.need(x, 20)
			}
		}
	}
}

func init() {
	checks["DRV"] = driverCheck("driver:")
	checks["C18"] = driverCheck("driver:args", "driver:options", "driver:outputs", "driver:inputs", "driver:status")
	checks["C19"] = driverCheck("driver:temps", "driver:args")
	checks["C20"] = driverCheck("driver:outputs", "driver:inputs", "driver:args", "driver:status")
	checks["C21"] = driverCheck("driver:")
}
