package rt

import (
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Unit is what was analysed of one function on one machine.
type Unit struct {
	Machine, Function               string
	Paths, Steps, Calls, Insns      int
	Accesses, Arithmetic, Heads, Tr int
	Find                            []Finding
}

// Result is the outcome of the rules.
type Result struct {
	Units []*Unit
	Find  []Finding
	Count map[string]int
}

func newResult() *Result { return &Result{Count: map[string]int{}} }

func (r *Result) fail(kind, where, f string, a ...interface{}) {
	r.Find = append(r.Find, Finding{kind, where, fmt.Sprintf(f, a...)})
}

// libs loads the library for several machines at once.
func libs(repo string, ts []*Target) []*Lib {
	out := make([]*Lib, len(ts))
	var wg sync.WaitGroup
	for i, t := range ts {
		wg.Add(1)
		go func(i int, t *Target) { defer wg.Done(); out[i] = Load(repo, t) }(i, t)
	}
	wg.Wait()
	return out
}

// functions of the library and the property each belongs to.
var parts = map[string][]string{
	"C25": {"b.printd", "b.printo"},
	"C26": {"b.printf"},
	"C27": {"b.write", "b.writeb", "b.char", "b.lchar"},
	"C28": {"b.read", "b.nread", "b.nwrite", "b.flush", "b.exit", "_start"},
}

// Functions are the functions the library must have.
func Functions() []string {
	var out []string
	for _, p := range []string{"C25", "C26", "C27", "C28"} {
		out = append(out, parts[p]...)
	}
	sort.Strings(out)
	return out
}

// analyse interprets a function of the library and compares it with what it must do.
func analyse(l *Lib, name string) *Unit {
	u := &Unit{Machine: l.Target.Name, Function: name}
	var fn *Fn
	for _, m := range l.Mods {
		if f := m.Fns[name]; f != nil && !f.Decl && !f.Internal {
			fn = f
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		u.Find = append(u.Find, Finding{"output", "runtime", "the function " + name + " does not exist"})
		return u
	}
	e := newEng(l)
	e.sysnr = l.sysnr
	func() {
		defer func() {
			if x := recover(); x != nil {
				e.report("undecided", fn.Name, "the analysis fails: %v", x)
			}
		}()
		if name == "b.printf" {
			k := &lockstep{e: e, fn: fn, cuts: map[string]bool{}, gens: map[string]*Gen{}}
			k.run()
			u.Heads, u.Tr = k.heads, k.trans
			return
		}
		s0 := e.start(fn, nil)
		ends := e.run(s0)
		for _, s := range ends {
			e.ends(s, fn)
		}
		if len(ends) == 0 && len(e.find) == 0 {
			e.report("output", fn.Name, "%s never returns", name)
		}
	}()
	u.Paths, u.Steps, u.Calls, u.Insns, u.Accesses, u.Arithmetic = e.paths, e.steps, len(e.calls), len(e.insns), e.access, e.arith
	for k, f := range e.doubt {
		if !e.touched[k] {
			e.report(f.Kind, f.Where, "%s", f.Msg)
		}
	}
	u.Find = e.find
	return u
}

// ends compares the end of a path with what the function must do, by cases where needed.
func (e *Eng) ends(s *State, fn *Fn) {
	work := []*State{s}
	for n := 0; len(work) > 0; n++ {
		t := work[0]
		work = work[1:]
		bad, a := func() (bad string, a *amb) {
			defer func() {
				if x := recover(); x != nil {
					if sp, is := x.(split); is {
						bad, a = "", &amb{sub(atom(sp.a), numB(sp.at)), "<"}
						return
					}
					panic(x)
				}
			}()
			return t.ending(fn.Name)
		}()
		if a != nil {
			yes, no, ok := ask(t, a)
			if !ok || n > 3000 {
				e.report("undecided", fn.Name, "cases that cannot be told apart: %s", a.d)
				return
			}
			work = append(append(work, yes...), no...)
			continue
		}
		if bad != "" {
			if strings.HasPrefix(bad, "runtime/") {
				k := strings.Index(bad, ": ")
				e.report("output", bad[:k], "%s%s", bad[k+2:], t.example())
			} else {
				e.report("output", fmt.Sprintf("%s:%d (%s)", fn.File, fn.Line, fn.Name), "%s%s", bad, t.example())
			}
			return
		}
	}
}

// sysEvents gives the system calls of a path.
func (s *State) sysEvents() (out []*Event, other *Event) {
	for _, ev := range s.ev {
		if ev.kind == "sys" {
			out = append(out, ev)
		} else if other == nil {
			other = ev
		}
	}
	return
}

func (s *State) numIs(v Val, want *Lin, w int) bool {
	return !v.undef && v.obj == nil && v.fn == nil && s.sameBits(v.l, want, w)
}

// ending says what is wrong with the end of a path, or what must be known first.
func (s *State) ending(name string) (string, *amb) {
	e := s.e
	arg := func(i int64) *Lin { return e.argument(i) }
	if s.exited && name != "b.exit" && name != "_start" {
		return "the program is ended", nil
	}
	bytes := func(f func() ([]*Lin, *amb)) (string, *amb) {
		out, at, err := s.written()
		if err != "" {
			return err, nil
		}
		if err := s.fds(); err != "" {
			return err, nil
		}
		want, a := f()
		if a != nil {
			return "", a
		}
		for i, w := range want {
			if i >= len(out) {
				return fmt.Sprintf("%d bytes are written instead of %d", len(out), len(want)), nil
			}
			if !s.byteIs(out[i], w) {
				return fmt.Sprintf("%s: byte %d of %d written is %s instead of %s", place(at[i].ins, at[i].fn), i+1, len(want), show(out[i]), w), nil
			}
		}
		if len(out) > len(want) {
			return fmt.Sprintf("%d bytes are written instead of %d", len(out), len(want)), nil
		}
		return "", nil
	}
	nothing := func() string {
		for _, ev := range s.ev {
			what := map[string]string{"sys": "a system call that does not belong here", "store": "memory outside of the library is changed", "global": "a variable of the library is changed", "call": "a function is called that does not belong here"}[ev.kind]
			return place(ev.ins, ev.fn) + ": " + what
		}
		return ""
	}
	only := func(addr *Lin) string {
		for _, ev := range s.loads {
			n := ev.args[1].l.c.Int64()
			if !s.sameBits(ev.args[0].l, addr, 64) || n != 1 {
				return fmt.Sprintf("%s: %d bytes are read at %s instead of the one at %s", place(ev.ins, ev.fn), n, ev.args[0].l, addr)
			}
		}
		return ""
	}
	noLoads := func() string {
		for _, ev := range s.loads {
			return place(ev.ins, ev.fn) + ": memory outside of the library is read"
		}
		return ""
	}
	oneCall := func(nr string) (string, *Event) {
		evs, other := s.sysEvents()
		if other != nil {
			return nothingOf(other), nil
		}
		if len(evs) != 1 {
			return fmt.Sprintf("%d system calls are made instead of one", len(evs)), nil
		}
		if evs[0].nr != e.sysnr[nr] {
			return fmt.Sprintf("%s: system call number %d is made instead of %s", place(evs[0].ins, evs[0].fn), evs[0].nr, nr), nil
		}
		return "", evs[0]
	}
	result := func(want *Lin) string {
		if s.ret == nil || !s.numIs(*s.ret, want, 64) || s.ret.w != 64 {
			got := "nothing"
			if s.ret != nil {
				got = show(*s.ret)
			}
			return fmt.Sprintf("the result is %s instead of %s", got, want)
		}
		return ""
	}
	if m := noLoads(); m != "" && name != "b.char" && name != "b.lchar" {
		return m, nil
	}
	switch name {
	case "b.printd":
		return bytes(func() ([]*Lin, *amb) { return s.decimal(arg(0)) })
	case "b.printo":
		return bytes(func() ([]*Lin, *amb) { return s.digits(s.uval(arg(0), 64), 8) })
	case "b.write":
		return bytes(func() ([]*Lin, *amb) { return s.chars(arg(0)) })
	case "b.writeb":
		return bytes(func() ([]*Lin, *amb) { return []*Lin{s.fmod(s.again(arg(0)), bi(256))}, nil })
	case "b.char":
		if m := nothing(); m != "" {
			return m, nil
		}
		at := s.wrap(add(s.again(arg(0)), s.again(arg(1))), 64)
		if m := only(at); m != "" {
			return m, nil
		}
		return result(s.again(e.byteAt(s.wrap(add(arg(0), arg(1)), 64), 0))), nil
	case "b.lchar":
		if len(s.ev) != 1 || s.ev[0].kind != "store" {
			for _, ev := range s.ev {
				if ev.kind != "store" {
					return nothing(), nil
				}
			}
			return fmt.Sprintf("memory is changed at %d places instead of one", len(s.ev)), nil
		}
		ev := s.ev[0]
		at := s.wrap(add(s.again(arg(0)), s.again(arg(1))), 64)
		if m := only(at); m != "" {
			return m, nil
		}
		p, n, v := ev.args[0], ev.args[1].l.c.Int64(), ev.args[2]
		if n != 1 || !s.sameBits(p.l, at, 64) {
			return fmt.Sprintf("%s: %d bytes are changed at %s instead of the one at %s", place(ev.ins, ev.fn), n, p.l, at), nil
		}
		if !s.byteIs(v, s.again(arg(2))) {
			return fmt.Sprintf("%s: %s is stored instead of the character", place(ev.ins, ev.fn), show(v)), nil
		}
	case "b.nread", "b.nwrite":
		nr := name[len("b.n"):]
		m, ev := oneCall(nr)
		if m != "" {
			return m, nil
		}
		for i, w := range []int{32, 64, 64} {
			if !s.numIs(ev.args[i], arg(int64(i)), w) {
				return fmt.Sprintf("%s: argument %d of the system call is %s instead of %s", place(ev.ins, ev.fn), i+1, show(ev.args[i]), arg(int64(i))), nil
			}
		}
		return result(ev.res), nil
	case "b.read":
		m, ev := oneCall("read")
		if m != "" {
			return m, nil
		}
		if !s.numIs(ev.args[0], num(0), 32) {
			return fmt.Sprintf("%s: file %s is read instead of the standard input", place(ev.ins, ev.fn), show(ev.args[0])), nil
		}
		if !ev.local || !s.numIs(ev.args[2], num(1), 64) {
			return fmt.Sprintf("%s: %s bytes are read instead of one", place(ev.ins, ev.fn), show(ev.args[2])), nil
		}
		// of the system: at most as many bytes as asked for, or a negative number
		r := s.rng(s.again(ev.res))
		if r.lo.Cmp(r.hi) != 0 && r.lo.Cmp(one) <= 0 && r.hi.Cmp(one) >= 0 {
			return "", &amb{plus(ev.res, -1), "=="}
		}
		if r.lo.Cmp(one) != 0 || r.hi.Cmp(one) != 0 {
			// results other than one, zero and negative numbers do not happen
			if r.lo.Cmp(bi(2)) >= 0 && r.hi.Cmp(pow2(63)) < 0 {
				return "", nil
			}
			if m := result(num(4)); m != "" {
				return "at the end of the file or after an error: " + m, nil
			}
			return "", nil
		}
		c := s.again(ev.bytes[0].l)
		cr := s.rng(c)
		if cr.lo.Cmp(bi(128)) < 0 && cr.hi.Cmp(bi(128)) >= 0 {
			return "", &amb{plus(c, -128), "<"}
		}
		if cr.lo.Cmp(bi(128)) >= 0 {
			return result(num(0)), nil
		}
		return result(c), nil
	case "b.flush":
		return nothing(), nil
	case "b.exit":
		if len(s.ev) == 0 || s.ev[0].kind != "sys" || !s.exited || len(s.ev) != 1 {
			if m := nothing(); m != "" && !s.exited {
				return m, nil
			}
			if len(s.ev) > 1 {
				return nothing(), nil
			}
			return "the program does not end", nil
		}
		if !s.numIs(s.ev[0].args[0], num(0), 8) {
			return fmt.Sprintf("%s: the exit status is %s instead of 0", place(s.ev[0].ins, s.ev[0].fn), show(s.ev[0].args[0])), nil
		}
	case "_start":
		if len(s.ev) != 2 || s.ev[0].kind != "call" || s.ev[0].fn != "main" || !s.exited {
			if len(s.ev) > 0 && (s.ev[0].kind != "call" || s.ev[0].fn != "main") {
				return nothing(), nil
			}
			return "main is not called once before the program ends", nil
		}
		if !s.numIs(s.ev[1].args[0], s.ev[0].res, 8) {
			return fmt.Sprintf("%s: the exit status is %s instead of the value of main", place(s.ev[1].ins, s.ev[1].fn), show(s.ev[1].args[0])), nil
		}
	}
	return "", nil
}

func nothingOf(ev *Event) string {
	what := map[string]string{"sys": "a system call that does not belong here", "store": "memory outside of the library is changed", "global": "a variable of the library is changed", "call": "a function is called that does not belong here"}[ev.kind]
	return place(ev.ins, ev.fn) + ": " + what
}

// Check applies the rules of a property.
func Check(repo, prop string) *Result {
	r := newResult()
	linux := Targets[:3]
	switch prop {
	case "C25", "C26", "C27", "C28", "C29":
		ls := libs(repo, linux)
		var names []string
		if prop == "C29" {
			names = Functions()
		} else {
			names = parts[prop]
		}
		r.units(ls, names)
		if r.loadErr(ls) {
			return r
		}
		for _, u := range r.Units {
			for _, f := range u.Find {
				// C29 is about memory only; a function that leaves its memory or whose arithmetic overflows
				// does not do what it must either
				if prop != "C29" || f.Kind == "memory" || f.Kind == "undecided" {
					r.Find = append(r.Find, Finding{f.Kind, f.Where, f.Msg + " [" + u.Machine + "]"})
				}
			}
		}
		switch prop {
		case "C27":
			r.fout(ls)
		case "C28":
			r.startCode(ls)
		case "C29":
			r.symbolsUsed(repo, ls)
		}
	case "C30":
		ls := libs(repo, Targets)
		if r.loadErr(ls) {
			return r
		}
		for _, l := range ls {
			r.stubs(l)
		}
	case "C17":
		ls := libs(repo, linux)
		if r.loadErr(ls) {
			return r
		}
		for _, l := range ls {
			r.names(l)
		}
	}
	return r
}

func (r *Result) loadErr(ls []*Lib) bool {
	for _, l := range ls {
		if l.Err != nil {
			r.fail("undecided", "runtime", "%v", l.Err)
			return true
		}
	}
	return false
}

func (r *Result) units(ls []*Lib, names []string) {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, l := range ls {
		if l.Err != nil {
			continue
		}
		wg.Add(1)
		// one library is not analysed by two at a time
		go func(l *Lib) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			for _, n := range names {
				u := analyse(l, n)
				mu.Lock()
				r.Units = append(r.Units, u)
				mu.Unlock()
			}
		}(l)
	}
	wg.Wait()
	sort.Slice(r.Units, func(i, j int) bool {
		a, b := r.Units[i], r.Units[j]
		return a.Function+a.Machine < b.Function+b.Machine
	})
	for _, u := range r.Units {
		r.Count["paths"] += u.Paths + u.Tr
		r.Count["accesses"] += u.Accesses
		r.Count["operations"] += u.Arithmetic
		r.Count["instructions"] += u.Insns
	}
}

// fout says that output goes to the standard output at the start.
func (r *Result) fout(ls []*Lib) {
	for _, l := range ls {
		found := false
		for _, m := range l.Mods {
			g := m.Globs["b.fout"]
			if g == nil || g.Extern {
				continue
			}
			found = true
			r.Count["variables"]++
			if g.T.size() != 8 || g.Init == nil || g.Init.Int == nil || g.Init.Int.Sign() != 0 {
				r.fail("output", m.File, "the variable fout is not a word that is zero at the start [%s]", l.Target.Name)
			}
		}
		if !found {
			r.fail("output", "runtime", "there is no variable fout [%s]", l.Target.Name)
		}
	}
}

// startCode looks at the properties of the entry point that are not in its instructions.
func (r *Result) startCode(ls []*Lib) {
	for _, l := range ls {
		f := l.resolve(&Mod{}, "_start")
		if f == nil {
			continue
		}
		r.Count["entry points"]++
		if l.Target.Arch == "x86_64" && !strings.Contains(f.Attrs, "stackrealign") {
			r.fail("output", fmt.Sprintf("%s:%d (_start)", f.File, f.Line), "the stack is not aligned as functions expect it when main is called [%s]", l.Target.Name)
		}
		if len(f.Params) != 0 {
			r.fail("output", f.File, "the entry point takes arguments, which the system does not pass [%s]", l.Target.Name)
		}
	}
}

// symbolsUsed says which symbols the library needs from elsewhere.
func (r *Result) symbolsUsed(repo string, ls []*Lib) {
	for _, l := range ls {
		defined := map[string]bool{}
		for _, m := range l.Mods {
			for _, f := range m.Order {
				if !f.Decl && !f.Internal {
					defined[f.Name] = true
				}
			}
			for _, g := range m.Globs {
				if !g.Extern && !g.Internal {
					defined[g.Name] = true
				}
			}
		}
		for _, m := range l.Mods {
			for _, a := range m.Assert {
				r.fail("undecided", m.File, "a declaration that is not understood: %s [%s]", a, l.Target.Name)
			}
			for _, f := range m.Order {
				if !f.Decl || strings.HasPrefix(f.Name, "llvm.") || strings.HasPrefix(f.Name, "__vva") {
					continue
				}
				r.Count["references"]++
				if !defined[f.Name] && f.Name != "main" {
					r.fail("memory", m.File, "the library refers to the symbol %s, which it does not define [%s]", f.Name, l.Target.Name)
				}
			}
			for _, g := range m.Globs {
				if !g.Extern {
					continue
				}
				r.Count["references"]++
				if !defined[g.Name] {
					r.fail("memory", m.File, "the library refers to the symbol %s, which it does not define [%s]", g.Name, l.Target.Name)
				}
			}
		}
	}
	r.objects(repo)
}

// objects looks at the symbols the compilers add: the files are compiled with the options of
// the Makefile, and the symbol tables of the objects are read.
func (r *Result) objects(repo string) {
	dir := filepath.Join(repo, "runtime")
	mem, err := members(dir)
	if err != nil {
		r.fail("undecided", "runtime", "%v", err)
		return
	}
	var flags []string
	for _, l := range strings.Split(readFile(filepath.Join(dir, "Makefile")), "\n") {
		c := strings.ReplaceAll(l, " ", "")
		if strings.HasPrefix(c, "CFLAGS=") || strings.HasPrefix(c, "CFLAGS+=") {
			for _, f := range strings.Fields(l[strings.Index(l, "=")+1:]) {
				if strings.HasPrefix(f, "-") && !strings.Contains(f, "$") {
					flags = append(flags, f)
				}
			}
		}
	}
	tmp, err := os.MkdirTemp("", "blangobj")
	if err != nil {
		r.fail("undecided", "runtime", "%v", err)
		return
	}
	defer os.RemoveAll(tmp)
	for _, cc := range []string{"gcc", "clang"} {
		if _, err := exec.LookPath(cc); err != nil {
			continue
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		defined, used := map[string]bool{}, map[string]string{}
		for i, c := range mem {
			wg.Add(1)
			go func(i int, c string) {
				defer wg.Done()
				o := filepath.Join(tmp, fmt.Sprintf("%s%d.o", cc, i))
				cmd := exec.Command(cc, append(append([]string{}, flags...), "-w", "-c", "-o", o, c)...)
				cmd.Dir = dir
				b, err := cmd.CombinedOutput()
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					r.fail("undecided", "runtime/"+c, "%s does not accept the file: %s", cc, first(string(b)))
					return
				}
				out, err := exec.Command("nm", "-P", o).Output()
				if err != nil {
					r.fail("undecided", "runtime/"+c, "the symbols cannot be read: %v", err)
					return
				}
				for _, l := range strings.Split(string(out), "\n") {
					f := strings.Fields(l)
					if len(f) < 2 {
						continue
					}
					switch f[1] {
					case "U", "w", "v":
						used[f[0]] = "runtime/" + c
					case "T", "D", "B", "R", "C", "W", "V":
						defined[f[0]] = true
					}
				}
			}(i, c)
		}
		wg.Wait()
		var ks []string
		for k := range used {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			r.Count["references"]++
			if !defined[k] && k != "main" && k != "_GLOBAL_OFFSET_TABLE_" {
				r.fail("memory", used[k], "the object made by %s refers to the symbol %s, which the library does not define", cc, k)
			}
		}
	}
}

// stubs checks the machine code of the system calls of a machine.
func (r *Result) stubs(l *Lib) {
	seen := map[string]bool{}
	n := 0
	for _, m := range l.Mods {
		for _, a := range m.Assert {
			if strings.HasPrefix(a, "module asm") {
				r.fail("undecided", m.File, "machine code outside of functions: %s [%s]", a, l.Target.Name)
			}
		}
		for _, f := range m.Order {
			has := false
			for _, b := range f.Blocks {
				for _, in := range b.Ins {
					if in.Op != "asm" {
						continue
					}
					has = true
					n++
					r.Count["pieces of machine code"]++
					where := place(in, f.Name)
					st, err := stub(l.Target, in)
					if err != "" {
						r.fail("output", where, "%s [%s]", err, l.Target.Name)
						continue
					}
					for _, b := range st.bad {
						k := where + b
						if !seen[k] {
							seen[k] = true
							r.fail("output", where, "%s [%s]", b, l.Target.Name)
						}
					}
				}
			}
			if !has {
				continue
			}
			wide := len(f.Params) == 4
			for _, p := range f.Params {
				wide = wide && bits(p) == 64
			}
			if !wide {
				continue
			}
			r.stubFlow(l, f)
		}
	}
	if n == 0 {
		r.fail("output", "runtime", "there is no system call [%s]", l.Target.Name)
	}
}

// stubFlow says that number and arguments reach the system call and its result comes back.
func (r *Result) stubFlow(l *Lib, f *Fn) {
	e := newEng(l)
	e.sysnr = l.sysnr
	r.Count["stubs"]++
	where := fmt.Sprintf("%s:%d (%s)", f.File, f.Line, f.Name)
	defer func() {
		if x := recover(); x != nil {
			r.fail("undecided", where, "the analysis fails: %v [%s]", x, l.Target.Name)
		}
	}()
	s := e.start(f, nil)
	nr := e.argument(0)
	s.cons["arg0"] = Iv{zero, bi(65535)}
	want := nr
	if l.Target.Apple && l.Target.Arch == "x86_64" {
		want = plus(nr, 0x2000000)
	}
	for _, t := range e.run(s) {
		if len(t.ev) != 1 || t.ev[0].kind != "stub" {
			r.fail("output", where, "not one system call is made with the number given [%s]", l.Target.Name)
			continue
		}
		ev := t.ev[0]
		for i, v := range ev.args {
			w := e.argument(int64(i))
			what := fmt.Sprintf("argument %d", i)
			if i == 0 {
				w, what = want, "the number"
			}
			if !t.numIs(v, w, 64) {
				r.fail("output", where, "%s of the system call is %s instead of %s [%s]", what, show(v), w, l.Target.Name)
			}
		}
		if t.ret != nil && !t.numIs(*t.ret, ev.res, t.ret.w) || t.ret == nil && f.Ret.Kind != "void" {
			r.fail("output", where, "the result of the system call is not passed on [%s]", l.Target.Name)
		}
		if t.ret != nil && t.ret.w < 64 {
			r.fail("output", where, "a part of the result of the system call is lost [%s]", l.Target.Name)
		}
	}
	for _, x := range e.find {
		r.fail(x.Kind, x.Where, "%s [%s]", x.Msg, l.Target.Name)
	}
}

// names checks the symbols of the library.
func (r *Result) names(l *Lib) {
	by := map[string]string{}
	for _, m := range l.Mods {
		put := func(n string) {
			r.Count["symbols"]++
			if o := by[n]; o != "" && o != m.File {
				r.fail("output", m.File, "the symbol %s is also defined in %s [%s]", n, o, l.Target.Name)
			}
			by[n] = m.File
			if n == "main" {
				r.fail("output", m.File, "the library defines the symbol main of programs [%s]", l.Target.Name)
			}
		}
		for _, f := range m.Order {
			if !f.Decl && !f.Internal {
				put(f.Name)
			}
		}
		for _, g := range m.Globs {
			if !g.Extern && !g.Internal {
				put(g.Name)
			}
		}
	}
	for _, n := range append(Functions(), "b.fout") {
		r.Count["symbols"]++
		if by[n] == "" {
			r.fail("output", "runtime", "no file of the library defines the symbol %s [%s]", n, l.Target.Name)
		}
	}
}

var _ = big.NewInt
