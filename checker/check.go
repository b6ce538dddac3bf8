package main

// Checks, their obligations and their reports.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rep collects what a check found.
type Rep struct {
	prop  string
	tier  string
	viol  []string
	seen  map[string]bool
	count map[string]int // obligations by rule
	okc   map[string]int // discharged obligations by rule
	units []map[string]interface{}
	notes []string
	min   map[string]int // instances a rule must have
	start time.Time
	files map[string]bool
	rule  map[string]string // rule of a violation
	uses  []nameUse         // forms of the names of blocks
	repo  string
}

func newRep(prop, tier string) *Rep {
	return &Rep{prop: prop, tier: tier, seen: map[string]bool{}, count: map[string]int{}, okc: map[string]int{}, min: map[string]int{}, start: time.Now(), files: map[string]bool{}, rule: map[string]string{}}
}

// ob records an obligation of a rule.
func (r *Rep) ob(rule string, holds bool, where, format string, a ...interface{}) bool {
	r.count[rule]++
	if holds {
		r.okc[rule]++
		return true
	}
	r.fail(rule, where, format, a...)
	return false
}

func (r *Rep) fail(rule, where, format string, a ...interface{}) {
	if where == "" {
		where = "-"
	}
	s := fmt.Sprintf("%s: %s: %s", where, rule, fmt.Sprintf(format, a...))
	if !r.seen[s] {
		r.seen[s] = true
		r.viol = append(r.viol, s)
		r.rule[s] = rule
	}
}

// take merges what another report found by some of its rules; whatever means that
// nothing was decided is always taken.
func (r *Rep) take(s *Rep, rules ...string) {
	rules = append(rules, "analysis", "anchors", "load")
	in := func(x string) bool {
		for _, p := range rules {
			if x == p || strings.HasSuffix(p, ":") && strings.HasPrefix(x, p) {
				return true
			}
		}
		return false
	}
	for _, v := range s.viol {
		if in(s.rule[v]) && !r.seen[v] {
			r.seen[v] = true
			r.viol = append(r.viol, v)
			r.rule[v] = s.rule[v]
		}
	}
	for k, n := range s.count {
		if in(k) {
			r.count[k] += n
			r.okc[k] += s.okc[k]
		}
	}
	for k, n := range s.min {
		if in(k) {
			r.min[k] = n
		}
	}
	for f := range s.files {
		r.files[f] = true
	}
	r.units = append(r.units, s.units...)
	r.notes = append(r.notes, s.notes...)
	r.uses = append(r.uses, s.uses...)
}

// need asks for a minimal number of instances of a rule: a rule without instances shows nothing.
func (r *Rep) need(rule string, n int) { r.min[rule] = n }

type checkFn func(p *Prog, r *Rep)

var checks = map[string]checkFn{}

func runCheck(id, tier, repo, verif string) int {
	r := newRep(id, tier)
	f := checks[id]
	if f == nil {
		fmt.Println("no check", id)
		return 1
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("BLANG_PANIC") != "" {
					panic(x)
				}
				r.fail("analysis", "", "the analysis broke off: %v", x)
			}
		}()
		r.repo = repo
		if runtimeOnly[id] {
			f(nil, r)
			return
		}
		p, err := loadProg(repo)
		if err != nil {
			r.fail("load", repo, "the program cannot be loaded: %v", err)
			return
		}
		f(p, r)
	}()
	for rule, n := range r.min {
		if r.count[rule] < n {
			r.fail(rule, "", "only %d of at least %d expected instances were found", r.count[rule], n)
		}
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), id)
	var viol []string
	for _, v := range r.viol {
		k := ""
		for _, x := range known {
			if strings.Contains(v, x) {
				k = x
			}
		}
		if k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v)
			continue
		}
		viol = append(viol, v)
	}
	tot, ok := 0, 0
	rules := map[string]string{}
	for k, n := range r.count {
		tot += n
		ok += r.okc[k]
		rules[k] = fmt.Sprintf("%d of %d", r.okc[k], n)
	}
	var keys []string
	for k := range rules {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("%s: %s: %s obligations hold\n", id, k, rules[k])
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var files []string
	for f := range r.files {
		files = append(files, f)
	}
	sort.Strings(files)
	cov := map[string]interface{}{
		"explanation": "Static analysis of the source in the working tree of /repo: " + strings.Join(r.notes, " "),
		"obligations": tot, "discharged": ok, "rules": rules, "units": r.units, "violations": viol,
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(r.start).Seconds()*100)) / 100,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		return 1
	}
	if len(viol) > 0 {
		path := filepath.Join(verif, "evidence", id+".violations.txt")
		os.WriteFile(path, []byte(strings.Join(viol, "\n")+"\n"), 0o644)
		for i, v := range viol {
			if i == 40 {
				fmt.Printf("... and %d more in %s\n", len(viol)-i, path)
				break
			}
			fmt.Println(v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	os.Remove(filepath.Join(verif, "evidence", id+".violations.txt"))
	fmt.Printf("%s holds: %d obligations\n", id, tot)
	return 0
}

// loadKnown reads the findings recorded for a property: "finding: property=ID <text of the report>".
func loadKnown(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []string
	for _, l := range strings.Split(string(b), "\n") {
		p := "finding: property=" + id + " "
		if strings.HasPrefix(l, p) {
			r = append(r, strings.TrimSpace(l[len(p):]))
		}
	}
	return r
}

// Unit is the analysis of one function in one context.
type Unit struct {
	Name string
	E    *Eng
	M    *Machine
	Outs []Out
	Args []Val
	St   *State
}

// unit analyses a function; lexical units keep the lexer functions other than the
// analysed one as calls, too.
func (r *Rep) unit(p *Prog, name string, set map[int]Val) *Unit { return r.unitX(p, name, set, nil) }

func (r *Rep) unitX(p *Prog, name string, set map[int]Val, prep func(e *Eng, st *State)) *Unit {
	fn := p.fn(name)
	if fn == nil {
		r.ob("anchors", false, "", "function %s not found", name)
		return nil
	}
	e := p.engine()
	st, err := e.setup()
	if err != nil {
		r.ob("anchors", false, "", "%v", err)
		return nil
	}
	e.addCuts()
	delete(e.cuts, fn)
	if prep != nil {
		prep(e, st)
	}
	s0 := st.clone()
	outs, args, err := e.analyse(fn, st, set)
	if err != nil {
		r.ob("analysis", false, name, "%v", err)
		return nil
	}
	u := &Unit{Name: name, E: e, Outs: outs, Args: args, St: s0}
	u.M = e.machine(name, s0, args, outs)
	undec := map[string]bool{}
	for _, o := range outs {
		for _, x := range o.st.undec {
			undec[x] = true
		}
	}
	for _, l := range e.loops {
		for _, t := range l.Trans {
			for _, x := range t.St.undec {
				undec[x] = true
			}
		}
	}
	stores := func(l []*Event) {
		for _, ev := range l {
			if ev.Kind == "elemstore" {
				undec["an element of a list is replaced at "+e.pos(ev.Pos)] = true
			}
		}
	}
	for _, x := range u.M.Edges {
		stores(x.Evs)
	}
	for _, l := range e.loops {
		for _, t := range l.Trans {
			stores(t.Evs)
		}
	}
	for x := range undec {
		r.fail("analysis", e.pos(fn.Pos()), "%s is not decided: %s", name, x)
	}
	for k, o := range e.ops {
		r.ob("panics", o.open == 0, k, "%s: this operation may fail at run time (%d of %d times met)", name, o.open, o.n)
	}
	for _, o := range outs {
		r.ob("panics", o.kind != "panic", e.pos(o.pos), "%s: the compiler may crash here", name)
	}
	r.ob("analysis", len(undec) == 0, e.pos(fn.Pos()), "%s is not decided", name)
	key := name
	if name == exprFn {
		for i := range set {
			if n, ok := constInt(set[i]); ok {
				key = fmt.Sprintf("%s/%d", name, n)
			}
		}
	}
	r.terminates(p, u, key)
	ev := 0
	for _, x := range u.M.Edges {
		ev += len(x.Evs)
	}
	for f := range e.covered {
		r.files[p.prog.Fset.Position(f.Pos()).Filename] = true
	}
	r.units = append(r.units, map[string]interface{}{"function": name, "at": e.pos(fn.Pos()), "paths": len(outs), "pieces": len(u.M.Edges),
		"loops": len(u.M.Loops), "events": ev, "steps": e.steps, "functions": len(e.covered), "blocks": len(e.coverBl)})
	return u
}

// errClass sorts the ends of a function by its error result.
func (u *Unit) errClass(x *Edge) string {
	if x.Out == nil {
		return ""
	}
	if x.Out.kind != "ret" || len(x.Out.res) == 0 {
		return "error"
	}
	switch x.Out.st.nilness(x.Out.res[len(x.Out.res)-1]) {
	case 1:
		return "ok"
	case 0:
		return "error"
	}
	return "unknown"
}

// eachHeld applies rules to a function under the two readings of a character that is
// in hand at a loop head, as consumed or as still to be consumed; one of them must fit.
func (r *Rep) eachHeld(p *Prog, name string, f func(r *Rep, u *Unit)) {
	u := r.unit(p, name, nil)
	if u == nil {
		return
	}
	var first *Rep
	for mode := 0; mode < 3; mode++ {
		if mode > 0 {
			u.M = u.E.machineMode(name, u.St, u.Args, u.Outs, mode)
			if len(u.M.held) == 0 && mode == 1 {
				continue
			}
		}
		s := newRep(r.prop, r.tier)
		f(s, u)
		if first == nil {
			first = s
		}
		if len(s.viol) == 0 {
			first = s
			break
		}
	}
	r.merge(first)
}

func (r *Rep) merge(s *Rep) {
	for _, v := range s.viol {
		if !r.seen[v] {
			r.seen[v] = true
			r.viol = append(r.viol, v)
			r.rule[v] = s.rule[v]
		}
	}
	for f := range s.files {
		r.files[f] = true
	}
	for k, n := range s.count {
		r.count[k] += n
	}
	for k, n := range s.okc {
		r.okc[k] += n
	}
	for k, n := range s.min {
		r.min[k] = n
	}
	r.units = append(r.units, s.units...)
	r.notes = append(r.notes, s.notes...)
	r.uses = append(r.uses, s.uses...)
}
