package rt

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Target is a machine the library is built for.
type Target struct {
	Name, Triple, Arch string
	Apple              bool
}

// Targets are the machines supported.
var Targets = []*Target{
	{"x86_64", "x86_64-unknown-linux-gnu", "x86_64", false},
	{"aarch64", "aarch64-unknown-linux-gnu", "aarch64", false},
	{"riscv64", "riscv64-unknown-linux-gnu", "riscv64", false},
	{"x86_64 (macOS)", "x86_64-apple-macosx11", "x86_64", true},
	{"aarch64 (macOS)", "arm64-apple-macosx11", "aarch64", true},
}

// Lib is the library translated for one machine.
type Lib struct {
	Target *Target
	Mods   []*Mod
	addrs  map[string]*Lin
	sysnr  map[string]int64
	Err    error
}

func (l *Lib) resolve(m *Mod, name string) *Fn {
	if f := m.Fns[name]; f != nil && !f.Decl {
		return f
	}
	for _, o := range l.Mods {
		if f := o.Fns[name]; f != nil && !f.Decl && !f.Internal {
			return f
		}
	}
	return nil
}

const stdarg = `#ifndef VVA_STDARG
#define VVA_STDARG
typedef struct { char *p; } va_list[1];
typedef va_list __gnuc_va_list;
char *__vva_args(void);
#define va_start(ap, ...) ((ap)->p = __vva_args())
#define va_arg(ap, T) (*(T *)(((ap)->p += 8) - 8))
#define va_end(ap) ((void)0)
#define va_copy(d, s) ((d)->p = (s)->p)
#define __builtin_va_list va_list
#define __builtin_va_start(ap, l) va_start(ap, l)
#define __builtin_va_arg(ap, T) va_arg(ap, T)
#define __builtin_va_end(ap) va_end(ap)
#define __builtin_va_copy(d, s) va_copy(d, s)
#endif
`

var nrRE = regexp.MustCompile(`(?m)^#define __NR_(\w+) +(\d+)\s*$`)

// numbers reads the numbers of the system calls of a machine from the headers of the kernel.
func numbers(t *Target) (map[string]int64, error) {
	if t.Apple {
		return map[string]int64{"exit": 1, "fork": 2, "read": 3, "write": 4, "open": 5, "close": 6}, nil
	}
	file := "/usr/include/asm-generic/unistd.h"
	if t.Arch == "x86_64" {
		file = "/usr/include/x86_64-linux-gnu/asm/unistd_64.h"
	}
	text := readFile(file)
	n := map[string]int64{}
	for _, m := range nrRE.FindAllStringSubmatch(text, -1) {
		v, _ := strconv.ParseInt(m[2], 10, 64)
		n[m[1]] = v
	}
	if n["write"] == 0 || n["exit"] == 0 {
		return nil, fmt.Errorf("the numbers of the system calls cannot be read from %s", file)
	}
	return n, nil
}

var objRE = regexp.MustCompile(`[\w./-]+\.o\b`)

// members are the source files that make up the library.
func members(dir string) ([]string, error) {
	mk := readFile(filepath.Join(dir, "Makefile"))
	if mk == "" {
		return nil, fmt.Errorf("there is no Makefile in %s", dir)
	}
	// rules of single objects may name files that are not part of the library
	mk = strings.ReplaceAll(mk, "\\\n", " ")
	var out []string
	seen := map[string]bool{}
	use := func(s string) {
		for _, o := range objRE.FindAllString(s, -1) {
			c := strings.TrimSuffix(o, ".o") + ".c"
			if !seen[c] {
				seen[c] = true
				out = append(out, c)
			}
		}
	}
	for _, l := range strings.Split(mk, "\n") {
		if k := strings.Index(l, "="); k > 0 && !strings.HasPrefix(l, "\t") {
			use(l[k+1:])
			if strings.Contains(l[k+1:], "wildcard") {
				fs, _ := filepath.Glob(filepath.Join(dir, "*.c"))
				for _, f := range fs {
					use(strings.TrimSuffix(filepath.Base(f), ".c") + ".o")
				}
			}
		}
	}
	if len(out) == 0 {
		fs, _ := filepath.Glob(filepath.Join(dir, "*.c"))
		for _, f := range fs {
			use(strings.TrimSuffix(filepath.Base(f), ".c") + ".o")
		}
	}
	sort.Strings(out)
	return out, nil
}

// cflags are the options of the Makefile that change what the program means.
func cflags(dir string) []string {
	var out []string
	for _, l := range strings.Split(readFile(filepath.Join(dir, "Makefile")), "\n") {
		if strings.HasPrefix(strings.ReplaceAll(l, " ", ""), "CFLAGS=") || strings.HasPrefix(strings.ReplaceAll(l, " ", ""), "CFLAGS+=") {
			for _, f := range strings.Fields(l[strings.Index(l, "=")+1:]) {
				if strings.HasPrefix(f, "-D") || strings.HasPrefix(f, "-U") || strings.HasPrefix(f, "-f") || strings.HasPrefix(f, "-std") {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// Load translates the library for a machine.
func Load(repo string, t *Target) (l *Lib) {
	l = &Lib{Target: t, addrs: map[string]*Lin{}}
	dir := filepath.Join(repo, "runtime")
	fail := func(err error) *Lib { l.Err = err; return l }
	nr, err := numbers(t)
	if err != nil {
		return fail(err)
	}
	l.sysnr = nr
	tmp, err := os.MkdirTemp("", "blangrt")
	if err != nil {
		return fail(err)
	}
	defer os.RemoveAll(tmp)
	var h strings.Builder
	var names []string
	for k := range nr {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Fprintf(&h, "#define SYS_%s %d\n#define __NR_%s %d\n", k, nr[k], k, nr[k])
	}
	inc := filepath.Join(tmp, "inc")
	for _, d := range []string{"sys", "asm"} {
		os.MkdirAll(filepath.Join(inc, d), 0o755)
	}
	os.WriteFile(filepath.Join(inc, "stdarg.h"), []byte(stdarg), 0o644)
	os.WriteFile(filepath.Join(inc, "sys", "syscall.h"), []byte(h.String()), 0o644)
	os.WriteFile(filepath.Join(inc, "syscall.h"), []byte(h.String()), 0o644)
	os.WriteFile(filepath.Join(inc, "asm", "unistd.h"), []byte(h.String()), 0o644)
	res, err := exec.Command("clang", "-print-resource-dir").Output()
	if err != nil {
		return fail(fmt.Errorf("clang cannot be run: %v", err))
	}
	mem, err := members(dir)
	if err != nil {
		return fail(err)
	}
	mods := make([]*Mod, len(mem))
	errs := make([]error, len(mem))
	var wg sync.WaitGroup
	for i, c := range mem {
		wg.Add(1)
		go func(i int, c string) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("%d.ll", i))
			args := []string{"-target", t.Triple, "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-S", "-emit-llvm", "-ffreestanding", "-nostdinc", "-w"}
			args = append(args, cflags(dir)...)
			args = append(args, "-isystem", inc, "-isystem", filepath.Join(strings.TrimSpace(string(res)), "include"), "-include", filepath.Join(inc, "stdarg.h"), "-o", out, c)
			cmd := exec.Command("clang", args...)
			cmd.Dir = dir
			if b, err := cmd.CombinedOutput(); err != nil {
				errs[i] = fmt.Errorf("runtime/%s is not accepted for %s: %s", c, t.Name, first(string(b)))
				return
			}
			mods[i], errs[i] = parseMod("runtime/"+c, readFile(out))
		}(i, c)
	}
	wg.Wait()
	for i := range mem {
		if errs[i] != nil {
			return fail(errs[i])
		}
		for _, f := range mods[i].Order {
			f.fix()
		}
	}
	l.Mods = mods
	return l
}

func (f *Fn) fix() {
	f.File = short(f.File)
	for _, b := range f.Blocks {
		for _, in := range b.Ins {
			in.File = short(in.File)
		}
	}
}

func short(f string) string {
	if strings.HasPrefix(f, "runtime/") {
		return f
	}
	return "runtime/" + filepath.Base(f)
}

func first(s string) string {
	s = strings.TrimSpace(s)
	if k := strings.Index(s, "\n"); k > 0 {
		return s[:k]
	}
	return s
}

// Stub says where a system call finds its number and arguments.
type Stub struct {
	nr   int
	args [3]int
	res  bool
	bad  []string
}

var regNames = map[string]map[string]string{
	"x86_64":  {"rax": "ax", "eax": "ax", "rdi": "di", "edi": "di", "rsi": "si", "esi": "si", "rdx": "dx", "edx": "dx", "ecx": "rcx", "cx": "rcx"},
	"riscv64": {"x10": "a0", "x11": "a1", "x12": "a2", "x17": "a7", "x13": "a3", "x14": "a4", "x15": "a5", "x16": "a6"},
}

var templates = map[string]*regexp.Regexp{
	"x86_64":  regexp.MustCompile(`^\s*syscall\s*$`),
	"aarch64": regexp.MustCompile(`^\s*svc\s+#?(0|0x0)\s*$`),
	"riscv64": regexp.MustCompile(`^\s*ecall\s*$`),
}

var appleSvc = regexp.MustCompile(`^\s*svc\s+#?(0x80|128)\s*$`)

// stub reads the operands of a piece of machine code.
func stub(t *Target, in *Ins) (*Stub, string) {
	tmpl := templates[t.Arch]
	if t.Apple && t.Arch == "aarch64" {
		tmpl = appleSvc
	}
	text := strings.TrimRight(strings.TrimSpace(in.Asm), ";")
	if !tmpl.MatchString(text) {
		return nil, fmt.Sprintf("%q is not the instruction that calls the system", in.Asm)
	}
	norm := func(r string) string {
		if n := regNames[t.Arch][r]; n != "" {
			return n
		}
		return r
	}
	nrReg, argReg, resReg := "ax", []string{"di", "si", "dx"}, "ax"
	destroyed := []string{"rcx", "r11"}
	switch t.Arch {
	case "aarch64":
		nrReg, argReg, resReg, destroyed = "x8", []string{"x0", "x1", "x2"}, "x0", nil
		if t.Apple {
			nrReg = "x16"
		}
	case "riscv64":
		nrReg, argReg, resReg, destroyed = "a7", []string{"a0", "a1", "a2"}, "a0", nil
	}
	s := &Stub{nr: -1, args: [3]int{-1, -1, -1}}
	var outs []string
	ins := 0
	changed := map[string]bool{}
	inputs := map[string]int{}
	memory := false
	for _, c := range strings.Split(in.Cons, ",") {
		reg := func() string {
			a, b := strings.Index(c, "{"), strings.Index(c, "}")
			if a >= 0 && b > a {
				return norm(c[a+1 : b])
			}
			return ""
		}
		switch {
		case strings.HasPrefix(c, "="):
			if strings.Contains(c, "*") {
				return nil, "it has an operand in memory"
			}
			r := reg()
			outs = append(outs, r)
			changed[r] = true
		case strings.HasPrefix(c, "~"):
			r := reg()
			if r == "memory" {
				memory = true
			}
			changed[r] = true
		default:
			r := reg()
			if k, err := strconv.Atoi(c); err == nil && k < len(outs) {
				r = outs[k]
			}
			if r == "" {
				r = "?" + c
			}
			if _, dup := inputs[r]; dup {
				s.bad = append(s.bad, "two operands are put into register "+r)
			}
			inputs[r] = ins
			ins++
		}
	}
	get := func(r string) int {
		if k, ok := inputs[r]; ok {
			return k
		}
		return -1
	}
	s.nr = get(nrReg)
	if s.nr < 0 {
		s.bad = append(s.bad, "the number of the system call is not put into register "+nrReg)
	}
	for i, r := range argReg {
		s.args[i] = get(r)
		if s.args[i] < 0 {
			s.bad = append(s.bad, fmt.Sprintf("argument %d is not put into register %s", i+1, r))
		}
	}
	for r := range inputs {
		ok := r == nrReg
		for _, a := range argReg {
			ok = ok || a == r
		}
		if !ok {
			s.bad = append(s.bad, "an operand is put into register "+strings.TrimPrefix(r, "?")+", where the system does not look for one")
		}
	}
	switch {
	case len(outs) == 0:
	case len(outs) == 1 && outs[0] == resReg:
		s.res = true
	default:
		s.bad = append(s.bad, "the result is not taken from register "+resReg)
	}
	if !changed[resReg] {
		s.bad = append(s.bad, "the compiler is not told that register "+resReg+" changes")
	}
	for _, r := range destroyed {
		if !changed[r] {
			s.bad = append(s.bad, "the compiler is not told that register "+r+" changes")
		}
	}
	if !memory {
		s.bad = append(s.bad, "the compiler is not told that memory may be read and changed")
	}
	if !in.Flags["sideeffect"] {
		s.bad = append(s.bad, "the compiler may leave out the system call or move it")
	}
	sort.Strings(s.bad)
	return s, ""
}
