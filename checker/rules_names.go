package main

// Names of blocks: no two blocks of a function may have the same.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// nameUse is a form of the names of blocks.
type nameUse struct {
	pre, suf string
	kind     string // number label const
	src      string // counter or table
	where    string
}

// blockNames looks at the blocks made in a unit and returns the forms of their names.
func (r *Rep) blockNames(u *Unit, label string) (uses []nameUse) {
	e := u.E
	lm := e.labelMap()
	for _, x := range u.M.Edges {
		if x.Out != nil && u.errClass(x) != "ok" {
			continue
		}
		where := u.M.where(x)
		fns := map[string]bool{}
		ff := e.funcField()
		if ff != "" {
			fns[bkey(e.peekField(x.StartSt, e.comp.Obj, ff))] = true
			fns[bkey(e.peekField(x.St, e.comp.Obj, ff))] = true
		}
		type named struct {
			pre, suf string
			n        Val
		}
		var seen []named
		// counters only grow
		for _, sg := range u.segments(x) {
			for name, s := range sg.from {
				t := sg.to[name]
				if s == nil || t == nil {
					continue
				}
				d, ok := diff(e, x.St, t, s)
				if !ok && x.Trans != nil {
					d, ok = diff(e, x.Trans.St, t, s)
				}
				r.ob("numbers", ok && d >= 0, where, "%s: the counter %s of the compiler may be set back", label, name)
			}
		}
		for _, ev := range x.Evs {
			if ev.Kind != "newblock" {
				continue
			}
			if ev.Name == "NewBlock" && len(ev.Args) == 2 {
				r.ob("names", fns[bkey(ev.Args[0])] || newFnOf(e, x)[bkey(ev.Args[0])], where, "%s: a block is made in a function that is not the current one", label)
			}
			nm := ev.Args[len(ev.Args)-1]
			full := unseq(e.canon(x.St, nm, nil))
			pre, suf, num, plain := splitName(full)
			var key Val
			for _, q := range x.Evs {
				if q.Kind == "mapup" && q.Name == lm && bkey(q.Args[2]) == bkey(ev.Res[0]) {
					key = e.canon(x.St, q.Args[1], nil)
				}
			}
			if key != nil {
				// a prefix and the name of the label
				k := unseq(key)
				if len(k) <= len(full) && same(seqVal(full[len(full)-len(k):]), seqVal(k)) {
					pre, suf, num, plain = splitName(full[:len(full)-len(k)])
				} else {
					plain = false
				}
				plain = plain && num == nil
			}
			if !plain {
				r.ob("names", false, where, "%s: the name of a block is not understood: %s", label, e.show(nm, x.St))
				continue
			}
			switch {
			case key == nil && num != nil:
				r.ob("names", u.uniqueNum(x, num, ev), where, "%s: the number in the name of a block may be used again: %s", label, e.show(nm, x.St))
				for _, s := range seen {
					r.ob("names", s.pre != pre || s.suf != suf || !same(s.n, num), where, "%s: two blocks have the name %s", label, e.show(nm, x.St))
				}
				seen = append(seen, named{pre, suf, num})
				okForm := !strings.ContainsAny(pre, "-0123456789") && (suf == "" || suf[0] < '0' || suf[0] > '9')
				r.ob("names", okForm, where, "%s: the number in the name of a block runs into other characters: %s", label, e.show(nm, x.St))
				src := ""
				for _, n := range e.counters() {
					for _, sg := range u.segments(x) {
						if sg.from[n] == nil {
							continue
						}
						if _, ok := diff(e, x.St, num, sg.from[n]); ok {
							src = n
						}
					}
				}
				uses = append(uses, nameUse{pre, suf, "number", src, where})
			case key != nil:
				absent, put := false, false
				for _, q := range x.Evs {
					if q.Kind == "maplook" && q.Name == lm && q.Flag == "absent" && same(e.canon(x.St, q.Args[1], nil), key) && !put {
						absent = true
					}
					if q.Kind == "mapup" && q.Name == lm && bkey(q.Args[2]) == bkey(ev.Res[0]) && same(e.canon(x.St, q.Args[1], nil), key) {
						put = true
					}
				}
				r.ob("names", absent && put && suf == "", where, "%s: a block is named after a label that may have one already: %s", label, e.show(nm, x.St))
				uses = append(uses, nameUse{pre, suf, "label", lm, where})
			default:
				uses = append(uses, nameUse{pre, suf, "const", "", where})
			}
		}
	}
	return uses
}

// newFnOf is the function made in a piece.
func newFnOf(e *Eng, x *Edge) map[string]bool {
	r := map[string]bool{}
	for _, ev := range x.Evs {
		if ev.Kind == "newfunc" && len(ev.Res) == 1 && !isLLVM(e, x.St, ev) {
			r[bkey(ev.Res[0])] = true
		}
	}
	return r
}

// funcField is the field of the compiler that holds the current function.
func (e *Eng) funcField() string {
	for _, f := range e.compFields() {
		t := under(e.compT).(*types.Struct).Field(fieldIndex(e.compT, f)).Type()
		if strings.HasSuffix(t.String(), "/ir.Func") && strings.HasPrefix(t.String(), "*") {
			return f
		}
	}
	return ""
}

// splitName takes a name apart: characters, a number if there is one, characters.
func splitName(s []Val) (pre, suf string, num Val, ok bool) {
	for _, v := range s {
		if n, isC := constInt(v); isC && n <= 255 {
			if num == nil {
				pre += string(rune(n))
			} else {
				suf += string(rune(n))
			}
			continue
		}
		if t, isT := v.(*Term); isT && t.Op == "splat" && num == nil {
			if q, isQ := t.Args[0].(*Term); isQ && q.Op == "itoa" {
				num = q.Args[0]
				continue
			}
		}
		return pre, suf, num, false
	}
	return pre, suf, num, true
}

// nameClash asks that no two forms of names can give the same name.
func (r *Rep) nameClash(uses []nameUse) {
	by := map[string]nameUse{}
	for _, x := range uses {
		by[x.kind+" "+x.pre+" "+x.suf+" "+x.src] = x
	}
	var l []nameUse
	for _, x := range by {
		l = append(l, x)
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	for i, a := range l {
		for _, b := range l[i+1:] {
			r.ob("names", !clash(a, b), a.where, "blocks made here and at %s can have the same name: %s%s and %s%s", b.where, a.pre, a.suf, b.pre, b.suf)
		}
	}
}

func clash(a, b nameUse) bool {
	switch {
	case a.kind == "number" && b.kind == "number":
		return a.pre == b.pre && a.suf == b.suf
	case a.kind == "label" && b.kind == "label":
		return strings.HasPrefix(a.pre, b.pre) || strings.HasPrefix(b.pre, a.pre)
	case a.kind == "const" && b.kind == "const":
		return a.pre == b.pre
	case b.kind == "label" || a.kind == "label":
		if a.kind == "label" {
			a, b = b, a
		}
		if a.kind == "const" {
			return strings.HasPrefix(a.pre, b.pre)
		}
		if strings.HasPrefix(a.pre, b.pre) {
			return true
		}
		if strings.HasPrefix(b.pre, a.pre) {
			c := b.pre[len(a.pre)]
			return c >= '0' && c <= '9' || c == '-'
		}
		return false
	}
	if a.kind == "const" {
		a, b = b, a
	}
	return strings.HasPrefix(b.pre, a.pre) && strings.HasSuffix(b.pre, a.suf) && strings.ContainsAny(b.pre, "0123456789")
}
