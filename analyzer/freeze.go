package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: frozen objects are thawed only from a well-formed payload.

// payload is the byte string an accepting path found in the frozen item: the
// only element of the array the nested item was decoded to.
func (w *wire) payload(p *wirePath) (SliceV, string) {
	st := p.o.st
	item := p.nth('I', 0)
	if item == nil {
		return SliceV{}, "does not read a payload"
	}
	member := func(pos Lin, tags ...int) bool {
		s := w.e.byteSym(p.buf.base, 0, st.norm(p.buf.off.add(pos)))
		for _, m := range st.domOf(s).members() {
			ok := false
			for _, t := range tags {
				ok = ok || m&0x7f == t
			}
			if !ok {
				return false
			}
		}
		return true
	}
	if !(member(item.at, tgREFN) && member(item.at.addc(1), tgARRAY)) && !member(item.at, 0x41) {
		return SliceV{}, "accepts a payload that is no reference to an array"
	}
	if len(item.call.outs) == 0 {
		return SliceV{}, "the payload's value is not used"
	}
	// the array
	for _, o := range item.call.outs {
		arr, ok := w.e.asType(Opq{o, ifacesType.Elem()}, ifacesType).(SliceV)
		if !ok {
			continue
		}
		c := &Cond{k: cType, s: o, t: ifacesType}
		if st.decide(c) != yes {
			return SliceV{}, "does not check that the payload is an array"
		}
		if !w.same(st, arr.ln, constLin(1)) {
			return SliceV{}, "does not check that the payload's array has exactly one element"
		}
		el, ok := w.e.load(st, PtrV{obj: arr.base, path: idxPath(arr.off), idx: &arr.off, off: arr.off, elem: arr.elem}, arr.elem).(Opq)
		if !ok {
			continue
		}
		if st.decide(&Cond{k: cType, s: el.s, t: bytesType}) != yes {
			return SliceV{}, "does not check that the payload's element is a byte string"
		}
		if d, ok := w.e.asType(el, bytesType).(SliceV); ok {
			return d, ""
		}
	}
	return SliceV{}, "the payload's value is not used"
}

// sameBytes: two slices have the same content.
func (w *wire) sameBytes(st *State, a, b Value) bool {
	x, ok1 := w.content(st, a)
	y, ok2 := w.content(st, b)
	return ok1 && ok2 && x.base == y.base && w.same(st, x.off, y.off) && w.same(st, x.ln, y.ln)
}

// isDest: x is the destination of the reader.
func (w *wire) isDest(p *wirePath, fn *ssa.Function, role *wireRole, x Value) bool {
	if role.typed {
		d, ok := w.rdest(p, fn)
		return ok && valKey(x) == valKey(d)
	}
	d, ok := w.dest(p)
	op, a := w.termOp(x)
	if !ok || op != "rElem" {
		return false
	}
	op, a = w.termOp(a[0])
	return op == "rValueOf" && valKey(ptrOf(a[0])) == valKey(d)
}

func (w *wire) classOf(p *wirePath) *wstep {
	if s := p.jump('S'); s != nil {
		return s
	}
	return p.nth('S', 0)
}

// thawed checks what an accepting path does with a frozen item.
func (w *wire) thawed(p *wirePath, fn *ssa.Function, role *wireRole) string {
	st := p.o.st
	data, why := w.payload(p)
	if why != "" {
		return why
	}
	class := w.classOf(p)
	if class == nil {
		return "does not read a class name"
	}
	var hooks []*CallEv
	var sets []Value // what is stored in the destination
	looked := false  // the class was found in the table of registered names
	var reg Value
	for _, ev := range st.ev.list() {
		switch ev.k {
		case evMapGet:
			mt, ok := ev.m.(Opq)
			if !ok || mt.t == nil {
				continue
			}
			m, ok := mt.t.Underlying().(*types.Map)
			if !ok || !strings.HasSuffix(m.Elem().String(), "reflect.Type") {
				continue
			}
			if k, ok := ev.x.(SliceV); ok && k.str && w.isString(st, k, class) {
				looked = true
				if ev.ok != nil && st.decide(ev.ok) == yes {
					reg = ev.val
				}
			}
		case evCall:
			c := ev.call
			switch {
			case strings.HasSuffix(c.name, ".UnmarshalBinary") && c.fn == nil:
				hooks = append(hooks, c)
			case c.name == "(reflect.Value).Set" && w.isDest(p, fn, role, c.args[0]):
				sets = append(sets, c.args[1])
			}
		}
	}
	perl := w.option(p, "PerlCompat")
	if perl == nil {
		return "the option PerlCompat is gone"
	}
	if len(hooks) > 1 {
		return "calls more than one unmarshaller"
	}
	if len(hooks) == 1 {
		h := hooks[0]
		if st.decide(perl) != no {
			return "calls an unmarshaller in Perl-compatible mode"
		}
		if len(h.args) < 2 || !w.sameBytes(st, h.args[1], data) {
			return "hands other bytes than the payload to the unmarshaller"
		}
		if len(h.res) == 0 || st.decide(w.e.nilCond(h.res[len(h.res)-1])) != yes {
			return "succeeds although the unmarshaller may have failed"
		}
		// the receiver is the destination, or a new value of the registered
		// type that is then stored in it
		rcv := h.args[0]
		inDest := w.derives(rcv, func(x Value) bool { return w.isDest(p, fn, role, x) }, 0)
		stored := inDest
		for _, s := range sets {
			k := valKey(s)
			if w.derives(rcv, func(x Value) bool { return valKey(x) == k }, 0) {
				stored = true
			}
			if op, a := w.termOp(s); op == "rValueOf" && valKey(ptrOf(a[0])) == valKey(ptrOf(rcv)) {
				stored = true
			}
		}
		if !stored {
			return "the value the payload was unmarshalled to is not delivered"
		}
		if !inDest {
			if reg == nil {
				return "unmarshals to a type that was not looked up under the class name"
			}
			if !w.derives(rcv, func(x Value) bool { return valKey(x) == valKey(reg) }, 0) {
				return "unmarshals to another type than the registered one"
			}
		}
		return ""
	}
	if len(sets) == 0 {
		return "delivers nothing"
	}
	_ = looked
	v := w.valueOf(sets[len(sets)-1])
	if s, ok := v.(SliceV); ok {
		if w.sameBytes(st, s, data) {
			return ""
		}
		return "delivers other bytes than the payload"
	}
	pv, ok := v.(PtrV)
	if !ok || pv.obj == nil || pv.elem == nil {
		return "delivers something else than the payload"
	}
	sv, ok := pv.elem.Underlying().(*types.Struct)
	if !ok {
		return "delivers something else than the payload"
	}
	var gotClass, gotData bool
	for i := 0; i < sv.NumFields(); i++ {
		x, _, ok := w.e.fieldOf(st, pv, sv.Field(i).Name())
		s, isS := x.(SliceV)
		if !ok || !isS {
			continue
		}
		if s.str && w.isString(st, s, class) {
			gotClass = true
		}
		if !s.str && w.sameBytes(st, s, data) {
			gotData = true
		}
	}
	switch {
	case !gotClass:
		return "does not deliver the class name"
	case !gotData:
		return "does not deliver the payload"
	}
	if st.decide(perl) != yes && reg != nil {
		return "ignores the registered unmarshaller"
	}
	if st.decide(perl) != yes && !looked && !w.noNames(p) {
		return "does not look for a registered unmarshaller"
	}
	return ""
}

// noNames: no names are registered on the path.
func (w *wire) noNames(p *wirePath) bool {
	pv, ok := p.args[0].(PtrV)
	if !ok || pv.elem == nil {
		return false
	}
	sv, ok := pv.elem.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < sv.NumFields(); i++ {
		m, ok := sv.Field(i).Type().Underlying().(*types.Map)
		if !ok || !strings.HasSuffix(m.Elem().String(), "reflect.Type") {
			continue
		}
		x, _, ok := w.e.fieldOf(p.o.st, pv, sv.Field(i).Name())
		if ok && p.o.st.decide(w.e.nilCond(x)) == yes {
			return true
		}
	}
	return false
}

// derives: a value satisfying f occurs in the term of v.
func (w *wire) derives(v Value, f func(x Value) bool, depth int) bool {
	if depth > 14 {
		return false
	}
	if f(v) {
		return true
	}
	switch v := v.(type) {
	case Opq:
		for _, a := range w.e.terms[v.s].args {
			if w.derives(a, f, depth+1) {
				return true
			}
		}
	case IfaceV:
		return w.derives(v.v, f, depth+1)
	}
	return false
}

// hookError: a path on which an unmarshaller failed returns its error.
func (w *wire) hookError(p *wirePath) string {
	st := p.o.st
	for _, ev := range st.ev.list() {
		if ev.k != evCall || ev.call.fn != nil || !strings.HasSuffix(ev.call.name, ".UnmarshalBinary") {
			continue
		}
		h := ev.call.res[len(ev.call.res)-1]
		if st.decide(w.e.nilCond(h)) == yes {
			continue
		}
		if !w.derives(p.err, func(x Value) bool { return valKey(x) == valKey(h) }, 0) {
			return "does not return the unmarshaller's error"
		}
	}
	return ""
}

func init() {
	checks["C32"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every accepting path of every item reader for the frozen-object tags, the payload must be entailed to be a reference to an array whose only element was asserted to be a byte string; exactly that byte string must reach the one unmarshaller called (whose error must be nil on the path and be returned otherwise), or be delivered with the class name that was read."
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if role.role != 'I' {
				return
			}
			for _, p := range ps {
				if p.o.panic {
					continue
				}
				if !p.ok {
					why := w.hookError(p)
					r.check(why == "", "hook", fname(fn), w.e.pos(p.o.at), "%s %s (%s)", fname(fn), why, w.e.p.Variant)
					continue
				}
				if p.ch.state == 3 || w.delegated(p, 'I') {
					continue
				}
				for _, t := range w.tags(p).members() {
					if t&0x7f != tgOBJECTFREEZE && t&0x7f != tgOBJECTVFREEZE {
						continue
					}
					why := p.ch.err
					if why == "" {
						why = w.thawed(p, fn, role)
					}
					sp := wireTags[t&0x7f]
					r.check(why == "", "frozen", fname(fn)+":"+sp.name, w.e.pos(p.o.at), "tag %#x (%s) in %s: %s (%s)", t, sp.name, fname(fn), why, w.e.p.Variant)
				}
			}
		})
		r.atLeast("frozen", 16)
	}
}
