package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30, C40: where typed decoding stores the parts of a document.

// placer judges one path of a typed reader.
type placer struct {
	w   *wire
	p   *wirePath
	dst Opq
	bad map[string]string // rule -> why
	n   map[string]int

	frozen bool
	count  *Lin
}

func (q *placer) check(ok bool, rule, why string) bool {
	q.n[rule]++
	if !ok && q.bad[rule] == "" {
		q.bad[rule] = why
	}
	return ok
}

// self: v is the destination, or what it points to.
func (q *placer) self(v Value) bool {
	for i := 0; i < 8; i++ {
		o, ok := v.(Opq)
		if !ok {
			return false
		}
		if o.s == q.dst.s {
			return true
		}
		op, a := q.w.termOp(v)
		if op != "rElem" && op != "rIndirect" {
			return false
		}
		v = a[0]
	}
	return false
}

// term: v is an operation of this name on the destination.
func (q *placer) term(v Value, op string) ([]Value, bool) {
	o, a := q.w.termOp(v)
	if o != op || len(a) == 0 || !q.self(a[0]) {
		return nil, false
	}
	return a, true
}

func rArg(c *CallEv) (Value, bool) {
	for _, a := range c.args {
		if o, ok := a.(Opq); ok && isReflectValue(o.t) {
			return a, true
		}
	}
	return nil, false
}

// isKey: v holds the string that step s read.
func (q *placer) isKey(st *State, v Value, s *wstep) bool {
	op, a := q.w.termOp(v)
	for op == "rConvert" {
		v = a[0]
		op, a = q.w.termOp(v)
	}
	if op == "rValueOf" {
		v = a[0]
	}
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	return q.w.isString(st, v, s)
}

// titled: v is the title-cased string that step s read.
func (q *placer) titled(st *State, evs []*Ev, v Value, s *wstep) bool {
	for _, ev := range evs {
		if ev.k == evCall && ev.call.name == "strings.Title" && valKey(ev.call.res[0]) == valKey(v) {
			return q.w.isString(st, ev.call.args[0], s)
		}
	}
	return false
}

// tables lists the tables of fields the path has for the type of the
// destination; nil if there is one that holds nothing.
func (q *placer) tables(st *State) (ms []Value, empty bool) {
	isType := func(v Value) bool { _, ok := q.term(v, "rType"); return ok }
	add := func(v Value) {
		switch v := v.(type) {
		case NilV:
			empty = true
		case Opq:
			if st.decide(q.w.e.nilCond(v)) == yes {
				empty = true
				return
			}
			ms = append(ms, v)
		}
	}
	for _, ev := range st.ev.list() {
		switch {
		case ev.k == evMapGet && ev.ok != nil && st.decide(ev.ok) == yes && isType(ev.x):
			add(ev.val)
		case ev.k == evMapSet && isType(ev.x):
			add(ev.val)
		}
	}
	return
}

// lookups are the lookups of the key just read in the table of fields: the
// key as it is, and title-cased.
func (q *placer) lookups(st *State, evs []*Ev, key *wstep) (exact, title *Ev) {
	ms, _ := q.tables(st)
	for _, ev := range evs {
		if ev.k != evMapGet || ev.ok == nil {
			continue
		}
		for _, m := range ms {
			if valKey(m) != valKey(ev.m) {
				continue
			}
			if q.w.isString(st, ev.x, key) {
				exact = ev
			} else if q.titled(st, evs, ev.x, key) {
				title = ev
			}
		}
	}
	return
}

// entry judges the value of a pair.
func (q *placer) entry(st *State, evs []*Ev, s, key *wstep, next *Ev) {
	w := q.w
	e := w.e
	found := func(ev *Ev) bool { return ev != nil && st.decide(ev.ok) == yes }
	missed := func(ev *Ev) bool { return ev != nil && st.decide(ev.ok) == no }
	rest := after(evs, s.ev, next)
	var puts []*CallEv // SetMapIndex on the destination before the next step
	for _, ev := range rest {
		if ev.k == evCall && ev.call.name == "(reflect.Value).SetMapIndex" && q.self(ev.call.args[0]) {
			puts = append(puts, ev.call)
		}
	}
	dv, typed := rArg(s.call)
	if typed {
		if a, ok := q.term(dv, "rField"); ok {
			i := e.lin(a[1])
			exact, title := q.lookups(st, evs, key)
			is := func(ev *Ev) bool {
				v, ok := ev.val.(IntV)
				return ok && w.same(st, v.l, i)
			}
			switch {
			case found(exact) && is(exact):
			case found(title) && is(title) && missed(exact):
			default:
				q.check(false, "field", "a value is decoded into a field that the table of fields does not give for its key")
				return
			}
			q.check(true, "field", "")
			q.check(len(puts) == 0, "entry", "the value of a field is also put in a map")
			return
		}
		if a, ok := q.term(dv, "rMapIndex"); ok {
			q.check(q.isKey(st, a[1], key), "entry", "a value is decoded into the entry of another key")
			q.check(len(puts) == 0, "entry", "a value that was decoded in place is put in the map again")
			return
		}
		isNew := false
		if op, a := w.termOp(dv); op == "rElem" {
			if op, b := w.termOp(a[0]); op == "rNew" {
				if op, c := w.termOp(b[0]); op == "tElem" {
					_, isNew = q.term(c[0], "rType")
				}
			}
		}
		if q.check(isNew, "entry", "the value of a pair is decoded into "+w.short(st, dv)) {
			q.check(len(puts) == 1 && q.sameElem(puts[0].args[2], dv) && q.isKey(st, puts[0].args[1], key), "entry", "the value decoded is not put in the map under its own key")
		}
		return
	}
	// untyped
	if len(puts) > 0 {
		ok := len(puts) == 1 && q.isKey(st, puts[0].args[1], key)
		if ok {
			v := puts[0].args[2]
			if op, a := w.termOp(v); op == "rValueOf" {
				v = a[0]
			}
			o, isO := v.(Opq)
			ok = isO && w.outOf(s, o)
		}
		q.check(ok, "entry", "the value decoded is not put in the map under its own key")
		return
	}
	_, empty := q.tables(st)
	exact, title := q.lookups(st, evs, key)
	q.check(empty || missed(exact) && missed(title), "skip", "a value is skipped although its key may name a field")
	for _, ev := range rest {
		if ev.k == evCall && strings.HasPrefix(ev.call.name, "(reflect.Value).Set") && len(ev.call.args) > 0 {
			q.check(!w.mentions(ev.call.args[0], func(x Sym) bool { return x == q.dst.s }, 0), "skip", "the destination is changed for a key that names no field")
		}
	}
}

// sameElem: both are what one pointer points to.
func (q *placer) sameElem(x, y Value) bool {
	if valKey(x) == valKey(y) {
		return true
	}
	a, b := q.w.termOp(x)
	c, d := q.w.termOp(y)
	return a == "rElem" && c == a && valKey(b[0]) == valKey(d[0])
}

// element judges an element of an array; ks are expressions for its number.
func (q *placer) element(st *State, s *wstep, ks []Lin) {
	w := q.w
	dv, typed := rArg(s.call)
	ok := false
	if typed {
		a, is := q.term(dv, "rIndex")
		if q.check(is, "element", "an element is decoded into "+w.short(st, dv)) {
			for _, k := range ks {
				ok = ok || w.same(st, w.e.lin(a[1]), k)
			}
			q.check(ok, "element", "an element is not stored at its own index")
		}
		return
	}
	// left out: there is no room for it
	for _, ev := range st.ev.list() {
		if ev.k == evCall && ev.call.name == "(reflect.Value).Len" && q.self(ev.call.args[0]) {
			for _, k := range ks {
				ok = ok || st.entails(k.sub(w.e.lin(ev.call.res[0])))
			}
		}
	}
	q.check(ok, "element", "an element is left out although there may be room for it")
}

// single judges an item that is not one of many.
func (q *placer) single(st *State, s *wstep, jump bool) {
	w := q.w
	if dv, typed := rArg(s.call); typed {
		q.check(q.self(dv), "item", "a nested item is decoded into "+w.short(st, dv))
		return
	}
	d, ok := w.stepDest(s)
	if !q.check(ok && d.obj != nil && d.obj.fresh, "item", "an item is decoded into "+w.short(st, ptrOf(s.call.args[len(s.call.args)-1]))) {
		return
	}
	if q.frozen {
		return // C32
	}
	n := 0
	for _, x := range w.sets(q.p, q.dst) {
		n++
		switch v := x.val.(type) {
		case Opq:
			q.check(w.outOf(s, v), "item", "another value than the item read is stored")
		case IfaceV:
			pv, ok := v.v.(PtrV)
			q.check(ok && pv.obj == d.obj, "item", "another value than the item read is stored")
		case PtrV:
			q.check(v.obj == d.obj, "item", "another value than the item read is stored")
		default:
			q.check(false, "item", "another value than the item read is stored")
		}
	}
	if n == 0 {
		isNil := false
		for _, o := range s.call.outs {
			isNil = isNil || st.decide(&Cond{k: cNil, s: o}) == yes
		}
		q.check(isNil, "item", "an item that was read is not stored")
	}
	q.check(n <= 1, "item", "an item is stored twice")
}

func (q *placer) run() {
	w, p := q.w, q.p
	st := p.o.st
	pairs := func(st *State, ss []*wstep, evs []*Ev, ks []Lin) (items int) {
		var key *wstep
		for i, s := range ss {
			switch s.k {
			case 'S':
				key = s
			case 'I':
				if key != nil {
					q.entry(st, evs, s, key, nextStep(ss, i))
				} else {
					q.element(st, s, ks)
				}
				key = nil
				items++
			}
		}
		// no pair is made up
		puts := 0
		for _, ev := range evs {
			if ev.k == evCall && ev.call.name == "(reflect.Value).SetMapIndex" && q.self(ev.call.args[0]) {
				puts++
			}
		}
		q.check(puts <= items, "entry", "a pair is put in the map that was not read")
		return
	}
	before := constLin(0)
	loops := 0
	for _, s := range p.ch.steps {
		switch s.k {
		case 'R':
			if s.isPadLoop() {
				continue
			}
			loops++
			for i, be := range s.loop.backs {
				var ks []Lin
				for _, c := range s.counts {
					k := w.e.lin(c.v.head).sub(w.e.lin(c.v.init))
					if c.step < 0 {
						k = k.neg()
					}
					ks = append(ks, k.add(before))
				}
				pairs(be.st, s.body[i], suffixAfter(be.st.ev.list(), s.ev), ks)
			}
			if len(s.counts) > 0 {
				c := s.counts[0]
				k := w.e.lin(c.v.head).sub(w.e.lin(c.v.init))
				if c.step < 0 {
					k = k.neg()
				}
				before = before.add(k)
			}
		case 'C':
			dv, ok := rArg(s.call)
			q.check(ok && q.self(dv), "item", "the parts of a container are decoded into another destination")
		case 'I':
			q.single(st, s, false)
		}
	}
	for _, s := range p.ch.jumps {
		if s.k == 'I' {
			q.single(st, s, true)
		}
	}
	// what is made to hold the parts
	for _, x := range w.sets(p, q.dst) {
		op, a := w.termOp(x.val)
		switch op {
		case "rMakeSlice", "rMakeMap":
			_, ok := q.term(a[0], "rType")
			q.check(ok, "made", "a container of another type is made")
			if op == "rMakeSlice" && q.count != nil {
				q.check(w.same(st, w.e.lin(a[1]), *q.count), "made", "the slice made is not as long as the array read")
			}
		}
	}
}

// shapes judges the wrappers of Perl values.
func (q *placer) shapes() {
	w, p := q.w, q.p
	sets := w.sets(p, q.dst)
	c := w.option(p, "PerlCompat")
	if c == nil {
		q.check(false, "item", "the option PerlCompat is gone")
		return
	}
	for _, t := range w.tags(p).members() {
		switch t & 0x7f {
		case tgUNDEF, tgCANONUNDEF, tgWEAKEN, tgREGEXP, tgOBJECT, tgOBJECTV:
		default:
			continue
		}
		for _, perl := range []bool{false, true} {
			st := w.withTag(p, t)
			if st == nil {
				continue
			}
			x := c
			if !perl {
				x = c.not()
			}
			if st.decide(x) == no || !st.assume(x) {
				continue
			}
			for _, s := range sets {
				if pv, ok := s.val.(PtrV); ok && pv.elem != nil {
					why := w.goType(st, p, t, IfaceV{dyn: types.NewPointer(pv.elem), v: pv}, perl)
					q.check(why == "", "item", wireTags[t&0x7f].name+" "+why)
				}
			}
			if perl && len(sets) == 0 {
				q.check(len(p.body()) > 0 && p.body()[0].k == 'I' || w.delegated(p, 'I'), "item", wireTags[t&0x7f].name+" stores nothing")
			}
		}
	}
}

// checkPlaces judges the paths of one typed reader.
func (w *wire) checkPlaces(r *Report, fn *ssa.Function, role *wireRole, ps []*wirePath, rules map[string]bool) {
	for _, p := range ps {
		if p.o.panic || !p.ok || p.ch.err != "" {
			continue
		}
		d, ok := w.rdest(p, fn)
		if !ok {
			r.undecided("dest:"+fname(fn), "%s has no destination", fname(fn))
			return
		}
		q := &placer{w: w, p: p, dst: d, bad: map[string]string{}, n: map[string]int{}}
		at := fname(fn)
		if role.role == 'I' {
			dom := w.tags(p)
			ms := dom.members()
			q.frozen = len(ms) > 0
			for _, t := range ms {
				switch t & 0x7f {
				case tgOBJECTFREEZE, tgOBJECTVFREEZE:
				default:
					q.frozen = false
				}
			}
			if len(ms) < 128 && len(ms) > 0 {
				at += ":" + wireTags[ms[0]&0x7f].name
			}
			if b := p.body(); len(b) > 0 && b[0].k == 'V' {
				q.count = &b[0].n
			}
		} else if role.count >= 0 {
			n := w.e.lin(p.args[role.count])
			q.count = &n
		}
		q.run()
		if role.role == 'I' {
			q.shapes()
		}
		for k, n := range q.n {
			if !rules[k] {
				continue
			}
			for i := 0; i < n; i++ {
				if i == 0 && q.bad[k] != "" {
					r.bad(k, at, w.e.pos(p.o.at), "%s: %s (%s)", fname(fn), q.bad[k], w.e.p.Variant)
				} else {
					r.ok(k)
				}
			}
		}
	}
}

func init() {
	checks["C40"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "In untyped readers, the elements, entries and parts of everything stored are traced to the items they were read from, element by element. On every path of every typed reader, each nested item that is read must be read into, or stored in, the part of the destination it belongs to: item i of an array into element i as long as the destination has that element and nowhere otherwise, a slice made for an array having its length, the value of a hash under the key read with it, struct fields by the table (C30), the referent of a reference into what the destination points to, COPY and header items into the destination itself, and the parts of an object, weak reference or regular expression into their own fields of the wrapper."
		r.Trusted = append(r.Trusted, "reflect: Index, Field, MapIndex, SetMapIndex, MakeSlice")
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if role.typed {
				w.checkPlaces(r, fn, role, ps, map[string]bool{"element": true, "entry": true, "item": true, "made": true, "skip": true, "field": true})
			} else if role.role == 'I' {
				w.checkTypes(r, fn, ps, role, "untyped", func(t int) bool {
					switch t {
					case tgHASH, tgARRAY, tgREFN, tgCOPY, tgWEAKEN, tgREGEXP, tgOBJECT, tgOBJECTV:
						return true
					}
					return t >= 0x40 && t < 0x60
				})
			}
		})
		r.atLeast("entry", 10)
		r.atLeast("element", 10)
		r.atLeast("item", 100)
		r.atLeast("made", 2)
		r.atLeast("untyped", 100)
	}
}
