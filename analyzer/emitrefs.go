package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Back-references that the encoder writes (C20).

// emRegion is a part of a path whose events are known to happen together: what
// is outside loops, or one way through the body of a loop.
type emRegion struct {
	st    *State
	evs   []*Ev
	nodes []*node
	ups   []*node
}

// regions splits a path.
func (m *emit) regions(p *emPath) (r []*emRegion) {
	by := map[*State]*emRegion{}
	seen := map[*LoopCtx]bool{}
	var add func(st *State, evs []*Ev)
	add = func(st *State, evs []*Ev) {
		g := &emRegion{st: st, evs: evs}
		by[st] = g
		r = append(r, g)
		for _, ev := range evs {
			if ev.k != evLoopIn && ev.k != evLoopOut || seen[ev.loop] {
				continue
			}
			seen[ev.loop] = true
			for _, be := range ev.loop.backs {
				all := be.st.ev.list()
				from := 0
				for i, x := range all {
					if x.k == evLoopIn && x.loop == ev.loop {
						from = i + 1
					}
				}
				add(be.st, all[from:])
			}
		}
	}
	add(p.st, p.st.ev.list())
	if p.root != nil {
		p.root.walk(p.st, func(st *State, n, up *node) {
			if g := by[st]; g != nil {
				g.nodes = append(g.nodes, n)
				g.ups = append(g.ups, up)
			}
		})
	}
	return
}

// emTable is a table of offsets that a writer is given.
type emTable struct {
	str   bool // of strings, else of objects
	arg   int
	field string // of the argument, if it is not the table itself
	key   string
}

func (t emTable) String() string { return fmt.Sprintf("%d.%s", t.arg, t.field) }

// emRefs is what is known of the offset tables.
type emRefs struct {
	m    *emit
	r    *Report
	tabs map[*ssa.Function]map[string]emTable // by the identity of the map
	ids  map[*ssa.Function]string             // functions that identify objects: what is wrong with them
}

func isStrRef(t int) bool { return t == tgCOPY || t == tgOBJECTV || t == tgOBJECTVFREEZE }
func isObjRef(t int) bool { return t == tgREFP || t == tgALIAS }

// hit is the table lookup that a number comes from.
func (m *emit) hit(st *State, l Lin) *Ev {
	l = st.norm(l)
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k != evMapGet || ev.ok == nil || st.decide(ev.ok) != yes {
			continue
		}
		if v, ok := ev.val.(IntV); ok && st.norm(v.l).eq(l) {
			return ev
		}
	}
	return nil
}

func keyIsString(v Value) bool {
	o, ok := v.(Opq)
	if !ok {
		return false
	}
	mt, ok := o.t.Underlying().(*types.Map)
	return ok && isString(mt.Key())
}

// strOf is the string that an item stands for.
func (m *emit) strOf(st *State, n *node) (Value, bool) {
	switch {
	case isStrRef(n.t):
		if n.num == nil {
			return nil, false
		}
		ev := m.hit(st, n.num.l)
		if ev == nil || !keyIsString(ev.m) {
			return nil, false
		}
		return ev.x, true
	case stringTags[n.t]:
		c, ok := m.payload(st, n)
		return c, ok
	}
	return nil, false
}

// sameString: two strings have the same bytes.
func (m *emit) sameString(st *State, a, b Value) bool {
	x, ok := m.w.content(st, a)
	return ok && m.sameStr(st, x, b)
}

// table finds how a writer is given a map.
func (x *emRefs) table(p *emPath, v Value) (emTable, bool) {
	k := valKey(v)
	for i, a := range p.args {
		if valKey(a) == k {
			return emTable{keyIsString(v), i, "", k}, true
		}
		pv, ok := a.(PtrV)
		if !ok || pv.elem == nil {
			continue
		}
		s, ok := pv.elem.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for j := 0; j < s.NumFields(); j++ {
			if _, isMap := s.Field(j).Type().Underlying().(*types.Map); !isMap {
				continue
			}
			if f, _, ok := x.m.e.fieldOf(p.st, a, s.Field(j).Name()); ok && valKey(f) == k {
				return emTable{keyIsString(v), i, s.Field(j).Name(), k}, true
			}
		}
	}
	return emTable{}, false
}

// tableAt is the map that a call passes as a table.
func tableAt(c *CallEv, t emTable) Value {
	if t.field == "" {
		return c.args[t.arg]
	}
	return c.pre[t.String()]
}

// discover finds the tables that the numbers of back-references come from.
func (x *emRefs) discover(ps []*emPath) {
	for _, p := range ps {
		for _, g := range x.m.regions(p) {
			for _, n := range g.nodes {
				if !isStrRef(n.t) && !isObjRef(n.t) || n.num == nil {
					continue
				}
				if ev := x.m.hit(g.st, n.num.l); ev != nil {
					if t, ok := x.table(p, ev.m); ok {
						if x.tabs[p.fn] == nil {
							x.tabs[p.fn] = map[string]emTable{}
						}
						x.tabs[p.fn][t.key] = t
					}
				}
			}
		}
	}
}

func (x *emRefs) list(fn *ssa.Function) (r []emTable) {
	for _, t := range x.tabs[fn] {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return
}

// reflCall is the call of a reflect.Value method that has the result.
func (m *emit) reflCall(st *State, v Value, names ...string) *CallEv {
	k := valKey(v)
	if i, ok := v.(IntV); ok {
		k = valKey(IntV{st.norm(i.l)})
	}
	for _, c := range m.calls(st) {
		for _, n := range names {
			if c.name != "(reflect.Value)."+n || len(c.res) == 0 {
				continue
			}
			rk := valKey(c.res[0])
			if i, ok := c.res[0].(IntV); ok {
				rk = valKey(IntV{st.norm(i.l)})
			}
			if rk == k {
				return c
			}
		}
	}
	return nil
}

// strHeader is the string whose data pointer a number is.
func (m *emit) strHeader(st *State, v Value) (SliceV, bool) {
	i, ok := v.(IntV)
	if !ok {
		return SliceV{}, false
	}
	s, ok := i.l.single()
	if !ok {
		return SliceV{}, false
	}
	name := m.e.syms.name(s)
	tm := m.e.terms[s]
	if tm.op == "conv:uintptr" {
		name = "at(" + valKey(tm.args[0]) + ").Data"
		if o, ok := tm.args[0].(Opq); ok {
			if t2 := m.e.terms[o.s]; t2.op == "strdata" {
				x, ok := t2.args[0].(SliceV)
				return x, ok
			}
		}
	}
	const pre, post = "at(", ").Data"
	if len(name) < len(pre)+len(post) || name[:len(pre)] != pre || name[len(name)-len(post):] != post {
		return SliceV{}, false
	}
	c, ok := m.e.syms.byKey[name[len(pre):len(name)-len(post)]]
	if !ok {
		return SliceV{}, false
	}
	tm = m.e.terms[c]
	if tm.op != "uconv:*reflect.StringHeader" {
		return SliceV{}, false
	}
	o, ok := tm.args[0].(Opq)
	if !ok {
		return SliceV{}, false
	}
	if tm = m.e.terms[o.s]; tm.op != "conv:unsafe.Pointer" {
		return SliceV{}, false
	}
	pv, ok := tm.args[0].(PtrV)
	if !ok || pv.obj == nil {
		return SliceV{}, false
	}
	// the string variable the pointer is that of
	var r SliceV
	n := 0
	for _, ev := range st.ev.list() {
		if ev.k == evStore && ev.ptr.obj == pv.obj && ev.ptr.path == pv.path {
			if sv, ok := ev.val.(SliceV); ok {
				r = sv
				n++
			}
		}
	}
	return r, n == 1
}

// identity finds the Go value that a key of the object table identifies.
func (x *emRefs) identity(st *State, key Value) (of Value, sure bool, why string) {
	m := x.m
	k, ok := key.(StructV)
	if !ok {
		return nil, false, "the key is not made of address, type and extent"
	}
	// what a function found out
	for _, c := range m.calls(st) {
		if c.fn == nil || len(c.res) != 1 || valKey(c.res[0]) != valKey(key) {
			continue
		}
		ct := m.e.cuts[c.fn]
		if ct == nil || len(c.args) == 0 {
			continue
		}
		if why := x.identifies(c.fn); why != "" {
			return nil, false, fname(c.fn) + ": " + why
		}
		for i, f := range k.f {
			if l, ok := f.(IntV); ok && x.isAddr(key, i) && st.decide(&Cond{k: cEq, l: st.norm(l.l)}) == no {
				sure = true
			}
		}
		return c.args[len(c.args)-1], sure, ""
	}
	var ptr, typ, ln Value
	hasLen := false
	other := func(f Value) bool {
		l, ok := f.(IntV)
		return ok && st.norm(l.l).isConst()
	}
	for _, f := range k.f {
		if c := m.reflCall(st, f, "Pointer", "UnsafePointer", "UnsafeAddr"); c != nil && c.name == "(reflect.Value).Pointer" {
			ptr = c.args[0]
			continue
		}
		if s, ok := m.strHeader(st, f); ok {
			for _, c := range m.calls(st) {
				if c.name != "(reflect.Value).String" {
					continue
				}
				if r, ok := c.res[0].(SliceV); ok && r.base == s.base && m.w.same(st, r.ln, s.ln) && m.w.same(st, r.off, s.off) {
					ptr = c.args[0]
				}
			}
			continue
		}
		if c := m.reflCall(st, f, "Type"); c != nil {
			typ = c.args[0]
			continue
		}
		if c := m.reflCall(st, f, "Len"); c != nil {
			ln, hasLen = c.args[0], true
			continue
		}
		if l, ok := f.(IntV); ok {
			for _, c := range m.calls(st) {
				if c.name == "(reflect.Value).String" {
					if r, ok := c.res[0].(SliceV); ok && m.w.same(st, r.ln, l.l) && !st.norm(l.l).isConst() {
						ln, hasLen = c.args[0], true
					}
				}
			}
			if hasLen {
				continue
			}
		}
		if !other(f) {
			return nil, false, "a part of the key is not the address, type or extent of a value"
		}
	}
	if ptr == nil {
		return nil, false, "the key does not hold the address of a value"
	}
	c := m.canon(st, ptr)
	if typ == nil || m.canon(st, typ) != c {
		return nil, false, "the key does not hold the type of the value"
	}
	if hasLen {
		if m.canon(st, ln) != c {
			return nil, false, "the key holds the extent of another value"
		}
	} else {
		kind := m.e.kindLin(ptr, false)
		for _, kk := range []int64{kSlice, kString} {
			if st.decide(&Cond{k: cEq, l: st.norm(kind).addc(-kk)}) != no {
				return nil, false, "the key does not hold the extent of the value"
			}
		}
	}
	return ptr, true, ""
}

// isAddr: component i of a key is an address.
func (x *emRefs) isAddr(key Value, i int) bool {
	s, ok := key.(StructV)
	if !ok {
		return false
	}
	u, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	b, ok := u.Field(i).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// identifies: a function returns what identifies its last argument, or the
// zero value. It returns what is wrong.
func (x *emRefs) identifies(fn *ssa.Function) string {
	if w, ok := x.ids[fn]; ok {
		return w
	}
	x.ids[fn] = "" // it may call itself
	m := x.m
	outs, args, _ := m.e.runCut(m.e.cuts[fn])
	why := ""
	for _, o := range outs {
		if o.panic || why != "" {
			continue
		}
		k, ok := o.res[0].(StructV)
		if !ok {
			why = "the result is unknown"
			continue
		}
		zero := false
		for i, f := range k.f {
			if l, ok := f.(IntV); ok && x.isAddr(k, i) && m.w.same(o.st, l.l, constLin(0)) {
				zero = true
			}
		}
		if zero {
			continue
		}
		of, _, w := x.identity(o.st, k)
		switch {
		case w != "":
			why = w
		case m.canon(o.st, of) != m.canon(o.st, args[len(args)-1]):
			why = "it identifies another value"
		}
		x.r.ok("identity")
	}
	x.ids[fn] = why
	return why
}

// valueOf is the Go value a node encodes.
func (m *emit) valueOf(p *emPath, st *State, n *node) string {
	switch {
	case n == p.root:
		return m.canon(p.st, m.val(p))
	case n.call != nil:
		return m.canon(st, n.call.args[m.roles[n.call.fn].vals[0]])
	}
	return "?"
}

func pos(l []*Ev, ev *Ev) int {
	for i, x := range l {
		if x == ev {
			return i
		}
	}
	return -1
}

// path checks one path.
func (x *emRefs) path(p *emPath) {
	m, r := x.m, x.r
	root := m.canon(p.st, m.val(p))
	for _, b := range m.parts(p).bad {
		r.check(!isStrRef(b.n.t), "string", p.key()+":"+b.n.name(), m.e.pos(p.o.at), "%s writes %s: %s (%s)", fname(p.fn), b.n.name(), b.why, m.e.p.Variant)
	}
	for _, g := range m.regions(p) {
		st := g.st
		type ref struct {
			n   *node
			get *Ev
		}
		var refs []ref
		for _, n := range g.nodes {
			if n.num == nil || !isStrRef(n.t) && !isObjRef(n.t) {
				continue
			}
			ev := m.hit(st, n.num.l)
			key, at := p.key()+":"+n.name(), m.e.pos(p.o.at)
			if !r.check(ev != nil, "number", key, at, "%s writes %s with an offset that was not found in a table (%s)", fname(p.fn), n.name(), m.e.p.Variant) {
				continue
			}
			refs = append(refs, ref{n, ev})
			t, ok := x.table(p, ev.m)
			r.check(ok && t.str == isStrRef(n.t), "table", key, m.e.pos(ev.site), "%s writes %s with an offset from a table that is not the one of this document for it (%s)", fname(p.fn), n.name(), m.e.p.Variant)
			if !isObjRef(n.t) {
				continue
			}
			of, _, why := x.identity(st, ev.x)
			if r.check(why == "", "object", key, m.e.pos(ev.site), "%s looks up an object: %s (%s)", fname(p.fn), why, m.e.p.Variant) {
				y := m.canon(st, of)
				r.check(y == root || y == "*"+root, "object", key, m.e.pos(ev.site), "%s writes %s to another object than the one it encodes (%s)", fname(p.fn), n.name(), m.e.p.Variant)
			}
			why = x.tracked(p, g, n)
			r.check(why == "", "tracked", key, at, "%s writes %s, but %s (%s)", fname(p.fn), n.name(), why, m.e.p.Variant)
		}
		for i, ev := range g.evs {
			switch ev.k {
			case evMapSet:
				t, ok := x.tabs[p.fn][valKey(ev.m)]
				if !ok {
					continue
				}
				key, at := p.key()+":set", m.e.pos(ev.site)
				why := x.set(p, g, ev, t)
				r.check(why == "", "entry", key, at, "%s enters an offset: %s (%s)", fname(p.fn), why, m.e.p.Variant)
				// nothing may refer to an item before it is there
				v, _ := ev.val.(IntV)
				for _, q := range refs {
					if j := pos(g.evs, q.get); j > i && valKey(q.get.m) == valKey(ev.m) {
						d := st.norm(q.n.at.sub(v.l))
						r.check(st.entails(d.addc(-1)), "order", key, at, "%s enters an offset of an item that is not written yet, and %s may refer to it (%s)", fname(p.fn), q.n.name(), m.e.p.Variant)
					}
				}
			case evStore:
				why := x.store(p, g, i, ev)
				r.check(why == "", "store", p.key(), m.e.pos(ev.site), "%s changes written bytes: %s (%s)", fname(p.fn), why, m.e.p.Variant)
			case evCall:
				if m.roles[ev.call.fn] == nil {
					continue
				}
				for _, t := range x.list(ev.call.fn) {
					same := false
					for _, o := range x.list(p.fn) {
						if v := tableAt(ev.call, t); v != nil && o.str == t.str && valKey(v) == o.key {
							same = true
						}
					}
					r.check(same, "passed", fname(p.fn)+":"+t.String(), m.e.pos(ev.call.site), "%s does not pass the table of offsets on to %s (%s)", fname(p.fn), fname(ev.call.fn), m.e.p.Variant)
				}
			}
		}
	}
}

// set checks an entry of a table.
func (x *emRefs) set(p *emPath, g *emRegion, ev *Ev, t emTable) string {
	m, st := x.m, g.st
	v, ok := ev.val.(IntV)
	if !ok {
		return "the offset is unknown"
	}
	if t.str {
		for _, n := range g.nodes {
			if n.call == nil && stringTags[n.t] && !isStrRef(n.t) && m.w.same(st, n.at, v.l) {
				s, ok := m.strOf(st, n)
				if ok && m.sameString(st, s, ev.x) {
					return ""
				}
				return "the item at the offset is not the string"
			}
		}
		return "no string item of its own is written at the offset"
	}
	of, sure, why := x.identity(st, ev.x)
	if why != "" {
		return why
	}
	if !sure {
		return "the key may not identify anything"
	}
	y := m.canon(st, of)
	for _, n := range g.nodes {
		if !m.w.same(st, n.at, v.l) {
			continue
		}
		if m.valueOf(p, st, n) != y {
			return "the item at the offset encodes another value"
		}
		if n.call != nil {
			for i, c := range g.evs {
				if c.k == evCall && c.call == n.call && i > pos(g.evs, ev) {
					return "the item at the offset is not written yet"
				}
			}
		}
		return ""
	}
	return "no item is written at the offset"
}

// byteCell: a store goes to a byte of memory that is not a local array.
func byteCell(ev *Ev) bool {
	return ev.ptr.idx != nil && ev.ptr.obj != nil && ev.ptr.elem != nil && isByte(ev.ptr.elem)
}

// chain is the memory that the output was in.
func (m *emit) chain(p *emPath, g *emRegion) map[*Obj]bool {
	r := map[*Obj]bool{}
	var add func(o *Obj)
	add = func(o *Obj) {
		if o == nil || r[o] {
			return
		}
		r[o] = true
		for _, f := range o.from {
			add(f)
		}
	}
	add(p.out.base)
	add(p.args[m.roles[p.fn].buf].(SliceV).base)
	for _, ev := range g.evs {
		if ev.k == evCall && m.roles[ev.call.fn] != nil {
			for _, i := range []int{m.roles[ev.call.fn].buf} {
				if s, ok := ev.call.args[i].(SliceV); ok {
					add(s.base)
				}
			}
			if s, ok := ev.call.res[m.roles[ev.call.fn].res].(SliceV); ok {
				add(s.base)
			}
		}
	}
	return r
}

// isTrack: a store sets the track bit of a byte that was there.
func (m *emit) isTrack(st *State, ev *Ev) string {
	v, ok := ev.val.(IntV)
	if !ok {
		return "an unknown byte is stored"
	}
	of, f, ok := m.e.byteFn(st.norm(v.l))
	if !ok {
		return "the byte stored is not the old one with the track bit"
	}
	dom := st.domOf(of)
	for _, i := range dom.members() {
		if f(i)&0xff != int64(i)|0x80 {
			return "the byte stored is not the old one with the track bit"
		}
	}
	return ""
}

// store checks a store to the output.
func (x *emRefs) store(p *emPath, g *emRegion, i int, ev *Ev) string {
	m, st := x.m, g.st
	if !byteCell(ev) || !m.chain(p, g)[ev.ptr.obj] {
		return ""
	}
	if w := m.isTrack(st, ev); w != "" {
		return w
	}
	for _, n := range g.nodes {
		if n.num != nil && isObjRef(n.t) && m.w.same(st, ev.ptr.off, n.num.l) {
			return ""
		}
	}
	return "the track bit is set where nothing refers to"
}

// tracked: the item that n refers to gets the track bit.
func (x *emRefs) tracked(p *emPath, g *emRegion, n *node) string {
	m, st := x.m, g.st
	ch := m.chain(p, g)
	for i, ev := range g.evs {
		if ev.k != evStore || !byteCell(ev) || !ch[ev.ptr.obj] || !m.w.same(st, ev.ptr.off, n.num.l) || m.isTrack(st, ev) != "" {
			continue
		}
		v := ev.val.(IntV)
		of, _, _ := m.e.byteFn(st.norm(v.l))
		if !m.isCellAt(st, of, ev.ptr) {
			return "the byte stored is that of another item"
		}
		// the buffer must not have moved on
		for _, b := range g.evs[:i] {
			var s SliceV
			ok := false
			switch {
			case b.k == evNote && b.name == "append":
				s, ok = b.val.(SliceV)
			case b.k == evCall && m.roles[b.call.fn] != nil:
				s, ok = b.call.args[m.roles[b.call.fn].buf].(SliceV)
			}
			if ok && s.base == ev.ptr.obj {
				return "the track bit is set in a buffer that is no longer used"
			}
		}
		return ""
	}
	return "does not set the track bit of its target"
}

// isCellAt: a symbol is the byte that was at the place.
func (m *emit) isCellAt(st *State, of Sym, p PtrV) bool {
	name := m.e.syms.name(of)
	i := 0
	for i < len(name) && name[i] != '[' {
		i++
	}
	if i == len(name) || name[len(name)-1] != ']' {
		return false
	}
	return name[i+1:len(name)-1] == m.e.syms.str(st.norm(p.off)) || name[i+1:len(name)-1] == m.e.syms.str(p.off)
}

// documents checks where offsets count from and what the tables hold at first.
func (x *emRefs) documents(ds []*emDoc) {
	m, r := x.m, x.r
	for _, d := range ds {
		if d.err != "" {
			continue
		}
		for _, it := range []struct {
			n    *node
			what string
			want Lin
		}{{d.hdr, "user header", constLin(1)}, {d.body, "body", constLin(1)}} {
			if it.n == nil {
				continue
			}
			if it.what == "body" && d.ver == 1 {
				it.want = d.w.begin
			}
			key, at := fmt.Sprintf("%s:%s:%d", fname(d.fn), it.what, d.ver), d.at(m.e)
			c := it.n.call
			if c == nil || m.roles[c.fn] == nil {
				continue
			}
			ro := m.roles[c.fn]
			b, ok := c.args[ro.buf].(SliceV)
			r.check(ok && m.w.same(d.w.st, b.ln, it.want), "origin", key, at, "%s: offsets in the %s do not count from where the specification says (%s)", fname(d.fn), it.what, m.e.p.Variant)
			for _, t := range x.list(c.fn) {
				why := x.freshAt(d.w.st, c, t)
				r.check(why == "", "fresh", key+":"+t.String(), at, "%s, %s: %s (%s)", fname(d.fn), it.what, why, m.e.p.Variant)
			}
		}
	}
}

// freshAt: a table is empty when a top-level item is written.
func (x *emRefs) freshAt(st *State, c *CallEv, t emTable) string {
	v, ok := tableAt(c, t).(Opq)
	if !ok {
		return "the table of offsets is unknown"
	}
	fresh := false
	for _, ev := range st.ev.list() {
		switch {
		case ev.k == evNote && ev.name == "makemap" && ev.val.(Opq).s == v.s:
			fresh = true
		case ev.k == evMapSet && valKey(ev.m) == valKey(v):
			fresh = false
		case ev.k == evCall && ev.call == c:
			if !fresh {
				return "the table of offsets may hold those of another part of the document or of another document"
			}
			return ""
		case ev.k == evCall && x.m.roles[ev.call.fn] != nil:
			for _, u := range x.list(ev.call.fn) {
				if w := tableAt(ev.call, u); w != nil && valKey(w) == valKey(v) {
					fresh = false
				}
			}
		}
	}
	return "the table of offsets is unknown"
}

func init() {
	checks["C20"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Every COPY and REFP that a path of the encoder writes must hold a number found in an offset table that the path was given; every entry made in such a table must be the offset of an item which the same path writes there and which encodes that very string or object; objects are identified by address, type and (for slices and strings) extent; the target of a REFP gets the track bit in the buffer that is returned, and no other byte written is changed; the tables are passed on to nested items and are empty when the user header and the body are started, whose first offset is the one the specification gives."
		var mu sync.Mutex
		all := map[*emit]*emRefs{}
		get := func(m *emit) *emRefs {
			mu.Lock()
			x := all[m]
			mu.Unlock()
			if x == nil {
				x = &emRefs{m: m, r: r, tabs: map[*ssa.Function]map[string]emTable{}, ids: map[*ssa.Function]string{}}
				for _, fn := range m.sorted() {
					x.discover(m.paths(fn))
				}
				mu.Lock()
				all[m] = x
				mu.Unlock()
			}
			return x
		}
		forEncoder(r, func(m *emit, fn *ssa.Function, ps []*emPath) {
			x := get(m)
			r.check(len(x.list(fn)) > 0, "tables", fname(fn), m.e.posOf(fn.Pos(), fn), "%s: no table of offsets was found (%s)", fname(fn), m.e.p.Variant)
			for _, p := range ps {
				if p.root != nil {
					x.path(p)
				}
			}
		}, func(m *emit, ds []*emDoc) { get(m).documents(ds) })
		r.atLeast("number", 10)
		r.atLeast("entry", 10)
		r.atLeast("origin", 10)
	}
}
