package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the nested items of a composite value must stand for (C39).

// partBad is a nested item that is not what it should be.
type partBad struct {
	n   *node
	why string
}

type emParts struct {
	m   *emit
	p   *emPath
	st  *State // of the path
	v   Opq    // the value
	x   Value  // the value with its type, if known
	t   types.Type
	cn  string
	bad []partBad
	n   int
	// of these, those about the fields of structs
	fbad []partBad
	fn   int
	inF  bool
}

func (q *emParts) check(ok bool, n *node, f string, a ...interface{}) bool {
	q.n++
	if q.inF {
		q.fn++
	}
	if !ok {
		b := partBad{n, fmt.Sprintf(f, a...)}
		q.bad = append(q.bad, b)
		if q.inF {
			q.fbad = append(q.fbad, b)
		}
	}
	return ok
}

// parts checks the nested items of a path.
func (m *emit) parts(p *emPath) *emParts {
	v, _ := m.val(p).(Opq)
	q := &emParts{m: m, p: p, st: p.st, v: v, cn: m.canon(p.st, v)}
	if q.t = m.dynType(p); q.t != nil {
		q.x = m.e.asType(v, q.t)
	}
	if p.root != nil {
		q.item(p.root, true)
	}
	return q
}

// arg is the value that a node written by a call encodes.
func (q *emParts) arg(st *State, n *node) string {
	if n.call == nil {
		return "?"
	}
	return q.m.canon(st, n.call.args[q.m.roles[n.call.fn].vals[0]])
}

// isKind: the value is of one of these kinds.
func (q *emParts) isKind(ks ...int64) bool {
	if q.t != nil {
		var k int64 = -1
		switch q.t.Underlying().(type) {
		case *types.Slice:
			k = kSlice
		case *types.Map:
			k = kMap
		case *types.Struct:
			k = kStruct
		case *types.Pointer:
			k = kPtr
		case *types.Array:
			k = kArray
		}
		for _, x := range ks {
			if x == k {
				return true
			}
		}
		return false
	}
	// any reflect.Value for it
	for _, o := range q.views() {
		k := q.m.e.kindLin(o, false)
		all := true
		for i := int64(0); i < 32; i++ {
			in := false
			for _, x := range ks {
				in = in || x == i
			}
			if !in && q.st.decide(&Cond{k: cEq, l: q.st.norm(k).addc(-i)}) != no {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	return false
}

// views are the reflect.Values that the path made of the value.
func (q *emParts) views() (r []Opq) {
	seen := map[Sym]bool{}
	for _, c := range q.m.calls(q.st) {
		for _, v := range append(append([]Value(nil), c.args...), c.res...) {
			o, ok := v.(Opq)
			if ok && !seen[o.s] && isReflectValue(o.t) && q.m.canon(q.st, o) == q.cn {
				seen[o.s] = true
				r = append(r, o)
			}
		}
	}
	return
}

func isPerlType(t types.Type, names ...string) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/sereal") {
		return false
	}
	for _, s := range names {
		if n.Obj().Name() == s {
			return true
		}
	}
	return false
}

// field is a field of a struct value.
func field(v Value, name string) Value {
	s, ok := v.(StructV)
	if !ok {
		return nil
	}
	u, ok := s.t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return s.f[i]
		}
	}
	return nil
}

func (q *emParts) item(n *node, top bool) {
	m, st := q.m, q.st
	switch {
	case n.call != nil:
		a := q.arg(st, n)
		if a == q.cn {
			q.check(true, n, "")
			return
		}
		// what a pointer to one of the types for Perl points to
		ok := a == "*"+q.cn && q.perlBehind()
		q.check(ok, n, "another value is encoded in place of this one")
	case n.t == tgREFN && len(n.kids) == 1:
		k := n.kids[0]
		if k.call != nil {
			q.check(q.arg(st, k) == "*"+q.cn && q.isKind(kPtr), n, "a reference is not to what the pointer points to")
			return
		}
		if top && (k.t == tgARRAY || k.t == tgHASH || k.t == 0x40 || k.t == 0x50) {
			q.item(k, false)
			return
		}
		q.check(false, n, "a reference to what the value is not")
	case n.t == tgARRAY || n.t == 0x40:
		if n.t == 0x40 && !q.check(top, n, "a reference too many") {
			return
		}
		q.array(n)
	case n.t == tgHASH || n.t == 0x50:
		if n.t == 0x50 && !q.check(top, n, "a reference too many") {
			return
		}
		q.hash(n)
	case n.t == tgOBJECT || n.t == tgOBJECTV:
		q.object(n)
	case n.t == tgOBJECTFREEZE || n.t == tgOBJECTVFREEZE:
		q.freeze(n)
	case n.t == tgREGEXP:
		pat, mod := field(q.x, "Pattern"), field(q.x, "Modifiers")
		if q.check(q.t != nil && isPerlType(q.t, "PerlRegexp") && pat != nil && mod != nil && len(n.kids) == 2, n, "a value that is no PerlRegexp is written as REGEXP") {
			q.str(st, n.kids[0], pat, "the pattern")
			q.str(st, n.kids[1], mod, "the modifiers")
		}
	case n.t == tgWEAKEN:
		ref := field(q.x, "Reference")
		if q.check(q.t != nil && isPerlType(q.t, "PerlWeakRef") && ref != nil && len(n.kids) == 1, n, "a value that is no PerlWeakRef is written as WEAKEN") {
			k := n.kids[0]
			q.check(k.call != nil && q.arg(st, k) == m.canon(st, ref), k, "the referent of WEAKEN is not that of the PerlWeakRef")
		}
	case n.t == tgREFP || len(n.kids) == 0 && len(n.reps) == 0:
		// C19, C20
	default:
		q.check(false, n, "%s is written for a Go value", wireTags[n.t].name)
	}
}

// perlBehind: the value is a pointer to one of the types for Perl.
func (q *emParts) perlBehind() bool {
	for s, f := range q.st.typs {
		if f.is != nil && isPerlType(f.is, "PerlObject", "PerlRegexp", "PerlWeakRef", "PerlUndef") && q.m.canon(q.st, Opq{s: s}) == "*"+q.cn {
			return true
		}
	}
	return false
}

// str: a string item is this string.
func (q *emParts) str(st *State, n *node, want Value, what string) bool {
	s, ok := q.m.strOf(st, n)
	return q.check(ok && want != nil && q.m.sameString(st, s, want), n, "%s is written as another string", what)
}

// declared is the count of a container item.
func (q *emParts) declared(n *node) Lin {
	if n.num != nil {
		return q.st.norm(n.num.l)
	}
	return q.st.norm(n.tag.addc(int64(-n.t)))
}

// step is the number of the current round of a loop: rounds run from 0.
func (m *emit) step(l *ploop, b *pbody) []Lin {
	var r []Lin
	for _, v := range l.ctx.vars {
		hd, ok1 := v.head.(IntV)
		in, ok2 := v.init.(IntV)
		if !ok1 || !ok2 {
			continue
		}
		d := int64(0)
		ok := true
		for _, b := range l.bodies {
			bv, isInt := m.e.backVal(b.be, v, l.ctx).(IntV)
			if !isInt {
				ok = false
				break
			}
			x := b.be.st.norm(bv.l.sub(hd.l))
			if !x.isConst() || d != 0 && x.c != d || x.c != 1 && x.c != -1 {
				ok = false
				break
			}
			d = x.c
		}
		if !ok || d == 0 {
			continue
		}
		n := hd.l.sub(in.l)
		if d < 0 {
			n = n.neg()
		}
		r = append(r, b.be.st.norm(n))
	}
	return r
}

// at: the index is that of element j of a round.
func (q *emParts) at(l *ploop, b *pbody, per, j int64, idx Lin) bool {
	for _, s := range q.m.step(l, b) {
		want := constLin(j)
		for i := int64(0); i < per; i++ {
			want = want.add(s)
		}
		if q.m.w.same(b.be.st, idx, want) {
			return true
		}
	}
	// a counter of elements
	for _, v := range l.ctx.vars {
		hd, ok1 := v.head.(IntV)
		in, ok2 := v.init.(IntV)
		if !ok1 || !ok2 || per == 1 {
			continue
		}
		ok := true
		for _, b := range l.bodies {
			bv, isInt := q.m.e.backVal(b.be, v, l.ctx).(IntV)
			if !isInt || !q.m.w.same(b.be.st, bv.l.sub(hd.l), constLin(per)) {
				ok = false
				break
			}
		}
		if ok && q.m.w.same(b.be.st, idx, hd.l.sub(in.l).addc(j)) {
			return true
		}
	}
	return false
}

// base strips what makes a reflect.Value or an interface of a value.
func (m *emit) base(st *State, v Value) Opq {
	for i := 0; i < 20; i++ {
		switch x := v.(type) {
		case IfaceV:
			v = x.v
			continue
		case Opq:
			tm := m.e.terms[x.s]
			if tm.op == "rValueOf" || tm.op == "rInterface" {
				v = tm.args[0]
				continue
			}
			return x
		}
		break
	}
	return Opq{}
}

func (q *emParts) array(n *node) {
	m, st := q.m, q.st
	if !q.check(q.isKind(kSlice, kArray), n, "a value that is no slice or array is written as ARRAY") {
		return
	}
	// the number of elements
	cnt := q.declared(n)
	src, static := q.x.(SliceV)
	isLen := func(st *State, l Lin) bool {
		if static && m.w.same(st, l, src.ln) {
			return true
		}
		c := m.reflCall(q.st, IntV{st.norm(l)}, "Len")
		return c != nil && m.canon(q.st, c.args[0]) == q.cn
	}
	okLen := isLen(st, cnt)
	if !okLen && cnt.isConst() {
		for _, c := range m.calls(st) {
			if c.name == "(reflect.Value).Len" && m.canon(st, c.args[0]) == q.cn && m.w.same(st, m.e.lin(c.res[0]), cnt) {
				okLen = true
			}
		}
	}
	if !q.check(okLen, n, "the number of elements of ARRAY is not that of the value") {
		return
	}
	i := int64(0)
	one := func(st *State, k *node, ok func(idx Lin) bool) {
		if !q.check(k.call != nil, k, "an element of ARRAY is not encoded as a value") {
			return
		}
		o := m.base(st, k.call.args[m.roles[k.call.fn].vals[0]])
		tm := m.e.terms[o.s]
		switch {
		case tm.op == "rIndex" && m.canon(st, tm.args[0]) == q.cn:
			q.check(ok(m.e.lin(tm.args[1])), k, "the elements of ARRAY are not written in order")
		case static:
			idx, found := q.elemIndex(st, src, o)
			q.check(found && ok(idx), k, "an element of ARRAY is not the next one of the value")
		default:
			q.check(false, k, "an element of ARRAY is not one of the value")
		}
	}
	for _, r := range n.reps {
		for _, k := range r.items {
			one(st, k, func(idx Lin) bool { return m.w.same(st, idx, constLin(i)) })
			i++
		}
		if r.loop == nil {
			continue
		}
		if !q.check(i == 0, n, "the elements of ARRAY are not written in one go") {
			return
		}
		for _, b := range r.loop.bodies {
			for j, k := range b.items {
				one(b.be.st, k, func(idx Lin) bool { return q.at(r.loop, b, int64(len(b.items)), int64(j), idx) })
			}
		}
	}
}

// elemIndex: v was read from the slice at this index.
func (q *emParts) elemIndex(st *State, src SliceV, v Opq) (Lin, bool) {
	name := q.m.e.syms.name(v.s)
	pre := src.base.key + "["
	if src.base == nil || !strings.HasPrefix(name, pre) {
		return Lin{}, false
	}
	// the index variables of the path
	var cands []Lin
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k != evLoopIn && ev.k != evLoopOut {
			continue
		}
		for _, lv := range ev.loop.vars {
			if h, ok := lv.head.(IntV); ok {
				for d := int64(-4); d <= 4; d++ {
					cands = append(cands, h.l.addc(d))
				}
			}
		}
	}
	for d := int64(0); d < 8; d++ {
		cands = append(cands, constLin(d))
	}
	for _, c := range cands {
		if o, ok := q.m.e.load(st, q.m.e.elemPtr(src, c), src.elem).(Opq); ok && o.s == v.s {
			return c, true
		}
	}
	return Lin{}, false
}

func (q *emParts) hash(n *node) {
	m, st := q.m, q.st
	if !q.check(q.isKind(kMap), n, "a value that is no map is written as HASH") {
		return
	}
	cnt := q.declared(n)
	mp, static := q.x.(Opq)
	okLen := static && m.w.same(st, cnt, m.e.mapLen(st, mp))
	if c := m.reflCall(st, IntV{cnt}, "Len"); c != nil && m.canon(st, c.args[0]) == q.cn {
		okLen = true
	}
	keys := q.mapKeys()
	for _, c := range m.calls(st) {
		if c.name == "(reflect.Value).Len" && m.canon(st, c.args[0]) == q.cn && m.w.same(st, m.e.lin(c.res[0]), cnt) {
			okLen = true
		}
	}
	for _, s := range keys {
		okLen = okLen || m.w.same(st, cnt, s.ln)
	}
	if !q.check(okLen, n, "the number of pairs of HASH is not that of the value") {
		return
	}
	for _, r := range n.reps {
		if !q.check(r.loop != nil && len(n.reps) == 1, n, "the pairs of HASH are not written in one loop") {
			return
		}
		for _, b := range r.loop.bodies {
			q.pairs(n, r.loop, b, mp, static, keys)
		}
	}
}

// mapKeys are the slices of keys the path took from the value.
func (q *emParts) mapKeys() (r []SliceV) {
	for _, c := range q.m.calls(q.st) {
		if c.name == "(reflect.Value).MapKeys" && q.m.canon(q.st, c.args[0]) == q.cn {
			if s, ok := c.res[0].(SliceV); ok {
				r = append(r, s)
			}
		}
	}
	return
}

// rKey is the reflect.Value whose string an item is.
func (q *emParts) rKey(st *State, n *node) (Value, bool) {
	s, ok := q.m.strOf(st, n)
	if !ok {
		return nil, false
	}
	for _, c := range q.m.calls(st) {
		if c.name == "(reflect.Value).String" && q.m.sameString(st, s, c.res[0]) && q.m.w.same(st, q.m.e.kindLin(c.args[0], false), constLin(kString)) {
			return c.args[0], true
		}
	}
	return nil, false
}

func (q *emParts) pairs(n *node, l *ploop, b *pbody, mp Opq, static bool, keys []SliceV) {
	m, st := q.m, b.be.st
	per := int64(len(b.items) / 2)
	for j := 0; j+1 < len(b.items); j += 2 {
		k, v := b.items[j], b.items[j+1]
		if !q.check(v.call != nil, v, "a value of HASH is not encoded as a value") {
			continue
		}
		if static {
			rm, ok := rangedMap(m, l)
			ns := nexts(st, l.ctx)
			if !q.check(ok && rm.s == mp.s && len(ns) == 1 && per == 1, n, "the pairs of HASH are not those of the map") {
				continue
			}
			q.str(st, k, ns[0].x, "a key")
			q.check(ns[0].val2 != nil && q.arg(st, v) == m.canon(st, ns[0].val2), v, "the value written after a key is not the one it has in the map")
			continue
		}
		rk, ok := q.rKey(st, k)
		if !q.check(ok, k, "a key of HASH is not a key of the map") {
			continue
		}
		o := m.base(st, v.call.args[m.roles[v.call.fn].vals[0]])
		tm := m.e.terms[o.s]
		ck := m.canon(st, rk)
		if tm.op == "rIterValue" {
			// an iterator
			okey, isO := m.origin(st, rk)
			t2 := m.e.terms[okey.s]
			q.check(isO && t2.op == "rIterKey" && len(t2.args) == 2 && valKey(t2.args[0]) == valKey(tm.args[0]) && t2.args[1] == tm.args[1] && q.iterates(tm.args[0]), v, "the value written after a key is not the one it has in the map")
			continue
		}
		q.check(tm.op == "rMapIndex" && m.canon(st, tm.args[0]) == q.cn && m.canon(st, tm.args[1]) == ck, v, "the value written after a key is not the one it has in the map")
		okey, isO := m.origin(st, rk)
		found := false
		for _, s := range keys {
			idx, ok := q.elemIndex(st, s, okey)
			found = found || isO && ok && q.at(l, b, per, int64(j/2), idx)
		}
		q.check(found, k, "the keys of HASH are not all those of the map")
	}
}

// iterates: an iterator goes over the value.
func (q *emParts) iterates(it Value) bool {
	for _, c := range q.m.calls(q.st) {
		if c.name == "(reflect.Value).MapRange" && len(c.res) == 1 && valKey(c.res[0]) == valKey(it) && q.m.canon(q.st, c.args[0]) == q.cn {
			return true
		}
	}
	return false
}

// origin looks through the interfaces around a value.
func (m *emit) origin(st *State, v Value) (Opq, bool) {
	o, ok := v.(Opq)
	for i := 0; ok && i < 20; i++ {
		o = m.base(st, o)
		tm := m.e.terms[o.s]
		if tm.op == "rElem" && m.w.same(st, m.e.kindLin(tm.args[0], false), constLin(kIface)) {
			o, ok = tm.args[0].(Opq)
			continue
		}
		// at the head of a loop that unwraps interfaces
		next := false
		for ev := st.ev; ev != nil && !next; ev = ev.prev {
			if ev.k != evLoopIn && ev.k != evLoopOut {
				continue
			}
			for _, lv := range ev.loop.vars {
				if h, isO := lv.head.(Opq); isO && h.s == o.s && m.unwraps(ev.loop, lv, h) {
					o, ok = lv.init.(Opq)
					next = true
					break
				}
			}
		}
		if !next {
			return o, true
		}
	}
	return o, ok
}

// typeName: the string is what a method of the type of the value returns.
func (q *emParts) typeCall(st *State, s SliceV, name string) bool {
	for _, c := range q.m.calls(st) {
		if c.name != "(reflect.Type)."+name || len(c.res) == 0 || !q.m.sameStr(st, s, c.res[0]) {
			continue
		}
		o, ok := c.args[0].(Opq)
		if tm := q.m.e.terms[o.s]; ok && (tm.op == "rType" || tm.op == "rTypeOf") && q.m.canon(st, tm.args[0]) == q.cn {
			return true
		}
	}
	return false
}

func (q *emParts) object(n *node) {
	m, st := q.m, q.st
	if len(n.kids) == 0 && n.t == tgOBJECT {
		q.check(false, n, "OBJECT without parts")
		return
	}
	cls, k := n, n.kids[len(n.kids)-1]
	if n.t == tgOBJECT {
		cls = n.kids[0]
	}
	if q.t != nil {
		c, ref := field(q.x, "Class"), field(q.x, "Reference")
		if q.check(isPerlType(q.t, "PerlObject") && c != nil && ref != nil, n, "a value that is no PerlObject is written as OBJECT") {
			q.str(st, cls, c, "the class")
			q.check(k.call != nil && q.arg(st, k) == m.canon(st, ref), k, "the referent of OBJECT is not that of the PerlObject")
		}
		return
	}
	if !q.check(q.isKind(kStruct), n, "a value that is no struct is written as OBJECT") {
		return
	}
	s, ok := m.strOf(st, cls)
	var c SliceV
	if ok {
		c, ok = m.w.content(st, s)
	}
	q.check(ok && q.typeCall(st, c, "Name"), cls, "the class written is not the name of the type")
	if k.t == tgREFN && len(k.kids) == 1 {
		k = k.kids[0]
	}
	if !q.check(k.t == tgHASH || k.t == 0x50, k, "a struct is not written as HASH") {
		return
	}
	q.fields(k)
}

// table: m is the table of fields of the type of the value.
func (q *emParts) table(mp Opq) bool {
	m, st := q.m, q.st
	isType := func(v Value) bool {
		o, ok := v.(Opq)
		tm := m.e.terms[o.s]
		return ok && tm.op == "rType" && m.canon(st, tm.args[0]) == q.cn
	}
	for _, ev := range st.ev.list() {
		switch {
		case ev.k == evMapGet && ev.ok != nil && st.decide(ev.ok) == yes && valKey(ev.val) == valKey(mp) && isType(ev.x):
			return true
		case ev.k == evMapSet && valKey(ev.val) == valKey(mp) && isType(ev.x):
			// made here and remembered under its type
			return true
		}
	}
	return false
}

func (q *emParts) fields(n *node) {
	m, st := q.m, q.st
	q.inF = true
	defer func() { q.inF = false }()
	cnt := q.declared(n)
	if len(n.reps) == 0 {
		// no fields
		ok := false
		if q.check(cnt.isConst() && cnt.c == 0, n, "the fields of a struct are not written") {
			for _, ev := range st.ev.list() {
				switch ev.k {
				case evMapGet, evMapSet:
					if ev.k == evMapGet && (ev.ok == nil || st.decide(ev.ok) != yes) {
						continue
					}
					if o, isO := ev.val.(Opq); isO && q.table(o) && m.w.same(st, m.e.mapLen(st, o), constLin(0)) {
						ok = true
					}
					if _, isNil := ev.val.(NilV); isNil && ev.k == evMapSet {
						if t, isO := ev.x.(Opq); isO && m.e.terms[t.s].op == "rType" && m.canon(st, m.e.terms[t.s].args[0]) == q.cn {
							ok = true
						}
					}
				}
			}
			q.check(ok, n, "the fields of a struct are not written")
		}
		return
	}
	for _, r := range n.reps {
		if !q.check(r.loop != nil && len(n.reps) == 1, n, "the fields of a struct are not written in one loop") {
			return
		}
		mp, ok := rangedMap(m, r.loop)
		if !q.check(ok && q.table(mp), n, "the fields written are not those of the type") {
			return
		}
		if !q.check(m.w.same(st, cnt, m.e.mapLen(r.loop.ctx.pre, mp)), n, "the number of pairs of HASH is not that of the fields") {
			return
		}
		for _, b := range r.loop.bodies {
			ns := nexts(b.be.st, r.loop.ctx)
			if !q.check(len(ns) == 1 && len(b.items) == 2 && b.items[1].call != nil, n, "the fields are not written one by one") {
				continue
			}
			q.str(b.be.st, b.items[0], ns[0].x, "the name of a field")
			o := m.base(b.be.st, b.items[1].call.args[m.roles[b.items[1].call.fn].vals[0]])
			tm := m.e.terms[o.s]
			iv, isInt := ns[0].val2.(IntV)
			q.check(tm.op == "rField" && isInt && m.canon(b.be.st, tm.args[0]) == q.cn && m.w.same(b.be.st, m.e.lin(tm.args[1]), iv.l), b.items[1], "the value of a field is not the one of that name")
		}
	}
}

func (q *emParts) freeze(n *node) {
	m, st := q.m, q.st
	cls, k := n, n.kids[len(n.kids)-1]
	if n.t == tgOBJECTFREEZE {
		cls = n.kids[0]
	}
	s, ok := m.strOf(st, cls)
	if ok {
		c, isS := s.(SliceV)
		ps := joined(c)
		dot := ""
		if isS && len(ps) == 3 {
			dot, _ = constStr(ps[1])
		}
		ok = isS && len(ps) == 3 && dot == "." && q.typeCall(st, ps[0], "PkgPath") && q.typeCall(st, ps[2], "Name")
	}
	q.check(ok, cls, "the class of a frozen object is not the qualified name of its type")
	var res SliceV
	ok = false
	for _, c := range m.calls(st) {
		if strings.HasSuffix(c.name, ".MarshalBinary") && len(c.res) == 2 && m.canon(st, c.args[0]) == q.cn && st.decide(m.e.nilCond(c.res[1])) == yes {
			res, ok = c.res[0].(SliceV)
		}
	}
	if !q.check(ok, n, "a value is frozen without its own MarshalBinary having succeeded") {
		return
	}
	if k.t == tgREFN && len(k.kids) == 1 {
		k = k.kids[0]
	} else if k.t != 0x41 {
		q.check(false, k, "a frozen object is not written behind a reference")
		return
	}
	if !q.check((k.t == tgARRAY || k.t == 0x40) && m.w.same(st, q.declared(k), constLin(1)) && len(k.reps) == 1 && len(k.reps[0].items) == 1, k, "a frozen object is not written as one element") {
		return
	}
	x := k.reps[0].items[0]
	if x.call == nil {
		s, ok := m.strOf(st, x)
		q.check(ok && (x.t >= 0x60 || x.t == tgBINARY) && m.sameString(st, s, res), x, "the frozen bytes are not those MarshalBinary returned")
		return
	}
	v := x.call.args[m.roles[x.call.fn].vals[0]]
	for i := 0; i < 10; i++ {
		if o, ok := v.(Opq); ok {
			if tm := m.e.terms[o.s]; tm.op == "rValueOf" || tm.op == "rInterface" {
				v = tm.args[0]
				continue
			}
		}
		if f, ok := v.(IfaceV); ok {
			v = f.v
			continue
		}
		break
	}
	b, ok := v.(SliceV)
	q.check(ok && b.base == res.base && m.w.same(st, b.off, res.off) && m.w.same(st, b.ln, res.ln), x, "the frozen bytes are not those MarshalBinary returned")
}

func init() {
	checks["C39"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every accepting path that writes a composite item, its declared count must be the length of the very value encoded, and every nested item must encode the part of that value that belongs there: element i of an array or slice in order, each key of a map with the value it has, each field of a struct under the name its type's field table gives it, what a pointer points to, the class and referent of a PerlObject, pattern and modifiers of a PerlRegexp, the referent of a PerlWeakRef, and the bytes MarshalBinary returned under the qualified type name. String items that are back-references are taken for the string they were looked up with."
		forEncoder(r, func(m *emit, fn *ssa.Function, ps []*emPath) {
			for _, p := range ps {
				if p.root == nil {
					r.undecided("item:"+p.key(), "%s: what is written was not recognised: %s (%s)", fname(fn), p.err, m.e.p.Variant)
					continue
				}
				q := m.parts(p)
				for i := len(q.bad); i < q.n; i++ {
					r.ok("part")
				}
				for _, b := range q.bad {
					r.bad("part", p.key()+":"+b.n.name(), m.e.pos(p.o.at), "%s: %s (%s)", fname(fn), b.why, m.e.p.Variant)
				}
			}
		}, nil)
		r.atLeast("part", 300)
	}
}
