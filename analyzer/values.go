package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What item readers store, compared with what the specification says the
// bytes mean (C17) and with the documented Go types (C33).

// dest is the interface an untyped reader stores to.
func (w *wire) dest(p *wirePath) (PtrV, bool) {
	for _, a := range p.args {
		if pv, ok := a.(PtrV); ok && pv.obj != nil && pv.elem != nil {
			if it, ok := pv.elem.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				return pv, true
			}
		}
	}
	return PtrV{}, false
}

// rdest is the reflect.Value a typed reader stores to.
func (w *wire) rdest(p *wirePath, fn *ssa.Function) (Opq, bool) {
	for i, q := range fn.Params {
		if isReflectValue(q.Type()) {
			o, ok := p.args[i].(Opq)
			return o, ok
		}
	}
	return Opq{}, false
}

// content traces a byte slice or string to the memory its bytes were copied
// from.
func (w *wire) content(st *State, v Value) (SliceV, bool) {
	s, ok := v.(SliceV)
	if !ok {
		return SliceV{}, false
	}
	for i := 0; i < 8; i++ {
		c := *w.e.contentOf(st, s)
		if c.base != s.base {
			s = c
			continue
		}
		if s.log != nil && s.skip.isConst() && s.skip.c == 0 {
			l := s.log.list()
			if len(l) > 0 && l[0].k == tStart && l[0].n.isConst() && l[0].n.c == 0 {
				l = l[1:]
				if len(l) == 1 && l[0].k == tBytes && l[0].v != nil && w.same(st, l[0].n, s.ln) {
					n := s.ln
					s = *l[0].v
					s.ln = n
					continue
				}
			}
		}
		break
	}
	return s, true
}

// isSpan: the bytes of v are by[from:from+n].
func (w *wire) isSpan(st *State, v Value, p *wirePath, from, n Lin) bool {
	c, ok := w.content(st, v)
	if !ok {
		return false
	}
	if w.same(st, n, constLin(0)) && w.same(st, c.ln, constLin(0)) {
		return true
	}
	return c.base == p.buf.base && w.same(st, c.off, p.buf.off.add(from)) && w.same(st, c.ln, n)
}

// isString: the bytes of v are those a string reader returned.
func (w *wire) isString(st *State, v Value, s *wstep) bool {
	want := w.strRes(s)
	c, ok := w.content(st, v)
	if !ok || want == nil {
		return false
	}
	return c.base == want.base && w.same(st, c.off, want.off) && w.same(st, c.ln, want.ln)
}

func (w *wire) strRes(s *wstep) *SliceV {
	if s.call == nil {
		return nil
	}
	for _, x := range s.call.res {
		if r, ok := x.(SliceV); ok {
			return &r
		}
	}
	return nil
}

// pieces of the body of an item
func (p *wirePath) nth(k byte, i int) *wstep {
	for _, s := range p.body() {
		if s.k == k {
			if i == 0 {
				return s
			}
			i--
		}
	}
	return nil
}

func (p *wirePath) jump(k byte) *wstep {
	for _, s := range p.ch.jumps {
		if s.k == k {
			return s
		}
	}
	return nil
}

// number is what an integer tag and its payload mean, as 64 bits.
func (w *wire) number(p *wirePath, t int) *bitvec {
	switch t &= 0x7f; {
	case t < 16:
		return constVec(int64(t))
	case t < 32:
		return constVec(int64(t) - 32)
	}
	v := p.nth('V', 0)
	if v == nil {
		return nil
	}
	n := w.e.vec(v.n)
	if t == tgVARINT {
		return n
	}
	var z bitvec
	for i := 0; i < 63; i++ {
		z[i] = n[i+1].xor(n[0])
	}
	z[63] = n[0]
	return &z
}

// underPath replaces the sign bit of want in v by its value, if the path
// determines it.
func (w *wire) underPath(st *State, v, want *bitvec) *bitvec {
	b := want[63]
	if len(b.a) != 1 {
		return v
	}
	only := bitvec{0: {a: b.a}}
	k := unknown
	for _, t := range []types.Type{types.Typ[types.Int], types.Typ[types.Uint8]} {
		if k != yes && k != no {
			k = st.decide(&Cond{k: cEq, l: st.norm(w.e.fromBits(st, &only, t))})
		}
	}
	if k != yes && k != no && b.a[0].i == 63 {
		// the sign of a number
		l := symLin(b.a[0].s)
		if st.entails(l) {
			k = yes
		} else if st.entails(l.neg().addc(-1)) {
			k = no
		}
	}
	if k != yes && k != no {
		return v
	}
	r := *v
	for i := range r {
		for _, x := range r[i].a {
			if x == b.a[0] {
				r[i] = r[i].xor(bit{c: k == no, a: b.a})
				break
			}
		}
	}
	return &r
}

func (w *wire) isNumber(st *State, l Lin, want *bitvec) bool {
	if want == nil {
		return false
	}
	l = st.norm(l)
	have := w.e.vec(l)
	if have.eq(want) || w.underPath(st, have, want).eq(w.underPath(st, want, want)) {
		return true
	}
	if c, ok := want.constant(); ok {
		for i := 0; i < 4; i++ {
			if w.same(st, l, constLin(c)) {
				return true
			}
			s, ok := l.single()
			if !ok {
				return false
			}
			tm := w.e.terms[s]
			if tm.op != "conv" || !strings.HasPrefix(string(tm.args[0].(StrTag)), "conv(64,") {
				return false
			}
			l = st.norm(w.e.lin(tm.args[1]))
		}
	}
	return false
}

// isFloatOf: v is the floating-point number of the n bytes at the position.
func (w *wire) isFloatOf(st *State, v Value, p *wirePath, n int) bool {
	o, ok := v.(Opq)
	if !ok {
		return false
	}
	tm := w.e.terms[o.s]
	for tm.op == "conv:float64" && n == 4 {
		if o, ok = tm.args[0].(Opq); !ok {
			return false
		}
		tm = w.e.terms[o.s]
	}
	if tm.op != fmt.Sprintf("math.Float%dfrombits", 8*n) {
		return false
	}
	i, ok := tm.args[0].(IntV)
	if !ok {
		return false
	}
	var want bitvec
	for k := 0; k < n; k++ {
		b := w.e.syms.symVec(w.byteAt(st, p.buf, p.ch.cur.addc(int64(k))))
		copy(want[8*k:8*k+8], b[:8])
	}
	return w.e.vec(st.norm(i.l)).eq(&want)
}

// stored is what is stored to a typed destination: name and value of the
// last reflect call that sets it, and the length of a slice that it was set
// to first.
type stored struct {
	op  string
	val Value
	pre Lin
	has bool
}

func (w *wire) sets(p *wirePath, d Opq) (r []stored) {
	var pre Lin
	has := false
	for _, ev := range p.o.st.ev.list() {
		if ev.k != evCall || len(ev.call.args) < 2 {
			continue
		}
		c := ev.call
		switch {
		case c.name == "reflect.Copy":
			x, ok := c.args[0].(Opq)
			if !ok {
				continue
			}
			if tm := w.e.terms[x.s]; tm.op == "rSlice" {
				x, ok = tm.args[0].(Opq)
			}
			if ok && x.s == d.s {
				r = append(r, stored{"Copy", w.valueOf(c.args[1]), pre, has})
			}
		case strings.HasPrefix(c.name, "(reflect.Value).Set"):
			x, ok := c.args[0].(Opq)
			if !ok || x.s != d.s {
				continue
			}
			v := c.args[1]
			if c.name == "(reflect.Value).Set" {
				v = w.valueOf(v)
				if s, ok := v.(SliceV); ok {
					pre, has = s.ln, true
				}
			}
			r = append(r, stored{strings.TrimPrefix(c.name, "(reflect.Value)."), v, pre, has})
		}
	}
	return
}

// valueOf is the Go value of a reflect.Value.
func (w *wire) valueOf(v Value) Value {
	o, ok := v.(Opq)
	if !ok {
		return v
	}
	tm := w.e.terms[o.s]
	if tm.op != "rValueOf" {
		return v
	}
	if i, ok := tm.args[0].(IfaceV); ok {
		return i.v
	}
	return tm.args[0]
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// scalar checks the value a path stores for a scalar tag. It returns what is
// wrong, or "" (also for tags that are no scalars).
func (w *wire) scalar(st *State, p *wirePath, t int, get func() (Value, string), typed bool) string {
	e := w.e
	tag := t & 0x7f
	sp := wireTags[tag]
	switch {
	case tag < 32 || tag == tgVARINT || tag == tgZIGZAG:
		v, why := get()
		if why != "" {
			return why
		}
		i, ok := v.(IntV)
		if !ok || !w.isNumber(st, i.l, w.number(p, t)) {
			return fmt.Sprintf("stores %s instead of the number the item stands for", w.short(st, v))
		}
	case tag == tgFLOAT || tag == tgDOUBLE:
		v, why := get()
		if why != "" {
			return why
		}
		n := 4
		if tag == tgDOUBLE {
			n = 8
		}
		if !w.isFloatOf(st, v, p, n) {
			return fmt.Sprintf("stores %s instead of the floating-point number of the %d bytes", w.short(st, v), n)
		}
	case tag == tgTRUE || tag == tgFALSE:
		v, why := get()
		if why != "" {
			return why
		}
		b, ok := v.(BoolV)
		if !ok || st.decide(b.c) != triOf(tag == tgTRUE) {
			return "does not store " + strings.ToLower(sp.name)
		}
	case tag == tgBINARY || tag == tgSTRUTF8 || tag >= 0x60:
		v, why := get()
		if why != "" {
			return why
		}
		n := constLin(int64(tag & 0x1f))
		if tag < 0x60 {
			s := p.nth('V', 0)
			if s == nil {
				return "does not read the length"
			}
			n = s.n
		}
		if !w.isSpan(st, v, p, p.ch.cur, n) {
			return fmt.Sprintf("stores %s instead of the bytes of the string", w.short(st, v))
		}
	case tag == tgREGEXP:
		v, why := get()
		if why != "" {
			return why
		}
		pv, ok := v.(PtrV)
		if !ok || pv.obj == nil {
			return "does not store a regular expression"
		}
		sv, ok := e.load(st, PtrV{obj: pv.obj, path: pv.path, elem: pv.elem}, pv.elem).(StructV)
		a, b := p.nth('S', 0), p.nth('S', 1)
		if !ok || len(sv.f) < 2 || a == nil || b == nil {
			return "does not store a regular expression"
		}
		u := sv.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			switch u.Field(i).Name() {
			case "Pattern":
				if !w.isString(st, sv.f[i], a) {
					return "the pattern is not the first string"
				}
			case "Modifiers":
				if !w.isString(st, sv.f[i], b) {
					return "the modifiers are not the second string"
				}
			}
		}
	}
	return ""
}

func isScalar(t int) bool {
	t &= 0x7f
	return t < 32 || t >= 0x60 || t == tgVARINT || t == tgZIGZAG || t == tgFLOAT || t == tgDOUBLE || t == tgTRUE || t == tgFALSE || t == tgBINARY || t == tgSTRUTF8 || t == tgREGEXP
}

func (w *wire) short(st *State, v Value) string {
	s := w.valStr(st, v)
	if len(s) > 100 {
		s = s[:100] + "..."
	}
	return s
}

// checkScalars checks the stored values of one reader.
func (w *wire) checkScalars(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole) {
	for _, p := range ps {
		if p.o.panic || !p.ok || p.ch.err != "" {
			continue
		}
		pos := w.e.pos(p.o.at)
		if w.delegated(p, role.role) {
			why := w.passedOn(p, fn, role)
			r.check(why == "", "delegated", fname(fn), pos, "%s hands the item to another reader but %s (%s)", fname(fn), why, w.e.p.Variant)
			continue
		}
		if p.ch.state == 3 {
			continue
		}
		if role.role == 'S' {
			w.checkStr(r, fn, p)
			continue
		}
		var get func(st *State) (Value, string)
		if role.typed {
			d, ok := w.rdest(p, fn)
			if !ok {
				continue
			}
			ss := w.sets(p, d)
			get = func(st *State) (Value, string) {
				if len(ss) == 0 {
					return nil, "nothing is stored"
				}
				x := ss[len(ss)-1]
				if x.op == "Copy" && x.has {
					if c, ok := x.val.(SliceV); ok && !w.same(st, x.pre, c.ln) {
						return nil, "the slice made for the bytes has another length"
					}
				}
				return x.val, ""
			}
		} else {
			d, ok := w.dest(p)
			if !ok {
				continue
			}
			get = func(st *State) (Value, string) {
				v := w.e.load(st, d, d.elem)
				if i, ok := v.(IfaceV); ok {
					return i.v, ""
				}
				return v, ""
			}
		}
		for _, t := range w.tags(p).members() {
			if !isScalar(t) {
				continue
			}
			st := w.withTag(p, t)
			if st == nil {
				continue
			}
			why := w.scalar(st, p, t, func() (Value, string) { return get(st) }, role.typed)
			sp := wireTags[t&0x7f]
			r.check(why == "", "value", fname(fn)+":"+sp.name, pos, "tag %#x (%s) in %s: %s (%s)", t, sp.name, fname(fn), why, w.e.p.Variant)
		}
	}
}

// passedOn: what another reader delivered is what is delivered.
func (w *wire) passedOn(p *wirePath, fn *ssa.Function, role *wireRole) string {
	st := p.o.st
	s := p.body()[0]
	if role.role == 'S' {
		for _, x := range p.o.res {
			if v, ok := x.(SliceV); ok && isByte(v.elem) && !w.isString(st, v, s) {
				return "returns another string"
			}
		}
		return ""
	}
	if role.typed {
		d, ok := w.rdest(p, fn)
		if !ok {
			return "has no destination"
		}
		for _, a := range s.call.args {
			if o, ok := a.(Opq); ok && o.s == d.s {
				return ""
			}
		}
		local, ok := w.stepDest(s)
		if !ok {
			return "decodes it elsewhere"
		}
		v, _ := w.e.load(st, local, local.elem).(Opq)
		if st.decide(w.e.nilCond(v)) == yes {
			return ""
		}
		for _, x := range w.sets(p, d) {
			if o, ok := x.val.(Opq); ok && x.op == "Set" && w.outOf(s, o) {
				return ""
			}
		}
		return "does not store what it delivered"
	}
	d, ok := w.dest(p)
	if !ok {
		return "has no destination"
	}
	if o, ok := w.e.load(st, d, d.elem).(Opq); !ok || !w.outOf(s, o) {
		return "does not store what it delivered"
	}
	return ""
}

// checkStr checks the result of a string reader.
func (w *wire) checkStr(r *Report, fn *ssa.Function, p *wirePath) {
	var res Value
	for _, x := range p.o.res {
		if s, ok := x.(SliceV); ok && isByte(s.elem) {
			res = s
		}
	}
	if res == nil {
		return
	}
	for _, t := range w.tags(p).members() {
		tag := t & 0x7f
		st := w.withTag(p, t)
		if st == nil || !stringTags[tag] {
			continue
		}
		why := ""
		if tag == tgCOPY {
			j := p.jump('S')
			if j == nil || !w.isString(st, res, j) {
				why = "does not return the string the reference points to"
			}
		} else {
			why = w.scalar(st, p, t, func() (Value, string) { return res, "" }, false)
		}
		sp := wireTags[tag]
		r.check(why == "", "value", fname(fn)+":"+sp.name, w.e.pos(p.o.at), "tag %#x (%s) in %s: %s (%s)", t, sp.name, fname(fn), why, w.e.p.Variant)
	}
}

// forReaders runs f for every reader of the decoder, in both variants.
func forReaders(r *Report, f func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath)) {
	forVariants(r, bothVariants, func(p *Program) {
		w, ok := newWire(p, r, decEntries)
		if !ok {
			return
		}
		items := 0
		for _, fn := range w.sortedRoles() {
			role := w.roles[fn]
			ps := w.paths(w.e.cuts[fn], role)
			if role.role == 'I' {
				items++
			}
			f(w, fn, role, ps)
			r.sample(map[string]interface{}{"function": fname(fn), "role": string(role.role), "paths": len(ps)})
		}
		if items < 2 {
			r.undecided("noitem", "%s: no item reader was found", p.Variant)
		}
		for _, l := range w.e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
	})
	r.Trusted = append(r.Trusted, libTrust...)
	r.Assumptions = append(r.Assumptions, sizeAssume...)
}

// option is a boolean option of the receiver.
func (w *wire) option(p *wirePath, name string) *Cond {
	v, _, ok := w.e.fieldOf(newState(w.e), p.args[0], name)
	if !ok {
		return nil
	}
	b, ok := v.(BoolV)
	if !ok {
		return nil
	}
	return b.c
}

// nested: v was stored by the nested item of the path.
func (w *wire) nested(p *wirePath, v Value) bool {
	o, ok := v.(Opq)
	if !ok {
		return false
	}
	for _, ss := range [][]*wstep{p.body(), p.ch.jumps} {
		for _, s := range ss {
			if s.k == 'I' && w.outOf(s, o) {
				return true
			}
		}
	}
	return false
}

func (w *wire) outOf(s *wstep, o Opq) bool {
	for _, x := range s.call.outs {
		if x == o.s {
			return true
		}
	}
	return false
}

// mentions: the term of v contains the symbol.
func (w *wire) mentions(v Value, f func(s Sym) bool, depth int) bool {
	if depth > 12 {
		return false
	}
	switch v := v.(type) {
	case Opq:
		if f(v.s) {
			return true
		}
		for _, a := range w.e.terms[v.s].args {
			if w.mentions(a, f, depth+1) {
				return true
			}
		}
	case IfaceV:
		return w.mentions(v.v, f, depth+1)
	}
	return false
}

func (w *wire) termOp(v Value) (string, []Value) {
	o, ok := v.(Opq)
	if !ok {
		return "", nil
	}
	t := w.e.terms[o.s]
	return t.op, t.args
}

// goType checks the Go value stored for a tag in one mode.
func (w *wire) goType(st *State, p *wirePath, t int, v Value, perl bool) string {
	e := w.e
	tag := t & 0x7f
	iv, isIface := v.(IfaceV)
	dyn := ""
	if isIface {
		dyn = typeStr(iv.dyn)
	}
	want := func(ts ...string) string {
		for _, x := range ts {
			if x == dyn {
				return ""
			}
		}
		got := dyn
		if got == "" {
			got = w.short(st, v)
		}
		return fmt.Sprintf("stores %s, not %s", got, strings.Join(ts, " or "))
	}
	nested := func() string {
		if w.nested(p, v) {
			return ""
		}
		return "does not deliver the nested item: " + w.short(st, v)
	}
	field := func(name string) Value {
		pv, ok := iv.v.(PtrV)
		if !ok {
			return nil
		}
		x, _, _ := e.fieldOf(st, pv, name)
		return x
	}
	class := func() string {
		s := p.nth('S', 0)
		if s == nil {
			s = p.jump('S')
		}
		if s == nil || !w.isString(st, field("Class"), s) {
			return "the class is not the class name read"
		}
		return ""
	}
	ref := func(x Value) string {
		if !w.nested(p, x) {
			return "the reference is not the nested item"
		}
		return ""
	}
	first := func(s ...string) string {
		for _, x := range s {
			if x != "" {
				return x
			}
		}
		return ""
	}
	switch {
	case tag < 32 || tag == tgZIGZAG:
		return want("int")
	case tag == tgVARINT:
		vn := p.nth('V', 0)
		if vn == nil {
			return "reads no number"
		}
		switch {
		case st.entails(vn.n):
			return want("int")
		case st.entails(vn.n.neg().addc(-1)):
			return want("uint")
		}
		return "the type does not depend on the size of the number"
	case tag == tgFLOAT:
		return want("float32")
	case tag == tgDOUBLE:
		return want("float64")
	case tag == tgTRUE || tag == tgFALSE:
		return want("bool")
	case tag == tgSTRUTF8:
		return want("string")
	case tag == tgBINARY || tag >= 0x60:
		return want("[]byte", "[]uint8")
	case tag == tgUNDEF:
		if !perl {
			if _, ok := v.(NilV); !ok {
				return "does not store nil"
			}
			return ""
		}
		if why := want("*PerlUndef"); why != "" {
			return why
		}
		if pv, ok := iv.v.(PtrV); !ok || pv.obj == nil || !pv.obj.fresh {
			return "UNDEF is stored as a shared value"
		}
		return ""
	case tag == tgCANONUNDEF:
		if !perl {
			if _, ok := v.(NilV); !ok {
				return "does not store nil"
			}
			return ""
		}
		if why := want("*PerlUndef"); why != "" {
			return why
		}
		if pv, ok := iv.v.(PtrV); !ok || pv.obj == nil || pv.obj.fresh {
			return "the canonical undef is not the one canonical value"
		}
		return ""
	case tag == tgHASH, tag == tgARRAY, tag >= 0x40 && tag < 0x60:
		base := "map[string]interface{}"
		alt := "map[string]any"
		arr := tag == tgARRAY || tag >= 0x40 && tag < 0x50
		if arr {
			base, alt = "[]interface{}", "[]any"
		}
		if perl && tag >= 0x40 {
			if why := want("*"+base, "*"+alt); why != "" {
				return why
			}
			pv, ok := iv.v.(PtrV)
			if !ok || pv.obj == nil || !pv.obj.fresh {
				return "the pointer stored does not point to a new container"
			}
			return w.container(st, p, t, e.load(st, pv, pv.elem), arr)
		}
		if why := want(base, alt); why != "" {
			return why
		}
		return w.container(st, p, t, iv.v, arr)
	case tag == tgCOPY:
		return nested()
	case tag == tgREFN:
		if !perl {
			return nested()
		}
		if t&0x80 != 0 {
			if why := want("*interface{}", "*any"); why != "" {
				return why
			}
			pv, ok := iv.v.(PtrV)
			if !ok || pv.obj == nil || !pv.obj.fresh {
				return "the reference stored is not a new one"
			}
			return ref(e.load(st, pv, pv.elem))
		}
		op, args := w.termOp(v)
		if op != "rInterface" {
			return "does not store a pointer to the nested value's type: " + w.short(st, v)
		}
		return w.newOf(p, args[0], func(x Value) bool {
			op, a := w.termOp(x)
			return op == "rValueOf" && w.nested(p, a[0])
		})
	case tag == tgWEAKEN:
		if !perl {
			return nested()
		}
		if why := want("*PerlWeakRef"); why != "" {
			return why
		}
		return ref(field("Reference"))
	case tag == tgREGEXP:
		if why := want("*PerlRegexp"); why != "" {
			return why
		}
		for i, name := range []string{"Pattern", "Modifiers"} {
			if s := p.nth('S', i); s == nil || !w.isString(st, field(name), s) {
				return "the " + strings.ToLower(name) + " is not the one read"
			}
		}
		return ""
	case tag == tgOBJECT || tag == tgOBJECTV:
		if !perl {
			return nested()
		}
		if why := want("*PerlObject"); why != "" {
			return why
		}
		return first(class(), ref(field("Reference")))
	case tag == tgOBJECTFREEZE || tag == tgOBJECTVFREEZE:
		if !perl {
			return ""
		}
		if why := want("*PerlFreeze"); why != "" {
			return why
		}
		return class()
	case tag == tgREFP || tag == tgALIAS:
		return w.sharedType(st, p, tag, v)
	}
	return ""
}

// newOf: x is a new pointer to a value of the type of a value that satisfies
// f, set to that value.
func (w *wire) newOf(p *wirePath, x Value, f func(x Value) bool) string {
	op, args := w.termOp(x)
	if op != "rNew" {
		return "does not make a new pointer"
	}
	op, args = w.termOp(args[0])
	if op != "rType" || !f(args[0]) {
		return "the new pointer is not of the type of the value"
	}
	for _, ev := range p.o.st.ev.list() {
		if ev.k != evCall || ev.call.name != "(reflect.Value).Set" {
			continue
		}
		o, a := w.termOp(ev.call.args[0])
		if o == "rElem" && valKey(a[0]) == valKey(x) && valKey(ev.call.args[1]) == valKey(args[0]) {
			return ""
		}
	}
	return "the new pointer is not set to the value"
}

// sharedType: REFP makes a reference to, ALIAS stands for, the tracked item.
func (w *wire) sharedType(st *State, p *wirePath, tag int, v Value) string {
	var item Sym
	found := false
	for _, ev := range p.o.st.ev.list() {
		if ev.k == evMapGet && ev.ok != nil && st.decide(ev.ok) == yes {
			if o, ok := ev.val.(Opq); ok && isReflectValue(o.t) {
				item, found = o.s, true
			}
		}
	}
	if !found {
		return "the referent does not come from the table of tracked items"
	}
	if !w.mentions(v, func(s Sym) bool { return s == item }, 0) {
		return "does not deliver the tracked item: " + w.short(st, v)
	}
	op, args := w.termOp(v)
	if op != "rInterface" {
		return "does not deliver the tracked item"
	}
	var peel func(x Value, n int) bool // n times rElem of the item
	peel = func(x Value, n int) bool {
		if n == 0 {
			o, ok := x.(Opq)
			return ok && o.s == item
		}
		op, a := w.termOp(x)
		return op == "rElem" && peel(a[0], n-1)
	}
	if peel(args[0], 1) || peel(args[0], 2) {
		// what is in an interface, as it is
		if tag == tgREFP {
			c := w.option(p, "DisableReferentialIntegrity")
			if c == nil || st.decide(c) != yes {
				return "a REFP is not delivered as a pointer"
			}
		}
		return ""
	}
	if tag == tgREFP {
		c := w.option(p, "DisableReferentialIntegrity")
		if why := w.newOf(p, args[0], func(x Value) bool { return peel(x, 2) }); why == "" {
			if c == nil || st.decide(c) != no {
				return "a REFP is delivered as a pointer although pointers are disabled"
			}
			return ""
		}
	}
	return w.newOf(p, args[0], func(x Value) bool { return peel(x, 0) })
}

// container checks that every element or entry read is put where it belongs,
// and nothing else.
func (w *wire) container(st *State, p *wirePath, t int, v Value, arr bool) string {
	tag := t & 0x7f
	n := constLin(wireTags[tag].count)
	steps := p.body()
	if tag == tgHASH || tag == tgARRAY {
		if len(steps) == 0 || steps[0].k != 'V' {
			return "no count was read"
		}
		n = steps[0].n
		steps = steps[1:]
	}
	var m Opq
	var sl SliceV
	if arr {
		s, ok := v.(SliceV)
		if !ok || !s.base.fresh {
			return "the array stored is not a new one"
		}
		if !w.same(st, s.ln, n) {
			return "the array stored has not the declared length"
		}
		sl = s
	} else {
		o, ok := v.(Opq)
		if !ok || w.e.terms[o.s].op != "makemap" {
			return "the hash stored is not a new one"
		}
		m = o
	}
	isM := func(x Value) bool { o, ok := x.(Opq); return ok && o.s == m.s }
	at := 0 // elements before
	region := func(st *State, ss []*wstep, evs []*Ev, head func(off Lin) bool) string {
		var key *wstep
		i := 0
		for _, s := range ss {
			switch s.k {
			case 'S':
				key = s
			case 'I':
				if arr {
					d, ok := w.stepDest(s)
					if !ok || d.obj != sl.base || d.idx == nil {
						return "an element is not decoded into the array"
					}
					off := d.off.sub(sl.off)
					if head != nil && !head(off) || head == nil && !w.same(st, off, constLin(int64(at))) {
						return "an element is not stored at its own index"
					}
					at++
					continue
				}
				if key == nil {
					return "an entry has no key"
				}
				// exactly one entry is set between this item and the next
				n := 0
				for _, ev := range after(evs, s.ev, nextStep(ss, i)) {
					if ev.k != evMapSet || !isM(ev.m) {
						continue
					}
					n++
					k, ok := ev.x.(SliceV)
					if !ok || !w.isString(st, k, key) {
						return "an entry is stored under another key than the one read"
					}
					o, ok := ev.val.(Opq)
					if !ok || !w.outOf(s, o) {
						return "an entry is stored with another value than the one read"
					}
				}
				if n == 0 {
					return "an entry that was read is not stored"
				}
				key = nil
			}
			i++
		}
		if !arr {
			// nothing else is set
			items := 0
			for _, s := range ss {
				if s.k == 'I' {
					items++
				}
			}
			sets := 0
			for _, ev := range evs {
				if ev.k == evMapSet && isM(ev.m) {
					sets++
				}
			}
			if sets > items {
				return "an entry is stored that was not read"
			}
		}
		return ""
	}
	loops := 0
	for _, s := range steps {
		if s.k == 'C' {
			return "the elements are read by a function of their own"
		}
		if s.k != 'R' || s.isPadLoop() {
			continue
		}
		loops++
		for i, be := range s.loop.backs {
			var head func(off Lin) bool
			if arr {
				head = func(off Lin) bool {
					for _, c := range s.counts {
						k := w.e.lin(c.v.head).sub(w.e.lin(c.v.init))
						if c.step < 0 {
							k = k.neg()
						}
						if w.same(be.st, off, k) {
							return true
						}
					}
					return false
				}
			}
			if why := region(be.st, s.body[i], suffixAfter(be.st.ev.list(), s.ev), head); why != "" {
				return why
			}
		}
	}
	if loops == 0 {
		return region(st, steps, p.o.st.ev.list(), nil)
	}
	return ""
}

func nextStep(ss []*wstep, i int) *Ev {
	if i+1 < len(ss) {
		return ss[i+1].ev
	}
	return nil
}

// after is the part of a history after one event and before another.
func after(evs []*Ev, a, b *Ev) []*Ev {
	r := suffixAfter(evs, a)
	for i, ev := range r {
		if ev == b && b != nil {
			return r[:i]
		}
	}
	return r
}

// stepDest is where a nested item is stored.
func (w *wire) stepDest(s *wstep) (PtrV, bool) {
	for _, a := range s.call.args {
		if pv, ok := a.(PtrV); ok && pv.elem != nil {
			if _, ok := pv.elem.Underlying().(*types.Interface); ok {
				return pv, true
			}
		}
	}
	return PtrV{}, false
}

func (w *wire) checkTypes(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole, rule string, only func(tag int) bool) {
	for _, p := range ps {
		if p.o.panic || !p.ok || p.ch.err != "" || p.ch.state == 3 || w.delegated(p, role.role) {
			continue
		}
		d, ok := w.dest(p)
		if !ok {
			r.undecided("dest:"+fname(fn), "%s has no interface to store to", fname(fn))
			return
		}
		c := w.option(p, "PerlCompat")
		if c == nil {
			r.undecided("option:"+fname(fn), "the option PerlCompat is gone")
			return
		}
		for _, t := range w.tags(p).members() {
			if only != nil && !only(t&0x7f) {
				continue
			}
			for _, perl := range []bool{false, true} {
				st := w.withTag(p, t)
				if st == nil {
					continue
				}
				x := c
				if !perl {
					x = c.not()
				}
				if st.decide(x) == no || !st.assume(x) {
					continue
				}
				why := w.goType(st, p, t, w.e.load(st, d, d.elem), perl)
				sp := wireTags[t&0x7f]
				r.check(why == "", rule, fmt.Sprintf("%s:%s:perl=%v", fname(fn), sp.name, perl), w.e.pos(p.o.at), "tag %#x (%s) with PerlCompat=%v in %s: %s (%s)", t, sp.name, perl, fname(fn), why, w.e.p.Variant)
			}
		}
	}
}

func init() {
	checks["C17"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "For each scalar and string tag, the value stored on every accepting path of every item and string reader is compared, bit by bit over GF(2) or as a span of the input, with what the specification says its bytes mean."
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if role.role != 'C' {
				w.checkScalars(r, fn, ps, role)
			}
		})
		r.atLeast("value", 300)
	}
	checks["C33"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "For each of the 256 tag bytes and both settings of PerlCompat, the Go type and shape of the value stored on every accepting path of every untyped item reader is compared with the documented one; elements and entries of containers are traced to the items they were read from."
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if role.role == 'I' && !role.typed {
				w.checkTypes(r, fn, ps, role, "gotype", nil)
			}
		})
		r.atLeast("gotype", 400)
	}
}

// ---------------------------------------------------------------- back-references

// topCall is a call of an item reader by an exported function.
type topCall struct {
	fn   *ssa.Function
	o    Outcome
	call *CallEv
	role *wireRole
	doc  SliceV
}

// topCalls are the calls of item readers by the exported functions.
func (w *wire) topCalls(names []string) (r []topCall) {
	for _, n := range names {
		fn := w.e.findFunc(n)
		if fn == nil {
			continue
		}
		di := -1
		for i, q := range fn.Params {
			if isByteSlice(q.Type()) {
				di = i
				break
			}
		}
		if di < 0 {
			continue
		}
		outs, args := w.e.runEntryArgs(fn)
		doc, ok := args[di].(SliceV)
		if !ok {
			continue
		}
		seen := map[*CallEv]bool{}
		for _, o := range outs {
			for _, ev := range o.st.ev.list() {
				if ev.k == evCall && w.roles[ev.call.fn] != nil && w.roles[ev.call.fn].role == 'I' && !seen[ev.call] {
					seen[ev.call] = true
					r = append(r, topCall{fn, o, ev.call, w.roles[ev.call.fn], doc})
				}
			}
		}
	}
	return
}

// checkTop checks where top-level items are read and returns the receiver
// fields that hold the smallest offset an item can have.
func (w *wire) checkTop(r *Report) map[string]bool {
	var fields map[string]bool
	for _, tc := range w.topCalls(decEntries) {
		c := tc.call
		st := tc.o.st
		buf, ok := c.args[tc.role.buf].(SliceV)
		pos := w.e.lin(c.args[tc.role.pos])
		key := fname(tc.fn) + ":" + fname(c.fn)
		at := w.e.pos(c.site)
		if !ok {
			r.bad("origin", key, at, "the document is not passed on")
			continue
		}
		fs := map[string]bool{}
		for k, v := range c.pre {
			if i, ok := v.(IntV); ok && strings.HasPrefix(k, "0.") && w.same(st, i.l, pos) {
				fs[k[2:]] = true
			}
		}
		if fields == nil {
			fields = fs
		}
		for k := range fields {
			if !fs[k] {
				delete(fields, k)
			}
		}
		why := w.origin(tc, st, buf, pos)
		r.check(why == "", "origin", key, at, "%s reads a top-level item with %s: %s (%s)", fname(tc.fn), fname(c.fn), why, w.e.p.Variant)
		why = w.freshTable(st, c)
		r.check(why == "", "fresh", key, at, "%s: %s (%s)", fname(tc.fn), why, w.e.p.Variant)
		r.check(len(fields) > 0, "first", key, at, "%s: the smallest valid offset is not recorded before the item is read (%s)", fname(tc.fn), w.e.p.Variant)
	}
	return fields
}

// freshTable: the table of tracked items is empty at a top-level read.
func (w *wire) freshTable(st *State, c *CallEv) string {
	n := 0
	for k, v := range c.pre {
		if !strings.HasPrefix(k, "0.") || !isTracked(v) {
			continue
		}
		n++
		o := v.(Opq)
		if b, ok := st.nils[o.s]; ok && b {
			continue
		}
		fresh := false
		for _, ev := range st.ev.list() {
			switch {
			case ev.k == evNote && ev.name == "makemap" && ev.val.(Opq).s == o.s:
				fresh = true
			case ev.k == evMapSet && valKey(ev.m) == valKey(v):
				fresh = false
			case ev.k == evCall && ev.call == c:
				if !fresh {
					return "items of another part of the document may be in the table " + k[2:] + " of tracked items"
				}
			case ev.k == evCall && w.roles[ev.call.fn] != nil:
				fresh = false
			}
		}
	}
	if n == 0 {
		return "there is no table of tracked items"
	}
	return ""
}

// origin: a top-level item is read with the position offsets count from.
func (w *wire) origin(tc topCall, st *State, buf SliceV, pos Lin) string {
	var sz, ln Lin
	have := false
	for _, ev := range st.ev.list() {
		if ev.k == evCall && ev.call.name == "varint" && !have {
			if s, ok := ev.call.args[0].(SliceV); ok && s.base == tc.doc.base && w.same(st, s.off, tc.doc.off.addc(5)) {
				ln, sz, have = w.e.lin(ev.call.res[0]), w.e.lin(ev.call.res[1]), true
			}
		}
	}
	if !have {
		return "the header length is not read"
	}
	suffix := sz.addc(5)
	body := suffix.add(ln)
	start := buf.off.add(pos)
	end := buf.off.add(buf.ln)
	vb := w.e.byteSym(tc.doc.base, 0, st.norm(tc.doc.off.addc(4)))
	isBody := false
	if buf.base == tc.doc.base {
		start, end = start.sub(tc.doc.off), end.sub(tc.doc.off)
		switch {
		case w.same(st, start, body):
			isBody = true
			if !w.same(st, end, tc.doc.ln) {
				return "the body does not extend to the end of the document"
			}
		case w.same(st, start, suffix.addc(1)):
			if !w.same(st, end, body) {
				return "the user header does not end where the body starts"
			}
			if !w.same(st, pos, constLin(1)) {
				return "offsets in the user header do not count from its flag byte"
			}
			return ""
		default:
			return "it is read at neither the start of the user header nor of the body"
		}
	} else {
		// a rebuilt document: the body is the last part
		if buf.log == nil {
			return "the document is rebuilt in an unknown way"
		}
		l := buf.log.list()
		last := l[len(l)-1]
		if last.k != tBytes {
			return "the document is rebuilt in an unknown way"
		}
		// positions of tokens count from the start of the slice with skip
		if !w.same(st, buf.skip.add(pos), last.at) {
			return "it is not read at the start of the decompressed body"
		}
		isBody = true
	}
	if isBody {
		for _, m := range st.domOf(vb).members() {
			v := m & 15
			want := constLin(1)
			if v == 1 {
				want = body
			}
			if !w.same(st, pos, want) {
				return fmt.Sprintf("offsets of version %d do not count from where they should", v)
			}
		}
	}
	return ""
}

// checkRefs checks the back-references one reader follows.
func (w *wire) checkRefs(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole, fields map[string]bool) {
	v := w.e.p.Variant
	mods := w.e.modsOf(fn)
	for _, p := range ps {
		st := p.o.st
		pos := w.e.pos(p.o.at)
		bounded := func(n Lin, strict int64) string {
			if !st.entails(p.tag.addc(-strict).sub(n)) {
				return "may not lie before the item"
			}
			for f := range fields {
				x, _, ok := w.e.fieldOf(st, p.args[0], f)
				if ok && mods.fields[fieldKey(pp0(p.args[0]), f)] == nil && st.entails(n.sub(w.e.lin(x))) {
					return ""
				}
			}
			return "may lie before the first item"
		}
		if p.ch.err == "" {
			for _, j := range p.ch.jumps {
				why := bounded(j.at, 0)
				r.check(why == "", "backref", fname(fn)+":"+string(j.k), w.e.pos(j.call.site), "%s follows a reference to %s: it %s (%s)", fname(fn), elemName(j.k), why, v)
			}
		}
		if role.role == 'C' {
			continue
		}
		// table of tracked items
		hit := Value(nil)
		var hitKey Lin
		set := map[int]bool{}
		nestedYet := false
		for _, ev := range st.ev.list() {
			switch ev.k {
			case evCall:
				if rr := w.roles[ev.call.fn]; rr != nil && rr.role == 'I' {
					nestedYet = true
				}
			case evMapGet:
				if !isTracked(ev.m) {
					continue
				}
				k, ok := ev.x.(IntV)
				why := "is not a position"
				if ok {
					why = bounded(k.l, 1)
				}
				r.check(why == "", "tracked", fname(fn)+":get", w.e.pos(ev.site), "%s looks up a tracked item that %s (%s)", fname(fn), why, v)
				if ok && st.decide(ev.ok) == yes {
					hit, hitKey = ev.val, k.l
				}
			case evMapSet:
				if !isTracked(ev.m) {
					continue
				}
				why := ""
				k, ok := ev.x.(IntV)
				if !ok || !w.same(st, k.l, p.tag) {
					why = "at a position that is not the item's"
				}
				for _, t := range w.tags(p).members() {
					if t < 0x80 {
						why = "although the track bit may not be set"
						break
					}
				}
				if why == "" {
					if d, ok := w.rdest(p, fn); role.typed && (!ok || valKey(ev.val) != valKey(d)) {
						why = "with another value than the destination"
					}
					if d, ok := w.dest(p); !role.typed {
						op, a := w.termOp(ev.val)
						if !ok || op != "rValueOf" || valKey(ptrOf(a[0])) != valKey(d) {
							why = "with another value than the destination"
						}
					}
				}
				if nestedYet {
					why = "only after nested items were read"
				}
				r.check(why == "", "tracked", fname(fn)+":set", w.e.pos(ev.site), "%s tracks an item %s (%s)", fname(fn), why, v)
				if why == "" {
					set[1] = true
				}
			}
		}
		if p.o.panic || !p.ok || p.ch.err != "" || p.ch.state == 3 || role.role != 'I' || w.delegated(p, 'I') {
			continue
		}
		for _, t := range w.tags(p).members() {
			sp := wireTags[t&0x7f]
			if t >= 0x80 && t&0x7f != tgPAD { // padding is no item
				r.check(set[1], "tracked", fname(fn)+":"+sp.name, pos, "%s does not track an item with the track bit (tag %#x) (%s)", fname(fn), t, v)
			}
			if t&0x7f == tgREFP || t&0x7f == tgALIAS {
				why := ""
				s := p.nth('V', 0)
				switch {
				case hit == nil:
					why = "without finding it in the table of tracked items"
				case s == nil || !w.same(st, hitKey, s.n):
					why = "after looking up another position"
				}
				if why == "" && role.typed {
					d, _ := w.rdest(p, fn)
					o, _ := hit.(Opq)
					ok := false
					for _, x := range w.sets(p, d) {
						ok = w.mentions(x.val, func(y Sym) bool { return y == o.s }, 0)
					}
					if !ok {
						why = "without storing the tracked item"
					}
				}
				r.check(why == "", "tracked", fname(fn)+":"+sp.name, pos, "%s accepts a %s %s (%s)", fname(fn), sp.name, why, v)
			}
		}
	}
}

func pp0(v Value) types.Type { return v.(PtrV).elem }

// ptrOf unwraps an interface.
func ptrOf(v Value) Value {
	if i, ok := v.(IfaceV); ok {
		return i.v
	}
	return v
}

// isTracked: a table from positions to decoded items.
func isTracked(m Value) bool {
	o, ok := m.(Opq)
	if !ok || o.t == nil {
		return false
	}
	mt, ok := o.t.Underlying().(*types.Map)
	return ok && isInt(mt.Key()) && isReflectValue(mt.Elem())
}

func init() {
	checks["C21"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Every read that is not next in line, in every item and string reader, must be entailed to lie at or after the first position recorded when the top-level item is read and not behind the item itself; that first position and the origin of offsets are compared with the specification at every top-level read. Tracked items are entered only under the track bit at their own position, and REFP and ALIAS succeed only with a hit in that table."
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if w.first == nil {
				w.first = w.checkTop(r)
			}
			w.checkRefs(r, fn, ps, role, w.first)
		})
		r.atLeast("backref", 8)
		r.atLeast("origin", 4)
		r.atLeast("tracked", 100)
	}
}
