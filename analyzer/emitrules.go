package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// emDoc is a document that an exported function of the encoder returns.
type emDoc struct {
	fn   *ssa.Function
	w    *written
	args []Value
	ver  int
	hdr  *node // the item of the user header, if any
	body *node
	err  string
}

func (d *emDoc) at(e *Engine) string { return e.pos(d.w.o.at) }

var docWriters = []string{"Marshal", "(*Encoder).Marshal", "(*Encoder).MarshalWithHeader"}

// docs are the documents the encoder returns.
func (m *emit) docs() (r []*emDoc) {
	e := m.e
	e.onEntry = e.eachVersion
	defer func() { e.onEntry = nil }()
	for _, n := range docWriters {
		fn := e.findFunc(n)
		if fn == nil {
			continue
		}
		ws, args := e.writtenBy(fn)
		for _, w := range ws {
			d := &emDoc{fn: fn, w: w, args: args}
			r = append(r, d)
			if d.err = w.why; d.err != "" {
				continue
			}
			if w.head[4].isConst() {
				d.ver = int(w.head[4].c & 15)
			}
			hp := m.pieces(w.hdr)
			if !(&emParse{m: m, st: w.st}).empty(hp) {
				// a flag byte, then an item
				q := &emParse{m: m, st: w.st, ps: hp}
				f := q.next()
				if f == nil || f.k != tByte {
					d.err = "the user header does not start with a flag byte"
					continue
				}
				if c := m.flag(w.st, f, hp[q.i+1:]); !c.isConst() || c.c&1 == 0 {
					d.err = "the flag byte of the user header does not announce user data"
					continue
				}
				q.i++
				var why string
				if d.hdr, why = m.one(w.st, hp[q.i:]); why != "" {
					d.err = "the user header: " + why
					continue
				}
			}
			bp := m.pieces(w.body)
			if p := w.pack(); p != nil {
				ts := e.spliceable(w.st, p.in)
				if ts == nil {
					d.err = "what is compressed is not built in order"
					continue
				}
				bp = m.pieces(ts)
			}
			var why string
			if d.body, why = m.one(w.st, bp); why != "" {
				d.err = "the body: " + why
			}
		}
	}
	return
}

// flag is the byte before the item of the user header. Once a writer had the
// buffer it may have set track bits; which ones is a matter of C20.
func (m *emit) flag(st *State, f *piece, rest []*piece) Lin {
	l := st.norm(f.l)
	if l.isConst() || len(rest) == 0 || rest[0].call == nil || m.roles[rest[0].call.fn] == nil {
		return l
	}
	b, ok := rest[0].call.args[m.roles[rest[0].call.fn].buf].(SliceV)
	if !ok {
		return l
	}
	for _, ev := range st.ev.list() {
		if ev.k == evCall && ev.call == rest[0].call {
			break
		}
		if ev.k != evStore {
			continue
		}
		if p := ev.ptr; p.obj == b.base && p.idx != nil && m.w.same(st, p.off.sub(b.off), constLin(0)) {
			if i, ok := ev.val.(IntV); ok {
				l = st.norm(i.l)
			}
		}
	}
	return l
}

func (m *emit) pieces(ts []*Tok) (r []*piece) {
	for _, t := range ts {
		r = append(r, &piece{k: t.k, at: t.at, n: t.n, l: t.l, v: t.v, call: t.call, tok: t})
	}
	return
}

func (q *emParse) empty(ps []*piece) bool {
	q.ps, q.i = ps, 0
	return q.next() == nil
}

// forEncoder runs f for the encoder of each variant.
func forEncoder(r *Report, f func(m *emit, fn *ssa.Function, ps []*emPath), docs func(m *emit, ds []*emDoc)) {
	forVariants(r, bothVariants, func(p *Program) {
		m, ok := newEmit(p, r)
		if !ok {
			return
		}
		n := 0
		for _, fn := range m.sorted() {
			ps := m.paths(fn)
			n += len(ps)
			r.sample(map[string]interface{}{"function": fname(fn), "paths": len(ps), "variant": p.Variant})
			if f != nil {
				f(m, fn, ps)
			}
		}
		if n == 0 {
			r.undecided("nopaths", "%s: no function that writes an item was found", p.Variant)
		}
		if docs != nil {
			docs(m, m.docs())
		}
		for _, l := range m.e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
	})
	r.Trusted = append(r.Trusted, libTrust...)
	r.Assumptions = append(r.Assumptions, sizeAssume...)
}

// key names a path by what it writes.
func (p *emPath) key() string {
	if p.root == nil {
		return fname(p.fn)
	}
	return fname(p.fn) + ":" + p.root.name()
}

func (n *node) name() string {
	if n.call != nil {
		return "item"
	}
	return wireTags[n.t].name
}

func init() {
	checks["C18"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Every accepting path of every function that writes an item is turned into the sequence of bytes, varints, byte runs and nested items it appends (loops as repetitions with a counted number of rounds), and that sequence is parsed with the wire grammar: it must be exactly one item, every length equal to the number of bytes that follow, every count equal to the number of elements, keys and class names string items. The documents returned must consist of header, optional flag byte and item, and exactly one item as body (before compression)."
		forEncoder(r, func(m *emit, fn *ssa.Function, ps []*emPath) {
			for _, p := range ps {
				r.check(p.err == "", "item", p.key(), m.e.pos(p.o.at), "%s: %s (%s)", fname(fn), p.err, m.e.p.Variant)
				if p.root != nil {
					p.root.walk(p.st, func(_ *State, _, _ *node) { r.ok("nested") })
				}
			}
		}, func(m *emit, ds []*emDoc) {
			for _, d := range ds {
				r.check(d.err == "", "document", fmt.Sprintf("%s:%d", fname(d.fn), d.ver), d.at(m.e), "%s: %s (%s)", fname(d.fn), d.err, m.e.p.Variant)
			}
		})
		r.atLeast("item", 300)
		r.atLeast("document", 20)
	}
}

// ---------------------------------------------------------------- values

// canon names the Go value that v is or holds: interfaces and reflect.Values
// are looked through, pointers are not.
func (m *emit) canon(st *State, v Value) string { return m.canon1(st, v, 0) }

func (m *emit) canon1(st *State, v Value, depth int) string {
	if depth > 20 {
		return "?"
	}
	switch v := v.(type) {
	case IfaceV:
		if o, ok := v.v.(Opq); ok {
			return m.canon1(st, o, depth+1)
		}
		return typeStr(v.dyn) + ":" + valKey(v.v)
	case Opq:
		tm := m.e.terms[v.s]
		switch tm.op {
		case "rValueOf", "rInterface":
			return m.canon1(st, tm.args[0], depth+1)
		case "rElem":
			x := m.canon1(st, tm.args[0], depth+1)
			k := m.e.kindLin(tm.args[0], false)
			switch {
			case m.w.same(st, k, constLin(kIface)):
				return x
			case st.decide(&Cond{k: cEq, l: st.norm(k).addc(-kIface)}) == no:
				return "*" + x
			}
			return "elem(" + x + ")"
		}
		// the reflect.Value an interface holds
		if n := m.e.syms.name(v.s); strings.HasPrefix(n, "as(") {
			for x, tf := range st.typs {
				if tf.is != nil && isReflectValue(tf.is) && n == fmt.Sprintf("as(%s,%s)", m.e.syms.name(x), typeName(tf.is)) {
					return m.canon1(st, Opq{s: x}, depth+1)
				}
			}
		}
		// at the head of a loop that unwraps interfaces
		for ev := st.ev; ev != nil; ev = ev.prev {
			if ev.k != evLoopIn && ev.k != evLoopOut {
				continue
			}
			for _, lv := range ev.loop.vars {
				if h, ok := lv.head.(Opq); ok && h.s == v.s {
					if !m.unwraps(ev.loop, lv, h) {
						return fmt.Sprintf("o%d", v.s)
					}
					return m.canon1(st, lv.init, depth+1)
				}
			}
		}
		return fmt.Sprintf("o%d", v.s)
	}
	return valKey(v)
}

// unwraps: each round of the loop replaces the variable by what the interface
// it is holds.
func (m *emit) unwraps(ctx *LoopCtx, lv *loopVar, h Opq) bool {
	for _, be := range ctx.backs {
		b, ok := m.e.backVal(be, lv, ctx).(Opq)
		if !ok {
			return false
		}
		for b.s != h.s {
			tm := m.e.terms[b.s]
			if tm.op != "rElem" || !m.w.same(be.st, m.e.kindLin(tm.args[0], false), constLin(kIface)) {
				return false
			}
			if b, ok = tm.args[0].(Opq); !ok {
				return false
			}
		}
	}
	return true
}

// val is the value a path encodes.
func (m *emit) val(p *emPath) Value { return p.args[m.roles[p.fn].vals[0]] }

// esource is a Go value of a basic kind that a path took from the value it encodes.
type esource struct {
	k   string // int, uint, float, bool, string, bytes
	v   Value
	f32 bool
	num bool // one of several views of a json.Number
}

// dynType is the Go type the path knows the value to have.
func (m *emit) dynType(p *emPath) types.Type {
	v, ok := m.val(p).(Opq)
	if !ok {
		return nil
	}
	if isReflectValue(v.t) {
		return nil
	}
	return p.st.typs[v.s].is
}

func isJSONNumber(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number"
}

func (m *emit) sources(p *emPath) (r []esource) {
	v, _ := m.val(p).(Opq)
	root := m.canon(p.st, v)
	if t := m.dynType(p); t != nil {
		x := m.e.asType(v, t)
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsUnsigned != 0:
				r = append(r, esource{k: "uint", v: x})
			case u.Info()&types.IsInteger != 0:
				r = append(r, esource{k: "int", v: x})
			case u.Info()&types.IsFloat != 0:
				r = append(r, esource{k: "float", v: x, f32: u.Kind() == types.Float32})
			case u.Info()&types.IsBoolean != 0:
				r = append(r, esource{k: "bool", v: x})
			case u.Info()&types.IsString != 0:
				r = append(r, esource{k: "string", v: x})
			}
		case *types.Slice:
			if isByte(u.Elem()) {
				r = append(r, esource{k: "bytes", v: x})
			}
		}
		if isJSONNumber(t) {
			want, _ := x.(SliceV)
			for _, c := range m.calls(p.st) {
				if len(c.args) == 0 || len(c.res) == 0 {
					continue
				}
				s, ok := c.args[0].(SliceV)
				if !ok || s.base != want.base || !m.w.same(p.st, s.off, want.off) || !m.w.same(p.st, s.ln, want.ln) {
					continue
				}
				if len(c.res) > 1 && p.st.decide(m.e.nilCond(c.res[1])) != yes {
					continue
				}
				switch c.name {
				case "(encoding/json.Number).Int64":
					r = append(r, esource{k: "int", v: c.res[0], num: true})
				case "(encoding/json.Number).Float64":
					if m.tooLarge(p.st, want) {
						continue // an integer that does not fit would lose digits
					}
					r = append(r, esource{k: "float", v: c.res[0], num: true})
				case "(encoding/json.Number).String":
					r = append(r, esource{k: "string", v: c.res[0], num: true})
				}
			}
		}
	}
	for _, c := range m.calls(p.st) {
		k := map[string]string{"(reflect.Value).Int": "int", "(reflect.Value).Uint": "uint", "(reflect.Value).Float": "float",
			"(reflect.Value).Bool": "bool", "(reflect.Value).String": "string", "(reflect.Value).Bytes": "bytes"}[c.name]
		if k == "" || m.canon(p.st, c.args[0]) != root {
			continue
		}
		kind := m.e.kindLin(c.args[0], false)
		if k == "string" && !m.w.same(p.st, kind, constLin(kString)) {
			continue
		}
		r = append(r, esource{k: k, v: c.res[0], f32: m.w.same(p.st, kind, constLin(int64(kindOf[types.Float32])))})
	}
	return
}

// tooLarge: the path did not exclude that the number is an integer out of range.
func (m *emit) tooLarge(st *State, num SliceV) bool {
	isRange := func(v Value) bool {
		o, ok := v.(Opq)
		return ok && strings.Contains(m.e.syms.name(o.s), "strconv.ErrRange")
	}
	for s, b := range st.bools {
		if tm := m.e.terms[s]; !b && tm.op == "eq" && (isRange(tm.args[0]) || isRange(tm.args[1])) {
			return false
		}
	}
	for _, c := range m.calls(st) {
		if c.name == "(encoding/json.Number).Int64" && len(c.res) == 2 {
			if o, ok := c.res[1].(Opq); ok && st.typs[o.s].is == nil {
				for _, t := range st.typs[o.s].not {
					if strings.HasSuffix(t.String(), "strconv.NumError") {
						return false
					}
				}
			}
		}
		if c.name == "errors.Is" && isRange(c.args[1]) {
			if b, ok := c.res[0].(BoolV); ok && st.decide(b.c) == no {
				return false
			}
		}
	}
	return true
}

func (m *emit) calls(st *State) (r []*CallEv) {
	for _, ev := range st.ev.list() {
		if ev.k == evCall {
			r = append(r, ev.call)
		}
	}
	return
}

// isNil: the path encodes nothing at all.
func (m *emit) isNil(p *emPath) bool {
	v, _ := m.val(p).(Opq)
	if !isReflectValue(v.t) && p.st.decide(m.e.nilCond(v)) == yes {
		return true
	}
	root := m.canon(p.st, v)
	for s := range p.st.dom {
		n := m.e.syms.name(s)
		if !strings.HasPrefix(n, "kind(") {
			continue
		}
		x := m.e.syms.get(strings.TrimSuffix(strings.TrimPrefix(n, "kind("), ")"))
		if m.canon(p.st, Opq{s: x}) == root && m.w.same(p.st, symLin(s), constLin(kInvalid)) {
			return true
		}
	}
	return false
}

// congruent: a tag that holds a number holds this one, modulo 16.
func (m *emit) congruent(st *State, tag, s Lin) bool {
	a, b := m.e.vec(tag), m.e.vec(s)
	same := true
	for i := 0; i < 4; i++ {
		same = same && a[i].eq(b[i])
	}
	if same {
		return true
	}
	if d := st.norm(tag.sub(s)); d.isConst() && d.c%16 == 0 {
		return true
	}
	of, fn, ok := m.e.byteFn(tag)
	if !ok {
		return false
	}
	for _, i := range st.domOf(of).members() {
		if fn(i)&15 != int64(i)&15 {
			return false
		}
	}
	a = m.e.vec(symLin(of))
	if tm := m.e.terms[of]; tm.op == "conv" {
		if l, ok := tm.args[1].(IntV); ok {
			a = m.e.vec(st.norm(l.l))
		}
	}
	for i := 0; i < 4; i++ {
		if !a[i].eq(b[i]) {
			return false
		}
	}
	return true
}

// represents: the item stands for the source. It returns what is wrong.
func (m *emit) represents(st *State, n *node, s esource) string {
	sp := wireTags[n.t]
	switch s.k {
	case "int", "uint":
		i, ok := s.v.(IntV)
		if !ok {
			return "the integer is unknown"
		}
		l := st.norm(i.l)
		nonneg := s.k == "uint" || st.entails(l)
		switch {
		case n.t < 16:
			in := st.entails(l) && st.entails(constLin(15).sub(l))
			if c, ok := m.e.syms.byKey["conv(64,true,"+m.e.syms.str(l)+")"]; ok && s.k == "uint" && !in {
				// the same bits as a signed number
				in = st.entails(symLin(c)) && st.entails(constLin(15).sub(symLin(c)))
			}
			if !in {
				return "a number outside 0 to 15 is written as " + sp.name
			}
			if !m.congruent(st, n.tag, l) {
				return "another number is written as " + sp.name
			}
		case n.t < 32:
			if !(s.k == "int" && st.entails(l.addc(16)) && st.entails(constLin(-1).sub(l))) {
				return "a number outside -16 to -1 is written as " + sp.name
			}
			if !m.congruent(st, n.tag, l) {
				return "another number is written as " + sp.name
			}
		case n.t == tgVARINT:
			if !nonneg {
				return "a number that may be negative is written as VARINT"
			}
			if !m.w.isNumber(st, n.num.l, m.e.vec(l)) {
				return "another number is written as VARINT"
			}
		case n.t == tgZIGZAG:
			v := m.e.vec(l)
			var z bitvec
			if s.k == "uint" && !st.entails(constLin(1<<62-1).addc(1<<62).sub(l)) {
				return "a number that may be too large is written as ZIGZAG"
			}
			z[0] = v[63]
			for k := 1; k < 64; k++ {
				z[k] = v[k-1].xor(v[63])
			}
			have := m.e.vec(st.norm(n.num.l))
			if !have.eq(&z) && !m.w.underPath(st, have, v).eq(m.w.underPath(st, &z, v)) {
				return "another number is written as ZIGZAG"
			}
		default:
			return "an integer is written as " + sp.name
		}
	case "float":
		k := 0
		switch n.t {
		case tgFLOAT:
			k = 4
			if !s.f32 {
				return "a float64 is written as FLOAT"
			}
		case tgDOUBLE:
			k = 8
		default:
			return "a floating-point number is written as " + sp.name
		}
		if why := m.floatBytes(st, n, s, k); why != "" {
			return why
		}
	case "bool":
		b, ok := s.v.(BoolV)
		if !ok {
			return "the boolean is unknown"
		}
		if n.t != tgTRUE && n.t != tgFALSE {
			return "a boolean is written as " + sp.name
		}
		if st.decide(b.c) != triOf(n.t == tgTRUE) {
			return "another boolean is written as " + sp.name
		}
	case "string", "bytes":
		switch {
		case n.t == tgCOPY:
			c, ok := m.strOf(st, n)
			if !ok || !m.sameString(st, c, s.v) {
				return "another string is written as COPY"
			}
			return ""
		case s.k == "string" && n.t != tgSTRUTF8:
			return "a string is written as " + sp.name
		case s.k == "bytes" && n.t != tgBINARY && n.t < 0x60:
			return "a byte string is written as " + sp.name
		}
		c, ok := m.payload(st, n)
		if !ok || !m.sameStr(st, c, s.v) {
			return "other bytes are written as " + sp.name
		}
	}
	return ""
}

// payload is the content of a string item.
func (m *emit) payload(st *State, n *node) (SliceV, bool) {
	var ps []*piece
	for _, p := range n.pay {
		if !m.w.same(st, p.n, constLin(0)) {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		if len(n.pay) > 0 && n.pay[0].v != nil {
			return m.w.content(st, *n.pay[0].v)
		}
		return SliceV{}, m.w.same(st, n.paylen, constLin(0))
	}
	if len(ps) != 1 || ps[0].k != tBytes || ps[0].v == nil {
		return SliceV{}, false
	}
	return m.w.content(st, *ps[0].v)
}

// sameStr: two strings or byte strings have the same bytes.
func (m *emit) sameStr(st *State, a SliceV, v Value) bool {
	b, ok := m.w.content(st, v)
	if !ok {
		return false
	}
	if a.base == nil || m.w.same(st, b.ln, constLin(0)) {
		return m.w.same(st, b.ln, constLin(0)) && (a.base == nil || m.w.same(st, a.ln, constLin(0)))
	}
	return a.base == b.base && m.w.same(st, a.off, b.off) && m.w.same(st, a.ln, b.ln)
}

// floatBytes: the payload is the number in little-endian order.
func (m *emit) floatBytes(st *State, n *node, s esource, k int) string {
	if len(n.pay) != k {
		return fmt.Sprintf("the payload is not written as %d bytes", k)
	}
	var all bitvec
	for i, p := range n.pay {
		if p.k != tByte {
			return "the payload is not the bits of the number"
		}
		v := m.e.vec(st.norm(p.l))
		copy(all[8*i:8*i+8], v[:8])
	}
	if len(all[0].a) != 1 {
		return "the payload is not the bits of the number"
	}
	bs := all[0].a[0].s
	tm := m.e.terms[bs]
	if tm.op != fmt.Sprintf("math.Float%dbits", 8*k) {
		return "the payload is not the bits of the number"
	}
	if !all.eq(truncVec(m.e.syms.symVec(bs), 8*k, false)) {
		return "the bytes of the number are out of order"
	}
	// conversions that do not change the number
	x, ok := tm.args[0].(Opq)
	want, ok2 := s.v.(Opq)
	for i := 0; ok && ok2 && i < 4; i++ {
		if x.s == want.s {
			return ""
		}
		switch c := m.e.terms[x.s]; {
		case c.op == "conv:float64" || c.op == "conv:float32" && s.f32:
			x, ok = c.args[0].(Opq)
		default:
			ok = false
		}
	}
	return "the bits written are those of another number"
}

// scalarKinds are the kinds of Go values without parts.
func (m *emit) isScalarVal(p *emPath) bool {
	if t := m.dynType(p); t != nil {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat|types.IsString) != 0
	}
	return false
}

// scalarItem checks an item without nested ones against the value encoded.
func (m *emit) scalarItem(p *emPath) string {
	n, st := p.root, p.st
	src := m.sources(p)
	switch {
	case n.t == tgUNDEF || n.t == tgCANONUNDEF:
		if m.isNil(p) {
			return ""
		}
		if t := m.dynType(p); t != nil && strings.HasSuffix(typeStr(t), "PerlUndef") {
			v := m.e.asType(m.val(p).(Opq), t)
			s, ok := v.(StructV)
			if ok {
				u := s.t.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if b, ok := s.f[i].(BoolV); ok && u.Field(i).Name() == "canonical" && st.decide(b.c) == triOf(n.t == tgCANONUNDEF) {
						return ""
					}
				}
			}
			return "writes the other kind of undef"
		}
		return "writes " + wireTags[n.t].name + " for a value that may not be nil"
	case n.t == tgREFP:
		return ""
	}
	if len(src) == 0 {
		return fmt.Sprintf("writes %s that does not derive from the value", wireTags[n.t].name)
	}
	why := ""
	for _, s := range src {
		w := m.represents(st, n, s)
		if w == "" {
			return ""
		}
		if why == "" || !s.num {
			why = w
		}
	}
	return why
}

func init() {
	checks["C19"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every accepting path that writes an item without nested ones, tag and payload are compared with the Go value that the path encodes (found by its type or through the reflect accessors, interfaces and reflect.Values looked through): small integers by range and residue, VARINT and ZIGZAG bit by bit over GF(2), floating-point numbers as the little-endian bits of the very number, booleans by what the path decided, strings and byte strings as the same bytes. A value of a basic Go type must be written as such an item."
		forEncoder(r, func(m *emit, fn *ssa.Function, ps []*emPath) {
			for _, p := range ps {
				n := p.root
				if n == nil {
					continue
				}
				if n.call != nil || len(n.kids) > 0 || len(n.reps) > 0 || n.t == tgARRAY || n.t == tgHASH {
					if n.call == nil || m.canon(p.st, n.call.args[m.roles[n.call.fn].vals[0]]) != m.canon(p.st, m.val(p)) {
						r.check(!m.isScalarVal(p) || n.t == tgOBJECTFREEZE, "scalar", p.key(), m.e.pos(p.o.at), "%s writes %s for a scalar (%s)", fname(fn), n.name(), m.e.p.Variant)
					}
					continue
				}
				why := m.scalarItem(p)
				r.check(why == "", "scalar", p.key(), m.e.pos(p.o.at), "%s: %s (%s)", fname(fn), why, m.e.p.Variant)
			}
		}, nil)
		r.atLeast("scalar", 150)
	}
}
