package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- helpers

func (e *Engine) cond(st *State, v Value) *Cond {
	switch v := v.(type) {
	case BoolV:
		return v.c
	case Opq:
		return &Cond{k: cSym, s: v.s}
	}
	return &Cond{k: cSym, s: e.freshSym("cond")}
}

func (fr *Frame) set(it *item, v ssa.Value, x Value) {
	it.env[fr.in.num[v]] = x
}

// lin is the value of an integer as a linear expression.
func (e *Engine) lin(v Value) Lin {
	switch v := v.(type) {
	case IntV:
		return v.l
	case Opq:
		return symLin(v.s)
	}
	return symLin(e.freshSym("int"))
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// byteFn views l as a function of one small-domain symbol.
func (e *Engine) byteFn(l Lin) (Sym, func(i int) int64, bool) {
	if len(l.t) != 1 {
		return 0, nil, false
	}
	s := l.t[0].s
	in := &e.syms.info[s]
	k, c := l.t[0].c, l.c
	if abs64(k) > 1<<20 || abs64(c) > 1<<40 {
		return 0, nil, false
	}
	if in.dom > 0 {
		return s, func(i int) int64 { return int64(i)*k + c }, true
	}
	if in.of != 0 {
		tab := in.tab
		for _, v := range tab {
			if abs64(v) > 1<<40 {
				return 0, nil, false
			}
		}
		return in.of, func(i int) int64 { return tab[i]*k + c }, true
	}
	return 0, nil, false
}

// tabSym is the symbol for a table of a small-domain symbol.
func (e *Engine) tabLin(s Sym, tab []int64) Lin {
	n := len(tab)
	allEq, ident := true, true
	for i, v := range tab {
		if v != tab[0] {
			allEq = false
		}
		if v != int64(i) {
			ident = false
		}
	}
	if allEq {
		return constLin(tab[0])
	}
	if ident {
		return symLin(s)
	}
	// affine?
	k, c := tab[1]-tab[0], tab[0]
	aff := true
	for i, v := range tab {
		if v != int64(i)*k+c {
			aff = false
			break
		}
	}
	if aff {
		l, ok := constLin(c).addMul(symLin(s), k)
		if ok {
			return l
		}
	}
	// tables that differ by a constant share a symbol
	min, huge := tab[0], false
	for _, v := range tab {
		if v < min {
			min = v
		}
		if v > 1<<40 || v < -1<<40 {
			huge = true
		}
	}
	if min != 0 && !huge {
		t2 := make([]int64, n)
		for i, v := range tab {
			t2[i] = v - min
		}
		return e.tabLin(s, t2).addc(min)
	}
	key := fmt.Sprintf("f(%s)%v", e.syms.name(s), tab)
	y := e.syms.get(key)
	in := &e.syms.info[y]
	if in.tab == nil {
		in.of = s
		in.tab = append([]int64(nil), tab...)
		in.hasLo, in.hasHi = true, true
		in.lo, in.hi = tab[0], tab[0]
		for i := 0; i < n; i++ {
			if tab[i] < in.lo {
				in.lo = tab[i]
			}
			if tab[i] > in.hi {
				in.hi = tab[i]
			}
		}
		// bit pattern, when every bit is an xor of bits of s
		in.vec = e.tabVec(s, tab)
	}
	return symLin(y)
}

// tabVec expresses each bit of the table as an affine function of s's bits.
func (e *Engine) tabVec(s Sym, tab []int64) *bitvec {
	if len(tab) != 256 {
		return nil
	}
	sv := e.syms.symVec(s)
	var v bitvec
	for i := 0; i < 64; i++ {
		b := bit{c: tab[0]>>uint(i)&1 == 1}
		var used int
		for j := 0; j < 8; j++ {
			if (tab[1<<uint(j)]^tab[0])>>uint(i)&1 == 1 {
				b = b.xor(sv[j])
				used |= 1 << uint(j)
			}
		}
		for x := 0; x < 256; x++ {
			p := tab[0]>>uint(i)&1 == 1
			for y := x & used; y != 0; y &= y - 1 {
				p = !p
			}
			if p != (tab[x]>>uint(i)&1 == 1) {
				return nil
			}
		}
		v[i] = b
	}
	return &v
}

// fit makes l a value of integer type t: l itself if it cannot wrap.
func (e *Engine) fit(st *State, l Lin, t types.Type) Lin {
	lo, hi, hasHi := intRange(t)
	w, signed := intWidth(t)
	if !hasHi {
		hi = math.MaxInt64
	}
	l = st.norm(l)
	if l.isConst() && w < 64 {
		return constLin(wrapConst(l.c, w, signed))
	}
	if w == 64 && signed && len(l.t) == 1 && l.t[0].c == 1 && l.c == 0 {
		if in := &e.syms.info[l.t[0].s]; !(in.hasLo && in.lo >= 0 && !in.hasHi) {
			return l
		}
	}
	if w == 64 && !signed {
		// any non-negative value fits: symbols may exceed MaxInt64
		if s, ok := l.single(); ok && e.syms.info[s].hasLo && e.syms.info[s].lo >= 0 {
			return l
		}
	}
	if st.inRange(l, lo, hi, 0) {
		return l
	}
	if w == 64 && signed && len(l.t) == 1 && l.t[0].c == -1 && l.c >= -1 {
		// -x of something that is not negative
		if in := &e.syms.info[l.t[0].s]; in.hasLo && in.lo >= 0 && in.hasHi {
			return l
		}
	}
	if s, f, ok := e.byteFn(l); ok && w < 64 {
		n := e.syms.info[s].dom
		tab := make([]int64, n)
		for i := range tab {
			tab[i] = wrapConst(f(i), w, signed)
		}
		return e.tabLin(s, tab)
	}
	key := fmt.Sprintf("wrap(%d,%v,%s)", w, signed, e.syms.str(l))
	s := e.intSym(key, t)
	in := &e.syms.info[s]
	if in.def == nil {
		in.def = &deferred{l, lo, hi}
		if in.vec == nil && in.dom == 0 {
			in.vec = truncVec(e.syms.linVec(l), w, signed)
		}
	}
	return symLin(s)
}

func wrapConst(c int64, w int, signed bool) int64 {
	if w >= 64 {
		return c
	}
	u := uint64(c) & (1<<uint(w) - 1)
	if signed && u>>(uint(w)-1)&1 == 1 {
		u |= ^uint64(0) << uint(w)
	}
	return int64(u)
}

// fromBits is the value of type t with the given bit pattern.
func (e *Engine) fromBits(st *State, v *bitvec, t types.Type) Lin {
	w, signed := intWidth(t)
	v = truncVec(v, w, signed)
	if c, ok := v.constant(); ok {
		if signed || c >= 0 {
			return constLin(c)
		}
		return symLin(e.bigConst(uint64(c)))
	}
	// an existing symbol's pattern?
	for i := range v {
		if len(v[i].a) == 1 && !v[i].c {
			s := v[i].a[0].s
			in := &e.syms.info[s]
			if int(v[i].a[0].i) == i && e.syms.symVec(s).eq(v) {
				lo, _, hasLo, _ := st.rng(s)
				isU := in.hasLo && in.lo >= 0
				if v[63].eq(bit{}) || (signed && !isU) || (!signed && isU) {
					return symLin(s)
				}
				if hasLo && lo >= 0 && in.hasHi {
					return symLin(s)
				}
			}
			break
		}
	}
	key := v.key()
	if signed {
		key = "s" + key
	} else {
		key = "u" + key
	}
	s := e.syms.get(key)
	in := &e.syms.info[s]
	if in.vec == nil {
		in.vec = v
		if v[63].eq(bit{}) {
			in.hasLo, in.hasHi = true, true
			for i := 0; i < 63; i++ {
				if !v[i].eq(bit{}) {
					in.hi |= 1 << uint(i)
				}
				if v[i].isConst() && v[i].c {
					in.lo |= 1 << uint(i)
				}
			}
		} else if !signed {
			in.hasLo = true
		}
	}
	return symLin(s)
}

func (e *Engine) bigConst(x uint64) Sym {
	s := e.syms.min(fmt.Sprintf("const%d", x), math.MaxInt64)
	in := &e.syms.info[s]
	if in.vec == nil {
		in.vec = constVec(int64(x))
	}
	return s
}

func (e *Engine) vec(l Lin) *bitvec { return e.syms.linVec(l) }

// convInt converts an integer between types.
func (e *Engine) convInt(st *State, l Lin, from, to types.Type) Lin {
	l = st.norm(l)
	w, signed := intWidth(to)
	if l.isConst() {
		if w < 64 {
			return constLin(wrapConst(l.c, w, signed))
		}
		if !signed && l.c < 0 {
			return symLin(e.bigConst(uint64(l.c)))
		}
		return l
	}
	lo, hi, hasHi := intRange(to)
	if !hasHi {
		hi = math.MaxInt64
	}
	fw, fs := intWidth(from)
	if fw == w && fs == signed {
		return l
	}
	if fw < w && (!fs || signed) {
		return l // widening
	}
	if st.inRange(l, lo, hi, 0) {
		return l
	}
	if w == 64 && signed && len(l.t) == 1 && l.t[0].c == -1 && l.c >= -1 {
		// -x of something that is not negative
		if in := &e.syms.info[l.t[0].s]; in.hasLo && in.lo >= 0 && in.hasHi {
			return l
		}
	}
	if s, f, ok := e.byteFn(l); ok {
		n := e.syms.info[s].dom
		tab := make([]int64, n)
		for i := range tab {
			tab[i] = wrapConst(f(i), w, signed)
		}
		if w < 64 || signed {
			return e.tabLin(s, tab)
		}
	}
	// conversion back?
	if s, ok := l.single(); ok {
		if t, ok := e.terms[s]; ok && t.op == "conv" {
			if o, ok := t.args[1].(IntV); ok {
				if tt, ok := t.args[2].(Opq); ok && tt.t != nil {
					ow, os := intWidth(tt.t)
					if ow == w && os == signed && fw >= w {
						return o.l
					}
				}
			}
		}
	}
	key := fmt.Sprintf("conv(%d,%v,%s)", w, signed, e.syms.str(l))
	s := e.intSym(key, to)
	in := &e.syms.info[s]
	if in.def == nil {
		in.def = &deferred{l, lo, hi}
		if in.vec == nil {
			in.vec = truncVec(e.vec(l), w, signed)
		}
		e.terms[s] = Term{"conv", []Value{StrTag(key), IntV{l}, Opq{0, from}}}
	}
	return symLin(s)
}

// ---------------------------------------------------------------- binary operations

func (e *Engine) binop(st *State, op token.Token, x, y Value, xt, t types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		c := e.eqCond(st, x, y, xt)
		if op == token.NEQ {
			c = c.not()
		}
		return BoolV{c}
	}
	if isInt(xt) {
		a, b := st.norm(e.lin(x)), st.norm(e.lin(y))
		switch op {
		case token.LSS:
			return BoolV{e.ge(a, b, true).not()}
		case token.GEQ:
			return BoolV{e.ge(a, b, true)}
		case token.LEQ:
			return BoolV{e.ge(b, a, true)}
		case token.GTR:
			return BoolV{e.ge(b, a, true).not()}
		}
		return IntV{e.arith(st, op, a, b, t)}
	}
	if b, ok := x.(BoolV); ok && t != nil {
		_ = b
	}
	if isString(xt) {
		if op == token.ADD {
			a, ok1 := x.(SliceV)
			b, ok2 := y.(SliceV)
			if ok1 && ok2 {
				o := e.newObj(fmt.Sprintf("concat%d", e.objs), types.Typ[types.Byte])
				o.fresh = true
				o.parts = append(joined(a), joined(b)...)
				l := a.ln.add(b.ln)
				return SliceV{base: o, ln: l, cp: l, str: true, elem: types.Typ[types.Byte]}
			}
		}
		return BoolV{&Cond{k: cSym, s: e.mkSym("str"+op.String(), x, y)}}
	}
	if t == nil {
		return BoolV{&Cond{k: cSym, s: e.mkSym("cmp"+op.String(), x, y)}}
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		return BoolV{&Cond{k: cSym, s: e.mkSym("cmp"+op.String(), x, y)}}
	}
	return e.mk("op"+op.String(), t, x, y)
}

// ge is the condition a >= b.
func (e *Engine) ge(a, b Lin, _ bool) *Cond {
	l, ok := a.addMul(b, -1)
	if !ok {
		return &Cond{k: cSym, s: e.freshSym("cmp")}
	}
	if s, f, ok := e.byteFn(l); ok {
		c := &Cond{k: cTab, s: s}
		for i := 0; i < e.syms.info[s].dom; i++ {
			if f(i) >= 0 {
				c.set.put(i)
			}
		}
		return c
	}
	return &Cond{k: cGe, l: l}
}

func (e *Engine) eqCond(st *State, x, y Value, t types.Type) *Cond {
	// nil comparisons
	if isNilConst(x) || isNilConst(y) {
		v := x
		if isNilConst(x) {
			v = y
		}
		return e.nilCond(v)
	}
	switch a := x.(type) {
	case IntV:
		b := e.lin(y)
		l, ok := st.norm(a.l).addMul(st.norm(b), -1)
		if !ok {
			return &Cond{k: cSym, s: e.freshSym("cmp")}
		}
		if l.isConst() {
			return condConst(l.c == 0)
		}
		if s, f, ok := e.byteFn(l); ok {
			c := &Cond{k: cTab, s: s}
			for i := 0; i < e.syms.info[s].dom; i++ {
				if f(i) == 0 {
					c.set.put(i)
				}
			}
			return c
		}
		return &Cond{k: cEq, l: l}
	case BoolV:
		if b, ok := y.(BoolV); ok {
			if b.c.k == cTrue {
				if b.c.neg {
					return a.c.not()
				}
				return a.c
			}
			if a.c.k == cTrue {
				if a.c.neg {
					return b.c.not()
				}
				return b.c
			}
		}
	case SliceV:
		if b, ok := y.(SliceV); ok && a.str && b.str {
			sa, oka := constStr(a)
			sb, okb := constStr(b)
			if oka && okb {
				return condConst(sa == sb)
			}
			if oka && sa == "" {
				return &Cond{k: cEq, l: b.ln}
			}
			if okb && sb == "" {
				return &Cond{k: cEq, l: a.ln}
			}
			if valKey(a) == valKey(b) {
				return condTrue
			}
		}
	case PtrV:
		if b, ok := y.(PtrV); ok && a.obj != nil && b.obj != nil {
			if a.obj == b.obj {
				if a.path == b.path {
					return condTrue
				}
				if a.idx != nil && b.idx != nil {
					l, ok := a.idx.addMul(*b.idx, -1)
					if ok {
						return &Cond{k: cEq, l: st.norm(l)}
					}
				}
			} else if !e.mayAlias(a.obj, b.obj) {
				return condFalse
			}
		}
	case IfaceV:
		if b, ok := y.(IfaceV); ok && !types.Identical(a.dyn, b.dyn) {
			return condFalse
		}
		if b, ok := y.(IfaceV); ok {
			return e.eqCond(st, a.v, b.v, a.dyn)
		}
	}
	kx, ky := valKey(x), valKey(y)
	if kx == ky {
		return condTrue
	}
	if kx > ky {
		x, y = y, x
	}
	return &Cond{k: cSym, s: e.mkSym("eq", x, y)}
}

// mayAlias reports whether two memory objects might overlap.
func (e *Engine) mayAlias(a, b *Obj) bool {
	if a == b {
		return true
	}
	ra, rb := a.roots(), b.roots()
	for x := range ra {
		if rb[x] {
			return true
		}
	}
	return false
}

// roots are the objects whose memory o may be part of.
func (o *Obj) roots() map[*Obj]bool {
	r := map[*Obj]bool{}
	var walk func(x *Obj)
	walk = func(x *Obj) {
		if x == nil || r[x] {
			return
		}
		r[x] = true
		for _, y := range x.from {
			walk(y)
		}
	}
	walk(o)
	return r
}

func constStr(s SliceV) (string, bool) {
	if s.base != nil && strings.HasPrefix(s.base.key, "str:") && s.off.isConst() && s.ln.isConst() {
		k := s.base.key[4:]
		if s.off.c >= 0 && s.off.c+s.ln.c <= int64(len(k)) && s.ln.c >= 0 {
			return k[s.off.c : s.off.c+s.ln.c], true
		}
	}
	return "", false
}

func isNilConst(v Value) bool {
	switch v := v.(type) {
	case NilV:
		return true
	case PtrV:
		return v.nl.k == 1
	case SliceV:
		return v.nl.k == 1 && !v.str
	}
	return false
}

func (e *Engine) nilCond(v Value) *Cond {
	switch v := v.(type) {
	case NilV:
		return condTrue
	case PtrV:
		return condNl(v.nl)
	case SliceV:
		return condNl(v.nl)
	case IfaceV, FuncV:
		return condFalse
	case Opq:
		return &Cond{k: cNil, s: v.s}
	}
	return &Cond{k: cSym, s: e.freshSym("nil")}
}

func condNl(n Nil) *Cond {
	switch n.k {
	case 0:
		return condFalse
	case 1:
		return condTrue
	}
	return &Cond{k: cNil, s: n.s}
}

func (e *Engine) arith(st *State, op token.Token, a, b Lin, t types.Type) Lin {
	w, signed := intWidth(t)
	// functions of one byte
	if sa, f, g, n, ok := e.sameByte(a, b); ok {
		tab := make([]int64, n)
		good := true
		for i := range tab {
			v, ok := evalOp(op, f(i), g(i), w, signed)
			if !ok {
				// undefined for this byte; irrelevant if excluded
				if st.domOf(sa).has(i) {
					good = false
				}
			}
			tab[i] = v
		}
		if good {
			return e.tabLin(sa, tab)
		}
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalOp(op, a.c, b.c, w, signed); ok {
			return constLin(v)
		}
	}
	switch op {
	case token.ADD:
		if l, ok := a.addMul(b, 1); ok {
			return e.fit(st, l, t)
		}
	case token.SUB:
		if l, ok := a.addMul(b, -1); ok {
			return e.fit(st, l, t)
		}
	case token.MUL:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if l, ok := (Lin{}).addMul(a, b.c); ok {
				return e.fit(st, l, t)
			}
		}
	case token.SHL:
		if b.isConst() && b.c >= 0 && b.c < 64 {
			if b.c < 62 {
				if l, ok := (Lin{}).addMul(a, 1<<uint(b.c)); ok {
					lo, hi, hasHi := intRange(t)
					if !hasHi {
						hi = math.MaxInt64
					}
					if st.inRange(l, lo, hi, 0) {
						return l
					}
				}
			}
			v := e.vec(a)
			var r bitvec
			for i := int(b.c); i < 64; i++ {
				r[i] = v[i-int(b.c)]
			}
			return e.fromBits(st, &r, t)
		}
	case token.SHR:
		if b.isConst() && b.c >= 0 && b.c < 64 {
			v := truncVec(e.vec(a), w, signed)
			var r bitvec
			for i := 0; i < 64; i++ {
				if j := i + int(b.c); j < 64 {
					r[i] = v[j]
				} else if signed {
					r[i] = v[63]
				}
			}
			res := e.fromBits(st, &r, t)
			if st.entails(a) && b.c < 62 {
				// q*2^k <= a <= q*2^k + 2^k-1
				if x, ok := a.addMul(res, -(1 << uint(b.c))); ok {
					st.addGe(x)
					st.addGe(x.neg().addc(1<<uint(b.c) - 1))
				}
			}
			return res
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if a.isConst() {
			if op != token.AND_NOT {
				a, b = b, a
			}
		}
		if b.isConst() && b.c > 0 && !a.isConst() {
			// disjoint bits are added, bits beyond the mask are not there
			switch c := b.c; op {
			case token.OR, token.XOR:
				if low := c & -c; low < 1<<40 && st.inRange(a, 0, low-1, 0) {
					if l, ok := a.addMul(b, 1); ok {
						return e.fit(st, l, t)
					}
				}
			case token.AND:
				if c&(c+1) == 0 && c < 1<<40 && st.inRange(a, 0, c, 0) {
					return a
				}
			}
		}
		va, vb := e.vec(a), e.vec(b)
		var r bitvec
		for i := range r {
			switch op {
			case token.AND:
				r[i] = e.syms.bitAnd(va[i], vb[i])
			case token.OR:
				r[i] = e.syms.bitOr(va[i], vb[i])
			case token.XOR:
				r[i] = va[i].xor(vb[i])
			case token.AND_NOT:
				r[i] = e.syms.bitAnd(va[i], vb[i].xor(bit{c: true}))
			}
		}
		return e.fromBits(st, &r, t)
	case token.QUO, token.REM:
		if b.isConst() && b.c > 0 {
			if b.c&(b.c-1) == 0 && (!signed || st.entails(a)) {
				k := int64(0)
				for 1<<uint(k) != b.c {
					k++
				}
				if op == token.REM {
					return e.arith(st, token.AND, a, constLin(b.c-1), t)
				}
				return e.arith(st, token.SHR, a, constLin(k), t)
			}
			q := e.intSym(fmt.Sprintf("div(%s,%d)", e.syms.str(a), b.c), t)
			r := e.intSym(fmt.Sprintf("rem(%s,%d)", e.syms.str(a), b.c), t)
			if !signed || st.entails(a) {
				if x, ok := a.addMul(symLin(q), -b.c); ok {
					x = x.sub(symLin(r))
					st.addGe(x)
					st.addGe(x.neg())
					st.addGe(symLin(r))
					st.addGe(constLin(b.c - 1).sub(symLin(r)))
					st.addGe(symLin(q))
				}
			}
			if op == token.QUO {
				return symLin(q)
			}
			return symLin(r)
		}
	}
	return symLin(e.intSym(fmt.Sprintf("op%s(%s,%s,%d,%v)", op, e.syms.str(a), e.syms.str(b), w, signed), t))
}

// sameByte views both operands as functions of one small-domain symbol.
func (e *Engine) sameByte(a, b Lin) (Sym, func(int) int64, func(int) int64, int, bool) {
	cf := func(c int64) func(int) int64 { return func(int) int64 { return c } }
	sa, f, oka := e.byteFn(a)
	sb, g, okb := e.byteFn(b)
	switch {
	case oka && okb && sa == sb:
		return sa, f, g, e.syms.info[sa].dom, true
	case oka && b.isConst():
		return sa, f, cf(b.c), e.syms.info[sa].dom, true
	case okb && a.isConst():
		return sb, cf(a.c), g, e.syms.info[sb].dom, true
	}
	return 0, nil, nil, 0, false
}

func evalOp(op token.Token, a, b int64, w int, signed bool) (int64, bool) {
	var r int64
	switch op {
	case token.ADD:
		v, ok := addOvf(a, b)
		if !ok {
			return 0, false
		}
		r = v
	case token.SUB:
		v, ok := addOvf(a, -b)
		if !ok || b == math.MinInt64 {
			return 0, false
		}
		r = v
	case token.MUL:
		v, ok := mulOvf(a, b)
		if !ok {
			return 0, false
		}
		r = v
	case token.AND:
		r = a & b
	case token.OR:
		r = a | b
	case token.XOR:
		r = a ^ b
	case token.AND_NOT:
		r = a &^ b
	case token.SHL:
		if b < 0 || b > 62 || a < 0 || a > 1<<40 || b > 22 && a > 1<<20 {
			if b >= 0 && b < 64 && w <= 64 && a >= 0 {
				x := uint64(a) << uint(b)
				if w < 64 {
					return wrapConst(int64(x), w, signed), true
				}
				if int64(x) < 0 || x>>uint(b) != uint64(a) {
					if signed {
						return int64(x), true
					}
					return 0, false
				}
				return int64(x), true
			}
			return 0, false
		}
		r = a << uint(b)
	case token.SHR:
		if b < 0 {
			return 0, false
		}
		if b > 63 {
			b = 63
		}
		r = a >> uint(b)
	case token.QUO:
		if b == 0 {
			return 0, false
		}
		r = a / b
	case token.REM:
		if b == 0 {
			return 0, false
		}
		r = a % b
	default:
		return 0, false
	}
	if w == 64 && !signed && r < 0 {
		return 0, false
	}
	return wrapConst(r, w, signed), true
}

// ---------------------------------------------------------------- instructions

// step executes one instruction. It returns nil if it updated the item in
// place, and the successor items otherwise.
func (e *Engine) step(fr *Frame, it *item, in ssa.Instruction) []*item {
	st := it.st
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		o := e.newObj(fmt.Sprintf("new%d.%s", e.objs, in.Comment), t)
		o.zero, o.fresh, o.alloc = true, true, in
		p := PtrV{obj: o, elem: t}
		if _, ok := t.Underlying().(*types.Struct); ok && !e.opaqueStruct(t) {
			e.store(st, p, e.zero(t))
		}
		fr.set(it, in, p)
	case *ssa.BinOp:
		x, y := e.val(fr, it, in.X), e.val(fr, it, in.Y)
		if (in.Op == token.QUO || in.Op == token.REM) && isInt(in.X.Type()) {
			l := e.lin(y)
			ok := st.entails(l.addc(-1)) || st.entails(l.neg().addc(-1))
			e.oblige(fr, in, "div", in.String(), ok, func() string { return "divisor may be zero" })
		}
		if (in.Op == token.EQL || in.Op == token.NEQ) && holdsInterface(in.X.Type()) && holdsInterface(in.Y.Type()) {
			ok := comparable1(in.X.Type(), x) || comparable1(in.Y.Type(), y)
			e.oblige(fr, in, "compare", in.String(), ok, func() string { return "the values may not be comparable" })
		}
		if (in.Op == token.SHL || in.Op == token.SHR) && isInt(in.Y.Type()) {
			if _, signed := intWidth(in.Y.Type()); signed {
				ok := st.entails(e.lin(y))
				e.oblige(fr, in, "shift", in.String(), ok, func() string { return "shift count may be negative" })
			}
		}
		fr.set(it, in, e.binop(st, in.Op, x, y, in.X.Type(), in.Type()))
	case *ssa.UnOp:
		return e.unop(fr, it, in)
	case *ssa.ChangeType:
		v := e.val(fr, it, in.X)
		fr.set(it, in, retype(v, in.Type()))
	case *ssa.Convert:
		fr.set(it, in, e.convert(st, e.val(fr, it, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("mconv")), false))
	case *ssa.ChangeInterface:
		fr.set(it, in, e.val(fr, it, in.X))
	case *ssa.MakeInterface:
		fr.set(it, in, IfaceV{dyn: in.X.Type(), v: e.val(fr, it, in.X)})
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, e.val(fr, it, x))
		}
		fr.set(it, in, FuncV{fn: in.Fn.(*ssa.Function), binds: b})
	case *ssa.MakeMap:
		s := e.freshSym("map." + in.Name())
		st.nils[s] = false
		if in.Reserve != nil {
			e.allocObl(fr, it, in, e.lin(e.val(fr, it, in.Reserve)), mapEntrySize(in.Type()), "make(map)", false)
		}
		e.terms[s] = Term{"makemap", nil}
		st.epoch[fmt.Sprintf("mapnew:%d", s)] = 1
		e.symOrig[s] = []string{e.siteName(in)}
		st.event(&Ev{k: evNote, name: "makemap", val: Opq{s, in.Type()}, fn: fr.fn, site: in})
		fr.set(it, in, Opq{s, in.Type()})
	case *ssa.MakeSlice:
		n, c := e.lin(e.val(fr, it, in.Len)), e.lin(e.val(fr, it, in.Cap))
		el := in.Type().Underlying().(*types.Slice).Elem()
		e.allocObl(fr, it, in, n, sizeOf(el), "make len", true)
		if !n.eq(c) {
			e.allocObl(fr, it, in, c, sizeOf(el), "make cap", true)
			okc := st.entails(c.sub(n))
			e.oblige(fr, in, "alloc", "make len<=cap", okc, func() string { return "length may exceed capacity" })
		}
		st.addGe(n)
		st.addGe(constLin(maxLen).sub(n))
		o := e.newObj(fmt.Sprintf("make%d", e.objs), el)
		o.zero, o.fresh, o.alloc = true, true, in
		s := SliceV{base: o, ln: n, cp: c, elem: el}
		s.log = &Tok{k: tStart, n: n, v: &SliceV{base: o, ln: n}}
		fr.set(it, in, s)
	case *ssa.MakeChan:
		fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("chan")), false))
	case *ssa.Slice:
		fr.set(it, in, e.sliceOp(fr, it, in))
	case *ssa.FieldAddr:
		p, ok := e.val(fr, it, in.X).(PtrV)
		if !ok {
			p = e.fresh(in.X.Type(), e.syms.name(e.freshSym("ptr")), false).(PtrV)
		}
		e.derefObl(fr, it, in, p)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		f := stt.Underlying().(*types.Struct).Field(in.Field)
		fr.set(it, in, PtrV{obj: p.obj, path: p.path + "." + f.Name(), elem: f.Type()})
	case *ssa.Field:
		v := e.val(fr, it, in.X)
		if s, ok := v.(StructV); ok && in.Field < len(s.f) {
			fr.set(it, in, s.f[in.Field])
		} else {
			f := in.X.Type().Underlying().(*types.Struct).Field(in.Field)
			fr.set(it, in, e.fresh(f.Type(), "field."+f.Name()+"("+valKey(v)+")", false))
		}
	case *ssa.IndexAddr:
		i := e.lin(e.val(fr, it, in.Index))
		switch x := e.val(fr, it, in.X).(type) {
		case SliceV:
			e.indexObl(fr, it, in, i, x.ln, "index")
			off := st.norm(x.off.add(i))
			fr.set(it, in, PtrV{obj: x.base, path: idxPath(off), idx: &off, off: off, elem: x.elem})
		case PtrV:
			e.derefObl(fr, it, in, x)
			at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			e.indexObl(fr, it, in, i, constLin(at.Len()), "index")
			off := st.norm(i)
			fr.set(it, in, PtrV{obj: x.obj, path: x.path + idxPath(off), idx: &off, off: off, elem: at.Elem()})
		default:
			fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("elem")), false))
		}
	case *ssa.Index:
		i := e.lin(e.val(fr, it, in.Index))
		x := e.val(fr, it, in.X)
		if s, ok := x.(SliceV); ok {
			e.indexObl(fr, it, in, i, s.ln, "string index")
			fr.set(it, in, e.loadByte(st, PtrV{obj: s.base, off: s.off.add(i)}))
			break
		}
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			e.indexObl(fr, it, in, i, constLin(at.Len()), "index")
		}
		fr.set(it, in, e.fresh(in.Type(), "index("+valKey(x)+","+i.key()+")", false))
	case *ssa.Lookup:
		return e.lookup(fr, it, in)
	case *ssa.Range:
		x := e.val(fr, it, in.X)
		s := e.freshSym("iter")
		e.terms[s] = Term{"range", []Value{x}}
		if m, ok := x.(Opq); ok {
			e.noteMap(m, in.X)
		}
		fr.set(it, in, Opq{s, in.Type()})
	case *ssa.Next:
		iter := e.val(fr, it, in.Iter)
		s := e.freshSym("next")
		tt := in.Type().(*types.Tuple)
		r := TupleV{BoolV{&Cond{k: cSym, s: s}}}
		if o, ok := iter.(Opq); ok {
			if tm, ok := e.terms[o.s]; ok && tm.op == "range" {
				if _, isNil := tm.args[0].(NilV); isNil {
					r[0] = BoolV{condFalse}
				}
			}
		}
		var nextMap *types.Map
		var nextOf Opq
		if o, ok := iter.(Opq); ok {
			if tm, ok := e.terms[o.s]; ok && tm.op == "range" {
				if m, ok := tm.args[0].(Opq); ok && m.t != nil {
					nextMap, _ = m.t.Underlying().(*types.Map)
					nextOf = m
				}
			}
		}
		mk := func(i int, name string) Value {
			t := tt.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				if i != 2 || nextMap == nil {
					return NilV{}
				}
				t = nextMap.Elem()
			}
			v := e.fresh(t, fmt.Sprintf("%s.%s", e.syms.name(s), name), true)
			if o, ok := iter.(Opq); ok {
				if tm, ok := e.terms[o.s]; ok && tm.op == "range" {
					if m, ok := tm.args[0].(Opq); ok {
						e.mapElem(v, m, name)
						e.mapValueFacts(st, m, v, name)
					}
				}
			}
			return v
		}
		r = append(r, mk(1, "k"), mk(2, "v"))
		if nextMap != nil && r[1] != (NilV{}) {
			if e.nextVal == nil {
				e.nextVal = map[string]Value{}
			}
			e.nextVal[fmt.Sprintf("%s@%d[%s]", e.syms.name(nextOf.s), e.mapEpoch(st, nextOf), e.keyStr(r[1]))] = r[2]
		}
		e.terms[s] = Term{"next", []Value{iter}}
		next := &Ev{k: evNote, name: "next", val: iter, x: r[1], val2: r[2], fn: fr.fn, site: in}
		if b, ok := r[0].(BoolV); ok {
			next.ok = b.c
		}
		st.event(next)
		fr.set(it, in, r)
	case *ssa.Extract:
		t := e.val(fr, it, in.Tuple)
		if tv, ok := t.(TupleV); ok && in.Index < len(tv) {
			fr.set(it, in, tv[in.Index])
		} else {
			fr.set(it, in, e.fresh(in.Type(), fmt.Sprintf("extract%d(%s)", in.Index, valKey(t)), false))
		}
	case *ssa.TypeAssert:
		return e.typeAssert(fr, it, in)
	case *ssa.Store:
		p, ok := e.val(fr, it, in.Addr).(PtrV)
		v := e.val(fr, it, in.Val)
		if !ok {
			break
		}
		e.derefObl(fr, it, in, p)
		st.event(&Ev{k: evStore, ptr: p, val: v, fn: fr.fn, site: in})
		e.store(st, p, v)
	case *ssa.MapUpdate:
		m := e.val(fr, it, in.Map)
		k, v := e.val(fr, it, in.Key), e.val(fr, it, in.Value)
		e.nilMapObl(fr, it, in, m)
		e.hashObl(fr, in, in.Map.Type().Underlying().(*types.Map), k)
		e.mapStoreFacts(fr, it, in, m, v)
		st.event(&Ev{k: evMapSet, m: m, x: k, val: v, fn: fr.fn, site: in})
		if o, ok := m.(Opq); ok {
			e.noteMap(o, in.Map)
			e.mapWritten(st, o)
		}
	case *ssa.Defer:
		d := deferred1{call: &in.Call, site: in}
		if !in.Call.IsInvoke() {
			d.fn = e.val(fr, it, in.Call.Value)
		} else {
			d.fn = e.val(fr, it, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, e.val(fr, it, a))
		}
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], d)
		st.event(&Ev{k: evNote, name: "defer", fn: fr.fn, site: in})
	case *ssa.Go:
		st.event(&Ev{k: evNote, name: "go", fn: fr.fn, site: in})
	case *ssa.Send, *ssa.Select:
		st.event(&Ev{k: evNote, name: "chan", fn: fr.fn, site: in})
		if v, ok := in.(ssa.Value); ok {
			fr.set(it, v, e.fresh(v.Type(), e.syms.name(e.freshSym("sel")), false))
		}
	case *ssa.Call:
		return e.call(fr, it, in)
	case *ssa.SliceToArrayPointer:
		fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("s2a")), false))
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.set(it, v, e.fresh(v.Type(), e.syms.name(e.freshSym("unk")), false))
		}
	}
	return nil
}

func retype(v Value, t types.Type) Value {
	switch v := v.(type) {
	case StructV:
		v.t = t
		return v
	case Opq:
		v.t = t
		return v
	}
	return v
}

func sizeOf(t types.Type) int64 {
	s := types.SizesFor("gc", "amd64")
	defer func() { recover() }()
	n := s.Sizeof(t)
	if n < 1 {
		n = 1
	}
	return n
}

func mapEntrySize(t types.Type) int64 {
	m := t.Underlying().(*types.Map)
	return sizeOf(m.Key()) + sizeOf(m.Elem()) + 8
}

func (e *Engine) unop(fr *Frame, it *item, in *ssa.UnOp) []*item {
	st := it.st
	x := e.val(fr, it, in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(PtrV)
		if !ok {
			fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("load")), false))
			return nil
		}
		e.derefObl(fr, it, in, p)
		v := e.load(st, p, in.Type())
		if g, ok := in.X.(*ssa.Global); ok {
			_ = g
		}
		fr.set(it, in, v)
	case token.NOT:
		fr.set(it, in, BoolV{e.cond(st, x).not()})
	case token.SUB:
		if isInt(in.Type()) {
			l := e.lin(x)
			fr.set(it, in, IntV{e.arith(st, token.SUB, constLin(0), l, in.Type())})
		} else {
			fr.set(it, in, e.mk("neg", in.Type(), x))
		}
	case token.XOR:
		l := e.lin(x)
		w, signed := intWidth(in.Type())
		if s, f, ok := e.byteFn(l); ok {
			n := e.syms.info[s].dom
			tab := make([]int64, n)
			for i := range tab {
				tab[i] = wrapConst(^f(i), w, signed)
			}
			fr.set(it, in, IntV{e.tabLin(s, tab)})
			return nil
		}
		v := *e.vec(l)
		for i := range v {
			v[i] = v[i].xor(bit{c: true})
		}
		fr.set(it, in, IntV{e.fromBits(st, &v, in.Type())})
	case token.ARROW:
		fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("recv")), false))
	}
	return nil
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	switch {
	case isInt(from) && isInt(to):
		return IntV{e.convInt(st, e.lin(v), from, to)}
	case isString(from) || isString(to):
		if s, ok := v.(SliceV); ok {
			o := e.newObj(fmt.Sprintf("conv%d", e.objs), types.Typ[types.Byte])
			o.fresh = true
			src := s
			el := types.Type(types.Typ[types.Byte])
			if sl, ok := to.Underlying().(*types.Slice); ok {
				el = sl.Elem()
			}
			if isString(from) && !isByte(el) {
				break
			}
			if isString(to) {
				if c, ok := constStr(s); ok {
					return e.strConst(c)
				}
				if !isByte(s.elem) {
					break
				}
			}
			return SliceV{base: o, ln: s.ln, cp: s.ln, str: isString(to), elem: el, fromConv: &src}
		}
	}
	if isFloat(to) || isFloat(from) {
		if isInt(to) {
			return IntV{symLin(e.intSym(e.syms.name(e.mkSym("f2i", v, StrTag(to.String()))), to))}
		}
		return e.mk("conv:"+to.String(), to, v)
	}
	if _, ok := to.Underlying().(*types.Basic); ok {
		return e.fresh(to, e.syms.name(e.mkSym("conv:"+to.String(), v)), false)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok { // unsafe.Pointer to *T
		r := e.fresh(to, e.syms.name(e.mkSym("uconv:"+to.String(), v)), false)
		if o, ok := v.(Opq); ok {
			if tm, ok := e.terms[o.s]; ok && tm.op == "conv:unsafe.Pointer" {
				if src, ok := tm.args[0].(PtrV); ok {
					if p, ok := r.(PtrV); ok {
						p.nl = src.nl
						r = p
					}
				}
			}
		}
		return r
	}
	return e.fresh(to, e.syms.name(e.freshSym("conv")), false)
}

// ---------------------------------------------------------------- obligations of instructions

func (e *Engine) derefObl(fr *Frame, it *item, in ssa.Instruction, p PtrV) {
	switch p.nl.k {
	case 0:
		if p.obj != nil {
			return
		}
	}
	c := condNl(p.nl)
	ok := p.nl.k == 2 && (it.st.decide(c) == no || it.st.nonNilParam(p.nl.s))
	e.oblige(fr, in, "nilptr", in.String(), ok, func() string { return "pointer may be nil" })
	it.st.assume(c.not())
}

// nonNilParam: pointer receivers and pointer parameters of the analysed entry
// are the caller's responsibility.
func (st *State) nonNilParam(s Sym) bool {
	k := st.e.syms.name(s)
	return strings.HasPrefix(k, "nil(arg.") && !strings.Contains(k[8:], ".")
}

func (e *Engine) indexObl(fr *Frame, it *item, in ssa.Instruction, i, n Lin, what string) {
	st := it.st
	ok1 := st.entails(i)
	d, ok := n.addMul(i, -1)
	ok2 := ok && st.entails(d.addc(-1))
	e.oblige(fr, in, "bounds", in.String(), ok1 && ok2, func() string {
		return fmt.Sprintf("%s %s not proved to be in [0,%s)", what, e.syms.str(st.norm(i)), e.syms.str(st.norm(n)))
	})
	if !ok1 {
		st.addGe(i)
	}
	if ok && !ok2 {
		st.addGe(d.addc(-1))
	}
}

func (e *Engine) nilMapObl(fr *Frame, it *item, in ssa.Instruction, m Value) {
	ok := false
	switch m := m.(type) {
	case Opq:
		ok = it.st.decide(&Cond{k: cNil, s: m.s}) == no
	}
	e.oblige(fr, in, "nilmap", in.String(), ok, func() string { return "write to a map that may be nil" })
}

// allocObl: the size must be non-negative and bounded by a multiple of the
// bytes supplied.
func (e *Engine) allocObl(fr *Frame, it *item, in ssa.Instruction, n Lin, elem int64, what string, panics bool) {
	if e.dry > 0 {
		return
	}
	st := it.st
	n = st.norm(n)
	if n.isConst() && n.c >= 0 && n.c <= 1<<20 {
		e.oblige(fr, in, "alloc", what, true, nil)
		return
	}
	neg := st.entails(n)
	// a bound by a multiple of the lengths of existing memory
	ok := false
	var bound string
	if neg {
		ok, bound = e.boundedBySupplied(st, n, it, fr)
	}
	if panics {
		lim := 4 * maxLen
		fault := neg && (ok || st.entails(constLin(lim).sub(n)))
		e.oblige(fr, in, "makesize", what, fault, func() string {
			return fmt.Sprintf("%s %s may be negative or absurd", what, e.syms.str(n))
		})
	} else {
		e.oblige(fr, in, "makesize", what, true, nil)
	}
	e.oblige(fr, in, "alloc", what, neg && ok, func() string {
		return fmt.Sprintf("%s %s is not bounded by the bytes supplied", what, e.syms.str(n))
	})
	_ = bound
}

// maxExpand is the largest expansion ratio of a compressed body that is
// accepted as bounded.
const maxExpand = 1200

// boundedBySupplied: n <= maxExpand * (sum of lengths of existing slices) + 64.
func (e *Engine) boundedBySupplied(st *State, n Lin, it *item, fr *Frame) (bool, string) {
	// memory that exists already has been accounted for
	for _, t := range n.t {
		if e.options[t.s] && t.c > 0 && t.c <= 4 {
			n, _ = n.addMul(symLin(t.s), -t.c)
			continue
		}
		if k := e.syms.info[t.s].key; t.c > 0 && t.c <= 4 && (strings.HasPrefix(k, "len(") || strings.HasPrefix(k, "cap(")) {
			n, _ = n.addMul(symLin(t.s), -t.c)
		}
	}
	if n.isConst() && n.c <= 1<<20 {
		return true, "existing memory"
	}
	lens := map[string]Lin{}
	sum := constLin(64)
	for s := Sym(1); int(s) < len(e.syms.info); s++ {
		k := e.syms.info[s].key
		if e.supplied(k) {
			lens[k] = symLin(s)
		}
	}
	if len(lens) == 0 {
		return false, ""
	}
	// directly: every symbol of n that is not a supplied length must be bounded
	for _, l := range lens {
		if x, ok := (Lin{}).addMul(l, maxExpand); ok {
			if st.entails(x.addc(64).sub(n)) {
				return true, e.syms.str(l)
			}
		}
	}
	for _, l := range lens {
		sum, _ = sum.addMul(l, maxExpand)
	}
	if len(lens) <= 12 && st.entails(sum.sub(n)) {
		return true, "sum"
	}
	return false, ""
}

// supplied: lengths of memory that exists already when the function is entered.
func (e *Engine) supplied(key string) bool {
	if strings.HasPrefix(key, "len(arg.") || strings.HasPrefix(key, "cap(arg.") {
		return true
	}
	if strings.HasPrefix(key, "len(have.") {
		return true
	}
	return strings.HasPrefix(key, "len(at(arg.") || strings.HasPrefix(key, "mlen(")
}

// ---------------------------------------------------------------- slices

func (e *Engine) sliceOp(fr *Frame, it *item, in *ssa.Slice) Value {
	st := it.st
	var s SliceV
	switch x := e.val(fr, it, in.X).(type) {
	case SliceV:
		s = x
	case PtrV:
		e.derefObl(fr, it, in, x)
		at := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		o := x.obj
		if o == nil {
			o = e.newObj("nilarr", at)
		}
		if x.path != "" {
			// an array inside a struct: treat as its own memory
			o = e.objFor(o.key+x.path, at.Elem())
		}
		s = SliceV{base: o, ln: constLin(at.Len()), cp: constLin(at.Len()), elem: at.Elem()}
		if x.obj != nil && x.obj.fresh && x.path == "" {
			s.array = true
		}
		s.log = &Tok{k: tStart, n: s.ln, v: &SliceV{base: o, ln: s.ln, elem: s.elem}}
	default:
		return e.fresh(in.Type(), e.syms.name(e.freshSym("slice")), false)
	}
	lo, hi := constLin(0), s.ln
	if in.Low != nil {
		lo = e.lin(e.val(fr, it, in.Low))
	}
	if in.High != nil {
		hi = e.lin(e.val(fr, it, in.High))
	}
	lim := s.cp
	if s.str {
		lim = s.ln
	}
	max := lim
	if in.Max != nil {
		max = e.lin(e.val(fr, it, in.Max))
	}
	chk := func(a, b Lin, d string) {
		l, ok := b.addMul(a, -1)
		good := ok && st.entails(l)
		e.oblige(fr, in, "bounds", in.String()+" "+d, good, func() string {
			return fmt.Sprintf("slice bound %s <= %s not proved", e.syms.str(st.norm(a)), e.syms.str(st.norm(b)))
		})
		if ok && !good {
			st.addGe(l)
		}
	}
	if in.Low != nil {
		chk(constLin(0), lo, "low>=0")
	}
	if in.High != nil || in.Low != nil {
		chk(lo, hi, "low<=high")
	}
	if in.High != nil {
		chk(hi, max, "high<=cap")
	}
	if in.Max != nil {
		chk(max, lim, "max<=cap")
	}
	r := s
	r.off = st.norm(s.off.add(lo))
	r.ln = st.norm(hi.sub(lo))
	r.cp = st.norm(max.sub(lo))
	if s.nl.k == 2 {
		r.nl = s.nl
	}
	r.elem = s.elem
	r.ident = 0
	if lo.isConst() && lo.c == 0 && hi.eq(s.ln) {
		r.ident = s.ident
	}
	// log: dropping a prefix is remembered, dropping a suffix trims tokens
	if s.log != nil {
		r.skip = s.skip.add(lo)
		r.log = e.trimLog(st, s, st.norm(s.skip.add(hi)))
		if r.log == nil && s.log.k == tStart && s.log.v != nil {
			// a prefix of a start is a start
			v := *s.log.v
			v.ln = st.norm(s.skip.add(hi))
			r.log = &Tok{k: tStart, n: v.ln, v: &v}
		}
	}
	if s.fromConv != nil {
		c := *s.fromConv
		c.off = c.off.add(lo)
		c.ln = r.ln
		r.fromConv = &c
	}
	return r
}

// trimLog cuts the log to the first n elements, or forgets it.
func (e *Engine) trimLog(st *State, s SliceV, n Lin) *Tok {
	total := s.skip.add(s.ln)
	if n.isConst() && n.c == 0 && s.skip.isConst() && s.skip.c == 0 {
		return &Tok{k: tStart}
	}
	if d := st.norm(total.sub(n)); d.isConst() && d.c == 0 {
		return s.log
	}
	t := s.log
	for t != nil {
		end := t.at.add(t.n)
		d := st.norm(end.sub(n))
		if d.isConst() && d.c == 0 || (!d.isConst() && st.entails(d) && st.entails(d.neg())) {
			return t
		}
		if d.isConst() && d.c < 0 {
			break
		}
		if t.k == tStart || t.k == tLoopIn {
			break
		}
		t = t.prev
	}
	if n.isConst() && n.c == 0 {
		return &Tok{k: tStart}
	}
	return nil
}

// ---------------------------------------------------------------- maps

func (e *Engine) mapElem(v Value, m Opq, what string) {
	_ = v
}

func (e *Engine) mapLen(st *State, m Opq) Lin {
	ep := e.mapEpoch(st, m)
	return symLin(e.syms.ranged(fmt.Sprintf("mlen(%s)@%d", e.syms.name(m.s), ep), 0, maxLen))
}

func (e *Engine) lookup(fr *Frame, it *item, in *ssa.Lookup) []*item {
	st := it.st
	x := e.val(fr, it, in.X)
	k := e.val(fr, it, in.Index)
	if s, ok := x.(SliceV); ok { // string index
		i := e.lin(k)
		e.indexObl(fr, it, in, i, s.ln, "string index")
		fr.set(it, in, e.loadByte(st, PtrV{obj: s.base, off: s.off.add(i)}))
		return nil
	}
	m, ok := x.(Opq)
	if !ok {
		if _, isNil := x.(NilV); isNil {
			vt := in.X.Type().Underlying().(*types.Map).Elem()
			if in.CommaOk {
				fr.set(it, in, TupleV{e.zero(vt), BoolV{condFalse}})
			} else {
				fr.set(it, in, e.zero(vt))
			}
			return nil
		}
		fr.set(it, in, e.fresh(in.Type(), e.syms.name(e.freshSym("lookup")), false))
		return nil
	}
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		e.hashObl(fr, in, mt, k)
	}
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	e.noteMap(m, in.X)
	ep := e.mapEpoch(st, m)
	key := fmt.Sprintf("%s@%d[%s]", e.syms.name(m.s), ep, e.keyStr(k))
	found := &Cond{k: cSym, s: e.syms.get("has " + key)}
	mkv := func(st *State) Value {
		v := e.fresh(vt, "val "+key, true)
		return v
	}
	ev := func(st *State, v Value, ok *Cond) {
		st.event(&Ev{k: evMapGet, m: m, x: k, val: v, ok: ok, fn: fr.fn, site: in})
	}
	yesIt, noIt := it, it.clone()
	d := st.decide(found)
	var out []*item
	if v, ok := e.nextVal[key]; ok {
		// the entry that an iteration over the map has just given
		st.nils[m.s] = false
		ev(st, v, condTrue)
		if in.CommaOk {
			fr.set(it, in, TupleV{v, BoolV{condTrue}})
		} else {
			fr.set(it, in, v)
		}
		return nil
	}
	if d != no && yesIt.st.assume(found) {
		v := mkv(yesIt.st)
		yesIt.st.nils[m.s] = false
		e.mapValueFacts(yesIt.st, m, v, "v")
		ev(yesIt.st, v, condTrue)
		if in.CommaOk {
			fr.set(yesIt, in, TupleV{v, BoolV{condTrue}})
		} else {
			fr.set(yesIt, in, v)
		}
		out = append(out, yesIt)
	}
	if d != yes && noIt.st.assume(found.not()) {
		v := e.zero(vt)
		ev(noIt.st, v, condFalse)
		if in.CommaOk {
			fr.set(noIt, in, TupleV{v, BoolV{condFalse}})
		} else {
			fr.set(noIt, in, v)
		}
		out = append(out, noIt)
	}
	return out
}

// hashObl: a key that is looked up or stored can be hashed.
func (e *Engine) hashObl(fr *Frame, in ssa.Instruction, mt *types.Map, k Value) {
	if holdsInterface(mt.Key()) {
		what := in.String()
		e.oblige(fr, in, "hash", what, comparable1(mt.Key(), k), func() string { return "map key may be unhashable" })
	}
}

// holdsInterface: comparing values of the type may compare values of types
// known at run time only.
func holdsInterface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Array:
		return holdsInterface(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsInterface(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// comparable1: comparing v, of type t, with itself cannot fault.
func comparable1(t types.Type, v Value) bool {
	if isReflectType(t) || isErrorType(t) || !holdsInterface(t) {
		return true
	}
	if _, ok := v.(NilV); ok {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		iv, ok := v.(IfaceV)
		return ok && types.Comparable(iv.dyn) && comparable1(iv.dyn, iv.v)
	case *types.Struct:
		sv, ok := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			if ok && i < len(sv.f) {
				f = sv.f[i]
			}
			if !comparable1(u.Field(i).Type(), f) {
				return false
			}
		}
		return true
	}
	return false
}

func isReflectType(t types.Type) bool { return isNamed(t, "reflect", "Type") }

// keyStr identifies a map key by content.
func (e *Engine) keyStr(v Value) string {
	if s, ok := v.(SliceV); ok {
		for s.fromConv != nil {
			s = *s.fromConv
		}
		if c, ok := constStr(s); ok {
			return fmt.Sprintf("%q", c)
		}
		return valKey(s)
	}
	if s, ok := v.(StructV); ok {
		var r []string
		for _, f := range s.f {
			r = append(r, e.keyStr(f))
		}
		return "{" + strings.Join(r, ",") + "}"
	}
	return valKey(v)
}

// ---------------------------------------------------------------- type assertions

func implKey(e *Engine, v Opq, t types.Type) string {
	return fmt.Sprintf("implements(%s,%s)", e.syms.name(v.s), t.String())
}

func (e *Engine) typeAssert(fr *Frame, it *item, in *ssa.TypeAssert) []*item {
	st := it.st
	x := e.val(fr, it, in.X)
	t := in.AssertedType
	mkOK := func(ok bool, v Value) Value {
		if in.CommaOk {
			return TupleV{v, BoolV{condConst(ok)}}
		}
		return v
	}
	toIface := types.IsInterface(t)
	matches := func(dyn types.Type) bool {
		if toIface {
			return types.Implements(dyn, t.Underlying().(*types.Interface))
		}
		return types.Identical(dyn, t)
	}
	switch v := x.(type) {
	case IfaceV:
		if matches(v.dyn) {
			if toIface {
				fr.set(it, in, mkOK(true, v))
			} else {
				fr.set(it, in, mkOK(true, v.v))
			}
		} else {
			if !in.CommaOk {
				e.oblige(fr, in, "assert", in.String(), false, func() string { return "type assertion always fails" })
			}
			fr.set(it, in, mkOK(false, e.zero(t)))
		}
		return nil
	case NilV:
		if !in.CommaOk {
			e.oblige(fr, in, "assert", in.String(), false, func() string { return "type assertion on nil" })
		}
		fr.set(it, in, mkOK(false, e.zero(t)))
		return nil
	case Opq:
		var c *Cond
		if toIface {
			if tf, ok := st.typs[v.s]; ok && tf.is != nil {
				c = condConst(matches(tf.is))
			} else {
				key := implKey(e, v, t)
				c = &Cond{k: cSym, s: e.syms.get(key)}
				if t.Underlying().(*types.Interface).NumMethods() == 0 {
					c = (&Cond{k: cNil, s: v.s}).not()
				} else if st.decide(&Cond{k: cNil, s: v.s}) == yes {
					c = condFalse
				}
			}
		} else {
			c = &Cond{k: cType, s: v.s, t: t}
		}
		if !in.CommaOk {
			ok := st.decide(c) == yes || e.trustedAssert(v, t)
			e.oblige(fr, in, "assert", in.String(), ok, func() string { return "type assertion may fail" })
			st.assume(c)
			if toIface {
				fr.set(it, in, Opq{v.s, t})
			} else {
				fr.set(it, in, e.asType(v, t))
			}
			return nil
		}
		var out []*item
		y, n := it, it.clone()
		d := st.decide(c)
		if d != no && y.st.assume(c) {
			y.st.nils[v.s] = false
			if toIface {
				fr.set(y, in, TupleV{Opq{v.s, t}, BoolV{condTrue}})
			} else {
				fr.set(y, in, TupleV{e.asType(v, t), BoolV{condTrue}})
			}
			out = append(out, y)
		}
		if d != yes && n.st.assume(c.not()) {
			fr.set(n, in, TupleV{e.zero(t), BoolV{condFalse}})
			out = append(out, n)
		}
		return out
	}
	fr.set(it, in, mkOK(true, e.fresh(t, e.syms.name(e.freshSym("assert")), false)))
	return nil
}

// typeName names identical types the same.
func typeName(t types.Type) string {
	switch {
	case types.Identical(t, bytesType):
		return "[]byte"
	case types.Identical(t, ifacesType):
		return "[]interface{}"
	}
	return t.String()
}

var (
	bytesType  = types.NewSlice(types.Typ[types.Byte])
	ifacesType = types.NewSlice(types.NewInterfaceType(nil, nil))
)

func (e *Engine) asType(v Opq, t types.Type) Value {
	in := strings.HasPrefix(e.syms.name(v.s), "arg.") || e.isInputSym(v.s)
	r := e.fresh(t, fmt.Sprintf("as(%s,%s)", e.syms.name(v.s), typeName(t)), in)
	if p, ok := r.(PtrV); ok && p.nl.k == 2 {
		p.nl.s = e.syms.get("pnil(" + e.syms.name(v.s) + ")")
		if n, ok := t.(*types.Pointer); ok && v.t != nil && types.Identical(v.t, errType) && !e.ownType(n.Elem()) {
			p.nl = Nil{} // errors of the standard library are never nil pointers
		}
		r = p
	}
	return r
}

func (e *Engine) isInputSym(s Sym) bool { return strings.Contains(e.syms.name(s), "arg.") }

// trustedAssert: sync.Pool.Get of a pool whose New and Put only supply one type.
func (e *Engine) trustedAssert(v Opq, t types.Type) bool {
	tm, ok := e.terms[v.s]
	return ok && tm.op == "poolget"
}

var _ = constant.Int64Val

// joined are the parts of a string.
func joined(s SliceV) []SliceV {
	if s.base != nil && len(s.base.parts) > 0 {
		return append([]SliceV(nil), s.base.parts...)
	}
	return []SliceV{s}
}
