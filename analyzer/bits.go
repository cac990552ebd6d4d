package main

import (
	"fmt"
	"math"
	"strings"
)

// A bit is a sum over GF(2) of a constant and of atoms (bit i of symbol s).
type atom struct {
	s Sym
	i int8
}

type bit struct {
	c bool
	a []atom // sorted, distinct
}

type bitvec [64]bit

func (a atom) less(b atom) bool { return a.s < b.s || (a.s == b.s && a.i < b.i) }

func (b bit) isConst() bool { return len(b.a) == 0 }

func (x bit) xor(y bit) bit {
	r := bit{c: x.c != y.c}
	i, j := 0, 0
	for i < len(x.a) || j < len(y.a) {
		switch {
		case j >= len(y.a) || (i < len(x.a) && x.a[i].less(y.a[j])):
			r.a = append(r.a, x.a[i])
			i++
		case i >= len(x.a) || y.a[j].less(x.a[i]):
			r.a = append(r.a, y.a[j])
			j++
		default:
			i++
			j++
		}
	}
	return r
}

func (x bit) eq(y bit) bool {
	if x.c != y.c || len(x.a) != len(y.a) {
		return false
	}
	for i := range x.a {
		if x.a[i] != y.a[i] {
			return false
		}
	}
	return true
}

func (v *bitvec) eq(w *bitvec) bool {
	for i := range v {
		if !v[i].eq(w[i]) {
			return false
		}
	}
	return true
}

func constVec(c int64) *bitvec {
	var v bitvec
	for i := range v {
		v[i].c = uint64(c)>>uint(i)&1 == 1
	}
	return &v
}

func (v *bitvec) constant() (int64, bool) {
	var r uint64
	for i := range v {
		if !v[i].isConst() {
			return 0, false
		}
		if v[i].c {
			r |= 1 << uint(i)
		}
	}
	return int64(r), true
}

func (v *bitvec) key() string {
	var b strings.Builder
	b.WriteString("bits{")
	for i := 63; i >= 0; i-- {
		if v[i].isConst() {
			if v[i].c {
				b.WriteByte('1')
			} else {
				b.WriteByte('0')
			}
			continue
		}
		b.WriteByte('(')
		if v[i].c {
			b.WriteByte('~')
		}
		for _, a := range v[i].a {
			fmt.Fprintf(&b, "%d.%d,", a.s, a.i)
		}
		b.WriteByte(')')
	}
	b.WriteByte('}')
	return b.String()
}

// and/or need opaque atoms unless one side is constant or both are equal
func (t *Syms) bitAnd(x, y bit) bit {
	switch {
	case x.isConst():
		if x.c {
			return y
		}
		return bit{}
	case y.isConst():
		if y.c {
			return x
		}
		return bit{}
	case x.eq(y):
		return x
	case x.xor(y).isConst(): // x and not x
		return bit{}
	}
	kx, ky := bitKey(x), bitKey(y)
	if kx > ky {
		kx, ky = ky, kx
	}
	s := t.ranged("and("+kx+","+ky+")", 0, 1)
	return bit{a: []atom{{s, 0}}}
}

func bitKey(b bit) string {
	var v bitvec
	v[0] = b
	return v.key()[63:]
}

func (t *Syms) bitOr(x, y bit) bit {
	// x|y = x ^ y ^ x&y
	return x.xor(y).xor(t.bitAnd(x, y))
}

// symVec is the bit pattern of a symbol, extended to 64 bits.
func (t *Syms) symVec(s Sym) *bitvec {
	in := &t.info[s]
	if in.vec != nil {
		return in.vec
	}
	var v bitvec
	n := 64
	if in.hasLo && in.lo >= 0 && in.hasHi {
		n = 0
		for in.hi>>uint(n) != 0 {
			n++
		}
	} else if in.hasLo && in.lo >= 0 {
		n = 64 // might be a uint64 above MaxInt64
	}
	for i := 0; i < n; i++ {
		v[i] = bit{a: []atom{{s, int8(i)}}}
	}
	in.vec = &v
	return &v
}

// linVec is the bit pattern of a linear expression.
func (t *Syms) linVec(l Lin) *bitvec {
	if l.isConst() {
		return constVec(l.c)
	}
	if s, ok := l.single(); ok {
		return t.symVec(s)
	}
	if len(l.t) == 1 {
		c := l.t[0].c
		neg := c < 0
		if neg {
			c = -c
		}
		if c > 0 && c&(c-1) == 0 {
			k := 0
			for c>>uint(k) != 1 {
				k++
			}
			x := t.symVec(l.t[0].s)
			var v bitvec // x times a power of two
			for i := k; i < 64; i++ {
				v[i] = x[i-k]
			}
			switch {
			case neg && l.c == -1: // -1-x == ^x
				for i := range v {
					v[i] = v[i].xor(bit{c: true})
				}
				return &v
			case neg && l.c == -c: // -x-1, shifted
				for i := k; i < 64; i++ {
					v[i] = v[i].xor(bit{c: true})
				}
				return &v
			case neg && l.c == 0 && k == 0: // -x for x in {0,1}
				zero := true
				for i := 1; i < 64; i++ {
					zero = zero && x[i].eq(bit{})
				}
				if zero {
					for i := range v {
						v[i] = x[0]
					}
					return &v
				}
			case !neg && l.c >= 0: // x has zero bits wherever the constant has ones
				ok := true
				for i := 0; i < 64; i++ {
					if uint64(l.c)>>uint(i)&1 == 1 {
						ok = ok && v[i].eq(bit{})
						v[i] = bit{c: true}
					}
				}
				if ok {
					return &v
				}
			}
		}
	}
	// wrapped 64-bit subexpressions: bits do not notice
	for _, x := range l.t {
		d := t.info[x.s].def
		if d == nil || d.hi != math.MaxInt64 || d.lo != 0 && d.lo != math.MinInt64 {
			continue
		}
		if r, ok := l.addMul(symLin(x.s), -x.c); ok {
			if r, ok = r.addMul(d.e, x.c); ok {
				return t.linVec(r)
			}
		}
	}
	s := t.get("lin(" + l.key() + ")")
	return t.symVec(s)
}

// truncVec wraps v to a type of w bits.
func truncVec(v *bitvec, w int, signed bool) *bitvec {
	if w >= 64 {
		return v
	}
	r := *v
	for i := w; i < 64; i++ {
		if signed {
			r[i] = v[w-1]
		} else {
			r[i] = bit{}
		}
	}
	return &r
}

// fromVec turns a bit pattern back into a linear expression, reusing an
// existing symbol when the pattern is that symbol's.
func (t *Syms) fromVec(v *bitvec) Lin {
	if c, ok := v.constant(); ok {
		return constLin(c)
	}
	// the pattern of an existing symbol?
	for i := range v {
		if len(v[i].a) == 1 && !v[i].c {
			s := v[i].a[0].s
			if int(v[i].a[0].i) == i && t.symVec(s).eq(v) {
				return symLin(s)
			}
			break
		}
	}
	k := v.key()
	if s, ok := t.byKey[k]; ok {
		return symLin(s)
	}
	s := t.get(k)
	in := &t.info[s]
	in.vec = v
	// range from the known bits
	if v[63].eq(bit{}) {
		in.hasLo, in.hasHi = true, true
		for i := 0; i < 63; i++ {
			if !v[i].eq(bit{}) {
				in.hi |= 1 << uint(i)
			}
			if v[i].isConst() && v[i].c {
				in.lo |= 1 << uint(i)
			}
		}
	}
	return symLin(s)
}
