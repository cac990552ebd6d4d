package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- symbols

// Sym names an unknown integer (or opaque) quantity of the abstract domain.
type Sym int32

type symInfo struct {
	key    string // hash-consing key, human readable
	lo, hi int64
	hasLo  bool
	hasHi  bool

	// small-domain symbols: bytes (256 values) and reflect kinds (32 values)
	dom int

	// a function of a small-domain symbol
	of  Sym
	tab []int64

	vec *bitvec // bit-level provenance, nil if opaque

	def *deferred // defining linear expression, valid when it does not wrap
}

type deferred struct {
	e      Lin
	lo, hi int64
}

// Syms is the table of hash-consed symbols.
type Syms struct {
	info  []symInfo
	byKey map[string]Sym
	fresh int
}

func newSyms() *Syms {
	s := &Syms{byKey: map[string]Sym{}}
	s.info = append(s.info, symInfo{key: "none"})
	return s
}

func (t *Syms) get(key string) Sym {
	if s, ok := t.byKey[key]; ok {
		return s
	}
	s := Sym(len(t.info))
	t.info = append(t.info, symInfo{key: key})
	t.byKey[key] = s
	return s
}

func (t *Syms) newFresh(prefix string) Sym {
	t.fresh++
	return t.get(fmt.Sprintf("%s#%d", prefix, t.fresh))
}

func (t *Syms) ranged(key string, lo, hi int64) Sym {
	s := t.get(key)
	i := &t.info[s]
	i.lo, i.hasLo, i.hi, i.hasHi = lo, true, hi, true
	return s
}

func (t *Syms) min(key string, lo int64) Sym {
	s := t.get(key)
	i := &t.info[s]
	i.lo, i.hasLo = lo, true
	return s
}

func (t *Syms) small(key string, n int) Sym {
	s := t.ranged(key, 0, int64(n-1))
	t.info[s].dom = n
	return s
}

func (t *Syms) name(s Sym) string { return t.info[s].key }

// ---------------------------------------------------------------- linear expressions

type term struct {
	s Sym
	c int64
}

// Lin is c + sum(terms), with terms sorted by symbol and no zero coefficient.
type Lin struct {
	t []term
	c int64
}

func constLin(c int64) Lin { return Lin{c: c} }
func symLin(s Sym) Lin     { return Lin{t: []term{{s, 1}}} }

func (l Lin) isConst() bool { return len(l.t) == 0 }

// single reports whether l is exactly one symbol.
func (l Lin) single() (Sym, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].c == 1 {
		return l.t[0].s, true
	}
	return 0, false
}

func addOvf(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}

func mulOvf(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > math.MaxInt64 || a == math.MinInt64 || b == math.MinInt64 {
		return 0, false
	}
	return a * b, true
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

// addMul is l + k*m; ok is false when a coefficient overflows.
func (l Lin) addMul(m Lin, k int64) (Lin, bool) {
	r := Lin{t: make([]term, 0, len(l.t)+len(m.t))}
	p, ok := mulOvf(m.c, k)
	if !ok {
		return r, false
	}
	if r.c, ok = addOvf(l.c, p); !ok {
		return r, false
	}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].s < m.t[j].s):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].s < l.t[i].s:
			c, ok := mulOvf(m.t[j].c, k)
			if !ok {
				return r, false
			}
			if c != 0 {
				r.t = append(r.t, term{m.t[j].s, c})
			}
			j++
		default:
			c, ok := mulOvf(m.t[j].c, k)
			if !ok {
				return r, false
			}
			if c, ok = addOvf(c, l.t[i].c); !ok {
				return r, false
			}
			if c != 0 {
				r.t = append(r.t, term{l.t[i].s, c})
			}
			i++
			j++
		}
	}
	return r, true
}

func (l Lin) add(m Lin) Lin {
	r, ok := l.addMul(m, 1)
	if !ok {
		panic("coefficient overflow")
	}
	return r
}

func (l Lin) sub(m Lin) Lin {
	r, ok := l.addMul(m, -1)
	if !ok {
		panic("coefficient overflow")
	}
	return r
}

func (l Lin) addc(c int64) Lin {
	v, ok := addOvf(l.c, c)
	if !ok {
		panic("coefficient overflow")
	}
	return Lin{t: l.t, c: v}
}

func (l Lin) neg() Lin { return Lin{}.sub(l) }

func (l Lin) eq(m Lin) bool {
	if l.c != m.c || len(l.t) != len(m.t) {
		return false
	}
	for i := range l.t {
		if l.t[i] != m.t[i] {
			return false
		}
	}
	return true
}

func (l Lin) key() string {
	var b strings.Builder
	for _, t := range l.t {
		fmt.Fprintf(&b, "%d*s%d+", t.c, t.s)
	}
	fmt.Fprintf(&b, "%d", l.c)
	return b.String()
}

func (l Lin) subst(s Sym, e Lin) Lin {
	for _, t := range l.t {
		if t.s == s {
			r, ok := l.addMul(symLin(s), -t.c)
			if ok {
				if r, ok = r.addMul(e, t.c); ok {
					return r
				}
			}
			return l
		}
	}
	return l
}

func (t *Syms) str(l Lin) string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.c)
	}
	var b strings.Builder
	for i, x := range l.t {
		switch {
		case x.c == 1 && i > 0:
			b.WriteString("+")
		case x.c == -1:
			b.WriteString("-")
		case x.c != 1:
			fmt.Fprintf(&b, "%+d*", x.c)
		}
		b.WriteString(t.name(x.s))
	}
	if l.c != 0 {
		fmt.Fprintf(&b, "%+d", l.c)
	}
	return b.String()
}

// ---------------------------------------------------------------- polyhedral entailment

func gcd(a, b int64) int64 {
	a, b = abs64(a), abs64(b)
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// tighten divides an inequality l >= 0 by the gcd of its coefficients.
func tighten(l Lin) Lin {
	if len(l.t) == 0 {
		return l
	}
	g := int64(0)
	for _, t := range l.t {
		g = gcd(g, t.c)
	}
	if g <= 1 {
		return l
	}
	r := Lin{t: make([]term, len(l.t))}
	for i, t := range l.t {
		r.t[i] = term{t.s, t.c / g}
	}
	c := l.c / g
	if l.c%g != 0 && l.c < 0 {
		c--
	}
	r.c = c
	return r
}

func coefKey(l Lin) string {
	var b strings.Builder
	for _, t := range l.t {
		fmt.Fprintf(&b, "%d*%d,", t.c, t.s)
	}
	return b.String()
}

func (l Lin) coef(s Sym) int64 {
	i := sort.Search(len(l.t), func(i int) bool { return l.t[i].s >= s })
	if i < len(l.t) && l.t[i].s == s {
		return l.t[i].c
	}
	return 0
}

const fmLimit = 400

// coefHash identifies the coefficient vector of l, with the sign given.
func coefHash(l Lin, neg bool) uint64 {
	h := uint64(14695981039346656037)
	for _, t := range l.t {
		c := t.c
		if neg {
			c = -c
		}
		h ^= uint64(uint32(t.s)) | uint64(1)<<40
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
		h ^= uint64(c)
		h *= 0xBF58476D1CE4E5B9
		h ^= h >> 32
	}
	return h
}

func sameCoefs(a, b Lin, neg bool) bool {
	if len(a.t) != len(b.t) {
		return false
	}
	for i := range a.t {
		c := b.t[i].c
		if neg {
			c = -c
		}
		if a.t[i].s != b.t[i].s || a.t[i].c != c {
			return false
		}
	}
	return true
}

// system is a set of inequalities with the strongest one per coefficient
// vector.
type system struct {
	ix map[uint64]int32
	ls []Lin
}

func (y *system) insert(l Lin) (contradiction bool) {
	l = tighten(l)
	if len(l.t) == 0 {
		return l.c < 0
	}
	h := coefHash(l, false)
	if i, ok := y.ix[h]; ok {
		if o := y.ls[i]; sameCoefs(o, l, false) {
			if l.c < o.c {
				y.ls[i] = l
			} else {
				return false
			}
		} else {
			y.ls = append(y.ls, l) // hash collision: keep both
		}
	} else {
		y.ix[h] = int32(len(y.ls))
		y.ls = append(y.ls, l)
	}
	if i, ok := y.ix[coefHash(l, true)]; ok {
		if o := y.ls[i]; sameCoefs(o, l, true) {
			if s, ok := addOvf(o.c, l.c); ok && s < 0 {
				return true
			}
		}
	}
	return false
}

func newSystem(n int) *system { return &system{ix: make(map[uint64]int32, n), ls: make([]Lin, 0, n)} }

// infeasible decides (soundly, incompletely) that a conjunction of linear
// inequalities l >= 0 has no integer solution, by substituting equalities and
// Fourier-Motzkin elimination.
func infeasible(cs []Lin) bool {
	y := newSystem(2 * len(cs))
	for _, l := range cs {
		if y.insert(l) {
			return true
		}
	}
	// substitute equalities l >= 0, -l >= 0
	for again := true; again; {
		again = false
		for _, l := range y.ls {
			i, ok := y.ix[coefHash(l, true)]
			if !ok {
				continue
			}
			o := y.ls[i]
			if !sameCoefs(o, l, true) || o.c != -l.c {
				continue
			}
			var v Sym
			var vc int64
			for _, t := range l.t {
				if t.c == 1 || t.c == -1 {
					v, vc = t.s, t.c
					break
				}
			}
			if v == 0 {
				continue
			}
			n := newSystem(len(y.ls))
			for _, m := range y.ls {
				if c := m.coef(v); c != 0 {
					x, ok := m.addMul(l, -c*vc)
					if !ok {
						continue
					}
					m = x
				}
				if len(m.t) == 0 && m.c >= 0 {
					continue
				}
				if n.insert(m) {
					return true
				}
			}
			y = n
			again = true
			break
		}
	}
	type cnt struct{ p, n int }
	for len(y.ls) > 0 {
		// pick the variable with the smallest elimination product
		cnts := make(map[Sym]cnt, 32)
		for _, l := range y.ls {
			for _, t := range l.t {
				c := cnts[t.s]
				if t.c > 0 {
					c.p++
				} else {
					c.n++
				}
				cnts[t.s] = c
			}
		}
		var v Sym
		cost := math.MaxInt32
		for s, c := range cnts {
			k := c.p*c.n - c.p - c.n
			if k < cost || (k == cost && s < v) {
				v, cost = s, k
			}
		}
		n := newSystem(len(y.ls) + 8)
		var ps, ns []Lin
		for _, l := range y.ls {
			switch c := l.coef(v); {
			case c > 0:
				ps = append(ps, l)
			case c < 0:
				ns = append(ns, l)
			default:
				n.insert(l)
			}
		}
		for _, p := range ps {
			for _, q := range ns {
				a, b := p.coef(v), -q.coef(v)
				g := gcd(a, b)
				x, ok := Lin{}.addMul(p, b/g)
				if b/g == 1 {
					x, ok = p, true
				}
				if !ok {
					continue
				}
				if x, ok = x.addMul(q, a/g); !ok {
					continue
				}
				if n.insert(x) {
					return true
				}
			}
		}
		if len(n.ls) > fmLimit {
			return false
		}
		y = n
	}
	return false
}
