package main

import (
	"go/types"
	"math"
	"sort"
)

type cellKey struct {
	o    *Obj
	path string
}

type typFact struct {
	is  types.Type
	not []types.Type
}

type condFact struct {
	s Sym // holds if the reference s is nil ...
	l Lin
	// ... or, with ref != 0, the reference ref is not nil
	ref Sym
}

// wrote is a store to a cell.
type wrote struct {
	p PtrV
	t types.Type
}

// State is the abstract state of one path.
type State struct {
	e     *Engine
	facts []Lin
	conds []condFact
	dom   map[Sym]dset
	nils  map[Sym]bool
	typs  map[Sym]typFact
	bools map[Sym]bool
	diseq []Lin
	heap  map[cellKey]Value
	ver   map[*Obj]int
	epoch map[string]int // per struct field
	defd  map[Sym]bool
	ev    *Ev
	dead  bool
	wr    []wrote // cells stored to, oldest first
	mb    []bound
}

func newState(e *Engine) *State {
	return &State{e: e, dom: map[Sym]dset{}, nils: map[Sym]bool{}, typs: map[Sym]typFact{},
		bools: map[Sym]bool{}, heap: map[cellKey]Value{}, ver: map[*Obj]int{}, epoch: map[string]int{}, defd: map[Sym]bool{}}
}

func (st *State) clone() *State {
	n := &State{e: st.e, facts: st.facts[:len(st.facts):len(st.facts)], conds: st.conds[:len(st.conds):len(st.conds)],
		diseq: st.diseq[:len(st.diseq):len(st.diseq)], ev: st.ev, wr: st.wr, mb: st.mb}
	n.dom = make(map[Sym]dset, len(st.dom))
	for k, v := range st.dom {
		n.dom[k] = v
	}
	n.nils = make(map[Sym]bool, len(st.nils))
	for k, v := range st.nils {
		n.nils[k] = v
	}
	n.typs = make(map[Sym]typFact, len(st.typs))
	for k, v := range st.typs {
		n.typs[k] = v
	}
	n.bools = make(map[Sym]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.heap = make(map[cellKey]Value, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.ver = make(map[*Obj]int, len(st.ver))
	for k, v := range st.ver {
		n.ver[k] = v
	}
	n.epoch = make(map[string]int, len(st.epoch))
	for k, v := range st.epoch {
		n.epoch[k] = v
	}
	n.defd = make(map[Sym]bool, len(st.defd))
	for k, v := range st.defd {
		n.defd[k] = v
	}
	return n
}

func (st *State) event(e *Ev) {
	e.prev = st.ev
	st.ev = e
}

// ---------------------------------------------------------------- small domains

func fullDom(n int) dset {
	var d dset
	for i := 0; i < n; i++ {
		d.put(i)
	}
	return d
}

func (st *State) domOf(s Sym) dset {
	if d, ok := st.dom[s]; ok {
		return d
	}
	return fullDom(st.e.syms.info[s].dom)
}

// rng is the interval of a symbol in this state.
func (st *State) rng(s Sym) (lo, hi int64, hasLo, hasHi bool) {
	in := &st.e.syms.info[s]
	base, tab := s, in.tab
	if in.of != 0 {
		base = in.of
	}
	if d, ok := st.dom[base]; ok && (in.of != 0 || in.dom > 0) {
		first := true
		for _, i := range d.members() {
			v := int64(i)
			if tab != nil {
				v = tab[i]
			}
			if first || v < lo {
				lo = v
			}
			if first || v > hi {
				hi = v
			}
			first = false
		}
		if !first {
			return lo, hi, true, true
		}
	}
	return in.lo, in.hi, in.hasLo, in.hasHi
}

// norm replaces symbols whose value is known.
func (st *State) norm(l Lin) Lin {
	for _, t := range l.t {
		if lo, hi, a, b := st.rng(t.s); a && b && lo == hi {
			l = l.subst(t.s, constLin(lo))
			return st.norm(l)
		}
	}
	return l
}

// ---------------------------------------------------------------- entailment

func (st *State) quickMin(l Lin) (int64, bool) {
	c := l.c
	for _, t := range l.t {
		lo, hi, hasLo, hasHi := st.rng(t.s)
		var p int64
		var ok bool
		switch {
		case t.c > 0 && hasLo:
			p, ok = mulOvf(t.c, lo)
		case t.c < 0 && hasHi:
			p, ok = mulOvf(t.c, hi)
		}
		if !ok {
			return 0, false
		}
		if c, ok = addOvf(c, p); !ok {
			return 0, false
		}
	}
	return c, true
}

// entails decides l >= 0.
func (st *State) entails(l Lin) bool {
	l = st.norm(l)
	if l.isConst() {
		return l.c >= 0
	}
	if m, ok := st.quickMin(l); ok && m >= 0 {
		return true
	}
	return st.entailsN(l, 0)
}

func (st *State) entailsN(l Lin, depth int) bool {
	q, ok := Lin{c: -1}.addMul(l, -1)
	if !ok {
		return false
	}
	cs := st.relevant(q, depth)
	st.e.queries++
	if infeasible(cs) {
		return true
	}
	if len(cs) <= maxRelevant {
		return false
	}
	return infeasible(st.closest(q, depth))
}

const maxRelevant = 220

// closest collects the constraints on the symbols of the query, and of the
// terms they stand for, alone.
func (st *State) closest(q Lin, depth int) []Lin {
	seen := map[Sym]bool{}
	var work []Sym
	add := func(l Lin) {
		for _, t := range l.t {
			if !seen[t.s] {
				seen[t.s] = true
				work = append(work, t.s)
			}
		}
	}
	cs := []Lin{q}
	add(q)
	for len(work) > 0 && len(seen) < 40 {
		s := work[0]
		work = work[1:]
		lo, hi, a, b := st.rng(s)
		if a {
			cs = append(cs, symLin(s).addc(-lo))
		}
		if b {
			if x, ok := (Lin{c: hi}).addMul(symLin(s), -1); ok {
				cs = append(cs, x)
			}
		}
		if d := st.e.syms.info[s].def; d != nil && depth < 3 {
			if st.defd[s] || st.inRange(d.e, d.lo, d.hi, depth+1) {
				if x, ok := d.e.addMul(symLin(s), -1); ok {
					x = st.norm(x)
					cs = append(cs, x, x.neg())
					add(x)
				}
			}
		}
	}
	fresh := map[Sym]bool{}
	for _, f := range st.facts {
		f = st.norm(f)
		in := len(f.t) > 0
		var other Sym
		for _, t := range f.t {
			if seen[t.s] {
				continue
			}
			// an upper bound that is a symbol of its own
			in = in && len(f.t) == 2 && t.c > 0 && len(fresh) < 40
			other = t.s
		}
		if !in || len(cs) > maxRelevant {
			continue
		}
		cs = append(cs, f)
		if other != 0 && !fresh[other] {
			fresh[other] = true
			if _, hi, _, ok := st.rng(other); ok {
				if x, ok := (Lin{c: hi}).addMul(symLin(other), -1); ok {
					cs = append(cs, x)
				}
			}
		}
	}
	return cs
}

// relevant collects the constraints connected to the query.
func (st *State) relevant(q Lin, depth int) []Lin {
	seen := map[Sym]bool{}
	var work []Sym
	add := func(l Lin) {
		for _, t := range l.t {
			if !seen[t.s] {
				seen[t.s] = true
				work = append(work, t.s)
			}
		}
	}
	cs := []Lin{q}
	add(q)
	var tabbed []Sym
	used := make([]bool, len(st.facts))
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		lo, hi, a, b := st.rng(s)
		if a {
			cs = append(cs, symLin(s).addc(-lo))
		}
		if b {
			if x, ok := (Lin{c: hi}).addMul(symLin(s), -1); ok {
				cs = append(cs, x)
			}
		}
		if in := &st.e.syms.info[s]; in.of != 0 || in.dom > 0 {
			base := s
			if in.of != 0 {
				base = in.of
			}
			for _, o := range tabbed {
				on := &st.e.syms.info[o]
				if o == base || on.of == base {
					cs = st.tabDiff(cs, base, s, o)
				}
			}
			tabbed = append(tabbed, s)
		}
		if n, ok := st.e.caps[s]; ok {
			x := symLin(s).sub(symLin(n))
			cs = append(cs, x)
			add(x)
		}
		if d := st.e.syms.info[s].def; d != nil && depth < 3 {
			if !st.defd[s] {
				if st.inRange(d.e, d.lo, d.hi, depth+1) {
					st.defd[s] = true
					if x, ok := d.e.addMul(symLin(s), -1); ok {
						st.facts = append(st.facts[:len(st.facts):len(st.facts)], x, x.neg())
					}
				}
			}
		}
		for len(used) < len(st.facts) {
			used = append(used, false)
		}
		for i, f := range st.facts {
			if !used[i] && f.coef(s) != 0 {
				used[i] = true
				f = st.norm(f)
				cs = append(cs, f)
				add(f)
			}
		}
		if len(cs) > maxRelevant {
			break
		}
	}
	return cs
}

// tabDiff relates two functions of the same small-domain symbol.
func (st *State) tabDiff(cs []Lin, base, a, b Sym) []Lin {
	d, ok := st.dom[base]
	if !ok {
		return cs
	}
	val := func(s Sym, i int) int64 {
		if t := st.e.syms.info[s].tab; t != nil {
			return t[i]
		}
		return int64(i)
	}
	first := true
	var lo, hi int64
	for _, i := range d.members() {
		x := val(a, i) - val(b, i)
		if first || x < lo {
			lo = x
		}
		if first || x > hi {
			hi = x
		}
		first = false
	}
	if first {
		return cs
	}
	l := symLin(a).sub(symLin(b))
	return append(cs, l.addc(-lo), l.neg().addc(hi))
}

// inRange decides lo <= l <= hi.
func (st *State) inRange(l Lin, lo, hi int64, depth int) bool {
	l = st.norm(l)
	chk := func(x Lin) bool {
		if x.isConst() {
			return x.c >= 0
		}
		if m, ok := st.quickMin(x); ok && m >= 0 {
			return true
		}
		return st.entailsN(x, depth)
	}
	// bounds beyond fieldMin and fieldMax are tried clamped first: they are
	// easier to establish without overflow
	side := func(clamped, exact int64, neg bool) bool {
		for _, c := range []int64{clamped, exact} {
			x, ok := l.addMul(constLin(c), -1)
			if neg {
				x, ok = constLin(c).addMul(l, -1)
			}
			if ok && chk(x) {
				return true
			}
			if clamped == exact {
				break
			}
		}
		return false
	}
	cl, ch := lo, hi
	if cl < fieldMin {
		cl = fieldMin
	}
	if ch > fieldMax {
		ch = fieldMax
	}
	if hi == math.MaxInt64 && len(l.t) == 1 && l.t[0].c == 1 && l.c <= 0 {
		// a signed symbol is at most MaxInt64
		if in := &st.e.syms.info[l.t[0].s]; !(in.hasLo && in.lo >= 0 && !in.hasHi) {
			return side(cl, lo, false)
		}
	}
	return side(cl, lo, false) && side(ch, hi, true)
}

// boundsFeasible is a cheap emptiness test of the state after adding l >= 0.
func (st *State) addGe(l Lin) bool {
	l = st.norm(l)
	if l.isConst() {
		return l.c >= 0
	}
	// a bound on one small-domain symbol restricts its domain
	if len(l.t) == 1 {
		s := l.t[0].s
		in := &st.e.syms.info[s]
		base := s
		if in.of != 0 {
			base = in.of
		}
		if st.e.syms.info[base].dom > 0 {
			d := st.domOf(base)
			var n dset
			for _, i := range d.members() {
				v := int64(i)
				if in.of != 0 {
					v = in.tab[i]
				}
				if l.c+l.t[0].c*v >= 0 {
					n.put(i)
				}
			}
			if n.empty() {
				return false
			}
			st.dom[base] = n
			return true
		}
	}
	st.facts = append(st.facts[:len(st.facts):len(st.facts)], l)
	return true
}

// ---------------------------------------------------------------- conditions

type tri int8

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (t tri) not() tri {
	switch t {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

func (st *State) decide(c *Cond) tri {
	r := st.decidePos(c)
	if c.neg {
		return r.not()
	}
	return r
}

func (st *State) decidePos(c *Cond) tri {
	switch c.k {
	case cTrue:
		return yes
	case cGe:
		if st.entails(c.l) {
			return yes
		}
		if st.entails(c.l.neg().addc(-1)) {
			return no
		}
	case cEq:
		l := st.norm(c.l)
		if l.isConst() {
			return triOf(l.c == 0)
		}
		for _, d := range st.diseq {
			if d = st.norm(d); d.eq(l) || d.eq(l.neg()) {
				return no
			}
		}
		ge := st.entails(l)
		if ge && st.entails(l.addc(-1)) {
			return no
		}
		le := st.entails(l.neg())
		if ge && le {
			return yes
		}
		if le && st.entails(l.neg().addc(-1)) {
			return no
		}
	case cNil:
		if v, ok := st.nils[c.s]; ok {
			return triOf(v)
		}
		if tf, ok := st.typs[c.s]; ok && tf.is != nil {
			return no
		}
	case cType:
		if v, ok := st.nils[c.s]; ok && v {
			return no
		}
		if tf, ok := st.typs[c.s]; ok {
			if tf.is != nil {
				return triOf(types.Identical(tf.is, c.t))
			}
			for _, t := range tf.not {
				if types.Identical(t, c.t) {
					return no
				}
			}
		}
	case cSym:
		if v, ok := st.bools[c.s]; ok {
			return triOf(v)
		}
	case cTab:
		d := st.domOf(c.s)
		if d.and(c.set).empty() {
			return no
		}
		if d.andNot(c.set).empty() {
			return yes
		}
	}
	return unknown
}

// assume adds the condition; false means the state became infeasible.
func (st *State) assume(c *Cond) bool {
	switch c.k {
	case cTrue:
		return !c.neg
	case cGe:
		if c.neg {
			return st.addGe(c.l.neg().addc(-1))
		}
		return st.addGe(c.l)
	case cEq:
		l := st.norm(c.l)
		if l.isConst() {
			return (l.c == 0) != c.neg
		}
		if !c.neg {
			return st.addGe(l) && st.addGe(l.neg())
		}
		if len(l.t) == 1 {
			s := l.t[0].s
			in := &st.e.syms.info[s]
			base := s
			if in.of != 0 {
				base = in.of
			}
			if st.e.syms.info[base].dom > 0 {
				var n dset
				for _, i := range st.domOf(base).members() {
					v := int64(i)
					if in.of != 0 {
						v = in.tab[i]
					}
					if l.c+l.t[0].c*v != 0 {
						n.put(i)
					}
				}
				st.dom[base] = n
				return !n.empty()
			}
		}
		if st.entails(l) {
			return st.addGe(l.addc(-1))
		}
		if st.entails(l.neg()) {
			return st.addGe(l.neg().addc(-1))
		}
		st.diseq = append(st.diseq[:len(st.diseq):len(st.diseq)], l)
		return true
	case cNil:
		isNil := !c.neg
		if v, ok := st.nils[c.s]; ok {
			return v == isNil
		}
		st.nils[c.s] = isNil
		for _, f := range st.conds {
			if f.ref != 0 {
				if f.s == c.s && isNil {
					st.nils[f.ref] = false
				}
				continue
			}
			if f.s == c.s && isNil {
				if !st.addGe(f.l) {
					return false
				}
			}
		}
		return true
	case cType:
		tf := st.typs[c.s]
		if c.neg {
			if tf.is != nil {
				return !types.Identical(tf.is, c.t)
			}
			tf.not = append(tf.not[:len(tf.not):len(tf.not)], c.t)
			st.typs[c.s] = tf
			return true
		}
		if tf.is != nil {
			return types.Identical(tf.is, c.t)
		}
		for _, t := range tf.not {
			if types.Identical(t, c.t) {
				return false
			}
		}
		if v, ok := st.nils[c.s]; ok && v {
			return false
		}
		st.nils[c.s] = false
		st.typs[c.s] = typFact{is: c.t}
		return true
	case cSym:
		if v, ok := st.bools[c.s]; ok {
			return v != c.neg
		}
		st.bools[c.s] = !c.neg
		return true
	case cTab:
		d := st.domOf(c.s)
		if c.neg {
			d = d.andNot(c.set)
		} else {
			d = d.and(c.set)
		}
		st.dom[c.s] = d
		return !d.empty()
	}
	return true
}

// condNil adds facts that hold if the reference s turns out to be nil.
func (st *State) whenNil(s Sym, l Lin) {
	if v, ok := st.nils[s]; ok {
		if v {
			st.addGe(l)
		}
		return
	}
	st.conds = append(st.conds[:len(st.conds):len(st.conds)], condFact{s: s, l: l})
}

func sortedSyms(m map[Sym]dset) []Sym {
	var r []Sym
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
