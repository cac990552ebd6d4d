package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25, C26 and C28: whole documents given to the merger, and its result.

type mrgDoc struct {
	*mrg
	copy  []*itemLoop
	owner map[*ssa.Function]bool // functions that contain a copying loop

	buf, length, fin, ini, lenOff string // fields of the merger, by what is done with them
	ints, maps                    []string
}

// entryState is a state in which the arguments have the values at entry.
func (x *mrg) entryState(fn *ssa.Function) *State {
	if r := x.runs[fn]; r != nil && r.entry != nil {
		return r.entry.clone()
	}
	return newState(x.e)
}

func (x *mrg) recvStruct(fn *ssa.Function) (*types.Struct, bool) {
	p, ok := x.runs[fn].args[0].(PtrV)
	if !ok || p.elem == nil {
		return nil, false
	}
	s, ok := p.elem.Underlying().(*types.Struct)
	return s, ok
}

// was and is are a field of the merger at entry and in a state.
func (x *mrg) was(fn *ssa.Function, f string) Value {
	v, _, _ := x.e.fieldOf(x.entryState(fn), x.runs[fn].args[0], f)
	return v
}

func (x *mrg) is(fn *ssa.Function, st *State, f string) Value {
	v, _, _ := x.e.fieldOf(st, x.runs[fn].args[0], f)
	return v
}

func (x *mrg) decideBool(st *State, v Value) tri {
	if b, ok := v.(BoolV); ok {
		return st.decide(b.c)
	}
	return unknown
}

// succeeds and fails tell which results of a function are possible.
func (x *mrg) split(fn *ssa.Function) (ok, bad []Outcome) {
	ei := errIndex(fn)
	for _, o := range x.runs[fn].outs {
		if o.panic {
			continue
		}
		c := x.e.nilCond(o.res[ei])
		d := o.st.decide(c)
		for _, yes1 := range []bool{true, false} {
			if yes1 && d == no || !yes1 && d == yes {
				continue
			}
			q := o
			q.st = o.st.clone()
			cc := c
			if !yes1 {
				cc = c.not()
			}
			if !q.st.assume(cc) || q.st.dead {
				continue
			}
			if yes1 {
				ok = append(ok, q)
			} else {
				bad = append(bad, q)
			}
		}
	}
	return
}

// newMrgDoc finds out what the merger's fields are for.
func newMrgDoc(p *Program, r *Report) (*mrgDoc, bool) {
	m, ok := newMrg(p, r)
	if !ok {
		return nil, false
	}
	x := &mrgDoc{mrg: m, owner: map[*ssa.Function]bool{}}
	for _, l := range x.done {
		if l.out != nil && l.stack != nil {
			x.copy = append(x.copy, l)
		}
	}
	for _, fn := range x.fns {
		for _, o := range x.runs[fn].outs {
			for _, ev := range o.st.ev.list() {
				if ev.k == evLoopIn && x.copier(ev.loop) != nil {
					x.owner[fn] = true
				}
			}
		}
	}
	fin, app := x.method("Finish"), x.method("Append")
	stt, ok := x.recvStruct(fin)
	if !ok || len(x.owner) == 0 {
		r.undecided("anchor:merger", "the merger is not understood")
		return nil, false
	}
	finOK, _ := x.split(fin)
	appOK, _ := x.split(app)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		switch t := f.Type().Underlying().(type) {
		case *types.Map:
			x.maps = append(x.maps, f.Name())
		case *types.Slice:
			if isByteSlice(f.Type()) {
				x.buf = f.Name()
			}
		case *types.Basic:
			if t.Kind() == types.Bool {
				after, before := len(finOK) > 0, len(appOK) > 0
				for _, o := range finOK {
					after = after && x.decideBool(o.st, x.is(fin, o.st, f.Name())) == yes
				}
				for _, o := range appOK {
					before = before && x.decideBool(o.st, x.was(app, f.Name())) == no
				}
				inited := after
				for _, o := range appOK {
					inited = inited && x.decideBool(o.st, x.is(app, o.st, f.Name())) == yes
				}
				if after && before {
					x.fin = f.Name()
				} else if inited {
					x.ini = f.Name()
				}
			} else if isInt(f.Type()) {
				x.ints = append(x.ints, f.Name())
			}
		}
	}
	for _, o := range finOK {
		for _, ev := range o.st.ev.list() {
			s, v, ok := putUvarint(ev)
			if !ok {
				continue
			}
			for _, f := range x.ints {
				if w, ok := x.is(fin, o.st, f).(IntV); ok && x.same(o.st, v, w.l) && !o.st.norm(w.l).isConst() {
					x.length = f
				}
				if w, ok := x.is(fin, o.st, f).(IntV); ok && x.same(o.st, s.off, w.l) && !o.st.norm(w.l).isConst() {
					x.lenOff = f
				}
			}
		}
	}
	if x.buf == "" {
		r.undecided("anchor:merger", "the merger has no output buffer")
		return nil, false
	}
	return x, true
}

func putUvarint(ev *Ev) (s SliceV, v Lin, ok bool) {
	if ev.k != evCall || len(ev.call.args) != 2 || ev.call.name != "encoding/binary.PutUvarint" {
		return
	}
	s, ok = ev.call.args[0].(SliceV)
	if i, isI := ev.call.args[1].(IntV); isI {
		v = i.l
	}
	return
}

func (x *mrg) method(n string) *ssa.Function { return x.e.findFunc("(*Merger)." + n) }

func (x *mrgDoc) copier(c *LoopCtx) *itemLoop {
	for _, l := range x.copy {
		if l.ctx == c {
			return l
		}
	}
	return nil
}

// cellIs tells whether an expression of a count with its top bit removed is 0.
func (x *mrg) cellZero(st *State, v Value) bool {
	i, ok := v.(IntV)
	if !ok {
		return false
	}
	u := types.Typ[types.Uint64]
	m, ok := x.e.binop(st, token.AND_NOT, i, IntV{symLin(x.e.bigConst(1 << 63))}, u, u).(IntV)
	return ok && st.decide(&Cond{k: cEq, l: m.l}) == yes
}

// pops finds the loops that take finished counts off the stack, and checks
// that nothing else is taken.
func (x *mrgDoc) pops(l *itemLoop) map[*LoopCtx]*loopVar {
	r := map[*LoopCtx]*loopVar{}
	hs := l.stack.head.(SliceV)
	for c := range x.e.loopSeen {
		if c == l.ctx || c.fn != l.ctx.fn && len(c.vars) == 0 {
			continue
		}
		for _, v := range c.vars {
			s, ok := v.head.(SliceV)
			if !ok || s.base != hs.base {
				continue
			}
			r[c] = v
			for _, be := range c.backs {
				if be.st.dead {
					continue
				}
				why := ""
				b, ok := x.e.backVal(be, v, c).(SliceV)
				if !ok || b.base != s.base || !x.same(be.st, b.off, s.off) {
					why = "the counts are not understood"
				} else if d := be.st.norm(s.ln.sub(b.ln)); x.same(be.st, s.ln, b.ln) {
				} else if !x.same(be.st, d, constLin(1)) {
					why = "more than one count is dropped at a time"
				} else if !x.cellZero(be.st, x.e.load(be.st, x.e.elemPtr(b, b.ln), s.elem)) {
					why = "a count is dropped though items are missing"
				}
				x.r.check(why == "", "complete", "drop:"+fname(c.fn), x.e.pos(c.site), "%s: %s", fname(c.fn), why)
			}
		}
	}
	return r
}

// scans tells whether a loop goes over a whole slice of counts, none of which
// may be other than zero.
func (x *mrgDoc) scans(c *LoopCtx, st *State, s SliceV) bool {
	for _, v := range c.vars {
		h, ok := v.head.(IntV)
		if !ok {
			continue
		}
		i0, ok := v.init.(IntV)
		if !ok {
			continue
		}
		for d := int64(0); d <= 1; d++ { // of the index: range loops count from -1
			if k := st.norm(i0.l.addc(d)); !k.isConst() || k.c != 0 {
				continue
			}
			good := len(c.backs) > 0
			for _, be := range c.backs {
				b, ok := x.e.backVal(be, v, c).(IntV)
				if be.st.dead {
					continue
				}
				good = good && ok && x.same(be.st, b.l, h.l.addc(1)) && x.cellZero(be.st, x.e.load(be.st, x.e.elemPtr(s, h.l.addc(d)), s.elem))
			}
			// it ended at the end of the slice
			if good && st.entails(h.l.addc(d).sub(s.ln)) {
				return true
			}
		}
		// downwards
		if k := st.norm(i0.l.sub(s.ln)); k.isConst() && (k.c == -1 || k.c == 0) {
			good := len(c.backs) > 0
			for _, be := range c.backs {
				b, ok := x.e.backVal(be, v, c).(IntV)
				good = good && ok && x.same(be.st, b.l, h.l.addc(-1)) && x.cellZero(be.st, x.e.load(be.st, x.e.elemPtr(s, h.l.addc(-1-k.c)), s.elem))
			}
			if good && st.entails(h.l.neg().addc(k.c)) {
				return true
			}
		}
	}
	return false
}

// complete: on success all counts are known to be zero.
func (x *mrgDoc) complete(o Outcome, l *itemLoop, pops map[*LoopCtx]*loopVar) bool {
	in := false
	hs := l.stack.head.(SliceV)
	if !o.st.dead && o.st.entails(hs.ln.neg()) {
		return true
	}
	for _, ev := range o.st.ev.list() {
		if ev.k != evLoopIn && ev.k != evLoopOut {
			continue
		}
		if ev.loop == l.ctx {
			in = true
			continue
		}
		if !in || ev.k != evLoopIn {
			continue
		}
		if v := pops[ev.loop]; v != nil {
			s := v.head.(SliceV)
			if o.st.entails(s.ln.neg()) {
				return true
			}
			for _, be := range ev.loop.backs {
				if b, ok := x.e.backVal(be, v, ev.loop).(SliceV); ok && o.st.entails(b.ln.neg()) {
					return true
				}
			}
			if x.scansAfter(o, ev.loop, s) {
				return true
			}
		}
	}
	return x.scansAfter(o, l.ctx, hs)
}

func (x *mrgDoc) scansAfter(o Outcome, c *LoopCtx, s SliceV) bool {
	in := false
	for _, ev := range o.st.ev.list() {
		if (ev.k == evLoopIn || ev.k == evLoopOut) && ev.loop == c {
			in = true
			continue
		}
		if in && ev.k == evLoopIn && x.scans(ev.loop, o.st, s) {
			return true
		}
	}
	return false
}

// first is the number of items expected at the start of the loop.
func (x *mrgDoc) first(l *itemLoop) (Lin, string) {
	st := l.ctx.pre
	s, ok := l.stack.init.(SliceV)
	if !ok {
		return Lin{}, "the counts of expected items are not understood"
	}
	if n := st.norm(s.ln); !n.isConst() || n.c != 1 {
		return Lin{}, "the counts of expected items do not start with one"
	}
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k != evNote || ev.name != "append" {
			continue
		}
		v, ok := ev.val.(SliceV)
		a, ok2 := ev.x.(SliceV)
		if !ok || !ok2 || !types.Identical(v.elem, s.elem) {
			continue
		}
		if n := st.norm(v.ln); n.isConst() && n.c == 0 && x.same(st, a.ln, constLin(1)) {
			if i, ok := x.e.load(st, x.e.elemPtr(a, constLin(0)), s.elem).(IntV); ok {
				return i.l, ""
			}
		}
		break
	}
	if i, ok := x.e.load(st, x.e.elemPtr(s, constLin(0)), s.elem).(IntV); ok {
		return i.l, ""
	}
	return Lin{}, "the first count is not understood"
}

// startOf checks where the items start and how many of them are expected.
func (x *mrgDoc) startOf(l *itemLoop) {
	e := x.e
	fn := fname(l.ctx.fn)
	pos := e.pos(l.ctx.site)
	st := l.ctx.pre
	n, why := x.first(l)
	ii, ok := l.idx.init.(IntV)
	if why == "" && !ok {
		why = "the position of the first item is not understood"
	}
	if !x.r.check(why == "", "count", fn+":first", pos, "%s: %s", fn, why) {
		return
	}
	n = e.modular(st.norm(n))
	// from the function that decides it
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k != evCall || x.runs[ev.call.fn] == nil {
			continue
		}
		c := ev.call
		ni, di := -1, -1
		for i, v := range c.res {
			w, ok := v.(IntV)
			if !ok {
				continue
			}
			if x.same(st, w.l, n) {
				ni = i
			} else if m := e.modular(st.norm(ii.l)); len(m.sub(st.norm(w.l)).t) < len(m.t) {
				di = i
			}
		}
		if ni < 0 {
			continue
		}
		// the bytes it looks at start where the position counts from
		var arg SliceV
		ai := -1
		for i, a := range c.args {
			if s, ok := a.(SliceV); ok && s.base == l.doc {
				arg, ai = s, i
			}
		}
		why := ""
		switch {
		case ai < 0:
			why = "the number of items expected does not come from the document"
		case di < 0 || !x.same(st, ii.l, arg.off.add(c.res[di].(IntV).l)):
			why = "the items do not start where they are counted from"
		}
		if !x.r.check(why == "", "count", fn+":start", pos, "%s: %s", fn, why) {
			return
		}
		oks, _ := x.split(c.fn)
		for _, o := range oks {
			p, ok := x.runs[c.fn].args[ai].(SliceV)
			a, ok1 := o.res[ni].(IntV)
			b, ok2 := o.res[di].(IntV)
			if !ok || !ok1 || !ok2 {
				x.r.check(false, "count", fname(c.fn)+":kinds", e.pos(o.at), "%s: the results are not understood", fname(c.fn))
				continue
			}
			x.expected(o.st, c.fn, x.runs[c.fn].args[0], p, p.off, a.l, b.l, e.pos(o.at))
		}
		return
	}
	// decided in place
	run := x.runs[l.ctx.fn]
	if run == nil {
		for f := range x.owner {
			run = x.runs[f]
		}
	}
	x.expected(st, l.ctx.fn, run.args[0], SliceV{base: l.doc}, constLin(0), n, ii.l, pos)
}

// expected compares the number of items with the tag at the start.
func (x *mrgDoc) expected(st *State, fn *ssa.Function, recv Value, doc SliceV, at, n, d Lin, pos string) {
	e := x.e
	flat, _, ok := e.fieldOf(st, recv, "KeepFlat")
	top, _, ok2 := e.fieldOf(st, recv, "TopLevelElement")
	fb, isB := flat.(BoolV)
	ti, isI := top.(IntV)
	if !ok || !ok2 || !isB || !isI {
		x.r.check(false, "count", fname(fn)+":options", pos, "%s: the options are not understood", fname(fn))
		return
	}
	ver := func(l Lin) Sym { return e.byteSym(doc.base, st.ver[doc.base], st.norm(l)) }
	one := func(s *State) bool { return x.same(s, n, constLin(1)) && x.same(s, d, constLin(0)) }
	read := func(s *State, at Lin) (Lin, Lin, bool) {
		for _, ev := range s.ev.list() {
			if ev.k != evCall || ev.call.name != "varint" || len(ev.call.res) < 2 {
				continue
			}
			if v, ok := ev.call.args[0].(SliceV); ok && v.base == doc.base && x.same(s, v.off, at) {
				return e.lin(ev.call.res[0]), e.lin(ev.call.res[1]), true
			}
		}
		return Lin{}, Lin{}, false
	}
	cases := map[string]bool{}
	var names []string
	add := func(what string, good bool) {
		if was, ok := cases[what]; ok {
			cases[what] = was && good
			return
		}
		cases[what] = good
		names = append(names, what)
	}
	for _, keep := range []bool{false, true} {
		s1 := st.clone()
		c := fb.c
		if !keep {
			c = c.not()
		}
		if s1.decide(c) == no || !s1.assume(c) || s1.dead {
			continue
		}
		if !keep {
			add("without KeepFlat", one(s1))
			continue
		}
		for tl := int64(0); tl <= 1; tl++ {
			s2 := s1.clone()
			is := &Cond{k: cEq, l: ti.l.addc(-tl)}
			if s2.decide(is) == no || !s2.assume(is) || s2.dead {
				continue
			}
			sym := ver(at)
			for _, b := range s2.domOf(sym).members() {
				s3 := s2.clone()
				if !s3.assume(&Cond{k: cEq, l: symLin(sym).addc(-int64(b))}) || s3.dead {
					continue
				}
				m := b & 0x7f
				array := func(k int64) func(*State) bool {
					return func(s *State) bool {
						v, sz, ok := read(s, at.addc(k))
						return ok && x.same(s, n, v) && x.same(s, d, sz.addc(k))
					}
				}
				switch {
				case tl == 0 && m == tgARRAY:
					add("an array in an array", array(1)(s3))
				case tl == 1 && m >= 0x40 && m < 0x40+16:
					add("ARRAYREF in a reference to an array", x.same(s3, n, constLin(int64(m&15))) && x.same(s3, d, constLin(1)))
				case tl == 1 && m == tgREFN:
					next := ver(at.addc(1))
					isA, isN := false, false
					for _, b2 := range s3.domOf(next).members() {
						s4 := s3.clone()
						if !s4.assume(&Cond{k: cEq, l: symLin(next).addc(-int64(b2))}) || s4.dead {
							continue
						}
						if b2&0x7f == tgARRAY {
							// nothing may follow the REFN
							if len(s4.domOf(next).members()) == 1 && !isA {
								isA = true
								if one(s4) {
									// allowed only if there is no such byte
									add("REFN ARRAY in a reference to an array", s4.entails(constLin(1).sub(doc.ln)) && doc.ln.key() != constLin(0).key())
								} else {
									add("REFN ARRAY in a reference to an array", array(2)(s4))
								}
							}
						} else if !isN {
							isN = true
							add("another reference", one(s4))
						}
					}
				default:
					add("another item", one(s3))
				}
			}
		}
	}
	sort.Strings(names)
	for _, w := range names {
		x.r.check(cases[w], "count", fname(fn)+":"+w, pos, "%s: the number of items expected is wrong for %s", fname(fn), w)
	}
}

// within: an item that is copied ends inside of the document.
func (x *mrgDoc) within(l *itemLoop) {
	var dl *Lin
	for _, be := range l.ctx.backs {
		for _, ev := range x.round(l, be.st) {
			if ev.k != evCall || ev.call.name != "varint" {
				continue
			}
			if s, ok := ev.call.args[0].(SliceV); ok && s.base == l.doc {
				n := be.st.norm(s.off.add(s.ln))
				if dl == nil || len(n.t) < len(dl.t) {
					dl = &n
				}
			}
		}
	}
	fn := fname(l.ctx.fn)
	if !x.r.check(dl != nil, "within", fn+":length", x.e.pos(l.ctx.site), "%s: the end of the document is not found", fn) {
		return
	}
	x.eachItem(l, func(q *itemPath) {
		if x.extent(q) != "" {
			return // C24
		}
		x.r.check(q.st.entails(dl.sub(q.back)), "within", fn+":"+q.name, q.pos, "%s: an item %s that is cut short is accepted", fn, q.name)
	})
}

// appended: q starts with s.
func (x *mrgDoc) appended(st *State, s, q SliceV) bool {
	return x.e.logStr(s) == x.e.logStr(q)
}

// initial is what the buffer is set to when the merger is first used.
func (x *mrgDoc) initial(fn *ssa.Function, o Outcome) (Value, int, bool) {
	_, bp, _ := x.e.fieldOf(o.st, x.runs[fn].args[0], x.buf)
	_, ip, _ := x.e.fieldOf(o.st, x.runs[fn].args[0], x.ini)
	var last Value
	for i, ev := range o.st.ev.list() {
		if ev.k != evStore {
			continue
		}
		if ev.ptr.obj == bp.obj && ev.ptr.path == bp.path {
			last = ev.val
		}
		if ev.ptr.obj == ip.obj && ev.ptr.path == ip.path && x.decideBool(o.st, ev.val) == yes {
			return last, i, last != nil
		}
	}
	return nil, 0, false
}

// before is the buffer before the call, or after the first use.
func (x *mrgDoc) before(fn *ssa.Function, o Outcome) (Value, int) {
	if v, i, ok := x.initial(fn, o); ok {
		return v, i
	}
	return x.was(fn, x.buf), -1
}

// failedCopy tells whether copying has failed on the way to an outcome: the
// fields it may have changed then have the values from before.
func (x *mrgDoc) failedCopy(st *State) bool {
	failed := false
	for _, ev := range st.ev.list() {
		if ev.k != evCall || !x.owner[ev.call.fn] {
			continue
		}
		ei := errIndex(ev.call.fn)
		if ei < 0 || st.decide(x.e.nilCond(ev.call.res[ei])) != no {
			return false
		}
		failed = true
	}
	return failed
}

// renewed: the value is what a call may have left in a field.
func renewed(name string, recv PtrV, path string) bool {
	pre := recv.obj.key + path + "@"
	return strings.HasPrefix(name, pre)
}

// unchanged lists the fields of the merger that a failed call leaves changed.
func (x *mrgDoc) unchanged(fn *ssa.Function, o Outcome) (bad []string) {
	stt, _ := x.recvStruct(fn)
	recv := x.runs[fn].args[0].(PtrV)
	old, from := x.before(fn, o)
	after := x.failedCopy(o.st)
	again := x.ini != "" && x.decideBool(o.st, x.is(fn, o.st, x.ini)) == no
	set := map[string]Value{} // fields set in the first use
	for i, ev := range o.st.ev.list() {
		if (i <= from || again) && ev.k == evStore && ev.ptr.obj == recv.obj {
			set[ev.ptr.path] = ev.val
		}
	}
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		path := recv.path + "." + f.Name()
		was, is := x.was(fn, f.Name()), x.is(fn, o.st, f.Name())
		if v, ok := set[path]; ok {
			if again && f.Name() != x.length {
				continue // set anew by the next call
			}
			was = v
		}
		if f.Name() == x.buf && !again {
			was = old
		}
		if is == nil || was == nil {
			continue
		}
		same := valKey(is) == valKey(was)
		switch v := is.(type) {
		case IntV:
			if w, ok := was.(IntV); ok {
				same = same || x.same(o.st, v.l, w.l)
			}
			if s, one := o.st.norm(v.l).single(); one && after {
				same = same || renewed(x.e.syms.name(s), recv, path)
			}
		case BoolV:
			if w, ok := was.(BoolV); ok {
				d := o.st.decide(v.c)
				same = same || d != unknown && d == o.st.decide(w.c)
			}
		case SliceV:
			w, ok := was.(SliceV)
			if !ok || same {
				break
			}
			if x.same(o.st, v.off, w.off) && x.same(o.st, v.ln, w.ln) {
				same = v.base == w.base || after && strings.HasPrefix(v.base.key, "mem("+recv.obj.key+path+"@") || x.appended(o.st, w, v)
			}
		case Opq:
			same = same || after && renewed(x.e.syms.name(v.s), recv, path)
		}
		if !same {
			bad = append(bad, f.Name())
		}
	}
	return
}

// touched lists the bytes of the output before the call that are changed on
// the way to an outcome, and the tables that are added to.
func (x *mrgDoc) touched(fn *ssa.Function, o Outcome, allow func(ev *Ev) bool) (bytes []*Ev, tabs map[string]*Ev) {
	tabs = map[string]*Ev{}
	recv := x.runs[fn].args[0].(PtrV)
	_, from := x.before(fn, o)
	bases := map[*Obj]bool{}
	if s, ok := x.was(fn, x.buf).(SliceV); ok {
		bases[s.base] = true
	}
	all := o.st.ev.list()
	again := x.ini != "" && x.decideBool(o.st, x.is(fn, o.st, x.ini)) == no
	if s, ok := x.is(fn, o.st, x.buf).(SliceV); ok && !again {
		bases[s.base] = true
	}
	for _, ev := range all {
		if ev.k == evStore && ev.ptr.obj == recv.obj && ev.ptr.path == recv.path+"."+x.buf && !again {
			if s, ok := ev.val.(SliceV); ok {
				bases[s.base] = true
			}
		}
		if ev.k == evLoopIn {
			for _, v := range ev.loop.vars {
				if s, ok := v.head.(SliceV); ok && isByte(s.elem) {
					if i, ok := v.init.(SliceV); ok && bases[i.base] {
						bases[s.base] = true
					}
				}
			}
		}
	}
	look := func(ev *Ev) {
		switch ev.k {
		case evStore:
			if ev.ptr.idx != nil && ev.ptr.obj != nil && (bases[ev.ptr.obj] || ev.ptr.elem != nil && isByte(ev.ptr.elem) && strings.HasPrefix(ev.ptr.obj.key, "app")) && !allow(ev) {
				bytes = append(bytes, ev)
			}
		case evCall:
			if s, _, ok := putUvarint(ev); ok && bases[s.base] && !allow(ev) {
				bytes = append(bytes, ev)
			}
		case evMapSet:
			for _, f := range x.maps {
				if valKey(x.was(fn, f)) == valKey(ev.m) || valKey(x.is(fn, o.st, f)) == valKey(ev.m) {
					tabs[f] = ev
				}
			}
		}
	}
	seen := map[*LoopCtx]bool{}
	var loop func(c *LoopCtx)
	loop = func(c *LoopCtx) {
		if seen[c] {
			return
		}
		seen[c] = true
		for _, be := range c.backs {
			for ev := be.st.ev; ev != nil; ev = ev.prev {
				if ev.k == evLoopIn && ev.loop == c {
					break
				}
				look(ev)
				if ev.k == evLoopIn {
					loop(ev.loop)
				}
			}
		}
	}
	for i, ev := range all {
		if i <= from {
			continue
		}
		look(ev)
		if ev.k == evLoopIn {
			loop(ev.loop)
		}
	}
	return
}

// purged: a completed loop has taken everything recorded at or after an offset
// out of a table, and nothing else.
func (x *mrgDoc) purged(o Outcome, table Value, first Lin) string {
	why := "is not rid of what the failed document added"
	done := map[*LoopCtx]bool{}
	for _, ev := range o.st.ev.list() {
		if ev.k == evLoopOut {
			done[ev.loop] = true
		}
	}
	for _, ev := range o.st.ev.list() {
		if ev.k != evLoopIn || !done[ev.loop] {
			continue
		}
		c := ev.loop
		found := false
		bad := ""
		for _, be := range c.backs {
			var next, del *Ev
			for ev := be.st.ev; ev != nil; ev = ev.prev {
				if ev.k == evLoopIn && ev.loop == c {
					break
				}
				switch {
				case ev.k == evNote && ev.name == "next":
					next = ev
				case ev.k == evMapDel && valKey(ev.m) == valKey(table):
					del = ev
				}
			}
			if next == nil || !x.iterates(next.val, table) {
				continue
			}
			found = true
			v, ok := next.val2.(IntV)
			if !ok {
				bad = "is searched for something other than offsets"
				continue
			}
			first := x.e.modular(be.st.norm(first))
			switch {
			case del != nil && valKey(del.x) != valKey(next.x):
				bad = "loses another entry"
			case del != nil && !be.st.entails(x.e.modular(be.st.norm(v.l)).sub(first)):
				bad = "loses entries of documents appended before"
			case del == nil && !be.st.entails(first.sub(x.e.modular(be.st.norm(v.l))).addc(-1)):
				bad = "keeps entries of the failed document"
			}
		}
		if found && bad == "" {
			// it has come to its end
			in, end := false, false
			for _, ev := range o.st.ev.list() {
				if ev.k == evLoopIn && ev.loop == c {
					in = true
				} else if ev.k == evLoopOut && ev.loop == c {
					break
				} else if in && ev.k == evNote && ev.name == "next" && x.iterates(ev.val, table) {
					end = ev.ok != nil && o.st.decide(ev.ok) == no
				}
			}
			if !end {
				bad = "may be searched only in part"
			}
		}
		if found {
			return bad
		}
	}
	return why
}

func (x *mrgDoc) iterates(iter, table Value) bool {
	o, ok := iter.(Opq)
	t, ok2 := table.(Opq)
	if !ok || !ok2 {
		return false
	}
	d := x.e.terms[o.s]
	return d.op == "range" && len(d.args) > 0 && valKey(d.args[0]) == valKey(t)
}

// finish checks what Finish returns and leaves behind.
func (x *mrgDoc) finish() {
	fn := x.method("Finish")
	name := fname(fn)
	r := x.r
	r.check(x.fin != "", "finished", "flag", "", "a finished document is not kept from being appended to")
	r.check(x.length != "" && x.lenOff != "", "written", "count", "", "%s does not write the number of elements to its place", name)
	ok, bad := x.split(fn)
	isCount := func(o Outcome, ev *Ev) bool {
		s, v, ok := putUvarint(ev)
		l, ok1 := x.is(fn, o.st, x.length).(IntV)
		p, ok2 := x.is(fn, o.st, x.lenOff).(IntV)
		return ok && ok1 && ok2 && x.same(o.st, v, l.l) && x.same(o.st, s.off, p.l)
	}
	for _, o := range ok {
		pos := x.e.pos(o.at)
		res, isS := o.res[0].(SliceV)
		buf, isB := x.is(fn, o.st, x.buf).(SliceV)
		if !r.check(isS && isB && res.base == buf.base && x.same(o.st, res.off, buf.off) && x.same(o.st, res.ln, buf.ln), "written", "result", pos, "%s returns something other than the merged document", name) {
			continue
		}
		bytes, _ := x.touched(fn, o, func(ev *Ev) bool { return isCount(o, ev) })
		if x.fin != "" && x.decideBool(o.st, x.was(fn, x.fin)) == yes {
			ch := x.unchanged(fn, o)
			r.check(len(ch) == 0 && len(bytes) == 0, "finished", "again", pos, "%s changes a document that is finished (%s)", name, strings.Join(ch, ", "))
			continue
		}
		// the number of elements, before anything is compressed
		n := 0
		late := false
		codec := false
		for _, ev := range o.st.ev.list() {
			if isCount(o, ev) {
				n++
				late = late || codec
			}
			if ev.k == evCall && isCodec(ev.call.name) {
				codec = true
			}
		}
		r.check(n > 0 && !late, "written", "count", pos, "%s does not write the number of elements before the document is complete", name)
		// the header's byte of type and version is C14's
		for _, ev := range bytes {
			if ev.k == evStore && ev.ptr.idx != nil {
				if i := o.st.norm(*ev.ptr.idx); i.isConst() && i.c == 4 && codec {
					continue
				}
			}
			r.bad("written", "bytes", x.e.pos(ev.site), "%s changes bytes of the merged document", name)
		}
		if !codec {
			old, _ := x.before(fn, o)
			w, ok := old.(SliceV)
			r.check(ok && w.base == buf.base && x.same(o.st, w.off, buf.off) && x.same(o.st, w.ln, buf.ln), "written", "whole", pos, "%s returns only a part of the merged document", name)
		}
		r.check(x.fin == "" || x.decideBool(o.st, x.is(fn, o.st, x.fin)) == yes, "finished", "set", pos, "%s leaves the document open to changes", name)
	}
	for _, o := range bad {
		pos := x.e.pos(o.at)
		ch := x.unchanged(fn, o)
		r.check(len(ch) == 0, "failed", "fields:"+strings.Join(ch, ","), pos, "%s fails and leaves changes behind: %s", name, strings.Join(ch, ", "))
		bytes, tabs := x.touched(fn, o, func(ev *Ev) bool { return isCount(o, ev) })
		r.check(len(bytes) == 0 && len(tabs) == 0, "failed", "bytes", pos, "%s fails after it changed bytes of the document", name)
	}
	// the space reserved for the number
	app := x.method("Append")
	room := int64(-1)
	oks, _ := x.split(app)
	for _, o := range oks {
		b, _, ok := x.initial(app, o)
		if !ok {
			continue
		}
		s, ok1 := b.(SliceV)
		p, ok2 := x.is(app, o.st, x.lenOff).(IntV)
		if !ok1 || !ok2 {
			continue
		}
		ln, at := o.st.norm(s.ln), o.st.norm(p.l)
		if !r.check(ln.isConst() && at.isConst(), "room", "place", x.e.pos(o.at), "the place for the number of elements is not understood") {
			continue
		}
		room = ln.c - at.c
		bs := x.bytesOf(o.st, s)
		why := ""
		for i := at.c; i < ln.c && why == ""; i++ {
			if v, ok := bs[i]; !ok || v != 0x3f {
				why = "is not filled with padding"
			}
		}
		if bs[at.c-1] != tgARRAY {
			why = "does not follow an ARRAY tag"
		}
		if t, ok := x.is(app, o.st, "TopLevelElement").(IntV); ok {
			first := at.c - 1
			switch array, ref := o.st.decide(&Cond{k: cEq, l: t.l}), o.st.decide(&Cond{k: cEq, l: t.l.addc(-1)}); {
			case ref == yes:
				first--
				if bs[first] != tgREFN {
					why = "is not in a reference"
				}
			case array != yes:
				why = "is the same for all kinds of documents"
			}
			if v, ok := bs[first-1]; why == "" && ok && v != 0 {
				why = "is not at the start of the body"
			}
		}
		r.check(why == "", "room", "start", x.e.pos(o.at), "the place for the number of elements %s", why)
	}
	r.check(room > 0, "room", "reserved", "", "no place for the number of elements is found")
	for f := range x.owner {
		oks, _ := x.split(f)
		for _, o := range oks {
			l, ok := x.is(f, o.st, x.length).(IntV)
			if !ok || room < 1 || room > 8 {
				continue
			}
			max := int64(1)<<uint(7*room) - 1
			m := x.e.modular(o.st.norm(l.l))
			r.check(o.st.entails(constLin(max).sub(m)) || o.st.entails(constLin(max).sub(l.l)), "room", "bound", x.e.pos(o.at), "%s accepts more elements than fit the space for their number", fname(f))
		}
	}
}

// bytesOf lists the known bytes of a buffer built from constants.
func (x *mrg) bytesOf(st *State, s SliceV) map[int64]int64 {
	r := map[int64]int64{}
	for i := int64(0); i < 32; i++ {
		if n := st.norm(s.ln); !n.isConst() || i >= n.c {
			break
		}
		if v, ok := x.e.load(st, x.e.elemPtr(s, constLin(i)), types.Typ[types.Uint8]).(IntV); ok {
			if k := st.norm(v.l); k.isConst() {
				r[i] = k.c
			}
		}
	}
	return r
}

func init() {
	const what = "Abstract interpretation of the merger's exported methods and everything they call. The fields of the merger are told apart by what is done with them. "
	mrgCheck := func(id, expl string, f func(x *mrgDoc), kinds map[string]int) {
		checks[id] = func(r *Report) {
			r.Level = "proof"
			r.Explanation = what + expl
			r.Trusted = append(r.Trusted, libTrust...)
			r.Assumptions = append(r.Assumptions, sizeAssume...)
			forVariants(r, bothVariants[:1], func(p *Program) {
				if x, ok := newMrgDoc(p, r); ok {
					f(x)
				}
			})
			for k, n := range kinds {
				r.atLeast(k, n)
			}
		}
	}
	mrgCheck("C26", "Append may succeed only for document types and versions the specification knows. Where the items of a document are gone over and copied, the count of expected items must start with what the tag at the start of the body says (one item, or with KeepFlat the length of an array of the kind of the top level), the items must start right there, no count may be dropped before it is zero, every item must end inside of the document, and on every successful path all counts must be known to be zero: by a loop over all of them or because none is left. What is copied must be kept, at the end of what was there, the number kept for the top level must grow by exactly the items expected, and Append must return that difference.", func(x *mrgDoc) { x.documents() }, map[string]int{"count": 5, "complete": 3, "within": 100, "returned": 5, "supported": 10})
	mrgCheck("C25", "On every path on which Append, or what copies items for it, may fail, each field of the merger must have the value from before the call, or from after the first use, the bytes of the merged document must not have been stored to, and the tables that copying adds strings to must have been gone over to the end, taking out exactly the entries whose offsets are not in the document before.", func(x *mrgDoc) { x.failures() }, map[string]int{"unchanged": 10, "purged": 2})
	mrgCheck("C28", "On every path of Finish that succeeds, the number of elements must be written to the place kept for it before anything is compressed, the result must be the whole buffer, a compressed body must be the library's output for all of the body, framed, and the flag that keeps Append from succeeding must be set; if it was set before, nothing may change. On every path that fails, fields and bytes must be as before. The place reserved when the merger is first used must follow the tags of the top level and be filled with padding, and the number of elements must be bounded by what fits there wherever it grows.", func(x *mrgDoc) { x.finish(); x.packed() }, map[string]int{"written": 10, "finished": 3, "failed": 3, "room": 4, "packed": 4})
}

// documents checks which documents are merged and how many elements they add.
func (x *mrgDoc) documents() {
	r := x.r
	app := x.method("Append")
	for _, p := range headerPaths(x.e, app) {
		if !p.ok {
			continue
		}
		for _, k := range p.kinds(x.e, p.st) {
			r.check(validType(k>>4, k&15) && k&15 >= 1 && k&15 <= 4, "supported", fmt.Sprintf("%d:%d", k>>4, k&15), x.e.pos(p.o.at), "%s accepts document type %d in version %d", fname(app), k>>4, k&15)
		}
	}
	for _, l := range x.copy {
		x.startOf(l)
		x.within(l)
		pops := x.pops(l)
		n := x.firstOrNil(l)
		for f := range x.owner {
			oks, _ := x.split(f)
			for _, o := range oks {
				pos := x.e.pos(o.at)
				passes := false
				for _, ev := range o.st.ev.list() {
					if ev.k == evLoopIn && ev.loop == l.ctx {
						passes = true
					}
				}
				if !passes {
					if len(x.copy) == 1 {
						r.check(false, "complete", "skipped:"+fname(f), pos, "%s succeeds without going over the items", fname(f))
					}
					continue
				}
				r.check(x.complete(o, l, pops), "complete", fname(f), pos, "%s accepts a document some items of which may be missing", fname(f))
				// the output is what was copied
				b, ok := x.is(f, o.st, x.buf).(SliceV)
				h := l.out.head.(SliceV)
				r.check(ok && b.base == h.base && x.same(o.st, b.off, h.off) && x.same(o.st, b.ln, h.ln), "count", "output:"+fname(f), pos, "%s does not keep all that it copied", fname(f))
				i, ok := l.out.init.(SliceV)
				w, ok2 := x.was(f, x.buf).(SliceV)
				if !x.entryIs(f) {
					r.check(ok && ok2 && i.base == w.base && x.same(o.st, i.off, w.off) && x.same(o.st, i.ln, w.ln), "count", "extends:"+fname(f), pos, "%s does not add to the end of the merged document", fname(f))
				}
				if n == nil || x.length == "" {
					continue
				}
				a, ok := x.was(f, x.length).(IntV)
				z, ok2 := x.is(f, o.st, x.length).(IntV)
				r.check(ok && ok2 && x.same(o.st, z.l.sub(a.l), *n), "count", "added:"+fname(f), pos, "%s adds a number of elements other than that of the document", fname(f))
			}
		}
	}
	oks, _ := x.split(app)
	for _, o := range oks {
		pos := x.e.pos(o.at)
		a, ok1 := x.was(app, x.length).(IntV)
		z, ok2 := x.is(app, o.st, x.length).(IntV)
		n, ok3 := o.res[0].(IntV)
		r.check(ok1 && ok2 && ok3 && x.same(o.st, n.l, z.l.sub(a.l)), "returned", fname(app), pos, "%s returns a number other than that of the elements added", fname(app))
		calls := 0
		for _, ev := range o.st.ev.list() {
			if ev.k == evCall && x.owner[ev.call.fn] || ev.k == evLoopIn && x.owner[app] && x.copier(ev.loop) != nil {
				calls++
			}
		}
		x.appendsTo(app, o)
		r.check(calls == 1, "returned", "once:"+fname(app), pos, "%s succeeds though the items were gone over %d times", fname(app), calls)
	}
}

// appendsTo: items are copied to the end of the document merged before.
func (x *mrgDoc) appendsTo(app *ssa.Function, o Outcome) {
	recv := x.runs[app].args[0].(PtrV)
	old, _ := x.before(app, o)
	cur := x.was(app, x.buf)
	for _, ev := range o.st.ev.list() {
		if ev.k == evStore && ev.ptr.obj == recv.obj && ev.ptr.path == recv.path+"."+x.buf {
			cur = ev.val
		}
		var at Value
		if ev.k == evCall && x.owner[ev.call.fn] {
			at = cur
		} else if ev.k == evLoopIn && x.copier(ev.loop) != nil {
			at = x.copier(ev.loop).out.init
		} else {
			continue
		}
		a, ok := old.(SliceV)
		b, ok2 := at.(SliceV)
		good := ok && ok2 && x.same(o.st, a.off, b.off) && x.same(o.st, a.ln, b.ln) && (a.base == b.base || x.appended(o.st, a, b))
		x.r.check(good, "count", "end:"+fname(app), x.e.pos(o.at), "%s does not copy to the end of the documents merged before", fname(app))
	}
}

// packed: a compressed document contains all that was merged.
func (x *mrgDoc) packed() {
	e := bare(x.p)
	e.onEntry = e.eachVersion
	fn := e.findFunc("(*Merger).Finish")
	ws, _ := e.writtenBy(fn)
	for _, w := range ws {
		p := w.pack()
		if p == nil {
			continue
		}
		why := w.why
		if why == "" {
			why = p.why
		}
		if why == "" {
			why = w.framed(e, p)
		}
		if why == "" {
			why = w.whole(e, p)
		}
		x.r.check(why == "", "packed", p.codec, e.pos(w.o.at), "%s, %s: %s", fname(fn), p.codec, why)
	}
}

// entryIs tells whether a function starts with an unused merger, too.
func (x *mrg) entryIs(f *ssa.Function) bool { return x.runs[f].entry == nil }

func (x *mrgDoc) firstOrNil(l *itemLoop) *Lin {
	n, why := x.first(l)
	if why != "" {
		return nil
	}
	n = x.e.modular(l.ctx.pre.norm(n))
	return &n
}

// failures checks what a failing Append leaves behind.
func (x *mrgDoc) failures() {
	r := x.r
	app := x.method("Append")
	fns := []*ssa.Function{app}
	for f := range x.owner {
		if f != app {
			fns = append(fns, f)
		}
	}
	added := map[string]bool{} // tables that copying adds to
	for _, f := range fns {
		oks, bad := x.split(f)
		for _, o := range append(oks, bad...) {
			_, tabs := x.touched(f, o, func(*Ev) bool { return true })
			for t := range tabs {
				added[t] = true
			}
		}
	}
	for _, f := range fns {
		_, bad := x.split(f)
		for _, o := range bad {
			pos := x.e.pos(o.at)
			ch := x.unchanged(f, o)
			r.check(len(ch) == 0, "unchanged", fname(f)+":"+strings.Join(ch, ","), pos, "%s fails and leaves changes behind: %s", fname(f), strings.Join(ch, ", "))
			bytes, tabs := x.touched(f, o, func(*Ev) bool { return false })
			if len(bytes) > 0 {
				pos = x.e.pos(bytes[0].site)
			}
			r.check(len(bytes) == 0, "unchanged", fname(f)+":bytes", pos, "%s fails after it changed bytes of the merged document", fname(f))
			if f != app {
				continue
			}
			if !x.failedCopy(o.st) && len(tabs) == 0 {
				continue
			}
			old, _ := x.before(f, o)
			s, ok := old.(SliceV)
			var ts []string
			for t := range added {
				ts = append(ts, t)
			}
			sort.Strings(ts)
			for _, t := range ts {
				why := "is not understood"
				if ok {
					for _, n := range x.ints {
						// offsets count from one of the positions kept
						if b, ok := x.is(f, o.st, n).(IntV); ok {
							if why = x.purged(o, x.is(f, o.st, t), s.ln.sub(b.l)); why == "" {
								break
							}
						}
					}
				}
				r.check(why == "", "purged", t, pos, "%s fails and the table %s %s", fname(f), t, why)
			}
		}
	}
	r.check(len(added) > 0, "purged", "tables", "", "no table of strings is found")
}

func isCodec(name string) bool {
	return strings.Contains(name, "snappy.") || strings.Contains(name, "zlib.Writer") || strings.Contains(name, "zstd.")
}
