package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The merger goes over documents with loops that handle one item a round. Each
// way round such a loop is compared with the wire grammar.

type mrg struct {
	e    *Engine
	w    *wire
	r    *Report
	p    *Program
	done []*itemLoop
	runs map[*ssa.Function]*mrgRun
	fns  []*ssa.Function
}

// mrgRun is the analysis of one function.
type mrgRun struct {
	outs  []Outcome
	args  []Value
	entry *State
}

// itemLoop is a loop over the items of a document.
type itemLoop struct {
	ctx   *LoopCtx
	idx   *loopVar // position in the document
	doc   *Obj
	out   *loopVar // the output, if the loop copies
	stack *loopVar // the items still expected, if the loop counts them
	marks *loopVar // positions to get a track bit
}

// itemPath is one way round the loop for one tag byte.
type itemPath struct {
	l     *itemLoop
	be    backEdge
	st    *State
	evs   []*Ev
	b     int
	head  Lin // position of the tag
	back  Lin // where the next round continues
	name  string
	pos   string
	vs    []wstep
	end   Lin // after the item's own bytes
	strs  []sub
	spec  []elem
	left  Lin // nested items that remain to be read
	count Lin // value of the varint
	outs  []outPart
}

// sub is a string read as part of an item.
type sub struct{ at, body, end Lin }

// outPart is a part of the output of a round.
type outPart struct {
	from, to Lin // of the document
	at       Lin // in the output, counted from its end before the round
	tag      int // -1: copied
	val      Lin // the offset in a reference
	get      *Ev // the table it is from
}

// modular removes wrapping at 64 bits: equality modulo 2^64 is equality.
func (e *Engine) modular(l Lin) Lin {
	for n := 0; n < 20; n++ {
		again := false
		for _, t := range l.t {
			in := &e.syms.info[t.s]
			if in.def != nil && in.def.hi == math.MaxInt64 {
				l = l.subst(t.s, in.def.e)
				again = true
				break
			}
		}
		if !again {
			break
		}
	}
	return l
}

func (x *mrg) same(st *State, a, b Lin) bool {
	return x.w.same(st, x.e.modular(st.norm(a)), x.e.modular(st.norm(b)))
}

func isUintSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInt(s.Elem()) && !isByte(s.Elem())
}

// itemLoopOf recognises a loop that distinguishes the byte at a position that
// moves with it.
func (x *mrg) itemLoopOf(ctx *LoopCtx) *itemLoop {
	e := x.e
	for _, v := range ctx.vars {
		h, ok := v.head.(IntV)
		if !ok || !isInt(v.t) || isByte(v.t) {
			continue
		}
		count := map[*Obj]int{}
		for _, be := range ctx.backs {
			seen := map[*Obj]bool{}
			for s := range be.st.dom {
				if ref, ok := e.byteAt[s]; ok && !seen[ref.o] {
					if d := ref.off.sub(h.l); d.isConst() && d.c == 0 {
						seen[ref.o] = true
						count[ref.o]++
					}
				}
			}
		}
		for o, n := range count {
			if n < 8 || n*3 < len(ctx.backs)*2 {
				continue
			}
			l := &itemLoop{ctx: ctx, idx: v, doc: o}
			for _, u := range ctx.vars {
				hs, ok := u.head.(SliceV)
				if !ok || hs.str {
					continue
				}
				if isByte(hs.elem) && hs.log != nil && hs.log.k == tLoopIn {
					l.out = u
				}
			}
			x.stacks(l)
			return l
		}
	}
	return nil
}

// stacks tells the stack of expected items from the list of track positions:
// the stack's elements are stored to.
func (x *mrg) stacks(l *itemLoop) {
	for _, u := range l.ctx.vars {
		hs, ok := u.head.(SliceV)
		if !ok || hs.str || hs.elem == nil || !isInt(hs.elem) || isByte(hs.elem) {
			continue
		}
		stored := false
		for _, be := range l.ctx.backs {
			for _, ev := range x.round(l, be.st) {
				if ev.k == evStore && ev.ptr.obj != nil && ev.ptr.idx != nil && ev.ptr.obj == hs.base {
					stored = true
				}
			}
		}
		if stored {
			l.stack = u
		} else {
			l.marks = u
		}
	}
}

// round lists the events of the round that ends in a state.
func (x *mrg) round(l *itemLoop, st *State) []*Ev {
	var r []*Ev
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k == evLoopIn && ev.loop == l.ctx {
			break
		}
		r = append(r, ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// newMrg analyses the merger's functions and finds its item loops.
func newMrg(p *Program, r *Report) (*mrg, bool) {
	e := bare(p)
	x := &mrg{e: e, w: &wire{e: e}, r: r, p: p, runs: map[*ssa.Function]*mrgRun{}}
	app := e.findFunc("(*Merger).Append")
	fin := e.findFunc("(*Merger).Finish")
	if app == nil || fin == nil {
		r.undecided("anchor:merger", "the merger's exported methods are gone")
		return nil, false
	}
	e.loopSeen = map[*LoopCtx]bool{}
	reach := e.reachCuts([]*ssa.Function{app, fin})
	x.run(app)
	x.run(fin)
	for _, c := range e.cutList() {
		if reach[c.fn] && c.fn.Signature.Recv() != nil && strings.HasSuffix(c.fn.Signature.Recv().Type().String(), ".Merger") {
			x.run(c.fn)
		}
	}
	for c := range e.loopSeen {
		if l := x.itemLoopOf(c); l != nil {
			x.done = append(x.done, l)
		}
	}
	for _, l := range e.loopErr {
		r.undecided("engine", "%s: %s", p.Variant, l)
	}
	if len(x.done) == 0 {
		r.undecided("anchor:items", "no loop over the items of a document is found in the merger")
		return nil, false
	}
	return x, true
}

func (x *mrg) run(fn *ssa.Function) {
	if c := x.e.cuts[fn]; c != nil {
		outs, args, entry := x.e.runCut(c)
		x.runs[fn] = &mrgRun{outs, args, entry}
	} else {
		outs, args := x.e.runEntryArgs(fn)
		x.runs[fn] = &mrgRun{outs, args, nil}
	}
	x.fns = append(x.fns, fn)
}

// eachItem goes through the ways round a loop, tag byte by tag byte.
func (x *mrg) eachItem(l *itemLoop, f func(q *itemPath)) {
	e := x.e
	head := l.idx.head.(IntV).l
	for _, be := range l.ctx.backs {
		if be.st.dead {
			continue
		}
		bv, ok := e.backVal(be, l.idx, l.ctx).(IntV)
		if !ok {
			x.r.undecided("item:"+fname(l.ctx.fn), "the position after an item is not understood in %s", fname(l.ctx.fn))
			continue
		}
		evs := x.round(l, be.st)
		pos := e.pos(l.ctx.site)
		for _, ev := range evs {
			if ev.site != nil && (ev.k == evStore || ev.k == evNote && ev.name == "append" || ev.k == evMapSet) {
				pos = e.pos(ev.site)
			}
		}
		tag := e.byteSym(l.doc, be.st.ver[l.doc], be.st.norm(head))
		for _, b := range be.st.domOf(tag).members() {
			st := be.st.clone()
			if !st.assume(&Cond{k: cEq, l: symLin(tag).addc(-int64(b))}) || st.dead {
				continue
			}
			f(&itemPath{l: l, be: be, st: st, evs: evs, b: b, head: head, back: bv.l, name: wireTags[b&0x7f].name, pos: pos})
		}
	}
}

// varint finds the varint read at a position of the document.
func (x *mrg) varint(q *itemPath, at Lin) (n, sz Lin, ok bool) {
	for _, ev := range q.evs {
		if ev.k != evCall || ev.call.name != "varint" {
			continue
		}
		s, isS := ev.call.args[0].(SliceV)
		if !isS || s.base != q.l.doc || len(ev.call.res) < 3 || !isNilConst(ev.call.res[2]) || !x.same(q.st, s.off, at) {
			continue
		}
		return x.e.lin(ev.call.res[0]), x.e.lin(ev.call.res[1]), true
	}
	return
}

// mask5 is a byte's low five bits.
func (x *mrg) mask5(s Sym) Lin {
	tab := make([]int64, 256)
	for i := range tab {
		tab[i] = int64(i & 0x1f)
	}
	return x.e.tabLin(s, tab)
}

// strAt determines the extent of a string item at a position: ways to read it.
func (x *mrg) strAt(q *itemPath, at Lin) (s sub, why string) {
	sym := x.e.byteSym(q.l.doc, q.st.ver[q.l.doc], q.st.norm(at))
	ms := q.st.domOf(sym).members()
	short, long := true, true
	for _, m := range ms {
		t := m & 0x7f
		if t < 0x60 {
			short = false
		}
		if t != tgBINARY && t != tgSTRUTF8 {
			long = false
		}
	}
	switch {
	case len(ms) == 0:
		return s, "no tag is possible"
	case short:
		b := at.addc(1)
		return sub{at, b, b.add(x.mask5(sym))}, ""
	case long:
		n, sz, ok := x.varint(q, at.addc(1))
		if !ok {
			return s, "the length of the string is not read"
		}
		b := at.addc(1).add(sz)
		return sub{at, b, b.add(n)}, ""
	}
	return s, "the tag of the string is not told apart"
}

// extent compares what the round consumes with the grammar.
func (x *mrg) extent(q *itemPath) string {
	m := q.b & 0x7f
	spec := wireTags[m]
	els := spec.elems
	if m == tgLONGDOUBLE {
		els = []elem{{k: 'B', n: 16}}
	} else if spec.reject {
		return "a tag without a meaning is accepted"
	}
	cur := q.head.addc(1)
	i := 0
loop:
	for ; i < len(els); i++ {
		switch els[i].k {
		case 'B':
			cur = cur.addc(els[i].n)
		case 'V':
			n, sz, ok := x.varint(q, cur)
			if !ok {
				return "the varint after the tag is not read"
			}
			q.count = n
			cur = cur.add(sz)
		case 'N':
			q.strs = append(q.strs, sub{q.head, cur, cur.add(q.count)})
			cur = cur.add(q.count)
		default:
			break loop
		}
	}
	if m >= 0x60 {
		q.strs = append(q.strs, sub{q.head, q.head.addc(1), cur})
	}
	for {
		if x.same(q.st, cur, q.back) {
			break
		}
		if i >= len(els) || els[i].k != 'S' {
			return "it does not end where the next item starts"
		}
		s, why := x.strAt(q, cur)
		if why != "" {
			return why
		}
		q.strs = append(q.strs, s)
		cur = s.end
		i++
	}
	q.end = cur
	q.spec = els[i:]
	left := constLin(0)
	for _, el := range els[i:] {
		n := constLin(1)
		if el.k == 'R' {
			if el.from == 'V' {
				n = q.count
			} else {
				n = constLin(spec.count)
			}
			if len(el.rep) == 2 {
				n = n.add(n)
			}
		}
		left = left.add(n)
	}
	q.left = left
	return ""
}

// output matches what the round appends to the output with the item.
func (x *mrg) output(q *itemPath) string {
	e := x.e
	bv, ok := e.backVal(q.be, q.l.out, q.l.ctx).(SliceV)
	if !ok || bv.log == nil || bv.skip.key() != q.l.out.head.(SliceV).skip.key() {
		return "what is written is not understood"
	}
	toks := bv.log.list()
	if len(toks) == 0 || toks[0].k != tLoopIn || toks[0].lv != q.l.out {
		return "what was written before is not kept"
	}
	cur := q.head
	at := constLin(0)
	tag := q.b & 0x7f
	toks = toks[1:]
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		part := outPart{from: cur, at: at, tag: -1}
		switch {
		case t.k == tBytes && t.v != nil && t.v.base == q.l.doc && x.same(q.st, t.v.off, cur):
			cur = cur.add(t.v.ln)
		case t.k == tByte && i+1 < len(toks) && toks[i+1].k == tVarint && !x.same(q.st, cur, q.end):
			c := q.st.norm(t.l)
			if !c.isConst() {
				return "the tag of a reference is not understood"
			}
			part.tag, part.val = int(c.c), toks[i+1].l
			switch {
			case !x.same(q.st, cur, q.head):
				return "a reference is written in the middle of an item"
			case tag == tgCOPY || tag == tgREFP || tag == tgALIAS || tag == tgOBJECTV || tag == tgOBJECTVFREEZE:
				if part.tag != q.b {
					return fmt.Sprintf("it becomes a tag 0x%02x", part.tag)
				}
				part.get = x.got(q, part.val)
				cur = q.end
			case stringTags[tag]:
				if part.tag != tgCOPY {
					return fmt.Sprintf("it becomes a tag 0x%02x", part.tag)
				}
				part.get = x.got(q, part.val)
				cur = q.end
			case (tag == tgOBJECT || tag == tgOBJECTFREEZE) && len(q.strs) == 1:
				if part.tag != tag+1 {
					return fmt.Sprintf("it becomes a tag 0x%02x", part.tag)
				}
				part.get = x.got(q, part.val)
				cur = q.end
			default:
				return "a reference is written in its place"
			}
			if part.get == nil {
				return "the offset in the reference is not from a table"
			}
			i++
			t = &Tok{n: t.n.add(toks[i].n)}
		case t.k == tByte && x.same(q.st, t.l, symLin(e.byteSym(q.l.doc, q.st.ver[q.l.doc], q.st.norm(cur)))):
			cur = cur.addc(1)
		default:
			return "other bytes than its own are written"
		}
		part.to = cur
		at = at.add(t.n)
		q.outs = append(q.outs, part)
	}
	if !x.same(q.st, cur, q.back) {
		return "not all of its bytes are written"
	}
	return ""
}

// got finds the table look-up that a value is the result of.
func (x *mrg) got(q *itemPath, v Lin) *Ev {
	for _, ev := range q.evs {
		if ev.k != evMapGet || ev.ok == nil || q.st.decide(ev.ok) != yes {
			continue
		}
		if i, ok := ev.val.(IntV); ok && x.same(q.st, i.l, v) {
			return ev
		}
	}
	return nil
}

// counted determines how the round changes the number of items expected.
func (x *mrg) counted(q *itemPath) string {
	e := x.e
	back, ok := e.backVal(q.be, q.l.stack, q.l.ctx).(SliceV)
	if !ok {
		return "the stack is not understood"
	}
	base := back
	var pushes []SliceV
	for i := len(q.evs) - 1; i >= 0; i-- {
		ev := q.evs[i]
		if ev.k != evNote || ev.name != "append" {
			continue
		}
		s, ok := ev.val.(SliceV)
		a, ok2 := ev.x.(SliceV)
		if !ok || !ok2 || !types.Identical(s.elem, back.elem) || q.l.marks != nil && s.base == q.l.marks.head.(SliceV).base {
			continue
		}
		if !x.same(q.st, s.ln.add(a.ln), base.ln) {
			return "the stack is not extended by one append after the other"
		}
		pushes = append(pushes, a)
		base = s
	}
	top := base.ln.addc(-1)
	t := back.elem
	// the count of the enclosing item
	delta, found := Lin{}, false
	var orig, taken Lin
	cells := map[string]bool{}
	for _, ev := range q.evs {
		if ev.k != evStore || ev.ptr.obj == nil || ev.ptr.idx == nil || ev.ptr.elem == nil || !types.Identical(ev.ptr.elem, t) {
			continue
		}
		var s SliceV
		switch ev.ptr.obj {
		case base.base:
			s = base
		case back.base:
			s = back
		default:
			continue
		}
		if !x.same(q.st, *ev.ptr.idx, s.off.add(top)) {
			return "a count other than that of the enclosing item is changed"
		}
		cells[ev.ptr.obj.key] = true
		st := q.be.st
		now, ok := ev.val.(IntV)
		if !ok {
			return "the count stored is not understood"
		}
		// the value before: the cell as the round found it
		l := e.modular(st.norm(now.l))
		if !found {
			o, d, ok := x.cellPlus(l, ev.ptr)
			if !ok {
				return "the count stored is not derived from the one before"
			}
			orig, delta, found = o, d, true
			taken = o
			if ev.ptr.obj != base.base {
				if v, ok := e.load(st, e.elemPtr(base, ev.ptr.idx.sub(s.off)), t).(IntV); ok {
					taken = v.l
				}
			}
			continue
		}
		d := l.sub(e.modular(orig))
		if !d.isConst() {
			if o, d2, ok := x.cellPlus(l, ev.ptr); ok {
				_ = o
				delta = delta.add(d2)
				continue
			}
			return "the count stored is not derived from the one before"
		}
		delta = d
	}
	if !found {
		delta = constLin(0)
	} else {
		m := e.binop(q.st, token.AND_NOT, IntV{taken}, IntV{symLin(e.bigConst(1 << 63))}, types.Typ[types.Uint64], types.Typ[types.Uint64])
		if i, ok := m.(IntV); !ok || q.st.decide(&Cond{k: cEq, l: i.l}) != no {
			return "the item is taken though none is expected"
		}
	}
	want := q.left.addc(-1).sub(delta)
	if len(pushes) == 0 {
		if !x.same(q.st, want, constLin(0)) {
			return "the items expected after it are not counted"
		}
		return ""
	}
	if len(pushes) != 1 {
		return "more than one count is pushed"
	}
	if n := q.st.norm(pushes[0].ln); !n.isConst() || n.c != 1 {
		return "more than one count is pushed"
	}
	v, ok := e.load(q.be.st, e.elemPtr(pushes[0], constLin(0)), t).(IntV)
	if !ok {
		return "the count pushed is not understood"
	}
	pv := x.vecUnder(q, e.modular(q.st.norm(v.l)))
	wv := x.vecUnder(q, e.modular(q.st.norm(want)))
	for i := 0; i < 63; i++ {
		if !pv[i].eq(wv[i]) {
			return "the number of items expected after it is wrong"
		}
	}
	return ""
}

// cellPlus splits a value into the unknown content of a cell and what is added.
func (x *mrg) cellPlus(l Lin, p PtrV) (Lin, Lin, bool) {
	for _, t := range l.t {
		if t.c != 1 {
			continue
		}
		k := x.e.syms.name(t.s)
		if strings.HasPrefix(k, p.obj.key) && strings.HasSuffix(k, p.path) {
			return symLin(t.s), l.sub(symLin(t.s)), true
		}
	}
	return Lin{}, Lin{}, false
}

// vecUnder is the bit pattern of a value, with the known bytes filled in.
func (x *mrg) vecUnder(q *itemPath, l Lin) *bitvec {
	v := *x.e.vec(l)
	for i := range v {
		b := bit{c: v[i].c}
		for _, a := range v[i].a {
			if k, ok := q.st.domOf1(a.s); ok {
				b = b.xor(bit{c: k>>uint(a.i)&1 == 1})
			} else {
				b = b.xor(bit{a: []atom{a}})
			}
		}
		v[i] = b
	}
	return &v
}

func (st *State) domOf1(s Sym) (int64, bool) {
	lo, hi, a, b := st.rng(s)
	return lo, a && b && lo == hi
}

func init() {
	checks["C24"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Abstract interpretation of Append and everything it calls. The loops that go over the items of a document are recognised by the byte they tell apart at the position they move. Every way round such a loop, taken with each tag byte it is possible for, is compared with the wire grammar: the round must end where the item's own bytes end (a string that follows OBJECT or REGEXP may be included), what it appends to the output must be exactly those bytes, or a reference in place of a reference, string or class name, and the counts of expected items must change by exactly the items that follow. Every tag that the specification assigns must have a way round every such loop, no other may."
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
		forVariants(r, bothVariants[:1], func(p *Program) {
			x, ok := newMrg(p, r)
			if !ok {
				return
			}
			copies := false
			for _, l := range x.done {
				fn := fname(l.ctx.fn)
				var tags [128]bool
				n := 0
				x.eachItem(l, func(q *itemPath) {
					n++
					m := q.b & 0x7f
					tags[m] = true
					key := fn + ":" + q.name
					if why := x.extent(q); !r.check(why == "", "extent", key, q.pos, "%s goes over %s wrongly: %s", fn, q.name, why) {
						return
					}
					if l.out != nil {
						why := x.output(q)
						r.check(why == "", "copy", key, q.pos, "%s copies %s wrongly: %s", fn, q.name, why)
					}
					if l.stack != nil {
						why := x.counted(q)
						r.check(why == "", "nested", key, q.pos, "%s follows the structure of %s wrongly: %s", fn, q.name, why)
					}
				})
				for m, s := range wireTags {
					if !s.reject {
						r.check(tags[m], "tag", fn+":"+s.name, x.e.pos(l.ctx.site), "%s has no way to go over %s", fn, s.name)
					}
				}
				if l.out != nil {
					copies = true
					r.check(l.stack != nil, "stack", fn, x.e.pos(l.ctx.site), "%s copies items without counting those expected", fn)
				}
				r.sample(map[string]interface{}{"loop": fn + " " + x.e.pos(l.ctx.site), "ways": len(l.ctx.backs), "tag bytes": n, "copies": l.out != nil})
			}
			r.check(copies, "stack", "output", "", "no loop that copies the items of a document is found in the merger")
		})
		r.atLeast("extent", 300)
		r.atLeast("copy", 200)
		r.atLeast("nested", 200)
	}
}
