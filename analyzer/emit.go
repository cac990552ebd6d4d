package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the encoder writes, as a tree of items.

// piece is a run of written bytes.
type piece struct {
	k    tokKind
	at   Lin
	n    Lin
	l    Lin
	v    *SliceV
	call *CallEv
	tok  *Tok
	loop *ploop
}

// ploop is what the iterations of a loop write.
type ploop struct {
	ctx    *LoopCtx
	v      *loopVar
	bodies []*pbody
}

type pbody struct {
	be    backEdge
	ps    []*piece
	items []*node
}

// node is an item.
type node struct {
	at     Lin
	tag    Lin
	t      int     // tag; the first of a range for tags that hold a number
	call   *CallEv // written by this call
	num    *piece
	pay    []*piece
	paylen Lin
	kids   []*node // nested items in order; repetitions are kid groups
	reps   []*rep
	pads   int
}

// rep is repeated items: inline ones, or those of a loop.
type rep struct {
	items []*node
	loop  *ploop
	count Lin
}

type emRole struct {
	buf, res int
	vals     []int
}

type emit struct {
	e     *Engine
	w     *wire
	roles map[*ssa.Function]*emRole
}

// emPath is an accepting path of a function that writes an item.
type emPath struct {
	fn   *ssa.Function
	o    Outcome
	st   *State
	args []Value
	out  SliceV
	root *node
	err  string
}

func newEmit(p *Program, r *Report) (*emit, bool) {
	e := newEngine(p)
	e.light = true
	if _, ok := e.analyse(r, encEntries); !ok {
		return nil, false
	}
	m := &emit{e: e, w: &wire{e: e, roles: map[*ssa.Function]*wireRole{}}, roles: map[*ssa.Function]*emRole{}}
	for _, c := range e.cutList() {
		ro := &emRole{buf: -1, res: -1}
		for i, q := range c.fn.Params {
			if isBytesT(q.Type()) && ro.buf < 0 {
				ro.buf = i
			}
			if it, ok := q.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 || isReflectValue(q.Type()) {
				ro.vals = append(ro.vals, i)
			}
		}
		rs := c.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if isBytesT(rs.At(i).Type()) && ro.res < 0 {
				ro.res = i
			}
		}
		if ro.buf >= 0 && ro.res >= 0 && len(ro.vals) > 0 {
			m.roles[c.fn] = ro
		}
	}
	return m, true
}

func isBytesT(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func (m *emit) sorted() []*ssa.Function {
	var r []*ssa.Function
	for f := range m.roles {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return m.e.p.less(r[i], r[j]) })
	return r
}

// noError keeps the outcomes that report success.
func (e *Engine) noError(fn *ssa.Function, outs []Outcome) (r []Outcome) {
	ei := errIndex(fn)
	for _, o := range outs {
		if o.panic {
			continue
		}
		if ei >= 0 {
			c := e.nilCond(o.res[ei])
			if o.st.decide(c) == no {
				continue
			}
			o.st = o.st.clone()
			if !o.st.assume(c) {
				continue
			}
		}
		r = append(r, o)
	}
	return
}

// paths are the accepting paths of a writer.
func (m *emit) paths(fn *ssa.Function) (r []*emPath) {
	ro := m.roles[fn]
	outs, args, _ := m.e.runCut(m.e.cuts[fn])
	for _, o := range m.e.noError(fn, outs) {
		p := &emPath{fn: fn, o: o, st: o.st, args: args}
		r = append(r, p)
		s, ok := o.res[ro.res].(SliceV)
		if !ok {
			p.err = "the result is unknown"
			continue
		}
		p.out = s
		ps, why := m.flatten(p.st, s, nil)
		if why != "" {
			p.err = why
			continue
		}
		if len(ps) == 0 || ps[0].k != tStart || ps[0].v == nil || ps[0].v.ident != args[ro.buf].(SliceV).ident {
			p.err = "the result does not extend the buffer"
			continue
		}
		p.root, p.err = m.one(p.st, ps[1:])
	}
	return
}

// one parses pieces that must be exactly one item.
func (m *emit) one(st *State, ps []*piece) (*node, string) {
	q := &emParse{m: m, st: st, ps: ps}
	n := q.item(false)
	q.skip()
	if q.why == "" && q.i < len(q.ps) {
		q.why = "writes more than one item"
	}
	return n, q.why
}

// flatten lists what a slice consists of; the log of a slice that is built in
// a loop that is still going on starts at that loop.
func (m *emit) flatten(st *State, s SliceV, in *LoopCtx) ([]*piece, string) {
	toks := s.log.list()
	if len(toks) == 0 {
		return nil, "the buffer is not built in order"
	}
	var r []*piece
	if t := toks[0]; t.k == tLoopIn && t.loop != in {
		v := t.lv
		init, ok := v.init.(SliceV)
		if !ok {
			return nil, "the buffer is unknown before a loop"
		}
		pre, why := m.flatten(t.loop.pre, init, in)
		if why != "" {
			return nil, why
		}
		pl := &ploop{ctx: t.loop, v: v}
		for _, be := range t.loop.backs {
			b, ok := m.e.backVal(be, v, t.loop).(SliceV)
			if !ok {
				return nil, "the buffer is unknown after an iteration"
			}
			ps, why := m.flatten(be.st, b, t.loop)
			if why != "" {
				return nil, why
			}
			if len(ps) == 0 || ps[0].k != tLoopIn || ps[0].tok.loop != t.loop || ps[0].tok.lv != v {
				return nil, "an iteration does not extend the buffer"
			}
			pl.bodies = append(pl.bodies, &pbody{be: be, ps: ps[1:]})
		}
		r = append(pre, &piece{k: tLoop, at: init.skip.add(init.ln), loop: pl})
		toks = toks[1:]
	}
	for _, t := range toks {
		r = append(r, &piece{k: t.k, at: t.at, n: t.n, l: t.l, v: t.v, call: t.call, tok: t})
		if t.k == tUnk {
			return nil, "part of the buffer is unknown"
		}
	}
	return r, ""
}

type emParse struct {
	m   *emit
	st  *State
	ps  []*piece
	i   int
	why string
}

func (q *emParse) fail(f string, a ...interface{}) *node {
	if q.why == "" {
		q.why = fmt.Sprintf(f, a...)
	}
	return nil
}

func (q *emParse) zero(l Lin) bool { return q.m.w.same(q.st, l, constLin(0)) }

// skip passes over pieces without bytes.
func (q *emParse) skip() {
	for q.i < len(q.ps) {
		p := q.ps[q.i]
		if p.k == tLoop {
			for _, b := range p.loop.bodies {
				if len(b.ps) > 0 {
					return
				}
			}
		} else if p.k == tByte || p.k == tVarint || p.k == tItem || !q.zero(p.n) {
			return
		}
		q.i++
	}
}

func (q *emParse) next() *piece {
	q.skip()
	if q.i >= len(q.ps) {
		return nil
	}
	return q.ps[q.i]
}

func (q *emParse) str(l Lin) string {
	s := q.m.e.syms.str(q.st.norm(l))
	if len(s) > 80 {
		s = s[:80] + "..."
	}
	return s
}

// tagClass finds the tag a byte stands for.
func (m *emit) tagClass(st *State, l Lin) (int, bool) {
	l = st.norm(l)
	if l.isConst() {
		if l.c < 0 || l.c > 255 {
			return 0, false
		}
		return int(l.c & 0x7f), true
	}
	for _, c := range [][2]int64{{0, 15}, {16, 31}, {0x40, 0x4f}, {0x50, 0x5f}, {0x60, 0x7f}} {
		if st.entails(l.addc(-c[0])) && st.entails(constLin(c[1]).sub(l)) {
			return int(c[0]), true
		}
	}
	return 0, false
}

func (q *emParse) item(str bool) *node {
	p := q.next()
	if p == nil {
		return q.fail("an item is missing")
	}
	if p.k == tItem {
		if str {
			return q.fail("a string item is written as any value")
		}
		if p.call.fn == nil || q.m.roles[p.call.fn] == nil {
			return q.fail("%s does not write one item", p.call.name)
		}
		q.i++
		return &node{at: p.at, call: p.call, t: -1}
	}
	if p.k != tByte {
		return q.fail("there is no tag byte where an item starts (token %d)", p.k)
	}
	t, ok := q.m.tagClass(q.st, p.l)
	if !ok {
		return q.fail("the tag %s is not known to be one", q.str(p.l))
	}
	q.i++
	sp := wireTags[t]
	if t == tgPAD {
		n := q.item(str)
		if n != nil {
			n.pads++
		}
		return n
	}
	if sp.reject {
		return q.fail("writes the reserved tag %s", sp.name)
	}
	if str && !(stringTags[t]) {
		return q.fail("%s is written where a string item is expected", sp.name)
	}
	n := &node{at: p.at, tag: q.st.norm(p.l), t: t}
	for _, el := range sp.elems {
		switch el.k {
		case 'V':
			v := q.next()
			if v == nil || v.k != tVarint && v.k != tByte {
				return q.fail("%s is not followed by a varint", sp.name)
			}
			if v.k == tByte && !(q.st.entails(v.l) && q.st.entails(constLin(127).sub(v.l))) {
				return q.fail("%s is followed by a byte that is not a varint", sp.name)
			}
			n.num = v
			q.i++
		case 'B', 'N':
			want := constLin(el.n)
			if el.k == 'N' {
				want = n.num.l
			} else if t == 0x60 {
				want = n.tag.addc(-0x60)
			}
			n.paylen = want
			if !q.bytes(n, want) {
				return nil
			}
		case 'I', 'S':
			k := q.item(el.k == 'S')
			if k == nil {
				return nil
			}
			n.kids = append(n.kids, k)
		case 'R':
			want := n.tag.addc(int64(-t))
			if el.from == 'V' {
				want = n.num.l
			}
			if !q.repeat(n, el.rep, want) {
				return nil
			}
		}
		if q.why != "" {
			return nil
		}
	}
	return n
}

// bytes takes a payload.
func (q *emParse) bytes(n *node, want Lin) bool {
	acc := constLin(0)
	for !q.m.w.same(q.st, acc, want) {
		p := q.next()
		if p == nil {
			q.fail("the %s bytes of %s are not all written", q.str(want), wireTags[n.t].name)
			return false
		}
		switch p.k {
		case tByte, tBytes:
			acc = acc.add(p.n)
		case tLoop:
			c, ok := q.loopCount(p.loop, func(b *pbody) (int64, bool) {
				for _, x := range b.ps {
					if x.k != tByte {
						return 0, false
					}
				}
				return int64(len(b.ps)), true
			})
			if !ok {
				q.fail("the length of the payload of %s is not known", wireTags[n.t].name)
				return false
			}
			acc = acc.add(c)
		default:
			q.fail("the %s bytes of %s are not followed by the next item", q.str(want), wireTags[n.t].name)
			return false
		}
		n.pay = append(n.pay, p)
		q.i++
	}
	return true
}

// repeat takes want repetitions.
func (q *emParse) repeat(n *node, what string, want Lin) bool {
	left := want
	for !q.zero(left) {
		p := q.next()
		if p == nil {
			q.fail("%s declares %s elements, but %s are not written", wireTags[n.t].name, q.str(want), q.str(left))
			return false
		}
		if p.k != tLoop {
			var ks []*node
			for _, c := range what {
				k := q.item(c == 'S')
				if k == nil {
					return false
				}
				ks = append(ks, k)
			}
			n.reps = append(n.reps, &rep{items: ks, count: constLin(1)})
			left = left.addc(-1)
			continue
		}
		c, ok := q.loopCount(p.loop, func(b *pbody) (int64, bool) {
			s := &emParse{m: q.m, st: b.be.st, ps: b.ps}
			k := int64(0)
			b.items = nil
			for s.next() != nil {
				for _, c := range what {
					x := s.item(c == 'S')
					if x == nil {
						q.fail("%s", s.why)
						return 0, false
					}
					b.items = append(b.items, x)
				}
				k++
			}
			return k, true
		})
		if !ok {
			q.fail("the number of elements of %s written in a loop is not known", wireTags[n.t].name)
			return false
		}
		n.reps = append(n.reps, &rep{loop: p.loop, count: c})
		left = q.st.norm(left.sub(c))
		q.i++
	}
	return true
}

// loopCount is how much a loop wrote, given what each way through its body
// writes.
func (q *emParse) loopCount(l *ploop, size func(b *pbody) (int64, bool)) (Lin, bool) {
	var sz []int64
	for _, b := range l.bodies {
		k, ok := size(b)
		if !ok {
			return Lin{}, false
		}
		sz = append(sz, k)
	}
	if len(sz) == 0 {
		return constLin(0), true
	}
	e := q.m.e
	// a counter that moves in step
	for _, v := range l.ctx.vars {
		hd, ok1 := v.head.(IntV)
		in, ok2 := v.init.(IntV)
		if !ok1 || !ok2 {
			continue
		}
		dir, ok := int64(0), true
		for i, b := range l.bodies {
			bv, isInt := e.backVal(b.be, v, l.ctx).(IntV)
			if !isInt {
				ok = false
				break
			}
			d := b.be.st.norm(bv.l.sub(hd.l))
			if !d.isConst() || abs64(d.c) != sz[i] || sz[i] == 0 || dir != 0 && (d.c > 0) != (dir > 0) {
				ok = false
				break
			}
			dir = d.c
		}
		if !ok || dir == 0 {
			continue
		}
		n := hd.l.sub(in.l)
		if dir < 0 {
			n = n.neg()
		}
		return q.st.norm(n), true
	}
	// a counter that moves by one, each iteration writing the same amount
	same := true
	for _, k := range sz {
		same = same && k == sz[0]
	}
	if same && sz[0] > 0 {
		for _, v := range l.ctx.vars {
			hd, ok1 := v.head.(IntV)
			in, ok2 := v.init.(IntV)
			if !ok1 || !ok2 {
				continue
			}
			step, ok := int64(0), true
			for _, b := range l.bodies {
				bv, isInt := e.backVal(b.be, v, l.ctx).(IntV)
				if !isInt {
					ok = false
					break
				}
				d := b.be.st.norm(bv.l.sub(hd.l))
				if !d.isConst() || d.c != 1 && d.c != -1 || step != 0 && d.c != step {
					ok = false
					break
				}
				step = d.c
			}
			if !ok || step == 0 {
				continue
			}
			n := hd.l.sub(in.l)
			if step < 0 {
				n = n.neg()
			}
			r := constLin(0)
			for i := int64(0); i < sz[0]; i++ {
				r = r.add(n)
			}
			return q.st.norm(r), true
		}
	}
	// an iteration over a whole map
	if !same || sz[0] != 1 || !leftAtHead(q.st, l.ctx) {
		return Lin{}, false
	}
	mp, ok := rangedMap(q.m, l)
	if !ok {
		return iterCount(q.m, q.st, l)
	}
	return e.mapLen(l.ctx.pre, mp), true
}

// rangedMap is the map a loop ranges over: one step per iteration, and the map does
// not change.
func rangedMap(m *emit, l *ploop) (Opq, bool) {
	var mp Opq
	for i, b := range l.bodies {
		n := nexts(b.be.st, l.ctx)
		if len(n) != 1 {
			return mp, false
		}
		it, ok := n[0].val.(Opq)
		if !ok {
			return mp, false
		}
		tm := m.e.terms[it.s]
		if tm.op != "range" {
			return mp, false
		}
		x, ok := tm.args[0].(Opq)
		if !ok || i > 0 && x.s != mp.s {
			return mp, false
		}
		mp = x
		a, b, c := m.e.mapLen(l.ctx.pre, x), m.e.mapLen(l.ctx.head, x), m.e.mapLen(b.be.st, x)
		if !a.eq(b) || !a.eq(c) {
			return mp, false
		}
	}
	return mp, true
}

// iterCount is the number of rounds of a loop that goes over a whole map with an
// iterator.
func iterCount(m *emit, st *State, l *ploop) (Lin, bool) {
	var it string
	next := func(st *State, from *LoopCtx) (r []*CallEv) {
		for ev := st.ev; ev != nil && !(from != nil && ev.k == evLoopIn && ev.loop == from); ev = ev.prev {
			if ev.k == evCall && ev.call.name == "(*reflect.MapIter).Next" {
				r = append(r, ev.call)
			}
		}
		return
	}
	for i, b := range l.bodies {
		n := next(b.be.st, l.ctx)
		if len(n) != 1 || i > 0 && valKey(n[0].args[0]) != it {
			return Lin{}, false
		}
		it = valKey(n[0].args[0])
	}
	for _, c := range next(l.ctx.pre, nil) {
		if valKey(c.args[0]) == it {
			return Lin{}, false
		}
	}
	for _, c := range m.calls(l.ctx.pre) {
		if c.name == "(reflect.Value).MapRange" && valKey(c.res[0]) == it {
			// as many as it has elements
			if s, ok := m.e.syms.byKey["rlen("+valKey(c.args[0])+")"+m.e.reflectEpoch(l.ctx.pre)]; ok {
				return symLin(s), true
			}
			for _, d := range m.calls(l.ctx.pre) {
				if d.name == "(reflect.Value).Len" && m.canon(l.ctx.pre, d.args[0]) == m.canon(l.ctx.pre, c.args[0]) {
					return m.e.lin(d.res[0]), true
				}
			}
		}
	}
	return Lin{}, false
}

// nexts are the steps of a range statement in the current iteration.
func nexts(st *State, ctx *LoopCtx) (r []*Ev) {
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k == evLoopIn && ev.loop == ctx {
			break
		}
		if ev.k == evNote && ev.name == "next" {
			r = append(r, ev)
		}
	}
	return
}

// leftAtHead: the path left the loop because its condition failed.
func leftAtHead(st *State, ctx *LoopCtx) bool {
	for ev := st.ev; ev != nil; ev = ev.prev {
		if ev.k == evLoopOut && ev.loop == ctx {
			return ev.name == blockName(ctx.lp.head)
		}
	}
	return false
}

// walk visits the items of a tree with the state they are written in.
func (n *node) walk(st *State, f func(st *State, n *node, up *node)) { n.walk1(st, nil, f) }

func (n *node) walk1(st *State, up *node, f func(st *State, n, up *node)) {
	f(st, n, up)
	for _, k := range n.kids {
		k.walk1(st, n, f)
	}
	for _, r := range n.reps {
		for _, k := range r.items {
			k.walk1(st, n, f)
		}
		if r.loop != nil {
			for _, b := range r.loop.bodies {
				for _, k := range b.items {
					k.walk1(b.be.st, n, f)
				}
			}
		}
	}
}

func (m *emit) show(st *State, n *node) string {
	if n == nil {
		return "?"
	}
	if n.call != nil {
		var as []string
		for _, i := range m.roles[n.call.fn].vals {
			as = append(as, m.w.short(st, n.call.args[i]))
		}
		return "item(" + strings.Join(as, ",") + ")"
	}
	s := wireTags[n.t].name
	if !n.tag.isConst() {
		s += "<" + m.e.syms.str(n.tag) + ">"
	}
	if n.num != nil {
		x := m.e.syms.str(st.norm(n.num.l))
		if len(x) > 60 {
			x = x[:60] + ".."
		}
		s += "(" + x + ")"
	}
	var ks []string
	for _, p := range n.pay {
		switch {
		case p.k == tByte:
			ks = append(ks, m.e.syms.str(st.norm(p.l)))
		case p.v != nil:
			ks = append(ks, valKey(*p.v))
		}
	}
	for _, k := range n.kids {
		ks = append(ks, m.show(st, k))
	}
	for _, r := range n.reps {
		for _, k := range r.items {
			ks = append(ks, m.show(st, k))
		}
		if r.loop != nil {
			for _, b := range r.loop.bodies {
				var xs []string
				for _, k := range b.items {
					xs = append(xs, m.show(b.be.st, k))
				}
				ks = append(ks, "loop*"+m.e.syms.str(st.norm(r.count))+"("+strings.Join(xs, " ")+")")
			}
		}
	}
	if len(ks) > 0 {
		s += "[" + strings.Join(ks, " ") + "]"
	}
	return s
}

func dumpEmit(variant string) {
	p, err := load(variant)
	if err != nil {
		fmt.Println(err)
		return
	}
	m, ok := newEmit(p, newReport("x"))
	if !ok {
		return
	}
	for _, fn := range m.sorted() {
		ps := m.paths(fn)
		fmt.Println(fname(fn), len(ps))
		for _, p := range ps {
			fmt.Println("  ", m.e.pos(p.o.at), p.err, m.show(p.st, p.root))
			if os.Getenv("SRL_EV") != "" && strings.Contains(m.show(p.st, p.root), os.Getenv("SRL_EV")) {
				m.dumpEvs(p)
			}
		}
	}
}

func (m *emit) dumpEvs(p *emPath) {
	for _, ev := range p.st.ev.list() {
		switch ev.k {
		case evCall:
			fmt.Print("      call ", ev.call.name)
			for _, a := range ev.call.args {
				fmt.Print(" ", m.w.short(p.st, a))
			}
			fmt.Print(" ->")
			for _, a := range ev.call.res {
				fmt.Print(" ", m.w.short(p.st, a))
			}
			fmt.Println()
		case evStore:
			fmt.Println("      store", valKey(ev.ptr), m.w.short(p.st, ev.val))
		case evMapGet:
			fmt.Println("      get", m.w.short(p.st, ev.m), m.w.short(p.st, ev.x), m.w.short(p.st, ev.val), p.st.decide(ev.ok))
		case evMapSet:
			fmt.Println("      set", m.w.short(p.st, ev.m), m.w.short(p.st, ev.x), m.w.short(p.st, ev.val))
		case evLoopIn, evLoopOut:
			fmt.Println("      loop", ev.k == evLoopIn, ev.loop.site)
		}
	}
}

func (m *emit) dumpIDs(fn *ssa.Function) {
	outs, _, _ := m.e.runCut(m.e.cuts[fn])
	for _, o := range outs {
		for _, r := range o.res {
			if s, ok := r.(StructV); ok {
				for _, f := range s.f {
					fmt.Print("  | ", m.w.short(o.st, f))
					if i, ok := f.(IntV); ok {
						if x, ok := i.l.single(); ok {
							fmt.Print(" ", m.e.syms.name(x), " op=", m.e.terms[x].op)
						}
					}
				}
				fmt.Println()
			}
		}
	}
}
