package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The wire grammar, from sereal_spec.pod: what follows each tag byte.
// V varint, B fixed bytes, N bytes counted by the last varint, T bytes counted
// by the tag, I item, S string item, R repetitions.

type elem struct {
	k    byte
	n    int64  // B: how many
	rep  string // R: the repeated items
	from byte   // R: count from V or T
}

type tagSpec struct {
	name   string
	elems  []elem
	reject bool // this implementation documents no support for it
	count  int64
}

const (
	tgVARINT = 0x20 + iota
	tgZIGZAG
	tgFLOAT
	tgDOUBLE
	tgLONGDOUBLE
	tgUNDEF
	tgBINARY
	tgSTRUTF8
	tgREFN
	tgREFP
	tgHASH
	tgARRAY
	tgOBJECT
	tgOBJECTV
	tgALIAS
	tgCOPY
	tgWEAKEN
	tgREGEXP
	tgOBJECTFREEZE
	tgOBJECTVFREEZE
)
const (
	tgCANONUNDEF = 0x39
	tgFALSE      = 0x3a
	tgTRUE       = 0x3b
	tgPAD        = 0x3f
)

var wireTags = func() (w [128]tagSpec) {
	for i := range w {
		w[i] = tagSpec{name: fmt.Sprintf("RESERVED_%02x", i), reject: true}
	}
	set := func(t int, name string, els ...elem) { w[t] = tagSpec{name: name, elems: els} }
	v, it, st := elem{k: 'V'}, elem{k: 'I'}, elem{k: 'S'}
	for i := 0; i < 16; i++ {
		set(i, fmt.Sprintf("POS_%d", i))
		set(16+i, fmt.Sprintf("NEG_%d", 16-i))
		set(0x40+i, fmt.Sprintf("ARRAYREF_%d", i), elem{k: 'R', rep: "I", from: 'T'})
		set(0x50+i, fmt.Sprintf("HASHREF_%d", i), elem{k: 'R', rep: "SI", from: 'T'})
		w[0x40+i].count, w[0x50+i].count = int64(i), int64(i)
	}
	for i := 0; i < 32; i++ {
		set(0x60+i, fmt.Sprintf("SHORT_BINARY_%d", i), elem{k: 'B', n: int64(i)})
	}
	set(tgVARINT, "VARINT", v)
	set(tgZIGZAG, "ZIGZAG", v)
	set(tgFLOAT, "FLOAT", elem{k: 'B', n: 4})
	set(tgDOUBLE, "DOUBLE", elem{k: 'B', n: 8})
	set(tgUNDEF, "UNDEF")
	set(tgCANONUNDEF, "CANONICAL_UNDEF")
	set(tgFALSE, "FALSE")
	set(tgTRUE, "TRUE")
	set(tgBINARY, "BINARY", v, elem{k: 'N'})
	set(tgSTRUTF8, "STR_UTF8", v, elem{k: 'N'})
	set(tgREFN, "REFN", it)
	set(tgREFP, "REFP", v)
	set(tgALIAS, "ALIAS", v)
	set(tgCOPY, "COPY", v)
	set(tgHASH, "HASH", v, elem{k: 'R', rep: "SI", from: 'V'})
	set(tgARRAY, "ARRAY", v, elem{k: 'R', rep: "I", from: 'V'})
	set(tgOBJECT, "OBJECT", st, it)
	set(tgOBJECTV, "OBJECTV", v, it)
	set(tgOBJECTFREEZE, "OBJECT_FREEZE", st, it)
	set(tgOBJECTVFREEZE, "OBJECTV_FREEZE", v, it)
	set(tgWEAKEN, "WEAKEN", it)
	set(tgREGEXP, "REGEXP", st, st)
	w[tgPAD] = tagSpec{name: "PAD", elems: []elem{it}}
	return
}()

var stringTags = map[int]bool{tgBINARY: true, tgSTRUTF8: true, tgCOPY: true}

func init() {
	for i := 0x60; i < 0x80; i++ {
		stringTags[i] = true
	}
}

// ---------------------------------------------------------------- chains

// wstep is one piece of input consumed on a path.
type wstep struct {
	k      byte // V, I, S, R (a loop), C (counted repetition by a call), P (padding)
	at     Lin
	end    Lin
	n      Lin // V: the value; C: the count
	call   *CallEv
	ev     *Ev
	loop   *LoopCtx
	jumps  []*wstep   // R: reads in the body that are not next in line
	body   [][]*wstep // R: what each way through the body consumes
	counts []wcount
	rep    string // C
}

type wcount struct {
	v    *loopVar
	step int64
}

// wchain is what a path consumes, in order.
type wchain struct {
	steps []*wstep
	tag   Lin // position of the tag byte
	state int // 0: no tag, 1: before the tag, 2: after it
	cur   Lin
	jumps []*wstep // calls at positions that are not next in line
	err   string
	errAt ssa.Instruction
}

type wireRole struct {
	role  byte // I, S, C
	rep   string
	buf   int
	pos   int
	res   int
	count int
	typed bool
}

type wire struct {
	e     *Engine
	roles map[*ssa.Function]*wireRole
	first map[string]bool
}

// base position of a slice relative to the buffer.
func (w *wire) rel(buf, s SliceV) (Lin, bool) {
	if buf.base != s.base {
		return Lin{}, false
	}
	return s.off.sub(buf.off), true
}

func (w *wire) same(st *State, a, b Lin) bool {
	d := st.norm(a.sub(b))
	if d.isConst() {
		return d.c == 0
	}
	return st.entails(d) && st.entails(d.neg())
}

// parse follows the events of a path from position cur.
func (w *wire) parse(st *State, evs []*Ev, buf SliceV, cur Lin, tagged bool) *wchain {
	ch := &wchain{cur: cur, tag: cur}
	if tagged {
		ch.state = 1
	}
	take := func(s *wstep) {
		if !s.isPadLoop() && ch.state == 1 {
			ch.state = 3 // no tag byte was read before the rest
		}
		ch.steps = append(ch.steps, s)
		ch.cur = s.end
		if ch.state == 1 {
			ch.tag = ch.cur
		}
	}
	for i := 0; i < len(evs); i++ {
		ev := evs[i]
		switch ev.k {
		case evCall:
			s := w.stepOf(ev, buf)
			if s == nil {
				continue
			}
			s.ev = ev
			if w.same(st, s.at, ch.cur) {
				take(s)
			} else if ch.state == 1 && w.same(st, s.at, ch.cur.addc(1)) {
				ch.state, ch.cur = 2, ch.cur.addc(1)
				take(s)
			} else {
				ch.jumps = append(ch.jumps, s)
			}
		case evLoopIn:
			s := w.loopStep(ev, buf, ch.cur)
			if s != nil && s.k == '!' && ch.state == 1 {
				if s2 := w.loopStep(ev, buf, ch.cur.addc(1)); s2 != nil && s2.k != '!' {
					ch.state, ch.cur = 2, ch.cur.addc(1)
					s = s2
				}
			}
			if s == nil {
				continue // nothing is consumed
			}
			if s.k == '!' {
				ch.err = "the loop reads the document in an unrecognised way"
				ch.errAt = ev.loop.site
				return ch
			}
			ch.jumps = append(ch.jumps, s.jumps...)
			take(s)
		}
	}
	if ch.state == 1 {
		ch.state, ch.cur = 2, ch.cur.addc(1)
	}
	return ch
}

// stepOf translates a call that consumes input; nil if it does not.
func (w *wire) stepOf(ev *Ev, buf SliceV) *wstep {
	c := ev.call
	if c.name == "varint" {
		s, ok := c.args[0].(SliceV)
		if !ok {
			return nil
		}
		p, ok := w.rel(buf, s)
		if !ok || len(c.res) < 3 || !isNilConst(c.res[2]) {
			return nil
		}
		return &wstep{k: 'V', at: p, end: p.add(w.e.lin(c.res[1])), n: w.e.lin(c.res[0]), call: c}
	}
	r := w.roles[c.fn]
	if r == nil || !c.good {
		return nil
	}
	s, ok := c.args[r.buf].(SliceV)
	if !ok {
		return nil
	}
	o, ok := w.rel(buf, s)
	if !ok {
		return nil
	}
	x := &wstep{k: r.role, at: o.add(w.e.lin(c.args[r.pos])), end: o.add(w.e.lin(c.res[r.res])), call: c}
	if r.role == 'C' {
		x.n = w.e.lin(c.args[r.count])
		x.rep = r.rep
	}
	return x
}

func suffixAfter(evs []*Ev, x *Ev) []*Ev {
	for i, e := range evs {
		if e == x {
			return evs[i+1:]
		}
	}
	return nil
}

// loopStep determines what the iterations of a loop consume.
func (w *wire) loopStep(ev *Ev, buf SliceV, cur Lin) *wstep {
	ctx := ev.loop
	e := w.e
	var counts []wcount
	for _, v := range ctx.vars {
		if _, ok := v.head.(IntV); !ok || !isInt(v.t) {
			continue
		}
		var step int64
		ok := len(ctx.backs) > 0
		for i, be := range ctx.backs {
			b, isI := e.backVal(be, v, ctx).(IntV)
			if !isI {
				ok = false
				break
			}
			d := be.st.norm(b.l.sub(e.lin(v.head)))
			if !d.isConst() || i > 0 && d.c != step {
				ok = false
				break
			}
			step = d.c
		}
		if ok && (step == 1 || step == -1) {
			counts = append(counts, wcount{v, step})
		}
	}
	try := func(head, d Lin, v *loopVar) (*wstep, bool) {
		s := &wstep{k: 'R', at: cur, end: head.add(d), loop: ctx, counts: counts, ev: ev}
		moved := false
		for _, be := range ctx.backs {
			ch := w.parse(be.st, suffixAfter(be.st.ev.list(), ev), buf, head.add(d), false)
			if ch.err != "" || len(ch.jumps) > 0 && v == nil && len(ch.steps) == 0 {
				return nil, false
			}
			end := cur
			if v != nil {
				b, ok := e.backVal(be, v, ctx).(IntV)
				if !ok {
					return nil, false
				}
				end = b.l.add(d)
			}
			if !w.same(be.st, end, ch.cur) {
				// padding?
				if len(ch.steps) > 0 || len(ch.jumps) > 0 || !w.same(be.st, end, ch.cur.addc(1)) || !w.isPad(be.st, buf, ch.cur) {
					return nil, false
				}
				ch.steps = append(ch.steps, &wstep{k: 'P', at: ch.cur, end: end})
			}
			if len(ch.steps) > 0 {
				moved = true
			}
			s.jumps = append(s.jumps, ch.jumps...)
			s.body = append(s.body, ch.steps)
		}
		return s, moved
	}
	for _, v := range ctx.vars {
		hi, ok := v.head.(IntV)
		ii, ok2 := v.init.(IntV)
		if !ok || !ok2 || !isInt(v.t) || isByte(v.t) {
			continue
		}
		d := cur.sub(ii.l)
		if s, moved := try(hi.l, d, v); s != nil && moved {
			return s
		}
	}
	if s, moved := try(cur, Lin{}, nil); s != nil && !moved {
		return nil
	}
	return &wstep{k: '!'}
}

// isPad: the byte at a position can only be padding.
func (w *wire) isPad(st *State, buf SliceV, pos Lin) bool {
	d := st.domOf(w.byteAt(st, buf, pos))
	ms := d.members()
	for _, m := range ms {
		if m&0x7f != tgPAD {
			return false
		}
	}
	return len(ms) > 0
}

func (w *wire) byteAt(st *State, buf SliceV, pos Lin) Sym {
	return w.e.byteSym(buf.base, st.ver[buf.base], st.norm(buf.off.add(pos)))
}

func (s *wstep) isPadLoop() bool {
	if s.k != 'R' || len(s.body) == 0 {
		return false
	}
	for _, b := range s.body {
		if len(b) != 1 || b[0].k != 'P' {
			return false
		}
	}
	return true
}

func (ch *wchain) String() string { return stepsStr(ch.steps) }

func stepsStr(ss []*wstep) string {
	var r []string
	for _, s := range ss {
		x := string(s.k)
		switch s.k {
		case 'R':
			var b []string
			for _, y := range s.body {
				b = append(b, stepsStr(y))
			}
			x = "{" + strings.Join(b, "|") + "}*"
		case 'C':
			x = "{" + s.rep + "}*"
		}
		r = append(r, x)
	}
	return strings.Join(r, " ")
}

// ---------------------------------------------------------------- roles

// bufParam finds the document and position parameters of a function.
func bufParam(fn *ssa.Function) (buf, pos, res int, ok bool) {
	buf, pos, res = -1, -1, -1
	for i, p := range fn.Params {
		if buf < 0 && isByteSlice(p.Type()) {
			buf = i
		} else if buf >= 0 && pos < 0 && isBasic(p.Type(), types.Int) {
			pos = i
		}
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if res < 0 && isBasic(rs.At(i).Type(), types.Int) {
			res = i
		}
	}
	return buf, pos, res, buf >= 0 && pos >= 0 && res >= 0 && errIndex(fn) >= 0
}

// wirePath is one way through a function that reads the document.
type wirePath struct {
	o    Outcome
	ch   *wchain
	pads int // leading padding loops
	tag  Lin // position after leading padding
	ok   bool
	err  Value
	res  Lin
	args []Value
	buf  SliceV
}

// paths runs a function under contract and follows its consumption.
func (w *wire) paths(c *Contract, r *wireRole) []*wirePath {
	outs, args, _ := w.e.runCut(c)
	return w.follow(outs, args, r, errIndex(c.fn))
}

func (w *wire) follow(outs []Outcome, args []Value, r *wireRole, ei int) []*wirePath {
	buf := args[r.buf].(SliceV)
	start := w.e.lin(args[r.pos])
	var ps []*wirePath
	for _, o := range outs {
		p := &wirePath{o: o, args: args, buf: buf}
		ps = append(ps, p)
		p.ch = w.parse(o.st, o.st.ev.list(), buf, start, r.role != 'C')
		p.tag = p.ch.tag
		for p.pads < len(p.ch.steps) && p.ch.steps[p.pads].isPadLoop() {
			p.pads++
		}
		if o.panic {
			continue
		}
		p.err = o.res[ei]
		p.ok = o.st.decide(w.e.nilCond(p.err)) != no
		p.res = w.e.lin(o.res[r.res])
	}
	return ps
}

// tags is the set of tag bytes a path is taken for.
func (w *wire) tags(p *wirePath) dset {
	return p.o.st.domOf(w.e.byteSym(p.buf.base, 0, p.o.st.norm(p.buf.off.add(p.tag))))
}

// assign determines the role of every function under contract that reads
// documents.
func (w *wire) assign() {
	for _, c := range w.e.cutList() {
		b, p, res, ok := bufParam(c.fn)
		if !ok {
			continue
		}
		w.roles[c.fn] = &wireRole{role: '?', buf: b, pos: p, res: res, count: -1}
	}
	for _, c := range w.e.cutList() {
		r := w.roles[c.fn]
		if r == nil {
			continue
		}
		split, item := false, false
		for _, p := range w.paths(c, r) {
			if p.o.panic || !p.ok {
				continue
			}
			d := w.tags(p)
			if len(d.members()) < 200 {
				split = true
				if d.has(tgTRUE) || d.has(tgREFN) {
					item = true
				}
			}
		}
		switch {
		case split && item:
			r.role = 'I'
		case split:
			r.role = 'S'
		default:
			r.role, r.rep = 'C', "?"
			// the count is the integer parameter after the position
			for i := r.pos + 1; i < len(c.fn.Params); i++ {
				if isBasic(c.fn.Params[i].Type(), types.Int) {
					r.count = i
					break
				}
			}
		}
		for _, q := range c.fn.Params {
			if isReflectValue(q.Type()) {
				r.typed = true
			}
		}
	}
	// what counted functions repeat
	for _, c := range w.e.cutList() {
		r := w.roles[c.fn]
		if r == nil || r.role != 'C' {
			continue
		}
		for _, rep := range []string{"SI", "I", "S"} {
			r.rep = rep
			good := r.count >= 0
			for _, p := range w.paths(c, r) {
				if p.o.panic || !p.ok {
					continue
				}
				if why := w.matchCount(p, r); why != "" {
					good = false
				}
			}
			if good {
				break
			}
			r.rep = "?"
		}
	}
}

func (w *wire) matchCount(p *wirePath, r *wireRole) string {
	if p.ch.err != "" {
		return p.ch.err
	}
	els := []elem{{k: 'R', rep: r.rep, from: 'X'}}
	return w.match(p.o.st, p.ch.steps, els, tagSpec{}, w.e.lin(p.args[r.count]), p.ch.cur, p.res)
}

// match compares what a path consumed with the grammar.
func (w *wire) match(st *State, steps []*wstep, els []elem, sp tagSpec, cnt Lin, cur, res Lin) string {
	i := 0
	var lastV Lin
	haveV := false
	tail := constLin(0)
	for _, el := range els {
		switch el.k {
		case 'V', 'I', 'S':
			if i >= len(steps) || steps[i].k != el.k && !(el.k == 'I' && steps[i].k == 'D') {
				got := "nothing"
				if i < len(steps) {
					got = stepsStr(steps[i : i+1])
				}
				return fmt.Sprintf("reads %s where the specification has %s", got, elemName(el.k))
			}
			if el.k == 'V' {
				lastV, haveV = steps[i].n, true
			}
			i++
		case 'B':
			tail = tail.addc(el.n)
		case 'N':
			tail = tail.add(lastV)
		case 'R':
			want := cnt
			if el.from == 'T' {
				want = constLin(sp.count)
			} else if el.from == 'V' {
				want = lastV
				if !haveV {
					return "no count was read"
				}
			}
			n, j, why := w.matchRep(st, steps[i:], el.rep, want)
			if why != "" {
				return why
			}
			if !n {
				return fmt.Sprintf("the number of repetitions of %s is not the declared count", el.rep)
			}
			i += j
		}
	}
	if i < len(steps) {
		return "also reads " + stepsStr(steps[i:])
	}
	if !w.same(st, cur.add(tail), res) {
		return fmt.Sprintf("ends %s bytes after the part read, not %s", w.e.syms.str(st.norm(res.sub(cur))), w.e.syms.str(st.norm(tail)))
	}
	return ""
}

func elemName(k byte) string {
	switch k {
	case 'V':
		return "a varint"
	case 'I':
		return "an item"
	case 'S':
		return "a string"
	}
	return string(k)
}

// matchRep matches repetitions of rep and reports whether there are want.
func (w *wire) matchRep(st *State, steps []*wstep, rep string, want Lin) (bool, int, string) {
	// possible counts: sums over the alternatives of loop counters
	sums := []Lin{constLin(0)}
	i := 0
	for i < len(steps) {
		s := steps[i]
		switch {
		case s.k == 'R' && !s.isPadLoop():
			for _, b := range s.body {
				if flat(b) != rep {
					return false, i, fmt.Sprintf("an iteration reads %q, not %q", flat(b), rep)
				}
			}
			var next []Lin
			for _, c := range s.counts {
				k := w.e.lin(c.v.head).sub(w.e.lin(c.v.init))
				if c.step < 0 {
					k = k.neg()
				}
				for _, x := range sums {
					next = append(next, x.add(k))
				}
			}
			if len(s.body) == 0 {
				next = append(next, sums...)
			}
			sums = next
			i++
		case s.k == 'C' && s.rep == rep:
			for j := range sums {
				sums[j] = sums[j].add(s.n)
			}
			i++
		default:
			if i+len(rep) <= len(steps) && flat(steps[i:i+len(rep)]) == rep {
				for j := range sums {
					sums[j] = sums[j].addc(1)
				}
				i += len(rep)
				continue
			}
			goto done
		}
	}
done:
	for _, x := range sums {
		if w.same(st, x, want) {
			return true, i, ""
		}
	}
	return false, i, ""
}

func flat(ss []*wstep) string {
	r := ""
	for _, s := range ss {
		if s.isPadLoop() {
			continue
		}
		r += string(s.k)
	}
	return r
}

// newWire prepares the analysis of the functions reachable from entries.
func newWire(p *Program, r *Report, names []string) (*wire, bool) {
	e := newEngine(p)
	e.light = true
	if _, ok := e.analyse(r, names); !ok {
		return nil, false
	}
	w := &wire{e: e, roles: map[*ssa.Function]*wireRole{}}
	w.assign()
	return w, true
}

func (w *wire) sortedRoles() []*ssa.Function {
	var r []*ssa.Function
	for f := range w.roles {
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool { return w.e.p.less(r[i], r[j]) })
	return r
}
