package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LoopCtx is one abstract execution of a loop: a generic iteration.
type LoopCtx struct {
	lp    *loop
	it    *item
	fn    *ssa.Function
	vars  []*loopVar
	backs []backEdge
	exits []loopExit
	pre   *State // state at entry
	preEv *Ev
	head  *State // generic state at the head, before the iteration
	site  ssa.Instruction
	inv   []string
	dry   []backEdge // back edges of the last trial iteration
	atEnd []bound    // what holds when the loop has run to its end
	pool  []Lin      // quantities the loop does not change
}

type loopExit struct {
	pred *ssa.BasicBlock
	st   *State
}

type backEdge struct {
	st   *State
	vals []Value
}

// loopVar is a quantity that changes from iteration to iteration.
type loopVar struct {
	name  string
	t     types.Type
	phi   *ssa.Phi // or
	ptr   PtrV     // a memory cell
	init  Value
	head  Value
	peers []*loopVar
	back  Value // at the back edge under consideration
}

// intVar is an integer component of a loop variable.
type intVar struct {
	name string
	init Lin
	head Lin
	get  func(v Value) (Lin, bool)
	v    *loopVar
}

type loopCand struct {
	name string
	dead bool
	// fact over head values (l >= 0), with the same shape over inits and backs
	lin func(get func(iv *intVar) (Lin, bool)) (Lin, bool)
	// other facts
	kind string
	v    *loopVar
	m    Opq
	k    int64
}

func (lc *LoopCtx) varOf(phi *ssa.Phi) *loopVar {
	for _, v := range lc.vars {
		if v.phi == phi {
			return v
		}
	}
	return nil
}

// warmLoop is what an earlier analysis of a loop found out.
type warmLoop struct {
	dead   map[string]bool
	epochs map[string]bool
	clob   map[*Obj]bool
	cells  []*loopVar
}

// smallLoop reports whether the loop counts between small constants, so that
// it is simplest to unroll it.
func (e *Engine) smallLoop(fr *Frame, it *item, lp *loop) bool {
	b := lp.head
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var limit int64
	if lim, ok := cmp.Y.(*ssa.Const); ok {
		if lim.Value == nil || !isInt(lim.Type()) || lim.Int64() > 40 || lim.Int64() < -1 {
			return false
		}
		limit = lim.Int64()
	} else {
		// the length of a short list
		in, ok := cmp.Y.(*ssa.Call)
		if !ok || lp.blocks[in.Block()] || it.unrolled[b] {
			return false
		}
		n, ok := e.val(fr, it, in).(IntV)
		if !ok {
			return false
		}
		l := it.st.norm(n.l)
		if !l.isConst() || l.c < 1 || l.c > 4 {
			return false
		}
		limit = l.c
	}
	// the counter, or the counter after the step
	phi, ok := cmp.X.(*ssa.Phi)
	if add, isAdd := cmp.X.(*ssa.BinOp); isAdd {
		phi, ok = add.X.(*ssa.Phi)
		if c, isC := add.Y.(*ssa.Const); !isC || add.Op != token.ADD || c.Value == nil || c.Int64() != 1 {
			return false
		}
	}
	if !ok || phi.Block() != b {
		return false
	}
	up := token.ADD
	switch cmp.Op {
	case token.LSS, token.LEQ:
	case token.GTR, token.GEQ:
		up = token.SUB
	default:
		if limit < 0 {
			return false
		}
	}
	for i, p := range b.Preds {
		if p == it.pred {
			l, isc := e.val(fr, it, phi.Edges[i]).(IntV)
			if !isc || !l.l.isConst() || l.l.c < -1 || l.l.c > 40 {
				return false
			}
			continue
		}
		add, ok := phi.Edges[i].(*ssa.BinOp)
		if !ok || add.Op != up || add.X != ssa.Value(phi) {
			return false
		}
		if c, ok := add.Y.(*ssa.Const); !ok || c.Value == nil || c.Int64() < 1 {
			return false
		}
	}
	return true
}

// enterLoop replaces the loop's variables by unknowns constrained by inferred
// invariants; the item then executes a generic iteration.
func (e *Engine) enterLoop(fr *Frame, it *item, lp *loop) bool {
	b := lp.head
	if e.smallLoop(fr, it, lp) || it.unrolled[b] {
		if it.counts == nil {
			it.counts = map[*ssa.BasicBlock]int{}
		}
		if it.unrolled == nil {
			it.unrolled = map[*ssa.BasicBlock]bool{}
		} else {
			m := map[*ssa.BasicBlock]bool{}
			for k, v := range it.unrolled {
				m[k] = v
			}
			it.unrolled = m
		}
		it.unrolled[b] = true
		it.counts[b]++
		if it.counts[b] > 64 {
			e.fail("loop at %s exceeds the unrolling bound", e.pos(b.Instrs[0]))
			return false
		}
		e.evalPhis(fr, it)
		return true
	}
	pre := it.st
	ctx := &LoopCtx{lp: lp, it: it, fn: fr.fn, pre: pre, preEv: pre.ev}
	for _, in := range b.Instrs {
		if in.Pos() != token.NoPos {
			ctx.site = in
			break
		}
	}
	if ctx.site == nil {
		ctx.site = b.Instrs[0]
	}
	pi := predIndex(b, it.pred)
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var init Value
		if pi >= 0 {
			init = e.val(fr, it, phi.Edges[pi])
		}
		ctx.vars = append(ctx.vars, &loopVar{name: phi.Comment + "." + phi.Name(), t: phi.Type(), phi: phi, init: init})
	}
	pool, with := e.boundPool(fr, it, lp)
	ctx.pool = pool
	startObjs := e.objs

	var cells []*loopVar
	clob := map[*Obj]bool{}
	epochs := map[string]bool{}
	dead := map[string]bool{}
	// what was found not to be invariant in an earlier run of the same function
	// is not tried again
	var warm *warmLoop
	if len(lp.blocks) >= 20 {
		key := fmt.Sprintf("%s|%s|%d", e.entry, fname(fr.fn), b.Index)
		if warm = e.warm[key]; warm == nil {
			warm = &warmLoop{dead: map[string]bool{}, clob: map[*Obj]bool{}, epochs: map[string]bool{}}
			e.warm[key] = warm
		}
		for k := range warm.dead {
			dead[k] = true
		}
		for k := range warm.epochs {
			epochs[k] = true
		}
		for o := range warm.clob {
			clob[o] = true
		}
		for _, c := range warm.cells {
			cells = append(cells, &loopVar{name: c.name, t: c.t, ptr: c.ptr})
		}
	}
	rounds := 0
	var cands []*loopCand
	for {
		rounds++
		if rounds > 40 {
			e.fail("loop invariants at %s do not stabilise", e.pos(ctx.site))
			return false
		}
		all := append(append([]*loopVar(nil), phisOf(ctx.vars)...), cells...)
		for _, v := range all {
			if v.phi == nil {
				v.init = e.load(pre, v.ptr, v.t)
			}
		}
		h := it.clone()
		e.havocHead(fr, h, ctx, all, clob, epochs, dead, rounds)
		cands = e.loopCands(fr, ctx, all, pool, with, dead, pre)
		for _, c := range cands {
			if c.kind != "bound" {
				e.assumeCand(h.st, c)
			}
		}
		ctx.vars = all
		for _, v := range all {
			v.peers = all
		}
		ev := &Ev{k: evLoopIn, loop: ctx, fn: fr.fn}
		h.st.event(ev)
		for _, c := range cands {
			if c.kind == "bound" {
				e.assumeBound(h.st, c, ev)
			}
		}
		nw := len(h.st.wr)
		headEp := map[string]int{}
		for k, v := range h.st.epoch {
			headEp[k] = v
		}
		fr2 := &Frame{fn: fr.fn, in: fr.in, parent: fr.parent, site: fr.site, only: lp, only0: ctx, depth: fr.depth}
		h.loops = append(h.loops[:len(h.loops):len(h.loops)], ctx)
		e.dry++
		headSt := h.st.clone()
		e.execHead(fr2, h)
		e.dry--
		changed := false
		for _, be := range fr2.backs {
			// memory written in the iteration
			for _, w := range be.st.wr[nw:] {
				if w.p.obj == nil || w.p.obj.id > startObjs {
					continue
				}
				if w.p.path == "[*]" || w.p.idx != nil && !w.p.off.isConst() || w.p.path == "#content" || w.p.obj.key != "" && strings.HasPrefix(w.p.path, "[") {
					if !clob[w.p.obj] {
						clob[w.p.obj] = true
						changed = true
					}
					continue
				}
				t := w.p.elem
				if t == nil {
					t = w.t
				}
				if t == nil {
					continue
				}
				found := false
				for _, c := range cells {
					if c.ptr.obj == w.p.obj && c.ptr.path == w.p.path {
						found = true
					}
				}
				if !found {
					cells = append(cells, &loopVar{name: "*" + w.p.obj.key + w.p.path, t: t, ptr: w.p})
					changed = true
				}
			}
			for _, k := range sortedKeys(be.st.epoch) {
				n := be.st.epoch[k]
				if headEp[k] != n && !epochs[k] && !strings.HasPrefix(k, "mapnew:") {
					epochs[k] = true
					changed = true
					// integer and boolean fields may nevertheless keep their value
					for _, c := range e.fieldCells(fr, it, pre, k) {
						found := false
						for _, d := range cells {
							if d.ptr.obj == c.ptr.obj && d.ptr.path == c.ptr.path {
								found = true
							}
						}
						if !found {
							cells = append(cells, c)
						}
					}
				}
			}
			for _, v := range all {
				v.back = e.backVal(be, v, ctx)
			}
			for _, c := range cands {
				if !c.dead && !e.checkCand(be.st, headSt, c) {
					c.dead = true
					dead[c.name] = true
					if debug && e.dry <= 1 {
						dbg("    dropped %s (%s)", c.name, e.candWhy(be.st, c))
					}
					changed = true
				}
			}
		}
		if debug && e.dry <= 1 {
			n := 0
			for _, c := range cands {
				if !c.dead {
					n++
				}
			}
			if os.Getenv("SRL_LIVE") != "" {
				for _, c := range cands {
					if !c.dead {
						dbg("      live %s", c.name)
					}
				}
			}
			dbg("  loop %s round %d: %d backs, %d vars, %d live candidates, %d cells", e.pos(ctx.site), rounds, len(fr2.backs), len(all), n, len(cells))
		}
		ctx.dry = fr2.backs
		if !changed {
			break
		}
	}
	e.purged(fr, it, ctx, pool)
	if warm != nil {
		known := map[*Obj]bool{}
		for _, o := range e.objTable {
			known[o] = true
		}
		warm.dead, warm.epochs = dead, epochs
		warm.cells = nil
		for o := range clob {
			if known[o] {
				warm.clob[o] = true
			}
		}
		for _, c := range cells {
			if known[c.ptr.obj] {
				warm.cells = append(warm.cells, c)
			}
		}
	}
	// the generic iteration proper
	all := ctx.vars
	ctx.backs, ctx.exits = nil, nil
	e.havocHead(fr, it, ctx, all, clob, epochs, dead, rounds+1)
	cands = e.loopCands(fr, ctx, all, pool, with, dead, pre)
	for _, c := range cands {
		if !c.dead {
			ctx.inv = append(ctx.inv, c.name)
			if c.kind != "bound" {
				e.assumeCand(it.st, c)
			}
		}
	}
	ctx.pre = pre.clone()
	ctx.pre.ev = ctx.preEv
	ev := &Ev{k: evLoopIn, loop: ctx, fn: fr.fn}
	it.st.event(ev)
	for _, c := range cands {
		if !c.dead && c.kind == "bound" {
			e.assumeBound(it.st, c, ev)
		}
	}
	ctx.head = it.st.clone()
	it.loops = append(it.loops[:len(it.loops):len(it.loops)], ctx)
	return true
}

// fieldCells lists the integer cells of a struct field that the state or the
// function's parameters refer to.
func (e *Engine) fieldCells(fr *Frame, it *item, pre *State, field string) []*loopVar {
	for _, p := range fr.fn.Params {
		pv, ok := it.env[fr.in.num[p]].(PtrV)
		if !ok || pv.obj == nil || pv.elem == nil {
			continue
		}
		if stt, ok := pv.elem.Underlying().(*types.Struct); ok && !e.opaqueStruct(pv.elem) {
			for i := 0; i < stt.NumFields(); i++ {
				if f := stt.Field(i); isIntOrBool(f.Type()) && fieldKey(pv.elem, f.Name()) == field {
					e.load(pre, PtrV{obj: pv.obj, path: pv.path + "." + f.Name(), elem: f.Type()}, f.Type())
				}
			}
		}
	}
	var r []*loopVar
	for ck, v := range pre.heap {
		switch v.(type) {
		case IntV, BoolV:
		default:
			continue
		}
		if strings.Contains(ck.path, "[") {
			continue
		}
		fs := fieldsOf(ck.o.typ, ck.path)
		if len(fs) == 0 || fs[len(fs)-1] != field {
			continue
		}
		t := e.cellType(ck.o.typ, ck.path)
		if t == nil || !isIntOrBool(t) {
			continue
		}
		r = append(r, &loopVar{name: "*" + ck.o.key + ck.path, t: t, ptr: PtrV{obj: ck.o, path: ck.path, elem: t}})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

func isIntOrBool(t types.Type) bool { return isInt(t) || isBasic(t, types.Bool) }

// cellType is the type of the struct field at a path.
func (e *Engine) cellType(t types.Type, path string) types.Type {
	for _, n := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		stt, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		found := false
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == n {
				t = stt.Field(i).Type()
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	return t
}

func phisOf(vs []*loopVar) []*loopVar {
	var r []*loopVar
	for _, v := range vs {
		if v.phi != nil {
			r = append(r, v)
		}
	}
	return r
}

// execHead runs the loop body from its head.
func (e *Engine) execHead(fr *Frame, it *item) {
	next, ok := e.runInstrs(fr, it, firstNonPhi(it.blk))
	if !ok {
		return
	}
	it.pred, it.blk = it.blk, next
	e.runBlock(fr, it)
}

func (e *Engine) backEdge(fr *Frame, it *item, ctx *LoopCtx) {
	pi := predIndex(it.blk, it.pred)
	be := backEdge{st: it.st}
	for _, v := range ctx.vars {
		if v.phi != nil {
			be.vals = append(be.vals, e.val(fr, it, v.phi.Edges[pi]))
		} else {
			be.vals = append(be.vals, nil)
		}
	}
	ctx.backs = append(ctx.backs, be)
	if e.loopSeen != nil && e.dry == 0 {
		e.loopSeen[ctx] = true
	}
	if fr.only != nil && fr.only0 == ctx {
		fr.backs = append(fr.backs, be)
	}
}

func (e *Engine) backVal(be backEdge, v *loopVar, ctx *LoopCtx) Value {
	if v.phi == nil {
		return e.load(be.st, v.ptr, v.t)
	}
	for i, w := range ctx.vars {
		if w == v && i < len(be.vals) {
			return be.vals[i]
		}
	}
	return nil
}

// havocHead gives every loop variable an unknown value.
func (e *Engine) havocHead(fr *Frame, it *item, ctx *LoopCtx, all []*loopVar, clob map[*Obj]bool, epochs map[string]bool, dead map[string]bool, round int) {
	st := it.st
	id := e.newEpoch()
	for _, o := range sortedObjs(clob) {
		for k := range st.heap {
			if k.o == o && (strings.HasPrefix(k.path, "[") || k.path == "#content") {
				delete(st.heap, k)
			}
		}
		st.ver[o] = e.newEpoch()
		st.wr = append(st.wr[:len(st.wr):len(st.wr)], wrote{PtrV{obj: o, path: "[*]"}, nil})
	}
	var ks []string
	for k := range epochs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e.bumpField(st, k)
	}
	for _, v := range all {
		key := fmt.Sprintf("loop%d.%s.%s", id, fname(fr.fn), v.name)
		v.head = e.havocVal(st, v, key, dead, ctx)
		if v.phi != nil {
			it.env[fr.in.num[v.phi]] = v.head
		} else {
			if _, isStruct := v.t.Underlying().(*types.Struct); !isStruct {
				e.store(st, v.ptr, v.head)
			} else {
				e.store(st, v.ptr, v.head)
			}
		}
	}
}

func (e *Engine) havocVal(st *State, v *loopVar, key string, dead map[string]bool, ctx *LoopCtx) Value {
	if !dead["same "+v.name] {
		return v.init
	}
	switch x := v.init.(type) {
	case IntV:
		// a byte that follows an index
		if isByte(v.t) {
			if h := e.followByte(st, v, ctx, dead); h != nil {
				return h
			}
		}
		return IntV{symLin(e.intSym(key, v.t))}
	case SliceV:
		n := e.syms.ranged("len("+key+")", 0, maxLen)
		r := SliceV{ln: symLin(n), str: x.str, elem: x.elem}
		if !dead["base "+v.name] {
			r.base = x.base
			o := e.syms.ranged("off("+key+")", 0, maxLen)
			c := e.syms.ranged("cap("+key+")", 0, maxLen)
			r.off, r.cp = symLin(o), symLin(c)
		} else {
			o := e.newObj("mem("+key+")", x.elem)
			o.from = []*Obj{x.base}
			o.fresh = x.base.fresh || x.base.key == "nilslice"
			o.loop = ctx
			c := e.syms.ranged("cap("+key+")", 0, maxLen)
			r.base, r.cp = o, symLin(c)
			e.capOf(c, n)
			r.log = &Tok{k: tLoopIn, n: symLin(n), loop: ctx, phi: v.phi, lv: v}
		}
		if x.str {
			r.cp = r.ln
		} else {
			st.addGe(r.cp.sub(r.ln))
		}
		r.nl = Nil{2, e.syms.get("nil(" + key + ")")}
		return r
	case PtrV:
		r := e.fresh(v.t, key, false).(PtrV)
		return r
	}
	h := e.fresh(v.t, key, false)
	return h
}

// followByte: the byte variable is the byte at an index variable plus a
// constant offset.
func (e *Engine) followByte(st *State, v *loopVar, ctx *LoopCtx, dead map[string]bool) Value {
	l, ok := v.init.(IntV)
	if !ok {
		return nil
	}
	s, ok := l.l.single()
	if !ok {
		return nil
	}
	ref, ok := e.byteAt[s]
	if !ok || dead["follow "+v.name] {
		return nil
	}
	for _, w := range ctx.vars {
		wi, ok := w.init.(IntV)
		if !ok || w == v || isByte(w.t) || w.head == nil {
			continue
		}
		d := ref.off.sub(wi.l)
		if d = st.norm(d); d.isConst() {
			return IntV{symLin(e.byteSym(ref.o, ref.ver, e.lin(w.head).add(d)))}
		}
	}
	return nil
}

// boundPool lists the loop-invariant quantities that may bound loop variables.
// Constants are only tried for the variables they are compared with.
func (e *Engine) boundPool(fr *Frame, it *item, lp *loop) ([]Lin, map[string]map[*ssa.Phi]bool) {
	var r []Lin
	with := map[string]map[*ssa.Phi]bool{}
	var related func(v ssa.Value, k string, depth int)
	related = func(v ssa.Value, k string, depth int) {
		if depth > 3 {
			return
		}
		if with[k] == nil {
			with[k] = map[*ssa.Phi]bool{}
		}
		switch v := v.(type) {
		case *ssa.Phi:
			with[k][v] = true
			if v.Block() != lp.head {
				for _, x := range v.Edges {
					related(x, k, depth+1)
				}
			}
		case *ssa.BinOp:
			related(v.X, k, depth+1)
			related(v.Y, k, depth+1)
		case *ssa.Convert:
			related(v.X, k, depth+1)
		case *ssa.UnOp:
			with[k][nil] = true // memory
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				related(v.Call.Args[0], k, depth+1)
			}
		}
	}
	seen := map[string]bool{}
	add := func(l Lin) {
		if k := l.key(); !seen[k] && len(r) < 12 {
			seen[k] = true
			r = append(r, l)
		}
	}
	inLoop := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return ok && lp.blocks[in.Block()]
	}
	var blocks []*ssa.BasicBlock
	for b := range lp.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	operand := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value != nil && isInt(c.Type()) {
				if l, ok := e.constVal(c).(IntV); ok && l.l.isConst() && abs64(l.l.c) < 1<<40 {
					add(l.l)
				}
			}
			return
		}
		if !inLoop(v) {
			if n, ok := fr.in.num[v]; ok && it.env[n] != nil {
				if l, ok := it.env[n].(IntV); ok {
					add(l.l)
				}
				if s, ok := it.env[n].(SliceV); ok {
					add(s.ln)
				}
			}
			return
		}
		// len(x) of something outside, computed inside
		if c, ok := v.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				if s, ok := e.preVal(fr, it, c.Call.Args[0], inLoop).(SliceV); ok {
					add(s.ln)
				}
			}
			return
		}
		// a variable kept in memory
		if l, ok := e.preVal(fr, it, v, inLoop).(IntV); ok {
			add(l.l)
		}
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.BinOp:
				switch in.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if isInt(in.X.Type()) {
						operand(in.X)
						operand(in.Y)
						for _, p := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
							if c, ok := p[0].(*ssa.Const); ok && c.Value != nil {
								if l, ok := e.constVal(c).(IntV); ok {
									related(p[1], l.l.key(), 0)
								}
							} else if l, ok := e.preVal(fr, it, p[0], inLoop).(IntV); ok && l.l.isConst() {
								related(p[1], l.l.key(), 0)
							}
						}
					}
				}
			}
		}
	}
	// slices used in the loop
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.IndexAddr:
				operand(in.X)
			case *ssa.Slice:
				operand(in.X)
			}
		}
	}
	for _, p := range fr.fn.Params {
		if s, ok := it.env[fr.in.num[p]].(SliceV); ok {
			add(s.ln)
		}
	}
	return r, with
}

// preVal evaluates a value that a loop reads from memory, as it is before the
// loop.
func (e *Engine) preVal(fr *Frame, it *item, v ssa.Value, inLoop func(ssa.Value) bool) Value {
	if !inLoop(v) {
		if n, ok := fr.in.num[v]; ok {
			return it.env[n]
		}
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil
		}
		if p, ok := e.preVal(fr, it, v.X, inLoop).(PtrV); ok && p.obj != nil && p.elem != nil {
			return e.load(it.st, p, v.Type())
		}
	case *ssa.FieldAddr:
		if p, ok := e.preVal(fr, it, v.X, inLoop).(PtrV); ok && p.obj != nil && p.elem != nil {
			if stt, ok := p.elem.Underlying().(*types.Struct); ok && !e.opaqueStruct(p.elem) {
				f := stt.Field(v.Field)
				return PtrV{obj: p.obj, path: p.path + "." + f.Name(), elem: f.Type()}
			}
		}
	}
	return nil
}

func (e *Engine) loopCands(fr *Frame, ctx *LoopCtx, all []*loopVar, pool []Lin, with map[string]map[*ssa.Phi]bool, dead map[string]bool, pre *State) []*loopCand {
	var r []*loopCand
	var ivs []*intVar
	for _, v := range all {
		v := v
		if !dead["same "+v.name] {
			r = append(r, &loopCand{name: "same " + v.name, kind: "same", v: v})
			continue
		}
		switch x := v.init.(type) {
		case IntV:
			if isByte(v.t) && !dead["follow "+v.name] {
				if s, ok := x.l.single(); ok {
					if _, ok := e.byteAt[s]; ok {
						r = append(r, &loopCand{name: "follow " + v.name, kind: "follow", v: v})
					}
				}
			}
			ivs = append(ivs, &intVar{name: v.name, init: x.l, head: e.lin(v.head), v: v,
				get: func(y Value) (Lin, bool) { i, ok := y.(IntV); return i.l, ok }})
		case SliceV:
			h, ok := v.head.(SliceV)
			if !ok {
				continue
			}
			if !dead["base "+v.name] {
				r = append(r, &loopCand{name: "base " + v.name, kind: "base", v: v})
				ivs = append(ivs, &intVar{name: "off " + v.name, init: x.off, head: h.off, v: v,
					get: func(y Value) (Lin, bool) { i, ok := y.(SliceV); return i.off, ok }})
				ivs = append(ivs, &intVar{name: "end " + v.name, init: x.off.add(x.ln), head: h.off.add(h.ln), v: v,
					get: func(y Value) (Lin, bool) { i, ok := y.(SliceV); return i.off.add(i.ln), ok }})
				ivs = append(ivs, &intVar{name: "cap " + v.name, init: x.off.add(x.cp), head: h.off.add(h.cp), v: v,
					get: func(y Value) (Lin, bool) { i, ok := y.(SliceV); return i.off.add(i.cp), ok }})
			}
			ivs = append(ivs, &intVar{name: "len " + v.name, init: x.ln, head: h.ln, v: v,
				get: func(y Value) (Lin, bool) { i, ok := y.(SliceV); return i.ln, ok }})
			for _, k := range []string{"nil ", "nonnil "} {
				if !x.str && !dead[k+v.name] && triNil(pre, e.nilCond(x)) == k {
					r = append(r, &loopCand{name: k + v.name, kind: strings.TrimSpace(k), v: v})
				}
			}
		case BoolV:
			for _, k := range []string{"true ", "false "} {
				want := condTrue
				if k == "false " {
					want = condFalse
				}
				if !dead[k+v.name] && x.c.k == cTrue && x.c.neg == want.neg {
					r = append(r, &loopCand{name: k + v.name, kind: strings.TrimSpace(k), v: v})
				}
			}
		default:
			for _, k := range []string{"nil ", "nonnil "} {
				if !dead[k+v.name] && triNil(pre, e.nilCond(v.init)) == k {
					r = append(r, &loopCand{name: k + v.name, kind: strings.TrimSpace(k), v: v})
				}
			}
		}
	}
	add := func(name string, f func(get func(iv *intVar) (Lin, bool)) (Lin, bool)) {
		if dead[name] {
			return
		}
		c := &loopCand{name: name, lin: f}
		l, ok := f(func(iv *intVar) (Lin, bool) { return iv.init, true })
		if !ok || !pre.entails(l) {
			dead[name] = true
			return
		}
		r = append(r, c)
	}
	for _, iv := range ivs {
		iv := iv
		one := func(name string, k int64, b Lin) {
			add(name+" "+iv.name, func(get func(iv *intVar) (Lin, bool)) (Lin, bool) {
				x, ok := get(iv)
				if !ok {
					return Lin{}, false
				}
				return b.addMul(x, k)
			})
		}
		init := iv.init
		one(">=init", 1, init.neg())
		one("<=init", -1, init)
		one(">=0", 1, constLin(0))
		for i, p := range pool {
			if p.isConst() && !with[p.key()][iv.v.phi] {
				continue
			}
			one(fmt.Sprintf("<=P%d:%s", i, e.syms.str(p)), -1, p)
			one(fmt.Sprintf("<P%d:%s", i, e.syms.str(p)), -1, p.addc(-1))
			if p.isConst() && p.c != 0 {
				one(fmt.Sprintf(">=P%d:%s", i, e.syms.str(p)), 1, p.neg())
			}
		}
	}
	for i, a := range ivs {
		for j, b := range ivs {
			a, b := a, b
			if i == j || len(ivs) > 14 {
				continue
			}
			d := pre.norm(a.init.sub(b.init))
			add(fmt.Sprintf("%s-%s>=init", a.name, b.name), func(get func(iv *intVar) (Lin, bool)) (Lin, bool) {
				x, ok1 := get(a)
				y, ok2 := get(b)
				if !ok1 || !ok2 {
					return Lin{}, false
				}
				l, ok := x.addMul(y, -1)
				if !ok {
					return Lin{}, false
				}
				return l.addMul(d, -1)
			})
			if !(d.isConst() && d.c == 0) {
				add(fmt.Sprintf("%s>=%s", a.name, b.name), func(get func(iv *intVar) (Lin, bool)) (Lin, bool) {
					x, ok1 := get(a)
					y, ok2 := get(b)
					if !ok1 || !ok2 {
						return Lin{}, false
					}
					return x.addMul(y, -1)
				})
			}
		}
	}
	return append(r, e.boundCands(fr, ctx.it, all, ivs, dead, pre, ctx.lp)...)
}

func triNil(st *State, c *Cond) string {
	switch st.decide(c) {
	case yes:
		return "nil "
	case no:
		return "nonnil "
	}
	return ""
}

func (e *Engine) assumeCand(st *State, c *loopCand) {
	if c.lin != nil {
		l, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.head) })
		if ok {
			st.addGe(l)
		}
		return
	}
	switch c.kind {
	case "nil":
		st.assume(e.nilCond(c.v.head))
	case "nonnil":
		st.assume(e.nilCond(c.v.head).not())
	case "true":
		st.assume(e.cond(st, c.v.head))
	case "false":
		st.assume(e.cond(st, c.v.head).not())
	}
}

// checkCand decides whether the candidate holds of the values at a back edge.
func (e *Engine) checkCand(st, head *State, c *loopCand) bool {
	if c.kind == "bound" {
		return e.checkBound(st, c)
	}
	if c.lin != nil {
		l, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.back) })
		if !ok {
			return false
		}
		// it was assumed of the values at the head
		if h, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.head) }); ok {
			if d := l.sub(h); d.isConst() && d.c >= 0 {
				return true
			}
		}
		return st.entails(l)
	}
	switch c.kind {
	case "same":
		return e.sameVal(st, c.v.back, c.v.init)
	case "base":
		b, ok := c.v.back.(SliceV)
		i, ok2 := c.v.init.(SliceV)
		return ok && ok2 && b.base == i.base
	case "follow":
		// the byte must be the one at the other variable's new value
		b, ok := c.v.back.(IntV)
		if !ok {
			return false
		}
		s, ok := b.l.single()
		if !ok {
			return false
		}
		ref, ok := e.byteAt[s]
		if !ok {
			return false
		}
		h, ok := e.lin(c.v.head).single()
		if !ok {
			return false
		}
		href, ok := e.byteAt[h]
		if !ok || href.o != ref.o || href.ver != ref.ver {
			return false
		}
		// find the index variable: href.off = w.head + d
		for _, w := range e.curVars(c.v) {
			wh, ok := w.head.(IntV)
			if !ok || w == c.v || isByte(w.t) {
				continue
			}
			d := href.off.sub(wh.l)
			if !d.isConst() {
				continue
			}
			wb, ok := w.back.(IntV)
			if !ok {
				continue
			}
			x := st.norm(ref.off.sub(wb.l).sub(d))
			if x.isConst() && x.c == 0 {
				return true
			}
		}
		return false
	case "nil":
		return st.decide(e.nilCond(c.v.back)) == yes
	case "nonnil":
		return st.decide(e.nilCond(c.v.back)) == no
	case "true":
		return st.decide(e.cond(st, c.v.back)) == yes
	case "false":
		return st.decide(e.cond(st, c.v.back)) == no
	}
	return false
}

func (e *Engine) curVars(v *loopVar) []*loopVar { return v.peers }

func (e *Engine) sameVal(st *State, a, b Value) bool {
	if valKey(a) == valKey(b) {
		if x, ok := a.(SliceV); ok {
			y := b.(SliceV)
			return x.base == y.base
		}
		return true
	}
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			d, ok := x.l.addMul(y.l, -1)
			return ok && st.entails(d) && st.entails(d.neg())
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			p, q := st.decide(x.c), st.decide(y.c)
			return p != unknown && p == q
		}
	case SliceV:
		if y, ok := b.(SliceV); ok && x.base == y.base {
			for _, d := range []Lin{x.off.sub(y.off), x.ln.sub(y.ln), x.cp.sub(y.cp)} {
				if !(st.entails(d) && st.entails(d.neg())) {
					return false
				}
			}
			return true
		}
	case NilV:
		if c := e.nilCond(b); st.decide(c) == yes {
			return true
		}
	case Opq:
		if _, ok := b.(NilV); ok {
			return st.decide(&Cond{k: cNil, s: x.s}) == yes
		}
	}
	return false
}

// bumpField forgets everything known about a struct field (or map, or the
// reflect heap).
func (e *Engine) bumpField(st *State, k string) {
	st.epoch[k] = e.newEpoch()
	if strings.HasPrefix(k, "map") && !strings.Contains(k, "/") || k == "reflect" {
		return
	}
	for ck := range st.heap {
		for _, f := range fieldsOf(ck.o.typ, ck.path) {
			if f == k {
				delete(st.heap, ck)
				break
			}
		}
	}
}
