package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	maxLen   = int64(1) << 48 // no slice or string is longer than this
	fieldMin = -(int64(1) << 62)
	fieldMax = int64(1) << 62
)

// Engine is the abstract interpreter for one program.
type Engine struct {
	nextVal map[string]Value // entries given by iterations over maps

	fns        []*ssa.Function
	stores     map[string][]ssa.Value
	calls      map[*ssa.Function][]ssa.CallInstruction
	asValue    map[*ssa.Function]bool
	invoked    map[string]bool
	mapOrig    map[ssa.Value][]string
	symOrig    map[Sym][]string
	outs       []Sym // values made by the last call under contract
	p          *Program
	syms       *Syms
	terms      map[Sym]Term
	objs       int
	globals    map[*ssa.Global]*Obj
	infos      map[*ssa.Function]*fnInfo
	cuts       map[*ssa.Function]*Contract
	mods       map[*ssa.Function]*modSet
	prims      map[*ssa.Function]primKind
	primInfo   map[*ssa.Function]*primInfo
	dry        int // >0 while inferring invariants
	unroll     int // >0: loops are unrolled up to this many iterations
	queries    int
	paths      int
	steps      int
	obl        *OblSet
	hook       *Hooks
	entry      string
	overflow   bool // path budget exhausted
	maxSteps   int
	curFn      []*ssa.Function
	byteAt     map[Sym]byteRef
	loopErr    []string
	loopSeen   map[*LoopCtx]bool // loops that were gone round, if asked for
	caps       map[Sym]Sym       // capacity symbol -> length symbol
	epochs     int
	recovered  Value
	deferCall  bool
	panicsW    func(fn *ssa.Function, name string) []Value // what a call may panic with (C07)
	checkPre   bool
	preChanged bool
	loopTime   map[string]int
	warm       map[string]*warmLoop
	invs       map[string]*objInv
	invChanged bool
	cutsDone   bool
	light      bool // only break recursion
	onEntry    func(st *State, fn *ssa.Function, args []Value) []*State
	returns    bool // record the results of inlined calls
	origins    map[string]bool
	objTable   map[string]*Obj
	options    map[Sym]bool // integer options set by the caller
}

type byteRef struct {
	o   *Obj
	off Lin
	ver int
}

// Hooks lets checks observe the interpretation.
type Hooks struct {
	onCut func(st *State, fr *Frame, in ssa.Instruction, c *Contract, args []Value)
}

func newEngine(p *Program) *Engine {
	e := &Engine{p: p, syms: newSyms(), terms: map[Sym]Term{}, globals: map[*ssa.Global]*Obj{},
		infos: map[*ssa.Function]*fnInfo{}, cuts: map[*ssa.Function]*Contract{}, mods: map[*ssa.Function]*modSet{},
		mapOrig: map[ssa.Value][]string{}, symOrig: map[Sym][]string{},
		prims: map[*ssa.Function]primKind{}, obl: newOblSet(), warm: map[string]*warmLoop{}, invs: map[string]*objInv{}, byteAt: map[Sym]byteRef{}, maxSteps: 40_000_000, objTable: map[string]*Obj{}, options: map[Sym]bool{}}
	return e
}

// ---------------------------------------------------------------- function info

type loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*loop
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}, loops: map[*ssa.BasicBlock]*loop{}}
	add := func(v ssa.Value) {
		i.num[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := i.loops[s]
				if l == nil {
					l = &loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					i.loops[s] = l
				}
				var work []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					work = append(work, b)
				}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	e.infos[fn] = i
	return i
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	in     *fnInfo
	parent *Frame
	site   ssa.Instruction
	out    []Outcome
	// loop inference: stop at the loop's exits and collect its back edges
	only  *loop
	backs []backEdge
	only0 *LoopCtx
	depth int
	// run as a deferred function because of a panic
	deferred bool
}

// Outcome is one way a call can end.
type Outcome struct {
	st    *State
	res   []Value
	panic bool
	pv    Value
	at    ssa.Instruction
}

type item struct {
	blk      *ssa.BasicBlock
	pred     *ssa.BasicBlock
	env      []Value
	st       *State
	loops    []*LoopCtx
	counts   map[*ssa.BasicBlock]int
	defers   []deferred1
	unrolled map[*ssa.BasicBlock]bool
}

type deferred1 struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	site ssa.Instruction
}

func (it *item) clone() *item {
	n := *it
	n.env = append([]Value(nil), it.env...)
	n.st = it.st.clone()
	n.loops = it.loops[:len(it.loops):len(it.loops)]
	n.defers = it.defers[:len(it.defers):len(it.defers)]
	if it.counts != nil {
		n.counts = map[*ssa.BasicBlock]int{}
		for k, v := range it.counts {
			n.counts[k] = v
		}
	}
	return &n
}

// exec runs fn on args from state st and returns every outcome.
func (e *Engine) exec(fn *ssa.Function, args, binds []Value, st *State, parent *Frame, site ssa.Instruction) []Outcome {
	in := e.info(fn)
	fr := &Frame{fn: fn, in: in, parent: parent, site: site, deferred: e.deferCall}
	if fn.Synthetic == "" {
		e.deferCall = false
	}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	if fr.depth > 40 {
		e.fail("inlining too deep at %s", fname(fn))
		return nil
	}
	it := &item{blk: fn.Blocks[0], env: make([]Value, in.n), st: st}
	for i, p := range fn.Params {
		if i < len(args) {
			it.env[in.num[p]] = args[i]
		} else {
			it.env[in.num[p]] = e.fresh(p.Type(), "arg."+p.Name(), false)
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			it.env[in.num[p]] = binds[i]
		} else {
			it.env[in.num[p]] = e.fresh(p.Type(), "free."+p.Name(), false)
		}
	}
	e.runBlock(fr, it)
	return fr.out
}

func (e *Engine) fail(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, x := range e.loopErr {
		if x == s {
			return
		}
	}
	e.loopErr = append(e.loopErr, s)
}

func (e *Engine) runBlock(fr *Frame, it *item) {
	for {
		if e.steps > e.maxSteps {
			if !e.overflow {
				e.overflow = true
				e.fail("step budget exhausted in %s", fname(fr.fn))
			}
			return
		}
		b := it.blk
		// leaving loops
		for len(it.loops) > 0 {
			top := it.loops[len(it.loops)-1]
			if top.lp.blocks[b] {
				break
			}
			if fr.only != nil && top == fr.only0 {
				return // inference: exits are not explored
			}
			it.loops = it.loops[:len(it.loops)-1]
			it.st.event(&Ev{k: evLoopOut, loop: top, fn: fr.fn, name: blockName(it.pred)})
			if it.pred == top.lp.head {
				for _, b := range top.atEnd {
					b.ev = it.st.ev
					it.st.bound(b)
				}
			}
			top.exits = append(top.exits, loopExit{pred: it.pred, st: it.st})
		}
		if lp := fr.in.loops[b]; lp != nil && e.unroll == 0 {
			if len(it.loops) > 0 && it.loops[len(it.loops)-1].lp == lp && it.pred != nil && lp.blocks[it.pred] {
				e.backEdge(fr, it, it.loops[len(it.loops)-1])
				return
			}
			if !e.enterLoop(fr, it, lp) {
				return
			}
		} else {
			if lp != nil {
				if it.counts == nil {
					it.counts = map[*ssa.BasicBlock]int{}
				}
				it.counts[b]++
				if it.counts[b] > e.unroll {
					e.fail("loop at %s exceeds the unrolling bound", e.pos(b.Instrs[0]))
					return
				}
			}
			e.evalPhis(fr, it)
		}
		next, ok := e.runInstrs(fr, it, firstNonPhi(b))
		if !ok {
			return
		}
		it.pred, it.blk = b, next
	}
}

func blockName(b *ssa.BasicBlock) string {
	if b == nil {
		return ""
	}
	return fmt.Sprint(b.Index)
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (e *Engine) evalPhis(fr *Frame, it *item) {
	if it.pred == nil {
		return
	}
	pi := predIndex(it.blk, it.pred)
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range it.blk.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(fr, it, phi.Edges[pi]))
	}
	for i, p := range phis {
		it.env[fr.in.num[p]] = vals[i]
	}
}

// runInstrs executes the instructions of a block from index i. It returns the
// successor to continue with; forks are explored recursively.
func (e *Engine) runInstrs(fr *Frame, it *item, i int) (*ssa.BasicBlock, bool) {
	b := it.blk
	for ; i < len(b.Instrs); i++ {
		e.steps++
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.If:
			c := e.cond(it.st, e.val(fr, it, in.Cond))
			switch it.st.decide(c) {
			case yes:
				return b.Succs[0], true
			case no:
				return b.Succs[1], true
			}
			e.paths++
			other := it.clone()
			if other.st.assume(c) {
				other.pred, other.blk = b, b.Succs[0]
				e.runBlock(fr, other)
			}
			if !it.st.assume(c.not()) {
				return nil, false
			}
			return b.Succs[1], true
		case *ssa.Jump:
			return b.Succs[0], true
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, e.val(fr, it, r))
			}
			if fr.only == nil {
				fr.out = append(fr.out, Outcome{st: it.st, res: res, at: in})
			}
			return nil, false
		case *ssa.Panic:
			v := e.val(fr, it, in.X)
			e.panicOut(fr, it, Outcome{st: it.st, panic: true, pv: v, at: in})
			return nil, false
		case *ssa.RunDefers:
			outs := []*item{it}
			for d := len(it.defers) - 1; d >= 0; d-- {
				df := it.defers[d]
				var nx []*item
				for _, o := range outs {
					for _, oc := range e.callValue(fr, o, df.site, df.call, df.fn, df.args) {
						if oc.panic {
							n := o.clone()
							n.defers = n.defers[:d]
							n.st = oc.st
							e.panicOut(fr, n, oc)
							continue
						}
						n := o.clone()
						n.st = oc.st
						nx = append(nx, n)
					}
				}
				outs = nx
			}
			if len(outs) == 1 {
				*it = *outs[0]
				it.defers = nil
				continue
			}
			for _, o := range outs {
				o.defers = nil
				e.resume(fr, o, i+1)
			}
			return nil, false
		default:
			outs := e.step(fr, it, in)
			if outs == nil {
				continue // it was updated in place
			}
			if len(outs) == 1 {
				*it = *outs[0]
				continue
			}
			for _, o := range outs {
				e.resume(fr, o, i+1)
			}
			return nil, false
		}
	}
	return nil, false
}

// panicOut ends an activation by a panic: deferred calls run, and may recover.
func (e *Engine) panicOut(fr *Frame, it *item, oc Outcome) {
	if fr.only != nil {
		return
	}
	if len(it.defers) == 0 {
		fr.out = append(fr.out, oc)
		return
	}
	d := len(it.defers) - 1
	df := it.defers[d]
	n := it.clone()
	n.st = oc.st.clone()
	n.defers = n.defers[:d]
	old := e.recovered
	e.recovered, e.deferCall = oc.pv, true
	before := n.st.ev
	outs := e.callValue(fr, n, df.site, df.call, df.fn, df.args)
	e.recovered, e.deferCall = old, false
	for _, x := range outs {
		m := it.clone()
		m.defers = m.defers[:d]
		m.st = x.st
		if x.panic {
			e.panicOut(fr, m, x)
			continue
		}
		rec := false
		for ev := x.st.ev; ev != nil && ev != before; ev = ev.prev {
			if ev.k == evNote && ev.name == "recover" {
				rec = true
			}
		}
		if !rec {
			e.panicOut(fr, m, Outcome{st: x.st, panic: true, pv: oc.pv, at: oc.at})
			continue
		}
		e.recoveredAt(fr, m, df.site)
	}
}

// recoveredAt: the panic is over; the remaining deferred calls run, and the
// function returns.
func (e *Engine) recoveredAt(fr *Frame, it *item, site ssa.Instruction) {
	if d := len(it.defers) - 1; d >= 0 {
		df := it.defers[d]
		it.defers = it.defers[:d]
		for _, x := range e.callValue(fr, it, df.site, df.call, df.fn, df.args) {
			m := it.clone()
			m.st = x.st
			if x.panic {
				e.panicOut(fr, m, x)
			} else {
				e.recoveredAt(fr, m, site)
			}
		}
		return
	}
	if fr.fn.Recover == nil {
		// the results are zero
		var res []Value
		for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
			res = append(res, e.zero(fr.fn.Signature.Results().At(i).Type()))
		}
		fr.out = append(fr.out, Outcome{st: it.st, res: res, at: site})
		return
	}
	it.loops = nil
	it.pred, it.blk = nil, fr.fn.Recover
	e.runBlock(fr, it)
}

func (e *Engine) resume(fr *Frame, it *item, i int) {
	b := it.blk
	next, ok := e.runInstrs(fr, it, i)
	if !ok {
		return
	}
	it.pred, it.blk = b, next
	e.runBlock(fr, it)
}

// ---------------------------------------------------------------- values

func (e *Engine) val(fr *Frame, it *item, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Global:
		return PtrV{obj: e.global(v), elem: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return FuncV{}
	}
	n, ok := fr.in.num[v]
	if !ok {
		panic(fmt.Sprintf("unnumbered value %s in %s", v.Name(), fname(fr.fn)))
	}
	x := it.env[n]
	if x == nil {
		// only reachable for values of unexplored predecessors
		x = e.fresh(v.Type(), fmt.Sprintf("undef.%s.%s", fname(fr.fn), v.Name()), false)
		it.env[n] = x
	}
	return x
}

func (e *Engine) global(g *ssa.Global) *Obj {
	if o, ok := e.globals[g]; ok {
		return o
	}
	o := e.newObj("global."+g.Name(), g.Type().(*types.Pointer).Elem())
	if g.Pkg != e.p.Pkg {
		o.key = "global." + g.Pkg.Pkg.Path() + "." + g.Name()
	}
	e.globals[g] = o
	return o
}

func (e *Engine) newObj(key string, t types.Type) *Obj {
	e.objs++
	return &Obj{id: e.objs, key: key, typ: t}
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return IntV{constLin(i)}
			}
			if x, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return IntV{symLin(e.bigConst(x))}
			}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{condConst(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			return e.strConst(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			return e.mk("fconst", t, StrTag(c.Value.ExactString()))
		}
	case *types.TypeParam, *types.Interface:
	}
	return e.mk("const", t, StrTag(c.Value.ExactString()))
}

// StrTag is a literal used inside term keys.
type StrTag string

func (e *Engine) strConst(s string) SliceV {
	key := "str:" + s
	o := &Obj{key: key, typ: types.Typ[types.Byte]}
	return SliceV{base: o, off: constLin(0), ln: constLin(int64(len(s))), cp: constLin(int64(len(s))), str: true, elem: types.Typ[types.Byte]}
}

// mk is the hash-consed opaque value op(args).
func (e *Engine) mk(op string, t types.Type, args ...Value) Opq {
	s := e.mkSym(op, args...)
	return Opq{s: s, t: t}
}

func (e *Engine) mkSym(op string, args ...Value) Sym {
	var b strings.Builder
	b.WriteString(op)
	if len(args) > 0 {
		b.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				b.WriteByte(',')
			}
			if s, ok := a.(StrTag); ok {
				b.WriteString(string(s))
			} else {
				b.WriteString(valKey(a))
			}
		}
		b.WriteByte(')')
	}
	s := e.syms.get(b.String())
	if _, ok := e.terms[s]; !ok {
		e.terms[s] = Term{op, args}
	}
	return s
}

func (e *Engine) freshSym(prefix string) Sym { return e.syms.newFresh(prefix) }

// isReflectValue reports whether t is reflect.Value.
func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// opaqueStruct reports whether values of the struct type are handled as units.
func (e *Engine) opaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != e.p.Pkg.Pkg
	}
	return false
}

func intRange(t types.Type) (lo, hi int64, hasHi bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return math.MinInt64, math.MaxInt64, true
	}
	switch b.Kind() {
	case types.Int8:
		return math.MinInt8, math.MaxInt8, true
	case types.Int16:
		return math.MinInt16, math.MaxInt16, true
	case types.Int32:
		return math.MinInt32, math.MaxInt32, true
	case types.Uint8:
		return 0, math.MaxUint8, true
	case types.Uint16:
		return 0, math.MaxUint16, true
	case types.Uint32:
		return 0, math.MaxUint32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 0, false
	}
	return math.MinInt64, math.MaxInt64, true
}

func intWidth(t types.Type) (w int, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// isKindType: reflect.Kind has a small domain.
func isKindType(t types.Type) bool { return isNamed(t, "reflect", "Kind") }

func (e *Engine) intSym(key string, t types.Type) Sym {
	if isKindType(t) {
		return e.syms.small(key, 32)
	}
	lo, hi, hasHi := intRange(t)
	switch w, _ := intWidth(t); {
	case lo == 0 && hasHi && w == 8:
		return e.syms.small(key, 256)
	case w == 64 && lo == 0:
		return e.syms.min(key, 0)
	case w == 64:
		return e.syms.get(key)
	default:
		return e.syms.ranged(key, lo, hi)
	}
}

// fresh builds an unknown value of type t named by key. With input set, memory
// it refers to belongs to the caller.
func (e *Engine) fresh(t types.Type, key string, input bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{symLin(e.intSym(key, t))}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{&Cond{k: cSym, s: e.syms.get(key)}}
		case u.Info()&types.IsString != 0:
			n := e.syms.ranged("len("+key+")", 0, maxLen)
			o := e.objFor("mem("+key+")", types.Typ[types.Byte])
			o.input = input
			return SliceV{base: o, ln: symLin(n), cp: symLin(n), str: true, elem: types.Typ[types.Byte], ident: e.syms.get(key)}
		}
		return Opq{e.syms.get(key), t}
	case *types.Slice:
		n := e.syms.ranged("len("+key+")", 0, maxLen)
		c := e.syms.ranged("cap("+key+")", 0, maxLen)
		o := e.objFor("mem("+key+")", u.Elem())
		o.input = input
		v := SliceV{base: o, ln: symLin(n), cp: symLin(c), elem: u.Elem(), nl: Nil{2, e.syms.get("nil(" + key + ")")}, ident: e.syms.get(key)}
		cp := v
		v.log = &Tok{k: tStart, n: symLin(n), v: &cp}
		if in := &e.syms.info[c]; in.def == nil {
			e.capOf(c, n)
		}
		return v
	case *types.Pointer:
		o := e.objFor("at("+key+")", u.Elem())
		o.input = input
		return PtrV{obj: o, elem: u.Elem(), nl: Nil{2, e.syms.get("nil(" + key + ")")}}
	case *types.Struct:
		if e.opaqueStruct(t) {
			return Opq{e.syms.get(key), t}
		}
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.fresh(u.Field(i).Type(), key+"."+u.Field(i).Name(), input))
		}
		return s
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.fresh(u.At(i).Type(), fmt.Sprintf("%s.%d", key, i), input))
		}
		return r
	}
	return Opq{e.syms.get(key), t}
}

// capOf records len <= cap.
func (e *Engine) capOf(c, n Sym) {
	if e.caps == nil {
		e.caps = map[Sym]Sym{}
	}
	e.caps[c] = n
}

func (e *Engine) objFor(key string, t types.Type) *Obj {
	m := e.objTable
	if o, ok := m[key]; ok {
		return o
	}
	o := e.newObj(key, t)
	m[key] = o
	return o
}

func (e *Engine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{constLin(0)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{condFalse}
		case u.Info()&types.IsString != 0:
			return e.strConst("")
		case u.Kind() == types.UntypedNil:
			return NilV{t}
		}
		return e.mk("fconst", t, StrTag("0"))
	case *types.Slice:
		o := e.objFor("nilslice", u.Elem())
		return SliceV{base: o, elem: u.Elem(), nl: Nil{k: 1}, log: &Tok{k: tStart}}
	case *types.Pointer:
		return PtrV{nl: Nil{k: 1}, elem: u.Elem()}
	case *types.Struct:
		if e.opaqueStruct(t) {
			return e.mk("zero", t, StrTag(t.String()))
		}
		s := StructV{t: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, e.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		return e.mk("zero", t, StrTag(t.String()))
	case *types.Tuple:
		var r TupleV
		for i := 0; i < u.Len(); i++ {
			r = append(r, e.zero(u.At(i).Type()))
		}
		return r
	}
	return NilV{t}
}

// ---------------------------------------------------------------- memory

// fieldsOf lists the struct fields a cell path goes through.
func fieldsOf(t types.Type, path string) []string {
	var r []string
	for path != "" {
		if path[0] == '[' {
			j := strings.IndexByte(path, ']')
			path = path[j+1:]
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			}
			continue
		}
		j := 1
		for j < len(path) && path[j] != '.' && path[j] != '[' {
			j++
		}
		name := path[1:j]
		path = path[j:]
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return r
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				r = append(r, fieldKey(t, name))
				t = st.Field(i).Type()
				break
			}
		}
	}
	return r
}

func fieldKey(owner types.Type, name string) string {
	return types.TypeString(owner, nil) + "." + name
}

func (e *Engine) load(st *State, p PtrV, t types.Type) Value {
	if p.obj == nil {
		return e.fresh(t, "nilload", false)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !e.opaqueStruct(t) {
		if v, ok := st.heap[cellKey{p.obj, p.path}]; ok {
			return v
		}
		r := StructV{t: t}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			r.f = append(r.f, e.load(st, PtrV{obj: p.obj, path: p.path + "." + f.Name(), elem: f.Type()}, f.Type()))
		}
		return r
	}
	k := cellKey{p.obj, p.path}
	if v, ok := st.heap[k]; ok {
		return v
	}
	// field of a struct stored as a unit
	for i := len(p.path) - 1; i >= 0; i-- {
		if p.path[i] == '.' {
			if v, ok := st.heap[cellKey{p.obj, p.path[:i]}]; ok {
				if f, ok := e.fieldOfOpq(v, p.path[i+1:]); ok {
					return f
				}
				if sv, ok := v.(StructV); ok {
					u := sv.t.Underlying().(*types.Struct)
					rest := p.path[i+1:]
					for j := 0; j < u.NumFields(); j++ {
						if u.Field(j).Name() == rest {
							return sv.f[j]
						}
					}
				}
			}
		}
	}
	if p.idx != nil && isByte(t) {
		return e.loadByte(st, p)
	}
	if p.obj.zero && p.idx == nil && !strings.Contains(p.path, ".") {
		v := e.zero(t)
		st.heap[k] = v
		return v
	}
	ep := ""
	for _, f := range fieldsOf(p.obj.typ, p.path) {
		if n := st.epoch[f]; n > 0 {
			ep += fmt.Sprintf("@%d", n)
		}
	}
	if n := st.ver[p.obj]; n > 0 {
		ep += fmt.Sprintf("v%d", n)
	}
	v := e.fresh(t, p.obj.key+p.path+ep, p.obj.input)
	if p.obj.input && isInt(t) && len(p.path) > 1 && p.path[0] == '.' && token.IsExported(p.path[1:]) && !strings.ContainsAny(p.path[1:], ".[") {
		// an option: assumed to lie within 2^40
		if s, ok := e.lin(v).single(); ok {
			e.options[s] = true
			st.addGe(constLin(1 << 40).sub(symLin(s)))
			st.addGe(constLin(1 << 40).add(symLin(s)))
		}
	}
	if p.idx != nil {
		e.knowElem(st, p, v)
	}
	if strings.HasPrefix(p.obj.key, "global.") && types.IsInterface(t) {
		// package-level error values are never nil
		if o, ok := v.(Opq); ok {
			if strings.Contains(p.obj.key, "rr") {
				st.nils[o.s] = false
			}
		}
	}
	if strings.HasPrefix(p.obj.key, "global.") {
		if o, ok := v.(Opq); ok {
			if _, ok := t.Underlying().(*types.Map); ok {
				st.nils[o.s] = false
			}
		}
	}
	st.heap[k] = v
	return v
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Engine) byteSym(o *Obj, ver int, off Lin) Sym {
	k := fmt.Sprintf("%s[%s]", o.key, e.syms.str(off))
	if ver > 0 {
		k = fmt.Sprintf("%s'%d[%s]", o.key, ver, e.syms.str(off))
	}
	s := e.syms.small(k, 256)
	if _, ok := e.byteAt[s]; !ok {
		e.byteAt[s] = byteRef{o, off, ver}
	}
	return s
}

func (e *Engine) loadByte(st *State, p PtrV) Value {
	if strings.HasPrefix(p.obj.key, "str:") && p.off.isConst() {
		s := p.obj.key[4:]
		if p.off.c >= 0 && p.off.c < int64(len(s)) {
			return IntV{constLin(int64(s[p.off.c]))}
		}
	}
	if p.obj.zero && st.ver[p.obj] == 0 {
		clean := true
		for k := range st.heap {
			if k.o == p.obj {
				clean = false
			}
		}
		if clean {
			return IntV{constLin(0)}
		}
		if p.off.isConst() {
			// all stores are at other constant indices
			return IntV{constLin(0)}
		}
	}
	return IntV{symLin(e.byteSym(p.obj, st.ver[p.obj], st.norm(p.off)))}
}

func (e *Engine) newEpoch() int {
	e.epochs++
	return e.epochs
}

// fieldOfOpq is a field of a struct whose parts are not known.
func (e *Engine) fieldOfOpq(v Value, name string) (Value, bool) {
	o, ok := v.(Opq)
	if !ok || o.t == nil {
		return nil, false
	}
	u, ok := o.t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for j := 0; j < u.NumFields(); j++ {
		if u.Field(j).Name() == name {
			return e.fresh(u.Field(j).Type(), "field."+name+"("+valKey(v)+")", false), true
		}
	}
	return nil, false
}

func (e *Engine) store(st *State, p PtrV, v Value) {
	if p.obj == nil {
		return
	}
	// a field of a struct stored as a unit: take it apart
	for i := len(p.path) - 1; i >= 0; i-- {
		if p.path[i] != '.' {
			continue
		}
		k := cellKey{p.obj, p.path[:i]}
		if o, ok := st.heap[k].(Opq); ok && o.t != nil {
			if u, ok := o.t.Underlying().(*types.Struct); ok {
				delete(st.heap, k)
				for j := 0; j < u.NumFields(); j++ {
					if f, ok := e.fieldOfOpq(o, u.Field(j).Name()); ok {
						st.heap[cellKey{p.obj, p.path[:i] + "." + u.Field(j).Name()}] = f
					}
				}
			}
		}
	}
	st.wr = append(st.wr[:len(st.wr):len(st.wr)], wrote{p, typeOfVal(v)})
	// forget nested and enclosing cells
	for k := range st.heap {
		if k.o == p.obj && k.path != p.path && (strings.HasPrefix(k.path, p.path+".") || strings.HasPrefix(k.path, p.path+"[")) {
			delete(st.heap, k)
		}
	}
	if p.idx != nil {
		delete(st.heap, cellKey{p.obj, "#content"})
		// element store: other elements at possibly equal indices are forgotten
		for k, old := range st.heap {
			if k.o == p.obj && k.path != p.path && strings.HasPrefix(k.path, "[") {
				_ = old
				if !e.distinctIdx(st, k.path, p) {
					delete(st.heap, k)
				}
			}
		}
		if !p.off.isConst() || p.obj.input {
			st.ver[p.obj] = e.newEpoch()
		}
	}
	if sv, ok := v.(StructV); ok {
		u := sv.t.Underlying().(*types.Struct)
		delete(st.heap, cellKey{p.obj, p.path})
		for i := 0; i < u.NumFields(); i++ {
			st.heap[cellKey{p.obj, p.path + "." + u.Field(i).Name()}] = sv.f[i]
		}
		return
	}
	st.heap[cellKey{p.obj, p.path}] = v
}

func typeOfVal(v Value) types.Type {
	switch v := v.(type) {
	case StructV:
		return v.t
	}
	return nil
}

var idxLins sync.Map

func idxPath(l Lin) string {
	k := "[" + l.key() + "]"
	idxLins.Store(k, l)
	return k
}

func (e *Engine) distinctIdx(st *State, path string, p PtrV) bool {
	j := strings.IndexByte(path, ']')
	l, ok := idxLins.Load(path[:j+1])
	if !ok || p.idx == nil {
		return false
	}
	d := st.norm(l.(Lin).sub(*p.idx))
	if d.isConst() {
		return d.c != 0
	}
	return st.decide(&Cond{k: cEq, l: d}) == no
}

// ---------------------------------------------------------------- positions

func (e *Engine) pos(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		// nearest instruction with a position
		b := in.Block()
		for _, x := range b.Instrs {
			if x.Pos() != token.NoPos {
				p = x.Pos()
				break
			}
		}
	}
	return e.posOf(p, in.Parent())
}

func (e *Engine) posOf(p token.Pos, fn *ssa.Function) string {
	if p == token.NoPos && fn != nil {
		p = fn.Pos()
	}
	ps := e.p.Prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/Go/sereal/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// ---------------------------------------------------------------- obligations

// Obl is one proof obligation: a site in a calling context.
type Obl struct {
	rule   string
	fn     string
	expr   string
	pos    string
	entry  string
	count  int
	failed int
	why    string
}

// OblSet collects obligations.
type OblSet struct {
	m map[string]*Obl
}

func newOblSet() *OblSet { return &OblSet{m: map[string]*Obl{}} }

func (s *OblSet) sorted() []*Obl {
	var r []*Obl
	for _, o := range s.m {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].pos != r[j].pos {
			return r[i].pos < r[j].pos
		}
		return r[i].rule+r[i].entry < r[j].rule+r[j].entry
	})
	return r
}

func (e *Engine) oblige(fr *Frame, in ssa.Instruction, rule, expr string, ok bool, why func() string) {
	if e.dry > 0 {
		return
	}
	key := rule + "|" + fname(fr.fn) + "|" + e.pos(in) + "|" + expr + "|" + e.entry
	o := e.obl.m[key]
	if o == nil {
		o = &Obl{rule: rule, fn: fname(fr.fn), expr: expr, pos: e.pos(in), entry: e.entry}
		e.obl.m[key] = o
	}
	o.count++
	if !ok {
		o.failed++
		if o.why == "" {
			o.why = why()
			var chain []string
			for f := fr; f != nil; f = f.parent {
				chain = append(chain, fname(f.fn))
			}
			o.why += " [via " + strings.Join(chain, " <- ") + "]"
		}
	}
}
