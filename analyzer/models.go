package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- calls

func (e *Engine) call(fr *Frame, it *item, in *ssa.Call) []*item {
	c := &in.Call
	var fv Value
	if c.IsInvoke() {
		fv = e.val(fr, it, c.Value)
	} else {
		fv = e.val(fr, it, c.Value)
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(fr, it, a))
	}
	outs := e.callValue(fr, it, in, c, fv, args)
	var r []*item
	for i, o := range outs {
		if o.panic {
			if fr.only == nil {
				m := it.clone()
				m.st = o.st
				e.panicOut(fr, m, o)
			}
			continue
		}
		n := it
		if i < len(outs)-1 {
			cp := *it
			cp.env = append([]Value(nil), it.env...)
			if it.counts != nil {
				cp.counts = map[*ssa.BasicBlock]int{}
				for k, v := range it.counts {
					cp.counts[k] = v
				}
			}
			cp.loops = it.loops[:len(it.loops):len(it.loops)]
			cp.defers = it.defers[:len(it.defers):len(it.defers)]
			n = &cp
		}
		n.st = o.st
		switch len(o.res) {
		case 0:
		case 1:
			if tt, ok := in.Type().(*types.Tuple); ok && tt.Len() == 1 {
				fr.set(n, in, TupleV(o.res))
			} else {
				fr.set(n, in, o.res[0])
			}
		default:
			fr.set(n, in, TupleV(o.res))
		}
		r = append(r, n)
	}
	if r == nil {
		r = []*item{}
	}
	return r
}

// callValue performs a call and returns its outcomes.
func (e *Engine) callValue(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, fv Value, args []Value) []Outcome {
	st := it.st
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		res := e.builtin(fr, it, site, b, c, args)
		if res == nil {
			return []Outcome{{st: st}}
		}
		return []Outcome{{st: st, res: []Value{res}}}
	}
	if c.IsInvoke() {
		return e.invoke(fr, it, site, c, fv, args)
	}
	var fn *ssa.Function
	var binds []Value
	if f, ok := fv.(FuncV); ok {
		fn, binds = f.fn, f.binds
	}
	if fn == nil {
		fn = c.StaticCallee()
	}
	if fn == nil {
		return e.orPanic(fr, it, site, nil, "dynamic", func() []Outcome { return e.external(fr, it, site, c, "dynamic", nil, args) })
	}
	return e.callFn(fr, it, site, c, fn, args, binds)
}

func (e *Engine) callFn(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args, binds []Value) []Outcome {
	if fn.Blocks != nil && (e.p.inPkg(fn) || e.wrapsPkg(fn)) {
		if k := e.prims[fn]; k != 0 {
			return e.orPanic(fr, it, site, fn, fname(fn), func() []Outcome { return e.primCall(fr, it, site, fn, k, args) })
		}
		if ct := e.cuts[fn]; ct != nil {
			return e.orPanic(fr, it, site, fn, fname(fn), func() []Outcome { return e.cutCall(fr, it, site, fn, ct, args) })
		}
		if fr.depth > 60 {
			e.fail("inlining too deep at %s", fname(fn))
			return nil
		}
		it.st.event(&Ev{k: evEnter, name: fname(fn), fn: fn, site: site})
		outs := e.exec(fn, args, binds, it.st, fr, site)
		if e.returns {
			for _, o := range outs {
				if !o.panic {
					o.st.event(&Ev{k: evReturn, call: &CallEv{fn: fn, name: fname(fn), args: args, res: o.res, in: fr.fn, site: site}, fn: fr.fn, site: site})
				}
			}
		}
		return outs
	}
	name := fn.RelString(nil)
	return e.orPanic(fr, it, site, fn, name, func() []Outcome { return e.external(fr, it, site, c, name, fn, args) })
}

// orPanic adds to the outcomes of a call those where it panics.
func (e *Engine) orPanic(fr *Frame, it *item, site ssa.Instruction, fn *ssa.Function, name string, call func() []Outcome) []Outcome {
	if e.panicsW == nil || e.recovered != nil || fr.only != nil {
		return call()
	}
	var outs []Outcome
	for _, v := range e.panicsW(fn, name) {
		st := it.st.clone()
		if o, ok := v.(Opq); ok {
			st.nils[o.s] = false // panic(nil) panics with a runtime error
		}
		st.event(&Ev{k: evNote, name: "panics", x: v, call: &CallEv{fn: fn, name: name, in: fr.fn, site: site}, fn: fr.fn, site: site})
		outs = append(outs, Outcome{st: st, panic: true, pv: v, at: site})
	}
	return append(outs, call()...)
}

// wrapsPkg: synthetic wrappers (promoted methods, thunks) of package methods.
func (e *Engine) wrapsPkg(fn *ssa.Function) bool {
	if fn.Synthetic == "" {
		return false
	}
	if fn.Object() != nil && fn.Object().Pkg() == e.p.Pkg.Pkg {
		return true
	}
	return false
}

// implementors lists the package's types implementing an interface.
func (e *Engine) implementors(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var r []types.Type
	for _, n := range e.p.Pkg.Pkg.Scope().Names() {
		tn, ok := e.p.Pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			r = append(r, tn.Type())
		}
		if types.Implements(types.NewPointer(tn.Type()), it) && !types.Implements(tn.Type(), it) {
			r = append(r, types.NewPointer(tn.Type()))
		}
	}
	return r
}

// closedInterface: an interface of the package with an unexported method, so
// that only types of the package implement it.
func (e *Engine) closedInterface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); !m.Exported() && m.Pkg() == e.p.Pkg.Pkg {
			return true
		}
	}
	return false
}

func (e *Engine) invoke(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, recv Value, args []Value) []Outcome {
	st := it.st
	// nil receiver
	nc := e.nilCond(recv)
	okn := st.decide(nc) == no || e.nonNilIface(st, recv)
	e.oblige(fr, site, "nilptr", c.String(), okn, func() string { return "method call on an interface that may be nil" })
	if !st.assume(nc.not()) {
		return nil
	}
	it2 := c.Value.Type()
	run := func(dyn types.Type, v Value, st *State) []Outcome {
		sel := e.p.Prog.MethodSets.MethodSet(dyn).Lookup(c.Method.Pkg(), c.Method.Name())
		if sel == nil {
			name := "(iface)." + c.Method.Name()
			return e.orPanic(fr, it, site, nil, name, func() []Outcome { return e.external(fr, it, site, c, name, nil, append([]Value{recv}, args...)) })
		}
		fn := e.p.Prog.MethodValue(sel)
		ni := *it
		ni.st = st
		return e.callFn(fr, &ni, site, c, fn, append([]Value{v}, args...), nil)
	}
	if iv, ok := recv.(IfaceV); ok {
		return run(iv.dyn, iv.v, st)
	}
	if e.closedInterface(it2) {
		o, ok := recv.(Opq)
		if ok {
			var outs []Outcome
			for _, t := range e.implementors(it2) {
				s2 := st.clone()
				cd := &Cond{k: cType, s: o.s, t: t}
				if s2.decide(cd) == no || !s2.assume(cd) {
					continue
				}
				outs = append(outs, run(t, e.asType(o, t), s2)...)
			}
			return outs
		}
	}
	name := "(" + types.TypeString(it2, nil) + ")." + c.Method.Name()
	return e.orPanic(fr, it, site, nil, name, func() []Outcome { return e.external(fr, it, site, c, name, nil, append([]Value{recv}, args...)) })
}

// nonNilIface: interfaces produced by operations that never yield nil.
func (e *Engine) nonNilIface(st *State, v Value) bool {
	o, ok := v.(Opq)
	if !ok {
		return false
	}
	if t, ok := e.terms[o.s]; ok {
		switch t.op {
		case "rType", "nonnil":
			return true
		}
	}
	k := e.syms.name(o.s)
	return strings.HasPrefix(k, "val ") && isReflectType(o.t)
}

// ---------------------------------------------------------------- builtins

func (e *Engine) builtin(fr *Frame, it *item, site ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, args []Value) Value {
	st := it.st
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case SliceV:
			return IntV{x.ln}
		case Opq:
			if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				e.noteMap(x, c.Args[0])
				return IntV{e.mapLen(st, x)}
			}
		case NilV:
			return IntV{constLin(0)}
		case PtrV:
			if a, ok := x.elem.Underlying().(*types.Array); ok {
				return IntV{constLin(a.Len())}
			}
		}
		return IntV{symLin(e.syms.ranged("len("+valKey(args[0])+")", 0, maxLen))}
	case "cap":
		if x, ok := args[0].(SliceV); ok {
			return IntV{x.cp}
		}
		return IntV{symLin(e.syms.ranged("cap("+valKey(args[0])+")", 0, maxLen))}
	case "append":
		return e.appendOp(fr, it, site, c, args)
	case "copy":
		dst, ok1 := args[0].(SliceV)
		src, ok2 := args[1].(SliceV)
		if !ok1 || !ok2 {
			return IntV{symLin(e.syms.ranged(e.syms.name(e.freshSym("copied")), 0, maxLen))}
		}
		return IntV{e.copySlice(fr, st, site, dst, src)}
	case "delete":
		st.event(&Ev{k: evMapDel, m: args[0], x: args[1], fn: fr.fn, site: site})
		if o, ok := args[0].(Opq); ok {
			e.noteMap(o, c.Args[0])
			e.mapWritten(st, o)
		}
		return nil
	case "clear":
		if o, ok := args[0].(Opq); ok {
			e.noteMap(o, c.Args[0])
			e.mapWritten(st, o)
		}
		return nil
	case "recover":
		// only where a deferred function calls it itself
		if e.recovered != nil && fr.deferred {
			st.event(&Ev{k: evNote, name: "recover", fn: fr.fn, site: site})
			return e.recovered
		}
		return NilV{}
	case "min", "max":
		if isInt(c.Args[0].Type()) {
			r := symLin(e.intSym(e.syms.name(e.freshSym(b.Name())), c.Args[0].Type()))
			best := e.lin(args[0])
			known := true
			for _, a := range args[1:] {
				l := e.lin(a)
				d, ok := best.addMul(l, -1)
				if !ok {
					known = false
					break
				}
				if b.Name() == "min" {
					if st.entails(d.neg()) {
					} else if st.entails(d) {
						best = l
					} else {
						known = false
					}
				} else {
					if st.entails(d) {
					} else if st.entails(d.neg()) {
						best = l
					} else {
						known = false
					}
				}
			}
			if known {
				return IntV{best}
			}
			for _, a := range args {
				l := e.lin(a)
				if b.Name() == "min" {
					st.addGe(l.sub(r))
				} else {
					st.addGe(r.sub(l))
				}
			}
			// one of two: lower bound by both mins
			return IntV{r}
		}
	case "print", "println":
		return nil
	case "close":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "String":
		if n, ok := args[len(args)-1].(IntV); ok {
			o := e.newObj(fmt.Sprintf("unsafestr%d", e.objs), types.Typ[types.Byte])
			st.event(&Ev{k: evNote, name: "unsafe.String", fn: fr.fn, site: site})
			return SliceV{base: o, ln: n.l, cp: n.l, str: true, elem: types.Typ[types.Byte]}
		}
	}
	if v, ok := site.(ssa.Value); ok && v.Type() != nil {
		if t, ok := v.Type().(*types.Tuple); ok && t.Len() == 0 {
			return nil
		}
		return e.fresh(v.Type(), e.syms.name(e.freshSym("builtin."+b.Name())), false)
	}
	return nil
}

func (e *Engine) copySlice(fr *Frame, st *State, site ssa.Instruction, dst, src SliceV) Lin {
	d := st.norm(dst.ln.sub(src.ln))
	var n Lin
	switch {
	case st.entails(d): // dst at least as long
		n = src.ln
	case st.entails(d.neg()):
		n = dst.ln
	default:
		s := e.syms.ranged(e.syms.name(e.freshSym("copied")), 0, maxLen)
		n = symLin(s)
		st.addGe(dst.ln.sub(n))
		st.addGe(src.ln.sub(n))
	}
	st.event(&Ev{k: evCopy, val: dst, x: src, fn: fr.fn, site: site})
	full := st.entails(n.sub(dst.ln)) && st.entails(dst.ln.sub(n))
	e.clobberAt(st, dst)
	if full && dst.base.fresh && st.norm(dst.off).isConst() && dst.off.c == 0 {
		cp := src
		cp.ln = n
		st.heap[cellKey{dst.base, "#content"}] = cp
		st.wr = append(st.wr[:len(st.wr):len(st.wr)], wrote{PtrV{obj: dst.base, path: "#content"}, nil})
	}
	return n
}

// clobberAt forgets the elements of a slice, but not those before it.
func (e *Engine) clobberAt(st *State, s SliceV) {
	keep := map[cellKey]Value{}
	for i := int64(0); i < 64; i++ {
		k := cellKey{s.base, idxPath(constLin(i))}
		if v, ok := st.heap[k]; ok && st.entails(s.off.addc(-i-1)) {
			keep[k] = v
		}
	}
	e.clobber(st, s.base)
	for k, v := range keep {
		st.heap[k] = v
	}
}

// clobber forgets the elements of an object.
func (e *Engine) clobber(st *State, o *Obj) {
	for k := range st.heap {
		if k.o == o && (strings.HasPrefix(k.path, "[") || k.path == "#content") {
			delete(st.heap, k)
		}
	}
	st.ver[o] = e.newEpoch()
	st.wr = append(st.wr[:len(st.wr):len(st.wr)], wrote{PtrV{obj: o, path: "[*]"}, nil})
}

// appendOp models append with a log of what was appended.
func (e *Engine) appendOp(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, args []Value) Value {
	st := it.st
	s, ok := args[0].(SliceV)
	if !ok {
		if _, isNil := args[0].(NilV); !isNil {
			return e.fresh(c.Args[0].Type(), e.syms.name(e.freshSym("append")), false)
		}
		s = e.zero(c.Args[0].Type()).(SliceV)
	}
	el := s.elem
	if len(args) < 2 {
		return s
	}
	a, ok := args[1].(SliceV)
	if !ok {
		return s
	}
	if a.nl.k == 1 && a.ln.isConst() && a.ln.c == 0 && !a.str {
		return s
	}
	if a.str && a.ln.isConst() && a.ln.c == 0 {
		return s
	}
	o := e.newObj(fmt.Sprintf("app%d", e.objs), el)
	o.alloc = site
	o.fresh = s.base.fresh || s.nl.k == 1 || s.base.key == "nilslice"
	capSame := st.norm(s.cp.sub(s.ln))
	if s.nl.k != 1 && !(capSame.isConst() && capSame.c == 0) {
		o.from = []*Obj{s.base}
	}
	ln := st.norm(s.ln.add(a.ln))
	st.addGe(constLin(maxLen).sub(ln))
	cs := e.syms.ranged(e.syms.name(e.freshSym("cap")), 0, maxLen)
	st.addGe(symLin(cs).sub(ln))
	r := SliceV{base: o, ln: ln, cp: symLin(cs), elem: el, log: s.log, skip: s.skip}
	if s.log == nil && s.ln.isConst() && s.ln.c == 0 {
		r.log = &Tok{k: tStart}
		r.skip = Lin{}
	}
	at := r.skip.add(s.ln)
	st.event(&Ev{k: evNote, name: "append", val: s, x: a, fn: fr.fn, site: site})
	// cells of the old part
	e.carryCells(st, s, o)
	short := a.ln.isConst() && a.ln.c <= 32 && (a.base.fresh || strings.HasPrefix(a.base.key, "str:"))
	if short && a.off.isConst() {
		log := r.log
		for i := int64(0); i < a.ln.c; i++ {
			v := e.load(st, e.elemPtr(a, constLin(i)), el)
			pos := st.norm(at.addc(i))
			st.heap[cellKey{o, idxPath(st.norm(s.ln.addc(i)))}] = v
			if log == nil {
				continue
			}
			t := &Tok{k: tByte, prev: log, n: constLin(1), at: pos, val: v, fn: fr.fn}
			if isByte(el) {
				t.l = e.lin(v)
			}
			log = t
		}
		r.log = log
	} else if r.log != nil {
		// appending something that was itself built from tokens: splice
		if toks := e.spliceable(st, a); toks != nil {
			log := r.log
			p := at
			for _, t := range toks {
				n := *t
				n.prev = log
				n.at = st.norm(p)
				p = p.add(t.n)
				log = &n
			}
			r.log = log
		} else {
			v := a
			r.log = &Tok{k: tBytes, prev: r.log, n: a.ln, at: at, v: e.contentOf(st, v), fn: fr.fn}
		}
	}
	return r
}

// carryCells copies what is known of the first bytes of a slice that is
// extended.
func (e *Engine) carryCells(st *State, s SliceV, o *Obj) {
	if !isByte(s.elem) || !s.base.fresh || !s.off.isConst() {
		return
	}
	if s.ln.isConst() && s.ln.c <= 64 {
		for i := int64(0); i < s.ln.c; i++ {
			st.heap[cellKey{o, idxPath(constLin(i))}] = e.load(st, e.elemPtr(s, constLin(i)), s.elem)
		}
		return
	}
	for i := int64(0); i < 16; i++ {
		v, ok := st.heap[cellKey{s.base, idxPath(s.off.addc(i))}]
		if ok && st.entails(s.ln.addc(-i-1)) {
			st.heap[cellKey{o, idxPath(constLin(i))}] = v
		}
	}
}

// contentOf resolves copies and conversions to the bytes they were made from.
func (e *Engine) contentOf(st *State, v SliceV) *SliceV {
	for i := 0; i < 8; i++ {
		if v.fromConv != nil {
			ln := v.ln
			v = *v.fromConv
			v.ln = ln
			continue
		}
		if c, ok := st.heap[cellKey{v.base, "#content"}]; ok {
			src := c.(SliceV)
			src.off = src.off.add(v.off)
			src.ln = v.ln
			v = src
			continue
		}
		break
	}
	return &v
}

// spliceable returns the tokens of a slice that consists of nothing but
// appended tokens.
func (e *Engine) spliceable(st *State, a SliceV) []*Tok {
	if a.log == nil || a.str {
		return nil
	}
	if !(a.skip.isConst() && a.skip.c == 0) {
		// skipped prefix must be the whole start
		l := a.log.list()
		if len(l) > 0 && l[0].k == tStart {
			if d := st.norm(l[0].n.sub(a.skip)); d.isConst() && d.c == 0 && len(l) > 1 {
				return l[1:]
			}
		}
		for i, t := range l {
			if t.k == tLoopIn {
				return nil
			}
			if d := st.norm(t.at.add(t.n).sub(a.skip)); d.isConst() && d.c == 0 && t.k != tStart && i+1 < len(l) {
				for _, t := range l[i+1:] {
					if t.k == tLoopIn {
						return nil
					}
				}
				return l[i+1:]
			}
		}
		return nil
	}
	l := a.log.list()
	if len(l) < 2 || l[0].k != tStart {
		return nil
	}
	if n := st.norm(l[0].n); !n.isConst() || n.c != 0 {
		// the start is a short fresh array
		if n.isConst() && n.c <= 16 && l[0].v != nil && l[0].v.base.fresh && isByte(a.elem) {
			var r []*Tok
			for i := int64(0); i < n.c; i++ {
				v := e.load(st, e.elemPtr(*l[0].v, constLin(i)), a.elem)
				r = append(r, &Tok{k: tByte, l: e.lin(v), val: v, n: constLin(1)})
			}
			return append(r, l[1:]...)
		}
		return nil
	}
	for _, t := range l[1:] {
		if t.k == tLoopIn {
			return nil
		}
	}
	return l[1:]
}

func (e *Engine) elemPtr(s SliceV, i Lin) PtrV {
	off := s.off.add(i)
	return PtrV{obj: s.base, path: idxPath(off), idx: &off, off: off, elem: s.elem}
}

// ---------------------------------------------------------------- externals

func resTypes(c *ssa.CallCommon) []types.Type {
	var r []types.Type
	t := c.Signature().Results()
	for i := 0; i < t.Len(); i++ {
		r = append(r, t.At(i).Type())
	}
	return r
}

// writers are external functions that write to memory passed to them
// (argument indices).
var writers = map[string][]int{
	"(encoding/binary.littleEndian).PutUint16": {1}, "(encoding/binary.littleEndian).PutUint32": {1}, "(encoding/binary.littleEndian).PutUint64": {1},
	"(encoding/binary.bigEndian).PutUint16": {1}, "(encoding/binary.bigEndian).PutUint32": {1}, "(encoding/binary.bigEndian).PutUint64": {1},
	"encoding/binary.PutUvarint": {0}, "encoding/binary.PutVarint": {0},
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "(io.Reader).Read": {1}, "(*bytes.Reader).Read": {1}, "(*bytes.Buffer).Read": {1},
	"sort.Slice": {0}, "sort.Ints": {0}, "sort.Strings": {0}, "sort.Sort": {0}, "slices.Sort": {0}, "slices.Reverse": {0},
	"crypto/rand.Read": {0}, "math/rand.Read": {0},
	"github.com/golang/snappy.Encode": {0}, "github.com/golang/snappy.Decode": {0},
	"github.com/DataDog/zstd.Decompress": {0}, "github.com/DataDog/zstd.CompressLevel": {0},
	"compress/flate.NewReader": {},
}

func (e *Engine) external(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, name string, fn *ssa.Function, args []Value) []Outcome {
	st := it.st
	rts := resTypes(c)
	call := &CallEv{fn: fn, name: name, args: args, in: fr.fn, site: site}
	one := func(res ...Value) []Outcome {
		call.res = res
		st.event(&Ev{k: evCall, call: call, fn: fr.fn, site: site})
		return []Outcome{{st: st, res: res}}
	}
	oblLen := func(s SliceV, n int64) {
		d := s.ln.addc(-n)
		ok := st.entails(d)
		e.oblige(fr, site, "bounds", name, ok, func() string {
			return fmt.Sprintf("%s needs %d bytes, slice has %s", name, n, e.syms.str(st.norm(s.ln)))
		})
		st.addGe(d)
	}
	bytesAt := func(s SliceV, n int, big bool) Lin { return e.leBytes(st, s, n, big, rts[0]) }
	putBytes := func(s SliceV, x Lin, n int, big bool) {
		v := e.vec(x)
		for i := 0; i < n; i++ {
			sh := i
			if big {
				sh = n - 1 - i
			}
			var b bitvec
			for j := 0; j < 8; j++ {
				b[j] = v[8*sh+j]
			}
			e.store(st, e.elemPtr(s, constLin(int64(i))), IntV{e.fromBits(st, &b, types.Typ[types.Byte])})
		}
	}
	switch name {
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.bigEndian).Uint16",
		"(encoding/binary.littleEndian).Uint32", "(encoding/binary.bigEndian).Uint32",
		"(encoding/binary.littleEndian).Uint64", "(encoding/binary.bigEndian).Uint64":
		if s, ok := args[1].(SliceV); ok {
			n := int64(2)
			if strings.HasSuffix(name, "32") {
				n = 4
			} else if strings.HasSuffix(name, "64") {
				n = 8
			}
			oblLen(s, n)
			return one(IntV{bytesAt(s, int(n), strings.Contains(name, "big"))})
		}
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.bigEndian).PutUint16",
		"(encoding/binary.littleEndian).PutUint32", "(encoding/binary.bigEndian).PutUint32",
		"(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint64":
		if s, ok := args[1].(SliceV); ok {
			n := int64(2)
			if strings.HasSuffix(name, "32") {
				n = 4
			} else if strings.HasSuffix(name, "64") {
				n = 8
			}
			oblLen(s, n)
			putBytes(s, e.lin(args[2]), int(n), strings.Contains(name, "big"))
			return one()
		}
	case "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint64", "(encoding/binary.littleEndian).AppendUint16":
		if s, ok := args[1].(SliceV); ok {
			n := int64(2)
			if strings.HasSuffix(name, "32") {
				n = 4
			} else if strings.HasSuffix(name, "64") {
				n = 8
			}
			o := e.newObj(fmt.Sprintf("put%d", e.objs), types.Typ[types.Byte])
			o.fresh, o.zero = true, true
			t := SliceV{base: o, ln: constLin(n), cp: constLin(n), elem: types.Typ[types.Byte]}
			putBytes(t, e.lin(args[2]), int(n), false)
			return one(e.appendOp(fr, it, site, &ssa.CallCommon{Args: []ssa.Value{c.Args[1]}}, []Value{s, t}))
		}
	case "encoding/binary.AppendUvarint":
		if s, ok := args[0].(SliceV); ok {
			return e.appendVarint(fr, st, site, s, nil, e.lin(args[1]))
		}
	case "encoding/binary.PutUvarint":
		if s, ok := args[0].(SliceV); ok {
			x := e.lin(args[1])
			good := false
			for k := int64(1); k <= 10 && !good; k++ {
				if !st.entails(s.ln.addc(-k)) {
					break
				}
				if k == 10 || (7*k < 62 && st.entails(constLin(int64(1)<<uint(7*k)-1).sub(x)) && st.entails(x)) {
					good = true
				}
			}
			e.oblige(fr, site, "bounds", name, good, func() string {
				return fmt.Sprintf("PutUvarint of %s may need more than %s bytes", e.syms.str(st.norm(x)), e.syms.str(st.norm(s.ln)))
			})
			e.clobberAt(st, s)
			n := e.syms.ranged(e.syms.name(e.freshSym("uvarintlen")), 1, 10)
			return one(IntV{symLin(n)})
		}
	case "errors.New":
		s := e.freshSym("err")
		st.nils[s] = false
		e.terms[s] = Term{"nonnil", args}
		return one(Opq{s, rts[0]})
	case "fmt.Errorf":
		s := e.freshSym("err")
		st.nils[s] = false
		e.terms[s] = Term{"nonnil", args}
		return one(Opq{s, rts[0]})
	case "math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits":
		return one(e.floatBits(name, args[0], rts[0]))
	case "(*sync.Pool).Get":
		s := e.freshSym("pooled")
		e.terms[s] = Term{"poolget", args}
		st.nils[s] = false
		return one(Opq{s, rts[0]})
	case "github.com/golang/snappy.Encode":
		return one(e.freshBytes("snappy", nil))
	case "github.com/golang/snappy.DecodedLen":
		s := e.freshSym("err.snappylen")
		n := e.syms.ranged(e.syms.name(e.freshSym("snappylen")), 0, math.MaxUint32)
		if b, ok := args[0].(SliceV); ok {
			// a length needs at least one byte
			st.whenNil(s, b.ln.addc(-1))
		}
		return one(IntV{symLin(n)}, Opq{s, rts[1]})
	case "github.com/golang/snappy.Decode":
		s := e.freshSym("err.snappy")
		// the result is dst[:n] or new memory of the declared length
		var outs []Outcome
		if d, ok := args[0].(SliceV); ok && d.nl.k != 1 {
			s2 := st.clone()
			n := e.syms.ranged(e.syms.name(e.freshSym("len.snappy")), 0, math.MaxUint32)
			s2.addGe(d.ln.sub(symLin(n)))
			r := d
			r.ln = symLin(n)
			r.log = nil
			e.clobber(s2, d.base)
			c2 := *call
			c2.res = []Value{r, Opq{s, rts[1]}}
			s2.event(&Ev{k: evCall, call: &c2, fn: fr.fn, site: site})
			outs = append(outs, Outcome{st: s2, res: c2.res})
		}
		return append(outs, one(e.freshBytes("snappydec", nil), Opq{s, rts[1]})...)
	case "github.com/DataDog/zstd.Decompress":
		s := e.freshSym("err.zstd")
		var outs []Outcome
		if d, ok := args[0].(SliceV); ok && d.nl.k != 1 {
			s2 := st.clone()
			n := e.syms.ranged(e.syms.name(e.freshSym("len.zstd")), 0, maxLen)
			s2.addGe(d.cp.sub(symLin(n)))
			r := d
			r.ln = symLin(n)
			r.log = nil
			e.clobber(s2, d.base)
			c2 := *call
			c2.res = []Value{r, Opq{s, rts[1]}}
			s2.event(&Ev{k: evCall, call: &c2, fn: fr.fn, site: site})
			outs = append(outs, Outcome{st: s2, res: c2.res})
		}
		return append(outs, one(e.freshBytes("zstddec", nil), Opq{s, rts[1]})...)
	case "github.com/DataDog/zstd.CompressLevel":
		s := e.freshSym("err.zstd")
		return one(e.freshBytes("zstd", nil), Opq{s, rts[1]})
	case "bytes.NewBuffer":
		s := e.freshSym("buffer")
		st.nils[s] = false
		o := e.objFor("at("+e.syms.name(s)+")", rts[0].(*types.Pointer).Elem())
		o.fresh = true
		st.heap[cellKey{o, "#bytes"}] = args[0]
		return one(PtrV{obj: o, elem: o.typ})
	case "bytes.NewReader", "strings.NewReader":
		s := e.freshSym("reader")
		o := e.objFor("at("+e.syms.name(s)+")", rts[0].(*types.Pointer).Elem())
		o.fresh = true
		if b, ok := args[0].(SliceV); ok {
			st.heap[cellKey{o, "#bytes"}] = b
		}
		return one(PtrV{obj: o, elem: o.typ})
	case "(*bytes.Buffer).Bytes":
		return one(e.freshBytes("bufbytes", nil))
	case "compress/zlib.NewReader":
		s := e.freshSym("err.zlib")
		z := e.freshSym("zreader")
		// non-nil if the error is nil
		st.conds = append(st.conds[:len(st.conds):len(st.conds)], condFact{s: s, ref: z})
		return one(Opq{z, rts[0]}, Opq{s, rts[1]})
	case "compress/zlib.NewWriterLevel":
		s := e.freshSym("err.zlib")
		o := e.newObj(fmt.Sprintf("zwriter%d", e.objs), rts[0].(*types.Pointer).Elem())
		o.fresh = true
		return one(PtrV{obj: o, elem: o.typ, nl: Nil{2, e.freshSym("nil(zw)")}}, Opq{s, rts[1]})
	}
	if strings.HasPrefix(name, "(reflect.") || strings.HasPrefix(name, "reflect.") || strings.HasPrefix(name, "(*reflect.") {
		if r, ok := e.reflectCall(fr, it, site, c, name, args, rts); ok {
			call.res = r
			st.event(&Ev{k: evCall, call: call, fn: fr.fn, site: site})
			return []Outcome{{st: st, res: r}}
		}
	}
	// default: unknown results; memory of known writers is forgotten
	for _, i := range writers[name] {
		if i < len(args) {
			if s, ok := args[i].(SliceV); ok {
				e.clobberAt(st, s)
			}
		}
	}
	if fn == nil || !strings.HasPrefix(name, "(reflect.") {
		for _, a := range args {
			if p, ok := a.(PtrV); ok && p.obj != nil && fn != nil && !e.readOnlyPkg(fn) {
				e.havocCell(st, p, "ext")
			}
		}
	}
	switch name {
	case "(reflect.StructTag).Get":
		return one(e.fresh(rts[0], "stag("+e.argKeys(args)+")", false))
	case "(reflect.StructTag).Lookup":
		v := e.fresh(rts[0], "stag("+e.argKeys(args)+")", false)
		no := st.clone()
		outs := one(v, BoolV{condTrue})
		if s, ok := v.(SliceV); ok && no.addGe(s.ln.neg()) {
			c := *call
			c.res = []Value{v, BoolV{condFalse}}
			no.event(&Ev{k: evCall, call: &c, fn: fr.fn, site: site})
			outs = append(outs, Outcome{st: no, res: c.res})
		}
		return outs
	case "(reflect.StructField).IsExported":
		if o, ok := args[0].(Opq); ok {
			pk := e.fresh(types.Typ[types.String], "field.PkgPath("+valKey(o)+")", false)
			return one(BoolV{e.eqCond(st, pk, e.strConst(""), types.Typ[types.String])})
		}
	}
	if name == "strings.Title" || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "(encoding/json.Number)") {
		var res []Value
		for i, t := range rts {
			res = append(res, e.fresh(t, fmt.Sprintf("%s#%d(%s)", name, i, e.argKeys(args)), false))
		}
		return one(res...)
	}
	var res []Value
	id := e.syms.name(e.freshSym(name))
	for i, t := range rts {
		v := e.fresh(t, fmt.Sprintf("%s.%d", id, i), false)
		if p, ok := v.(PtrV); ok && strings.HasPrefix(name, "New") {
			_ = p
		}
		res = append(res, v)
	}
	return one(res...)
}

func (e *Engine) argKeys(args []Value) string {
	var s []string
	for _, a := range args {
		s = append(s, e.keyStr(a))
	}
	return strings.Join(s, ",")
}

// readOnlyPkg: functions that do not write through pointers to package data.
func (e *Engine) readOnlyPkg(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	switch fn.Pkg.Pkg.Path() {
	case "fmt", "errors", "strings", "strconv", "reflect", "runtime", "math":
		return true
	}
	return false
}

// havocCell makes what p points to unknown.
func (e *Engine) havocCell(st *State, p PtrV, why string) {
	if p.obj == nil || p.elem == nil {
		return
	}
	for k := range st.heap {
		if k.o == p.obj && (strings.HasPrefix(k.path, p.path)) {
			delete(st.heap, k)
		}
	}
	s := e.freshSym(why)
	e.outs = append(e.outs, s)
	e.store(st, p, e.fresh(p.elem, e.syms.name(s), p.obj.input))
}

func (e *Engine) freshBytes(what string, _ *Obj) SliceV {
	id := e.syms.name(e.freshSym(what))
	v := e.fresh(types.NewSlice(types.Typ[types.Byte]), id, false).(SliceV)
	v.base.fresh = true
	return v
}

func (e *Engine) floatBits(name string, a Value, t types.Type) Value {
	inv := map[string]string{
		"math.Float32bits": "math.Float32frombits", "math.Float64bits": "math.Float64frombits",
		"math.Float32frombits": "math.Float32bits", "math.Float64frombits": "math.Float64bits",
	}[name]
	if o, ok := a.(Opq); ok {
		if tm, ok := e.terms[o.s]; ok && tm.op == inv {
			return tm.args[0]
		}
	}
	if i, ok := a.(IntV); ok {
		if s, ok := i.l.single(); ok {
			if tm, ok := e.terms[s]; ok && tm.op == inv {
				return tm.args[0]
			}
		}
	}
	if isInt(t) {
		s := e.mkSym(name, a)
		lo, hi, hasHi := intRange(t)
		in := &e.syms.info[s]
		in.lo, in.hasLo = lo, true
		if hasHi {
			in.hi, in.hasHi = hi, true
		}
		return IntV{symLin(s)}
	}
	return e.mk(name, t, a)
}

// ---------------------------------------------------------------- reflect

var kindOf = map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
	types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12, types.Float32: 13, types.Float64: 14,
	types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}

const (
	kInvalid = 0
	kArray   = 17
	kFunc    = 19
	kIface   = 20
	kMap     = 21
	kPtr     = 22
	kSlice   = 23
	kString  = 24
	kStruct  = 25
)

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return kindOf[u.Kind()]
	case *types.Array:
		return kArray
	case *types.Chan:
		return 18
	case *types.Signature:
		return kFunc
	case *types.Interface:
		return kIface
	case *types.Map:
		return kMap
	case *types.Pointer:
		return kPtr
	case *types.Slice:
		return kSlice
	case *types.Struct:
		return kStruct
	}
	return 0
}

// kindSym is the kind of a reflect.Value or reflect.Type.
func (e *Engine) kindLin(v Value, isType bool) Lin {
	if o, ok := v.(Opq); ok {
		if t, ok := e.terms[o.s]; ok {
			switch t.op {
			case "rValueOf":
				if iv, ok := t.args[0].(IfaceV); ok {
					return constLin(int64(reflectKind(iv.dyn)))
				}
				if _, ok := t.args[0].(NilV); ok {
					return constLin(kInvalid)
				}
			case "rElem":
				// Elem of a pointer to a known type
				if st := e.staticType(t.args[0]); st != nil {
					if p, ok := st.Underlying().(*types.Pointer); ok {
						return constLin(int64(reflectKind(p.Elem())))
					}
				}
			case "zero":
				return constLin(kInvalid)
			case "rType":
				return e.kindLin(t.args[0], false)
			}
		}
		return symLin(e.syms.small("kind("+e.syms.name(o.s)+")", 32))
	}
	return symLin(e.syms.small("kind("+valKey(v)+")", 32))
}

// staticType is the Go type a reflect.Value is known to have.
func (e *Engine) staticType(v Value) types.Type {
	o, ok := v.(Opq)
	if !ok {
		return nil
	}
	t, ok := e.terms[o.s]
	if !ok {
		return nil
	}
	switch t.op {
	case "rValueOf":
		if iv, ok := t.args[0].(IfaceV); ok {
			return iv.dyn
		}
	case "rElem":
		if s := e.staticType(t.args[0]); s != nil {
			if p, ok := s.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
	}
	return nil
}

func (e *Engine) reflectEpoch(st *State) string {
	if n := st.epoch["reflect"]; n > 0 {
		return fmt.Sprintf("@%d", n)
	}
	return ""
}

func (e *Engine) reflectCall(fr *Frame, it *item, site ssa.Instruction, c *ssa.CallCommon, name string, args []Value, rts []types.Type) ([]Value, bool) {
	st := it.st
	short := name[strings.LastIndexByte(name, '.')+1:]
	isMethod := strings.HasPrefix(name, "(reflect.Value)")
	isType := strings.HasPrefix(name, "(reflect.Type)")
	ep := e.reflectEpoch(st)
	mk := func(op string, a ...Value) Value { return e.mk(op, rts[0], a...) }
	switch {
	case name == "reflect.ValueOf":
		return []Value{mk("rValueOf", args[0])}, true
	case name == "reflect.New" || name == "reflect.Zero" || name == "reflect.MakeMap" || name == "reflect.MakeMapWithSize" ||
		name == "reflect.MakeSlice" || name == "reflect.Indirect" || name == "reflect.PtrTo" || name == "reflect.TypeOf" || name == "reflect.Append" || name == "reflect.AppendSlice":
		if name == "reflect.MakeSlice" {
			n, cp := e.lin(args[1]), e.lin(args[2])
			e.allocObl(fr, it, site, n, 16, "reflect.MakeSlice", true)
			if !n.eq(cp) {
				e.allocObl(fr, it, site, cp, 16, "reflect.MakeSlice cap", true)
			}
		}
		if name == "reflect.MakeMapWithSize" {
			e.allocObl(fr, it, site, e.lin(args[1]), 32, "reflect.MakeMapWithSize", true)
		}
		s := e.freshSym("r" + short)
		e.terms[s] = Term{"r" + short, args}
		st.nils[s] = false
		return []Value{Opq{s, rts[0]}}, true
	case name == "(reflect.Value).MapRange":
		o := e.newObj(fmt.Sprintf("mapiter%d", e.objs), rts[0].(*types.Pointer).Elem())
		o.fresh = true
		return []Value{PtrV{obj: o, elem: o.typ}}, true
	case name == "(*reflect.MapIter).Next":
		return []Value{BoolV{&Cond{k: cSym, s: e.freshSym("iternext")}}}, true
	case name == "(*reflect.MapIter).Key", name == "(*reflect.MapIter).Value":
		// the pair that the last step came to
		at := ""
		for ev := st.ev; ev != nil && at == ""; ev = ev.prev {
			if ev.k == evCall && ev.call.name == "(*reflect.MapIter).Next" && valKey(ev.call.args[0]) == valKey(args[0]) {
				at = valKey(ev.call.res[0])
			}
		}
		return []Value{e.mk("rIter"+short, rts[0], args[0], StrTag(at))}, true
	case name == "reflect.Copy":
		st.epoch["reflect"] = e.newEpoch()
		return []Value{IntV{symLin(e.syms.ranged(e.syms.name(e.freshSym("copied")), 0, maxLen))}}, true
	case isMethod || isType:
	default:
		return nil, false
	}
	rv := args[0]
	if isMethod {
		switch short {
		case "Kind":
			return []Value{IntV{e.kindLin(rv, false)}}, true
		case "Type":
			s := e.mkSym("rType", rv)
			st.nils[s] = false
			return []Value{Opq{s, rts[0]}}, true
		case "Elem":
			// the pointee does not depend on time for pointers that are fixed,
			// but interfaces can be set
			o := e.mk("rElem", rts[0], rv)
			if k := e.kindLin(rv, false); k.isConst() && k.c == kPtr {
				return []Value{o}, true
			}
			if ep != "" {
				o = e.mk("rElem", rts[0], rv, StrTag(ep))
			}
			return []Value{o}, true
		case "Field", "Index", "MapIndex", "Addr", "FieldByName", "Slice", "MapKeys", "Convert":
			a := append([]Value(nil), args...)
			if ep != "" && short != "Field" && short != "Addr" && short != "Index" {
				a = append(a, StrTag(ep))
			}
			if short == "MapKeys" {
				s := e.mkSym("rMapKeys", a...)
				v := e.fresh(rts[0], e.syms.name(s), false).(SliceV)
				v.nl = Nil{}
				// one key for each element
				v.ln = symLin(e.syms.ranged("rlen("+valKey(rv)+")"+ep, 0, maxLen))
				v.cp = v.ln
				return []Value{v}, true
			}
			return []Value{mk("r"+short, a...)}, true
		case "Len", "Cap":
			if o, ok := rv.(Opq); ok {
				if tm := e.terms[o.s]; tm.op == "rMakeSlice" {
					return []Value{IntV{e.lin(tm.args[1])}}, true
				}
			}
			k := "rlen(" + valKey(rv) + ")" + ep
			return []Value{IntV{symLin(e.syms.ranged(k, 0, maxLen))}}, true
		case "NumField":
			k := "rnumfield(" + valKey(rv) + ")"
			return []Value{IntV{symLin(e.syms.ranged(k, 0, 1<<20))}}, true
		case "IsNil":
			if o, ok := rv.(Opq); ok {
				if tm := e.terms[o.s]; tm.op == "rValueOf" {
					if x, ok := tm.args[0].(Opq); ok {
						return []Value{BoolV{&Cond{k: cNil, s: e.syms.get("pnil(" + e.syms.name(x.s) + ")")}}}, true
					}
				}
			}
			return []Value{BoolV{&Cond{k: cSym, s: e.syms.get("rIsNil(" + valKey(rv) + ")" + ep)}}}, true
		case "IsValid":
			if o, ok := rv.(Opq); ok {
				if k := e.kindLin(o, false); !k.isConst() {
					var set dset
					for i := 1; i < 32; i++ {
						set.put(i)
					}
					if s, ok := k.single(); ok {
						return []Value{BoolV{&Cond{k: cTab, s: s, set: set}}}, true
					}
				} else {
					return []Value{BoolV{condConst(k.c != 0)}}, true
				}
			}
			return []Value{BoolV{&Cond{k: cSym, s: e.syms.get("rIsValid(" + valKey(rv) + ")" + ep)}}}, true
		case "Int", "Uint", "Bool", "Float", "String", "Bytes", "Pointer", "UnsafePointer", "Interface", "CanSet", "CanAddr", "CanInterface":
			if short == "Interface" {
				if o, ok := rv.(Opq); ok {
					if tm := e.terms[o.s]; tm.op == "rValueOf" {
						return []Value{tm.args[0]}, true
					}
				}
				s := e.mkSym("rInterface", rv, StrTag(ep))
				return []Value{Opq{s, rts[0]}}, true
			}
			s := e.mkSym("r"+short, rv, StrTag(ep))
			v := e.fresh(rts[0], e.syms.name(s), true)
			return []Value{v}, true
		case "SetMapIndex":
			// panics with a runtime error on a nil map
			ok := e.mapSettable(st, rv)
			e.oblige(fr, site, "nilmap", c.String(), ok, func() string { return "SetMapIndex on a map that may be nil" })
			st.epoch["reflect"] = e.newEpoch()
			e.keepNonNil(st, rv)
			return nil, true
		case "Set", "SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes", "SetLen", "SetCap", "Clear", "SetZero":
			st.epoch["reflect"] = e.newEpoch()
			nep := e.reflectEpoch(st)
			if short == "Set" {
				if o, ok := args[1].(Opq); ok {
					if tm := e.terms[o.s]; tm.op == "rMakeMap" || tm.op == "rMakeMapWithSize" || tm.op == "rNew" {
						st.bools[e.syms.get("rIsNil("+valKey(rv)+")"+nep)] = false
					}
					if tm := e.terms[o.s]; tm.op == "rMakeSlice" {
						k := e.syms.ranged("rlen("+valKey(rv)+")"+nep, 0, maxLen)
						d := symLin(k).sub(e.lin(tm.args[1]))
						st.addGe(d)
						st.addGe(d.neg())
					}
				}
				// a value stored through a known pointer
				e.reflectStore(st, rv, args[1])
			}
			return nil, true
		}
	}
	if isType {
		switch short {
		case "Kind":
			return []Value{IntV{e.kindLin(rv, true)}}, true
		case "NumField":
			k := "rnumfield(" + valKey(rv) + ")"
			return []Value{IntV{symLin(e.syms.ranged(k, 0, 1<<20))}}, true
		}
		s := e.mkSym("t"+short, args...)
		if len(rts) == 1 {
			if isReflectType(rts[0]) {
				st.nils[s] = false
			}
			return []Value{e.fresh(rts[0], e.syms.name(s), false)}, true
		}
	}
	return nil, false
}

// keepNonNil carries the knowledge that a map is not nil over an update.
func (e *Engine) keepNonNil(st *State, rv Value) {
	st.bools[e.syms.get("rIsNil("+valKey(rv)+")"+e.reflectEpoch(st))] = false
}

// mapSettable: the map was seen not to be nil.
func (e *Engine) mapSettable(st *State, rv Value) bool {
	pre := "rIsNil(" + valKey(rv) + ")"
	for s, v := range st.bools {
		if !v && strings.HasPrefix(e.syms.name(s), pre) {
			return true
		}
	}
	return false
}

// reflectStore records Set on the element of a pointer the analysis knows.
func (e *Engine) reflectStore(st *State, rv, x Value) {
	o, ok := rv.(Opq)
	if !ok {
		return
	}
	tm, ok := e.terms[o.s]
	if !ok || tm.op != "rElem" {
		return
	}
	b, ok := tm.args[0].(Opq)
	if !ok {
		return
	}
	bt, ok := e.terms[b.s]
	if !ok || bt.op != "rValueOf" {
		return
	}
	iv, ok := bt.args[0].(IfaceV)
	if !ok {
		return
	}
	p, ok := iv.v.(PtrV)
	if !ok || p.obj == nil {
		return
	}
	var v Value
	if xo, ok := x.(Opq); ok {
		if xt, ok := e.terms[xo.s]; ok && xt.op == "rValueOf" {
			v = xt.args[0]
		}
	}
	if v == nil {
		v = e.mk("rInterface", p.elem, x, StrTag("set"))
	}
	st.event(&Ev{k: evStore, ptr: p, val: v, name: "reflect"})
	e.store(st, p, v)
}
