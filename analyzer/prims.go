package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Primitives are the small functions that read or write a varint. Their bodies
// are checked bit by bit against the wire format (every one of the at most ten
// iterations of their loop is interpreted); calls are then summarised exactly.

type primKind int8

const (
	primRead     primKind = iota + 1 // func([]byte) (int, int, error)
	primWrite                        // func([]byte, uint) []byte
	primTagWrite                     // func([]byte, byte, uint) []byte
)

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

func isBasic(t types.Type, ks ...types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	for _, k := range ks {
		if b.Kind() == k {
			return true
		}
	}
	return false
}

var errType = types.Universe.Lookup("error").Type()

// findPrims recognises the varint functions by signature and verifies them.
func (e *Engine) findPrims() {
	e.primInfo = map[*ssa.Function]*primInfo{}
	for _, f := range e.p.Funcs {
		if f.Signature.Recv() != nil || f.Blocks == nil || len(f.FreeVars) > 0 || len(e.info(f).loops) == 0 {
			continue
		}
		ps, rs := f.Signature.Params(), f.Signature.Results()
		var k primKind
		switch {
		case ps.Len() == 1 && isByteSlice(ps.At(0).Type()) && rs.Len() == 3 &&
			isBasic(rs.At(0).Type(), types.Int, types.Uint, types.Uint64, types.Int64) && isBasic(rs.At(1).Type(), types.Int) && types.Identical(rs.At(2).Type(), errType):
			k = primRead
		case ps.Len() == 2 && isByteSlice(ps.At(0).Type()) && isBasic(ps.At(1).Type(), types.Uint, types.Uint64) && rs.Len() == 1 && isByteSlice(rs.At(0).Type()):
			k = primWrite
		case ps.Len() == 3 && isByteSlice(ps.At(0).Type()) && isByte(ps.At(1).Type()) && isBasic(ps.At(2).Type(), types.Uint, types.Uint64) && rs.Len() == 1 && isByteSlice(rs.At(0).Type()):
			k = primTagWrite
		}
		if k == 0 {
			continue
		}
		info := &primInfo{fn: f, kind: k}
		e.verifyPrim(info)
		if info.why != "" && k != primRead {
			// good for every number that is the size of something?
			small := &primInfo{fn: f, kind: k, small: true}
			if e.verifyPrim(small); small.why == "" {
				info = small
			} else {
				info.why += "; " + small.why
			}
		}
		e.primInfo[f] = info
		if info.why == "" {
			e.prims[f] = k
		}
	}
}

// smallMax bounds the numbers for which a writer may have room; no slice is
// that long.
const smallMax = int64(1)<<56 - 1

// primInfo is the result of checking one candidate.
type primInfo struct {
	fn       *ssa.Function
	kind     primKind
	why      string // first reason it does not match the wire format
	outcomes int
	errN0    bool // the value is 0 when an error is returned
	obl      *OblSet
	small    bool // only numbers up to smallMax are handled
}

// verifyPrim interprets a varint function completely.
func (e *Engine) verifyPrim(info *primInfo) {
	f := info.fn
	saved, sobl, sdry, serr := e.unroll, e.obl, e.dry, len(e.loopErr)
	e.unroll, e.obl, e.dry = 12, newOblSet(), 0
	entry := e.entry
	e.entry = fname(f)
	st := newState(e)
	args := e.rootArgs(f, st)
	if info.small {
		args[len(args)-1] = IntV{symLin(e.syms.ranged("prim.small", 0, smallMax))}
	}
	outs := e.exec(f, args, nil, st, nil, nil)
	info.obl = e.obl
	e.unroll, e.obl, e.dry, e.entry = saved, sobl, sdry, entry
	bad := func(format string, a ...interface{}) {
		if info.why == "" {
			info.why = fmt.Sprintf(format, a...)
		}
	}
	if len(e.loopErr) > serr {
		bad("%s", e.loopErr[serr])
		e.loopErr = e.loopErr[:serr]
	}
	for _, o := range info.obl.sorted() {
		if o.failed > 0 {
			bad("%s: %s", o.pos, o.rule)
		}
	}
	info.outcomes = len(outs)
	info.errN0 = true
	seen := map[int64]bool{}
	in := args[0].(SliceV)
	for _, o := range outs {
		if o.panic {
			bad("may panic at %s", e.pos(o.at))
			continue
		}
		if info.kind == primRead {
			nv, ok1 := o.res[0].(IntV)
			zv, ok2 := o.res[1].(IntV)
			if !ok1 || !ok2 {
				bad("unknown results at %s", e.pos(o.at))
				continue
			}
			n, z := o.st.norm(nv.l), o.st.norm(zv.l)
			isNil := o.st.decide(e.nilCond(o.res[2]))
			if isNil == unknown {
				bad("the error returned at %s is neither certainly nil nor not", e.pos(o.at))
				continue
			}
			if !o.st.entails(z) || !o.st.entails(in.ln.sub(z)) {
				bad("the size returned at %s is not between 0 and the number of bytes", e.pos(o.at))
			}
			if isNil == no {
				if !(n.isConst() && n.c == 0) {
					info.errN0 = false
				}
				continue
			}
			if !z.isConst() || z.c < 1 || z.c > 10 {
				bad("a varint of unexpected size is accepted at %s", e.pos(o.at))
				continue
			}
			seen[z.c] = true
			var want bitvec
			for i := int64(0); i < z.c; i++ {
				s := e.byteSym(in.base, 0, constLin(i))
				d := o.st.domOf(s)
				for _, m := range d.members() {
					if (m >= 0x80) != (i < z.c-1) {
						bad("byte %d of a %d-byte varint may be %#x at %s", i, z.c, m, e.pos(o.at))
						break
					}
				}
				v := e.syms.symVec(s)
				for j := 0; j < 7; j++ {
					if int(i)*7+j < 64 {
						want[int(i)*7+j] = v[j]
					}
				}
			}
			if got := e.vec(n); !got.eq(&want) && !o.st.norm(e.syms.fromVec(&want)).eq(n) {
				bad("the value returned at %s for %d bytes is not their varint value", e.pos(o.at), z.c)
			}
			continue
		}
		// writers
		out, ok := o.res[0].(SliceV)
		if !ok || out.log == nil {
			bad("what is appended at %s is unknown", e.pos(o.at))
			continue
		}
		toks := out.log.list()
		if len(toks) < 2 || toks[0].k != tStart || toks[0].v == nil || toks[0].v.ident != in.ident || !(out.skip.isConst() && out.skip.c == 0) {
			bad("the result at %s does not extend the slice given", e.pos(o.at))
			continue
		}
		toks = toks[1:]
		for _, t := range toks {
			if t.k != tByte {
				bad("unknown bytes are appended at %s", e.pos(o.at))
			}
		}
		if info.why != "" {
			continue
		}
		num := args[1]
		if info.kind == primTagWrite {
			if !o.st.norm(toks[0].l).eq(o.st.norm(e.lin(args[1]))) {
				bad("the first byte appended at %s is not the tag", e.pos(o.at))
			}
			toks = toks[1:]
			num = args[2]
		}
		if len(toks) < 1 || len(toks) > 10 {
			bad("%d bytes are appended at %s", len(toks), e.pos(o.at))
			continue
		}
		seen[int64(len(toks))] = true
		src := e.vec(e.lin(num))
		for i, t := range toks {
			var want bitvec
			for j := 0; j < 7; j++ {
				if i*7+j < 64 {
					want[j] = src[i*7+j]
				}
			}
			if i < len(toks)-1 {
				want[7] = bit{c: true}
			}
			got := *e.vec(t.l)
			if i == len(toks)-1 {
				// the upper bits are zero because the rest is below 0x80
				var rest bitvec
				for j := 0; i*7+j < 64; j++ {
					rest[j] = src[i*7+j]
				}
				if o.st.entails(constLin(0x7f).sub(e.fromBits(o.st, &rest, types.Typ[types.Uint]))) {
					for j := 7; j < 64; j++ {
						got[j] = bit{}
					}
				}
			}
			if !got.eq(&want) {
				bad("byte %d of the %d appended at %s is wrong: %s, not %s", i, len(toks), e.pos(o.at), got.key(), want.key())
			}
		}
		// the rest that is not written must be zero
		if k := len(toks); k < 10 {
			var rest bitvec
			for j := 0; (k-1)*7+j < 64; j++ {
				rest[j] = src[(k-1)*7+j]
			}
			if !o.st.entails(constLin(0x7f).sub(e.fromBits(o.st, &rest, types.Typ[types.Uint]))) {
				bad("the number is cut after %d bytes at %s", k, e.pos(o.at))
			}
		}
	}
	if len(seen) != 10 && !(info.small && len(seen) == 8) {
		var l []int64
		for k := range seen {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		bad("only varints of %v bytes are handled", l)
	}
}

// primCall applies the summary of a verified primitive.
func (e *Engine) primCall(fr *Frame, it *item, site ssa.Instruction, fn *ssa.Function, k primKind, args []Value) []Outcome {
	st := it.st
	s, ok := args[0].(SliceV)
	if !ok {
		s = e.zero(fn.Params[0].Type()).(SliceV)
	}
	switch k {
	case primRead:
		call := &CallEv{fn: fn, name: "varint", args: args, in: fr.fn, site: site}
		rs := fn.Signature.Results()
		// failure
		f := it.clone()
		id := e.freshSym("varinterr")
		fz := symLin(e.syms.ranged(e.syms.name(id)+".sz", 0, maxLen))
		f.st.addGe(s.ln.sub(fz))
		fn0 := constLin(0)
		if !e.primInfo[fn].errN0 {
			fn0 = symLin(e.intSym(e.syms.name(id)+".n", rs.At(0).Type()))
		}
		ferr := e.fresh(errType, e.syms.name(id), false).(Opq)
		f.st.nils[ferr.s] = false
		fc := *call
		fc.res = []Value{IntV{fn0}, IntV{fz}, ferr}
		f.st.event(&Ev{k: evCall, call: &fc, fn: fr.fn, site: site})
		outs := []Outcome{{st: f.st, res: fc.res}}
		// success
		if !st.addGe(s.ln.addc(-1)) {
			return outs
		}
		if st.entails(s.ln.neg()) {
			return outs
		}
		key := fmt.Sprintf("%s[%s]v%d", s.base.key, e.syms.str(st.norm(s.off)), st.ver[s.base])
		n := e.intSym("varint "+key, rs.At(0).Type())
		z := e.syms.ranged("vlen "+key, 1, 10)
		e.terms[n] = Term{"varint", []Value{s}}
		e.terms[z] = Term{"vlen", []Value{s}}
		st.addGe(s.ln.sub(symLin(z)))
		call.res = []Value{IntV{symLin(n)}, IntV{symLin(z)}, e.zero(errType)}
		st.event(&Ev{k: evCall, call: call, fn: fr.fn, site: site})
		return append(outs, Outcome{st: st, res: call.res})
	default:
		if num := e.lin(args[len(args)-1]); e.primInfo[fn].small {
			e.oblige(fr, site, "prim", "number below 1<<56", st.entails(constLin(smallMax).sub(num)), func() string {
				return "the number written may need more bytes than there is room for"
			})
		}
		var tag Value
		if k == primTagWrite {
			tag = args[1]
		}
		return e.appendVarint(fr, st, site, s, tag, e.lin(args[len(args)-1]))
	}
}

// appendVarint appends a varint, behind a tag byte if there is one.
func (e *Engine) appendVarint(fr *Frame, st *State, site ssa.Instruction, s SliceV, tag Value, num Lin) []Outcome {
	o := e.newObj(fmt.Sprintf("app%d", e.objs), s.elem)
	o.alloc = site
	o.fresh = s.base.fresh || s.nl.k == 1
	if s.nl.k != 1 {
		o.from = []*Obj{s.base}
	}
	n := symLin(e.syms.ranged(fmt.Sprintf("vlenof(%s)", e.syms.str(st.norm(num))), 1, 10))
	ln := st.norm(s.ln.add(n))
	log := s.log
	if log == nil && s.ln.isConst() && s.ln.c == 0 {
		log = &Tok{k: tStart}
	}
	at := s.skip.add(s.ln)
	if tag != nil {
		ln = ln.addc(1)
		if log != nil {
			log = &Tok{k: tByte, prev: log, n: constLin(1), at: st.norm(at), l: e.lin(tag), val: tag, fn: fr.fn}
		}
		at = at.addc(1)
	}
	if log != nil {
		log = &Tok{k: tVarint, prev: log, n: n, at: st.norm(at), l: num, fn: fr.fn}
	}
	cs := e.syms.ranged(e.syms.name(e.freshSym("cap")), 0, maxLen)
	st.addGe(constLin(maxLen).sub(ln))
	st.addGe(symLin(cs).sub(ln))
	e.carryCells(st, s, o)
	st.event(&Ev{k: evNote, name: "append", val: s, fn: fr.fn, site: site})
	return []Outcome{{st: st, res: []Value{SliceV{base: o, ln: ln, cp: symLin(cs), elem: s.elem, log: log, skip: s.skip}}}}
}

// mapValueFacts adds what is known about values found in a map.
func (e *Engine) mapValueFacts(st *State, m Opq, v Value, name string) {
	if name == "v" {
		e.knowMap(st, m, v)
	}
}

// mapStoreFacts checks what is assumed by mapValueFacts.
func (e *Engine) mapStoreFacts(fr *Frame, it *item, in ssa.Instruction, m, v Value) {
	o, ok := m.(Opq)
	i, ok2 := v.(IntV)
	if !ok || !ok2 || !e.internalMap(o) {
		return
	}
	ok = it.st.entails(i.l.addc(1)) && it.st.entails(constLin(2*maxLen).sub(i.l))
	e.oblige(fr, in, "maprange", "value stored", ok, func() string {
		return "the value " + e.syms.str(i.l) + " stored in a table may not be a position"
	})
}
