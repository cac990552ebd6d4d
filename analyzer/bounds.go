package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bounds on everything a map or a slice of integers holds: k*v + l >= 0 for
// every value v it contained when the bound was established.
type bound struct {
	m   Sym  // the map, or
	obj *Obj // the memory of the slice, with
	ver int
	tok *Tok // the beginning of its log
	k   int64
	l   Lin
	ev  *Ev // the event after which it held
}

// isIntMap: a map to integers that cannot come from the values being encoded.
func isIntMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isBasic(m.Elem(), types.Int) && !types.IsInterface(m.Key())
}

func (e *Engine) internalMap(m Opq) bool {
	return m.t != nil && isIntMap(m.t) && !strings.Contains(e.syms.name(m.s), ".(")
}

// mapsAlias: both symbols may denote the same map.
func (e *Engine) mapsAlias(a, b Opq) bool {
	if a.s == b.s {
		return true
	}
	if a.t != nil && b.t != nil && !types.Identical(a.t.Underlying(), b.t.Underlying()) {
		return false
	}
	for _, x := range []Opq{a, b} {
		if t, ok := e.terms[x.s]; ok && t.op == "makemap" {
			return false
		}
	}
	return true
}

// allValues reports whether k*v + l >= 0 for all values v of the map.
func (e *Engine) allValues(st *State, m Opq, k int64, l Lin) bool {
	fresh := false
	if t, ok := e.terms[m.s]; ok && t.op == "makemap" {
		fresh = true
	}
	has := func(ev *Ev) bool {
		for _, b := range st.mb {
			if b.m == m.s && b.obj == nil && b.ev == ev && b.k == k {
				if d, ok := l.addMul(b.l, -1); ok && st.entails(d) {
					return true
				}
			}
		}
		return false
	}
	holds := func(s *State, v Value) bool {
		i, ok := v.(IntV)
		if !ok {
			return false
		}
		x, ok := l.addMul(i.l, k)
		return ok && s.entails(x)
	}
	for ev := st.ev; ; ev = ev.prev {
		if has(ev) {
			return true
		}
		if ev == nil {
			return false
		}
		switch ev.k {
		case evNote:
			if ev.name == "makemap" {
				if o, ok := ev.val.(Opq); ok && o.s == m.s {
					return true
				}
			}
		case evMapSet:
			if o, ok := ev.m.(Opq); ok && e.mapsAlias(m, o) && !holds(st, ev.val) {
				return false
			}
		case evCall:
			if ev.call != nil && ev.call.fn != nil && !(fresh && !e.passed(m, ev.call)) && e.modsOf(ev.call.fn).mapsOf(m.t) {
				return false
			}
		case evLoopIn:
			if !e.loopMaps(ev.loop, m.t) {
				continue
			}
			for _, be := range ev.loop.dry {
				for x := be.st.ev; x != nil && !(x.k == evLoopIn && x.loop == ev.loop); x = x.prev {
					if x.k == evMapSet {
						if o, ok := x.m.(Opq); ok && e.mapsAlias(m, o) && !holds(be.st, x.val) {
							return false
						}
					}
					if x.k == evCall && x.call != nil && x.call.fn != nil && e.modsOf(x.call.fn).mapsOf(m.t) {
						return false
					}
				}
			}
			if ev.loop.dry == nil {
				return false
			}
		}
	}
}

// passed: the map may be reachable from the arguments of a call.
func (e *Engine) passed(m Opq, c *CallEv) bool {
	for _, a := range c.args {
		switch a := a.(type) {
		case PtrV, IfaceV:
			return true
		case Opq:
			if a.s == m.s {
				return true
			}
		}
	}
	return false
}

// mapsOf: maps of this type may be stored to.
func (m *modSet) mapsOf(t types.Type) bool {
	if len(m.maps) == 0 {
		return false
	}
	if t == nil {
		return true
	}
	return m.mapT[t.Underlying().String()]
}

// loopMaps: the loop may store to maps of this type.
func (e *Engine) loopMaps(c *LoopCtx, t types.Type) bool {
	for b := range c.lp.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if types.Identical(in.Map.Type().Underlying(), t.Underlying()) {
					return true
				}
			case ssa.CallInstruction:
				if f := in.Common().StaticCallee(); f != nil && e.p.inPkg(f) && e.modsOf(f).mapsOf(t) {
					return true
				}
				if in.Common().IsInvoke() {
					return true
				}
			}
		}
	}
	return false
}

// knowMap adds what bounds say about a value found in a map.
func (e *Engine) knowMap(st *State, m Opq, v Value) {
	i, ok := v.(IntV)
	if !ok || !e.internalMap(m) {
		return
	}
	st.addGe(i.l.addc(1))
	st.addGe(constLin(2 * maxLen).sub(i.l))
	for j := len(st.mb) - 1; j >= 0; j-- {
		b := st.mb[j]
		if b.m != m.s || b.obj != nil || !e.allValues(st, m, b.k, b.l) {
			continue
		}
		if x, ok := b.l.addMul(i.l, b.k); ok {
			st.addGe(x)
		}
	}
}

// allElems reports whether k*v + l >= 0 for all elements v of a slice.
func (e *Engine) allElems(st *State, s SliceV, k int64, l Lin) bool {
	if n := st.norm(s.ln); n.isConst() && n.c == 0 {
		return true
	}
	for _, b := range st.mb {
		if b.obj != nil && b.obj == s.base && b.k == k && st.ver[b.obj] == b.ver {
			if d, ok := l.addMul(b.l, -1); ok && st.entails(d) {
				return true
			}
		}
	}
	for t := s.log; t != nil; t = t.prev {
		switch t.k {
		case tStart:
			return true
		case tByte:
			i, ok := t.val.(IntV)
			if !ok {
				return false
			}
			x, ok := l.addMul(i.l, k)
			if !ok || !st.entails(x) {
				return false
			}
		case tLoopIn:
			for _, b := range st.mb {
				if b.tok == t && b.k == k {
					if d, ok := l.addMul(b.l, -1); ok && st.entails(d) {
						return true
					}
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// knowElem adds what bounds say about an element of a slice.
func (e *Engine) knowElem(st *State, p PtrV, v Value) {
	i, ok := v.(IntV)
	if !ok || len(st.mb) == 0 {
		return
	}
	for _, b := range st.mb {
		if b.obj != nil && b.obj == p.obj && st.ver[b.obj] == b.ver {
			if x, ok := b.l.addMul(i.l, b.k); ok {
				st.addGe(x)
			}
		}
	}
}

func (st *State) bound(b bound) { st.mb = append(st.mb[:len(st.mb):len(st.mb)], b) }

// intCells lists the int fields of package structs the state refers to.
type cellVal struct {
	name string
	v    Value
}

func (e *Engine) structCells(st *State, vals []Value, want func(t types.Type) bool) []cellVal {
	return e.structCellsF(st, vals, want, func(types.Type, string) bool { return true })
}

// isOrigin: the field is subtracted from something else somewhere, so that it
// may be the origin of a coordinate system.
func (e *Engine) isOrigin(t types.Type, name string) bool {
	if e.origins == nil {
		e.origins = map[string]bool{}
		load := func(v ssa.Value) string {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				return ""
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if !ok {
				return ""
			}
			st := fa.X.Type().Underlying().(*types.Pointer).Elem()
			return fieldKey(st, st.Underlying().(*types.Struct).Field(fa.Field).Name())
		}
		for _, f := range e.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if op, ok := in.(*ssa.BinOp); ok && op.Op == token.SUB {
						if y := load(op.Y); y != "" && load(op.X) != y {
							e.origins[y] = true
						}
					}
				}
			}
		}
	}
	return e.origins[fieldKey(t, name)]
}

func (e *Engine) structCellsF(st *State, vals []Value, want func(t types.Type) bool, wantF func(types.Type, string) bool) []cellVal {
	var r []cellVal
	seen := map[cellKey]bool{}
	for _, a := range vals {
		p, ok := a.(PtrV)
		if !ok || p.obj == nil || p.elem == nil {
			continue
		}
		stt, ok := p.elem.Underlying().(*types.Struct)
		if !ok || e.opaqueStruct(p.elem) || !e.ownType(p.elem) || st.decide(e.nilCond(p)) == yes {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if !want(f.Type()) || !wantF(p.elem, f.Name()) {
				continue
			}
			k := cellKey{p.obj, p.path + "." + f.Name()}
			if seen[k] {
				continue
			}
			seen[k] = true
			r = append(r, cellVal{p.obj.key + k.path, e.load(st, PtrV{obj: p.obj, path: k.path, elem: f.Type()}, f.Type())})
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}

// ownType: a struct type of the package under analysis.
func (e *Engine) ownType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == e.p.Pkg.Pkg
}

func wantInt(t types.Type) bool   { return isBasic(t, types.Int) }
func wantMap(t types.Type) bool   { return isIntMap(t) }
func wantBytes(t types.Type) bool { return isByteSlice(t) }
func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBasic(s.Elem(), types.Int)
}

// boundCands proposes bounds on maps and integer slices as loop invariants.
func (e *Engine) boundCands(fr *Frame, it *item, all []*loopVar, ivs []*intVar, dead map[string]bool, pre *State, lp *loop) []*loopCand {
	var vals []Value
	for _, p := range fr.fn.Params {
		vals = append(vals, it.env[fr.in.num[p]])
	}
	for _, p := range fr.fn.FreeVars {
		vals = append(vals, it.env[fr.in.num[p]])
	}
	var r []*loopCand
	var bufs []*intVar
	for _, iv := range ivs {
		if strings.HasPrefix(iv.name, "len ") && isByteSlice(iv.v.t) {
			bufs = append(bufs, iv)
		}
	}
	for _, v := range all {
		if x, ok := v.init.(SliceV); ok && isByteSlice(v.t) && !dead["same "+v.name] {
			bufs = append(bufs, &intVar{name: "len " + v.name, init: x.ln, head: x.ln, v: v,
				get: func(y Value) (Lin, bool) { i, ok := y.(SliceV); return i.ln, ok }})
		}
	}
	var elems []*loopVar
	for _, v := range all {
		if isIntSlice(v.t) && dead["same "+v.name] && dead["base "+v.name] {
			if _, ok := v.head.(SliceV); ok {
				elems = append(elems, v)
			}
		}
	}
	touches := false
	for b := range lp.blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				touches = true
			case *ssa.Lookup:
				touches = touches || isIntMap2(in.X.Type())
			case ssa.CallInstruction:
				if f := in.Common().StaticCallee(); f != nil && e.p.inPkg(f) && len(e.modsOf(f).maps) > 0 {
					touches = true
				}
			}
		}
	}
	if !touches && len(elems) == 0 {
		return nil
	}
	ks := []cellVal{{"0", IntV{constLin(0)}}}
	ks = append(ks, e.structCellsF(pre, vals, wantInt, e.isOrigin)...)
	type form struct {
		name string
		k    int64
		lin  func(get func(iv *intVar) (Lin, bool)) (Lin, bool)
	}
	var forms []form
	for _, b := range bufs {
		for _, kv := range ks {
			b, kv := b, kv
			kl, ok := kv.v.(IntV)
			if !ok {
				continue
			}
			forms = append(forms, form{"<" + b.name + "-" + kv.name, -1, func(get func(iv *intVar) (Lin, bool)) (Lin, bool) {
				x, ok := get(b)
				if !ok {
					return Lin{}, false
				}
				return x.sub(kl.l).addc(-1), true
			}})
		}
	}
	cst := func(name string, k, c int64) form {
		return form{name, k, func(func(iv *intVar) (Lin, bool)) (Lin, bool) { return constLin(c), true }}
	}
	forms = append(forms, cst("<=-1", -1, -1), cst(">=0", 1, 0))
	dbg("  bounds at %s: touches %v forms %d maps %d vals %d", e.pos(lp.head.Instrs[0]), touches, len(forms), len(e.structCells(pre, vals, wantMap)), len(vals))
	initOf := func(iv *intVar) (Lin, bool) { return iv.init, true }
	if touches {
		maps := e.structCells(pre, vals, wantMap)
		seen := map[Sym]bool{}
		for _, mv := range maps {
			m, ok := mv.v.(Opq)
			if !ok || seen[m.s] {
				continue
			}
			seen[m.s] = true
			for _, f := range forms {
				name := "values of " + mv.name + f.name
				if dead[name] {
					continue
				}
				l, ok := f.lin(initOf)
				if !ok || !e.allValues(pre, m, f.k, l) {
					dbg("  init fails: %s %v", name, ok)
					dead[name] = true
					continue
				}
				r = append(r, &loopCand{name: name, kind: "bound", m: m, k: f.k, lin: f.lin})
			}
		}
	}
	for _, v := range elems {
		init, ok := v.init.(SliceV)
		if !ok {
			continue
		}
		for _, f := range forms {
			name := "elements of " + v.name + f.name
			if dead[name] {
				continue
			}
			l, ok := f.lin(initOf)
			if !ok || !e.allElems(pre, init, f.k, l) {
				dead[name] = true
				continue
			}
			r = append(r, &loopCand{name: name, kind: "bound", v: v, k: f.k, lin: f.lin})
		}
	}
	return r
}

func isIntMap2(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok && isIntMap(t)
}

// assumeBound makes a bound candidate hold at a loop head; the event it is
// attached to is the one that starts the iteration.
func (e *Engine) assumeBound(st *State, c *loopCand, ev *Ev) {
	l, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.head) })
	if !ok {
		return
	}
	if c.v != nil {
		s := c.v.head.(SliceV)
		st.bound(bound{obj: s.base, ver: st.ver[s.base], tok: s.log, k: c.k, l: l})
		return
	}
	st.bound(bound{m: c.m.s, k: c.k, l: l, ev: ev})
}

func (e *Engine) checkBound(st *State, c *loopCand) bool {
	l, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.back) })
	if !ok {
		return false
	}
	if c.v != nil {
		s, ok := c.v.back.(SliceV)
		return ok && e.allElems(st, s, c.k, l)
	}
	return e.allValues(st, c.m, c.k, l)
}

// purged finds what a completed loop over a map leaves in it: values for which
// every iteration either deletes the entry or knows a bound.
func (e *Engine) purged(fr *Frame, it *item, ctx *LoopCtx, pool []Lin) {
	var next *ssa.Next
	for _, in := range ctx.lp.head.Instrs {
		if n, ok := in.(*ssa.Next); ok && !n.IsString {
			next = n
		}
	}
	if next == nil || len(ctx.dry) == 0 {
		return
	}
	rg, ok := next.Iter.(*ssa.Range)
	if !ok || !isIntMap(rg.X.Type()) {
		return
	}
	m, ok := it.env[fr.in.num[rg.X]].(Opq)
	if !ok || !e.internalMap(m) || e.loopMaps(ctx, m.t) {
		return
	}
	// what the iterations that keep an entry know of its value, in terms of
	// quantities that exist before the loop
	all := append([]Lin(nil), pool...)
	before := map[Sym]bool{}
	for _, f := range it.st.facts {
		for _, t := range it.st.norm(f).t {
			before[t.s] = true
		}
	}
	for _, be := range ctx.dry {
		var val Value
		for x := be.st.ev; x != nil && !(x.k == evLoopIn && x.loop == ctx); x = x.prev {
			if x.k == evNote && x.name == "next" && x.site == ssa.Instruction(next) {
				val = x.val2
			}
		}
		i, ok := val.(IntV)
		if !ok {
			continue
		}
		s, ok := i.l.single()
		if !ok || before[s] {
			continue
		}
		for _, f := range be.st.facts {
			f = be.st.norm(f)
			if f.coef(s) != -1 || len(all) > 60 {
				continue
			}
			rest, good := f.add(symLin(s)), true
			for _, t := range rest.t {
				good = good && before[t.s]
			}
			if good {
				all = append(all, rest)
			}
		}
	}
	for _, p := range all {
		for _, form := range []struct {
			k int64
			l Lin
		}{{-1, p}, {-1, p.addc(-1)}, {1, p.neg()}} {
			good := true
			for _, be := range ctx.dry {
				var key, val Value
				del := false
				for x := be.st.ev; x != nil && !(x.k == evLoopIn && x.loop == ctx); x = x.prev {
					if x.k == evNote && x.name == "next" && x.site == ssa.Instruction(next) {
						key, val = x.x, x.val2
					}
				}
				for x := be.st.ev; x != nil && !(x.k == evLoopIn && x.loop == ctx); x = x.prev {
					if o, ok := x.m.(Opq); ok && x.k == evMapDel && o.s == m.s && key != nil && valKey(x.x) == valKey(key) {
						del = true
					}
				}
				if del {
					continue
				}
				i, ok := val.(IntV)
				if !ok {
					good = false
					break
				}
				y, ok := form.l.addMul(i.l, form.k)
				if !ok || !be.st.entails(y) {
					good = false
					break
				}
			}
			if good {
				ctx.atEnd = append(ctx.atEnd, bound{m: m.s, k: form.k, l: form.l})
			}
		}
	}
}

// ---------------------------------------------------------------- contracts

// boundPosts proposes bounds on the maps a summarised function works on.
func (e *Engine) contractBounds(c *Contract) {
	fn := c.fn
	has := false
	for _, p := range fn.Params {
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if stt, ok := pt.Elem().Underlying().(*types.Struct); ok && e.ownType(pt.Elem()) {
				for i := 0; i < stt.NumFields(); i++ {
					has = has || isIntMap(stt.Field(i).Type())
				}
			}
		}
	}
	if !has {
		return
	}
	type fieldRef struct {
		p    int
		name string
	}
	var maps, ints, bufs []fieldRef
	for pi, p := range fn.Params {
		if isByteSlice(p.Type()) {
			bufs = append(bufs, fieldRef{pi, ""})
		}
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		stt, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || !e.ownType(pt.Elem()) {
			continue
		}
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			switch {
			case wantMap(f.Type()):
				maps = append(maps, fieldRef{pi, f.Name()})
			case wantInt(f.Type()) && !f.Exported() && e.isOrigin(pt.Elem(), f.Name()):
				ints = append(ints, fieldRef{pi, f.Name()})
			case wantBytes(f.Type()):
				bufs = append(bufs, fieldRef{pi, f.Name()})
			}
		}
	}
	ints = append([]fieldRef{{-1, "0"}}, ints...)
	get := func(e *Engine, st *State, f fieldRef, args []Value) Value {
		if f.p < 0 {
			return IntV{constLin(0)}
		}
		if f.name == "" {
			return args[f.p]
		}
		v, _, _ := e.fieldOf(st, args[f.p], f.name)
		return v
	}
	nm := func(f fieldRef) string {
		if f.p < 0 {
			return f.name
		}
		if f.name == "" {
			return fn.Params[f.p].Name()
		}
		return fn.Params[f.p].Name() + "." + f.name
	}
	for _, m := range maps {
		m := m
		mk := func(name string, l func(e *Engine, st *State, args, res []Value) (Lin, bool)) *cand {
			return &cand{name: "values of " + nm(m) + name, bnd: func(e *Engine, st *State, args, res []Value) (Opq, int64, Lin, bool) {
				mv, ok := get(e, st, m, args).(Opq)
				if !ok {
					return Opq{}, 0, Lin{}, false
				}
				x, ok := l(e, st, args, res)
				return mv, -1, x, ok
			}}
		}
		nonneg := func() *cand {
			x := mk(">=0", func(*Engine, *State, []Value, []Value) (Lin, bool) { return constLin(0), true })
			f := x.bnd
			x.bnd = func(e *Engine, st *State, args, res []Value) (Opq, int64, Lin, bool) {
				m, _, l, ok := f(e, st, args, res)
				return m, 1, l, ok
			}
			return x
		}
		c.pre = append(c.pre, nonneg())
		p := nonneg()
		c.post = append(c.post, p)
		p = nonneg()
		p.name += " without an error"
		p.onNil = errIndex(fn) >= 0
		c.post = append(c.post, p)
		neg := func(*Engine, *State, []Value, []Value) (Lin, bool) { return constLin(-1), true }
		c.pre = append(c.pre, mk("<0", neg))
		p = mk("<0", neg)
		p.onNil = errIndex(fn) >= 0
		c.post = append(c.post, p)
		for _, b := range bufs {
			for _, k := range ints {
				b, k := b, k
				f := func(e *Engine, st *State, args, res []Value) (Lin, bool) {
					bv, ok := get(e, st, b, args).(SliceV)
					kv, ok2 := get(e, st, k, args).(IntV)
					if !ok || !ok2 {
						return Lin{}, false
					}
					return bv.ln.sub(kv.l).addc(-1), true
				}
				c.pre = append(c.pre, mk(fmt.Sprintf("<len(%s)-%s", nm(b), nm(k)), f))
				if b.name != "" {
					p := mk(fmt.Sprintf("<len(%s)-%s", nm(b), nm(k)), f)
					p.onNil = errIndex(fn) >= 0
					c.post = append(c.post, p)
				}
			}
		}
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if !isByteSlice(rs.At(i).Type()) {
				continue
			}
			i := i
			p := mk(fmt.Sprintf("<len(r%d)", i), func(e *Engine, st *State, args, res []Value) (Lin, bool) {
				bv, ok := res[i].(SliceV)
				if !ok {
					return Lin{}, false
				}
				return bv.ln.addc(-1), true
			})
			p.onNil = errIndex(fn) >= 0
			c.post = append(c.post, p)
		}
	}
}
