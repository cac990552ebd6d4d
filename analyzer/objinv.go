package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Invariants of objects between calls of their exported methods. They are
// conditional on an unexported flag of the object ("initialised"), so that they
// hold trivially of what the caller creates.
type objInv struct {
	typ   types.Type
	flags []string
	cands []*objCand
}

type objCand struct {
	name string
	flag string // holds while this flag is set ("" for always)
	not  string // and this one is not
	dead bool
	why  string
	lin  func(e *Engine, st *State, r Value) (Lin, bool)
	cnd  func(e *Engine, st *State, r Value) *Cond
	bnd  func(e *Engine, st *State, r Value) (Opq, int64, Lin, bool)
}

func recvStruct(e *Engine, fn *ssa.Function) (types.Type, *types.Struct) {
	if fn.Signature.Recv() == nil || len(fn.Params) == 0 {
		return nil, nil
	}
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, nil
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok || !e.ownType(pt.Elem()) || e.opaqueStruct(pt.Elem()) {
		return nil, nil
	}
	return pt.Elem(), st
}

// invOf is the invariant of the receiver of a method.
func (e *Engine) invOf(fn *ssa.Function) *objInv {
	t, stt := recvStruct(e, fn)
	if t == nil {
		return nil
	}
	k := t.String()
	if v, ok := e.invs[k]; ok {
		return v
	}
	inv := &objInv{typ: t}
	var ints, origins, maps, intMaps, bufs []string
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		if f.Exported() {
			continue
		}
		switch {
		case isBasic(f.Type(), types.Bool):
			inv.flags = append(inv.flags, f.Name())
		case isBasic(f.Type(), types.Int):
			ints = append(ints, f.Name())
			if e.isOrigin(t, f.Name()) {
				origins = append(origins, f.Name())
			}
		case wantBytes(f.Type()):
			bufs = append(bufs, f.Name())
		default:
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				maps = append(maps, f.Name())
				if isIntMap(f.Type()) {
					intMaps = append(intMaps, f.Name())
				}
			}
		}
	}
	field := func(e *Engine, st *State, r Value, n string) Value {
		v, _, _ := e.fieldOf(st, r, n)
		return v
	}
	intOf := func(n string) func(e *Engine, st *State, r Value) (Lin, bool) {
		return func(e *Engine, st *State, r Value) (Lin, bool) {
			i, ok := field(e, st, r, n).(IntV)
			return i.l, ok
		}
	}
	lenOf := func(n string) func(e *Engine, st *State, r Value) (Lin, bool) {
		return func(e *Engine, st *State, r Value) (Lin, bool) {
			i, ok := field(e, st, r, n).(SliceV)
			return i.ln, ok
		}
	}
	type when struct{ flag, not string }
	whens := []when{{}}
	for _, f := range inv.flags {
		whens = append(whens, when{f, ""})
		for _, g := range inv.flags {
			if f != g {
				whens = append(whens, when{f, g})
			}
		}
	}
	for _, w := range whens {
		w := w
		add := func(c *objCand) {
			c.flag, c.not = w.flag, w.not
			inv.cands = append(inv.cands, c)
		}
		for _, n := range maps {
			n := n
			add(&objCand{name: n + " != nil", cnd: func(e *Engine, st *State, r Value) *Cond { return e.nilCond(field(e, st, r, n)).not() }})
		}
		for _, n := range ints {
			n := n
			add(&objCand{name: n + " >= 0", lin: intOf(n)})
			for _, k := range []int64{1, 4} {
				k := k
				add(&objCand{name: fmt.Sprintf("%s >= %d", n, k), lin: func(e *Engine, st *State, r Value) (Lin, bool) {
					l, ok := intOf(n)(e, st, r)
					return l.addc(-k), ok
				}})
			}
			for _, k := range []int64{1<<31 - 1, 1<<32 - 1} {
				k := k
				add(&objCand{name: fmt.Sprintf("%s <= %d", n, k), lin: func(e *Engine, st *State, r Value) (Lin, bool) {
					l, ok := intOf(n)(e, st, r)
					return constLin(k).sub(l), ok
				}})
			}
			for _, b := range bufs {
				b := b
				for _, c := range []int64{0, 1, 2, 4, 5, 6} {
					c := c
					add(&objCand{name: fmt.Sprintf("%s+%d <= len(%s)", n, c, b), lin: func(e *Engine, st *State, r Value) (Lin, bool) {
						l, ok := intOf(n)(e, st, r)
						x, ok2 := lenOf(b)(e, st, r)
						return x.sub(l).addc(-c), ok && ok2
					}})
				}
			}
		}
		for _, b := range bufs {
			b := b
			for _, c := range []int64{1, 5, 6, 7} {
				c := c
				add(&objCand{name: fmt.Sprintf("len(%s) >= %d", b, c), lin: func(e *Engine, st *State, r Value) (Lin, bool) {
					l, ok := lenOf(b)(e, st, r)
					return l.addc(-c), ok
				}})
			}
			for _, m := range intMaps {
				m := m
				for _, k := range append([]string{""}, origins...) {
					k := k
					add(&objCand{name: fmt.Sprintf("values of %s < len(%s)-%s", m, b, k), bnd: func(e *Engine, st *State, r Value) (Opq, int64, Lin, bool) {
						mv, ok := field(e, st, r, m).(Opq)
						l, ok2 := lenOf(b)(e, st, r)
						if k != "" && ok2 {
							x, ok3 := intOf(k)(e, st, r)
							if !ok3 {
								return Opq{}, 0, Lin{}, false
							}
							l = l.sub(x)
						}
						return mv, -1, l.addc(-1), ok && ok2
					}})
				}
			}
		}
		for _, m := range intMaps {
			m := m
			add(&objCand{name: fmt.Sprintf("values of %s >= 0", m), bnd: func(e *Engine, st *State, r Value) (Opq, int64, Lin, bool) {
				mv, ok := field(e, st, r, m).(Opq)
				return mv, 1, constLin(0), ok
			}})
		}
	}
	e.invs[k] = inv
	// what the caller creates itself has zero unexported fields
	st := newState(e)
	o := e.newObj("zero."+k, t)
	for i := 0; i < stt.NumFields(); i++ {
		if f := stt.Field(i); !f.Exported() {
			e.store(st, PtrV{obj: o, path: "." + f.Name(), elem: f.Type()}, e.zero(f.Type()))
		}
	}
	e.checkInv(inv, st, PtrV{obj: o, elem: t}, "zero value")
	return inv
}

// liveFlags lists the flags something is known to depend on.
func (inv *objInv) liveFlags() []string {
	var r []string
	for _, f := range inv.flags {
		for _, c := range inv.cands {
			if (c.flag == f || c.not == f) && !c.dead {
				r = append(r, f)
				break
			}
		}
	}
	return r
}

// splitFlags splits a state so that every flag is known.
func (e *Engine) splitFlags(inv *objInv, st *State, r Value) []*State {
	sts := []*State{st}
	for _, f := range inv.liveFlags() {
		var next []*State
		for _, s := range sts {
			c := e.flagCond(s, r, f)
			switch s.decide(c) {
			case unknown:
				n := s.clone()
				if n.assume(c.not()) {
					next = append(next, n)
				}
				if s.assume(c) {
					next = append(next, s)
				}
			default:
				next = append(next, s)
			}
		}
		sts = next
	}
	return sts
}

// applies: the condition of a candidate holds in a state with known flags.
func (e *Engine) applies(c *objCand, st *State, r Value) bool {
	if c.flag != "" && st.decide(e.flagCond(st, r, c.flag)) != yes {
		return false
	}
	return c.not == "" || st.decide(e.flagCond(st, r, c.not)) == no
}

func (e *Engine) flagCond(st *State, r Value, f string) *Cond {
	v, _, ok := e.fieldOf(st, r, f)
	if !ok {
		return condFalse
	}
	return e.cond(st, v)
}

// assumeInv splits the state of an entry by the receiver's flags.
func (e *Engine) assumeInv(inv *objInv, st *State, r Value) []*State {
	sts := e.splitFlags(inv, st, r)
	for _, s := range sts {
		for _, c := range inv.cands {
			if c.dead || !e.applies(c, s, r) {
				continue
			}
			switch {
			case c.lin != nil:
				if l, ok := c.lin(e, s, r); ok {
					s.addGe(l)
				}
			case c.cnd != nil:
				s.assume(c.cnd(e, s, r))
			case c.bnd != nil:
				if m, k, l, ok := c.bnd(e, s, r); ok {
					s.bound(bound{m: m.s, k: k, l: l, ev: s.ev})
				}
			}
		}
	}
	return sts
}

// checkInv drops what does not hold of an object after a call.
func (e *Engine) checkInv(inv *objInv, st *State, r Value, where string) bool {
	changed := false
	for _, s := range e.splitFlags(inv, st.clone(), r) {
		for _, c := range inv.cands {
			if c.dead || !e.applies(c, s, r) {
				continue
			}
			ok := false
			switch {
			case c.lin != nil:
				l, k := c.lin(e, s, r)
				ok = k && s.entails(l)
			case c.cnd != nil:
				ok = s.decide(c.cnd(e, s, r)) == yes
			case c.bnd != nil:
				m, k, l, k2 := c.bnd(e, s, r)
				ok = k2 && e.allValues(s, m, k, l)
			}
			if !ok {
				c.dead = true
				c.why = where
				dbg("   invariant %s !%s => %s dropped: %s", c.flag, c.not, c.name, where)
				changed = true
			}
		}
	}
	return changed
}

// checkNew checks the objects a constructor returns.
func (e *Engine) checkNew(fn *ssa.Function, outs []Outcome) bool {
	changed := false
	for _, o := range outs {
		for _, v := range o.res {
			p, ok := v.(PtrV)
			if !ok || p.obj == nil || p.elem == nil {
				continue
			}
			if inv, ok := e.invs[p.elem.String()]; ok {
				changed = e.checkInv(inv, o.st, p, "result of "+fname(fn)) || changed
			}
		}
	}
	return changed
}
