package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Options of the encoder (C22) and its recursion limit (C23).

// option is a boolean field of the receiver.
func (m *emit) option(st *State, args []Value, name string) (*Cond, bool) {
	for _, a := range args {
		if v, _, ok := m.e.fieldOf(st, a, name); ok {
			b, ok := v.(BoolV)
			return b.c, ok
		}
	}
	return nil, false
}

// everyCall visits the calls of a state's history, loops included.
func everyCall(st *State, f func(st *State, c *CallEv)) {
	seen := map[*LoopCtx]bool{}
	var walk func(st *State, from *LoopCtx)
	walk = func(st *State, from *LoopCtx) {
		all := st.ev.list()
		i := 0
		for j, x := range all {
			if from != nil && x.k == evLoopIn && x.loop == from {
				i = j + 1
			}
		}
		for _, ev := range all[i:] {
			switch ev.k {
			case evCall:
				f(st, ev.call)
			case evLoopIn, evLoopOut:
				if !seen[ev.loop] {
					seen[ev.loop] = true
					for _, be := range ev.loop.backs {
						walk(be.st, ev.loop)
					}
				}
			}
		}
	}
	walk(st, nil)
}

// isHook: a call of a method that a user type provides to encode itself.
func isHook(c *CallEv) bool {
	if c.fn != nil && !strings.Contains(c.name, "encoding.") {
		return false
	}
	s := c.name[strings.LastIndexByte(c.name, '.')+1:]
	return strings.HasPrefix(s, "Marshal") || strings.HasPrefix(s, "Append") && strings.Contains(c.name, "encoding.") && !strings.Contains(c.name, "binary")
}

type optBad struct {
	key, at, why string
}

// perl checks one path with parameter ri meaning that a reference was just
// written.
func (m *emit) perl(p *emPath, ri map[*ssa.Function]int) (bad []optBad, n int) {
	if p.root == nil {
		return
	}
	pc, ok := m.option(p.st, p.args, "PerlCompat")
	if !ok {
		return []optBad{{p.key(), m.e.pos(p.o.at), "the option PerlCompat is unknown"}}, 1
	}
	if off := p.st.clone(); off.assume(pc.not()) {
		p.root.walk(off, func(_ *State, k, up *node) {
			n++
			if up != nil && up.t == tgREFN && (k.t == tgARRAY || k.t == tgHASH) && k.call == nil && p.root.t != tgOBJECTFREEZE && p.root.t != tgOBJECTVFREEZE {
				bad = append(bad, optBad{p.key(), m.e.pos(p.o.at), "a reference is put in front of " + k.name() + " although the option may be off"})
			}
		})
	}
	st := p.st.clone()
	if !st.assume(pc) {
		return
	}
	isR := func(st *State, args []Value, fn *ssa.Function) tri {
		i, ok := ri[fn]
		if !ok {
			return no
		}
		b, isB := args[i].(BoolV)
		if !isB {
			return unknown
		}
		return st.decide(b.c)
	}
	own := isR(st, p.args, p.fn)
	fail := func(why string) { bad = append(bad, optBad{p.key(), m.e.pos(p.o.at), why}) }
	var walk func(st *State, k, up, upup *node)
	walk = func(st *State, k, up, upup *node) {
		n++
		switch {
		case k.call != nil:
			r := isR(st, k.call.args, k.call.fn)
			c := m.canon(st, k.call.args[m.roles[k.call.fn].vals[0]])
			switch {
			case up == nil:
				same := c == m.canon(p.st, m.val(p))
				if _, ok := ri[k.call.fn]; !ok {
					return
				}
				if !same {
					q := &emParts{m: m, p: p, st: p.st, cn: m.canon(p.st, m.val(p))}
					if q.perlBehind() {
						return
					}
				}
				a, _ := k.call.args[ri[k.call.fn]].(BoolV)
				b := BoolV{condFalse}
				if i, ok := ri[p.fn]; ok {
					b, _ = p.args[i].(BoolV)
				}
				if r == unknown && (a.c == nil || b.c == nil || valKey(a) != valKey(b)) || r != unknown && r != own {
					fail("whether a reference precedes is not passed on")
				}
			case up.t == tgREFN:
				if r != yes {
					fail("an array or hash behind a reference may be written behind two")
				}
			case r != no:
				fail("an array or hash inside " + up.name() + " may be written without a reference")
			}
		case k.t == tgARRAY || k.t == tgHASH:
			switch {
			case up == nil:
				if own != yes {
					fail(k.name() + " is written without a reference")
				}
			case up.t != tgREFN:
				fail(k.name() + " is written without a reference inside " + up.name())
			case upup == nil:
				if own != no {
					fail(k.name() + " is written behind a reference too many")
				}
			case upup.t == tgREFN:
				fail(k.name() + " is written behind a reference too many")
			}
		case k.t == 0x40 || k.t == 0x50:
			if up == nil && own != no || up != nil && up.t == tgREFN {
				fail(k.name() + " is written behind a reference too many")
			}
		}
		for _, x := range k.kids {
			walk(st, x, k, up)
		}
		for _, g := range k.reps {
			for _, x := range g.items {
				walk(st, x, k, up)
			}
			if g.loop != nil {
				for _, b := range g.loop.bodies {
					for _, x := range b.items {
						walk(b.be.st, x, k, up)
					}
				}
			}
		}
	}
	walk(st, p.root, nil, nil)
	return
}

// choices are the ways to pick one parameter of a kind for each writer.
func (m *emit) choices(is func(t types.Type) bool) []map[*ssa.Function]int {
	r := []map[*ssa.Function]int{{}}
	for _, fn := range m.sorted() {
		var next []map[*ssa.Function]int
		for i, q := range fn.Params {
			if !is(q.Type()) {
				continue
			}
			for _, c := range r {
				d := map[*ssa.Function]int{fn: i}
				for k, v := range c {
					d[k] = v
				}
				next = append(next, d)
			}
		}
		if len(next) > 0 {
			r = next
		}
	}
	return r
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

func init() {
	checks["C22"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Back-references to strings are written only on paths that have found DisableDedup off; frozen objects are written and marshalling hooks called only on paths that have found DisableFREEZE off, failing paths included; with PerlCompat on, a boolean parameter must exist that says whether a reference was just written, such that ARRAY and HASH are written bare exactly when it is set and behind one REFN otherwise, and that every nested call passes it truthfully; with it off, no reference is put in front of them."
		forVariants(r, bothVariants, func(p *Program) {
			m, ok := newEmit(p, r)
			if !ok {
				return
			}
			all := map[*ssa.Function][]*emPath{}
			for _, fn := range m.sorted() {
				all[fn] = m.paths(fn)
				for _, p := range all[fn] {
					if p.root == nil {
						continue
					}
					p.root.walk(p.st, func(st *State, n, _ *node) {
						at := m.e.pos(p.o.at)
						if n.call == nil && isStrRef(n.t) && n.t != tgOBJECTVFREEZE || n.call == nil && n.t == tgOBJECTVFREEZE {
							c, ok := m.option(st, p.args, "DisableDedup")
							r.check(ok && st.decide(c) == no, "dedup", p.key(), at, "%s writes %s although DisableDedup may be set (%s)", fname(fn), n.name(), m.e.p.Variant)
						}
						if n.call == nil && (n.t == tgOBJECTFREEZE || n.t == tgOBJECTVFREEZE) {
							c, ok := m.option(st, p.args, "DisableFREEZE")
							r.check(ok && st.decide(c) == no, "freeze", p.key(), at, "%s writes %s although DisableFREEZE may be set (%s)", fname(fn), n.name(), m.e.p.Variant)
						}
					})
				}
				outs, args, _ := m.e.runCut(m.e.cuts[fn])
				for _, o := range outs {
					everyCall(o.st, func(st *State, c *CallEv) {
						if !isHook(c) {
							return
						}
						f, ok := m.option(st, args, "DisableFREEZE")
						r.check(ok && st.decide(f) == no, "hook", fname(fn)+":"+c.name, m.e.pos(c.site), "%s calls %s although DisableFREEZE may be set (%s)", fname(fn), c.name, m.e.p.Variant)
					})
				}
			}
			// the parameter that says a reference was just written
			var best []optBad
			cnt := 0
			for i, ri := range m.choices(isBoolT) {
				var bad []optBad
				n := 0
				for _, fn := range m.sorted() {
					for _, p := range all[fn] {
						b, k := m.perl(p, ri)
						bad = append(bad, b...)
						n += k
					}
				}
				for _, d := range m.docs() {
					for _, x := range []*node{d.hdr, d.body} {
						if x == nil || x.call == nil {
							continue
						}
						n++
						if j, ok := ri[x.call.fn]; ok {
							if b, isB := x.call.args[j].(BoolV); !isB || d.w.st.decide(b.c) != no {
								bad = append(bad, optBad{fname(d.fn), d.at(m.e), "the topmost item may be written without a reference"})
							}
						}
					}
				}
				if i == 0 || len(bad) < len(best) {
					best, cnt = bad, n
				}
			}
			for ; cnt > 0; cnt-- {
				r.ok("perl")
			}
			sort.SliceStable(best, func(i, j int) bool { return best[i].key < best[j].key })
			for _, b := range best {
				r.bad("perl", b.key, b.at, "PerlCompat: %s (%s)", b.why, m.e.p.Variant)
			}
			for _, l := range m.e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.atLeast("dedup", 10)
		r.atLeast("freeze", 2)
		r.atLeast("hook", 2)
		r.atLeast("perl", 200)
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
	}
	checks["C23"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "An integer parameter of the writers must hold the remaining depth: every call of a writer for a part of the value, on every path (failing ones too) and in every loop, passes at least one less and at least 1; only the same value (an interface or reflect.Value looked through) and byte strings may be passed on with the same depth. Paths on which the remaining depth is used up must return ErrMaxRecursionLimit, and only those do. The entry points start with at most MaxRecursionDepth when that is positive."
		forVariants(r, bothVariants, func(p *Program) {
			m, ok := newEmit(p, r)
			if !ok {
				return
			}
			ds := m.docs()
			var best []optBad
			cnt := 0
			cs := m.choices(isIntT)
			for i, di := range cs {
				var bad []optBad
				n := 0
				for _, fn := range m.sorted() {
					b, k := m.depth(fn, di)
					bad = append(bad, b...)
					n += k
				}
				for _, d := range ds {
					for _, x := range []*node{d.hdr, d.body} {
						if x == nil || x.call == nil {
							continue
						}
						n++
						j, ok := di[x.call.fn]
						if !ok {
							continue
						}
						why := m.startDepth(d, x.call, j)
						if why != "" {
							bad = append(bad, optBad{fname(d.fn), d.at(m.e), why})
						}
					}
				}
				if i == 0 || len(bad) < len(best) {
					best, cnt = bad, n
				}
			}
			if len(cs) == 1 && len(cs[0]) == 0 {
				r.undecided("depth", "%s: no writer has a parameter for the remaining depth", p.Variant)
			}
			for ; cnt > 0; cnt-- {
				r.ok("depth")
			}
			for _, b := range best {
				r.bad("depth", b.key, b.at, "%s (%s)", b.why, m.e.p.Variant)
			}
			for _, l := range m.e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.atLeast("depth", 300)
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
	}
}

const limitErr = "ErrMaxRecursionLimit"

// isLimitErr: a value is the error for too deep a value.
func (m *emit) isLimitErr(v Value) bool {
	switch v := v.(type) {
	case Opq:
		return strings.Contains(m.e.syms.name(v.s), limitErr)
	case IfaceV:
		return strings.Contains(m.w.short(nil, v), limitErr)
	}
	return false
}

// depth checks one writer, assuming that it is called with at least one
// level, as all calls do.
func (m *emit) depth(fn *ssa.Function, di map[*ssa.Function]int) (bad []optBad, n int) {
	j, ok := di[fn]
	if !ok {
		return []optBad{{fname(fn), m.e.posOf(fn.Pos(), fn), fname(fn) + " does not know the remaining depth"}}, 1
	}
	ct := m.e.cuts[fn]
	pre := ct.pre
	ct.pre = append(pre[:len(pre):len(pre)], &cand{lin: func(args, _ []Value) (Lin, bool) { return m.e.lin(args[j]).addc(-1), true }})
	outs, args, _ := m.e.runCut(ct)
	ct.pre = pre
	d := m.e.lin(args[j])
	ei := errIndex(fn)
	for _, o := range outs {
		root := m.canon(o.st, args[m.roles[fn].vals[0]])
		everyCall(o.st, func(st *State, c *CallEv) {
			if c.fn == nil || m.roles[c.fn] == nil {
				return
			}
			n++
			i, ok := di[c.fn]
			if !ok {
				return
			}
			x := m.e.lin(c.args[i])
			v := c.args[m.roles[c.fn].vals[0]]
			leaf := m.canon(st, v) == root || m.isBytesVal(v)
			switch {
			case !st.entails(x.addc(-1)):
				bad = append(bad, optBad{fname(fn), m.e.pos(c.site), fname(fn) + " calls " + fname(c.fn) + " when no level may be left"})
			case leaf && st.entails(d.sub(x)):
			case st.entails(d.sub(x).addc(-1)):
			default:
				bad = append(bad, optBad{fname(fn), m.e.pos(c.site), fname(fn) + " encodes a part of the value without having one level less left"})
			}
		})
		if o.panic || ei < 0 {
			continue
		}
		n++
		used := o.st.entails(constLin(1).sub(d))
		is := m.isLimitErr(o.res[ei])
		switch {
		case is && !used:
			bad = append(bad, optBad{fname(fn), m.e.pos(o.at), fname(fn) + " fails with the recursion limit while levels are left"})
		case used && !is && o.st.decide(m.e.nilCond(o.res[ei])) != yes && !m.fromCall(o.st, o.res[ei]):
			bad = append(bad, optBad{fname(fn), m.e.pos(o.at), fname(fn) + " fails with another error when no levels are left"})
		}
	}
	return
}

// fromCall: the error is one that a writer or hook returned.
func (m *emit) fromCall(st *State, v Value) bool {
	k := valKey(v)
	for _, c := range m.calls(st) {
		if m.roles[c.fn] == nil && !isHook(c) {
			continue
		}
		for _, x := range c.res {
			if valKey(x) == k {
				return true
			}
		}
	}
	return false
}

// isBytesVal: the value is a byte string, which has no parts.
func (m *emit) isBytesVal(v Value) bool {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case IfaceV:
			v = x.v
			continue
		case SliceV:
			return isByte(x.elem)
		case Opq:
			if tm := m.e.terms[x.s]; tm.op == "rValueOf" || tm.op == "rInterface" {
				v = tm.args[0]
				continue
			}
		}
		break
	}
	return false
}

// startDepth: the depth that a top-level item is written with.
func (m *emit) startDepth(d *emDoc, c *CallEv, j int) string {
	x := m.e.lin(c.args[j])
	var lim Lin
	found := false
	for _, a := range d.args {
		if v, _, ok := m.e.fieldOf(d.w.st, a, "MaxRecursionDepth"); ok {
			lim, found = m.e.lin(v), true
		}
	}
	if !d.w.st.entails(x.addc(-1)) {
		return fname(d.fn) + " may write the topmost item with no level left"
	}
	if !found {
		return ""
	}
	st := d.w.st.clone()
	if !st.assume(&Cond{k: cGe, l: lim.addc(-1)}) {
		return ""
	}
	if !st.entails(lim.sub(x)) {
		return fmt.Sprintf("%s writes the topmost item with more depth than MaxRecursionDepth", fname(d.fn))
	}
	return ""
}
