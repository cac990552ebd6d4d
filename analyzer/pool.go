package main

import (
	"go/types"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// C31: what is taken from a sync.Pool.

const poolGet, poolPut = "(*sync.Pool).Get", "(*sync.Pool).Put"

// poolRoots are the functions in which something taken from a pool stays:
// those that take it, or their callers if they hand it out.
type pooling struct {
	e *Engine
	w *wire
	r *Report
}

// got is one acquisition on a path.
type got struct {
	ev    *Ev
	sym   Sym
	pool  Value
	put   bool
	reset bool
	taint map[string]bool
}

func (g *got) has(e *Engine, v Value) bool {
	switch v := v.(type) {
	case Opq:
		if v.s == g.sym || g.taint[e.syms.name(v.s)] {
			return true
		}
		if strings.HasPrefix(e.syms.name(v.s), "err#") {
			return false
		}
		return g.names(e, e.syms.name(v.s))
	case IfaceV:
		return g.has(e, v.v)
	case PtrV:
		return v.obj != nil && (g.taint[v.obj.key] || g.names(e, v.obj.key))
	case SliceV:
		return v.base != nil && (g.taint[v.base.key] || g.names(e, v.base.key))
	case StructV:
		for _, f := range v.f {
			if g.has(e, f) {
				return true
			}
		}
	case TupleV:
		for _, f := range v {
			if g.has(e, f) {
				return true
			}
		}
	case FuncV:
		for _, f := range v.binds {
			if g.has(e, f) {
				return true
			}
		}
	}
	return false
}

// names: a key built from the name of the acquired value.
func (g *got) names(e *Engine, key string) bool {
	n := e.syms.name(g.sym)
	for i := strings.Index(key, n); i >= 0; {
		j := i + len(n)
		if j == len(key) || key[j] < '0' || key[j] > '9' {
			return true
		}
		k := strings.Index(key[j:], n)
		if k < 0 {
			break
		}
		i = j + k
	}
	return false
}

func (g *got) mark(e *Engine, v Value) {
	switch v := v.(type) {
	case Opq:
		g.taint[e.syms.name(v.s)] = true
	case PtrV:
		if v.obj != nil {
			g.taint[v.obj.key] = true
		}
	case SliceV:
		if v.base != nil && !v.str {
			g.taint[v.base.key] = true
		}
	case IfaceV:
		g.mark(e, v.v)
	}
}

// copies: the result shares no memory with the arguments.
func copies(name string) bool {
	i := strings.LastIndexByte(name, '.')
	switch name[i+1:] {
	case "Clone", "String", "Len", "Cap", "Error", "Errorf", "Sprintf", "Sprint":
		return true
	}
	return false
}

func (q *pooling) path(fn *ssa.Function, o Outcome) (leak bool) {
	e := q.e
	at := e.pos(o.at)
	var pend []func()
	defer func() {
		// what hands out what it took is judged in its callers
		if !leak {
			for _, f := range pend {
				f()
			}
		}
	}()
	check := func(ok bool, rule, why string) {
		pend = append(pend, func() { q.r.check(ok, rule, fname(fn), at, "%s: %s (%s)", fname(fn), why, e.p.Variant) })
	}
	var gs []*got
	open := func(v Value) *got {
		for _, g := range gs {
			if g.has(e, v) {
				return g
			}
		}
		return nil
	}
	last := map[*got]Value{}
	for _, ev := range o.st.ev.list() {
		switch ev.k {
		case evCall:
			c := ev.call
			if c.name == poolGet {
				s, ok := c.res[0].(Opq)
				if !ok {
					check(false, "use", "what is taken from a pool was not followed")
					continue
				}
				gs = append(gs, &got{ev: ev, sym: s.s, pool: c.args[0], taint: map[string]bool{}})
				continue
			}
			if c.name == poolPut {
				g := open(c.args[1])
				if g == nil {
					check(false, "release", "something is put in a pool that was not taken from it")
					continue
				}
				check(valKey(g.pool) == valKey(c.args[0]), "release", "something is put in another pool than it was taken from")
				check(q.itself(g, c.args[1]), "release", "not the very thing taken from the pool is put back")
				check(!g.put, "release", "something is put in a pool twice")
				g.put = true
				continue
			}
			var hit []*got
			for _, g := range gs {
				for _, a := range c.args {
					if g.has(e, a) {
						hit = append(hit, g)
						break
					}
				}
			}
			for _, g := range hit {
				check(!g.put, "use", "something is used after it was put back in its pool")
				method := len(c.args) > 0 && g.has(e, c.args[0]) && strings.HasSuffix(c.name, ".Reset")
				if method {
					if len(c.args) == 1 {
						g.reset = true
						continue
					}
					dst := c.args[1]
					if i, ok := dst.(IfaceV); ok {
						dst = i.v
					}
					pv, ok := dst.(PtrV)
					private := ok && pv.obj != nil && pv.obj.fresh
					if h := open(dst); h != nil && h != g && !h.put && h.reset {
						private = true
						last[g] = dst
					}
					check(private || q.harmless(dst), "reset", "a pooled compressor is made to write to something that is not its own")
					g.reset = private
					continue
				}
				if len(c.args) > 0 && g.has(e, c.args[0]) {
					check(g.reset, "reset", "something taken from a pool is used without having been reset")
				}
				if !copies(c.name) && (c.fn == nil || !e.p.inPkg(c.fn)) {
					for _, x := range c.res {
						if t := typeOf(x); t == nil || !isErrorType(t) {
							g.mark(e, x)
						}
					}
				}
			}
		case evStore:
			for _, g := range gs {
				if g.has(e, ev.val) && (ev.ptr.obj == nil || !ev.ptr.obj.fresh) {
					check(false, "private", "something taken from a pool is kept")
				}
			}
		case evMapSet:
			for _, g := range gs {
				if g.has(e, ev.val) {
					check(false, "private", "something taken from a pool is kept")
				}
			}
		}
	}
	for _, x := range o.res {
		for _, g := range gs {
			if t := typeOf(x); t != nil && isErrorType(t) {
				continue
			}
			if _, isF := x.(FuncV); (isF && g.has(e, x) || q.itself(g, x)) && !g.put {
				leak = true
				continue
			}
			check(!g.has(e, x), "private", "what is returned belongs to something taken from a pool")
		}
	}
	for range gs {
		q.r.ok("path")
	}
	return leak
}

// itself: v is what was taken from the pool, not a part of it.
func (q *pooling) itself(g *got, v Value) bool {
	if i, ok := v.(IfaceV); ok {
		v = i.v
	}
	switch v := v.(type) {
	case Opq:
		return v.s == g.sym || strings.HasPrefix(q.e.syms.name(v.s), "as("+q.e.syms.name(g.sym)+",")
	case PtrV:
		return v.obj != nil && v.path == "" && strings.HasPrefix(v.obj.key, "at(as("+q.e.syms.name(g.sym)+",")
	}
	return false
}

// harmless: nothing can be written to it that matters.
func (q *pooling) harmless(v Value) bool {
	if _, ok := v.(NilV); ok {
		return true
	}
	o, ok := v.(Opq)
	return ok && strings.HasSuffix(q.e.syms.name(o.s), "Discard")
}

func typeOf(v Value) types.Type {
	switch v := v.(type) {
	case Opq:
		return v.t
	case IfaceV:
		return v.dyn
	case NilV:
		return v.t
	}
	return nil
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// calls are the functions of the package that fn calls statically.
func (e *Engine) staticCallees(fn *ssa.Function) (r []*ssa.Function, ext []string) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if mk, ok := in.(*ssa.MakeClosure); ok {
				r = append(r, mk.Fn.(*ssa.Function))
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil {
				if e.p.inPkg(g) {
					r = append(r, g)
				} else {
					ext = append(ext, g.RelString(nil))
				}
			}
		}
	}
	return
}

// level is the compression level a value stands for: the one the receiver of
// the path asks for, or the default if it asks for none.
func (q *pooling) levelOK(o Outcome, recv Value, k Lin) bool {
	st := o.st
	lv := Value(nil)
	switch v := recv.(type) {
	case StructV:
		u := v.t.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "Level" {
				lv = v.f[i]
			}
		}
	}
	if lv == nil {
		return false
	}
	l := q.e.lin(lv)
	if q.w.same(st, k, l) {
		return true
	}
	return st.entails(l) && st.entails(l.neg()) && q.w.same(st, k, constLin(-1))
}

func init() {
	checks["C31"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Typestate of everything taken from a sync.Pool, on every path of every function in which it stays: it must be reset to an output that the path itself has made (or to one taken from a pool and still held) before any other use, must not be used after it was put back, must be put back at most once and into the pool it came from, must not be stored anywhere, and nothing returned may share memory with it. Pools that are kept by compression level must, at the place where they are made, create writers of the very level that is their key, by a variable of their own; on every path of every compressor the pool used must be the one of the level asked for. All pools of the package are found by the calls of Get."
		r.Trusted = append(r.Trusted, "sync.Pool", "(*zlib.Writer).Reset discards all state")
		poolRules(r)
	}
}

// poolRules judges all uses of pools.
func poolRules(r *Report) {
	var none atomic.Bool
	forVariants(r, bothVariants, func(p *Program) {
		e := bare(p)
		q := &pooling{e: e, w: &wire{e: e}, r: r}
		// functions that take something from a pool, and if they hand it
		// out, their callers
		roots := map[*ssa.Function]bool{}
		for _, f := range p.Funcs {
			_, ext := e.staticCallees(f)
			for _, x := range ext {
				if x == poolGet {
					roots[f] = true
				}
			}
		}
		if len(roots) == 0 {
			r.ok("nopool")
			none.Store(true)
		}
		done := map[*ssa.Function]bool{}
		for more := true; more; {
			more = false
			for _, f := range p.Funcs {
				if !roots[f] || done[f] {
					continue
				}
				done[f], more = true, true
				outs, _ := e.runEntryArgs(f)
				leak := false
				for _, o := range outs {
					leak = q.path(f, o) || leak
				}
				r.sample(map[string]interface{}{"function": fname(f), "paths": len(outs), "variant": p.Variant})
				if leak {
					for _, g := range p.Funcs {
						cs, _ := e.staticCallees(g)
						for _, c := range cs {
							if c == f {
								roots[g] = true
							}
						}
					}
					if f.Object() != nil && f.Object().Exported() {
						r.bad("private", fname(f), fnPos(e, f), "%s hands out what it took from a pool (%s)", fname(f), p.Variant)
					}
				}
			}
		}
		// the levels asked for
		reach := map[*ssa.Function]bool{}
		for f := range roots {
			reach[f] = true
		}
		for more := true; more; {
			more = false
			for _, g := range p.Funcs {
				cs, _ := e.staticCallees(g)
				for _, c := range cs {
					if reach[c] && !reach[g] {
						reach[g], more = true, true
					}
				}
			}
		}
		for _, f := range p.Funcs {
			if !reach[f] || f.Signature.Recv() == nil || f.Name() != "compress" || f.Synthetic != "" {
				continue
			}
			outs, args := e.runEntryArgs(f)
			recv := args[0]
			if pv, ok := recv.(PtrV); ok {
				recv = e.load(newState(e), pv, pv.elem)
			}
			for _, o := range outs {
				var gets []*Ev
				for _, ev := range o.st.ev.list() {
					if ev.k == evMapGet {
						gets = append(gets, ev)
					}
					if ev.k != evCall || ev.call.name != poolGet {
						continue
					}
					ok, keyed := false, false
					for _, g := range gets {
						if valKey(g.val) == valKey(ev.call.args[0]) {
							keyed = true
							ok = q.levelOK(o, recv, e.lin(g.x))
						}
					}
					// a pool of things that have no level
					leveled := false
					sym, _ := ev.call.res[0].(Opq)
					g := &got{sym: sym.s}
					for _, x := range o.st.ev.list() {
						if x.k == evCall && len(x.call.args) > 1 && strings.HasSuffix(x.call.name, ".Reset") && g.has(e, x.call.args[0]) {
							leveled = true
						}
					}
					if keyed || !leveled {
						ok = ok || !keyed
						r.check(ok, "level", fname(f), e.pos(o.at), "%s: the pool of another level than the one asked for is used (%s)", fname(f), p.Variant)
					} else {
						r.bad("level", fname(f), e.pos(o.at), "%s: the level of the pool used is not known (%s)", fname(f), p.Variant)
					}
				}
			}
		}
		// where the pools are made
		for _, f := range p.Funcs {
			if f.Synthetic != "" || !q.makesPools(f) {
				continue
			}
			outs, _ := e.runEntryArgs(f)
			for _, o := range outs {
				q.made(f, o.st, o.st.ev.list())
			}
		}
	})
	if !none.Load() {
		r.atLeast("path", 4)
		r.atLeast("made", 2)
		r.atLeast("level", 4)
	}
}

// makesPools: the function enters pools in a map.
func (q *pooling) makesPools(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.MapUpdate); ok {
				if strings.Contains(types.TypeString(x.Value.Type(), nil), "sync.Pool") {
					return true
				}
			}
		}
	}
	return false
}

// made checks the pools entered in maps.
func (q *pooling) made(f *ssa.Function, st *State, evs []*Ev) {
	e := q.e
	seen := map[*LoopCtx]bool{}
	for _, ev := range evs {
		if ev.k == evLoopIn && !seen[ev.loop] {
			seen[ev.loop] = true
			for _, be := range ev.loop.backs {
				q.made(f, be.st, suffixAfter(be.st.ev.list(), ev))
			}
			continue
		}
		if ev.k != evMapSet {
			continue
		}
		pv, ok := ev.val.(PtrV)
		if !ok || pv.elem == nil || !strings.HasSuffix(types.TypeString(pv.elem, nil), "sync.Pool") {
			continue
		}
		why := q.creates(st, pv, e.lin(ev.x))
		q.r.check(why == "", "made", fname(f), e.pos(ev.site), "%s: %s (%s)", fname(f), why, e.p.Variant)
	}
}

// creates: the pool makes writers of level k.
func (q *pooling) creates(st *State, pv PtrV, k Lin) string {
	e := q.e
	if pv.obj == nil || !pv.obj.fresh {
		return "a pool is entered that was not made here"
	}
	v, _, ok := e.fieldOf(st, pv, "New")
	fv, isF := v.(FuncV)
	if !ok || !isF || fv.fn == nil || fv.fn.Blocks == nil {
		return "what a pool creates is not known"
	}
	n := 0
	for _, b := range fv.fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				continue
			}
			g := c.Call.StaticCallee()
			sig := g.Signature
			for i := 0; i < sig.Params().Len(); i++ {
				if !isInt(sig.Params().At(i).Type()) {
					continue
				}
				n++
				var l Lin
				switch a := c.Call.Args[i].(type) {
				case *ssa.Const:
					l = constLin(a.Int64())
				case *ssa.UnOp:
					fr, ok := a.X.(*ssa.FreeVar)
					if !ok {
						return "the level of the writers of a pool is not known"
					}
					for j, x := range fv.fn.FreeVars {
						if x != fr || j >= len(fv.binds) {
							continue
						}
						bp, ok := fv.binds[j].(PtrV)
						if !ok || bp.obj == nil || bp.obj.loop != pv.obj.loop || !storedOnce(bp.obj.alloc) {
							return "the level of the writers of a pool is a variable that may change"
						}
						l = e.lin(e.load(st, bp, bp.elem))
					}
				case *ssa.FreeVar:
					for j, x := range fv.fn.FreeVars {
						if x == a && j < len(fv.binds) {
							l = e.lin(fv.binds[j])
						}
					}
				default:
					return "the level of the writers of a pool is not known"
				}
				if !q.w.same(st, l, k) {
					return "a pool creates writers of another level than its key"
				}
			}
		}
	}
	if n == 0 {
		return "what a pool creates is not known"
	}
	return ""
}

// storedOnce: a variable is given a value once and never changed.
func storedOnce(in ssa.Instruction) bool {
	a, ok := in.(*ssa.Alloc)
	if !ok || a.Referrers() == nil {
		return false
	}
	n := 0
	for _, x := range *a.Referrers() {
		switch x := x.(type) {
		case *ssa.Store:
			if x.Addr == a {
				n++
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b != a {
					continue
				}
				fv := x.Fn.(*ssa.Function).FreeVars[i]
				for _, y := range *fv.Referrers() {
					if s, ok := y.(*ssa.Store); ok && s.Addr == fv {
						return false
					}
				}
			}
		}
	}
	return n == 1
}

func fnPos(e *Engine, f *ssa.Function) string {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return e.pos(in)
			}
		}
	}
	return fname(f)
}
