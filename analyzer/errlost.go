package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C06: no error of a step is lost.

// isStep: a call whose failure must fail the call it is part of.
func (e *Engine) isStep(c *CallEv) bool {
	if c.fn != nil && (e.p.inPkg(c.fn) || e.prims[c.fn] != 0) {
		return true
	}
	switch {
	case strings.HasPrefix(c.name, "(encoding/json.Number)."), strings.HasPrefix(c.name, "strconv."),
		strings.HasPrefix(c.name, "fmt."), strings.HasPrefix(c.name, "errors."), strings.HasPrefix(c.name, "(*errors."):
		// conversions and the making of errors
		return false
	case strings.HasPrefix(c.name, "(*bytes.Buffer).Write"):
		return false // documented never to fail
	case strings.HasSuffix(c.name, "Closer).Close"):
		return false // of a reader: what has been read stays read
	}
	return true
}

// errOf is the error a call returned.
func errOf(c *CallEv) (Value, bool) {
	n := len(c.res)
	if n == 0 {
		return nil, false
	}
	var rs *types.Tuple
	switch {
	case c.fn != nil:
		rs = c.fn.Signature.Results()
	case c.site != nil:
		if x, ok := c.site.(ssa.CallInstruction); ok {
			rs = x.Common().Signature().Results()
		}
	}
	if rs == nil || rs.Len() != n {
		return nil, false
	}
	for i := n - 1; i >= 0; i-- {
		if types.Identical(rs.At(i).Type(), errType) {
			return c.res[i], true
		}
	}
	return nil, false
}

// lost lists the steps on an accepting path that may have failed.
func (e *Engine) lost(st *State) (bad []*CallEv, n int) {
	seen := map[*LoopCtx]bool{}
	isNil := func(st *State, v Value) bool { return st.decide(e.nilCond(v)) == yes }
	var walk func(st *State, from *LoopCtx, kept func(v Value) bool)
	walk = func(st *State, from *LoopCtx, kept func(v Value) bool) {
		all := st.ev.list()
		i := 0
		for j, x := range all {
			if from != nil && x.k == evLoopIn && x.loop == from {
				i = j + 1
			}
		}
		for _, ev := range all[i:] {
			switch ev.k {
			case evCall, evReturn:
				c := ev.call
				v, ok := errOf(c)
				if !ok || !e.isStep(c) {
					continue
				}
				n++
				if !isNil(st, v) && !kept(v) {
					bad = append(bad, c)
				}
			case evLoopIn, evLoopOut:
				ctx := ev.loop
				if seen[ctx] {
					continue
				}
				seen[ctx] = true
				outer := st
				for _, be := range ctx.backs {
					be := be
					walk(be.st, ctx, func(v Value) bool {
						// carried in a loop variable that is looked at later
						for k, lv := range ctx.vars {
							if k >= len(be.vals) || be.vals[k] == nil || !types.Identical(lv.t, errType) {
								continue
							}
							if valKey(be.vals[k]) == valKey(v) && e.heeded(ctx, k, outer) {
								return true
							}
						}
						return false
					})
				}
			}
		}
	}
	walk(st, nil, func(Value) bool { return false })
	return
}

// heeded: once loop variable k is an error, it stays one until the loop ends,
// and the path taken behind the loop has found it nil.
func (e *Engine) heeded(ctx *LoopCtx, k int, after *State) bool {
	h := ctx.vars[k].head
	isNil := func(st *State) bool { return st.decide(e.nilCond(h)) == yes }
	for _, be := range ctx.backs {
		if !isNil(be.st) && (be.vals[k] == nil || valKey(be.vals[k]) != valKey(h)) {
			return false
		}
	}
	return isNil(after)
}

func init() {
	checks["C06"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Every path of every function that returns an error is followed. On each path on which the function may return a nil error, every step that has returned an error of its own (functions of the package, inlined ones and those of earlier loop iterations included; marshalling hooks; calls of the compression libraries and of readers and writers) must have been found to have succeeded, or its error must be the one returned. By induction over the call graph, an error of any step reaches the caller of the public function."
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			e.returns = true
			type root struct {
				fn   *ssa.Function
				outs []Outcome
			}
			var roots []root
			for _, c := range e.cutList() {
				if errIndex(c.fn) >= 0 {
					outs, _, _ := e.runCut(c)
					roots = append(roots, root{c.fn, outs})
				}
			}
			for _, f := range e.exported() {
				if errIndex(f) >= 0 && e.cuts[f] == nil {
					outs, _ := e.runEntryArgs(f)
					roots = append(roots, root{f, outs})
				}
			}
			for _, rt := range roots {
				ei := errIndex(rt.fn)
				steps := 0
				for _, o := range rt.outs {
					if o.panic {
						continue
					}
					st := o.st
					if st.decide(e.nilCond(o.res[ei])) == no {
						continue
					}
					st = st.clone()
					if !st.assume(e.nilCond(o.res[ei])) {
						continue
					}
					bad, n := e.lost(st)
					steps += n
					for i := len(bad); i < n; i++ {
						r.ok("step")
					}
					for _, c := range bad {
						name := c.name
						if c.fn != nil {
							name = fname(c.fn)
						}
						r.bad("step", fname(rt.fn)+":"+name, e.pos(c.site), "%s may report success although %s has failed (%s)", fname(rt.fn), name, p.Variant)
					}
				}
				r.sample(map[string]interface{}{"function": fname(rt.fn), "paths": len(rt.outs), "steps on accepting paths": steps, "variant": p.Variant})
			}
			for _, l := range e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.atLeast("step", 500)
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
	}
}

// exported lists the exported functions and methods of the package.
func (e *Engine) exported() (r []*ssa.Function) {
	for _, f := range e.p.Funcs {
		if f.Synthetic == "" && f.Parent() == nil && f.Object() != nil && f.Object().Exported() && f.Blocks != nil {
			r = append(r, f)
		}
	}
	return
}
