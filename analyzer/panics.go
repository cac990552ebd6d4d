package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: a panic never turns into success.

// reflPanics: calls of package reflect that panic on a type they do not suit.
func reflPanics(name string) bool {
	i := strings.LastIndexByte(name, '.')
	short := name[i+1:]
	switch {
	case strings.HasPrefix(name, "(reflect.Value)."):
		switch short {
		case "IsValid", "Kind", "String", "CanAddr", "CanSet", "CanInterface", "CanInt", "CanUint", "CanFloat", "Comparable":
			return false
		}
		return true
	case strings.HasPrefix(name, "(reflect.Type)."), strings.HasPrefix(name, "(*reflect.rtype)."):
		switch short {
		case "Elem", "Key", "Len", "Field", "NumField", "In", "Out", "NumIn", "NumOut", "Bits", "IsVariadic", "FieldByIndex", "Implements", "ConvertibleTo", "AssignableTo":
			return true
		}
		return false
	case strings.HasPrefix(name, "(*reflect.MapIter)."):
		return true
	case strings.HasPrefix(name, "reflect."):
		switch short {
		case "ValueOf", "TypeOf", "PtrTo", "PointerTo", "Indirect", "DeepEqual":
			return false
		}
		return true
	}
	return false
}

// quiet: calls that never panic.
func quiet(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "strconv.", "strings.", "bytes.", "math.", "sync.", "(*sync.", "(encoding/binary.", "encoding/binary.", "(*bytes.", "(*strings.", "unicode", "runtime.", "sort.", "slices.", "maps."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return strings.HasPrefix(name, "reflect.") && !reflPanics(name) || strings.HasPrefix(name, "(reflect.") && !reflPanics(name)
}

// reflReach lists the functions of the package that may come to a reflection
// call that panics.
func (e *Engine) reflReach() map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for change := true; change; {
		change = false
		for _, f := range e.p.Funcs {
			if r[f] {
				continue
			}
			hit := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if mk, ok := in.(*ssa.MakeClosure); ok && r[mk.Fn.(*ssa.Function)] {
						hit = true
					}
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					c := ci.Common()
					switch {
					case c.IsInvoke():
						name := "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
						hit = hit || reflPanics(name)
						for _, t := range e.implementors(c.Value.Type()) {
							if sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
								hit = hit || r[e.p.Prog.MethodValue(sel)]
							}
						}
					case c.StaticCallee() != nil:
						g := c.StaticCallee()
						hit = hit || r[g] || !e.p.inPkg(g) && reflPanics(g.RelString(nil))
					}
				}
			}
			if hit {
				r[f], change = true, true
			}
		}
	}
	return r
}

// panicKinds are the values panicked with: one of any type, and one of each
// kind that is to be told apart.
type panicKinds struct {
	any, str, refl, fault Value
}

func (e *Engine) panicKinds() *panicKinds {
	iface := types.NewInterfaceType(nil, nil)
	named := func(name string, under types.Type, methods ...string) *types.Named {
		tn := types.NewTypeName(token.NoPos, nil, name, nil)
		n := types.NewNamed(tn, under, nil)
		for _, m := range methods {
			var res *types.Tuple
			if m == "Error" {
				res = types.NewTuple(types.NewVar(token.NoPos, nil, "", types.Typ[types.String]))
			}
			recv := types.NewVar(token.NoPos, nil, "", n)
			n.AddMethod(types.NewFunc(token.NoPos, nil, m, types.NewSignatureType(recv, nil, nil, nil, res, false)))
		}
		return n
	}
	of := func(t types.Type, key string) Value { return IfaceV{dyn: t, v: e.fresh(t, key, false)} }
	k := &panicKinds{}
	a := e.fresh(iface, "panic.any", false).(Opq)
	k.any = a
	k.str = of(types.Typ[types.String], "panic.string")
	k.refl = of(named("reflect.ValueError", types.Typ[types.String], "Error"), "panic.ValueError")
	k.fault = of(named("runtime.boundsError", types.Typ[types.String], "Error", "RuntimeError"), "panic.fault")
	return k
}

// isFault: what was panicked with has turned out to be a runtime fault.
func (e *Engine) isFault(st *State, v Value) bool {
	o, ok := v.(Opq)
	pkg := e.p.Prog.ImportedPackage("runtime")
	if !ok || pkg == nil || pkg.Type("Error") == nil {
		return false
	}
	t := pkg.Type("Error").Type()
	if f, ok := st.typs[o.s]; ok && f.is != nil {
		return types.Implements(f.is, t.Underlying().(*types.Interface))
	}
	is := &Cond{k: cSym, s: e.syms.get(implKey(e, o, t))}
	return st.decide(is) == yes
}

func init() {
	checks["C07"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Every call on every path of every exported function that returns an error is made to panic, with a value of any type, with a string, with an error and with a runtime fault; deferred functions are then run as the language defines, recover taking effect only where a deferred function calls it itself. A path that returns in spite of the panic must return an error, and must not have met a runtime fault; where the call may come to a reflection call that panics on a type mismatch and the function encodes or decodes, the path must return. The recursive functions are judged the same, their own panics added."
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			k := e.panicKinds()
			refl := e.reflReach()
			mayRefl := func(c *CallEv) bool { return refl[c.fn] || reflPanics(c.name) }
			e.panicsW = func(fn *ssa.Function, name string) []Value {
				if quiet(name) {
					return nil
				}
				return []Value{k.any, k.str, k.refl, k.fault}
			}
			judge := func(fn *ssa.Function, outs []Outcome, public bool) {
				ei := errIndex(fn)
				entry := public && (refl[fn])
				n := 0
				for _, o := range outs {
					var pc *Ev
					for ev := o.st.ev; ev != nil; ev = ev.prev {
						if ev.k == evNote && ev.name == "panics" {
							pc = ev
						}
					}
					if pc == nil {
						continue
					}
					n++
					c := pc.call
					name := c.name
					if c.fn != nil {
						name = fname(c.fn)
					}
					at := fname(fn) + ":" + name
					same := func(v Value) bool { return valKey(pc.x) == valKey(v) }
					switch {
					case o.panic:
						if entry && mayRefl(c) && (same(k.str) || same(k.refl)) {
							r.bad("escape", at, e.pos(c.site), "a type mismatch that reflection reports in %s escapes %s as a panic (%s)", name, fname(fn), p.Variant)
						} else {
							r.ok("propagates")
						}
					case ei < 0 || o.st.decide(e.nilCond(o.res[ei])) != no:
						r.bad("success", at, e.pos(c.site), "%s may report success although %s has panicked with %s (%s)", fname(fn), name, valKey(pc.x), p.Variant)
					case same(k.fault), e.isFault(o.st, pc.x):
						r.bad("fault", at, e.pos(c.site), "%s hides a runtime fault in %s (%s)", fname(fn), name, p.Variant)
					default:
						r.ok("error")
					}
				}
				r.sample(map[string]interface{}{"function": fname(fn), "panicking paths": n, "variant": p.Variant})
			}
			for _, c := range e.cutList() {
				outs, _, _ := e.runCut(c)
				judge(c.fn, outs, false)
			}
			for _, f := range e.exported() {
				if e.cuts[f] == nil && errIndex(f) >= 0 {
					outs, _ := e.runEntryArgs(f)
					judge(f, outs, true)
				}
			}
			for _, l := range e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.atLeast("error", 50)
		r.Trusted = append(r.Trusted, libTrust...)
	}
}
