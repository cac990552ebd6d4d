package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: what package-level variables hold is not changed after initialisation.

// shared finds the values through which memory of package-level variables is
// reached, over the whole package, whatever the path.
type shared struct {
	p     *Program
	e     *Engine
	hot   map[ssa.Value]bool
	field map[*types.Var]bool
	res   map[*ssa.Function]map[int]bool
	more  bool
}

// carries: a value of the type may lead to memory that can be changed.
func carries(t types.Type) bool {
	if isErrorType(t) || isReflectType(t) || synced(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Pointer:
		return !synced(u.Elem())
	case *types.Slice, *types.Map, *types.Chan, *types.Interface:
		return true
	case *types.Signature:
		return false
	case *types.Array:
		return carries(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carries(u.Field(i).Type()) {
				return true
			}
		}
		return isReflectValue(t)
	}
	return false
}

// synced: a type of package sync or sync/atomic.
func synced(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

func (s *shared) mark(v ssa.Value) {
	if !s.hot[v] {
		s.hot[v] = true
		s.more = true
	}
}

func (s *shared) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return g.Pkg == s.p.Pkg && !synced(g.Type().Underlying().(*types.Pointer).Elem())
	}
	return s.hot[v]
}

func (s *shared) callees(c *ssa.CallCommon) (r []*ssa.Function) {
	if c.IsInvoke() {
		for _, t := range s.e.implementors(c.Value.Type()) {
			if sel := s.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := s.p.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
					r = append(r, f)
				}
			}
		}
		return
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		r = append(r, v)
	case *ssa.MakeClosure:
		r = append(r, v.Fn.(*ssa.Function))
	}
	return
}

// flow takes one step for every instruction of a function.
func (s *shared) flow(f *ssa.Function) {
	load := func(v ssa.Value) {
		if carries(v.Type()) {
			s.mark(v)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				if s.is(x.X) && !synced(st.Field(x.Field).Type()) {
					s.mark(x)
				}
			case *ssa.IndexAddr:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.Slice:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.UnOp:
				if s.is(x.X) {
					load(x)
				}
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					if s.field[st.Field(fa.Field)] {
						load(x)
					}
				}
			case *ssa.Field:
				st := x.X.Type().Underlying().(*types.Struct)
				if s.is(x.X) || s.field[st.Field(x.Field)] {
					load(x)
				}
			case *ssa.Index:
				if s.is(x.X) {
					load(x)
				}
			case *ssa.Lookup:
				if s.is(x.X) {
					load(x)
				}
			case *ssa.Next:
				if s.is(x.Iter) {
					s.mark(x)
				}
			case *ssa.Range:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.Extract:
				if s.is(x.Tuple) {
					load(x)
				}
				if c, ok := x.Tuple.(*ssa.Call); ok {
					for _, g := range s.callees(&c.Call) {
						if s.res[g][x.Index] {
							load(x)
						}
					}
				}
			case *ssa.Phi:
				for _, a := range x.Edges {
					if s.is(a) {
						s.mark(x)
					}
				}
			case *ssa.ChangeType:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.Convert:
				if s.is(x.X) {
					load(x)
				}
			case *ssa.ChangeInterface:
				if s.is(x.X) {
					load(x)
				}
			case *ssa.MakeInterface:
				if s.is(x.X) {
					load(x)
				}
			case *ssa.TypeAssert:
				if s.is(x.X) {
					s.mark(x)
				}
			case *ssa.Store:
				if !s.is(x.Val) {
					break
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					st := a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					v := st.Field(a.Field)
					if !s.field[v] && v.Pkg() == s.p.Pkg.Pkg {
						s.field[v] = true
						s.more = true
					}
				case *ssa.Alloc:
					// loads of it are shared; the variable itself is not
					for _, r := range *a.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							load(u)
						}
					}
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if s.is(b) {
						s.mark(g.FreeVars[i])
					}
				}
			case *ssa.Return:
				for i, v := range x.Results {
					if s.is(v) && !s.res[f][i] {
						if s.res[f] == nil {
							s.res[f] = map[int]bool{}
						}
						s.res[f][i] = true
						s.more = true
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			for _, g := range s.callees(c) {
				if !s.p.inPkg(g) {
					continue
				}
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, c.Args...)
				}
				for i, a := range args {
					if i < len(g.Params) && s.is(a) {
						s.mark(g.Params[i])
					}
				}
				if v := ci.Value(); v != nil && s.res[g][0] && g.Signature.Results().Len() == 1 {
					load(v)
				}
			}
			// what a foreign function makes of it
			if v := ci.Value(); v != nil {
				ext := true
				for _, g := range s.callees(c) {
					ext = ext && !s.p.inPkg(g)
				}
				if ext && !copies(callName(c)) {
					for i, a := range c.Args {
						if i > 0 && callName(c) == "append" {
							if sl, ok := v.Type().Underlying().(*types.Slice); ok && !carries(sl.Elem()) {
								break
							}
						}
						if s.is(a) {
							load(v)
						}
					}
					if c.IsInvoke() && s.is(c.Value) {
						load(v)
					}
				}
			}
		}
	}
}

func callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "(" + types.TypeString(c.Value.Type(), nil) + ")." + c.Method.Name()
	}
	if g := c.StaticCallee(); g != nil {
		return g.RelString(nil)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "func"
}

// readsOnly: the foreign function does not change what its arguments lead to.
func readsOnly(name string) bool {
	for _, p := range []string{"fmt.", "errors.", "strconv.", "strings.", "math.", "unicode", "reflect.", "(reflect.Type).", "(*reflect.rtype).", "(error)."} {
		if strings.HasPrefix(name, p) {
			return name != "reflect.Copy" && name != "reflect.Swapper"
		}
	}
	switch name {
	case "len", "cap", "print", "println", "panic", "ssa:wrapnilchk", "min", "max", "ssa:deferstack":
		return true
	case "bytes.Equal", "bytes.Compare", "bytes.HasPrefix", "bytes.HasSuffix", "bytes.Index", "bytes.IndexByte", "bytes.Contains", "bytes.NewReader":
		return true
	}
	if strings.HasPrefix(name, "(reflect.Value).") {
		n := strings.TrimPrefix(name, "(reflect.Value).")
		return !strings.HasPrefix(n, "Set") && n != "Clear" && n != "Send" && n != "Grow" && n != "Call"
	}
	return false
}

// judge looks for changes in one function.
func (s *shared) judge(r *Report, f *ssa.Function) {
	n := 0
	see := func(in ssa.Instruction, bad bool, what string) {
		n++
		r.check(!bad, "shared", fname(f)+":"+what, s.e.pos(in), "%s %s that a package-level variable leads to, without synchronisation (%s)", fname(f), what, s.p.Variant)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				see(in, s.is(x.Addr), "stores to memory")
			case *ssa.MapUpdate:
				see(in, s.is(x.Map), "changes a map")
			case *ssa.Send:
				see(in, s.is(x.Chan), "sends on a channel")
			case *ssa.Go:
				r.bad("goroutine", fname(f), s.e.pos(in), "%s starts a goroutine, which this analysis does not follow (%s)", fname(f), s.p.Variant)
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			inside := false
			for _, g := range s.callees(c) {
				inside = inside || s.p.inPkg(g)
			}
			name := callName(c)
			if inside {
				continue
			}
			switch name {
			case "append", "copy", "delete", "clear", "close":
				see(in, s.is(c.Args[0]), "changes a container ("+name+")")
				continue
			}
			if readsOnly(name) {
				continue
			}
			if strings.HasPrefix(name, "sync/atomic.") && len(c.Args) > 0 {
				// then every access must be atomic
				if gl, ok := c.Args[0].(*ssa.Global); ok {
					for _, x := range *s.globalRefs(gl) {
						_, plain := x.(*ssa.UnOp)
						see(x, plain, "reads, not atomically, memory")
					}
					continue
				}
			}
			bad := c.IsInvoke() && s.is(c.Value)
			for i, a := range c.Args {
				if i > 0 && strings.HasPrefix(name, "(reflect.Value).") {
					break
				}
				bad = bad || s.is(a)
			}
			see(in, bad, "hands to "+name+" something")
		}
	}
	if n == 0 {
		r.ok("shared")
	}
}

// globalRefs are the uses of a variable.
func (s *shared) globalRefs(g *ssa.Global) *[]ssa.Instruction {
	var r []ssa.Instruction
	var ops [16]*ssa.Value
	for _, f := range s.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(ops[:0]) {
					if *op == ssa.Value(g) {
						r = append(r, in)
					}
				}
			}
		}
	}
	return &r
}

func init() {
	checks["C11"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Effect analysis of the whole package, without regard to paths: every value through which memory of a package-level variable may be reached is found by a fixed point over assignments, loads, conversions, closures, calls, results and struct fields. Outside of the initialisation of the package, nothing may be stored through such a value, no such map or slice be changed, and none be handed to a foreign function that may change it; what belongs to package sync or sync/atomic is excepted. No goroutine is started. As encoders, decoders and mergers are then connected only by memory that is never changed, calls on different objects cannot race."
		r.Trusted = append(r.Trusted, "package sync", "foreign functions other than those named do not keep state of their own that is not synchronised", "what a user hands to two calls is the user's concern")
		sharedRules(r)
		r.atLeast("variable", 20)
		r.atLeast("shared", 500)
	}
}

// sharedRules judges what package-level variables lead to.
func sharedRules(r *Report) {
	forVariants(r, bothVariants, func(p *Program) {
		s := &shared{p: p, e: bare(p), hot: map[ssa.Value]bool{}, field: map[*types.Var]bool{}, res: map[*ssa.Function]map[int]bool{}, more: true}
		for s.more {
			s.more = false
			for _, f := range p.Funcs {
				s.flow(f)
			}
		}
		vars := 0
		for _, m := range p.Pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				vars++
				if g.Object() != nil && g.Object().Exported() && carries(g.Type().Underlying().(*types.Pointer).Elem()) {
					r.bad("exported", g.Name(), g.Name(), "the package-level variable %s is exported and leads to memory that users may change (%s)", g.Name(), p.Variant)
				}
				r.ok("variable")
			}
		}
		var inits []*ssa.Function
		for _, f := range p.Funcs {
			if (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) && f.Parent() == nil && f.Signature.Recv() == nil {
				inits = append(inits, f)
			}
		}
		once := p.onlyFrom(inits)
		for _, f := range p.Funcs {
			if !once[f] || f.Parent() != nil {
				s.judge(r, f)
			}
		}
		r.sample(map[string]interface{}{"variables": vars, "functions": len(p.Funcs), "values that lead to them": len(s.hot), "variant": p.Variant})
	})
}
