package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- modification sets

// modSet is what a function may modify, transitively.
type modSet struct {
	fields map[string]types.Type      // struct fields
	elems  map[string]bool            // element types of slices stored to
	maps   map[string]map[string]bool // by type, where maps written to come from
	mapT   map[string]bool            // types of maps that values are stored in
	ptrs   map[string]bool            // pointees of plain pointers, by type
}

func (e *Engine) modsOf(fn *ssa.Function) *modSet {
	if m, ok := e.mods[fn]; ok {
		return m
	}
	m := &modSet{maps: map[string]map[string]bool{}, fields: map[string]types.Type{}, elems: map[string]bool{}, ptrs: map[string]bool{}, mapT: map[string]bool{}}
	e.mods[fn] = m
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !(e.p.inPkg(f) || e.wrapsPkg(f)) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			walk(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					switch a := in.Addr.(type) {
					case *ssa.FieldAddr:
						if !localAlloc(a.X) {
							t := a.X.Type().Underlying().(*types.Pointer).Elem()
							m.fields[fieldKey(t, t.Underlying().(*types.Struct).Field(a.Field).Name())] = t.Underlying().(*types.Struct).Field(a.Field).Type()
						}
					case *ssa.IndexAddr:
						if !e.newMem(a.X) {
							m.elems[in.Val.Type().String()] = true
						}
					case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
					default:
						m.ptrs[in.Val.Type().String()] = true
						if st, ok := in.Val.Type().Underlying().(*types.Struct); ok && !e.opaqueStruct(in.Val.Type()) {
							for i := 0; i < st.NumFields(); i++ {
								m.fields[fieldKey(in.Val.Type(), st.Field(i).Name())] = st.Field(i).Type()
							}
						}
					}
				case *ssa.MapUpdate:
					e.modMap(m, in.Map)
					m.mapT[in.Map.Type().Underlying().String()] = true
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
								e.modMap(m, c.Args[0])
							}
						case "copy":
							if !e.newMem(c.Args[0]) {
								m.elems["byte"] = true
							}
						}
						continue
					}
					if c.IsInvoke() {
						for _, t := range e.implementors(c.Value.Type()) {
							if sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
								walk(e.p.Prog.MethodValue(sel))
							}
						}
						continue
					}
					if f := c.StaticCallee(); f != nil {
						walk(f)
						for _, i := range writers[f.RelString(nil)] {
							if i < len(c.Args) && !e.newMem(c.Args[i]) {
								m.elems["byte"] = true
							}
						}
					}
				}
			}
		}
	}
	walk(fn)
	return m
}

func (e *Engine) modMap(m *modSet, v ssa.Value) {
	if newMap(v) {
		return
	}
	t := mapType(v.Type())
	if m.maps[t] == nil {
		m.maps[t] = map[string]bool{}
	}
	for _, o := range e.mapOrigins(v) {
		m.maps[t][o] = true
	}
}

// newMem: the memory was allocated by the function itself.
func (e *Engine) newMem(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Alloc, *ssa.MakeSlice:
			return true
		case *ssa.Const:
			return v.Value == nil
		case *ssa.Slice:
			return is(v.X)
		case *ssa.ChangeType:
			return is(v.X)
		case *ssa.Convert:
			// a string's bytes are copied
			b, ok := v.X.Type().Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !is(x) {
					return false
				}
			}
			return true
		case *ssa.Call:
			b, ok := v.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && is(v.Call.Args[0])
		}
		return false
	}
	return is(v)
}

// localAlloc: the address is in memory allocated by the function itself.
func localAlloc(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAlloc(v.X)
	}
	return false
}

// ---------------------------------------------------------------- call graph and cuts

func (e *Engine) callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	add := func(g *ssa.Function) {
		if g != nil && e.p.inPkg(g) {
			r = append(r, g)
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				cm := c.Common()
				if cm.IsInvoke() {
					for _, t := range e.implementors(cm.Value.Type()) {
						if sel := e.p.Prog.MethodSets.MethodSet(t).Lookup(cm.Method.Pkg(), cm.Method.Name()); sel != nil {
							add(e.p.Prog.MethodValue(sel))
						}
					}
				} else {
					add(cm.StaticCallee())
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if mc, ok := (*op).(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
				if fv, ok := (*op).(*ssa.Function); ok {
					add(fv)
				}
			}
		}
	}
	return r
}

// sccs finds the strongly connected components (with cycles) of the package's
// call graph restricted to the functions keep allows.
func (e *Engine) sccs(keep func(*ssa.Function) bool) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	var out [][]*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, g := range e.callees(f) {
			if !keep(g) {
				continue
			}
			if g == f {
				self = true
			}
			if idx[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && idx[g] < low[f] {
				low[f] = idx[g]
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || self {
				sort.Slice(c, func(i, j int) bool { return e.p.less(c[i], c[j]) })
				out = append(out, c)
			}
		}
	}
	for _, f := range e.p.Funcs {
		if keep(f) && idx[f] == 0 {
			visit(f)
		}
	}
	return out
}

// chooseCuts picks functions whose calls are summarised so that no recursion
// remains among the others.
func (e *Engine) chooseCuts() [][]*ssa.Function {
	cut := map[*ssa.Function]bool{}
	groups := e.sccs(func(*ssa.Function) bool { return true })
	for {
		cs := e.sccs(func(f *ssa.Function) bool { return !cut[f] })
		if len(cs) == 0 {
			break
		}
		for _, c := range cs {
			// the function with the most edges within the component
			in := map[*ssa.Function]bool{}
			for _, f := range c {
				in[f] = true
			}
			deg := map[*ssa.Function]int{}
			ind := map[*ssa.Function]int{}
			for _, f := range c {
				for _, g := range e.callees(f) {
					if in[g] {
						deg[f]++
						ind[g]++
						if g == f {
							ind[g] += 1000
						}
					}
				}
			}
			best := c[0]
			for _, f := range c {
				if deg[f]*ind[f] > deg[best]*ind[best] {
					best = f
				}
			}
			cut[best] = true
		}
	}
	var r [][]*ssa.Function
	for _, g := range groups {
		var l []*ssa.Function
		for _, f := range g {
			if cut[f] {
				l = append(l, f)
			}
		}
		r = append(r, l)
	}
	return r
}

// ---------------------------------------------------------------- contracts

// Contract summarises calls of a function.
type Contract struct {
	fn     *ssa.Function
	pre    []*cand
	post   []*cand
	keep   map[string]bool // "param.field" keeps its value over a call that succeeds
	keepE  map[string]bool // ... that fails
	subOf  map[int]int     // result -> parameter it is a subslice of
	extOf  map[int]int     // result -> parameter slice it extends
	extMin int64
	group  int
	root   bool // analysed on its own
}

// cand is a candidate pre- or postcondition.
type cand struct {
	name  string
	dead  bool
	why   string
	onNil bool // holds if the error result is nil
	lin   func(args, res []Value) (Lin, bool)
	cnd   func(e *Engine, st *State, args []Value) *Cond
	bnd   func(e *Engine, st *State, args, res []Value) (Opq, int64, Lin, bool)
	// a term over fields of the arguments; with old set, minus its value at entry
	fld func(e *Engine, st *State, args []Value) (Lin, bool)
	old bool
}

// fieldCands proposes relations between integer and byte slice fields of the
// structs a function is given.
func (e *Engine) fieldCands(c *Contract) {
	fn := c.fn
	for pi, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		stt, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok || !e.ownType(pt.Elem()) {
			continue
		}
		pi := pi
		var ints, bufs []string
		mod := map[string]bool{}
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			if _, m := e.modsOf(fn).fields[fieldKey(pt.Elem(), f.Name())]; m {
				mod[f.Name()] = true
			}
			switch {
			case wantInt(f.Type()) && !f.Exported():
				ints = append(ints, f.Name())
			case wantBytes(f.Type()):
				bufs = append(bufs, f.Name())
			}
		}
		if len(bufs) == 0 {
			continue
		}
		num := func(n string) func(e *Engine, st *State, a []Value) (Lin, bool) {
			return func(e *Engine, st *State, a []Value) (Lin, bool) {
				v, _, _ := e.fieldOf(st, a[pi], n)
				i, ok := v.(IntV)
				return i.l, ok
			}
		}
		ln := func(n string) func(e *Engine, st *State, a []Value) (Lin, bool) {
			return func(e *Engine, st *State, a []Value) (Lin, bool) {
				v, _, _ := e.fieldOf(st, a[pi], n)
				i, ok := v.(SliceV)
				return i.ln, ok
			}
		}
		add := func(name string, touched bool, f func(e *Engine, st *State, a []Value) (Lin, bool)) {
			name = p.Name() + "." + name
			c.pre = append(c.pre, &cand{name: name, fld: f})
			if touched {
				c.post = append(c.post, &cand{name: name, fld: f})
				if errIndex(fn) >= 0 {
					c.post = append(c.post, &cand{name: name, fld: f, onNil: true})
				}
			}
		}
		for _, n := range ints {
			n := n
			if mod[n] {
				c.post = append(c.post, &cand{name: p.Name() + "." + n + ">=0", fld: num(n), onNil: errIndex(fn) >= 0})
			}
			add(n+"<2^32", mod[n], func(e *Engine, st *State, a []Value) (Lin, bool) {
				l, ok := num(n)(e, st, a)
				return constLin(1<<32 - 1).sub(l), ok
			})
			for _, b := range bufs {
				b := b
				for _, k := range []int64{0, 1, 5} {
					k := k
					add(fmt.Sprintf("%s+%d<=len(%s)", n, k, b), mod[n] || mod[b], func(e *Engine, st *State, a []Value) (Lin, bool) {
						l, ok := num(n)(e, st, a)
						x, ok2 := ln(b)(e, st, a)
						return x.sub(l).addc(-k), ok && ok2
					})
				}
			}
		}
		for _, b := range bufs {
			b := b
			for _, k := range []int64{1, 5, 6} {
				k := k
				add(fmt.Sprintf("len(%s)>=%d", b, k), mod[b], func(e *Engine, st *State, a []Value) (Lin, bool) {
					x, ok := ln(b)(e, st, a)
					return x.addc(-k), ok
				})
			}
			if mod[b] {
				c.post = append(c.post, &cand{name: "len(" + p.Name() + "." + b + ") grows", fld: ln(b), old: true, onNil: errIndex(fn) >= 0})
			}
		}
	}
}

func (e *Engine) newContract(fn *ssa.Function, group int) *Contract {
	c := &Contract{fn: fn, group: group, keep: map[string]bool{}, keepE: map[string]bool{}, subOf: map[int]int{}, extOf: map[int]int{}}
	var ints, slices, ptrs []int
	for i, p := range fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			slices = append(slices, i)
		case *types.Pointer:
			if _, ok := t.Elem().Underlying().(*types.Struct); ok {
				ptrs = append(ptrs, i)
			}
		default:
			if isInt(p.Type()) && !isByte(p.Type()) && !isKindType(p.Type()) {
				ints = append(ints, i)
			}
		}
	}
	lin := func(v Value) (Lin, bool) { i, ok := v.(IntV); return i.l, ok }
	for _, i := range ints {
		i := i
		n := fn.Params[i].Name()
		c.pre = append(c.pre, &cand{name: n + ">=0", lin: func(a, _ []Value) (Lin, bool) { return lin(a[i]) }})
		c.pre = append(c.pre, &cand{name: n + ">=1", lin: func(a, _ []Value) (Lin, bool) { l, ok := lin(a[i]); return l.addc(-1), ok }})
		for _, s := range slices {
			s := s
			c.pre = append(c.pre, &cand{name: n + "<=len(" + fn.Params[s].Name() + ")", lin: func(a, _ []Value) (Lin, bool) {
				l, ok := lin(a[i])
				sv, ok2 := a[s].(SliceV)
				if !ok || !ok2 {
					return Lin{}, false
				}
				return sv.ln.addMul(l, -1)
			}})
		}
	}
	for _, s := range slices {
		s := s
		c.pre = append(c.pre, &cand{name: "len(" + fn.Params[s].Name() + ")>=1", lin: func(a, _ []Value) (Lin, bool) {
			sv, ok := a[s].(SliceV)
			return sv.ln.addc(-1), ok
		}})
	}
	for _, p := range ptrs {
		p := p
		t := fn.Params[p].Type().Underlying().(*types.Pointer).Elem()
		if e.opaqueStruct(t) {
			continue
		}
		stt := t.Underlying().(*types.Struct)
		for k := 0; k < stt.NumFields(); k++ {
			f := stt.Field(k)
			if _, ok := f.Type().Underlying().(*types.Map); ok {
				c.pre = append(c.pre, &cand{name: fn.Params[p].Name() + "." + f.Name() + "!=nil", cnd: func(e *Engine, st *State, a []Value) *Cond {
					pv, ok := a[p].(PtrV)
					if !ok {
						return condFalse
					}
					v := e.load(st, PtrV{obj: pv.obj, path: pv.path + "." + f.Name(), elem: f.Type()}, f.Type())
					return e.nilCond(v).not()
				}})
			}
			if _, mod := e.modsOf(fn).fields[fieldKey(t, f.Name())]; mod && errIndex(fn) >= 0 {
				if _, isMap := f.Type().Underlying().(*types.Map); !isMap {
					c.keepE[fmt.Sprintf("%d.%s", p, f.Name())] = true
				}
			}
			if isBasic(f.Type(), types.Bool) {
				if _, mod := e.modsOf(fn).fields[fieldKey(t, f.Name())]; mod {
					c.keep[fmt.Sprintf("%d.%s", p, f.Name())] = true
				}
			}
			if isInt(f.Type()) {
				c.pre = append(c.pre, &cand{name: fn.Params[p].Name() + "." + f.Name() + ">=0", cnd: func(e *Engine, st *State, a []Value) *Cond {
					pv, ok := a[p].(PtrV)
					if !ok {
						return condFalse
					}
					v := e.load(st, PtrV{obj: pv.obj, path: pv.path + "." + f.Name(), elem: f.Type()}, f.Type())
					return e.ge(st.norm(e.lin(v)), constLin(0), true)
				}})
				// and its value is restored at exit
				if _, mod := e.modsOf(fn).fields[fieldKey(t, f.Name())]; mod {
					c.keep[fmt.Sprintf("%d.%s", p, f.Name())] = true
				}
			}
		}
	}
	rs := fn.Signature.Results()
	errRes := -1
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), types.Universe.Lookup("error").Type()) {
			errRes = i
		}
	}
	for i := 0; i < rs.Len(); i++ {
		i := i
		if isInt(rs.At(i).Type()) {
			c.post = append(c.post, &cand{name: fmt.Sprintf("r%d>=0", i), lin: func(_, r []Value) (Lin, bool) { return lin(r[i]) }})
			for _, p := range ints {
				p := p
				for k := int64(0); k < 2; k++ {
					k := k
					c.post = append(c.post, &cand{name: fmt.Sprintf("r%d>=%s+%d", i, fn.Params[p].Name(), k), onNil: errRes >= 0, lin: func(a, r []Value) (Lin, bool) {
						x, ok1 := lin(a[p])
						y, ok2 := lin(r[i])
						if !ok1 || !ok2 {
							return Lin{}, false
						}
						l, ok := y.addMul(x, -1)
						return l.addc(-k), ok
					}})
				}
			}
			for _, s := range slices {
				s := s
				for _, nilOnly := range []bool{false, true} {
					c.post = append(c.post, &cand{name: fmt.Sprintf("r%d<=len(%s) %v", i, fn.Params[s].Name(), nilOnly), onNil: nilOnly && errRes >= 0, lin: func(a, r []Value) (Lin, bool) {
						x, ok1 := a[s].(SliceV)
						y, ok2 := lin(r[i])
						if !ok1 || !ok2 {
							return Lin{}, false
						}
						return x.ln.addMul(y, -1)
					}})
				}
			}
		}
		if rt, ok := rs.At(i).Type().Underlying().(*types.Slice); ok {
			for _, s := range slices {
				if types.Identical(fn.Params[s].Type().Underlying(), rt) {
					c.subOf[i] = s
					c.extOf[i] = s
					c.extMin = 1
					break
				}
			}
		}
	}
	e.fieldCands(c)
	e.contractBounds(c)
	return c
}

func errIndex(fn *ssa.Function) int {
	rs := fn.Signature.Results()
	for i := rs.Len() - 1; i >= 0; i-- {
		if types.Identical(rs.At(i).Type(), types.Universe.Lookup("error").Type()) {
			return i
		}
	}
	return -1
}

func (e *Engine) fieldOf(st *State, v Value, name string) (Value, PtrV, bool) {
	pv, ok := v.(PtrV)
	if !ok || pv.obj == nil {
		return nil, PtrV{}, false
	}
	stt, ok := pv.elem.Underlying().(*types.Struct)
	if !ok {
		return nil, PtrV{}, false
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name {
			p := PtrV{obj: pv.obj, path: pv.path + "." + name, elem: stt.Field(i).Type()}
			return e.load(st, p, p.elem), p, true
		}
	}
	return nil, PtrV{}, false
}

// cutCall applies a contract at a call site.
func (e *Engine) cutCall(fr *Frame, it *item, site ssa.Instruction, fn *ssa.Function, ct *Contract, args []Value) []Outcome {
	st := it.st
	// preconditions
	if e.checkPre || e.dry == 0 {
		for _, c := range ct.pre {
			if c.dead {
				continue
			}
			ok := true
			if c.bnd != nil {
				m, k, l, lok := c.bnd(e, st, args, nil)
				ok = lok && e.allValues(st, m, k, l)
			} else if c.lin != nil {
				l, lok := c.lin(args, nil)
				ok = lok && st.entails(l)
			} else if c.fld != nil {
				l, lok := c.fld(e, st, args)
				ok = lok && st.entails(l)
			} else {
				ok = st.decide(c.cnd(e, st, args)) == yes
			}
			if !ok {
				c.dead = true
				c.why = fmt.Sprintf("not established at %s (in %s)", e.pos(site), fname(fr.fn))
				e.preChanged = true
			}
		}
	}
	call := &CallEv{fn: fn, name: fname(fn), args: args, in: fr.fn, site: site}
	if e.hook != nil && e.hook.onCut != nil && e.dry == 0 {
		e.hook.onCut(st, fr, site, ct, args)
	}
	// effects
	kept := map[string]Value{}
	keptP := map[string]PtrV{}
	for _, ks := range []map[string]bool{ct.keep, ct.keepE} {
		for _, k := range sortedKeys(ks) {
			var pi int
			var fnm string
			fmt.Sscanf(k, "%d.%s", &pi, &fnm)
			if v, p, ok := e.fieldOf(st, args[pi], fnm); ok {
				kept[k], keptP[k] = v, p
			}
		}
	}
	call.pre = e.snapshotFields(st, args)
	call.old = map[*cand]Lin{}
	for _, c := range ct.post {
		if !c.dead && c.old {
			if l, ok := c.fld(e, st, args); ok {
				call.old[c] = l
			}
		}
	}
	e.outs = nil
	e.applyMods(st, e.modsOf(fn), args)
	call.outs = e.outs
	id := fmt.Sprintf("%s#%d", fname(fn), e.newEpoch())
	ei := errIndex(fn)
	if ei < 0 {
		return []Outcome{e.cutOutcome(fr, st, site, ct, *call, args, id, kept, keptP, -1, true)}
	}
	bad := st.clone()
	return []Outcome{
		e.cutOutcome(fr, st, site, ct, *call, args, id, kept, keptP, ei, true),
		e.cutOutcome(fr, bad, site, ct, *call, args, id, kept, keptP, ei, false),
	}
}

// cutOutcome is one of the two ways a summarised call returns: with or
// without an error.
func (e *Engine) cutOutcome(fr *Frame, st *State, site ssa.Instruction, ct *Contract, callv CallEv, args []Value, id string, kept map[string]Value, keptP map[string]PtrV, ei int, good bool) Outcome {
	fn := ct.fn
	call := &callv
	for k, v := range kept {
		if good && ct.keep[k] || !good && ct.keepE[k] {
			st.heap[cellKey{keptP[k].obj, keptP[k].path}] = v
		}
	}
	if !good {
		id += "!"
	}
	// results
	var res []Value
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if i == ei {
			if good {
				res = append(res, e.zero(rs.At(i).Type()))
			} else {
				v := e.fresh(rs.At(i).Type(), id, false).(Opq)
				st.nils[v.s] = false
				res = append(res, v)
			}
			continue
		}
		v := e.fresh(rs.At(i).Type(), fmt.Sprintf("%s.%d", id, i), false)
		if p, ok := ct.subOf[i]; ok {
			if a, ok := args[p].(SliceV); ok {
				s := v.(SliceV)
				off := e.syms.ranged(fmt.Sprintf("off(%s.%d)", id, i), 0, maxLen)
				s.base, s.off = a.base, symLin(off)
				st.addGe(s.off.sub(a.off))
				st.addGe(a.off.add(a.ln).sub(s.off).sub(s.ln))
				s.log = nil
				v = s
			}
		} else if p, ok := ct.extOf[i]; ok && good {
			if a, ok := args[p].(SliceV); ok {
				s := v.(SliceV)
				n := symLin(e.syms.ranged(fmt.Sprintf("itemlen(%s.%d)", id, i), 0, maxLen))
				s.base.from = []*Obj{a.base}
				s.base.fresh = a.base.fresh
				s.ln = a.ln.add(n)
				c := e.syms.ranged(fmt.Sprintf("cap(%s.%d)", id, i), 0, maxLen)
				s.cp = symLin(c)
				e.carryCells(st, a, s.base)
				st.addGe(s.cp.sub(s.ln))
				at := a.skip.add(a.ln)
				s.log = &Tok{k: tItem, prev: a.log, n: n, at: at, call: call, fn: fr.fn}
				s.skip = a.skip
				if a.log == nil {
					s.log = nil
				}
				v = s
				if ct.extMin > 0 {
					call.extN = n
				}
			}
		}
		res = append(res, v)
	}
	if good && ct.extMin > 0 && len(call.extN.t) > 0 {
		st.addGe(call.extN.addc(-ct.extMin))
	}
	for _, c := range ct.post {
		if c.dead || (c.onNil && !good) || c.bnd != nil {
			continue
		}
		if c.fld != nil {
			if l, ok := c.fld(e, st, args); ok {
				if c.old {
					o, ok := call.old[c]
					if !ok {
						continue
					}
					l = l.sub(o)
				}
				st.addGe(l)
			}
			continue
		}
		if l, ok := c.lin(args, res); ok {
			st.addGe(l)
		}
	}
	call.res = res
	call.good = good
	call.post = st.epoch["reflect"]
	st.event(&Ev{k: evCall, call: call, fn: fr.fn, site: site})
	for _, c := range ct.post {
		if !c.dead && (good || !c.onNil) && c.bnd != nil {
			if m, k, l, ok := c.bnd(e, st, args, res); ok {
				st.bound(bound{m: m.s, k: k, l: l, ev: st.ev})
			}
		}
	}
	return Outcome{st: st, res: res}
}

// snapshotFields remembers integer fields of pointer arguments at a call.
func (e *Engine) snapshotFields(st *State, args []Value) map[string]Value {
	m := map[string]Value{}
	for i, a := range args {
		if p, ok := a.(PtrV); ok && p.obj != nil && p.elem != nil {
			if stt, ok := p.elem.Underlying().(*types.Struct); ok && !e.opaqueStruct(p.elem) {
				for k := 0; k < stt.NumFields(); k++ {
					_, isMap := stt.Field(k).Type().Underlying().(*types.Map)
					if isInt(stt.Field(k).Type()) || isMap {
						v, _, _ := e.fieldOf(st, a, stt.Field(k).Name())
						m[fmt.Sprintf("%d.%s", i, stt.Field(k).Name())] = v
					}
				}
			}
		}
	}
	return m
}

func (e *Engine) applyMods(st *State, m *modSet, args []Value) {
	var ks []string
	for k := range m.fields {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		e.bumpField(st, k)
	}
	st.epoch["reflect"] = e.newEpoch()
	if len(m.maps) > 0 {
		n := e.newEpoch()
		for t, os := range m.maps {
			e.originsWritten(st, n, t, sortedKeys(os))
		}
	}
	for _, a := range args {
		e.havocArg(st, m, a)
	}
}

func (e *Engine) havocArg(st *State, m *modSet, a Value) {
	switch p := a.(type) {
	case PtrV:
		if p.obj == nil || p.elem == nil {
			return
		}
		if _, ok := p.elem.Underlying().(*types.Struct); ok {
			return // handled by fields
		}
		e.havocCell(st, p, "out")
	case SliceV:
		if m.elems[p.elem.String()] || (isByte(p.elem) && (m.elems["byte"] || m.elems["uint8"])) {
			e.clobber(st, p.base)
		}
	case IfaceV:
		e.havocArg(st, m, p.v)
	case Opq:
		// a reflect.Value of a pointer
		if t, ok := e.terms[p.s]; ok {
			for _, x := range t.args {
				e.havocArg(st, m, x)
			}
		}
	}
}

// verifyCut analyses a cut function against its contract. It reports whether
// any candidate was dropped.
func (e *Engine) runCut(ct *Contract) ([]Outcome, []Value, *State) {
	fn := ct.fn
	st := newState(e)
	args := e.rootArgs(fn, st)
	for _, c := range ct.pre {
		if c.dead {
			continue
		}
		if c.bnd != nil {
			if m, k, l, ok := c.bnd(e, st, args, nil); ok {
				st.bound(bound{m: m.s, k: k, l: l, ev: st.ev})
			}
		} else if c.lin != nil {
			if l, ok := c.lin(args, nil); ok {
				st.addGe(l)
			}
		} else if c.fld != nil {
			if l, ok := c.fld(e, st, args); ok {
				st.addGe(l)
			}
		} else {
			st.assume(c.cnd(e, st, args))
		}
	}
	for _, ks := range []map[string]bool{ct.keep, ct.keepE} {
		for _, k := range sortedKeys(ks) {
			var pi int
			var fnm string
			fmt.Sscanf(k, "%d.%s", &pi, &fnm)
			e.fieldOf(st, args[pi], fnm)
		}
	}
	entry := st.clone()
	e.entry = fname(fn)
	outs := e.exec(fn, args, nil, st, nil, nil)
	return outs, args, entry
}

func (e *Engine) rootArgs(fn *ssa.Function, st *State) []Value {
	var args []Value
	for i, p := range fn.Params {
		v := e.fresh(p.Type(), "arg."+p.Name(), true)
		if pv, ok := v.(PtrV); ok && i == 0 && fn.Signature.Recv() != nil {
			pv.nl = Nil{}
			v = pv
		}
		args = append(args, v)
	}
	return args
}

func (e *Engine) checkPosts(ct *Contract, outs []Outcome, args []Value, entry *State) bool {
	changed := false
	hadSub := map[int]bool{}
	ei := errIndex(ct.fn)
	kill := func(c *cand, o Outcome) {
		c.dead = true
		if o.at != nil {
			c.why = "fails at " + e.pos(o.at)
		}
		changed = true
	}
	for _, o := range outs {
		if o.panic {
			continue
		}
		okSt := o.st
		errNil := yes
		if ei >= 0 {
			errNil = okSt.decide(e.nilCond(o.res[ei]))
			if errNil == unknown {
				okSt = okSt.clone()
				okSt.assume(e.nilCond(o.res[ei]))
			}
		}
		for _, c := range ct.post {
			if c.dead {
				continue
			}
			st := o.st
			if c.onNil {
				if errNil == no {
					continue
				}
				st = okSt
			}
			if c.bnd != nil {
				if m, k, l, ok := c.bnd(e, st, args, o.res); !ok || !e.allValues(st, m, k, l) {
					kill(c, o)
				}
				continue
			}
			var l Lin
			var ok bool
			if c.fld != nil {
				l, ok = c.fld(e, st, args)
				if c.old && ok {
					var x Lin
					x, ok = c.fld(e, entry, args)
					l = l.sub(x)
				}
			} else {
				l, ok = c.lin(args, o.res)
			}
			if !ok || !st.entails(l) {
				kill(c, o)
			}
		}
		for _, k := range sortedKeys(ct.keepE) {
			if errNil == yes {
				break
			}
			var pi int
			var fnm string
			fmt.Sscanf(k, "%d.%s", &pi, &fnm)
			a, _, _ := e.fieldOf(entry, args[pi], fnm)
			b, _, _ := e.fieldOf(o.st, args[pi], fnm)
			if a == nil || b == nil || !e.sameVal(o.st, b, a) {
				delete(ct.keepE, k)
				dbg("   keepE %s of %s dropped at %s", k, fname(ct.fn), e.pos(o.at))
				changed = true
			}
		}
		for _, k := range sortedKeys(ct.keep) {
			if errNil == no {
				break
			}
			var pi int
			var fnm string
			fmt.Sscanf(k, "%d.%s", &pi, &fnm)
			a, _, _ := e.fieldOf(entry, args[pi], fnm)
			b, _, _ := e.fieldOf(o.st, args[pi], fnm)
			if a == nil || b == nil || !e.sameVal(o.st, b, a) {
				delete(ct.keep, k)
				dbg("   keep %s of %s dropped at %s", k, fname(ct.fn), e.pos(o.at))
				changed = true
			}
		}
		for _, r := range sortedInts(ct.subOf) {
			p := ct.subOf[r]
			s, ok := o.res[r].(SliceV)
			a := args[p].(SliceV)
			good := ok
			if ok {
				if l := o.st.norm(s.ln); l.isConst() && l.c == 0 {
					continue
				}
				good = s.base == a.base && o.st.entails(s.off.sub(a.off)) && o.st.entails(a.off.add(a.ln).sub(s.off).sub(s.ln))
			}
			if !good {
				delete(ct.subOf, r)
				hadSub[r] = true
				changed = true
			}
		}
		for _, r := range sortedInts(ct.extOf) {
			p := ct.extOf[r]
			if _, sub := ct.subOf[r]; sub || hadSub[r] {
				continue // not assumed in this round
			}
			if errNil == no {
				continue
			}
			s, ok := o.res[r].(SliceV)
			if !ok || !e.extends(s, args[p].(SliceV)) {
				dbg("   ext of %s dropped at %s: %s %s", fname(ct.fn), e.pos(o.at), valKey(o.res[r])+" "+e.syms.str(s.ln)+evStr(o.st.ev), e.logStr(s))
				delete(ct.extOf, r)
				changed = true
				continue
			}
			if ct.extMin > 0 {
				if d := s.ln.sub(args[p].(SliceV).ln); !okSt.entails(d.addc(-1)) {
					ct.extMin = 0
					changed = true
				}
			}
		}
	}
	return changed
}

// extends: the slice is the parameter followed by appended tokens.
func (e *Engine) extends(s, a SliceV) bool {
	if s.log == nil || !(s.skip.isConst() && s.skip.c == 0) {
		return false
	}
	t := s.log
	for t.prev != nil {
		t = t.prev
	}
	for t.k == tLoopIn {
		v := t.lv
		i, ok := v.init.(SliceV)
		if !ok || i.log == nil {
			return false
		}
		// every iteration must extend the slice too
		for _, b := range t.loop.backs {
			for k, w := range t.loop.vars {
				if w == v {
					bs, ok := b.vals[k].(SliceV)
					if !ok || bs.log == nil {
						return false
					}
					x := bs.log
					for x.prev != nil {
						x = x.prev
					}
					if x.k != tLoopIn || x.loop != t.loop {
						if !(x.k == tLoopIn) {
							return false
						}
					}
				}
			}
		}
		t = i.log
		for t.prev != nil {
			t = t.prev
		}
	}
	return t.k == tStart && t.v != nil && a.ident != 0 && t.v.ident == a.ident
}

// inferContracts finds the strongest contracts of all cut functions that the
// candidates allow. It returns the obligations of the final run.
func (e *Engine) setupCuts() {
	e.findPrims()
	for g, fns := range e.chooseCuts() {
		for _, f := range fns {
			if e.prims[f] != 0 {
				continue
			}
			e.cuts[f] = e.newContract(f, g)
		}
	}
	if e.light {
		return
	}
	for i, f := range e.heavy() {
		if e.prims[f] == 0 && e.cuts[f] == nil {
			e.cuts[f] = e.newContract(f, -1-i)
		}
	}
}

// heavy lists functions that are summarised because their paths would multiply
// those of their callers: those with a large loop, and those that only return
// numbers and errors in many ways.
func (e *Engine) heavy() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range e.p.Funcs {
		if f.Blocks == nil || f.Parent() != nil || f.Object() != nil && f.Object().Exported() && !heavyExported {
			continue
		}
		big := false
		for _, l := range e.info(f).loops {
			if len(l.blocks) >= 20 {
				big = true
			}
		}
		rs := f.Signature.Results()
		simple := rs.Len() > 0
		for i := 0; i < rs.Len(); i++ {
			t := rs.At(i).Type()
			if !isInt(t) && !types.Identical(t, errType) {
				simple = false
			}
		}
		if simple && errIndex(f) >= 0 && rs.Len() > 1 {
			n := 0
			consts := true // a choice among constants, without loops
			for _, b := range f.Blocks {
				if len(b.Instrs) > 0 {
					if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						for i, v := range ret.Results {
							if _, ok := v.(*ssa.Const); !ok && i != errIndex(f) {
								consts = false
							}
						}
						if c, ok := ret.Results[errIndex(f)].(*ssa.Const); !ok || c.Value == nil {
							n++
						}
					}
				}
			}
			if n >= 4 && !(consts && n <= 8 && len(e.info(f).loops) == 0) {
				big = true
			}
		}
		if big {
			r = append(r, f)
		}
	}
	return r
}

const heavyExported = false

func (e *Engine) cutList() []*Contract {
	var r []*Contract
	for _, c := range e.cuts {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return e.p.less(r[i].fn, r[j].fn) })
	return r
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedInts[T any](m map[int]T) []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func sortedObjs(m map[*Obj]bool) []*Obj {
	r := make([]*Obj, 0, len(m))
	for o := range m {
		r = append(r, o)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}
