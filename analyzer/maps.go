package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Which maps a value may be: the instructions that made them. Writes to maps
// are attributed to these, so that a call that fills one kind of map does not
// disturb what is known of another.

const anyMap = "?"

// mapOrigins lists the make instructions a map value may come from; the list
// contains anyMap if it may come from elsewhere.
func (e *Engine) mapOrigins(v ssa.Value) []string {
	if r, ok := e.mapOrig[v]; ok {
		return r
	}
	set := map[string]bool{}
	seen := map[ssa.Value]bool{}
	fields := map[string]bool{}
	var from func(v ssa.Value)
	fromField := func(t types.Type, i int) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			set[anyMap] = true
			return
		}
		k := fieldKey(t, st.Field(i).Name())
		if fields[k] {
			return
		}
		fields[k] = true
		if st.Field(i).Exported() {
			set[anyMap] = true
		}
		for _, w := range e.fieldStores()[k] {
			from(w)
		}
	}
	from = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeMap:
			set[e.siteName(v)] = true
		case *ssa.Const:
		case *ssa.ChangeType:
			from(v.X)
		case *ssa.Phi:
			for _, x := range v.Edges {
				from(x)
			}
		case *ssa.UnOp:
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				fromField(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field)
			case *ssa.Alloc:
				ok := !a.Heap
				for _, ref := range *a.Referrers() {
					switch ref := ref.(type) {
					case *ssa.Store:
						if ref.Addr == ssa.Value(a) {
							from(ref.Val)
						} else {
							ok = false
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						ok = false
					}
				}
				if !ok {
					set[anyMap] = true
				}
			default:
				set[anyMap] = true
			}
		case *ssa.Field:
			fromField(v.X.Type(), v.Field)
		case *ssa.Lookup:
			e.mapValues(v.X, from, set)
		case *ssa.Extract:
			switch t := v.Tuple.(type) {
			case *ssa.Lookup:
				e.mapValues(t.X, from, set)
			case *ssa.Call:
				e.callResult(t, v.Index, from, set)
			default:
				set[anyMap] = true
			}
		case *ssa.Call:
			e.callResult(v, 0, from, set)
		case *ssa.Parameter:
			fn := v.Parent()
			idx := -1
			for i, p := range fn.Params {
				if p == v {
					idx = i
				}
			}
			cs, ok := e.callersOf(fn)
			if !ok || idx < 0 {
				set[anyMap] = true
				return
			}
			for _, c := range cs {
				from(c.Common().Args[idx])
			}
		default:
			set[anyMap] = true
		}
	}
	from(v)
	var r []string
	for k := range set {
		r = append(r, k)
	}
	sort.Strings(r)
	e.mapOrig[v] = r
	return r
}

// mapValues visits what may be stored in maps of a type.
func (e *Engine) mapValues(m ssa.Value, from func(ssa.Value), set map[string]bool) {
	mt, ok := m.Type().Underlying().(*types.Map)
	if !ok {
		set[anyMap] = true
		return
	}
	for _, fn := range e.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type().Underlying(), mt) {
					from(u.Value)
				}
			}
		}
	}
	for _, o := range e.mapOrigins(m) {
		if o == anyMap {
			set[anyMap] = true
		}
	}
}

func (e *Engine) callResult(c *ssa.Call, i int, from func(ssa.Value), set map[string]bool) {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !e.p.inPkg(f) {
		set[anyMap] = true
		return
	}
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(ret.Results) {
			from(ret.Results[i])
		}
	}
}

func (e *Engine) siteName(in *ssa.MakeMap) string {
	return fname(in.Parent()) + "." + in.Name()
}

// allFns are the functions of the package, closures included.
func (e *Engine) allFns() []*ssa.Function {
	if e.fns == nil {
		e.index()
	}
	return e.fns
}

// fieldStores lists what is stored to each field of a struct.
func (e *Engine) fieldStores() map[string][]ssa.Value {
	if e.fns == nil {
		e.index()
	}
	return e.stores
}

// callersOf lists the calls of a function, if it is only called.
func (e *Engine) callersOf(fn *ssa.Function) ([]ssa.CallInstruction, bool) {
	if e.fns == nil {
		e.index()
	}
	if fn.Object() != nil && fn.Object().Exported() && exportedRecv(fn) || e.asValue[fn] || fn.Signature.Recv() != nil && e.invoked[fn.Name()] || fn.Parent() != nil {
		return nil, false
	}
	return e.calls[fn], true
}

func exportedRecv(fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	if r == nil {
		return true
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func (e *Engine) index() {
	e.invoked = map[string]bool{}
	e.stores, e.calls, e.asValue = map[string][]ssa.Value{}, map[*ssa.Function][]ssa.CallInstruction{}, map[*ssa.Function]bool{}
	for _, fn := range e.p.Funcs {
		if !e.p.inPkg(fn) || fn.Blocks == nil {
			continue
		}
		e.fns = append(e.fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok {
						t := a.X.Type().Underlying().(*types.Pointer).Elem()
						k := fieldKey(t, t.Underlying().(*types.Struct).Field(a.Field).Name())
						e.stores[k] = append(e.stores[k], s.Val)
					}
				}
				c, isCall := in.(ssa.CallInstruction)
				if isCall && c.Common().IsInvoke() {
					e.invoked[c.Common().Method.Name()] = true
				}
				if isCall {
					if f := c.Common().StaticCallee(); f != nil {
						e.calls[f] = append(e.calls[f], c)
					}
				}
				for i, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && !(isCall && i == 0 && !c.Common().IsInvoke()) {
						e.asValue[f] = true
					}
				}
			}
		}
	}
}

// noteMap records where a map value comes from.
func (e *Engine) noteMap(m Opq, v ssa.Value) {
	o := e.mapOrigins(v)
	if old, ok := e.symOrig[m.s]; !ok || len(o) < len(old) {
		e.symOrig[m.s] = o
	}
}

func mapType(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.Underlying().String()
}

// mapEpoch identifies the contents of a map.
func (e *Engine) mapEpoch(st *State, m Opq) int {
	n := st.epoch[fmt.Sprintf("map:%d", m.s)]
	max := func(k string) {
		if x := st.epoch[k]; x > n {
			n = x
		}
	}
	t := mapType(m.t)
	max("maps:" + t)
	os, ok := e.symOrig[m.s]
	if !ok {
		max("mapany:" + t)
	}
	for _, o := range os {
		if o == anyMap {
			max("mapany:" + t)
		}
		max("mapsite:" + o)
	}
	return n
}

// mapWritten records a write to a map.
func (e *Engine) mapWritten(st *State, m Opq) {
	n := e.newEpoch()
	st.epoch[fmt.Sprintf("map:%d", m.s)] = n
	if e.terms[m.s].op == "makemap" {
		return // only reached through this value
	}
	e.originsWritten(st, n, mapType(m.t), e.symOrig[m.s])
}

func (e *Engine) originsWritten(st *State, n int, t string, os []string) {
	st.epoch["mapany:"+t] = n
	for _, o := range os {
		if o == anyMap {
			st.epoch["maps:"+t] = n
		} else {
			st.epoch["mapsite:"+o] = n
		}
	}
}

// newMap: the map was made by the function itself.
func newMap(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var is func(v ssa.Value) bool
	is = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeMap:
			return true
		case *ssa.Const:
			return v.Value == nil
		case *ssa.ChangeType:
			return is(v.X)
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !is(x) {
					return false
				}
			}
			return true
		}
		return false
	}
	return is(v)
}
