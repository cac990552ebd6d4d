package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C10: what a call leaves behind in a decoder or encoder is not read by the
// next call before it is written anew.

// reuse is a must-write-before-read analysis of the fields of the objects that
// outlive a call. A field is named by its declaration, whatever the path to it.
type reuse struct {
	e    *Engine
	p    *Program
	refs map[*types.Struct]int // structs of the package that make up the objects, and by how many fields each is reached
	keys map[*types.Var]*types.Struct
	mut  map[*types.Var]bool
	own  map[*ssa.Function]bool // part of the memo of field tables

	rbw map[*ssa.Function]map[*types.Var]ssa.Instruction
	mw  map[*ssa.Function]map[*types.Var]bool // nil: not known yet, everything
	sto map[*ssa.Function]map[*types.Var]bool // may store something that is not the zero value
	zro map[*ssa.Function]map[*types.Var]bool // surely stores the zero value
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// reach adds the struct types that a value of the type may consist of.
func (u *reuse) reach(t types.Type) {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		u.reach(x.Elem())
	case *types.Interface:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == u.p.Pkg.Pkg {
			for _, i := range u.e.implementors(t) {
				u.reach(i)
			}
		}
	case *types.Array:
		u.reach(x.Elem())
	case *types.Slice:
		u.reach(x.Elem())
	case *types.Map:
		u.reach(x.Elem())
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != u.p.Pkg.Pkg {
			return
		}
		u.refs[x]++
		if u.refs[x] > 1 {
			return
		}
		for i := 0; i < x.NumFields(); i++ {
			u.keys[x.Field(i)] = x
			u.reach(x.Field(i).Type())
		}
	}
}

// field: v is the address of a field of an object that is not made here.
func (u *reuse) field(v ssa.Value) *types.Var {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	x := fa.X
	for {
		switch y := x.(type) {
		case *ssa.Alloc:
			return nil
		case *ssa.FieldAddr:
			x = y.X
			continue
		case *ssa.IndexAddr:
			x = y.X
			continue
		}
		break
	}
	k := structOf(fa.X.Type()).Field(fa.Field)
	if u.keys[k] == nil {
		return nil
	}
	return k
}

// within are the field and what lies inside of it.
func (u *reuse) within(k *types.Var) []*types.Var {
	r := []*types.Var{k}
	if s := structOf(k.Type()); s != nil && u.refs[s] == 1 {
		r = append(r, u.all(s)...)
	}
	return r
}

func (u *reuse) all(s *types.Struct) (r []*types.Var) {
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); u.keys[f] == s {
			if _, ptr := f.Type().Underlying().(*types.Pointer); ptr {
				r = append(r, f)
			} else {
				r = append(r, u.within(f)...)
			}
		}
	}
	return
}

func isZeroConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	if !ok {
		return false
	}
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(c.Value) == 0
	}
	return false
}

// written are the fields that an instruction stores, and whether it stores
// their zero value.
func (u *reuse) written(in ssa.Instruction) ([]*types.Var, bool) {
	s, ok := in.(*ssa.Store)
	if !ok {
		return nil, false
	}
	if k := u.field(s.Addr); k != nil {
		if _, ptr := k.Type().Underlying().(*types.Pointer); ptr {
			if _, fresh := s.Val.(*ssa.Alloc); !fresh {
				return []*types.Var{k}, isZeroConst(s.Val)
			}
		}
		return u.within(k), isZeroConst(s.Val)
	}
	if _, local := s.Addr.(*ssa.Alloc); !local {
		if _, fa := s.Addr.(*ssa.FieldAddr); !fa {
			if t := structOf(s.Addr.Type()); t != nil && u.refs[t] > 0 {
				return u.all(t), isZeroConst(s.Val)
			}
		}
	}
	return nil, false
}

// touched are the fields an instruction reads, or whose address it hands on;
// mut says that what they lead to may be changed by it.
func (u *reuse) touched(in ssa.Instruction) (r []*types.Var, mut bool) {
	if x, ok := in.(*ssa.UnOp); ok && x.Op == token.MUL {
		if k := u.field(x.X); k != nil {
			r = append(r, k)
			if structOf(k.Type()) != nil {
				r = u.within(k)
			}
			return r, u.changed(x, map[ssa.Value]bool{})
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
		case *ssa.FieldAddr:
		default:
			if t := structOf(a.Type()); t != nil && u.refs[t] > 0 {
				if _, isPtr := x.Type().Underlying().(*types.Pointer); !isPtr {
					return u.all(t), false
				}
			}
		}
		return nil, false
	}
	if fa, ok := in.(*ssa.FieldAddr); ok {
		k := u.field(fa)
		if k == nil {
			return nil, false
		}
		if s := structOf(k.Type()); s != nil && u.refs[s] > 0 {
			return nil, false // judged where its fields are used
		}
		if n, ok := k.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex") {
			return nil, false
		}
		for _, x := range *fa.Referrers() {
			switch y := x.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
				continue
			case *ssa.Store:
				if y.Addr == ssa.Value(fa) && y.Val != ssa.Value(fa) {
					continue
				}
			}
			return []*types.Var{k}, true
		}
	}
	return nil, false
}

// changed: the container or object that was loaded may be changed through v.
func (u *reuse) changed(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch t := v.Type().Underlying().(type) {
	case *types.Map, *types.Slice, *types.Chan:
	case *types.Pointer:
		if s := structOf(t); s != nil && u.refs[s] > 0 {
			return false // judged by the fields
		}
	default:
		return false
	}
	for _, in := range *v.Referrers() {
		switch x := in.(type) {
		case *ssa.DebugRef, *ssa.BinOp, *ssa.Lookup, *ssa.Range, *ssa.If, *ssa.Index:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return true
			}
		case *ssa.IndexAddr, *ssa.FieldAddr:
			for _, y := range *in.(ssa.Value).Referrers() {
				if l, ok := y.(*ssa.UnOp); !ok || l.Op != token.MUL {
					if _, dbg := y.(*ssa.DebugRef); !dbg {
						return true
					}
				}
			}
		case *ssa.Phi, *ssa.ChangeType, *ssa.Slice:
			if u.changed(in.(ssa.Value), seen) {
				return true
			}
		case *ssa.Call:
			if n := callName(&x.Call); n == "len" || n == "cap" {
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

// called are the functions of the package that an instruction runs, or may
// make run later; now says that it surely runs one of them to its end.
func (u *reuse) called(in ssa.Instruction) (fs []*ssa.Function, now bool) {
	if mc, ok := in.(*ssa.MakeClosure); ok {
		return []*ssa.Function{mc.Fn.(*ssa.Function)}, false
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return nil, false
	}
	c := ci.Common()
	_, now = in.(*ssa.Call)
	add := func(g *ssa.Function) {
		if g.Blocks != nil && (u.p.inPkg(g) || g.Synthetic != "" && g.Pkg == nil) {
			fs = append(fs, g)
		}
	}
	switch {
	case c.IsInvoke():
		for _, t := range u.e.implementors(c.Value.Type()) {
			if sel := u.p.Prog.MethodSets.MethodSet(t).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := u.p.Prog.MethodValue(sel); f != nil {
					add(f)
				}
			}
		}
		now = false
	case c.StaticCallee() != nil:
		add(c.StaticCallee())
	default:
		if _, b := c.Value.(*ssa.Builtin); b {
			return nil, false
		}
		for _, f := range u.p.Funcs {
			if types.Identical(f.Signature, c.Value.Type()) || f.Signature.Recv() != nil && sameButRecv(f, c.Signature()) {
				add(f)
			}
		}
	}
	return fs, now && len(fs) > 0
}

// sameButRecv: a method expression of f may have the signature.
func sameButRecv(f *ssa.Function, s *types.Signature) bool {
	if s.Params().Len() != len(f.Params) || s.Results().Len() != f.Signature.Results().Len() {
		return false
	}
	for i, q := range f.Params {
		if !types.Identical(q.Type(), s.Params().At(i).Type()) {
			return false
		}
	}
	return true
}

type varSet map[*types.Var]bool

// fill: the edge out of block b along which a field is known to have been
// given its default already, when the other edge does nothing but give it.
func (u *reuse) fill(b *ssa.BasicBlock) (k *types.Var, edge int, load ssa.Instruction) {
	c, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	op, ok := c.Cond.(*ssa.BinOp)
	if !ok || op.Op != token.EQL && op.Op != token.NEQ {
		return
	}
	l, ok := op.X.(*ssa.UnOp)
	cst, ok2 := op.Y.(*ssa.Const)
	if !ok || !ok2 || l.Op != token.MUL || u.field(l.X) == nil {
		return
	}
	f := u.field(l.X)
	give := 0
	if op.Op == token.NEQ {
		give = 1
	}
	s, keep := b.Succs[give], b.Succs[1-give]
	if len(s.Preds) != 1 || len(s.Succs) > 1 {
		return
	}
	var val *ssa.Const
	for _, in := range s.Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.Jump, *ssa.Return, *ssa.RunDefers, *ssa.DebugRef:
		case *ssa.Store:
			v, isC := x.Val.(*ssa.Const)
			if u.field(x.Addr) != f || !isC || val != nil || v.Value == nil || cst.Value == nil || constant.Compare(v.Value, token.EQL, cst.Value) {
				return
			}
			val = v
		default:
			return
		}
	}
	if val == nil {
		return
	}
	// every store of it gives the same
	for _, g := range u.p.Funcs {
		for _, b2 := range g.Blocks {
			for _, in := range b2.Instrs {
				if x, ok := in.(*ssa.Store); ok && u.field(x.Addr) == f {
					if v, ok := x.Val.(*ssa.Const); !ok || v.Value == nil || !constant.Compare(v.Value, token.EQL, val.Value) {
						return
					}
				}
			}
		}
	}
	// what was read is used only where it is no longer the default
	for _, x := range *l.Referrers() {
		switch y := x.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Phi:
			for i, a := range y.Edges {
				if a == ssa.Value(l) && y.Block().Preds[i] != b && !(keep != y.Block() && len(keep.Preds) == 1 && keep.Dominates(y.Block().Preds[i])) {
					return
				}
				if a == ssa.Value(l) && y.Block().Preds[i] == b && y.Block() != keep {
					return
				}
			}
			continue
		}
		if x == ssa.Instruction(op) {
			continue
		}
		if len(keep.Preds) == 1 && keep.Dominates(x.Block()) {
			continue
		}
		return
	}
	if len(*op.Referrers()) != 1 {
		return
	}
	return f, 1 - give, l
}

// summarise runs the analysis of one function and says whether its summary
// changed.
func (u *reuse) summarise(f *ssa.Function) bool {
	in := map[*ssa.BasicBlock]varSet{}
	fills := map[ssa.Instruction]bool{}
	type fe struct {
		k    *types.Var
		edge int
	}
	fillOf := map[*ssa.BasicBlock]fe{}
	for _, b := range f.Blocks {
		if k, edge, l := u.fill(b); k != nil {
			fills[l] = true
			fillOf[b] = fe{k, edge}
		}
	}
	more := false
	read := func(s varSet, k *types.Var, at ssa.Instruction) {
		if !u.mut[k] || s[k] {
			return
		}
		if u.rbw[f] == nil {
			u.rbw[f] = map[*types.Var]ssa.Instruction{}
		}
		if u.rbw[f][k] == nil {
			u.rbw[f][k] = at
			more = true
		}
	}
	var exit varSet
	work := []*ssa.BasicBlock{f.Blocks[0]}
	in[f.Blocks[0]] = varSet{}
	if f.Recover != nil {
		in[f.Recover] = varSet{}
		work = append(work, f.Recover)
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := varSet{}
		for k := range in[b] {
			s[k] = true
		}
		for _, x := range b.Instrs {
			if !fills[x] {
				ks, _ := u.touched(x)
				for _, k := range ks {
					if u.own[f] && isTypeTable(k.Type()) {
						continue
					}
					read(s, k, x)
				}
			}
			ks, _ := u.written(x)
			for _, k := range ks {
				s[k] = true
			}
			gs, now := u.called(x)
			var all varSet
			top := true
			for _, g := range gs {
				for k, at := range u.rbw[g] {
					read(s, k, at)
				}
				if m, ok := u.mw[g]; ok {
					if top {
						top, all = false, m
					} else {
						both := varSet{}
						for k := range m {
							if all[k] {
								both[k] = true
							}
						}
						all = both
					}
				}
			}
			if now {
				if top {
					// does not return as far as is known yet
					for k := range u.mut {
						s[k] = true
					}
				}
				for k := range all {
					s[k] = true
				}
			}
			if _, ok := x.(*ssa.Return); ok {
				if exit == nil {
					exit = varSet{}
					for k := range s {
						exit[k] = true
					}
				} else {
					for k := range exit {
						if !s[k] {
							delete(exit, k)
						}
					}
				}
			}
		}
		for i, t := range b.Succs {
			o := s
			if x, ok := fillOf[b]; ok && x.edge == i {
				o = varSet{x.k: true}
				for k := range s {
					o[k] = true
				}
			}
			old, ok := in[t]
			n := varSet{}
			for k := range o {
				if !ok || old[k] {
					n[k] = true
				}
			}
			if !ok || len(n) != len(old) {
				in[t] = n
				work = append(work, t)
			}
		}
	}
	if exit != nil {
		if old, ok := u.mw[f]; !ok || len(old) != len(exit) {
			u.mw[f] = exit
			more = true
		}
	}
	return more
}

// run finds the changeable fields, as far as the functions are concerned, and
// analyses them.
func (u *reuse) run(entries []*ssa.Function) {
	reach := map[*ssa.Function]bool{}
	var order []*ssa.Function
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				gs, _ := u.called(in)
				for _, g := range gs {
					walk(g)
				}
			}
		}
		order = append(order, f)
	}
	for _, f := range entries {
		walk(f)
	}
	for _, f := range order {
		u.sto[f], u.zro[f] = varSet{}, varSet{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ks, zero := u.written(in)
				for _, k := range ks {
					u.mut[k] = true
					if !zero {
						u.sto[f][k] = true
					} else if b == f.Blocks[0] {
						u.zro[f][k] = true
					}
				}
				ks, mut := u.touched(in)
				for _, k := range ks {
					if mut {
						u.mut[k] = true
						if _, load := in.(*ssa.UnOp); !load {
							u.sto[f][k] = true
						}
					}
				}
			}
		}
		for k := range u.sto[f] {
			delete(u.zro[f], k)
		}
	}
	for more := true; more; {
		more = false
		for _, f := range order {
			if u.summarise(f) {
				more = true
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					gs, _ := u.called(in)
					for _, g := range gs {
						for k := range u.sto[g] {
							if !u.sto[f][k] {
								u.sto[f][k] = true
								more = true
							}
						}
					}
				}
			}
		}
	}
}

// clean: whatever happens, f leaves the field as its zero value, which it has
// from the beginning: a deferred call that stores it is set up before anything
// else is stored.
func (u *reuse) clean(f *ssa.Function, k *types.Var, on map[*ssa.Function]bool) bool {
	if on[f] {
		return false
	}
	on[f] = true
	defer delete(on, f)
	for _, g := range u.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && structOf(fa.X.Type()).Field(fa.Field) == k && u.field(fa) == nil && !isZeroConst(s.Val) {
						return false // a constructor
					}
				}
			}
		}
	}
	if len(f.Blocks) == 0 {
		return false
	}
	in := map[*ssa.BasicBlock]int{f.Blocks[0]: 1} // 1: not set up, 2: set up
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		s := in[b]
		for _, x := range b.Instrs {
			if d, ok := x.(*ssa.Defer); ok {
				gs, _ := u.called(d)
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					gs = []*ssa.Function{mc.Fn.(*ssa.Function)}
				}
				if len(gs) == 1 && u.zro[gs[0]][k] {
					s = 2
					continue
				}
			}
			if s == 2 {
				continue
			}
			ks, zero := u.written(x)
			for _, y := range ks {
				if y == k && !zero {
					return false
				}
			}
			gs, _ := u.called(x)
			for _, g := range gs {
				if u.sto[g][k] && !u.clean(g, k, on) {
					return false
				}
			}
		}
		for _, t := range b.Succs {
			old := in[t]
			n := s
			if old != 0 && old < n {
				n = old
			}
			if n != old {
				in[t] = n
				work = append(work, t)
			}
		}
	}
	return true
}

func hasBytes(s *types.Signature) bool {
	for _, tu := range []*types.Tuple{s.Params(), s.Results()} {
		for i := 0; i < tu.Len(); i++ {
			if isByteSlice(tu.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C10"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Interprocedural must-write-before-read analysis of every field that makes up a Decoder or Encoder (and of the structs of the package they lead to): whatever a call that decodes or encodes may change, such a call must store anew on every path before it reads it, or else have set up, before anything changes it, a deferred call that puts its zero value back. Excepted are the giving of one constant default, and the memo of field tables, whose entries must be those of their very type and must not be changed by anyone. The entries are the exported methods that take or return bytes; registering names is not one. That no state is kept in package-level variables or in pooled objects is judged by the rules of C11 and C31, which are run here as well."
		r.Trusted = append(r.Trusted, "user hooks do not call back into the object that calls them", "compression libraries keep no state of their own")
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			w := &wire{e: e}
			sub := newReport(r.ID)
			fns := e.tableFns()
			for _, f := range fns {
				outs, args := e.runEntryArgs(f)
				for i, q := range f.Params {
					o, ok := args[i].(Opq)
					if !ok || !isReflectValue(q.Type()) && !isReflectType(q.Type()) {
						continue
					}
					for _, oc := range outs {
						if !oc.panic {
							(&tabler{e: e, w: w, r: sub, fn: f, arg: o, rv: isReflectValue(q.Type()), o: oc}).run()
						}
					}
					break
				}
			}
			e.tableIntegrity(sub, fns)
			r.merge(sub, "memo", "integrity")
			for _, name := range []string{"Decoder", "Encoder"} {
				m, ok := p.Pkg.Members[name].(*ssa.Type)
				if !ok {
					r.undecided("object", "%s: there is no type %s", p.Variant, name)
					continue
				}
				u := &reuse{e: e, p: p, refs: map[*types.Struct]int{}, keys: map[*types.Var]*types.Struct{}, mut: map[*types.Var]bool{}, own: p.onlyFrom(fns),
					rbw: map[*ssa.Function]map[*types.Var]ssa.Instruction{}, mw: map[*ssa.Function]map[*types.Var]bool{},
					sto: map[*ssa.Function]map[*types.Var]bool{}, zro: map[*ssa.Function]map[*types.Var]bool{}}
				u.reach(m.Type())
				var entries []*ssa.Function
				for _, f := range e.exported() {
					if rc := f.Signature.Recv(); rc != nil && structOf(rc.Type()) == structOf(m.Type()) && hasBytes(f.Signature) {
						entries = append(entries, f)
					}
				}
				u.run(entries)
				var mut []*types.Var
				for k := range u.mut {
					mut = append(mut, k)
				}
				sort.Slice(mut, func(i, j int) bool { return mut[i].Pos() < mut[j].Pos() })
				var names []string
				for _, k := range mut {
					names = append(names, k.Name())
				}
				for _, f := range entries {
					r.ok("entry")
					for _, k := range mut {
						at := u.rbw[f][k]
						ok := at == nil
						if !ok {
							ok = true
							for _, g := range entries {
								ok = ok && u.clean(g, k, map[*ssa.Function]bool{})
							}
						}
						pos, in := fnPos(e, f), fname(f)
						if at != nil {
							pos, in = e.pos(at), fname(at.Parent())
						}
						r.check(ok, "fresh", fname(f)+":"+k.Name(), pos, "%s: what an earlier call left in the field %s is used, in %s, before it is stored anew (%s)", fname(f), k.Name(), in, p.Variant)
					}
				}
				r.sample(map[string]interface{}{"object": name, "entries": len(entries), "fields": len(u.keys), "changeable": names, "variant": p.Variant})
			}
		})
		sub := newReport(r.ID)
		sharedRules(sub)
		poolRules(sub)
		r.merge(sub, "shared", "exported", "goroutine", "reset", "use", "release", "private")
		r.atLeast("entry", 5)
		r.atLeast("fresh", 10)
		r.atLeast("memo", 2)
		r.atLeast("shared", 500)
	}
}
