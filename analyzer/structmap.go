package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C30: the table of fields of a struct type.

// isTable: map from names to field numbers.
func isTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isBasic(m.Key(), types.String) && isBasic(m.Elem(), types.Int)
}

// isTypeTable: map from types to tables.
func isTypeTable(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isReflectType(m.Key()) && isTable(m.Elem())
}

// tableFns are the functions of the package that give the table of a type.
func (e *Engine) tableFns() (r []*ssa.Function) {
	for _, f := range e.p.Funcs {
		if f.Synthetic != "" || f.Parent() != nil || f.Blocks == nil || f.Signature.Results().Len() != 1 || !isTable(f.Signature.Results().At(0).Type()) {
			continue
		}
		for _, q := range f.Params {
			if isReflectValue(q.Type()) || isReflectType(q.Type()) {
				r = append(r, f)
				break
			}
		}
	}
	return
}

// tabler judges one path of a function that gives a table.
type tabler struct {
	e   *Engine
	w   *wire
	r   *Report
	fn  *ssa.Function
	arg Opq
	rv  bool // arg is a reflect.Value
	o   Outcome
}

func (q *tabler) check(ok bool, rule, why string) bool {
	q.r.check(ok, rule, fname(q.fn), q.e.pos(q.o.at), "%s: %s (%s)", fname(q.fn), why, q.e.p.Variant)
	return ok
}

// isType: v is the type the table is wanted for.
func (q *tabler) isType(v Value) bool {
	o, ok := v.(Opq)
	if !ok {
		return false
	}
	if !q.rv {
		return o.s == q.arg.s
	}
	op, a := q.w.termOp(v)
	if op != "rType" {
		return false
	}
	x, ok := a[0].(Opq)
	return ok && x.s == q.arg.s
}

// fieldOf: v is field f of the description of a field of the type; its number.
func (q *tabler) number(v Value) (Lin, bool) {
	op, a := q.w.termOp(v)
	if op != "tField" || !q.isType(a[0]) {
		return Lin{}, false
	}
	return q.e.lin(a[1]), true
}

func (q *tabler) run() {
	e, st := q.e, q.o.st
	res := q.o.res[0]
	evs := st.ev.list()
	tabs := map[string]bool{}
	made := func(v Value) bool {
		op, _ := q.w.termOp(v)
		return op == "makemap" || op == "rMakeMap"
	}
	// what is remembered, and for which type
	hit := false
	for _, ev := range evs {
		switch ev.k {
		case evMapSet:
			m, ok := ev.m.(Opq)
			if ok && m.t != nil && isTypeTable(m.t) || q.isType(ev.x) {
				q.check(q.isType(ev.x), "memo", "a table is remembered for another type")
				same := valKey(ev.val) == valKey(res)
				if o, ok := ev.val.(Opq); ok && !same {
					_, isNil := res.(NilV)
					same = isNil && st.decide(e.nilCond(o)) == yes
				}
				q.check(same, "memo", "another table is remembered than the one returned")
			} else if ok && made(m) {
				q.check(false, "table", "a table is filled outside of the loop over the fields")
			}
		case evMapDel:
			q.check(false, "table", "an entry of a table is taken out")
		case evMapGet:
			if ev.ok != nil && st.decide(ev.ok) == yes && valKey(ev.val) == valKey(res) {
				hit = true
				q.check(q.isType(ev.x), "memo", "the table of another type is returned")
			}
		}
	}
	if hit {
		return
	}
	// every field is looked at
	var loops []*LoopCtx
	for _, ev := range evs {
		if ev.k != evLoopIn {
			continue
		}
		for _, be := range ev.loop.backs {
			for _, x := range suffixAfter(be.st.ev.list(), ev) {
				if x.k == evMapSet {
					tabs[valKey(x.m)] = true
				}
			}
		}
		loops = append(loops, ev.loop)
	}
	var tab Value
	switch v := res.(type) {
	case NilV:
		// no struct, or no field that has a name
		if q.notStruct() {
			q.check(true, "table", "")
			return
		}
		for _, ev := range evs {
			if ev.k == evNote && ev.name == "makemap" && tabs[valKey(ev.val)] {
				if o, ok := ev.val.(Opq); ok && q.w.same(st, e.mapLen(st, o), constLin(0)) {
					tab = o
				}
			}
		}
		if !q.check(tab != nil, "table", "no table is given for a struct that may have fields") {
			return
		}
	case Opq:
		if !q.check(made(v), "table", "what is returned is no table of the type") {
			return
		}
		tab = v
	default:
		q.check(false, "table", "what is returned is no table of the type")
		return
	}
	n := 0
	for _, l := range loops {
		if q.loop(l, tab) {
			n++
		}
	}
	q.check(n == 1, "table", "the table is not filled by one loop over all fields of the type")
}

// notStruct: the path has found that there is no struct.
func (q *tabler) notStruct() bool {
	st := q.o.st
	for _, ev := range st.ev.list() {
		if ev.k == evCall && strings.HasSuffix(ev.call.name, ".Kind") && valKey(ev.call.args[0]) == valKey(q.arg) {
			k := q.e.lin(ev.call.res[0])
			if st.entails(k.addc(-26)) || st.entails(k.neg().addc(24)) {
				return true
			}
			if st.decide(q.e.eqCond(st, IntV{k}, IntV{constLin(25)}, types.Typ[types.Int])) == no {
				return true
			}
		}
	}
	return false
}

// loop: the loop goes over the fields and puts those that have a name into the
// table.
func (q *tabler) loop(l *LoopCtx, tab Value) bool {
	e := q.e
	var in *Ev
	for _, ev := range q.o.st.ev.list() {
		if ev.k == evLoopIn && ev.loop == l {
			in = ev
		}
	}
	if in == nil || len(l.backs) == 0 {
		return false
	}
	str := types.Typ[types.String]
	type one struct {
		st   *State
		evs  []*Ev
		desc Value
		i    Lin
	}
	var its []one
	for _, be := range l.backs {
		evs := suffixAfter(be.st.ev.list(), in)
		x := one{st: be.st, evs: evs}
		for _, ev := range evs {
			if ev.k == evCall && strings.HasSuffix(ev.call.name, ".Field") {
				i, ok := q.number(ev.call.res[0])
				if !ok || x.desc != nil && !q.w.same(be.st, i, x.i) {
					return false
				}
				x.desc, x.i = ev.call.res[0], i
			}
		}
		if x.desc == nil {
			return false
		}
		its = append(its, x)
	}
	// the number runs over all fields
	var nf Lin
	have := false
	for _, ev := range q.o.st.ev.list() {
		if ev.k == evCall && strings.HasSuffix(ev.call.name, ".NumField") && (q.isType(ev.call.args[0]) || valKey(ev.call.args[0]) == valKey(q.arg)) {
			nf, have = e.lin(ev.call.res[0]), true
		}
	}
	if !have {
		return false
	}
	okVar := false
	for _, v := range l.vars {
		h, isI := v.head.(IntV)
		in, isI2 := v.init.(IntV)
		if !isI || !isI2 || !isInt(v.t) {
			continue
		}
		d := its[0].st.norm(its[0].i.sub(h.l)) // number = head + d
		good := d.isConst()
		step := int64(0)
		for k, be := range l.backs {
			b, ok := e.backVal(be, v, l).(IntV)
			if !ok || !good {
				good = false
				break
			}
			s := be.st.norm(b.l.sub(h.l))
			good = s.isConst() && (s.c == 1 || s.c == -1) && (k == 0 || s.c == step) && q.w.same(be.st, its[k].i, h.l.add(d))
			step = s.c
		}
		if !good {
			continue
		}
		first := in.l.add(d)
		last := h.l.add(d)
		st := q.o.st
		switch step {
		case 1:
			good = q.w.same(st, first, constLin(0)) && st.entails(last.sub(nf))
		case -1:
			good = q.w.same(st, first, nf.addc(-1)) && st.entails(last.neg().addc(-1))
		}
		okVar = okVar || good
	}
	q.check(okVar, "table", "the loop that fills the table does not go over all fields")
	for _, x := range its {
		field := func(name string) SliceV {
			v, _ := e.fresh(str, "field."+name+"("+valKey(x.desc)+")", false).(SliceV)
			return v
		}
		// the tag that was asked for
		tagv := Value(nil)
		rightTag := false
		for _, ev := range x.evs {
			if ev.k == evCall && strings.HasPrefix(ev.call.name, "(reflect.StructTag).") {
				s, ok := ev.call.args[0].(SliceV)
				k, ok2 := ev.call.args[1].(SliceV)
				if ok && ok2 {
					name, isC := constStr(k)
					if isC && name == "sereal" && s.base == field("Tag").base {
						tagv, rightTag = ev.call.res[0], true
					}
				}
			}
		}
		if !q.check(rightTag, "named", "the tag of a field is not looked at") {
			continue
		}
		tag, _ := tagv.(SliceV)
		st := x.st
		is := func(v SliceV, s string) tri { return st.decide(e.eqCond(st, v, e.strConst(s), str)) }
		var puts []*Ev
		for _, ev := range x.evs {
			if ev.k == evMapSet && valKey(ev.m) == valKey(tab) {
				puts = append(puts, ev)
			}
			q.check(ev.k != evMapDel, "named", "an entry of a table is taken out")
		}
		sameStr := func(v Value, s SliceV) bool {
			x, ok := v.(SliceV)
			return ok && x.base == s.base && q.w.same(st, x.off, s.off) && q.w.same(st, x.ln, s.ln)
		}
		if len(puts) == 0 {
			switch {
			case is(tag, "-") == yes:
				q.check(true, "named", "")
			case is(tag, "") == yes && is(field("PkgPath"), "") == no:
				q.check(true, "named", "")
			default:
				q.check(false, "named", "a field is left out that is neither tagged \"-\" nor unexported without a tag")
			}
			continue
		}
		q.check(len(puts) == 1, "named", "a field is entered twice")
		p := puts[0]
		num, ok := p.val.(IntV)
		q.check(ok && q.w.same(st, num.l, x.i), "named", "a name is entered with the number of another field")
		switch {
		case is(tag, "-") != no:
			q.check(false, "named", "a field tagged \"-\" is entered")
		case is(tag, "") == yes:
			q.check(is(field("PkgPath"), "") == yes, "named", "an unexported field without a tag is entered")
			q.check(sameStr(p.x, field("Name")), "named", "a field without a tag is not entered under its name")
		case is(tag, "") == no:
			q.check(sameStr(p.x, tag), "named", "a field with a tag is not entered under it")
		default:
			q.check(false, "named", "a field is entered without looking whether it has a tag")
		}
	}
	return true
}

// onlyFrom are these functions and those that only they call.
func (p *Program) onlyFrom(fns []*ssa.Function) map[*ssa.Function]bool {
	own := map[*ssa.Function]bool{}
	for _, f := range fns {
		own[f] = true
	}
	// helpers that are called by the functions that give tables and by no other
	callers := map[*ssa.Function][]*ssa.Function{}
	other := map[*ssa.Function]bool{}
	var ops [16]*ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
					if g, ok := callee.(*ssa.Function); ok {
						callers[g] = append(callers[g], f)
					}
				}
				for _, op := range in.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && *op != callee {
						other[g] = true
					}
				}
			}
		}
		if f.Parent() != nil {
			callers[f] = append(callers[f], f.Parent())
		}
	}
	for more := true; more; {
		more = false
		for g, cs := range callers {
			if own[g] || other[g] || g.Object() != nil && g.Object().Exported() {
				continue
			}
			all := true
			for _, c := range cs {
				all = all && own[c]
			}
			if all {
				own[g], more = true, true
			}
		}
	}
	return own
}

// tableIntegrity: tables are filled only where they are made.
func (e *Engine) tableIntegrity(r *Report, fns []*ssa.Function) {
	own := e.p.onlyFrom(fns)
	// what may be a table, or a table of tables
	hot := map[ssa.Value]bool{}
	isHot := func(v ssa.Value) bool {
		if isTypeTable(v.Type()) {
			return true
		}
		return hot[v]
	}
	mark := func(v ssa.Value) bool {
		if hot[v] {
			return false
		}
		hot[v] = true
		return true
	}
	for more := true; more; {
		more = false
		for _, f := range e.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Call:
						g := x.Call.StaticCallee()
						if g == nil {
							continue
						}
						if own[g] && isTable(x.Type()) {
							more = mark(x) || more
						}
						for i, a := range x.Call.Args {
							if i < len(g.Params) && isHot(a) && isTable(a.Type()) {
								more = mark(g.Params[i]) || more
							}
						}
					case *ssa.Extract:
						if isHot(x.Tuple) && isTable(x.Type()) {
							more = mark(x) || more
						}
					case *ssa.Lookup:
						if isTypeTable(x.X.Type()) {
							more = mark(x) || more
						}
					case *ssa.Phi:
						for _, a := range x.Edges {
							if isHot(a) && isTable(x.Type()) {
								more = mark(x) || more
							}
						}
					case *ssa.ChangeType:
						if isHot(x.X) && isTable(x.Type()) {
							more = mark(x) || more
						}
					}
				}
			}
		}
	}
	for _, f := range e.p.Funcs {
		if own[f] {
			continue
		}
		see := func(at ssa.Instruction, v ssa.Value) {
			if isTable(v.Type()) || isTypeTable(v.Type()) {
				r.check(!isHot(v), "integrity", fname(f), e.pos(at), "%s changes a table of fields (%s)", fname(f), e.p.Variant)
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MapUpdate:
					see(x, x.Map)
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						see(x, x.Call.Args[0])
					}
				case *ssa.Store:
					// a table is not kept anywhere else
					r.check(!isTable(x.Val.Type()) || !isHot(x.Val), "integrity", fname(f), e.pos(x), "%s keeps a table of fields (%s)", fname(f), e.p.Variant)
				}
			}
		}
		r.ok("integrity")
	}
}

func init() {
	checks["C30"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "The function that gives the field table of a type is followed on every path: it must return the table remembered for that very type, or fill a new one in a single loop over all field numbers in which exactly the fields that are not tagged \"-\" and are exported or tagged are entered, each under its tag or else its name, with its own number, and remember it for that type. No other function may change a table. On every path of every writer of a struct, the pairs written are those of the table of the type of the value, key and number from the same entry. On every path of every typed reader, a pair is stored into the field whose number the table holds for the key as it is or title-cased, the exact key first, and is skipped only if neither is there."
		r.Trusted = append(r.Trusted, "reflect: NumField, Field, StructTag", "strings.Title")
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			w := &wire{e: e}
			fns := e.tableFns()
			if len(fns) == 0 {
				r.undecided("table", "%s: there is no table of fields", p.Variant)
			}
			for _, f := range fns {
				outs, args := e.runEntryArgs(f)
				for i, q := range f.Params {
					o, ok := args[i].(Opq)
					if !ok || !isReflectValue(q.Type()) && !isReflectType(q.Type()) {
						continue
					}
					for _, oc := range outs {
						if !oc.panic {
							(&tabler{e: e, w: w, r: r, fn: f, arg: o, rv: isReflectValue(q.Type()), o: oc}).run()
						}
					}
					r.sample(map[string]interface{}{"function": fname(f), "paths": len(outs), "variant": p.Variant})
					break
				}
			}
			e.tableIntegrity(r, fns)
		})
		forReaders(r, func(w *wire, fn *ssa.Function, role *wireRole, ps []*wirePath) {
			if role.typed {
				w.checkPlaces(r, fn, role, ps, map[string]bool{"field": true, "skip": true})
			}
		})
		forEncoder(r, func(m *emit, fn *ssa.Function, ps []*emPath) {
			for _, p := range ps {
				if p.root == nil {
					continue // C39
				}
				q := m.parts(p)
				for i := len(q.fbad); i < q.fn; i++ {
					r.ok("written")
				}
				for _, b := range q.fbad {
					r.bad("written", p.key()+":"+b.n.name(), m.e.pos(p.o.at), "%s: %s (%s)", fname(fn), b.why, m.e.p.Variant)
				}
			}
		}, nil)
		r.atLeast("table", 2)
		r.atLeast("named", 4)
		r.atLeast("memo", 2)
		r.atLeast("integrity", 50)
		r.atLeast("field", 4)
		r.atLeast("skip", 2)
		r.atLeast("written", 6)
	}
}
