package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: every loop has a ranking and every recursion a measure.

// a rank is an integer that moves in one direction and has a limit there.
type rank struct {
	name   string
	strict bool
}

// parts are the integer parts of a value: itself, or the length of a slice.
func (e *Engine) intParts(v Value) map[string]Lin {
	switch x := v.(type) {
	case IntV:
		return map[string]Lin{"": x.l}
	case SliceV:
		return map[string]Lin{"len ": x.ln, "off ": x.off}
	}
	return nil
}

// ranks finds the quantities that never move back over a back edge and are
// bounded in the direction they move in.
func (e *Engine) ranks(ctx *LoopCtx, be backEdge) []rank {
	var out []rank
	for _, v := range ctx.vars {
		back, head := e.intParts(e.backVal(be, v, ctx)), e.intParts(v.head)
		for k, h := range head {
			b, ok := back[k]
			if !ok {
				continue
			}
			d := b.sub(h)
			if be.st.entails(d.sub(constLin(1))) {
				for _, l := range ctx.pool {
					if be.st.entails(l.sub(h)) {
						out = append(out, rank{"up " + k + v.name, true})
						break
					}
				}
			} else if be.st.entails(d.neg().sub(constLin(1))) {
				if be.st.entails(h.add(constLin(1))) {
					out = append(out, rank{"down " + k + v.name, true})
				}
			} else {
				if be.st.entails(d) {
					out = append(out, rank{"up " + k + v.name, false})
				}
				if be.st.entails(d.neg()) {
					out = append(out, rank{"down " + k + v.name, false})
				}
			}
		}
	}
	return out
}

// terminates looks for a lexicographic ranking of the loop's back edges.
func (e *Engine) terminates(ctx *LoopCtx) (string, bool) {
	var rest [][]rank
	for _, be := range ctx.backs {
		if be.st.dead {
			continue
		}
		rest = append(rest, e.ranks(ctx, be))
	}
	var used []string
	for len(rest) > 0 {
		count, strict := map[string]int{}, map[string]int{}
		for _, rs := range rest {
			for _, r := range rs {
				count[r.name]++
				if r.strict {
					strict[r.name]++
				}
			}
		}
		best := ""
		for _, n := range sortedKeys(strict) {
			if count[n] == len(rest) && (best == "" || strict[n] > strict[best]) {
				best = n
			}
		}
		if best == "" {
			return fmt.Sprintf("%d of %d ways round the loop", len(rest), len(ctx.backs)), false
		}
		used = append(used, best)
		var next [][]rank
		for _, rs := range rest {
			done := false
			for _, r := range rs {
				done = done || r.name == best && r.strict
			}
			if !done {
				next = append(next, rs)
			}
		}
		rest = next
	}
	return strings.Join(used, ", "), true
}

// ranges: the loop goes over a map or string, and does not extend the map.
func (e *Engine) ranges(lp *loop) bool {
	for _, in := range lp.head.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		rg, ok := n.Iter.(*ssa.Range)
		if !ok || lp.blocks[rg.Block()] {
			return false
		}
		mt := rg.X.Type().Underlying()
		if _, ok := mt.(*types.Map); !ok {
			return true
		}
		var fs []*ssa.Function
		var blocks []*ssa.BasicBlock
		for b := range lp.blocks {
			blocks = append(blocks, b)
		}
		seen := map[*ssa.Function]bool{}
		for len(blocks) > 0 {
			b := blocks[0]
			blocks = blocks[1:]
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.MapUpdate); ok && types.Identical(u.Map.Type().Underlying(), mt) {
					return false
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && e.p.inPkg(g) && !seen[g] {
						seen[g] = true
						fs = append(fs, g)
						blocks = append(blocks, g.Blocks...)
					}
				}
			}
		}
		_ = fs
		return true
	}
	return false
}

// ---------------------------------------------------------------- recursion

// recEdge is a call from one function under contract to another.
type recEdge struct {
	from, to *ssa.Function
	st       *State
	site     ssa.Instruction
	args     []Value // of the call
	entry    []Value // of the caller
	entrySt  *State
	fields   map[string]Lin // integer and boolean fields of the receiver at the call
}

func (e *Engine) scalar(st *State, v Value) (Lin, bool) {
	switch x := v.(type) {
	case IntV:
		return x.l, true
	case BoolV:
		switch st.decide(x.c) {
		case yes:
			return constLin(1), true
		case no:
			return constLin(0), true
		}
	}
	return Lin{}, false
}

// components are the scalars a call passes on: parameters by name and fields
// of the receiver.
func (e *Engine) components(fn *ssa.Function, st *State, args []Value) map[string]Lin {
	out := map[string]Lin{}
	for i, p := range fn.Params {
		if l, ok := e.scalar(st, args[i]); ok {
			out["parameter "+p.Name()] = l
		}
		if pv, ok := args[i].(PtrV); ok && pv.obj != nil && pv.elem != nil {
			if stt, ok := pv.elem.Underlying().(*types.Struct); ok && !e.opaqueStruct(pv.elem) {
				for k := 0; k < stt.NumFields(); k++ {
					t := stt.Field(k).Type()
					if isInt(t) || isBasic(t, types.Bool) {
						v, _, _ := e.fieldOf(st, args[i], stt.Field(k).Name())
						if l, ok := e.scalar(st, v); ok {
							out["field "+stt.Field(k).Name()] = l
						}
					}
				}
			}
		}
	}
	return out
}

// consumes compares the position a call starts at with the one its caller
// started at: 1 if it is further on, 0 if not before it, -1 otherwise.
func (e *Engine) consumes(x *recEdge) int {
	fb, fp, _, ok := bufParam(x.from)
	tb, tp, _, ok2 := bufParam(x.to)
	if !ok || !ok2 {
		return -1
	}
	a, isA := x.entry[fb].(SliceV)
	b, isB := x.args[tb].(SliceV)
	if !isA || !isB || a.base != b.base {
		return -1
	}
	// distance of the position from the end of the document
	end := func(s SliceV, p Value) Lin { return s.off.add(e.lin(p)) }
	at, to := end(a, x.entry[fp]), end(b, x.args[tp])
	if !x.st.entails(a.off.add(a.ln).sub(b.off).sub(b.ln)) || !x.st.entails(a.off.add(a.ln).sub(at)) {
		return -1
	}
	d := to.sub(at)
	if x.st.entails(d.sub(constLin(1))) {
		return 1
	}
	if x.st.entails(d) {
		return 0
	}
	return -1
}

// descends: the destination of the call is something inside that of the caller.
func descends(x *recEdge) bool {
	c, ok := x.site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	for _, a := range c.Common().Args {
		if !isReflectValue(a.Type()) {
			continue
		}
		seen := map[ssa.Value]bool{}
		var inside func(v ssa.Value) bool
		inside = func(v ssa.Value) bool {
			if seen[v] {
				return true
			}
			seen[v] = true
			switch y := v.(type) {
			case *ssa.Phi:
				for _, z := range y.Edges {
					if !inside(z) {
						return false
					}
				}
				return true
			case *ssa.Call:
				switch callName(&y.Call) {
				case "(reflect.Value).Elem", "(reflect.Value).Index", "(reflect.Value).MapIndex", "(reflect.Value).Field", "(reflect.Value).FieldByIndex":
					return true
				case "reflect.Indirect":
					return true
				}
			}
			return false
		}
		return inside(a)
	}
	return false
}

// measure decides whether the recursion through the edges ends.
func (e *Engine) measure(r *Report, edges []*recEdge) {
	// only calls on a cycle matter
	next := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, x := range edges {
		if next[x.from] == nil {
			next[x.from] = map[*ssa.Function]bool{}
		}
		next[x.from][x.to] = true
	}
	reaches := func(next map[*ssa.Function]map[*ssa.Function]bool, a, b *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		todo := []*ssa.Function{a}
		for len(todo) > 0 {
			f := todo[0]
			todo = todo[1:]
			if f == b {
				return true
			}
			if seen[f] {
				continue
			}
			seen[f] = true
			for g := range next[f] {
				todo = append(todo, g)
			}
		}
		return false
	}
	var rest []*recEdge
	for _, x := range edges {
		if reaches(next, x.to, x.from) {
			rest = append(rest, x)
		}
	}
	all := rest
	// components that only ever go one way over all calls, within limits where
	// they move
	type comp struct {
		name string
		dir  int64
	}
	limits := []int64{0, 1, 2, 3, 4, 8, 16, 32, 64, 128, 256, 1024, 1 << 16, 1 << 31}
	move := func(x *recEdge, c comp) (ok, strict bool) {
		from, to := e.components(x.from, x.entrySt, x.entry), x.fields
		a, ok1 := from[c.name]
		b, ok2 := to[c.name]
		if !ok2 {
			return false, false
		}
		if !ok1 {
			// a parameter the caller does not have, or a flag that may have
			// either value: known at the call is that it is at its limit
			return false, false
		}
		d := b.sub(a)
		if c.dir < 0 {
			d = d.neg()
		}
		if !x.st.entails(d) {
			return false, false
		}
		if x.st.entails(d.sub(constLin(1))) {
			if e.consumes(x) < 0 {
				// what leads back is followed only once
				return true, c.dir > 0 && x.st.entails(a.neg()) || c.dir < 0 && x.st.entails(b) && x.st.entails(constLin(1).sub(a))
			}
			for _, l := range limits {
				if c.dir > 0 && x.st.entails(constLin(l).sub(a)) || c.dir < 0 && x.st.entails(a.add(constLin(l))) {
					return true, true
				}
			}
		}
		return true, false
	}
	// flags: a call that sets one which was found clear
	flag := func(x *recEdge, name string, up bool) (ok, strict bool) {
		from, to := e.flagOf(x, name, true), e.flagOf(x, name, false)
		want, old := yes, no
		if !up {
			want, old = no, yes
		}
		if to == want {
			return true, from == old
		}
		return from == old || e.sameFlag(x, name), false
	}
	var names []string
	seen := map[string]bool{}
	flags := map[string]bool{}
	for _, x := range rest {
		for n := range x.fields {
			if !seen[n] {
				seen[n] = true
				names = append(names, n)
			}
		}
		for _, n := range e.flagNames(x.to) {
			if !flags[n] {
				flags[n] = true
			}
		}
	}
	sort.Strings(names)
	var used []string
	for {
		best, bestN := "", 0
		var kept []*recEdge
		try := func(name string, f func(x *recEdge) (bool, bool)) {
			n := 0
			var left []*recEdge
			for _, x := range rest {
				ok, strict := f(x)
				if !ok {
					return
				}
				if strict {
					n++
				} else {
					left = append(left, x)
				}
			}
			if n > bestN {
				best, bestN, kept = name, n, left
			}
		}
		for _, n := range names {
			for _, dir := range []int64{1, -1} {
				c := comp{n, dir}
				try(fmt.Sprintf("%s %+d", n, dir), func(x *recEdge) (bool, bool) { return move(x, c) })
			}
		}
		for _, n := range sortedKeys(flags) {
			for _, up := range []bool{true, false} {
				try(fmt.Sprintf("%s %v", n, up), func(x *recEdge) (bool, bool) { return flag(x, n, up) })
			}
		}
		if best == "" {
			break
		}
		used = append(used, best)
		rest = kept
	}
	// what is left consumes input, or goes down in the destination
	var weak []*recEdge
	for _, x := range rest {
		key := fname(x.from) + ">" + fname(x.to)
		switch e.consumes(x) {
		case 1:
			r.ok("recursion")
		case 0:
			weak = append(weak, x)
		default:
			r.bad("recursion", key, e.pos(x.site), "%s calls %s neither further on in the document nor with a bound counted down (%s)", fname(x.from), fname(x.to), e.p.Variant)
		}
	}
	wn := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, x := range weak {
		if descends(x) {
			continue
		}
		if wn[x.from] == nil {
			wn[x.from] = map[*ssa.Function]bool{}
		}
		wn[x.from][x.to] = true
	}
	wd := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, x := range weak {
		if wd[x.from] == nil {
			wd[x.from] = map[*ssa.Function]bool{}
		}
		wd[x.from][x.to] = true
	}
	for _, x := range weak {
		key := fname(x.from) + ">" + fname(x.to)
		bad := !descends(x) && reaches(wn, x.to, x.from)
		r.check(!bad, "recursion", key, e.pos(x.site), "%s calls %s at the same place in the document, and may so be called again (%s)", fname(x.from), fname(x.to), e.p.Variant)
	}
	for i := 0; i < len(all)-len(rest); i++ {
		r.ok("recursion")
	}
	r.sample(map[string]interface{}{"calls on cycles": len(all), "counted down": used, "at the same place": len(weak), "variant": e.p.Variant})
}

func (e *Engine) flagNames(fn *ssa.Function) []string {
	var out []string
	for _, p := range fn.Params {
		if isBasic(p.Type(), types.Bool) {
			out = append(out, "parameter "+p.Name())
		}
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok {
			if stt, ok := pt.Elem().Underlying().(*types.Struct); ok && !e.opaqueStruct(pt.Elem()) {
				for k := 0; k < stt.NumFields(); k++ {
					if isBasic(stt.Field(k).Type(), types.Bool) {
						out = append(out, "field "+stt.Field(k).Name())
					}
				}
			}
		}
	}
	return out
}

// flagVal is a flag at the entry of the caller or at the call.
func (e *Engine) flagVal(x *recEdge, name string, entry bool) Value {
	fn, st, args := x.to, x.st, x.args
	if entry {
		fn, st, args = x.from, x.entrySt, x.entry
	}
	for i, p := range fn.Params {
		if "parameter "+p.Name() == name && isBasic(p.Type(), types.Bool) {
			return args[i]
		}
		if strings.HasPrefix(name, "field ") {
			if v, _, ok := e.fieldOf(st, args[i], strings.TrimPrefix(name, "field ")); ok {
				return v
			}
		}
	}
	return nil
}

// flagOf: what is known of it on the path that leads to the call.
func (e *Engine) flagOf(x *recEdge, name string, entry bool) tri {
	b, ok := e.flagVal(x, name, entry).(BoolV)
	if !ok {
		return unknown
	}
	return x.st.decide(b.c)
}

func (e *Engine) sameFlag(x *recEdge, name string) bool {
	a, b := e.flagVal(x, name, true), e.flagVal(x, name, false)
	return a != nil && b != nil && valKey(a) == valKey(b)
}

func init() {
	checks["C05"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Abstract interpretation of everything that decoding, probing, decompressing and merging run, with inferred loop invariants and function contracts. For every loop a lexicographic ranking is found: integers (variables, lengths of slices, fields) that on no way round the loop move back, that move on at least one of them, and that are bounded by something the loop does not change. For the recursion a measure is found: a bounded counter or flag (the guard against nested COPY) that no recursive call sets back; calls that leave it alone must be made further on in the same document, or at the same place but not in a cycle of such calls, where going down one level in the destination's type counts as progress."
		r.Trusted = append(r.Trusted, libTrust...)
		r.Trusted = append(r.Trusted, "pointer types of destinations are not cyclic (type P *P)")
		r.Assumptions = append(r.Assumptions, sizeAssume...)
		names := append(append(append([]string(nil), decEntries...), insEntries...), mrgEntries...)
		forVariants(r, bothVariants, func(p *Program) {
			e := newEngine(p)
			fs, ok := e.analyse(r, names)
			if !ok {
				return
			}
			e.loopSeen = map[*LoopCtx]bool{}
			var edges []*recEdge
			var cur *ssa.Function
			e.hook = &Hooks{onCut: func(st *State, fr *Frame, in ssa.Instruction, c *Contract, args []Value) {
				if cur != nil {
					st2 := st.clone()
					edges = append(edges, &recEdge{from: cur, to: c.fn, st: st2, site: in, args: args, fields: e.components(c.fn, st2, args)})
				}
			}}
			done := map[string]bool{}
			loops := func() {
				var cs []*LoopCtx
				for c := range e.loopSeen {
					cs = append(cs, c)
				}
				for _, c := range cs {
					key := fname(c.fn) + ":" + e.pos(c.site)
					if e.ranges(c.lp) {
						r.ok("loop")
						done[key] = true
						continue
					}
					how, ok := e.terminates(c)
					if debug {
						fmt.Println("LOOP", key, len(c.backs), how, ok)
					}
					r.check(ok, "loop", fname(c.fn)+":loop", e.pos(c.site), "nothing is found that bounds the loop in %s on %s (%s)", fname(c.fn), how, p.Variant)
					if ok && !done[key] {
						done[key] = true
						r.sample(map[string]interface{}{"loop": key, "ranking": how, "variant": p.Variant})
					}
				}
				e.loopSeen = map[*LoopCtx]bool{}
			}
			reach := e.reachCuts(fs)
			for _, f := range fs {
				e.runEntry(f)
				loops()
			}
			for _, c := range e.cutList() {
				if !reach[c.fn] {
					continue
				}
				n := len(edges)
				cur = c.fn
				_, args, entry := e.runCut(c)
				cur = nil
				for _, x := range edges[n:] {
					x.entry, x.entrySt = args, entry
				}
				loops()
			}
			e.measure(r, edges)
			for _, l := range e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.atLeast("loop", 20)
		r.atLeast("recursion", 20)
	}
}
