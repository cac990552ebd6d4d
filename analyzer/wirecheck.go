package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// withTag restricts a path to one value of its tag byte; nil if impossible.
func (w *wire) withTag(p *wirePath, t int) *State {
	st := p.o.st.clone()
	s := w.tagSym(p)
	var d dset
	d.put(t)
	if !st.assume(&Cond{k: cTab, s: s, set: d}) || st.dead {
		return nil
	}
	return st
}

func (w *wire) tagSym(p *wirePath) Sym {
	return w.e.byteSym(p.buf.base, 0, p.o.st.norm(p.buf.off.add(p.tag)))
}

// body is what a path reads after leading padding.
func (p *wirePath) body() []*wstep { return p.ch.steps[p.pads:] }

// delegated: the whole item is handed to another function.
func (w *wire) delegated(p *wirePath, role byte) bool {
	return p.ch.state == 3 && len(p.body()) == 1 && p.body()[0].k == role && w.same(p.o.st, p.ch.cur, p.res)
}

// checkJumps: input is read out of line only where a back-reference points.
func (w *wire) checkJumps(p *wirePath, t int, role byte, st *State) string {
	for _, j := range p.ch.jumps {
		want := byte(0)
		switch t & 0x7f {
		case tgCOPY:
			want = role
		case tgOBJECTV, tgOBJECTVFREEZE:
			want = 'S'
		}
		if want == 0 {
			return fmt.Sprintf("reads %s that is not next in line", elemName(j.k))
		}
		if j.k != want {
			return fmt.Sprintf("reads %s where the reference points, not %s", elemName(j.k), elemName(want))
		}
		if len(p.body()) == 0 || p.body()[0].k != 'V' || !w.same(st, j.at, p.body()[0].n) {
			return "the position read out of line is not the back-reference's offset"
		}
	}
	return ""
}

// checkGrammar checks every accepting path of an item or string reader.
func (w *wire) checkGrammar(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole) {
	var accepted [256]bool
	v := w.e.p.Variant
	for _, p := range ps {
		if p.o.panic {
			continue
		}
		if !p.ok {
			continue
		}
		if w.delegated(p, role.role) {
			r.ok("delegation")
			continue
		}
		for _, t := range w.tags(p).members() {
			st := w.withTag(p, t)
			if st == nil {
				continue
			}
			sp := wireTags[t&0x7f]
			key := fname(fn) + ":" + sp.name
			pos := w.e.pos(p.o.at)
			if p.ch.err != "" {
				r.bad("grammar", key, pos, "%s (tag %s, %s)", p.ch.err, sp.name, v)
				continue
			}
			if sp.reject || role.role == 'S' && !stringTags[t&0x7f] && t&0x7f != tgPAD {
				r.bad("accept", key, pos, "%s accepts tag %#x (%s) (%s)", fname(fn), t, sp.name, v)
				continue
			}
			els := sp.elems
			if role.role == 'S' && t&0x7f == tgPAD {
				els = []elem{{k: 'S'}}
			}
			why := w.match(st, p.body(), els, sp, Lin{}, p.ch.cur, p.res)
			if why == "" {
				why = w.checkJumps(p, t, role.role, st)
			}
			if why == "" && p.ch.state == 3 {
				why = "the tag byte is not consumed"
			}
			if r.check(why == "", "grammar", key, pos, "tag %#x (%s) in %s: %s (%s)", t, sp.name, fname(fn), why, v) {
				accepted[t] = true
			}
		}
	}
	any := false
	for t := range accepted {
		any = any || accepted[t]
	}
	if !any {
		return // only delegates
	}
	for t := 0; t < 256; t++ {
		sp := wireTags[t&0x7f]
		if sp.reject || t&0x7f == tgPAD || role.role == 'S' && !stringTags[t&0x7f] {
			continue
		}
		r.check(accepted[t], "complete", fname(fn)+":"+sp.name, w.e.pos(fn.Blocks[0].Instrs[0]), "no path of %s accepts tag %#x (%s) (%s)", fname(fn), t, sp.name, v)
	}
}

// failedStep reports whether a step the function called reported an error on
// this path.
func (w *wire) failedStep(p *wirePath) bool {
	for _, ev := range p.o.st.ev.list() {
		if ev.k != evCall {
			continue
		}
		c := ev.call
		if c.name == "varint" {
			if len(c.res) > 2 && p.o.st.decide(w.e.nilCond(c.res[2])) == no {
				return true
			}
			continue
		}
		if c.fn != nil && w.e.cuts[c.fn] != nil {
			if errIndex(c.fn) >= 0 && !c.good {
				return true
			}
			continue
		}
		for _, x := range c.res {
			if o, ok := x.(Opq); ok && types.Identical(o.t, errType) && p.o.st.decide(w.e.nilCond(x)) == no && w.e.terms[o.s].op != "nonnil" {
				return true
			}
		}
	}
	return false
}

// recvInts are the integer fields of the receiver at entry.
func (w *wire) recvInts(p *wirePath) []Lin {
	pv, ok := p.args[0].(PtrV)
	if !ok || pv.obj == nil || pv.elem == nil {
		return nil
	}
	stt, ok := pv.elem.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []Lin
	st := newState(w.e)
	for i := 0; i < stt.NumFields(); i++ {
		if isBasic(stt.Field(i).Type(), types.Int) {
			v, _, ok := w.e.fieldOf(st, p.args[0], stt.Field(i).Name())
			if ok {
				r = append(r, w.e.lin(v))
			}
		}
	}
	return r
}

// justified: an item that is rejected on this path is not a valid one (in
// what this reader can see of it).
func (w *wire) justified(p *wirePath, t int, role byte, st *State) bool {
	buf := p.buf
	fails := func(l Lin) bool { return st.entails(l.neg().addc(-1)) } // not l >= 0
	short := func(end Lin) bool { return fails(buf.ln.sub(end)) }
	start := w.e.lin(p.args[w.posOf(p)])
	if fails(start) || short(p.tag.addc(1)) {
		return true
	}
	tag := t & 0x7f
	sp := wireTags[tag]
	if sp.reject || role == 'S' && !stringTags[tag] && tag != tgPAD {
		return true
	}
	if w.failedStep(p) {
		return true
	}
	if tag == tgPAD {
		return short(p.tag.addc(2))
	}
	cur := p.ch.cur
	if p.ch.state == 3 {
		return false
	}
	body := p.body()
	var n Lin
	haveN := false
	if len(body) > 0 && body[0].k == 'V' {
		n, haveN = body[0].n, true
	}
	switch tag {
	case tgCOPY:
		for _, f := range w.recvInts(p) {
			if st.entails(f.addc(-1)) {
				return true // already following one
			}
		}
	case tgOBJECTFREEZE, tgOBJECTVFREEZE:
		for _, s := range body {
			if s.k == 'S' || s.k == 'I' {
				return true // the payload: decided with C32
			}
		}
		for _, s := range p.ch.jumps {
			if s.k == 'S' {
				return true
			}
		}
	}
	if haveN {
		switch tag {
		case tgCOPY, tgREFP, tgALIAS, tgOBJECTV, tgOBJECTVFREEZE:
			if fails(p.tag.addc(-1).sub(n)) { // not before the tag
				return true
			}
			for _, f := range w.recvInts(p) {
				if fails(n.sub(f)) {
					return true // before the first item
				}
			}
		}
		if tag == tgREFP || tag == tgALIAS {
			for _, ev := range p.o.st.ev.list() {
				if ev.k == evMapGet && ev.ok != nil && st.decide(ev.ok) == no {
					return true
				}
			}
		}
	}
	for i, el := range sp.elems {
		switch el.k {
		case 'B':
			if short(cur.addc(el.n)) {
				return true
			}
		case 'V', 'I', 'S':
			if len(body) <= i && short(cur.addc(1)) {
				return true
			}
		case 'N', 'R':
			if el.from == 'T' {
				n = constLin(sp.count)
			} else if !haveN {
				return false
			}
			per := int64(1)
			if el.k == 'R' {
				per = int64(len(el.rep))
			}
			if fails(n) || fails(constLin(math.MaxInt32).sub(n)) {
				return true
			}
			total := constLin(0)
			for j := int64(0); j < per; j++ {
				total = total.add(n)
			}
			at := p.tag.addc(1)
			if haveN {
				at = body[0].end
			}
			if short(at.add(total)) {
				return true
			}
		}
	}
	return false
}

func (w *wire) posOf(p *wirePath) int {
	for i, a := range p.args {
		if s, ok := a.(SliceV); ok && s.base == p.buf.base {
			for j := i + 1; j < len(p.args); j++ {
				if _, ok := p.args[j].(IntV); ok {
					return j
				}
			}
		}
	}
	return 0
}

// blamesInput: the error says the document is bad, not that the destination
// does not fit.
func (w *wire) blamesInput(v Value) bool {
	switch v := v.(type) {
	case IfaceV:
		return isErrCorrupt(v.dyn)
	case Opq:
		if t, ok := w.e.terms[v.s]; ok && t.op == "nonnil" {
			return false
		}
		return true
	}
	return true
}

func isErrCorrupt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "ErrCorrupt"
}

// checkRejects checks every rejecting path of an item or string reader.
func (w *wire) checkRejects(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole) {
	for _, p := range ps {
		if p.o.panic || p.ok {
			continue
		}
		if role.typed && !w.blamesInput(p.err) {
			continue
		}
		if p.ch.err != "" && w.failedStep(p) {
			r.ok("reject")
			continue
		}
		ts := w.tags(p).members()
		seen := map[string]bool{}
		for _, t := range ts {
			st := w.withTag(p, t)
			if st == nil {
				continue
			}
			sp := wireTags[t&0x7f]
			ok := p.ch.err == "" && w.justified(p, t, role.role, st)
			if !ok && p.ch.state == 3 && w.failedStep(p) {
				ok = true
			}
			if ok || !seen[sp.name] {
				r.check(ok, "reject", fname(fn)+":"+sp.name, w.e.pos(p.o.at), "%s rejects a valid %s (tag %#x) at %s (%s)", fname(fn), sp.name, t, w.e.pos(p.o.at), w.e.p.Variant)
				seen[sp.name] = true
			}
		}
	}
}

func (w *wire) checkCounted(r *Report, fn *ssa.Function, ps []*wirePath, role *wireRole) {
	for _, p := range ps {
		if p.o.panic || !p.ok {
			continue
		}
		why := w.matchCount(p, role)
		if role.rep == "?" {
			why = "what it repeats could not be determined"
		}
		r.check(why == "", "counted", fname(fn), w.e.pos(p.o.at), "%s: %s (%s)", fname(fn), why, w.e.p.Variant)
		r.check(len(p.ch.jumps) == 0, "counted", fname(fn)+":jump", w.e.pos(p.o.at), "%s reads out of line (%s)", fname(fn), w.e.p.Variant)
	}
}

func grammarCheck(typed bool) func(r *Report) {
	return func(r *Report) {
		r.Level = "proof"
		forVariants(r, bothVariants, func(p *Program) {
			w, ok := newWire(p, r, decEntries)
			if !ok {
				return
			}
			items := 0
			for _, fn := range w.sortedRoles() {
				role := w.roles[fn]
				if role.typed != typed {
					continue
				}
				ps := w.paths(w.e.cuts[fn], role)
				switch role.role {
				case 'C':
					w.checkCounted(r, fn, ps, role)
					continue
				case 'I':
					items++
				}
				w.checkGrammar(r, fn, ps, role)
				w.checkRejects(r, fn, ps, role)
				r.sample(map[string]interface{}{"function": fname(fn), "role": string(role.role), "paths": len(ps)})
			}
			if items == 0 {
				r.undecided("noitem", "%s: no item reader was found", p.Variant)
			}
			for _, l := range w.e.loopErr {
				r.undecided("engine", "%s: %s", p.Variant, l)
			}
		})
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
		r.atLeast("grammar", 300)
	}
}

func init() {
	checks["C15"] = grammarCheck(false)
	checks["C16"] = grammarCheck(true)
}
