package main

import (
	"fmt"
	"go/types"
	"strings"
)

// C27: the positions the merger remembers and the references it writes.

type mrgRefs struct {
	*mrg
	docBase map[string]Lin // offset minus position in the document
	outBase map[string]Lin // the same for the output
	pol     map[bool]map[string]bool
}

func isIntKeyed(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isInt(m.Key())
}

// keyStr finds the string in a table's key, and what else it consists of.
func strKey(v Value) (*SliceV, []Value) {
	switch k := v.(type) {
	case SliceV:
		if k.str {
			return &k, nil
		}
	case StructV:
		var s *SliceV
		var rest []Value
		for _, f := range k.f {
			x, r := strKey(f)
			if x != nil && s == nil {
				s = x
				rest = append(rest, r...)
			} else {
				rest = append(rest, f)
			}
		}
		return s, rest
	}
	return nil, nil
}

// keyOf tells which string of the item a table key stands for.
func (x *mrgRefs) keyOf(q *itemPath, v Value) (*sub, string) {
	s, rest := strKey(v)
	if s == nil {
		return nil, "the key has no string"
	}
	src := s
	if s.fromConv != nil {
		src = s.fromConv
	}
	for i := range q.strs {
		u := &q.strs[i]
		if src.base != q.l.doc || !x.same(q.st, src.off, u.body) || !x.same(q.st, src.off.add(src.ln), u.end) {
			continue
		}
		// text and binary strings differ in the rest of the key
		pol := ""
		for _, r := range rest {
			switch r := r.(type) {
			case BoolV:
				pol += fmt.Sprint(q.st.decide(r.c), " ")
			case IntV:
				pol += x.e.syms.str(q.st.norm(r.l)) + " "
			default:
				pol += valKey(r) + " "
			}
		}
		sym := x.e.byteSym(q.l.doc, q.st.ver[q.l.doc], q.st.norm(u.at))
		text, bin := false, false
		for _, m := range q.st.domOf(sym).members() {
			if m&0x7f == tgSTRUTF8 {
				text = true
			} else {
				bin = true
			}
		}
		if text && bin {
			return u, "text and binary strings are not told apart"
		}
		if x.pol[text] == nil {
			x.pol[text] = map[string]bool{}
		}
		x.pol[text][pol] = true
		if x.pol[!text][pol] {
			return u, "the key is the same for text and binary strings"
		}
		return u, ""
	}
	return nil, "the key is not a string of the item"
}

// same difference everywhere.
func (x *mrgRefs) agree(tab map[string]Lin, what string, d Lin) bool {
	for _, o := range tab {
		if o.key() == d.key() {
			return true
		}
	}
	if len(tab) == 0 {
		tab[what] = d
		return true
	}
	return false
}

func (x *mrgRefs) mod(st *State, l Lin) Lin { return x.e.modular(st.norm(l)) }

func (x *mrgRefs) item(q *itemPath) (why []string) {
	bad := func(f string, a ...interface{}) { why = append(why, fmt.Sprintf(f, a...)) }
	e := x.e
	m := q.b & 0x7f
	ref := m == tgCOPY || m == tgREFP || m == tgALIAS || m == tgOBJECTV || m == tgOBJECTVFREEZE
	gather := q.l.out == nil
	var start Lin
	if !gather {
		start = q.l.out.head.(SliceV).ln
	}
	// where a byte of the document ended up, as an offset in the output
	where := func(at Lin) (Lin, *outPart) {
		for i := range q.outs {
			p := &q.outs[i]
			if p.tag >= 0 {
				if x.same(q.st, p.from, at) || len(q.strs) == 1 && x.same(q.st, q.strs[0].at, at) && x.same(q.st, p.to, q.strs[0].end) {
					return Lin{}, p
				}
				continue
			}
		}
		return start.add(at.sub(q.head)), nil
	}
	// the item's own position, and the offsets it refers to
	own, target := false, false
	looked := false
	for _, ev := range q.evs {
		if ev.m == nil {
			continue
		}
		mo, ok := ev.m.(Opq)
		if !ok || mo.t == nil {
			continue
		}
		switch {
		case isIntKeyed(mo.t) && ev.k == evMapGet:
			if k, ok := ev.x.(IntV); ok && x.isPos(q, k.l, q.head) {
				looked = true
				if ev.ok == nil || q.st.decide(ev.ok) == no {
					own = true // nothing refers to it
				}
			}
		case isIntKeyed(mo.t) && (ev.k == evMapSet):
			k, ok := ev.x.(IntV)
			v, ok2 := ev.val.(IntV)
			if !ok || !ok2 {
				bad("an entry of the table of referenced items is not understood")
				continue
			}
			if gather {
				if !q.st.entails(v.l.neg().addc(-1)) {
					bad("a referenced item has an offset before it is copied")
				}
				if ref && x.same(q.st, k.l, q.count) {
					target = true
				} else if !x.isPos(q, k.l, q.head) || !x.agree(x.docBase, "", x.mod(q.st, k.l.sub(q.head))) {
					bad("the position recorded is not that of the item")
				}
				continue
			}
			pos := q.head
			at := x.isPos(q, k.l, q.head) && x.agree(x.docBase, "", x.mod(q.st, k.l.sub(q.head)))
			isOwn := at
			if !at {
				for _, s := range q.strs {
					if x.agree(x.docBase, "", x.mod(q.st, k.l.sub(s.at))) {
						pos, at = s.at, true
					}
				}
			}
			if !at {
				bad("the position recorded is not that of the item")
				continue
			}
			own = own || isOwn
			out, p := where(pos)
			if p != nil && (stringTags[m] && m != tgCOPY || !x.same(q.st, pos, q.head)) {
				if !x.same(q.st, v.l, p.val) {
					bad("the offset recorded for a string is not that of its copy")
				}
			} else {
				if p != nil {
					out = start
				}
				if !x.agree(x.outBase, "", x.mod(q.st, v.l.sub(out))) {
					bad("the offset recorded for the item is not where it is written")
				}
			}
		case ev.k == evMapSet:
			s, w := x.keyOf(q, ev.x)
			if w != "" {
				bad("a string is remembered wrongly: %s", w)
			}
			if s == nil {
				continue
			}
			v, ok := ev.val.(IntV)
			out, p := where(s.at)
			if p != nil {
				bad("a string that is not written is remembered")
			} else if !ok || !x.agree(x.outBase, "", x.mod(q.st, v.l.sub(out))) {
				bad("the offset remembered for a string is not where it is written")
			}
		}
	}
	if gather {
		if ref && !target {
			bad("the item referred to is not recorded")
		}
		return
	}
	if !own {
		if looked {
			bad("the offset of a referenced item is not recorded")
		} else {
			bad("whether the item is referred to is not looked up")
		}
	}
	// the references written
	var written *outPart
	for i := range q.outs {
		p := &q.outs[i]
		if p.tag < 0 {
			continue
		}
		written = p
		mo, _ := p.get.m.(Opq)
		if ref {
			k, ok := p.get.x.(IntV)
			if !isIntKeyed(mo.t) || !ok || !x.same(q.st, k.l, q.count) {
				bad("the offset is not that recorded for the item referred to")
			}
			if v, ok := p.get.val.(IntV); !ok || !q.st.entails(v.l) {
				bad("the offset is written though none may have been recorded")
			}
			continue
		}
		s, w := x.keyOf(q, p.get.x)
		if w != "" {
			bad("the string is looked up wrongly: %s", w)
		}
		_ = s
	}
	if ref && written == nil {
		bad("the offset of the document is kept in the merged document")
	}
	// track bits
	marks := 0
	for _, ev := range q.evs {
		switch {
		case ev.k == evStore && ev.ptr.obj != nil && ev.ptr.idx != nil && ev.ptr.elem != nil && isByte(ev.ptr.elem) && !e.localBytes(ev.ptr.obj):
			bad("a byte of the output is changed before the document is known to be valid")
		case ev.k == evNote && ev.name == "append" && q.l.marks != nil:
			s, ok := ev.val.(SliceV)
			a, ok2 := ev.x.(SliceV)
			if !ok || !ok2 || s.base != q.l.marks.head.(SliceV).base {
				continue
			}
			marks++
			if n := q.st.norm(a.ln); !n.isConst() || n.c != 1 {
				bad("several positions are marked at once")
				continue
			}
			v, ok := e.load(q.be.st, e.elemPtr(a, constLin(0)), s.elem).(IntV)
			if !ok || written == nil || !x.agree(x.outBase, "", x.mod(q.st, written.val.sub(v.l))) {
				bad("the track bit is set elsewhere than at the item referred to")
			}
		}
	}
	want := 0
	if m == tgREFP || m == tgALIAS {
		want = 1
	}
	if marks != want {
		bad("track bits are set for %d items", marks)
	}
	return
}

// isPos: the offset is that of a position, given that this one has been seen.
func (x *mrgRefs) isPos(q *itemPath, k, at Lin) bool {
	d := x.mod(q.st, k.sub(at))
	if len(x.docBase) > 0 {
		for _, o := range x.docBase {
			return o.key() == d.key()
		}
	}
	// independent of the item
	for _, t := range d.t {
		n := x.e.syms.name(t.s)
		if strings.Contains(n, "loop") || strings.Contains(n, "varint") {
			return false
		}
	}
	return true
}

// localBytes: a small array of the code itself.
func (e *Engine) localBytes(o *Obj) bool { return o.fresh && !strings.HasPrefix(o.key, "app") }

// marking checks the loops that set track bits: only at the positions noted.
func (x *mrgRefs) marking() {
	for c := range x.e.loopSeen {
		item := false
		for _, l := range x.done {
			item = item || l.ctx == c
		}
		if item {
			continue
		}
		for _, be := range c.backs {
			for ev := be.st.ev; ev != nil; ev = ev.prev {
				if ev.k == evLoopIn && ev.loop == c {
					break
				}
				if ev.k != evStore || ev.ptr.obj == nil || ev.ptr.idx == nil || ev.ptr.elem == nil || !isByte(ev.ptr.elem) || x.e.localBytes(ev.ptr.obj) {
					continue
				}
				idx := be.st.norm(*ev.ptr.idx)
				fromMarks := false
				if s, ok := idx.single(); ok {
					for _, l := range x.done {
						if l.marks != nil && strings.HasPrefix(x.e.syms.name(s), l.marks.head.(SliceV).base.key+"[") {
							fromMarks = true
						}
					}
				}
				setsBit := false
				if v, ok := ev.val.(IntV); ok {
					if s, f, ok := x.e.byteFn(v.l); ok {
						ref, known := x.e.byteAt[s]
						setsBit = known && ref.off.key() == idx.key()
						for i := 0; i < 256 && setsBit; i++ {
							setsBit = f(i) == int64(i|0x80)
						}
					}
				}
				x.r.check(fromMarks && setsBit, "mark", fname(c.fn), x.e.pos(ev.site), "%s changes a byte of the merged document other than to set the track bit of an item referred to", fname(c.fn))
			}
		}
	}
}

// bases checks what offsets count from.
func (x *mrgRefs) bases() {
	e := x.e
	app := e.findFunc("(*Merger).Append")
	run := x.runs[app]
	ei := errIndex(app)
	n := 0
	for _, o := range run.outs {
		if o.panic || o.st.decide(e.nilCond(o.res[ei])) == no {
			continue
		}
		var calls []*CallEv
		for _, ev := range o.st.ev.list() {
			if ev.k == evCall && ev.call.fn != nil && x.runs[ev.call.fn] != nil {
				calls = append(calls, ev.call)
			}
		}
		doc := run.args[len(run.args)-1].(SliceV)
		hdr, ok := x.headerLen(o, doc)
		if !ok {
			x.r.bad("origin", "header", e.pos(o.at), "where the body of the document starts is not understood in Append")
			continue
		}
		var ptrs []string
		for _, c := range calls {
			s := ""
			for _, a := range c.args {
				s += valKey(a) + " "
			}
			ptrs = append(ptrs, s)
			for _, d := range x.docBase {
				v, ok := x.at(o.st, c, d)
				if !ok {
					continue
				}
				n++
				ver := o.st.domOf(e.byteSym(doc.base, 0, doc.off.addc(4)))
				v1, later := false, false
				for _, b := range ver.members() {
					if b&15 == 1 {
						v1 = true
					} else {
						later = true
					}
				}
				want := constLin(1)
				if v1 {
					want = hdr
				}
				if debug && ((v1 && later) || !x.same(o.st, v, want)) {
					fmt.Println("ORIGIN", v1, later, ver.members(), x.e.syms.str(o.st.norm(v)), x.e.syms.str(o.st.norm(want)))
				}
				x.r.check(!(v1 && later) && x.same(o.st, v, want), "origin", "document", e.pos(c.site), "offsets in the appended document do not count from where its version says (%s)", fname(c.fn))
			}
			for _, d := range x.outBase {
				v, ok := x.at(o.st, c, d)
				if !ok {
					continue
				}
				// value = position - base: the first byte of the body has offset 1
				if v = o.st.norm(v); v.isConst() {
					n++
					x.r.check(v.c == -5, "origin", "output", e.pos(c.site), "offsets in the merged document do not count from its body (%s)", fname(c.fn))
				}
			}
		}
	}
	x.r.check(n > 0, "origin", "seen", "", "what offsets in documents count from is not understood")
}

// at evaluates an expression over a function's arguments at a call.
func (x *mrgRefs) at(st *State, c *CallEv, d Lin) (Lin, bool) {
	run := x.runs[c.fn]
	r := constLin(d.c)
	found := false
	for _, t := range d.t {
		ok := false
		for i, a := range run.args {
			p, isP := a.(PtrV)
			if !isP || p.elem == nil {
				continue
			}
			stt, isS := p.elem.Underlying().(*types.Struct)
			if !isS {
				continue
			}
			for j := 0; j < stt.NumFields(); j++ {
				if !isBasic(stt.Field(j).Type(), types.Int) {
					continue
				}
				v, _, _ := x.e.fieldOf(run.entry, a, stt.Field(j).Name())
				iv, isI := v.(IntV)
				if !isI {
					continue
				}
				if s, one := iv.l.single(); !one || s != t.s {
					continue
				}
				w, _, _ := x.e.fieldOf(st, c.args[i], stt.Field(j).Name())
				if wi, isI := w.(IntV); isI {
					m, _ := r.addMul(wi.l, t.c)
					r, ok, found = m, true, true
				}
			}
		}
		if !ok {
			return Lin{}, false
		}
	}
	return r, found
}

// headerLen is the position of the body in the document: after magic, version
// and the suffix, whose length is a varint.
func (x *mrgRefs) headerLen(o Outcome, doc SliceV) (Lin, bool) {
	at := doc.off.addc(5)
	for _, ev := range o.st.ev.list() {
		if ev.k != evCall || ev.call.name != "varint" || len(ev.call.res) < 2 {
			continue
		}
		if s, ok := ev.call.args[0].(SliceV); ok && s.base == doc.base && x.same(o.st, s.off, at) {
			return constLin(5).add(x.e.lin(ev.call.res[0])).add(x.e.lin(ev.call.res[1])), true
		}
	}
	return Lin{}, false
}

func init() {
	checks["C27"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Abstract interpretation of Append and everything it calls, with the ways round the loops over items taken tag byte by tag byte as for C24. Every entry made in the table of referenced items must map the item's own offset to where it is written, or to the offset of the copy that replaces it; every string remembered must be mapped to where it is written, under a key that tells text and binary strings apart; the offset in every reference written must come from the table entry for the offset read, known to be set, or for the identical string; positions noted for track bits must be those of the item REFP or ALIAS refers to, and no other byte of the output may be changed. Offsets must count from where the document's version says."
		r.Trusted = append(r.Trusted, libTrust...)
		r.Assumptions = append(r.Assumptions, sizeAssume...)
		forVariants(r, bothVariants[:1], func(p *Program) {
			m, ok := newMrg(p, r)
			if !ok {
				return
			}
			x := &mrgRefs{mrg: m, docBase: map[string]Lin{}, outBase: map[string]Lin{}, pol: map[bool]map[string]bool{}}
			copies := 0
			for _, l := range x.done {
				fn := fname(l.ctx.fn)
				if l.out != nil {
					copies++
				}
				x.eachItem(l, func(q *itemPath) {
					if x.extent(q) != "" || l.out != nil && x.output(q) != "" {
						return // C24
					}
					why := x.item(q)
					for _, w := range why {
						r.bad("reference", fn+":"+q.name+":"+w, q.pos, "%s at %s: %s", fn, q.name, w)
					}
					if len(why) == 0 {
						r.ok("reference")
					}
				})
			}
			x.marking()
			x.bases()
			r.check(copies > 0, "reference", "output", "", "no loop that copies the items of a document is found in the merger")
			r.check(len(x.docBase) > 0 && len(x.outBase) > 0, "origin", "bases", "", "no offsets of documents are recorded")
		})
		r.atLeast("reference", 300)
		r.atLeast("mark", 1)
		r.atLeast("origin", 4)
	}
}
