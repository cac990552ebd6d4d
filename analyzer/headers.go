package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12, C13: which documents are taken for Sereal documents and how their
// bodies are decompressed.

const (
	magicOld  = 0x6c72733d // "=srl"
	magicHigh = 0x6c72f33d // "=\xf3rl"
	magicUTF8 = 0x72b3c33d // "=\xc3\xb3r"
)

// bare prepares an engine that assumes nothing of cut functions.
func bare(p *Program) *Engine {
	e := newEngine(p)
	e.setupCuts()
	e.cutsDone = true
	for _, c := range e.cuts {
		for _, x := range append(append([]*cand(nil), c.pre...), c.post...) {
			x.dead = true
		}
		c.keep, c.keepE = map[string]bool{}, map[string]bool{}
		c.subOf, c.extOf = map[int]int{}, map[int]int{}
	}
	return e
}

// hdrPath is a path through an exported function that is given a document.
type hdrPath struct {
	o   Outcome
	fn  *ssa.Function
	doc SliceV
	st  *State
	ok  bool // may succeed
	err Value
}

// headerPaths runs a function whose last []byte parameter is a document.
func headerPaths(e *Engine, fn *ssa.Function) (r []*hdrPath) {
	di := -1
	for i, q := range fn.Params {
		if isByteSlice(q.Type()) {
			di = i
		}
	}
	if di < 0 {
		return nil
	}
	outs, args := e.runEntryArgs(fn)
	doc, ok := args[di].(SliceV)
	if !ok {
		return nil
	}
	ei := errIndex(fn)
	for _, o := range outs {
		if o.panic {
			continue
		}
		p := &hdrPath{o: o, fn: fn, doc: doc, st: o.st}
		if ei >= 0 {
			p.err = o.res[ei]
			c := e.nilCond(p.err)
			p.ok = o.st.decide(c) != no
			if p.ok {
				// both answers may be possible
				p.st = o.st.clone()
				p.st.assume(c)
				if o.st.decide(c) != yes {
					q := *p
					q.st, q.ok = o.st.clone(), false
					q.st.assume(c.not())
					r = append(r, &q)
				}
			}
			r = append(r, p)
			continue
		}
		b, isB := o.res[0].(BoolV)
		if !isB {
			continue
		}
		for _, yn := range []bool{true, false} {
			c := b.c
			if !yn {
				c = c.not()
			}
			if o.st.decide(c) == no {
				continue
			}
			q := *p
			q.st, q.ok = o.st.clone(), yn
			if q.st.assume(c) {
				r = append(r, &q)
			}
		}
	}
	return
}

func (p *hdrPath) byteSym(e *Engine, i int64) Sym {
	return e.byteSym(p.doc.base, 0, p.st.norm(p.doc.off.addc(i)))
}

// magic is the first four bytes as a number.
func (p *hdrPath) magic(e *Engine) Lin {
	// the bytes as they were at entry
	var v bitvec
	for i := 0; i < 4; i++ {
		b := e.vec(symLin(p.byteSym(e, int64(i))))
		copy(v[8*i:8*i+8], b[:8])
	}
	return e.fromBits(p.st, &v, types.Typ[types.Uint32])
}

func (e *Engine) leBytes(st *State, s SliceV, n int, big bool, t types.Type) Lin {
	var v bitvec
	for i := 0; i < n; i++ {
		b := e.lin(e.load(st, e.elemPtr(s, constLin(int64(i))), types.Typ[types.Byte]))
		bv := e.vec(b)
		sh := i
		if big {
			sh = n - 1 - i
		}
		for j := 0; j < 8; j++ {
			v[8*sh+j] = bv[j]
		}
	}
	return e.fromBits(st, &v, t)
}

// isMagic: the path is only taken for this magic.
func (p *hdrPath) isMagic(e *Engine, m int64) bool {
	l := p.magic(e).addc(-m)
	if p.st.decide(&Cond{k: cEq, l: l}) == yes {
		return true
	}
	for i := int64(0); i < 4; i++ {
		d := p.st.domOf(p.byteSym(e, i)).members()
		if len(d) != 1 || int64(d[0]) != m>>(8*i)&255 {
			return false
		}
	}
	return true
}

// withMagic restricts the path to documents with this magic; nil if impossible.
func (p *hdrPath) withMagic(e *Engine, m int64) *State {
	l := p.magic(e).addc(-m)
	if p.st.decide(&Cond{k: cEq, l: l}) == no {
		return nil
	}
	st := p.st.clone()
	if !st.assume(&Cond{k: cEq, l: l}) {
		return nil
	}
	for i := int64(0); i < 4; i++ {
		var d dset
		d.put(int(m >> (8 * i) & 255))
		if !st.assume(&Cond{k: cTab, s: p.byteSym(e, i), set: d}) {
			return nil
		}
	}
	return st
}

// kinds are the values the byte after the magic has on the path.
func (p *hdrPath) kinds(e *Engine, st *State) []int {
	return st.domOf(p.byteSym(e, 4)).members()
}

func validPair(m int64, v int) bool {
	return m == magicOld && (v == 1 || v == 2) || m == magicHigh && (v == 3 || v == 4)
}

// headerBroken: the length of the header was found to be invalid on the path.
func (p *hdrPath) headerBroken(e *Engine) bool {
	for _, ev := range p.st.ev.list() {
		if ev.k != evCall || ev.call.name != "varint" {
			continue
		}
		s, ok := ev.call.args[0].(SliceV)
		if !ok || s.base != p.doc.base {
			continue
		}
		if d := p.st.norm(s.off.sub(p.doc.off).addc(-5)); !d.isConst() || d.c != 0 {
			continue
		}
		n, sz := e.lin(ev.call.res[0]), e.lin(ev.call.res[1])
		if len(ev.call.res) > 2 && p.st.decide(e.nilCond(ev.call.res[2])) != yes {
			return true
		}
		if p.st.entails(n.neg().addc(-1)) || p.st.entails(n.add(sz).addc(5).sub(p.doc.ln).addc(-1)) {
			return true
		}
	}
	return false
}

var docEntries = []string{"(*Decoder).UnmarshalHeaderBody", "(*Decoder).Unmarshal", "(*Decoder).UnmarshalHeader", "Unmarshal", "DecompressDocument", "(*Merger).Append"}

func forEntries(r *Report, names []string, f func(e *Engine, fn *ssa.Function, ps []*hdrPath)) {
	forVariants(r, bothVariants, func(p *Program) {
		e := bare(p)
		for _, n := range names {
			fn := e.findFunc(n)
			if fn == nil {
				r.undecided("anchor:"+n, "exported function %s is gone", n)
				continue
			}
			ps := headerPaths(e, fn)
			if len(ps) == 0 {
				r.undecided("paths:"+n, "%s takes no document", n)
				continue
			}
			r.sample(map[string]interface{}{"function": n, "paths": len(ps), "variant": p.Variant})
			f(e, fn, ps)
		}
		for _, l := range e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
	})
	r.Trusted = append(r.Trusted, libTrust...)
	r.Assumptions = append(r.Assumptions, sizeAssume...)
}

func init() {
	checks["C12"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every accepting path of every exported function that takes a document, the first four bytes must be entailed to be one of the two valid magics and every value the next byte can have must carry a version valid for that magic. Paths that can be taken for the UTF-8 damaged magic must return ErrBadHeaderUTF8. The header probe must answer yes on the paths taken for valid headers."
		forEntries(r, append([]string{"LooksLikeSereal"}, docEntries...), func(e *Engine, fn *ssa.Function, ps []*hdrPath) {
			probe := fname(fn) == "LooksLikeSereal"
			v := e.p.Variant
			seen := map[string]bool{}
			for _, p := range ps {
				at := e.pos(p.o.at)
				if p.ok {
					var m int64
					for _, x := range []int64{magicOld, magicHigh} {
						if p.isMagic(e, x) {
							m = x
						}
					}
					r.check(m != 0, "magic", fname(fn), at, "%s accepts a document whose magic was not compared with a valid one (%s)", fname(fn), v)
					if m == 0 {
						continue
					}
					if probe {
						for _, k := range p.kinds(e, p.st) {
							ok := validPair(m, k&15) || m == magicHigh && k&15 > 4
							r.check(ok, "version", fmt.Sprintf("%s:%#x:%d", fname(fn), m, k&15), at, "%s takes a document of version %d with magic %#x for one of Sereal (%s)", fname(fn), k&15, m, v)
						}
						continue
					}
					for _, k := range p.kinds(e, p.st) {
						ok := validPair(m, k&15)
						r.check(ok, "version", fmt.Sprintf("%s:%#x:%d", fname(fn), m, k&15), at, "%s accepts version %d with magic %#x (%s)", fname(fn), k&15, m, v)
						seen[fmt.Sprintf("%#x:%d", m, k&15)] = true
					}
					continue
				}
				if st := p.withMagic(e, magicUTF8); st != nil && st.assume(&Cond{k: cGe, l: p.doc.ln.addc(-7)}) && p.err != nil && !p.beforeHeader(e) {
					r.check(e.isGlobal(st, p.err, "ErrBadHeaderUTF8"), "utf8", fname(fn), at, "%s does not report a UTF-8 damaged magic as such (%s)", fname(fn), v)
				}
				if probe {
					why := ""
					if !p.headerBroken(e) && !p.st.entails(p.doc.ln.neg().addc(6)) {
						for _, m := range []int64{magicOld, magicHigh} {
							if st := p.withMagic(e, m); st != nil && st.assume(&Cond{k: cGe, l: p.doc.ln.addc(-7)}) {
								for _, k := range p.kinds(e, st) {
									if validPair(m, k&15) {
										why = fmt.Sprintf("a header with magic %#x and version %d", m, k&15)
									}
								}
							}
						}
					}
					r.check(why == "", "probe", fname(fn), at, "%s denies %s (%s)", fname(fn), why, v)
				}
			}
			if !probe {
				for _, s := range []string{"0x6c72733d:1", "0x6c72733d:2", "0x6c72f33d:3", "0x6c72f33d:4"} {
					r.check(seen[s], "accepts", fname(fn)+":"+s, e.posOf(fn.Pos(), fn), "%s accepts no document with magic and version %s (%s)", fname(fn), s, v)
				}
			}
		})
		r.atLeast("magic", 20)
		r.atLeast("utf8", 7)
		r.atLeast("probe", 3)
	}
}

// frame is what a document's compressed body looked like to the code.
type frame struct {
	codec string // "", snappy, zlib or zstd
	call  *CallEv
	lens  []Lin // the lengths read in front of the payload
	why   string
	out   []Value // what the codec produced
}

// bodyAt is where the header says that the body starts.
func (p *hdrPath) bodyAt(e *Engine) (Lin, bool) {
	for _, ev := range p.st.ev.list() {
		if ev.k != evCall || ev.call.name != "varint" {
			continue
		}
		s, ok := ev.call.args[0].(SliceV)
		if !ok || s.base != p.doc.base {
			continue
		}
		if d := p.st.norm(s.off.sub(p.doc.off).addc(-5)); d.isConst() && d.c == 0 {
			return e.lin(ev.call.res[0]).add(e.lin(ev.call.res[1])).addc(5), true
		}
	}
	return Lin{}, false
}

// unframe follows the decompression of the body.
func (p *hdrPath) unframe(e *Engine) (f frame) {
	body, ok := p.bodyAt(e)
	if !ok {
		f.why = "the header length is not read"
		return
	}
	st := p.st
	same := func(a, b Lin) bool {
		d := st.norm(a.sub(b))
		return d.isConst() && d.c == 0 || st.decide(&Cond{k: cEq, l: d}) == yes
	}
	cur := body
	n := 0
	for _, ev := range st.ev.list() {
		if ev.k != evCall {
			continue
		}
		c := ev.call
		if c.name == "varint" && f.codec == "" {
			if s, ok := c.args[0].(SliceV); ok && s.base == p.doc.base && same(s.off.sub(p.doc.off), cur) && same(s.off.add(s.ln), p.doc.off.add(p.doc.ln)) {
				f.lens = append(f.lens, e.lin(c.res[0]))
				cur = cur.add(e.lin(c.res[1]))
			}
			continue
		}
		codec := decoders[c.name]
		if codec == "" {
			continue
		}
		n++
		f.codec, f.call = codec, c
		f.out = c.res
		src, ok := e.codecInput(st, c)
		switch {
		case n > 1:
			f.why = "more than one decompression"
		case !ok || src.base != p.doc.base:
			f.why = "what is decompressed is not part of the document"
		case !same(src.off.sub(p.doc.off), cur):
			f.why = "what is decompressed does not start where the payload does"
		case len(f.lens) == 0 && !same(src.off.add(src.ln), p.doc.off.add(p.doc.ln)):
			f.why = "what is decompressed does not extend to the end of the document"
		case len(f.lens) > 0 && !same(src.ln, f.lens[len(f.lens)-1]):
			f.why = "what is decompressed does not have the declared length"
		}
	}
	if f.codec == "" {
		f.lens = nil
	}
	return
}

// decoders are the library functions that decompress.
var decoders = map[string]string{
	"github.com/golang/snappy.Decode":    "snappy",
	"compress/zlib.NewReader":            "zlib",
	"github.com/DataDog/zstd.Decompress": "zstd",
}

// codecInput is the compressed data a decompressing call is given.
func (e *Engine) codecInput(st *State, c *CallEv) (SliceV, bool) {
	a := c.args[len(c.args)-1]
	if s, ok := a.(SliceV); ok {
		return s, true
	}
	if pv, ok := ptrOf(a).(PtrV); ok && pv.obj != nil {
		s, ok := st.heap[cellKey{pv.obj, "#bytes"}].(SliceV)
		return s, ok
	}
	return SliceV{}, false
}

// readsBody: something reads the document itself where its body is.
func (p *hdrPath) readsBody(e *Engine) bool {
	body, ok := p.bodyAt(e)
	if !ok {
		return false
	}
	for _, ev := range p.st.ev.list() {
		if ev.k != evCall || ev.call.fn == nil || e.cuts[ev.call.fn] == nil {
			continue
		}
		for i, a := range ev.call.args {
			s, ok := a.(SliceV)
			if !ok || s.base != p.doc.base {
				continue
			}
			at := s.off.sub(p.doc.off)
			if i+1 < len(ev.call.args) {
				if n, ok := ev.call.args[i+1].(IntV); ok {
					at = at.add(n.l)
				}
			}
			if p.st.entails(at.sub(body)) {
				return true
			}
		}
	}
	return false
}

// produced is the uncompressed body.
func (p *hdrPath) produced(e *Engine, f frame) (SliceV, string) {
	if f.codec != "zlib" {
		s, ok := f.out[0].(SliceV)
		if !ok {
			return s, "what the library produces is unknown"
		}
		return s, ""
	}
	zr := valKey(f.out[0])
	dest := ""
	after := false
	for _, ev := range p.st.ev.list() {
		if ev.k != evCall {
			continue
		}
		c := ev.call
		if c == f.call {
			after = true
		}
		if !after {
			continue
		}
		reads := false
		for _, a := range c.args {
			if valKey(ptrOf(a)) == zr {
				reads = true
			}
		}
		switch {
		case reads && c.name == "(*bytes.Buffer).ReadFrom":
			dest = ptrKey(c.args[0])
		case reads && c.name == "io.Copy":
			dest = ptrKey(c.args[0])
		case reads && (c.name == "io.ReadAll" || c.name == "io/ioutil.ReadAll"):
			if s, ok := c.res[0].(SliceV); ok {
				return s, ""
			}
		case c.name == "(*bytes.Buffer).Bytes" && dest != "" && ptrKey(c.args[0]) == dest:
			if s, ok := c.res[0].(SliceV); ok {
				return s, ""
			}
		}
	}
	return SliceV{}, "what the library produces is not read to its end"
}

// handsOn checks that the uncompressed body is what is used from then on.
func (p *hdrPath) handsOn(e *Engine, f frame) string {
	out, why := p.produced(e, f)
	if why != "" {
		return why
	}
	st := p.st
	same := func(a, b Lin) bool {
		d := st.norm(a.sub(b))
		return d.isConst() && d.c == 0 || st.decide(&Cond{k: cEq, l: d}) == yes
	}
	// tail: the slice ends with all of the output, which starts at the result
	tail := func(s SliceV) (Lin, bool) {
		if s.base == out.base {
			return s.off.sub(out.off).neg(), same(s.off.add(s.ln), out.off.add(out.ln))
		}
		t := s.log
		if t == nil || t.k != tBytes || t.v == nil || t.v.base != out.base || !same(t.v.off, out.off) || !same(t.v.ln, out.ln) {
			return Lin{}, false
		}
		return t.at.sub(s.skip), true
	}
	body, _ := p.bodyAt(e)
	if len(p.o.res) > 0 {
		if s, ok := p.o.res[0].(SliceV); ok {
			at, ok := tail(s)
			switch {
			case !ok:
				return "the result does not end with the uncompressed body"
			case !same(at, body):
				return "the uncompressed body is not where the header ends"
			}
			return ""
		}
	}
	after := false
	for _, ev := range st.ev.list() {
		if ev.k != evCall {
			continue
		}
		if ev.call == f.call {
			after = true
		}
		if !after || ev.call.fn == nil || e.cuts[ev.call.fn] == nil {
			continue
		}
		args := ev.call.args
		for i, a := range args {
			switch a := a.(type) {
			case SliceV:
				at, ok := tail(a)
				if !ok {
					continue
				}
				idx := Lin{}
				if i+1 < len(args) {
					if n, ok := args[i+1].(IntV); ok {
						idx = n.l
					}
				}
				if same(idx, at) {
					return ""
				}
				return "reading does not start where the uncompressed body does"
			case PtrV:
				if a.obj == nil {
					continue
				}
				for k, v := range st.heap {
					if s, ok := v.(SliceV); ok && k.o == a.obj && isByte(s.elem) {
						if at, ok := tail(s); ok && same(at, Lin{}) {
							return ""
						}
					}
				}
			}
		}
	}
	return "the uncompressed body is not what is read"
}

// validType: the specification knows this body type in this version.
func validType(t, v int) bool {
	switch t {
	case 0, 2:
		return true
	case 1:
		return v == 1
	case 3:
		return v >= 3
	case 4:
		return v >= 4
	}
	return false
}

var typeCodec = map[int]string{1: "snappy", 2: "snappy", 3: "zlib", 4: "zstd"}
var typeLens = map[int]int{1: 0, 2: 1, 3: 2, 4: 1}

func init() {
	checks["C13"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every accepting path of every exported function that takes a document, each document type and version its type byte can have must be a combination the specification knows; the one decompression on the path must be by the library of the codec assigned to the type, preceded by as many length fields as it has; raw bodies must not be decompressed and compressed ones not read as they are. Each valid combination must have an accepting path."
		forEntries(r, docEntries, func(e *Engine, fn *ssa.Function, ps []*hdrPath) {
			v := e.p.Variant
			seen := map[string]bool{}
			whole := fname(fn) == "DecompressDocument" || strings.HasSuffix(fname(fn), ".Append")
			for _, p := range ps {
				if !p.ok {
					continue
				}
				at := e.pos(p.o.at)
				f := p.unframe(e)
				raw := p.readsBody(e)
				for _, k := range p.kinds(e, p.st) {
					ver, t := k&15, k>>4
					key := fmt.Sprintf("%s:%d:%d", fname(fn), t, ver)
					if ver < 1 || ver > 4 {
						continue // C12
					}
					r.check(validType(t, ver), "type", key, at, "%s accepts document type %d in version %d (%s)", fname(fn), t, ver, v)
					if !validType(t, ver) {
						continue
					}
					why := ""
					switch {
					case t == 0 && f.codec != "":
						why = "decompresses a raw body with " + f.codec
					case t == 0:
					case f.codec == "" && (raw || whole):
						why = "takes a compressed body as it is"
					case f.codec == "":
						continue // the body is not looked at
					case f.codec != typeCodec[t]:
						why = "decompresses it with " + f.codec
					case len(f.lens) != typeLens[t]:
						why = fmt.Sprintf("expects %d length fields before the payload, not %d", len(f.lens), typeLens[t])
					}
					r.check(why == "", "codec", key, at, "document type %d of version %d: %s %s (%s)", t, ver, fname(fn), why, v)
					seen[fmt.Sprintf("%d:%d", t, ver)] = true
				}
			}
			if strings.HasSuffix(fname(fn), ".UnmarshalHeader") {
				return
			}
			for t := 0; t <= 4; t++ {
				for ver := 1; ver <= 4; ver++ {
					if !validType(t, ver) || t == 4 && v == "default" {
						continue
					}
					s := fmt.Sprintf("%d:%d", t, ver)
					r.check(seen[s], "accepts", fname(fn)+":"+s, e.posOf(fn.Pos(), fn), "%s accepts no document of type %d in version %d (%s)", fname(fn), t, ver, v)
				}
			}
		})
		r.atLeast("type", 60)
		r.atLeast("codec", 60)
	}
	checks["C29"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Reading: on every accepting path of every exported function that takes a document, the data given to the decompression library must be exactly what follows the length fields that start where the header ends, of the length the last field declares (all the rest if there is none), and what the library produces must be handed on in full as the body. Writing: in every document returned, the body must consist of the length fields of the codec, each entailed to equal the length of the data it describes, followed by all of the library's output; what is compressed must be the whole body. Each compressor is judged by itself too, whether or not a document can be written with it."
		forEntries(r, docEntries, func(e *Engine, fn *ssa.Function, ps []*hdrPath) {
			for _, p := range ps {
				if !p.ok {
					continue
				}
				if f := p.unframe(e); f.codec != "" {
					r.check(f.why == "", "unframe", fname(fn)+":"+f.codec, e.pos(p.o.at), "%s: %s (%s)", fname(fn), f.why, e.p.Variant)
					why := p.handsOn(e, f)
					r.check(why == "", "body", fname(fn)+":"+f.codec, e.pos(p.o.at), "%s: %s (%s)", fname(fn), why, e.p.Variant)
				}
			}
		})
		r.atLeast("unframe", 30)
		r.atLeast("body", 30)
		packing(r)
		codecFraming(r)
	}
}

// beforeHeader: the call was refused before the document was looked at.
func (p *hdrPath) beforeHeader(e *Engine) bool {
	for i := int64(0); i < 5; i++ {
		if len(p.st.domOf(p.byteSym(e, i)).members()) != 256 {
			return false
		}
	}
	for _, ev := range p.st.ev.list() {
		if ev.k != evCall {
			continue
		}
		for _, a := range ev.call.args {
			if s, ok := a.(SliceV); ok && s.base == p.doc.base {
				return false
			}
		}
	}
	return true
}

// isGlobal: v is the value of a package variable.
func (e *Engine) isGlobal(st *State, v Value, name string) bool {
	g, ok := e.p.Pkg.Members[name].(*ssa.Global)
	if !ok {
		return false
	}
	x := e.load(st, PtrV{obj: e.global(g), elem: g.Type().(*types.Pointer).Elem()}, g.Type().(*types.Pointer).Elem())
	return valKey(x) == valKey(v)
}
