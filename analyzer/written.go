package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14, C29: the header and the framing of the documents that are written.

// packed is a use of a compression library.
type packed struct {
	codec string
	call  *CallEv
	in    SliceV // what was compressed
	out   SliceV // the result
	why   string
}

var packers = map[string]string{
	"github.com/golang/snappy.Encode":       "snappy",
	"(*compress/zlib.Writer).Write":         "zlib",
	"github.com/DataDog/zstd.Compress":      "zstd",
	"github.com/DataDog/zstd.CompressLevel": "zstd",
}

// packings lists the compressions on a path.
func (e *Engine) packings(st *State) (r []packed) {
	var evs []*CallEv
	for _, ev := range st.ev.list() {
		if ev.k == evCall {
			evs = append(evs, ev.call)
		}
	}
	for i, c := range evs {
		codec := packers[c.name]
		if codec == "" {
			continue
		}
		p := packed{codec: codec, call: c}
		in, ok := c.args[len(c.args)-1].(SliceV)
		if codec == "zstd" {
			in, ok = c.args[1].(SliceV)
		}
		if !ok {
			p.why = "what is compressed is unknown"
			r = append(r, p)
			continue
		}
		p.in = *e.contentOf(st, in)
		if codec != "zlib" {
			p.out, ok = c.res[0].(SliceV)
			if !ok {
				p.why = "the compressed data are unknown"
			}
			r = append(r, p)
			continue
		}
		// the data are what ends up in the writer's destination
		zw := valKey(c.args[0])
		dest := ""
		for _, x := range evs[:i] {
			switch {
			case x.name == "(*compress/zlib.Writer).Reset" && valKey(x.args[0]) == zw:
				dest = ptrKey(x.args[1])
			case strings.HasPrefix(x.name, "compress/zlib.NewWriter") && len(x.res) > 0 && valKey(x.res[0]) == zw:
				dest = ptrKey(x.args[0])
			}
		}
		closed, found := false, false
		for _, x := range evs[i+1:] {
			switch {
			case x.name == "(*compress/zlib.Writer).Close" && valKey(x.args[0]) == zw:
				closed = true
			case x.name == "(*bytes.Buffer).Bytes" && ptrKey(x.args[0]) == dest && dest != "":
				found = true
				if !closed {
					p.why = "the compressed data are taken before the compressor is closed"
				}
				p.out = x.res[0].(SliceV)
			}
		}
		if !found {
			p.why = "the compressed data are not taken from the compressor's destination"
		}
		r = append(r, p)
	}
	return
}

func ptrKey(v Value) string {
	if p, ok := ptrOf(v).(PtrV); ok && p.obj != nil {
		return p.obj.key + p.path
	}
	return "?" + valKey(v)
}

// written is the document an accepting path returns.
type written struct {
	st     *State
	o      Outcome
	doc    SliceV
	head   [5]Lin
	why    string
	begin  Lin    // where the body starts
	hdr    []*Tok // what the user header consists of
	body   []*Tok // what the body consists of
	packs  []packed
	noHead bool // the beginning of the document was there before the call
}

// writtenBy lists the documents returned by an exported function.
func (e *Engine) writtenBy(fn *ssa.Function) (r []*written, args []Value) {
	var outs []Outcome
	outs, args = e.runEntryArgs(fn)
	ei := errIndex(fn)
	for _, o := range outs {
		if o.panic {
			continue
		}
		st := o.st
		if ei >= 0 {
			if st.decide(e.nilCond(o.res[ei])) == no {
				continue
			}
			st = st.clone()
			if !st.assume(e.nilCond(o.res[ei])) {
				continue
			}
		}
		w := &written{st: st, o: o}
		r = append(r, w)
		doc, ok := o.res[0].(SliceV)
		if !ok {
			w.why = "the result is unknown"
			continue
		}
		w.doc = doc
		for i := range w.head {
			w.head[i] = st.norm(e.lin(e.load(st, e.elemPtr(doc, constLin(int64(i))), types.Typ[types.Byte])))
		}
		w.packs = e.packings(st)
		w.split(e)
	}
	return
}

// split finds the end of the header and the parts of the body.
func (w *written) split(e *Engine) {
	st := w.st
	toks := w.doc.log.list()
	if len(toks) == 0 || toks[0].k != tStart || !w.doc.skip.isConst() || w.doc.skip.c != 0 {
		w.why = "the document is not built in order"
		return
	}
	same := func(a, b Lin) bool {
		d := st.norm(a.sub(b))
		return d.isConst() && d.c == 0 || st.decide(&Cond{k: cEq, l: d}) == yes
	}
	if toks[0].v != nil && toks[0].v.base.input {
		w.noHead = true
		w.begin = st.norm(toks[0].n)
		w.body = toks[1:]
		return
	}
	five, k := constLin(0), 0
	for k < len(toks) && five.isConst() && five.c < 5 {
		five = st.norm(five.add(toks[k].n))
		k++
	}
	if !five.isConst() || five.c != 5 || k >= len(toks) {
		w.why = "the document does not start with five bytes"
		return
	}
	t := toks[k]
	var l Lin
	switch t.k {
	case tVarint, tByte:
		l = st.norm(t.l)
	default:
		w.why = "the length of the header is not written after the type"
		return
	}
	if t.k == tByte && !(l.isConst() && l.c < 128) {
		w.why = "the length of the header is not a varint"
		return
	}
	at := st.norm(t.n.addc(5))
	end := at.add(l)
	i := k + 1
	for ; i < len(toks) && !same(at, end); i++ {
		at = st.norm(at.add(toks[i].n))
	}
	if !same(at, end) {
		w.why = "the header does not have the length that is written"
		return
	}
	w.begin = st.norm(end)
	w.hdr = toks[k+1 : i]
	w.body = toks[i:]
}

// values lists the values a byte of the header may have.
func (w *written) values(e *Engine, i int) []int {
	l := w.head[i]
	if l.isConst() {
		return []int{int(l.c)}
	}
	var r []int
	for v := 0; v < 256; v++ {
		if w.st.decide(&Cond{k: cEq, l: l.addc(int64(-v))}) != no {
			r = append(r, v)
		}
	}
	return r
}

// unexported integer fields only ever hold the constants the package stores
// in them.
func (e *Engine) fieldConsts(t *types.Named, field string) (vals []int64, ok bool) {
	set := map[int64]bool{0: true}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, isF := in.(*ssa.FieldAddr)
				if !isF || fa.X.Type().Underlying().(*types.Pointer).Elem() != types.Type(t) {
					continue
				}
				st := t.Underlying().(*types.Struct)
				if st.Field(fa.Field).Name() != field {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						c, isC := x.Val.(*ssa.Const)
						if x.Addr != ssa.Value(fa) || !isC || c.Value == nil || c.Value.Kind() != constant.Int {
							return nil, false
						}
						set[c.Int64()] = true
					default:
						return nil, false
					}
				}
			}
		}
	}
	for v := range set {
		vals = append(vals, v)
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i] < vals[j] })
	return vals, true
}

// eachVersion splits the entry state by the version a receiver was made for.
func (e *Engine) eachVersion(st *State, fn *ssa.Function, args []Value) []*State {
	if fn.Signature.Recv() == nil {
		return []*State{st}
	}
	p, ok := args[0].(PtrV)
	if !ok {
		return []*State{st}
	}
	n, ok := p.elem.(*types.Named)
	if !ok {
		return []*State{st}
	}
	f := e.versionField(n)
	if f == "" {
		return []*State{st}
	}
	vals, _ := e.fieldConsts(n, f)
	var r []*State
	for _, v := range vals {
		s := st.clone()
		s.heap[cellKey{p.obj, p.path + "." + f}] = IntV{constLin(v)}
		r = append(r, s)
	}
	return r
}

func (e *Engine) dumpOut(fn *ssa.Function) {
	outs, _ := e.runEntryArgs(fn)
	ei := errIndex(fn)
	for _, o := range outs {
		if o.panic || ei >= 0 && o.st.decide(e.nilCond(o.res[ei])) == no {
			continue
		}
		r, ok := o.res[0].(SliceV)
		if !ok {
			fmt.Println("?", o.res[0])
			continue
		}
		fmt.Println("OUT", e.pos(o.at), valKey(r), e.syms.str(o.st.norm(r.ln)))
		for i := 0; i < 5; i++ {
			l := e.lin(e.load(o.st, e.elemPtr(r, constLin(int64(i))), types.Typ[types.Byte]))
			fmt.Print("  ", e.syms.str(o.st.norm(l)))
		}
		fmt.Println()
		for _, t := range r.log.list() {
			fmt.Print("   k", t.k, " n=", e.syms.str(o.st.norm(t.n)), " at=", e.syms.str(o.st.norm(t.at)))
			if t.v != nil {
				fmt.Print(" v=", valKey(*t.v))
			}
			if t.val != nil {
				fmt.Print(" val=", valKey(t.val))
			}
			if t.call != nil {
				fmt.Print(" call=", t.call.name, t.call.fn)
			}
			fmt.Println()
		}
	}
}

// versionField is the unexported field of a type that holds a protocol
// version.
func (e *Engine) versionField(t *types.Named) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	found := ""
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Exported() || !isInt(f.Type()) {
			continue
		}
		vals, ok := e.fieldConsts(t, f.Name())
		if ok && len(vals) >= 2 && vals[len(vals)-1] <= 4 && vals[0] >= 0 {
			found = f.Name()
		}
	}
	return found
}

// docHead is what the first five bytes say.
type docHead struct {
	magic int64
	ver   int
	typ   int
}

// heads lists what the header of a document may say.
func (w *written) heads(e *Engine, recv Value) (r []docHead, why string) {
	if w.noHead {
		// the merger wrote the header earlier: the version stays, the type is
		// added to it
		p, ok := recv.(PtrV)
		if !ok {
			return nil, "the receiver is unknown"
		}
		n, _ := p.elem.(*types.Named)
		f := ""
		if n != nil {
			f = e.versionField(n)
		}
		if f == "" {
			return nil, "the version of the document is unknown"
		}
		l := e.lin(e.load(w.st, PtrV{obj: p.obj, path: p.path + "." + f, elem: types.Typ[types.Int]}, types.Typ[types.Int]))
		s, fn, ok := e.byteFn(w.head[4])
		if !ok || !strings.HasSuffix(e.syms.name(s), "[4]") {
			return nil, "the type of the document does not derive from the byte after the magic: " + e.syms.str(w.st.norm(w.head[4]))
		}
		for v := 1; v <= 4; v++ {
			if w.st.decide(&Cond{k: cEq, l: l.addc(int64(-v))}) == no {
				continue
			}
			k := int(fn(v))
			if k&15 != v {
				return nil, "the version of the document changes"
			}
			m := int64(magicOld)
			if v >= 3 {
				m = magicHigh
			}
			r = append(r, docHead{m, v, k >> 4})
		}
		return r, ""
	}
	var m int64
	for i := 0; i < 4; i++ {
		if !w.head[i].isConst() {
			return nil, "the magic is not a constant"
		}
		m |= w.head[i].c << (8 * i)
	}
	for _, k := range w.values(e, 4) {
		r = append(r, docHead{m, k & 15, k >> 4})
	}
	return r, ""
}

// pack is the compression the body is the result of.
func (w *written) pack() *packed {
	for _, t := range w.body {
		if t.k != tBytes || t.v == nil {
			continue
		}
		for i := range w.packs {
			if w.packs[i].out.base != nil && w.packs[i].out.base == t.v.base {
				return &w.packs[i]
			}
		}
	}
	return nil
}

var writers14 = []string{"Marshal", "(*Encoder).Marshal", "(*Encoder).MarshalWithHeader", "(*Merger).Finish"}

func forWriters(r *Report, f func(e *Engine, fn *ssa.Function, args []Value, ws []*written)) {
	forVariants(r, bothVariants, func(p *Program) {
		e := bare(p)
		e.onEntry = e.eachVersion
		for _, n := range writers14 {
			fn := e.findFunc(n)
			if fn == nil {
				r.undecided("anchor:"+n, "exported function %s is gone", n)
				continue
			}
			ws, args := e.writtenBy(fn)
			r.sample(map[string]interface{}{"function": n, "documents": len(ws), "variant": p.Variant})
			f(e, fn, args, ws)
		}
		for _, l := range e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
	})
	r.Trusted = append(r.Trusted, libTrust...)
	r.Assumptions = append(r.Assumptions, sizeAssume...)
}

func init() {
	checks["C14"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "On every path on which an exported function returns a written document, the first four bytes must be constants, every value of the fifth must name a version that goes with that magic and a type the specification knows in that version, the length written after it must be that of the header that follows, and the body must contain the output of the compression library of that type, or of none for type zero. The path must have established that the threshold is zero or reached before compressing."
		forWriters(r, func(e *Engine, fn *ssa.Function, args []Value, ws []*written) {
			v := e.p.Variant
			var recv Value
			if len(args) > 0 {
				recv = args[0]
			}
			for _, w := range ws {
				at := e.pos(w.o.at)
				name := fname(fn)
				r.check(w.why == "", "layout", name, at, "%s: %s (%s)", name, w.why, v)
				if w.why != "" {
					continue
				}
				hs, why := w.heads(e, recv)
				r.check(why == "", "header", name, at, "%s: %s (%s)", name, why, v)
				p := w.pack()
				for _, h := range hs {
					key := fmt.Sprintf("%s:%d:%d", name, h.ver, h.typ)
					r.check(validPair(h.magic, h.ver), "magic", key, at, "%s writes version %d with magic %#x (%s)", name, h.ver, h.magic, v)
					why := ""
					switch {
					case !validType(h.typ, h.ver):
						why = fmt.Sprintf("writes document type %d in version %d", h.typ, h.ver)
					case h.typ == 0 && p != nil:
						why = "labels a body compressed with " + p.codec + " as raw"
					case h.typ != 0 && p == nil:
						why = fmt.Sprintf("labels a raw body as type %d", h.typ)
					case p != nil && typeCodec[h.typ] != p.codec:
						why = fmt.Sprintf("labels a body compressed with %s as type %d", p.codec, h.typ)
					case p != nil && len(w.body) != typeLens[h.typ]+1:
						why = fmt.Sprintf("writes type %d but frames the body in another way", h.typ)
					}
					r.check(why == "", "type", key, at, "%s %s (%s)", name, why, v)
				}
				if p != nil {
					rp, ok := recv.(PtrV)
					if !ok {
						continue
					}
					thr := e.lin(e.load(w.st, PtrV{obj: rp.obj, path: rp.path + ".CompressionThreshold", elem: types.Typ[types.Int]}, types.Typ[types.Int]))
					n := p.in.ln
					if strings.HasSuffix(name, ".Finish") {
						n = n.add(p.in.off)
					}
					good := w.st.decide(&Cond{k: cEq, l: thr}) == yes || w.st.entails(n.sub(thr))
					r.check(good, "threshold", name, at, "%s may compress a body below the threshold (%s)", name, v)
				}
			}
		})
		r.atLeast("type", 60)
		r.atLeast("threshold", 20)
	}
}

// packing checks the framing of written documents.
func packing(r *Report) {
	forWriters(r, func(e *Engine, fn *ssa.Function, args []Value, ws []*written) {
		for _, w := range ws {
			p := w.pack()
			if w.why != "" || p == nil {
				continue
			}
			name := fname(fn)
			why := p.why
			if why == "" {
				why = w.framed(e, p)
			}
			if why == "" {
				why = w.whole(e, p)
			}
			r.check(why == "", "frame", name+":"+p.codec, e.pos(w.o.at), "%s, %s: %s (%s)", name, p.codec, why, e.p.Variant)
		}
	})
	r.atLeast("frame", 20)
}

// framed: the body is the length fields and all of the compressed data.
func (w *written) framed(e *Engine, p *packed) string {
	st := w.st
	same := func(a, b Lin) bool {
		d := st.norm(a.sub(b))
		return d.isConst() && d.c == 0 || st.decide(&Cond{k: cEq, l: d}) == yes
	}
	n := len(w.body)
	last := w.body[n-1]
	if last.k != tBytes || last.v == nil || last.v.base != p.out.base {
		return "something follows the compressed data"
	}
	if !same(last.v.off, p.out.off) || !same(last.v.ln, p.out.ln) || !same(last.n, p.out.ln) {
		return "not all of the compressed data are written"
	}
	for i, t := range w.body[:n-1] {
		want := p.out.ln
		if p.codec == "zlib" && i == 0 {
			want = p.in.ln
		}
		if t.k != tVarint && t.k != tByte {
			return "something other than length fields precedes the compressed data"
		}
		if !same(t.l, want) {
			return fmt.Sprintf("length field %d is not the length of the data", i+1)
		}
	}
	return ""
}

// whole: what was compressed is the whole body.
func (w *written) whole(e *Engine, p *packed) string {
	st := w.st
	same := func(a, b Lin) bool {
		d := st.norm(a.sub(b))
		return d.isConst() && d.c == 0 || st.decide(&Cond{k: cEq, l: d}) == yes
	}
	if w.noHead {
		// everything after the header the document had
		if v := w.doc.log.list()[0].v; p.in.base != v.base {
			return "what is compressed is not the body"
		}
		if !same(p.in.off, w.begin) {
			return "what is compressed does not start where the body does"
		}
		full := e.syms.ranged("len("+strings.TrimSuffix(strings.TrimPrefix(p.in.base.key, "mem("), ")")+")", 0, maxLen)
		if !same(p.in.off.add(p.in.ln), symLin(full)) {
			return "what is compressed does not extend to the end of the body"
		}
		return ""
	}
	for _, ev := range st.ev.list() {
		if ev.k != evCall || ev.call.fn == nil || len(ev.call.res) == 0 {
			continue
		}
		res, ok := ev.call.res[0].(SliceV)
		if !ok || res.base != p.in.base {
			continue
		}
		if !same(res.off.add(res.ln), p.in.off.add(p.in.ln)) {
			return "what is compressed does not extend to the end of the body"
		}
		for _, a := range ev.call.args {
			if s, ok := a.(SliceV); ok && !s.str && isByte(s.elem) {
				cut := p.in.off.sub(res.off)
				if same(cut, s.ln) || same(cut, constLin(0)) && st.entails(s.ln.sub(res.ln).addc(-1)) {
					return ""
				}
				return "what is compressed does not start where the body does"
			}
		}
	}
	return ""
}

// codecMethods are the methods with which types implement a compressor: the
// ones that call a compression library.
func (e *Engine) codecMethods() (r []*ssa.Function) {
	reach := map[*ssa.Function]int{}
	var packs func(f *ssa.Function) bool
	packs = func(f *ssa.Function) bool {
		if v := reach[f]; v != 0 {
			return v == 2
		}
		reach[f] = 1
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g != nil && (packers[fname(g)] != "" || packers[g.String()] != "" || g.Pkg == f.Pkg && packs(g)) {
					reach[f] = 2
				}
			}
		}
		return reach[f] == 2
	}
	for _, f := range e.p.Funcs {
		s := f.Signature
		if s.Recv() == nil || f.Synthetic != "" || f.Parent() != nil || s.Params().Len() != 1 || s.Results().Len() != 2 || errIndex(f) != 1 {
			continue
		}
		if !isBytes(s.Params().At(0).Type()) || !isBytes(s.Results().At(0).Type()) || !packs(f) {
			continue
		}
		for i := range f.Pkg.Members {
			t, ok := f.Pkg.Members[i].(*ssa.Type)
			if !ok {
				continue
			}
			it, ok := t.Type().Underlying().(*types.Interface)
			if !ok || !types.Implements(s.Recv().Type(), it) {
				continue
			}
			if m, _, _ := types.LookupFieldOrMethod(it, false, f.Pkg.Pkg, f.Name()); m != nil {
				r = append(r, f)
				break
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}

// codecLens are the numbers of length fields that frame a codec's data.
var codecLens = map[string][]int{"snappy": {0, 1}, "zlib": {2}, "zstd": {1}}

// codecFraming checks each codec by itself.
func codecFraming(r *Report) {
	forVariants(r, bothVariants, func(p *Program) {
		e := bare(p)
		for _, fn := range e.codecMethods() {
			outs, args := e.runEntryArgs(fn)
			arg, isS := args[len(args)-1].(SliceV)
			for _, o := range outs {
				if o.panic || o.st.decide(e.nilCond(o.res[1])) == no {
					continue
				}
				w := &written{st: o.st, o: o}
				why := ""
				packs := e.packings(o.st)
				res, ok := o.res[0].(SliceV)
				switch {
				case len(packs) != 1:
					why = fmt.Sprintf("%d compressions on one path", len(packs))
				case packs[0].why != "":
					why = packs[0].why
				case !ok || !isS:
					why = "the result is unknown"
				}
				codec := ""
				if why == "" {
					pk := &packs[0]
					codec = pk.codec
					for _, t := range res.log.list() {
						if t.k != tStart {
							w.body = append(w.body, t)
						} else if !(o.st.norm(t.n).isConst() && o.st.norm(t.n).c == 0) {
							w.body = append(w.body, &Tok{k: tBytes, n: t.n, v: t.v})
						}
					}
					if len(w.body) == 0 {
						w.body = []*Tok{{k: tBytes, n: res.ln, v: &res}}
					}
					lens := false
					for _, n := range codecLens[codec] {
						lens = lens || n == len(w.body)-1
					}
					same := func(a, b Lin) bool {
						d := o.st.norm(a.sub(b))
						return d.isConst() && d.c == 0 || o.st.decide(&Cond{k: cEq, l: d}) == yes
					}
					switch {
					case !(res.skip.isConst() && res.skip.c == 0):
						why = "part of the result is cut off"
					case !lens:
						why = fmt.Sprintf("%d length fields precede the compressed data", len(w.body)-1)
					case pk.in.base != arg.base || !same(pk.in.off, arg.off) || !same(pk.in.ln, arg.ln):
						why = "what is compressed is not the whole body"
					default:
						why = w.framed(e, pk)
					}
				}
				r.check(why == "", "codec", fname(fn)+":"+codec, e.pos(o.at), "%s: %s (%s)", fname(fn), why, p.Variant)
			}
		}
		for _, l := range e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
	})
	r.atLeast("codec", 6)
}
