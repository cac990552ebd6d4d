package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C08 and C09: where the memory of what a caller hands in is reached.

type membits uint8

const (
	mDirect membits = 1 << iota // leads into the memory of an input
	mHolds                      // memory of our own that contains what does
)

// inmem finds, over the whole package and whatever the path, the values
// through which the memory of inputs is reached.
type inmem struct {
	p     *Program
	e     *Engine
	bits  map[ssa.Value]membits
	field map[*types.Var]membits
	out   map[ssa.Value]membits // what is stored through a parameter or captured variable
	call  *shared               // only for its callees
	more  bool
}

func newInmem(p *Program, e *Engine) *inmem {
	return &inmem{p: p, e: e, bits: map[ssa.Value]membits{}, field: map[*types.Var]membits{}, out: map[ssa.Value]membits{}, call: &shared{p: p, e: e}}
}

// leads: a value of the type may lead to memory.
func leads(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind() == types.String || b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr
	}
	switch x := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if leads(x.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return leads(x.Elem())
	}
	return carries(t)
}

func (m *inmem) mark(v ssa.Value, b membits) {
	if b != 0 && m.bits[v]|b != m.bits[v] {
		m.bits[v] |= b
		m.more = true
		if traceAlias {
			pos := ""
			if v.Parent() != nil {
				pos = fname(v.Parent())
			}
			fmt.Println("MARK", b, pos, v.Name(), v.Type(), v, m.p.Prog.Fset.Position(v.Pos()))
		}
	}
}

var traceAlias = os.Getenv("SRL_ALIAS") != ""

// load: v is read from somewhere with these bits.
func (m *inmem) load(v ssa.Value, b membits) {
	if b == 0 || !leads(v.Type()) {
		return
	}
	if b&mDirect == 0 {
		// contents of our own memory
		switch v.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			if !isReflectValue(v.Type()) {
				m.mark(v, mHolds)
				return
			}
		}
	}
	m.mark(v, mDirect)
}

func (m *inmem) pkgField(fa ssa.Value) *types.Var {
	var t types.Type
	var n int
	switch x := fa.(type) {
	case *ssa.FieldAddr:
		t, n = x.X.Type(), x.Field
	case *ssa.Field:
		t, n = x.X.Type(), x.Field
	default:
		return nil
	}
	f := structOf(t).Field(n)
	if f.Pkg() != m.p.Pkg.Pkg {
		return nil
	}
	return f
}

// holder marks where something is stored as memory that contains it.
func (m *inmem) holder(a ssa.Value, b membits) {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if f := m.pkgField(x); f != nil && m.field[f]|b != m.field[f] {
				m.field[f] |= b
				m.more = true
			}
			a = x.X
			continue
		case *ssa.IndexAddr:
			a = x.X
			continue
		case *ssa.Slice:
			m.mark(x, mHolds)
			a = x.X
			continue
		case *ssa.Convert:
			m.mark(x, mHolds)
			a = x.X
			continue
		case *ssa.ChangeType:
			m.mark(x, mHolds)
			a = x.X
			continue
		case *ssa.UnOp:
			m.mark(x, mHolds)
			if f, ok := x.X.(*ssa.FieldAddr); ok {
				if v := m.pkgField(f); v != nil && m.field[v]|mHolds != m.field[v] {
					m.field[v] |= mHolds
					m.more = true
				}
			}
			if al, ok := x.X.(*ssa.Alloc); ok {
				m.mark(al, mHolds)
			}
			return
		case *ssa.Phi:
			if m.bits[x]&mHolds == 0 {
				m.mark(x, mHolds)
				for _, y := range x.Edges {
					m.holder(y, b)
				}
			}
			return
		case *ssa.Parameter, *ssa.FreeVar:
			if m.out[a]|b != m.out[a] {
				m.out[a] |= b
				m.more = true
			}
			return
		default:
			m.mark(a, mHolds)
			return
		}
	}
}

// firstOnly: the result of a foreign function shares memory with its first
// argument at most.
func firstOnly(name string) bool {
	for _, p := range []string{"github.com/golang/snappy.", "github.com/DataDog/zstd."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// foreign is what a foreign function makes of its arguments.
func (m *inmem) foreign(v ssa.Value, c *ssa.CallCommon) {
	name := callName(c)
	if copies(name) {
		return
	}
	switch name {
	case "append":
		m.mark(v, m.bits[c.Args[0]])
		if sl, ok := v.Type().Underlying().(*types.Slice); ok && leads(sl.Elem()) && len(c.Args) > 1 && m.bits[c.Args[1]] != 0 {
			m.mark(v, mHolds)
		}
		return
	case "(reflect.Value).MapKeys":
		if m.bits[c.Args[0]] != 0 {
			m.mark(v, mHolds)
		}
		return
	case "io.ReadAll", "io/ioutil.ReadAll", "bytes.Join", "bytes.Repeat", "bytes.ToLower", "bytes.ToUpper", "strings.Title", "strings.Join", "strings.Repeat":
		return
	}
	for i, a := range c.Args {
		if i > 0 && firstOnly(name) {
			break
		}
		b := m.bits[a]
		if b == mHolds && name == "reflect.ValueOf" {
			m.mark(v, mHolds)
			continue
		}
		m.load(v, b)
	}
	if c.IsInvoke() {
		m.load(v, m.bits[c.Value])
	}
}

func (m *inmem) flow(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.FieldAddr:
				if m.bits[x.X]&mDirect != 0 {
					m.mark(x, mDirect)
				} else if m.bits[x.X] != 0 && m.pkgField(x) == nil {
					m.mark(x, mHolds)
				}
			case *ssa.IndexAddr:
				m.mark(x, m.bits[x.X])
			case *ssa.Slice:
				if leads(x.Type()) {
					m.mark(x, m.bits[x.X])
				}
			case *ssa.UnOp:
				m.load(x, m.bits[x.X])
				if v := m.pkgField(x.X); v != nil {
					if s := m.field[v]; s != 0 && leads(x.Type()) {
						m.mark(x, s)
					}
				}
				if o := m.out[x.X]; o != 0 && leads(x.Type()) {
					m.mark(x, o)
				}
			case *ssa.Field:
				if m.bits[x.X]&mDirect != 0 {
					m.load(x, mDirect)
				}
				if v := m.pkgField(x); v != nil {
					if leads(x.Type()) {
						m.mark(x, m.field[v])
					}
				} else {
					m.load(x, m.bits[x.X])
				}
			case *ssa.Index:
				m.load(x, m.bits[x.X])
			case *ssa.Lookup:
				if x.CommaOk {
					m.mark(x, m.bits[x.X])
				} else {
					m.load(x, m.bits[x.X])
				}
			case *ssa.Range:
				m.mark(x, m.bits[x.X])
			case *ssa.Next:
				m.mark(x, m.bits[x.Iter])
			case *ssa.Extract:
				if c, ok := x.Tuple.(*ssa.Call); ok {
					in := false
					for _, g := range m.call.callees(&c.Call) {
						in = in || m.p.inPkg(g)
						if leads(x.Type()) && m.p.inPkg(g) {
							m.mark(x, m.result(g, x.Index, m.flags(g, &c.Call, nil), 0))
						}
					}
					if in {
						break
					}
				}
				if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
					if leads(x.Type()) {
						m.mark(x, m.bits[ta.X])
					}
					break
				}
				m.load(x, m.bits[x.Tuple])
			case *ssa.Phi:
				for _, a := range x.Edges {
					m.mark(x, m.bits[a])
				}
			case *ssa.ChangeType:
				m.mark(x, m.bits[x.X])
			case *ssa.ChangeInterface:
				m.mark(x, m.bits[x.X])
			case *ssa.MakeInterface:
				m.mark(x, m.bits[x.X])
			case *ssa.TypeAssert:
				if leads(x.Type()) || x.CommaOk {
					m.mark(x, m.bits[x.X])
				}
			case *ssa.Convert:
				if isUnsafe(x.Type()) || isUnsafe(x.X.Type()) {
					m.mark(x, m.bits[x.X])
				}
			case *ssa.SliceToArrayPointer:
				m.mark(x, m.bits[x.X])
			case *ssa.MultiConvert:
			case *ssa.Store:
				if s := m.bits[x.Val]; s != 0 {
					m.stored(x.Addr, s)
				}
			case *ssa.MapUpdate:
				if m.bits[x.Key]|m.bits[x.Value] != 0 {
					m.holder(x.Map, mHolds)
				}
			case *ssa.MakeClosure:
				g := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					m.mark(g.FreeVars[i], m.bits[b])
					if o := m.out[g.FreeVars[i]]; o != 0 {
						m.stored(b, o)
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			ext := true
			for _, g := range m.call.callees(c) {
				if !m.p.inPkg(g) {
					continue
				}
				ext = false
				args := c.Args
				if c.IsInvoke() {
					args = append([]ssa.Value{c.Value}, c.Args...)
				}
				for i, a := range args {
					if i >= len(g.Params) {
						break
					}
					m.mark(g.Params[i], m.bits[a])
					if o := m.out[g.Params[i]]; o != 0 {
						m.stored(a, o)
					}
				}
				if v := ci.Value(); v != nil && g.Signature.Results().Len() == 1 && leads(v.Type()) {
					m.mark(v, m.result(g, 0, m.flags(g, c, nil), 0))
				}
			}
			if name := callName(c); name == "copy" && m.bits[c.Args[1]] != 0 {
				if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && leads(sl.Elem()) {
					m.holder(c.Args[0], mHolds)
				}
			}
			if v := ci.Value(); v != nil && (ext || c.IsInvoke()) {
				if _, tuple := v.Type().(*types.Tuple); tuple {
					// the parts are told apart where they are taken out
					b := membits(0)
					for i, a := range c.Args {
						if i > 0 && firstOnly(callName(c)) || copies(callName(c)) {
							break
						}
						b |= m.bits[a]
					}
					if c.IsInvoke() {
						b |= m.bits[c.Value]
					}
					if b != 0 {
						m.mark(v, mDirect)
					}
				} else {
					m.foreign(v, c)
				}
			}
		}
	}
}

// flags are the boolean parameters of a function that are constants in a call.
func (m *inmem) flags(g *ssa.Function, c *ssa.CallCommon, outer map[ssa.Value]bool) map[ssa.Value]bool {
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, c.Args...)
	}
	out := map[ssa.Value]bool{}
	for i, a := range args {
		if i >= len(g.Params) {
			break
		}
		if v, ok := constBool(a, outer); ok {
			out[g.Params[i]] = v
		}
	}
	return out
}

func constBool(v ssa.Value, known map[ssa.Value]bool) (bool, bool) {
	if b, ok := known[v]; ok {
		return b, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			return constant.BoolVal(x.Value), true
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b, ok := constBool(x.X, known)
			return !b, ok
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			a, ok := constBool(x.X, known)
			b, ok2 := constBool(x.Y, known)
			return (a == b) == (x.Op == token.EQL), ok && ok2
		}
	}
	return false, false
}

// result is what a function returns if some of its parameters are known.
func (m *inmem) result(g *ssa.Function, i int, known map[ssa.Value]bool, depth int) membits {
	if len(g.Blocks) == 0 {
		return 0
	}
	// an edge is taken unless the known parameters exclude it
	type edge struct{ from, to *ssa.BasicBlock }
	taken := map[edge]bool{}
	reach := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{g.Blocks[0]}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if reach[b] {
			continue
		}
		reach[b] = true
		next := b.Succs
		if br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if v, ok := constBool(br.Cond, known); ok {
				if v {
					next = next[:1]
				} else {
					next = next[1:]
				}
			}
		}
		for _, n := range next {
			taken[edge{b, n}] = true
			todo = append(todo, n)
		}
	}
	if g.Recover != nil && !reach[g.Recover] {
		reach[g.Recover] = true
	}
	seen := map[ssa.Value]bool{}
	var bits func(v ssa.Value) membits
	bits = func(v ssa.Value) membits {
		if seen[v] {
			return 0
		}
		seen[v] = true
		if m.bits[v] == 0 || len(known) == 0 {
			return m.bits[v]
		}
		switch x := v.(type) {
		case *ssa.Phi:
			var s membits
			for j, a := range x.Edges {
				if taken[edge{x.Block().Preds[j], x.Block()}] {
					s |= bits(a)
				}
			}
			return s
		case *ssa.Extract:
			if c, ok := x.Tuple.(*ssa.Call); ok && depth < 4 && len(m.call.callees(&c.Call)) > 0 {
				var s membits
				for _, h := range m.call.callees(&c.Call) {
					if !m.p.inPkg(h) {
						return m.bits[v]
					}
					s |= m.result(h, x.Index, m.flags(h, &c.Call, known), depth+1)
				}
				return s
			}
		case *ssa.Call:
			if depth < 4 && len(m.call.callees(&x.Call)) > 0 {
				var s membits
				for _, h := range m.call.callees(&x.Call) {
					if !m.p.inPkg(h) {
						return m.bits[v]
					}
					s |= m.result(h, 0, m.flags(h, &x.Call, known), depth+1)
				}
				return s
			}
		}
		return m.bits[v]
	}
	var s membits
	for b := range reach {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			s |= bits(ret.Results[i])
		}
	}
	return s
}

// stored: something with these bits is stored at an address.
func (m *inmem) stored(a ssa.Value, s membits) {
	if al, ok := a.(*ssa.Alloc); ok {
		m.mark(al, mHolds)
		for _, r := range *al.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && leads(u.Type()) {
				m.mark(u, s)
			}
		}
		return
	}
	m.holder(a, s)
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (m *inmem) run() {
	m.more = true
	for m.more {
		m.more = false
		for _, f := range m.p.Funcs {
			m.flow(f)
		}
	}
}

// document is the parameter of an exported function that takes a document.
func document(f *ssa.Function) *ssa.Parameter {
	for i := len(f.Params) - 1; i >= 0; i-- {
		if isByteSlice(f.Params[i].Type()) {
			return f.Params[i]
		}
	}
	return nil
}

// readsArgs: the foreign function only reads what its arguments lead to, apart
// from the first one if it is one of those that append to it.
func readsArgs(name string, i int) bool {
	if readsOnly(name) || firstOnly(name) && i > 0 {
		return true
	}
	n := name[strings.LastIndexByte(name, '.')+1:]
	if firstOnly(name) && (strings.HasSuffix(n, "Len") || strings.HasSuffix(n, "Size") || strings.HasSuffix(n, "Bound")) {
		return true
	}
	if strings.HasPrefix(name, "encoding/binary.") || strings.HasPrefix(name, "(encoding/binary.") {
		switch {
		case strings.HasPrefix(n, "Uint"), n == "Uvarint", n == "Varint", n == "Size", n == "Read":
			return true
		}
		return false
	}
	switch n {
	case "Write", "WriteString", "WriteByte", "ReadFrom":
		return i > 0
	case "NewReader", "ReadAll", "Read", "ReadByte", "WriteTo", "Len", "Cap", "Bytes", "String", "Close", "UnreadByte", "Peek",
		"MarshalBinary", "UnmarshalBinary", "MarshalText", "MarshalJSON", "Int64", "Float64", "Error", "Checksum", "ChecksumIEEE", "Clone", "NewReaderDict", "Reset", "recover":
		return true
	}
	return strings.HasPrefix(name, "bytes.") && n != "NewBuffer"
}

// fullSlice: appending to the slice never writes to its array.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High == s.Max
}

// writes looks for what changes the memory of inputs.
func (m *inmem) writes(r *Report, f *ssa.Function, whose string) {
	see := func(in ssa.Instruction, b membits, what string) {
		r.check(b&mDirect == 0, "write", whose+":"+fname(f)+":"+what, m.e.pos(in), "%s %s that belongs to %s (%s)", fname(f), what, whose, m.p.Variant)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, local := x.Addr.(*ssa.Alloc); !local {
					see(in, m.bits[x.Addr], "stores to memory")
				}
			case *ssa.MapUpdate:
				see(in, m.bits[x.Map], "changes a map")
			case *ssa.Send:
				see(in, m.bits[x.Chan], "sends on a channel")
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			inside := false
			for _, g := range m.call.callees(c) {
				inside = inside || m.p.inPkg(g)
			}
			if inside {
				continue
			}
			name := callName(c)
			switch name {
			case "append":
				if !fullSlice(c.Args[0]) {
					see(in, m.bits[c.Args[0]], "appends to a slice")
				}
				continue
			case "copy", "delete", "clear", "close":
				see(in, m.bits[c.Args[0]], "changes a container ("+name+")")
				continue
			}
			for i, a := range c.Args {
				if i > 0 && strings.HasPrefix(name, "(reflect.Value).") || name == "reflect.Copy" && i > 0 {
					break
				}
				if !readsArgs(name, i) {
					see(in, m.bits[a], "hands to "+name+" something")
				}
			}
			if c.IsInvoke() && !readsArgs(name, 0) {
				see(in, m.bits[c.Value], "calls "+name+" on something")
			}
		}
	}
}

// leaks looks for what hands out the memory of inputs.
func (m *inmem) leaks(r *Report, f *ssa.Function) {
	see := func(in ssa.Instruction, b membits, what string) {
		r.check(b == 0, "alias", fname(f)+":"+what, m.e.pos(in), "%s %s that shares memory with the document (%s)", fname(f), what, m.p.Variant)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				a := x.Addr
				for inner := false; !inner; {
					switch y := a.(type) {
					case *ssa.IndexAddr:
						a = y.X
					case *ssa.FieldAddr:
						f := m.pkgField(y)
						if f != nil && (!f.Exported() || !exportedStruct(y.X.Type())) {
							a = nil // the decoder's own
							inner = true
							break
						}
						a = y.X
					case *ssa.Slice:
						a = y.X
					default:
						inner = true
					}
				}
				switch a.(type) {
				case nil, *ssa.Alloc, *ssa.FreeVar:
				case *ssa.Parameter:
					// a slice variable of a caller within the package
					if !isByteSlice(x.Val.Type()) || !isByteSlicePtr(a.Type()) {
						see(in, m.bits[x.Val], "stores something")
					}
				default:
					see(in, m.bits[x.Val], "stores something")
				}
			case *ssa.MapUpdate:
				see(in, m.bits[x.Key]|m.bits[x.Value], "enters in a map something")
			case *ssa.Send:
				see(in, m.bits[x.X], "sends something")
			case *ssa.Return:
				if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
					for _, v := range x.Results {
						see(in, m.bits[v], "returns something")
					}
				}
			}
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			c := ci.Common()
			inside := false
			for _, g := range m.call.callees(c) {
				inside = inside || m.p.inPkg(g)
			}
			if inside {
				continue
			}
			name := callName(c)
			switch name {
			case "append", "copy":
				continue // judged by what becomes of the result
			case "reflect.Copy":
				// elements that lead nowhere are copied
				continue
			}
			for i, a := range c.Args {
				setter := strings.HasPrefix(name, "(reflect.Value).Set") && i > 0 || name == "(reflect.Value).Send" || strings.HasPrefix(name, "reflect.Append")
				if setter || !readsArgs(name, i) {
					see(in, m.bits[a], "hands to "+name+" something")
				}
			}
		}
	}
}

func isByteSlicePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isByteSlice(p.Elem())
}

func exportedStruct(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

func init() {
	checks["C08"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Alias analysis of the whole package, without regard to paths: every value that may share memory with the document given to a decoder is found by a fixed point over slicing, assignments, fields, loads, calls, results, closures and unsafe conversions; conversions between strings and bytes, copy and append to other memory end it. No such value may be stored where the caller can see it (through a pointer that was handed in, in a field of an exported struct, in a map, by a setter of package reflect), be returned, or be handed to a foreign function that may keep it."
		r.Trusted = append(r.Trusted, "an UnmarshalBinary method copies what it keeps, as its documentation demands", "decompression libraries return memory of their own or that of their first argument")
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			m := newInmem(p, e)
			for _, f := range e.exported() {
				if d := document(f); d != nil {
					m.bits[d] = mDirect
					r.ok("source")
				}
			}
			m.run()
			for _, f := range p.Funcs {
				m.leaks(r, f)
			}
			r.sample(map[string]interface{}{"functions": len(p.Funcs), "values that share memory with a document": len(m.bits), "variant": p.Variant})
		})
		r.atLeast("source", 8)
		r.atLeast("alias", 100)
	}
	checks["C09"] = func(r *Report) {
		r.Level = "proof"
		r.Explanation = "Alias and effect analysis of the whole package, without regard to paths: every value through which the memory of a document handed to a decoder, merger, probe or decompressor, or that of a value handed to an encoder, is reached is found by a fixed point; memory that the library makes itself and only fills with such values is told apart. Nothing may be stored through such a value, no map changed, no slice be the first argument of append (which writes to spare capacity), copy or clear, and none be handed to a foreign function that may write to it."
		r.Trusted = append(r.Trusted, "compression libraries, hash functions and readers do not write to their source", "user hooks")
		forVariants(r, bothVariants, func(p *Program) {
			e := bare(p)
			for _, whose := range []string{"the document given", "the value to be encoded"} {
				m := newInmem(p, e)
				for _, f := range e.exported() {
					if whose == "the document given" {
						if d := document(f); d != nil {
							m.bits[d] = mDirect
							r.ok("source")
						}
						continue
					}
					res := f.Signature.Results()
					if res.Len() > 0 && isByteSlice(res.At(0).Type()) {
						for _, q := range f.Params {
							if i, ok := q.Type().Underlying().(*types.Interface); ok && i.NumMethods() == 0 {
								m.bits[q] = mDirect
								r.ok("source")
							}
						}
					}
				}
				m.run()
				for _, f := range p.Funcs {
					m.writes(r, f, whose)
				}
				r.sample(map[string]interface{}{"input": whose, "functions": len(p.Funcs), "values that lead to it": len(m.bits), "variant": p.Variant})
			}
		})
		r.atLeast("source", 20)
		r.atLeast("write", 300)
	}
}
