package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value: one of the types below.
type Value interface{}

// IntV is an integer of any width, as a mathematical integer in the range of
// its type.
type IntV struct{ l Lin }

// BoolV is a boolean given by a condition over the state.
type BoolV struct{ c *Cond }

// Obj is an abstract memory object.
type Obj struct {
	id    int
	key   string
	zero  bool // contents not stored to are zero
	fresh bool // allocated by the analysed code, hence disjoint from its inputs
	typ   types.Type
	input bool // memory reachable from the caller
	alloc ssa.Instruction
	loop  *LoopCtx
	from  []*Obj   // memory this object may share
	parts []SliceV // the strings it was joined from
}

// Nil describes whether a reference is nil.
type Nil struct {
	k int8 // 0: not nil, 1: nil, 2: unknown, named by s
	s Sym
}

// SliceV is a slice or a string.
type SliceV struct {
	base     *Obj
	off      Lin
	ln, cp   Lin
	str      bool
	nl       Nil
	log      *Tok // what was appended, newest first; nil if unknown
	elem     types.Type
	skip     Lin // bytes of the log's start that were sliced off
	ident    Sym // for values of unknown origin: their identity
	fromConv *SliceV
	array    bool // the whole of a fresh array
}

// PtrV is a pointer to a cell of an object.
type PtrV struct {
	obj  *Obj
	path string
	idx  *Lin // last path element is this index
	off  Lin  // offset of that index in the object (for bytes)
	nl   Nil
	elem types.Type
}

// StructV is a struct or array value.
type StructV struct {
	t types.Type
	f []Value
}

// TupleV is a multi-value.
type TupleV []Value

// IfaceV is an interface holding a known value of a known dynamic type.
type IfaceV struct {
	dyn types.Type
	v   Value
}

// NilV is a nil interface, map, func or channel.
type NilV struct{ t types.Type }

// FuncV is a function value.
type FuncV struct {
	fn    *ssa.Function
	binds []Value
}

// Opq is any other value, identified by a symbol. Its structure, if it was
// built by an operation, is in Engine.terms.
type Opq struct {
	s Sym
	t types.Type
}

// Term is the operation an opaque value results from.
type Term struct {
	op   string
	args []Value
}

// ---------------------------------------------------------------- conditions

type condKind int8

const (
	cTrue condKind = iota
	cGe            // l >= 0
	cEq            // l == 0
	cNil           // reference s is nil
	cType          // dynamic type of s is t
	cSym           // opaque boolean s
	cTab           // small-domain symbol s is in set
)

// Cond is a literal over the state.
type Cond struct {
	k   condKind
	neg bool
	l   Lin
	s   Sym
	t   types.Type
	set dset
}

type dset [4]uint64

func (d dset) has(i int) bool { return d[i>>6]>>(uint(i)&63)&1 == 1 }
func (d *dset) put(i int)     { d[i>>6] |= 1 << (uint(i) & 63) }
func (d dset) and(e dset) dset {
	for i := range d {
		d[i] &= e[i]
	}
	return d
}
func (d dset) andNot(e dset) dset {
	for i := range d {
		d[i] &^= e[i]
	}
	return d
}
func (d dset) empty() bool { return d == dset{} }
func (d dset) members() []int {
	var r []int
	for i := 0; i < 256; i++ {
		if d.has(i) {
			r = append(r, i)
		}
	}
	return r
}
func (d dset) one() (int, bool) {
	m := d.members()
	if len(m) == 1 {
		return m[0], true
	}
	return 0, false
}

var condTrue = &Cond{k: cTrue}
var condFalse = &Cond{k: cTrue, neg: true}

func (c *Cond) not() *Cond {
	d := *c
	d.neg = !d.neg
	return &d
}

func condConst(b bool) *Cond {
	if b {
		return condTrue
	}
	return condFalse
}

// ---------------------------------------------------------------- tokens

type tokKind int8

const (
	tStart  tokKind = iota // contents of the slice the function was given
	tByte                  // one byte, value l
	tVarint                // varint encoding of l
	tBytes                 // contents of slice v
	tItem                  // what a recursive call emitted
	tLoop                  // what the iterations of a loop emitted
	tLoopIn                // start of a generic iteration
	tUnk                   // unknown
)

// Tok is one appended token; prev is what came before.
type Tok struct {
	k    tokKind
	prev *Tok
	l    Lin // tByte, tVarint: the value
	n    Lin // length in elements
	at   Lin // position in the slice
	v    *SliceV
	val  Value // element appended to non-byte slices
	call *CallEv
	loop *LoopCtx
	phi  *ssa.Phi
	lv   *loopVar // tLoopIn: the variable
	fn   *ssa.Function
}

func (t *Tok) list() []*Tok {
	var r []*Tok
	for ; t != nil; t = t.prev {
		r = append(r, t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// ---------------------------------------------------------------- keys

func nilKey(n Nil) string {
	switch n.k {
	case 0:
		return "!"
	case 1:
		return "nil"
	}
	return fmt.Sprintf("?%d", n.s)
}

// valKey identifies an abstract value.
func valKey(v Value) string {
	switch v := v.(type) {
	case IntV:
		return v.l.key()
	case BoolV:
		return fmt.Sprintf("b{%d,%v,%s,%d,%v,%v}", v.c.k, v.c.neg, v.c.l.key(), v.c.s, v.c.t, v.c.set)
	case SliceV:
		return fmt.Sprintf("s{%s,%s,%s}", v.base.key, v.off.key(), v.ln.key())
	case PtrV:
		if v.obj == nil {
			return "p{nil}"
		}
		return fmt.Sprintf("p{%s%s}", v.obj.key, v.path)
	case StructV:
		var s []string
		for _, f := range v.f {
			s = append(s, valKey(f))
		}
		return "{" + strings.Join(s, ",") + "}"
	case TupleV:
		var s []string
		for _, f := range v {
			s = append(s, valKey(f))
		}
		return "(" + strings.Join(s, ",") + ")"
	case IfaceV:
		return "i{" + v.dyn.String() + ":" + valKey(v.v) + "}"
	case NilV:
		return "nil"
	case FuncV:
		return "f{" + v.fn.String() + "}"
	case Opq:
		return fmt.Sprintf("o%d", v.s)
	case nil:
		return "-"
	}
	return fmt.Sprintf("%T", v)
}

// ---------------------------------------------------------------- events

// CallEv is a call whose effect is taken from a contract or a model.
type CallEv struct {
	fn   *ssa.Function // nil for external calls
	name string
	args []Value
	res  []Value
	in   *ssa.Function // caller
	site ssa.Instruction
	pre  map[string]Value
	old  map[*cand]Lin
	post int
	extN Lin
	good bool  // no error was returned
	outs []Sym // values stored through its arguments
}

type evKind int8

const (
	evCall evKind = iota
	evStore
	evMapGet
	evMapSet
	evMapDel
	evLoopIn  // a generic iteration starts here
	evLoopOut // the loop was left here
	evCopy
	evAssume
	evEnter  // an inlined call starts (name)
	evReturn // an inlined call returns (only if Engine.returns is set)
	evAlloc
	evNote
)

// Ev is an entry of a path's history, newest first.
type Ev struct {
	k    evKind
	prev *Ev
	call *CallEv
	ptr  PtrV
	val  Value
	m, x Value
	val2 Value
	ok   *Cond
	loop *LoopCtx
	fn   *ssa.Function
	site ssa.Instruction
	name string
}

func (e *Ev) list() []*Ev {
	var r []*Ev
	for ; e != nil; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}
