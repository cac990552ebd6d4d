package main

import (
	"fmt"
	"go/types"
)

func (e *Engine) logStr(s SliceV) string {
	r := ""
	for t := s.log; t != nil; t = t.prev {
		r = fmt.Sprintf("%d:n=%s ", t.k, e.syms.str(t.n)) + r
	}
	return r + " skip=" + e.syms.str(s.skip)
}
func evStr(ev *Ev) string {
	r := ""
	for _, x := range ev.list() {
		r += fmt.Sprintf("\n     %d %s ", x.k, x.name)
		if x.site != nil {
			r += x.site.String()
		}
		if x.call != nil {
			r += x.call.name
		}
	}
	return r
}

// candWhy says where a bound candidate fails.
func (e *Engine) candWhy(st *State, c *loopCand) string {
	if c.kind != "bound" || c.v != nil {
		return ""
	}
	l, ok := c.lin(func(iv *intVar) (Lin, bool) { return iv.get(iv.v.back) })
	if !ok {
		return "no term"
	}
	for ev := st.ev; ev != nil && ev.k != evLoopIn; ev = ev.prev {
		if ev.k == evMapSet {
			if o, ok := ev.m.(Opq); ok && e.mapsAlias(c.m, o) {
				i, ok := ev.val.(IntV)
				if !ok {
					return "unknown value at " + e.pos(ev.site)
				}
				x, ok := l.addMul(i.l, c.k)
				if !ok || !st.entails(x) {
					if y := st.norm(x); true {
						for _, f := range st.closest(y.neg().addc(-1), 0) {
							dbg("       fact %s >= 0", e.syms.str(f))
						}
					}
					return "value " + e.syms.str(i.l) + " stored at " + e.pos(ev.site) + " need " + e.syms.str(st.norm(x))
				}
			}
		}
	}
	return "bound " + e.syms.str(l)
}

func (w *wire) dump() {
	for _, f := range w.sortedRoles() {
		r := w.roles[f]
		fmt.Printf("== %s role %c rep %s buf %d pos %d count %d typed %v\n", fname(f), r.role, r.rep, r.buf, r.pos, r.count, r.typed)
		for _, p := range w.paths(w.e.cuts[f], r) {
			d := w.tags(p).members()
			if len(d) > 4 {
				d = append(d[:3:3], -len(d))
			}
			s := ""
			for _, j := range p.ch.jumps {
				s += fmt.Sprintf(" jump %c", j.k)
			}
			end := ""
			if p.ok {
				end = w.e.syms.str(p.o.st.norm(p.res.sub(p.ch.cur)))
			}
			fmt.Printf("  %s ok=%v panic=%v tags=%x chain=%s%s err=%s end=+%s\n", w.e.pos(p.o.at), p.ok, p.o.panic, d, p.ch, s, p.ch.err, end)
		}
	}
}

func (w *wire) dumpVals() {
	for _, f := range w.sortedRoles() {
		r := w.roles[f]
		if r.role != 'I' {
			continue
		}
		for _, p := range w.paths(w.e.cuts[f], r) {
			if !p.ok || p.o.panic {
				continue
			}
			d := w.tags(p).members()
			if d[0] >= 128 {
				continue
			}
			if !r.typed {
				pv := p.args[3].(PtrV)
				v := w.e.load(p.o.st, pv, pv.elem)
				fmt.Printf("  %s tags=%x val=%s\n", fname(f), d, w.valStr(p.o.st, v))
				continue
			}
			fmt.Printf("  %s tags=%x\n", fname(f), d[0])
			for _, ev := range p.o.st.ev.list() {
				if ev.k == evCall && len(ev.call.name) > 9 && ev.call.name[:9] == "(reflect." {
					s := ""
					for _, a := range ev.call.args {
						s += " " + w.valStr(p.o.st, a)
					}
					fmt.Printf("      %s %s\n", ev.call.name, s)
				}
			}
		}
	}
}

func (w *wire) valStr(st *State, v Value) string {
	e := w.e
	switch v := v.(type) {
	case IntV:
		return "int " + e.syms.str(st.norm(v.l))
	case SliceV:
		return fmt.Sprintf("slice str=%v base=%s off=%s len=%s log=%s", v.str, v.base.key, e.syms.str(st.norm(v.off)), e.syms.str(st.norm(v.ln)), e.logStr(v))
	case IfaceV:
		return fmt.Sprintf("iface(%s) %s", v.dyn, w.valStr(st, v.v))
	case PtrV:
		if v.obj == nil {
			return "nilptr"
		}
		return fmt.Sprintf("ptr(%s%s)->%s", v.obj.key, v.path, v.elem)
	case Opq:
		t := e.terms[v.s]
		s := "opq " + e.syms.name(v.s)
		if t.op != "" {
			s += " =" + t.op + "("
			for _, a := range t.args {
				s += w.valStr(st, a) + ", "
			}
			s += ")"
		}
		return s
	case StructV:
		s := "struct " + v.t.String() + "{"
		for _, f := range v.f {
			s += w.valStr(st, f) + ";"
		}
		return s + "}"
	case NilV:
		return "nil"
	}
	return fmt.Sprintf("%T", v)
}

func (e *Engine) dumpConsts() {
	for _, n := range []string{"Encoder", "Merger"} {
		t := e.p.Pkg.Type(n).Type().(*types.Named)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			v, ok := e.fieldConsts(t, s.Field(i).Name())
			fmt.Println(n, s.Field(i).Name(), v, ok)
		}
	}
}
