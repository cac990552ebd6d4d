package main

import (
	"fmt"
	"os"
)

func (e *Engine) dumpLoops(names []string) {
	if os.Getenv("SRL_BARE") == "" {
		e.analyse(newReport("x"), names)
	}
	e.loopSeen = map[*LoopCtx]bool{}
	w := &wire{e: e}
	var fns = map[string]bool{}
	reach := e.reachCuts(nil)
	_ = reach
	for _, n := range names {
		f := e.findFunc(n)
		fns[n] = true
		if e.cuts[f] != nil {
			e.runCut(e.cuts[f])
		} else {
			e.runEntry(f)
		}
	}
	for ctx := range e.loopSeen {
		fmt.Println("=== LOOP", fname(ctx.fn), e.pos(ctx.site), len(ctx.backs))
		for _, v := range ctx.vars {
			fmt.Println("   var", v.name, w.valStr(ctx.head, v.head))
		}
		for i, be := range ctx.backs {
			fmt.Println(" -- back", i, be.st.dead)
			for s, d := range be.st.dom {
				if ms := d.members(); len(ms) < 60 {
					fmt.Printf("    dom %s %x\n", e.syms.str(symLin(s)), ms)
				}
			}
			for _, v := range ctx.vars {
				b := e.backVal(be, v, ctx)
				if valKey(b) != valKey(v.head) {
					fmt.Println("   ", v.name, "->", w.valStr(be.st, b))
					if s, ok := b.(SliceV); ok {
						fmt.Println("        log", e.logStr(s))
					}
				}
			}
			on := false
			for _, ev := range be.st.ev.list() {
				if ev.k == evLoopIn && ev.loop == ctx {
					on = true
					continue
				}
				if !on {
					continue
				}
				switch ev.k {
				case evCall:
					fmt.Print("    call ", ev.call.name)
					for _, a := range ev.call.args {
						fmt.Print(" | ", w.valStr(be.st, a))
					}
					fmt.Print(" =>")
					for _, a := range ev.call.res {
						fmt.Print(" ", w.valStr(be.st, a))
					}
					fmt.Println()
				case evLoopIn:
					fmt.Println("    loop", len(ev.loop.backs))
				default:
					fmt.Println("    ev", ev.k, ev.name, "m", w.valStr(be.st, ev.m), "x", w.valStr(be.st, ev.x), "val", w.valStr(be.st, ev.val), "ptr", ev.ptr.obj != nil, ev.ptr.path)
				}
			}
		}
	}
}

func (x *mrg) dumpOuts() {
	e := x.e
	for _, fn := range x.fns {
		run := x.runs[fn]
		ei := errIndex(fn)
		for i, o := range run.outs {
			if o.panic || ei < 0 || e.dead(o, ei) {
				continue
			}
			fmt.Println("== OUT", fname(fn), i, e.pos(o.at))
			for _, r := range o.res {
				fmt.Println("   res", x.w.valStr(o.st, r))
			}
			for _, f := range []string{"buf", "length", "lenOffset", "bodyOffset", "inited", "finished", "strTable"} {
				if v, _, ok := e.fieldOf(o.st, run.args[0], f); ok {
					fmt.Println("   field", f, x.w.valStr(o.st, v))
				}
			}
			for _, ev := range o.st.ev.list() {
				switch ev.k {
				case evCall:
					fmt.Print("    call ", ev.call.name)
					for _, a := range ev.call.args {
						fmt.Print(" | ", x.w.valStr(o.st, a))
					}
					fmt.Print(" =>")
					for _, a := range ev.call.res {
						fmt.Print(" ", x.w.valStr(o.st, a))
					}
					fmt.Println()
				case evLoopIn, evLoopOut:
					fmt.Println("    loop", ev.k, fname(ev.loop.fn), e.pos(ev.loop.site), len(ev.loop.backs))
				default:
					fmt.Println("    ev", ev.k, ev.name, "m", x.w.valStr(o.st, ev.m), "x", x.w.valStr(o.st, ev.x), "val", x.w.valStr(o.st, ev.val), "ptr", ev.ptr.obj != nil, ev.ptr.path)
				}
			}
		}
	}
}

func (e *Engine) dead(o Outcome, ei int) bool {
	return o.st.decide(e.nilCond(o.res[ei])) == no
}
