package main

import "fmt"

// dumpEvs prints the events of every path of a function.
func (e *Engine) dumpEvs(name string) {
	fn := e.findFunc(name)
	outs, _ := e.runEntryArgs(fn)
	w := &wire{e: e}
	for _, o := range outs {
		fmt.Println("== panic", o.panic, "res", len(o.res))
		for _, r := range o.res {
			fmt.Println("   res", w.valStr(o.st, r))
		}
		for _, ev := range o.st.ev.list() {
			switch ev.k {
			case evCall:
				fmt.Print("   call ", ev.call.name)
				for _, a := range ev.call.args {
					fmt.Print(" | ", w.valStr(o.st, a))
				}
				fmt.Print(" =>")
				for _, a := range ev.call.res {
					fmt.Print(" ", w.valStr(o.st, a))
				}
				fmt.Println()
			case evLoopIn:
				fmt.Println("   loop", len(ev.loop.backs))
			default:
				fmt.Println("   ev", ev.k, ev.name, "m", w.valStr(o.st, ev.m), "x", w.valStr(o.st, ev.x), "val", w.valStr(o.st, ev.val), "ptr", ev.ptr.obj != nil, ev.ptr.path)
			}
		}
	}
}
