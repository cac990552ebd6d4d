package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	}
	variant := "default"
	if len(os.Args) > 2 {
		variant = os.Args[2]
	}
	t0 := time.Now()
	if f := os.Getenv("SRL_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(40 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
			os.Exit(3)
		}()
	}
	p, err := load(variant)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e := newEngine(p)
	e.light = os.Getenv("SRL_LIGHT") != ""
	switch os.Args[1] {
	case "emit":
		dumpEmit(variant)
	case "prims":
		e.findPrims()
		for f, i := range e.primInfo {
			fmt.Println(fname(f), i.kind, i.outcomes, i.why, i.errN0)
		}
	case "wire":
		r := newReport("x")
		w, ok := newWire(p, r, decEntries)
		if ok {
			if os.Getenv("SRL_VALS") != "" {
				w.dumpVals()
			} else {
				w.dump()
			}
		}
	case "outs":
		if os.Getenv("SRL_BARE") != "" {
			e = bare(p)
			e.onEntry = e.eachVersion
		} else {
			e.light = true
			e.analyse(newReport("x"), encEntries)
		}
		for _, n := range os.Args[3:] {
			e.dumpOut(e.findFunc(n))
		}
	case "evs":
		bare(p).dumpEvs(os.Args[3])
	case "ids":
		m, _ := newEmit(p, newReport("x"))
		m.dumpIDs(m.e.findFunc(os.Args[3]))
	case "mouts":
		if x, ok := newMrg(p, newReport("x")); ok {
			x.dumpOuts()
		}
	case "mloops":
		if os.Getenv("SRL_BARE") != "" {
			e = bare(p)
		}
		e.dumpLoops(os.Args[3:])
	case "consts":
		e.dumpConsts()
	case "cuts":
		e.setupCuts()
		for _, c := range e.cutList() {
			fmt.Println(fname(c.fn), c.group, len(c.pre), len(c.post))
		}
	case "entry":
		e.setupCuts()
		var fs []*ssa.Function
		for _, n := range os.Args[3:] {
			f := e.findFunc(n)
			if f == nil {
				fmt.Println("no function", n)
				return
			}
			fs = append(fs, f)
		}
		e.infer(fs)
		r := e.reachCuts(fs)
		for _, f := range fs {
			e.runEntry(f)
		}
		for _, c := range e.cutList() {
			if r[c.fn] {
				fmt.Println(c.describe())
				e.runCut(c)
			}
		}
		n, bad := 0, 0
		for _, o := range e.obl.sorted() {
			n++
			if o.failed > 0 {
				bad++
				fmt.Printf("%s %s %s %s: %s (%d/%d)\n", o.pos, o.rule, o.fn, o.expr, o.why, o.failed, o.count)
			}
		}
		fmt.Println(n, "obligations", bad, "failed; paths", e.paths, "queries", e.queries, "steps", e.steps)
		for _, l := range e.loopErr {
			fmt.Println("ERR", l)
		}
	}
	fmt.Println(time.Since(t0))
}
