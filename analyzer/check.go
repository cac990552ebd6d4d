package main

import (
	"fmt"
	"os"
	rdebug "runtime/debug"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var checks = map[string]func(r *Report){}

const deadline = 840 * time.Second

func runCheck(id string) int {
	t0 := time.Now()
	r := newReport(id)
	f := checks[id]
	if f == nil {
		r.undecided("nocheck", "there is no check for %s", id)
		return r.finish(t0)
	}
	os.Remove(verifDir() + "/evidence/" + id + ".violation.txt")
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				s := string(rdebug.Stack())
				if len(s) > 3000 {
					s = s[:3000]
				}
				fmt.Fprintln(os.Stderr, p, s)
				r.undecided("panic", "the analysis does not understand the code: %v", p)
			}
		}()
		f(r)
	}()
	select {
	case <-done:
	case <-time.After(deadline):
		r.undecided("timeout", "the analysis did not finish in time")
	}
	return r.finish(t0)
}

// forVariants runs f for each build variant at the same time.
func forVariants(r *Report, variants []string, f func(p *Program)) {
	var wg sync.WaitGroup
	for _, v := range variants {
		v := v
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					s := string(rdebug.Stack())
					if len(s) > 3000 {
						s = s[:3000]
					}
					fmt.Fprintln(os.Stderr, x, s)
					r.undecided("panic", "%s: the analysis does not understand the code: %v", v, x)
				}
			}()
			p, err := load(v)
			if err != nil {
				r.undecided("load", "%s: the package does not build: %v", v, err)
				return
			}
			f(p)
		}()
	}
	wg.Wait()
}

var bothVariants = []string{"default", "clibs"}

var (
	decEntries = []string{"NewDecoder", "Unmarshal", "(*Decoder).Unmarshal", "(*Decoder).UnmarshalHeader", "(*Decoder).UnmarshalHeaderBody", "(*Decoder).RegisterName"}
	insEntries = []string{"LooksLikeSereal", "DecompressDocument"}
	mrgEntries = []string{"NewMerger", "NewMergerV2", "NewMergerV3", "(*Merger).Append", "(*Merger).Finish"}
	encEntries = []string{"NewEncoder", "NewEncoderV2", "NewEncoderV3", "Marshal", "(*Encoder).Marshal", "(*Encoder).MarshalWithHeader"}
)

// analyse infers contracts for everything reachable from the entries and
// interprets every function once more to collect the obligations.
func (e *Engine) analyse(r *Report, names []string) ([]*ssa.Function, bool) {
	if e.cutsDone == false {
		e.setupCuts()
		e.cutsDone = true
	}
	var fs []*ssa.Function
	for _, n := range names {
		f := e.findFunc(n)
		if f == nil {
			r.undecided("anchor:"+n, "exported function %s is gone", n)
			return nil, false
		}
		fs = append(fs, f)
	}
	e.infer(fs)
	return fs, true
}

func safety(names []string, r *Report, rules func(o *Obl) bool) {
	r.Level = "proof"
	forVariants(r, bothVariants, func(p *Program) {
		e := newEngine(p)
		fs, ok := e.analyse(r, names)
		if !ok {
			return
		}
		reach := e.reachCuts(fs)
		for _, f := range fs {
			e.panics(r, f, e.runEntry(f))
		}
		for _, c := range e.cutList() {
			if reach[c.fn] {
				e.runCut(c)
			}
		}
		for _, o := range e.obl.sorted() {
			if !rules(o) {
				continue
			}
			r.check(o.failed == 0, o.rule, o.fn+":"+o.expr, o.pos, "%s: %s in %s: %s (%s)", o.rule, o.expr, o.fn, o.why, p.Variant)
		}
		for _, l := range e.loopErr {
			r.undecided("engine", "%s: %s", p.Variant, l)
		}
		nf := 0
		for f := range reach {
			if p.inPkg(f) {
				nf++
			}
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		r.Info["functions_"+p.Variant] = nf
		r.Info["paths_"+p.Variant] = e.paths
		r.Info["entailment_queries_"+p.Variant] = e.queries
		r.Info["steps_"+p.Variant] = e.steps
		r.Info["entries"] = names
		var cs []string
		for _, c := range e.cutList() {
			if reach[c.fn] {
				cs = append(cs, c.describe())
			}
		}
		r.Info["inferred_contracts_"+p.Variant] = cs
	})
	r.Trusted = append(r.Trusted, libTrust...)
	r.Assumptions = append(r.Assumptions, sizeAssume...)
}

// panics reports panics that leave an entry or a function under contract.
func (e *Engine) panics(r *Report, f *ssa.Function, outs []Outcome) {
	for _, o := range outs {
		if !o.panic || o.at == nil || callsRecover(o.at.Parent()) {
			continue // a handler that raises what it recovered: C07
		}
		if fname(f) == "(*Decoder).RegisterName" {
			continue // a call with a value that is no unmarshaler is a programming error
		}
		r.bad("panic", fname(f)+":"+fname(o.at.Parent()), e.pos(o.at), "a panic leaves %s (%s)", fname(f), e.p.Variant)
	}
}

// callsRecover reports whether f is a deferred handler.
func callsRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

var libTrust = []string{"the models of library functions in analyzer/models.go (bytes, encoding/binary, reflect, sync, compress/zlib, snappy, zstd): they fault only where the model says so"}

var sizeAssume = []string{
	"no slice or string is longer than 2^48 bytes",
	"exported integer options (ExpectedSize, thresholds, levels, limits) lie within 2^40 in absolute value",
	"user hooks do not re-enter the decoder, encoder or merger that calls them",
	"options are not changed while a call runs",
}

func init() {
	checks["C01"] = func(r *Report) {
		r.Explanation = "Path-sensitive abstract interpretation (linear inequalities, nil-ness, inferred loop invariants and function contracts) of every decoder entry point. Each index, slice, division, shift, dereference, type assertion, map write, make and library precondition reachable is an obligation; all must be entailed on every path."
		safety(decEntries, r, func(o *Obl) bool { return o.rule != "alloc" })
		r.atLeast("bounds", 60)
		r.atLeast("nilptr", 50)
	}
	checks["C02"] = func(r *Report) {
		r.Explanation = "As C01, for the merger: constructors, Append and Finish, with receiver invariants (held between calls) inferred and proved at every exit."
		safety(mrgEntries, r, func(o *Obl) bool { return o.rule != "alloc" })
		r.atLeast("bounds", 60)
	}
	checks["C03"] = func(r *Report) {
		r.Explanation = "As C01, for LooksLikeSereal and DecompressDocument."
		safety(insEntries, r, func(o *Obl) bool { return o.rule != "alloc" })
		r.atLeast("bounds", 20)
	}
	checks["C38"] = func(r *Report) {
		r.Explanation = "As C01, for Marshal and the encoder's methods: every operation reachable from them that can fault is an obligation proved on every path, with the contracts of the recursive writers inferred and proved."
		safety(encEntries, r, func(o *Obl) bool { return o.rule != "alloc" })
		r.atLeast("bounds", 20)
		r.atLeast("nilptr", 20)
	}
	checks["C04"] = func(r *Report) {
		r.Explanation = "Every make, every growing append and every library call that allocates a caller-given size, reachable from a decoder, merger or inspection entry: the size must be entailed to be at most a fixed multiple of the lengths of byte slices the caller supplied (or memory that exists already)."
		safety(append(append([]string{}, decEntries...), insEntries...), r, func(o *Obl) bool { return o.rule == "alloc" })
		r.atLeast("alloc", 20)
	}
}

var _ = strings.Join
