package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("SRL_DEBUG") != ""

func dbg(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// findFunc looks a function up by its short name.
func (e *Engine) findFunc(name string) *ssa.Function {
	for _, f := range e.p.Funcs {
		if fname(f) == name {
			return f
		}
	}
	return nil
}

// runEntry interprets a function called by a user.
func (e *Engine) runEntry(fn *ssa.Function) []Outcome {
	outs, _ := e.runEntryArgs(fn)
	return outs
}

func (e *Engine) runEntryArgs(fn *ssa.Function) ([]Outcome, []Value) {
	st := newState(e)
	args := e.rootArgs(fn, st)
	e.entry = fname(fn)
	inv := e.invOf(fn)
	sts := []*State{st}
	if inv != nil {
		sts = e.assumeInv(inv, st, args[0])
	}
	if e.onEntry != nil {
		var n []*State
		for _, s := range sts {
			n = append(n, e.onEntry(s, fn, args)...)
		}
		sts = n
	}
	var outs []Outcome
	for _, s := range sts {
		outs = append(outs, e.exec(fn, args, nil, s, nil, nil)...)
	}
	if e.dry > 0 {
		for _, o := range outs {
			if inv != nil && !o.panic && e.checkInv(inv, o.st, args[0], fname(fn)+" at "+e.pos(o.at)) {
				e.invChanged = true
			}
		}
		if e.checkNew(fn, outs) {
			e.invChanged = true
		}
	}
	return outs, args
}

// infer finds the strongest contracts of the cut functions that hold at all
// their calls and exits, starting from all candidates.
func (e *Engine) infer(entries []*ssa.Function) {
	e.dry, e.checkPre = 1, true
	reach := e.reachCuts(entries)
	for round := 0; ; round++ {
		changed := false
		for _, f := range entries {
			t := time.Now()
			e.preChanged, e.invChanged = false, false
			p, s := e.paths, e.steps
			e.runEntry(f)
			dbg("round %d entry %s: %v paths %d steps %d", round, fname(f), time.Since(t), e.paths-p, e.steps-s)
			changed = changed || e.preChanged || e.invChanged
		}
		for _, c := range e.cutList() {
			if !reach[c.fn] {
				continue
			}
			for {
				t := time.Now()
				e.preChanged = false
				p, s := e.paths, e.steps
				snap := e.snapshotCands()
				subs := len(c.subOf)
				outs, args, entry := e.runCut(c)
				ch := e.checkPosts(c, outs, args, entry)
				dbg("round %d cut %s: %v paths %d steps %d outs %d changed %v %v", round, fname(c.fn), time.Since(t), e.paths-p, e.steps-s, len(outs), e.preChanged, ch)
				if len(c.subOf) < subs {
					// a wrong assumption about the shape of results may have
					// spoilt others
					snap()
				}
				if !e.preChanged && !ch {
					break
				}
				changed = true
			}
		}
		if !changed || round > 12 {
			break
		}
	}
	e.dry, e.checkPre = 0, false
}

func (e *Engine) snapshotCands() func() {
	dead := map[*cand]bool{}
	for _, c := range e.cuts {
		for _, x := range append(append([]*cand(nil), c.pre...), c.post...) {
			dead[x] = x.dead
		}
	}
	return func() {
		for x, d := range dead {
			x.dead = d
		}
	}
}

func (e *Engine) reachCuts(entries []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range e.callees(f) {
			walk(g)
		}
	}
	for _, f := range entries {
		walk(f)
	}
	return seen
}

func (c *Contract) describe() string {
	var pre, post []string
	for _, x := range c.pre {
		if !x.dead {
			pre = append(pre, x.name)
		} else {
			dbg("   pre %s dropped: %s", x.name, x.why)
		}
	}
	for _, x := range c.post {
		if !x.dead {
			n := x.name
			if x.onNil {
				n += "(if err==nil)"
			}
			post = append(post, n)
		} else {
			dbg("   post %s dropped: %s", x.name, x.why)
		}
	}
	return fmt.Sprintf("%s: requires %s; ensures %s; keeps %v on error %v sub %v ext %v (%d)", fname(c.fn), strings.Join(pre, ", "), strings.Join(post, ", "), c.keep, c.keepE, c.subOf, c.extOf, c.extMin)
}
