package main

import (
	"strings"

	"simverif/rt"
)

// Outcome is what one run gave.
type Outcome struct {
	V        *Violation
	Skipped  string
	Steps    int64
	Log      string
	Switches []rt.Switch
	NSwitch  int64
	Sig      uint64
	Tasks    int
	Overflow bool
	Worlds   []*World
}

// stepBudget bounds the instrumented statements of one run: a run needs far
// fewer, so reaching it means that something does not terminate.
const stepBudget = 400_000_000

// runPlan executes a plan from an empty world.
func runPlan(p *Plan, logging bool) *Outcome {
	out := &Outcome{}
	rt.Reset(stepBudget, p.MapSeed)
	shareRules(p)
	if len(p.Tasks) > 0 {
		runTasks(p, out, logging)
		return out
	}
	w := newWorld(p.Prop, p.Seed)
	w.plan = p
	if logging {
		w.log = &strings.Builder{}
	}
	w.install()
	out.Worlds = []*World{w}
	out.V, out.Skipped = protect(w, func() {
		for i := range p.Ops {
			w.exec(&p.Ops[i])
		}
	})
	out.Steps = rt.Steps()
	if w.log != nil {
		out.Log = w.log.String()
	}
	return out
}
