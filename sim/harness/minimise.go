package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"simverif/rt"
)

// minimiser shrinks a violating run while it keeps violating in the same way.
type minimiser struct {
	rp    *Replay
	until time.Time
	sub   bool // every candidate in a process of its own
	exe   string
	dir   string
	tries int
	wait  time.Duration // how long a candidate may take in a process of its own
}

func (m *minimiser) late() bool { return time.Now().After(m.until) }

// try runs a candidate. It returns the candidate as it should be kept.
func (m *minimiser) try(p *Plan) (*Plan, *Violation) {
	m.tries++
	if m.sub {
		c := *m.rp
		c.Plan = p
		v := runFresh(m.exe, m.dir, &c, m.wait)
		if v == nil || v.Class != m.rp.Violation.Class {
			return nil, nil
		}
		return p, v
	}
	o := runPlan(p, false)
	if o.V == nil || o.V.Class != m.rp.Violation.Class {
		return nil, nil
	}
	if o.Tasks > 0 {
		if o.Overflow {
			return nil, nil
		}
		p = explicit(p, o)
	}
	return p, o.V
}

// shrunk tries a candidate whose steps changed, which moves the places where
// a recorded schedule hands over, so several new schedules are tried as well.
func (m *minimiser) shrunk(p *Plan) (*Plan, *Violation) {
	if q, v := m.try(p); q != nil {
		return q, v
	}
	if len(p.Tasks) == 0 || m.sub {
		return nil, nil
	}
	r := NewRng(p.Seed, uint64(m.tries))
	for i := 0; i < 12 && !m.late(); i++ {
		c := *p
		c.Sched = rt.Sched{Seed: r.U64()}
		if i%2 == 0 {
			c.Sched.Mode, c.Sched.Prob = rt.Random, uint32(65536>>uint(r.R(1, 8)))
		} else {
			c.Sched.Mode, c.Sched.Depth, c.Sched.Length = rt.PCT, r.R(1, 3), int64(100)<<uint(r.N(12))
		}
		if q, v := m.try(&c); q != nil {
			return q, v
		}
	}
	return nil, nil
}

// ddmin removes chunks of a list of n elements while keep(candidate) succeeds.
// keep gets the indices that stay.
func (m *minimiser) ddmin(n int, keep func(idx []int) bool) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for size := (len(idx) + 1) / 2; size >= 1 && len(idx) > 0; {
		removed := false
		for at := len(idx); at > 0 && !m.late(); {
			from := at - size
			if from < 0 {
				from = 0
			}
			c := append(append([]int(nil), idx[:from]...), idx[at:]...)
			if keep(c) {
				idx = c
				removed = true
			}
			at = from
		}
		if m.late() {
			return
		}
		if !removed || size > len(idx) {
			size /= 2
		}
	}
}

func pickOps(l []Op, idx []int) []Op {
	out := make([]Op, 0, len(idx))
	for _, i := range idx {
		out = append(out, l[i])
	}
	return out
}

// run shrinks everything until nothing more can go.
func (m *minimiser) run() {
	accept := func(p *Plan, v *Violation) bool {
		if p == nil {
			return false
		}
		m.rp.Plan, m.rp.Violation = p, v
		return true
	}
	for round := 0; round < 4 && !m.late(); round++ {
		size := planSize(m.rp.Plan)
		// whole tasks
		for i := range m.rp.Plan.Tasks {
			if len(m.rp.Plan.Tasks[i]) == 0 {
				continue
			}
			c := clonePlan(m.rp.Plan)
			c.Tasks[i] = nil
			accept(m.shrunk(c))
		}
		base := m.rp.Plan.After
		m.ddmin(len(base), func(idx []int) bool {
			c := clonePlan(m.rp.Plan)
			c.After = pickOps(base, idx)
			return accept(m.shrunk(c))
		})
		for i := range m.rp.Plan.Tasks {
			base := m.rp.Plan.Tasks[i]
			m.ddmin(len(base), func(idx []int) bool {
				c := clonePlan(m.rp.Plan)
				c.Tasks[i] = pickOps(base, idx)
				return accept(m.shrunk(c))
			})
		}
		base = m.rp.Plan.Ops
		m.ddmin(len(base), func(idx []int) bool {
			c := clonePlan(m.rp.Plan)
			c.Ops = pickOps(base, idx)
			return accept(m.shrunk(c))
		})
		// faults
		for li := 0; li < 2+len(m.rp.Plan.Tasks); li++ {
			get := func(p *Plan) []Op {
				switch {
				case li == 0:
					return p.Ops
				case li == 1:
					return p.After
				}
				return p.Tasks[li-2]
			}
			for i := range get(m.rp.Plan) {
				for k := len(get(m.rp.Plan)[i].F) - 1; k >= 0 && !m.late(); k-- {
					c := clonePlan(m.rp.Plan)
					f := get(c)[i].F
					get(c)[i].F = append(append([]Fault(nil), f[:k]...), f[k+1:]...)
					accept(m.shrunk(c))
				}
			}
		}
		if planSize(m.rp.Plan) == size {
			break
		}
	}
	// the decisions of the scheduler
	if len(m.rp.Plan.Tasks) > 0 && m.rp.Plan.Sched.Mode == rt.Explicit {
		for round := 0; round < 3 && !m.late(); round++ {
			base := m.rp.Plan.Sched.Switches
			m.ddmin(len(base), func(idx []int) bool {
				c := clonePlan(m.rp.Plan)
				c.Sched.Switches = nil
				for _, i := range idx {
					c.Sched.Switches = append(c.Sched.Switches, base[i])
				}
				p, v := m.try(c)
				if p == nil {
					return false
				}
				m.rp.Violation = v
				c2 := *c // keep what was decided, not what happened to be forced
				m.rp.Plan = &c2
				return true
			})
			if len(m.rp.Plan.Sched.Switches) == len(base) {
				break
			}
		}
	}
}

func planSize(p *Plan) int {
	n := 0
	add := func(l []Op) {
		for i := range l {
			n += 1 + len(l[i].F)
		}
	}
	add(p.Ops)
	add(p.After)
	for _, t := range p.Tasks {
		add(t)
	}
	return n
}

func clonePlan(p *Plan) *Plan {
	c := *p
	cl := func(l []Op) []Op { return append([]Op(nil), l...) }
	c.Ops, c.After = cl(p.Ops), cl(p.After)
	c.Tasks = make([][]Op, len(p.Tasks))
	for i := range p.Tasks {
		c.Tasks[i] = cl(p.Tasks[i])
	}
	if len(p.Tasks) == 0 {
		c.Tasks = nil
	}
	return &c
}

// runFresh runs a replay in a process of its own and returns its violation. A
// process that dies or does not end is one too.
func runFresh(exe, dir string, rp *Replay, wait time.Duration) *Violation {
	f, err := os.CreateTemp(dir, "cand*.json")
	must(err)
	b, err := json.Marshal(rp)
	must(err)
	_, err = f.Write(b)
	must(err)
	must(f.Close())
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "one", "-in", f.Name())
	cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	var errb tailBuffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return &Violation{Prop: rp.Property, Class: "hang", Msg: fmt.Sprintf("the run did not end within %v", wait)}
	}
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			var v *Violation
			must(json.Unmarshal([]byte(l[7:]), &v))
			return v
		}
	}
	if err != nil {
		if strings.Contains(errb.String(), "harness:") {
			return nil
		}
		return &Violation{Prop: rp.Property, Class: "fatal", Msg: "the process died: " + firstLine(errb.String())}
	}
	return nil
}

type tailBuffer struct{ b []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if len(t.b) < 16384 {
		n := 16384 - len(t.b)
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}

func (t *tailBuffer) String() string { return string(t.b) }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return clip(l, 300)
		}
	}
	return clip(strings.TrimSpace(s), 300)
}

func cmdMinimise(fs *flag.FlagSet, args []string) int {
	in := fs.String("in", "", "")
	out := fs.String("out", "", "")
	secs := fs.Int("secs", 30, "")
	sub := fs.Bool("sub", false, "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(*in)
	must(err)
	var rp Replay
	must(unmarshal(b, &rp))
	exe, err := os.Executable()
	must(err)
	dir := filepath.Dir(*out)
	leave := enter(rp.Property)
	defer leave()
	m := &minimiser{rp: &rp, until: time.Now().Add(time.Duration(*secs) * time.Second), sub: *sub, exe: exe, dir: dir, wait: 60 * time.Second}
	if *sub && rp.Violation.Class == "hang" {
		m.wait = 20 * time.Second
	}
	m.run()
	b, err = json.MarshalIndent(m.rp, "", " ")
	must(err)
	must(os.WriteFile(*out, b, 0o644))
	return 0
}
