package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"simverif/rt"
	"simverif/xos"
)

// Warm names the runs that a process had behind it when a violation appeared.
type Warm struct {
	Seed  uint64 `json:"seed"`
	First uint64 `json:"first"`
	Count uint64 `json:"count"`
}

// Replay is everything needed to see a violation again.
type Replay struct {
	Property  string     `json:"property"`
	Build     string     `json:"build"` // plain or race
	Violation *Violation `json:"violation"`
	Seed      uint64     `json:"seed"`  // VERIF_SEED of the search
	Index     uint64     `json:"index"` // number of the run
	Warm      *Warm      `json:"warm,omitempty"`
	Plan      *Plan      `json:"plan"`
	Note      string     `json:"note,omitempty"`
}

// Result is what one worker process reports.
type Result struct {
	Runs       int
	Steps      int64
	Checks     int64
	Skips      map[string]int
	Stats      map[string]int
	Ops        map[string]int
	Cond       map[string]int
	Sigs       []uint64 // runs that are non-trivial
	States     []uint64
	Inter      []uint64 // interleavings
	Switches   int64
	Sites      []uint64
	Maps       int64
	Samples    []string
	LogSums    []uint64
	Violations []*Replay
	Wall       float64
}

func add(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

func (r *Result) init() {
	r.Skips, r.Stats, r.Ops, r.Cond = map[string]int{}, map[string]int{}, map[string]int{}, map[string]int{}
}

// enter prepares a process for running plans: a scratch directory to be in,
// one processor for simulated tasks.
func enter(prop string) func() {
	if concGens[prop] != nil {
		runtime.GOMAXPROCS(1)
	}
	debug.SetMaxStack(256 << 20)
	defaultCarried()
	dir, err := os.MkdirTemp("", "simverif")
	must(err)
	must(os.Chdir(dir))
	return func() {
		_ = os.Chdir("/")
		if strings.HasPrefix(filepath.Base(dir), "simverif") {
			_ = os.RemoveAll(dir)
		}
	}
}

// nontrivial says whether a run exercised what its property is about.
func nontrivial(prop string, o *Outcome) bool {
	n := func(keys ...string) (t int) {
		for _, w := range o.Worlds {
			for _, k := range keys {
				t += w.cond[k] + w.ops[k] + w.stats[k]
			}
		}
		return
	}
	faults := 0
	for _, w := range o.Worlds {
		for k, v := range w.stats {
			if !legal(k) {
				faults += v
			}
		}
	}
	switch prop {
	case "C01", "C10":
		return n("save") > 0 && faults > 0
	case "C02":
		return faults > 0 || n("process lost while saving") > 0
	case "C03":
		return n("twin compared") > 0 || n("save failed") > 0
	case "C04":
		return n("opened") > 0
	case "C05":
		return n("opened") > 0 && n("save acknowledged") > 0
	case "C06":
		return faults > 0 || n("mangle") > 0
	case "C07":
		return n("pic", "picfile") > 0 && n("opened", "append", "split", "loaditems") > 0
	case "C22":
		return n("type of a picture added", "table of types left alone") > 0
	case "C25":
		return n("links printed", "split by text") > 0
	case "C24":
		return n("written differently") > 0
	case "C23":
		return n("references resolved") > 0 && n("relationship targets found") > 0
	case "C08":
		return n("link", "pic", "picfile") > 1
	case "C09":
		return n("pic", "picfile", "shape") > 1
	case "C15":
		return n("picture refused after a fault", "damaged picture refused", "damaged picture accepted") > 0
	case "C16":
		return n("split into several pieces", "separator.panic") > 0
	case "C17":
		return n("append") > 0
	case "C18":
		return n("repacked") > 0
	case "C20":
		return n("runs merged") > 0
	case "C21":
		return n("something filtered out") > 0
	case "C19":
		return n("tool output complete") > 0 || n("tool") > 0 && faults > 0
	case "C11", "C12", "C13", "C14":
		return o.NSwitch > int64(o.Tasks)
	}
	return true
}

func cmdWorker(fs *flag.FlagSet, args []string) int {
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	count := fs.Uint64("count", 1, "")
	out := fs.String("out", "", "")
	progress := fs.String("progress", "", "")
	logs := fs.Int("logs", 0, "")
	until := fs.Int64("until", 0, "")
	_ = fs.Parse(args)
	pf, err := os.OpenFile(*progress, os.O_RDWR|os.O_CREATE, 0o644)
	must(err)
	start := time.Now()
	leave := enter(*prop)
	r := &Result{}
	r.init()
	states, inter := map[uint64]bool{}, map[uint64]bool{}
	for i := *from; i < *from+*count; i++ {
		if *until > 0 && time.Now().UnixMilli() > *until && i > *from {
			break
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], i+1)
		_, _ = pf.WriteAt(b[:], 0)
		p := makePlan(*prop, *seed, i)
		o := runPlan(p, int(i-*from) < *logs)
		r.Runs++
		r.Steps += o.Steps
		r.Switches += o.NSwitch
		if o.Log != "" {
			r.LogSums = append(r.LogSums, hashString(o.Log))
		}
		if o.Skipped != "" {
			k, _, _ := strings.Cut(o.Skipped, ":")
			r.Skips[k]++
		}
		sig := o.Sig
		for _, w := range o.Worlds {
			add(r.Stats, w.stats)
			add(r.Ops, w.ops)
			add(r.Cond, w.cond)
			r.Checks += w.checks
			for s := range w.states {
				states[s] = true
				sig ^= s * 0x9E3779B97F4A7C15
			}
			for _, m := range []map[string]int{w.stats, w.ops, w.cond} {
				for k, v := range m {
					sig ^= hashString(fmt.Sprint(k, v)) * 0x100000001B3
				}
			}
		}
		if o.Tasks > 0 {
			inter[o.Sig] = true
		}
		if nontrivial(*prop, o) {
			r.Sigs = append(r.Sigs, sig)
			if len(r.Samples) == 0 {
				r.Samples = append(r.Samples, sample(p, o))
			}
		}
		if o.V != nil {
			rp := &Replay{Property: *prop, Build: build(), Violation: o.V, Seed: *seed, Index: i, Plan: p}
			if o.Tasks > 0 && !o.Overflow {
				rp.Plan = explicit(p, o)
			}
			rp.Warm = &Warm{Seed: *seed, First: *from, Count: i - *from}
			r.Violations = append(r.Violations, rp)
			break
		}
	}
	for s := range states {
		r.States = append(r.States, s)
	}
	for s := range inter {
		r.Inter = append(r.Inter, s)
	}
	r.Sites = rt.SiteSnapshot()
	r.Maps = rt.MapIters()
	r.Wall = time.Since(start).Seconds()
	leave()
	b, err := json.Marshal(r)
	must(err)
	must(os.WriteFile(*out, b, 0o644))
	return 0
}

func build() string {
	if raceBuild {
		return "race"
	}
	return "plain"
}

// explicit is the plan with the decisions the scheduler took.
func explicit(p *Plan, o *Outcome) *Plan {
	c := *p
	c.Sched = rt.Sched{Mode: rt.Explicit, Switches: o.Switches}
	return &c
}

// sample writes a run out in short.
func sample(p *Plan, o *Outcome) string {
	var sb strings.Builder
	ops := func(l []Op) {
		for i := range l {
			if i > 40 {
				fmt.Fprintf(&sb, " ...(%d steps)", len(l))
				return
			}
			fmt.Fprintf(&sb, " %s", l[i].K)
			if len(l[i].F) > 0 {
				fmt.Fprintf(&sb, "{%s}", strings.TrimSpace(describeFaults(l[i].F)))
			}
		}
	}
	fmt.Fprintf(&sb, "run %d:", p.Index)
	ops(p.Ops)
	for i, t := range p.Tasks {
		fmt.Fprintf(&sb, " | task %d:", i)
		ops(t)
	}
	if len(p.After) > 0 {
		sb.WriteString(" | after:")
		ops(p.After)
	}
	fmt.Fprintf(&sb, " => %d steps", o.Steps)
	if o.Tasks > 0 {
		fmt.Fprintf(&sb, ", %d switches, interleaving %016x", o.NSwitch, o.Sig)
	}
	for _, w := range o.Worlds[:1] {
		for _, k := range sortedKeys(w.cond) {
			fmt.Fprintf(&sb, "; %s %d", k, w.cond[k])
		}
		for _, k := range sortedKeys(w.stats) {
			fmt.Fprintf(&sb, "; %s %d", k, w.stats[k])
		}
	}
	return clip(sb.String(), 2500)
}

// warmUp repeats the runs that went before.
func warmUp(prop string, w *Warm) {
	if w == nil {
		return
	}
	for i := w.First; i < w.First+w.Count; i++ {
		runPlan(makePlan(prop, w.Seed, i), false)
	}
}

// cmdOne runs one replay file and reports the violation on standard output.
func cmdOne(fs *flag.FlagSet, args []string) int {
	in := fs.String("in", "", "")
	_ = fs.Parse(args)
	b, err := os.ReadFile(*in)
	must(err)
	var rp Replay
	must(unmarshal(b, &rp))
	leave := enter(rp.Property)
	warmUp(rp.Property, rp.Warm)
	o := runPlan(rp.Plan, false)
	leave()
	v, _ := json.Marshal(o.V)
	fmt.Printf("RESULT %s\n", v)
	return 0
}

func unmarshal(b []byte, v any) error {
	d := json.NewDecoder(bytes.NewReader(b))
	return d.Decode(v)
}

// cmdLog prints the hash of the event logs of some runs, or one log.
func cmdLog(fs *flag.FlagSet, args []string) int {
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Uint64("from", 0, "")
	count := fs.Uint64("count", 1, "")
	full := fs.Bool("full", false, "")
	_ = fs.Parse(args)
	leave := enter(*prop)
	defer leave()
	for i := *from; i < *from+*count; i++ {
		o := runPlan(makePlan(*prop, *seed, i), true)
		v := ""
		if o.V != nil {
			v = o.V.String()
		}
		fmt.Printf("%d %016x %d %d %016x %s %s\n", i, hashString(o.Log), o.Steps, o.NSwitch, o.Sig, o.Skipped, v)
		if *full {
			fmt.Println(o.Log)
		}
	}
	return 0
}

func cmdPlan(fs *flag.FlagSet, args []string) int {
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	index := fs.Uint64("index", 0, "")
	_ = fs.Parse(args)
	b, _ := json.MarshalIndent(makePlan(*prop, *seed, *index), "", " ")
	fmt.Println(string(b))
	return 0
}

// cmdReplay shows a violation again.
func cmdReplay(fs *flag.FlagSet, args []string) int {
	_ = fs.Parse(args)
	if fs.NArg() != 1 {
		usage()
	}
	path := fs.Arg(0)
	b, err := os.ReadFile(path)
	must(err)
	var rp Replay
	must(unmarshal(b, &rp))
	leave := enter(rp.Property)
	warmUp(rp.Property, rp.Warm)
	o := runPlan(rp.Plan, true)
	leave()
	if o.V == nil {
		fmt.Printf("the run of %s held: property=%s\n", path, rp.Property)
		return 0
	}
	fmt.Println(o.V)
	if o.V.Stack != "" {
		fmt.Println(o.V.Stack)
	}
	fmt.Printf("log %016x steps %d\n", hashString(o.Log), o.Steps)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

var _ = xos.Hook
