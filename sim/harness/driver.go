package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// budget says how many runs of a property a tier makes, in how large chunks,
// and after how long it stops in any case.
type budget struct {
	quick, thorough uint64
	chunk           uint64
}

var budgets = map[string]budget{
	"C01": {12000, 300000, 100},
	"C02": {6000, 150000, 100},
	"C03": {8000, 200000, 100},
	"C04": {12000, 300000, 100},
	"C05": {8000, 200000, 100},
	"C06": {9000, 150000, 100},
	"C07": {12000, 300000, 100},
	"C08": {12000, 300000, 100},
	"C09": {12000, 300000, 100},
	"C10": {10000, 250000, 100},
	"C11": {12000, 400000, 50},
	"C12": {7200, 150000, 50},
	"C13": {3200, 60000, 25},
	"C14": {900, 40000, 20},
	"C15": {15000, 400000, 100},
	"C16": {8000, 200000, 100},
	"C17": {8000, 200000, 100},
	"C18": {12000, 300000, 100},
	"C19": {8000, 200000, 100},
	"C20": {12000, 200000, 100},
	"C21": {10000, 200000, 100},
	"C22": {10000, 250000, 100},
	"C23": {10000, 250000, 100},
	"C24": {14000, 250000, 100},
	"C25": {10000, 250000, 100},
}

type driver struct {
	prop, tier string
	seed       uint64
	exe, race  string
	dir        string // scratch
	replays    string
	cap        time.Duration
	start      time.Time
	total      Result
	states     map[uint64]bool
	inter      map[uint64]bool
	sigs       map[uint64]bool
	byBuild    map[string]int
	logs       map[uint64][]uint64
	trouble    []string
	procs      int
}

type chunk struct {
	from, count uint64
	exe         string
	logs        int
	again       bool // repeats a chunk to compare its event logs
}

type chunkDone struct {
	c   chunk
	r   *Result
	rp  *Replay // a process that died or hung
	bad string  // trouble of the harness itself
}

func (d *driver) env(id int) []string {
	log := filepath.Join(d.dir, fmt.Sprintf("race%d", id))
	return append(os.Environ(),
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 history_size=4 log_path="+log,
		"SIMRACELOG="+log, "GOGC=400", "TMPDIR="+d.dir, "GOTRACEBACK=single")
}

const stallLimit = 150 * time.Second

// runChunk runs one worker process and watches it.
func (d *driver) runChunk(c chunk, id int, until time.Time) chunkDone {
	out := filepath.Join(d.dir, fmt.Sprintf("out%d.json", id))
	prog := filepath.Join(d.dir, fmt.Sprintf("prog%d", id))
	_ = os.Remove(out)
	_ = os.WriteFile(prog, make([]byte, 8), 0o644)
	args := []string{"worker", "-prop", d.prop, "-seed", strconv.FormatUint(d.seed, 10),
		"-from", strconv.FormatUint(c.from, 10), "-count", strconv.FormatUint(c.count, 10),
		"-out", out, "-progress", prog, "-logs", strconv.Itoa(c.logs)}
	if !c.again {
		args = append(args, "-until", strconv.FormatInt(until.UnixMilli(), 10))
	}
	cmd := exec.Command(c.exe, args...)
	cmd.Env = d.env(id)
	var errb tailBuffer
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		return chunkDone{c: c, bad: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := uint64(0), time.Now()
	at := func() uint64 {
		b, err := os.ReadFile(prog)
		if err != nil || len(b) < 8 {
			return 0
		}
		return binary.LittleEndian.Uint64(b)
	}
	hung := false
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-time.After(500 * time.Millisecond):
			if n := at(); n != last {
				last, since = n, time.Now()
			} else if time.Since(since) > stallLimit {
				hung = true
				_ = cmd.Process.Kill()
				werr = <-done
				break wait
			}
		}
	}
	if b, err := os.ReadFile(out); err == nil && werr == nil {
		var r Result
		if err := json.Unmarshal(b, &r); err != nil {
			return chunkDone{c: c, bad: err.Error()}
		}
		return chunkDone{c: c, r: &r}
	}
	n := at()
	if strings.Contains(errb.String(), "harness:") || n == 0 {
		return chunkDone{c: c, bad: "worker failed: " + clip(errb.String(), 2000)}
	}
	i := n - 1
	p := makePlan(d.prop, d.seed, i)
	v := &Violation{Prop: d.prop, Class: "fatal", Msg: "the process died: " + firstLine(errb.String())}
	if hung {
		v = &Violation{Prop: d.prop, Class: "hang", Msg: fmt.Sprintf("the run did not end within %v", stallLimit)}
	} else if s := errb.String(); !strings.Contains(s, "fatal error") && !strings.Contains(s, "panic") {
		// killed from outside, out of memory: not the library's doing for sure
		return chunkDone{c: c, bad: fmt.Sprintf("worker ended in run %d: %v %s", i, werr, clip(s, 1000))}
	}
	bd := "plain"
	if c.exe == d.race {
		bd = "race"
	}
	return chunkDone{c: c, rp: &Replay{Property: d.prop, Build: bd, Violation: v, Seed: d.seed, Index: i, Plan: p,
		Warm: &Warm{Seed: d.seed, First: c.from, Count: i - c.from}}}
}

func cmdRun(fs *flag.FlagSet, args []string) int {
	d := &driver{start: time.Now(), states: map[uint64]bool{}, inter: map[uint64]bool{}, sigs: map[uint64]bool{}, byBuild: map[string]int{}, logs: map[uint64][]uint64{}}
	fs.StringVar(&d.prop, "prop", "", "property")
	fs.StringVar(&d.tier, "tier", "quick", "quick or thorough")
	fs.Uint64Var(&d.seed, "seed", 1, "seed")
	fs.StringVar(&d.race, "race", "", "the race-detecting build of this program")
	fs.StringVar(&d.dir, "dir", "", "scratch directory")
	fs.StringVar(&d.replays, "replays", "", "directory of the replay files")
	evidence := fs.String("evidence", "", "evidence file")
	sites := fs.String("sites", "", "list of instrumented statements")
	runs := fs.Uint64("runs", 0, "number of runs instead of the budget's")
	secs := fs.Int("secs", 0, "time limit in seconds instead of the budget's")
	buildSecs := fs.Float64("buildsecs", 0, "seconds already spent")
	_ = fs.Parse(args)
	b, ok := budgets[d.prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", d.prop)
		return 2
	}
	d.exe, _ = os.Executable()
	n := b.quick
	d.cap = 90 * time.Second
	if d.tier == "thorough" {
		n, d.cap = b.thorough, 600*time.Second
	}
	if *runs > 0 {
		n = *runs
	}
	if *secs > 0 {
		d.cap = time.Duration(*secs) * time.Second
	}
	d.procs = runtime.NumCPU()
	d.total.init()
	conc := concGens[d.prop] != nil
	var chunks []chunk
	for from, k := uint64(0), 0; from < n; from, k = from+b.chunk, k+1 {
		c := chunk{from: from, count: b.chunk, exe: d.exe}
		if from+c.count > n {
			c.count = n - from
		}
		if conc && d.race != "" && k%4 != 3 {
			c.exe = d.race
		}
		if k < 2 {
			c.logs = int(c.count)
			if c.logs > 20 {
				c.logs = 20
			}
		}
		chunks = append(chunks, c)
	}
	// the first runs once more in other processes: same seed, same execution?
	for k := 0; k < 2 && k < len(chunks); k++ {
		c := chunks[k]
		c.count, c.again = uint64(c.logs), true
		chunks = append([]chunk{c}, chunks...)
	}
	until := d.start.Add(d.cap)
	next, running := 0, 0
	results := make(chan chunkDone)
	free := []int{}
	for i := 0; i < d.procs; i++ {
		free = append(free, i)
	}
	type slotDone struct {
		chunkDone
		id int
	}
	sd := make(chan slotDone)
	var found *Replay
	for {
		for found == nil && len(d.trouble) == 0 && next < len(chunks) && len(free) > 0 && time.Now().Before(until) {
			id := free[len(free)-1]
			free = free[:len(free)-1]
			c := chunks[next]
			next++
			running++
			go func() { sd <- slotDone{d.runChunk(c, id, until), id} }()
		}
		if running == 0 {
			break
		}
		x := <-sd
		running--
		free = append(free, x.id)
		switch {
		case x.bad != "":
			d.trouble = append(d.trouble, x.bad)
		case x.rp != nil:
			found = better(found, x.rp)
		default:
			if v := d.merge(x.c, x.r); v != nil {
				found = better(found, v)
			}
		}
	}
	close(results)
	code := 0
	violations := 0
	if found != nil {
		violations = 1
		code = 1
		path := d.report(found)
		fmt.Println(found.Violation)
		if found.Violation.Stack != "" {
			fmt.Println(clip(found.Violation.Stack, 2500))
		}
		fmt.Printf("seed %d run %d (%s build), replay file with %d steps and %d scheduling decisions\n", d.seed, found.Index, found.Build, planSize(found.Plan), len(found.Plan.Sched.Switches))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
	} else if len(d.trouble) > 0 {
		for _, t := range d.trouble {
			fmt.Fprintln(os.Stderr, "trouble:", t)
		}
		code = 2
	}
	wall := time.Since(d.start).Seconds() + *buildSecs
	d.evidence(*evidence, *sites, wall, violations)
	fmt.Printf("%s %s: %d runs, %d steps, %d checks, %d distinct non-trivial runs, %d violations, %.1f s\n", d.prop, d.tier, d.total.Runs, d.total.Steps, d.total.Checks, len(d.sigs), violations, wall)
	return code
}

// better prefers what appeared first, and anything to a hang.
func better(a, b *Replay) *Replay {
	if a == nil {
		return b
	}
	if (a.Violation.Class == "hang") != (b.Violation.Class == "hang") {
		if a.Violation.Class == "hang" {
			return b
		}
		return a
	}
	if b.Index < a.Index {
		return b
	}
	return a
}

func (d *driver) merge(c chunk, r *Result) *Replay {
	if c.logs > 0 {
		if o, ok := d.logs[c.from]; ok {
			for i := 0; i < len(o) && i < len(r.LogSums); i++ {
				d.total.Cond["runs repeated in another process"]++
				if o[i] == r.LogSums[i] {
					d.total.Cond["of these with the same event log"]++
				}
			}
		} else {
			d.logs[c.from] = r.LogSums
		}
	}
	if !c.again {
		t := &d.total
		t.Runs += r.Runs
		t.Steps += r.Steps
		t.Checks += r.Checks
		t.Switches += r.Switches
		t.Maps += r.Maps
		add(t.Skips, r.Skips)
		add(t.Stats, r.Stats)
		add(t.Ops, r.Ops)
		add(t.Cond, r.Cond)
		if c.exe == d.race {
			d.byBuild["race"] += r.Runs
		} else {
			d.byBuild["plain"] += r.Runs
		}
		if t.Sites == nil {
			t.Sites = make([]uint64, len(r.Sites))
		}
		for i, s := range r.Sites {
			t.Sites[i] |= s
		}
		for _, s := range r.Sigs {
			d.sigs[s] = true
		}
		for _, s := range r.States {
			d.states[s] = true
		}
		for _, s := range r.Inter {
			d.inter[s] = true
		}
		if len(t.Samples) < 3 {
			t.Samples = append(t.Samples, r.Samples...)
		}
	}
	if len(r.Violations) > 0 {
		return r.Violations[0]
	}
	return nil
}

// report minimises a violation and writes its replay file.
func (d *driver) report(rp *Replay) string {
	must(os.MkdirAll(d.replays, 0o755))
	exe := d.exe
	if rp.Build == "race" {
		exe = d.race
	}
	must(os.Setenv("GORACE", ""))
	for _, e := range d.env(99) {
		k, v, _ := strings.Cut(e, "=")
		if k == "GORACE" || k == "SIMRACELOG" || k == "TMPDIR" || k == "GOTRACEBACK" {
			must(os.Setenv(k, v))
		}
	}
	wait := 60 * time.Second
	if rp.Violation.Class == "hang" {
		wait = 30 * time.Second
	}
	warm := rp.Warm
	rp.Warm = nil
	same := func(c *Replay) bool {
		v := runFresh(exe, d.dir, c, wait)
		return v != nil && v.Class == rp.Violation.Class
	}
	ok := same(rp)
	if !ok && warm != nil && warm.Count > 0 {
		for _, k := range []uint64{1, 4, 1 << 40} {
			if k > warm.Count {
				k = warm.Count
			}
			rp.Warm = &Warm{Seed: warm.Seed, First: warm.First + warm.Count - k, Count: k}
			if ok = same(rp); ok {
				rp.Note = "needs the runs that went before it in the same process"
				break
			}
			if k == warm.Count {
				break
			}
		}
	}
	if !ok {
		rp.Warm = warm
		rp.Note = "did not appear again in a fresh process"
	}
	if ok {
		in := filepath.Join(d.dir, "violation.json")
		out := filepath.Join(d.dir, "minimal.json")
		b, _ := json.Marshal(rp)
		must(os.WriteFile(in, b, 0o644))
		_ = os.Remove(out)
		sub := rp.Warm != nil || rp.Violation.Class == "fatal" || rp.Violation.Class == "hang"
		secs := 40
		if d.tier == "thorough" {
			secs = 120
		}
		cmd := exec.Command(exe, "minimise", "-in", in, "-out", out, "-secs", strconv.Itoa(secs), "-sub="+strconv.FormatBool(sub))
		var errb tailBuffer
		cmd.Stderr = &errb
		if err := cmd.Run(); err == nil {
			if b, err := os.ReadFile(out); err == nil {
				var m Replay
				if unmarshal(b, &m) == nil && same(&m) {
					*rp = m
				} else if c := byProcess(exe, d.dir, rp, wait, secs); c != nil {
					*rp = *c
				}
			}
		}
	}
	path := filepath.Join(d.replays, fmt.Sprintf("%s-%d-%d.json", d.prop, d.seed, rp.Index))
	b, _ := json.MarshalIndent(rp, "", " ")
	must(os.WriteFile(path, append(b, '\n'), 0o644))
	return path
}

// byProcess minimises with a process for every candidate, for violations that
// depend on what a process did before.
func byProcess(exe, dir string, rp *Replay, wait time.Duration, secs int) *Replay {
	c := *rp
	m := &minimiser{rp: &c, until: time.Now().Add(time.Duration(secs) * time.Second), sub: true, exe: exe, dir: dir, wait: wait}
	m.run()
	return m.rp
}

type siteInfo struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func (d *driver) evidence(path, sites string, wall float64, violations int) {
	if path == "" {
		return
	}
	t := &d.total
	hours := time.Since(d.start).Hours()
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": len(d.sigs),
		"rule":                rules(d.prop),
		"samples":             t.Samples,
		"runs_per_hour":       int64(float64(t.Runs) / hours),
		"seeds_per_hour":      int64(float64(t.Runs) / hours),
		"simulated_time":      fmt.Sprintf("%d steps (statements of the library and simulated calls); the library reads no clock, so steps are the only time there is", t.Steps),
		"simulated_steps":     t.Steps,
		"checks_evaluated":    t.Checks,
		"fault_kinds":         t.Stats,
		"steps_by_kind":       t.Ops,
		"conditions":          t.Cond,
		"distinct_states":     len(d.states),
		"state_measure":       "distinct contents of a live document (or result sets of a task) seen at a check",
		"map_orders_decided":  t.Maps,
		"runs_cut_short":      t.Skips,
		"runs_by_build":       d.byBuild,
		"real_components":     "all source files of package docx (instrumented with yield points, otherwise unchanged), archive/zip, compress/flate, encoding/xml, image decoders, embedded templates",
		"stub_components":     "destination writer, source storage, template file system, picture files (os.ReadFile), sync and sync/atomic (scheduled, still doing the real operation), map iteration order, in race builds sync.Pool",
	}
	if d.prop == "C19" {
		cov["real_components"] = cov["real_components"].(string) + ", main of the command line tool with flag and regexp"
		cov["stub_components"] = "package os (a simulated disk: files, folders, names, temporary files, exit), log (writes there), " + cov["stub_components"].(string)
	}
	if len(t.Samples) == 0 {
		cov["samples"] = []string{"(none)"}
	}
	if concGens[d.prop] != nil {
		cov["distinct_interleavings"] = len(d.inter)
		cov["interleaving_measure"] = "distinct sequences of (statement, task handed over to) over a whole run"
		cov["task_switches"] = t.Switches
	}
	if b, err := os.ReadFile(sites); err == nil && t.Sites != nil {
		var l []siteInfo
		if json.Unmarshal(b, &l) == nil {
			hit := 0
			missed := map[string]int{}
			all := map[string]int{}
			for _, s := range l {
				all[s.Func]++
				if t.Sites[s.ID>>6]>>(uint(s.ID)&63)&1 == 1 {
					hit++
				} else {
					missed[s.Func]++
				}
			}
			var never []string
			for f, n := range missed {
				if n == all[f] {
					never = append(never, f)
				}
			}
			sort.Strings(never)
			cov["statements_reached"] = hit
			cov["statements_total"] = len(l)
			cov["functions_never_entered"] = never
		}
	}
	lvl := "exploration"
	ev := map[string]any{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": lvl, "coverage": cov,
		"assumptions": assumptions(d.prop), "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, append(b, '\n'), 0o644))
}

func rules(prop string) string {
	s := "A case is one simulated run: a history of steps and faults generated from (seed, property, run number)"
	if concGens[prop] != nil {
		s += ", executed by several simulated tasks under a seeded scheduler (random hand-over or priority change points). Non-trivial: the scheduler handed over more often than starting and ending the tasks requires. Distinct: by the sequence of hand-overs together with the results."
		return s
	}
	what := map[string]string{
		"C01": "at least one save and one fault that really struck",
		"C02": "a fault struck, a prefix was cut or the process died while saving",
		"C03": "a save was compared with a twin's or a save failed",
		"C04": "a saved or foreign package was opened",
		"C05": "an opened package was saved again",
		"C06": "storage was damaged or failed, or the package was mangled",
		"C07": "pictures were added and a document opened, appended or split",
		"C08": "at least two relationships were made",
		"C09": "at least two drawings were added",
		"C10": "at least one save and one fault that really struck",
		"C15": "a picture was damaged or its file failed",
		"C16": "a split gave several pieces or its separator died",
		"C17": "an append happened",
		"C18": "a package was stored in another way and compared",
		"C20": "runs of a paragraph were merged",
		"C22": "a package with pictures was saved whose table of types could be checked",
		"C23": "a document whose body refers to relationships was saved",
		"C24": "the XML of a package was written in another way and compared",
		"C25": "a document was split by its text or a paragraph with a link was printed",
		"C21": "a filter took something away",
		"C19": "the tool ran, and wrote what it was asked to or met a fault",
	}
	return s + ". Non-trivial: " + what[prop] + ". Distinct: by the set of contents reached and the steps, faults and conditions counted."
}

func assumptions(prop string) []string {
	l := []string{
		"pseudo-random search: what no seed reached is not covered",
		"the packages generated are of the kind Word and this library write (see DESIGN.md)",
	}
	if concGens[prop] != nil {
		l = append(l, "tasks switch at statements, locks, atomics and simulated I/O; smaller steps are covered by the race detector (75% of the runs), which does not look into compress/flate, hash/crc32, image and crypto")
	} else {
		l = append(l, "one caller at a time")
	}
	return l
}
