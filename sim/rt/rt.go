// Package rt is the simulator runtime that the instrumented copy of the
// library is linked against. It owns the only scheduler the simulated callers
// see: exactly one simulated task runs at any time, and the only places where
// another one can be chosen are the yield points (Y) the instrumenter inserts
// before every statement, the simulated locks and atomics (xsync, xatomic) and
// the simulated I/O calls of the harness.
//
// Everything in this file that runs while tasks are active is go:norace and
// touches only plain variables and fixed arrays: the hand-over between tasks
// must not create happens-before edges, or the race detector could no longer
// see that two tasks touched the same word without synchronising.
package rt

import (
	"fmt"
	"runtime"
	"sort"
	"sync"
)

const (
	// MaxTasks bounds the number of simulated callers of one run, with the
	// goroutines the library starts.
	MaxTasks = 120
	// MaxSwitches bounds the recorded schedule of one run.
	MaxSwitches = 1 << 16
	// MaxSites bounds the number of instrumented statements.
	MaxSites = 1 << 16
)

// Switch is one scheduling decision: at yield number At, hand over to task To.
type Switch struct {
	At int64 `json:"at"`
	To int   `json:"to"`
}

// Mode selects how decisions are made.
type Mode int

const (
	// Explicit replays a recorded list of decisions.
	Explicit Mode = iota
	// Random hands over with a fixed probability at every yield point.
	Random
	// PCT runs the highest-priority task, lowering it at a few random points.
	PCT
	// Hot hands over seldom, except at a few of the statements, picked by the
	// seed: there it does half of the time.
	Hot
	// Sync hands over seldom, except at and right after locks, atomic
	// operations and simulated I/O.
	Sync
)

// Sched is one schedule: how decisions are made, or the decisions themselves.
type Sched struct {
	Mode     Mode     `json:"mode"`
	Seed     uint64   `json:"seed,omitempty"`
	Prob     uint32   `json:"prob,omitempty"`   // Random: chance out of 65536 per yield
	Depth    int      `json:"depth,omitempty"`  // PCT: change points
	Length   int64    `json:"length,omitempty"` // PCT: estimated yields
	Den      uint64   `json:"den,omitempty"`    // Hot: one out of that many statements; Sync: one out of that many times
	Switches []Switch `json:"switches,omitempty"`
}

// Deadlock is the panic value in every task once no task can run.
type Deadlock struct{}

func (Deadlock) Error() string { return "deadlock: every simulated task is blocked" }

// NoProgress is the panic value when a run exceeds its step budget.
type NoProgress struct{ Steps int64 }

func (n NoProgress) Error() string {
	return fmt.Sprintf("no progress: more than %d steps without finishing", n.Steps)
}

const (
	stRun = iota
	stBlocked
	stDone
)

var (
	active  bool // tasks are running
	single  bool // one processor is used, as it must be while tasks run
	wild    bool // the library has started goroutines in this run
	adhoc   bool // tasks other than the callers of a run: see Go
	thrown  any  // what a task of that kind panicked with
	aborted bool
	dead    bool
	turn    int
	current = -1 // the running task, or -1 outside of runs
	ntasks  int
	callers int // how many of the tasks are not goroutines of the library
	state   [MaxTasks]int8
	waitOn  [MaxTasks]*bool

	steps  int64
	budget int64 = 1 << 40

	mode     Mode
	rnd      uint64
	prob     uint32
	den      uint64
	hotSeed  uint64
	after    bool // the yield before was one of a lock or an atomic
	prio     [MaxTasks]int64
	chg      [64]int64
	nchg     int
	lowprio  int64
	exAt     []int64 // explicit decisions
	exTo     []int
	exN      int
	exI      int
	recAt    [MaxSwitches]int64
	recTo    [MaxSwitches]int8
	recN     int
	overflow bool
	sig      uint64
	switches int64

	sites   [MaxSites / 64]uint64
	mapRnd  uint64
	taskMap [MaxTasks]uint64 // one stream per task
	mapIter int64

	wg sync.WaitGroup
)

//go:norace
func next() uint64 {
	rnd += 0x9E3779B97F4A7C15
	z := rnd
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Y is a yield point.
//
//go:norace
func Y(site int32) {
	if site >= 0 {
		sites[site>>6] |= 1 << (uint(site) & 63)
	}
	steps++
	if !active {
		if steps > budget {
			steps = 0
			panic(NoProgress{budget})
		}
		return
	}
	if aborted {
		return
	}
	if steps > budget {
		aborted = true
		panic(NoProgress{budget})
	}
	me := turn
	to := -1
	switch mode {
	case Explicit:
		for exI < exN && exAt[exI] < steps {
			exI++
		}
		if exI < exN && exAt[exI] == steps {
			to = exTo[exI]
			exI++
		}
	case Random:
		if uint32(next()&0xFFFF) < prob {
			to = pickRandom(me)
		}
	case Hot:
		h := (uint64(uint32(site)) ^ hotSeed) * 0x9E3779B97F4A7C15
		if (h>>20)%den == 0 {
			if next()&1 == 0 {
				to = pickRandom(me)
			}
		} else if uint32(next()&0xFFFF) < prob {
			to = pickRandom(me)
		}
	case Sync:
		if site < 0 || after {
			if next()%den == 0 {
				to = pickRandom(me)
			}
		} else if uint32(next()&0xFFFF) < prob {
			to = pickRandom(me)
		}
		after = site < 0
	case PCT:
		for i := 0; i < nchg; i++ {
			if chg[i] == steps {
				lowprio--
				prio[me] = lowprio
			}
		}
		to = pickPrio()
	}
	if to < 0 || to == me || to >= ntasks || state[to] != stRun {
		return
	}
	handover(me, to, site)
}

//go:norace
func pickRandom(me int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != me && state[i] == stRun {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(next() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if i != me && state[i] == stRun {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func pickPrio() int {
	best := -1
	for i := 0; i < ntasks; i++ {
		if state[i] == stRun && (best < 0 || prio[i] > prio[best]) {
			best = i
		}
	}
	return best
}

// forced chooses who goes on when the current task cannot.
//
//go:norace
func forced(me int) int {
	to := -1
	switch mode {
	case Explicit:
		for exI < exN && exAt[exI] < steps {
			exI++
		}
		if exI < exN && exAt[exI] == steps {
			to = exTo[exI]
			exI++
		}
	case Random, Hot, Sync:
		to = pickRandom(me)
	case PCT:
		to = pickPrio()
	}
	if to >= 0 && to < ntasks && state[to] == stRun {
		return to
	}
	for i := 0; i < ntasks; i++ {
		if state[i] == stRun {
			return i
		}
	}
	return -1
}

//go:norace
func record(to int, site int32) {
	switches++
	sig = (sig ^ uint64(uint32(site))) * 0x100000001B3
	sig = (sig ^ uint64(to)) * 0x100000001B3
	if recN < MaxSwitches {
		recAt[recN] = steps
		recTo[recN] = int8(to)
		recN++
	} else {
		overflow = true
	}
}

//go:norace
func handover(me, to int, site int32) {
	record(to, site)
	turn, current = to, to
	park(me)
}

//go:norace
func park(me int) {
	for turn != me {
		runtime.Gosched()
	}
	if adhoc && me == 0 && thrown != nil {
		x := thrown
		drain(true)
		panic(x)
	}
	if aborted && dead {
		panic(Deadlock{})
	}
}

// leave is called by a task that is done: it hands the turn over for good.
//
//go:norace
func leave(me int) {
	state[me] = stDone
	steps++
	if adhoc && alive() == 0 {
		over()
		return
	}
	to := forced(me)
	if to >= 0 {
		record(to, -3)
		turn, current = to, to
		return
	}
	// nobody runnable: blocked tasks left means deadlock
	for i := 0; i < ntasks; i++ {
		if state[i] == stBlocked {
			aborted, dead = true, !adhoc || thrown == nil
			state[i] = stRun
			turn, current = i, i
			return
		}
	}
	turn, current = -1, -1
}

//go:norace
func begin(me int) {
	for turn != me {
		runtime.Gosched()
	}
}

// Acquire takes a simulated lock flag, blocking the calling task while it is
// held.
//
//go:norace
func Acquire(held *bool) {
	if !active || aborted {
		if *held {
			if aborted {
				return
			}
			panic(Deadlock{})
		}
		*held = true
		return
	}
	for *held {
		Block(held)
		if aborted {
			return
		}
	}
	*held = true
}

// Block parks the calling task until Wake(on) is called.
//
//go:norace
func Block(on *bool) {
	if !active {
		panic(Deadlock{})
	}
	if aborted {
		return
	}
	me := turn
	state[me] = stBlocked
	waitOn[me] = on
	steps++
	to := forced(me)
	if to < 0 {
		aborted, dead = true, true
		state[me] = stRun
		panic(Deadlock{})
	}
	handover(me, to, -2)
}

// Wake makes every task blocked on that flag runnable.
//
//go:norace
func Wake(on *bool) {
	for i := 0; i < ntasks; i++ {
		if state[i] == stBlocked && waitOn[i] == on {
			state[i] = stRun
			waitOn[i] = nil
		}
	}
}

// Release gives a simulated lock flag back. It reports whether it was held.
//
//go:norace
func Release(held *bool) bool {
	was := *held
	*held = false
	if active {
		Wake(held)
	}
	return was
}

// IO is a yield point in a simulated read that the standard library may do
// while it holds one of its own locks (archive/zip: one on every reader of a
// compressed part). Goroutines of the library may want the same lock, and the
// scheduler would not see them wait for it: nothing is handed over then.
//
//go:norace
func IO(site int32) {
	if !wild {
		Y(site)
	}
}

// Wild reports whether the library has started goroutines in this run.
//
//go:norace
func Wild() bool { return wild }

// Steps is the global event sequence number.
//
//go:norace
func Steps() int64 { return steps }

// Active reports whether simulated tasks are running.
//
//go:norace
func Active() bool { return active }

// Aborted reports whether the run is being given up, so that nothing waits any
// more.
//
//go:norace
func Aborted() bool { return aborted }

// alive counts the tasks besides the first one that have not ended.
//
//go:norace
func alive() (n int) {
	for i := 1; i < ntasks; i++ {
		if state[i] != stDone {
			n++
		}
	}
	return
}

// over gives the turn back to the only caller there was before.
//
//go:norace
func over() {
	mapRnd = taskMap[0]
	active, adhoc, aborted, dead = false, false, false, false
	state[0] = stRun
	turn, current = 0, -1
}

// promote makes the only caller the first task, so that a goroutine it starts
// becomes the second one.
//
//go:norace
func promote() {
	s := mapRnd ^ uint64(steps)*0x9E3779B97F4A7C15
	setup(Sched{Mode: Random, Seed: s}, 1)
	prob = []uint32{1 << 14, 1 << 10, 1 << 6}[next()%3]
	thrown = nil
	turn, current = 0, 0
	active, adhoc = true, true
}

// drain lets the goroutines that the library left behind go on until none can,
// or just ends them.
//
//go:norace
func drain(end bool) {
	for !end && adhoc && !aborted {
		to := pickRandom(0)
		if to < 0 {
			break
		}
		if handover(0, to, -3); thrown != nil {
			break
		}
	}
	if adhoc {
		aborted, dead = true, true
		for adhoc && alive() > 0 {
			first := -1
			for i := ntasks - 1; i > 0; i-- {
				if state[i] != stDone {
					state[i] = stRun
					first = i
				}
			}
			state[0] = stRun
			turn, current = first, first
			for turn != 0 {
				runtime.Gosched()
			}
		}
		thrown = nil
		over()
	}
}

// fresh are the functions that bring the variables of the library and of the
// tool back to what they are in a new process.
var fresh, freshTool []func()

// OnFresh is called by the instrumented packages.
func OnFresh(tool bool, f func()) {
	if tool {
		freshTool = append(freshTool, f)
		return
	}
	fresh = append(fresh, f)
}

// Fresh begins a new process that uses the library.
func Fresh() {
	for _, f := range fresh {
		f()
	}
}

// FreshTool begins a new process of the tool.
func FreshTool() {
	for _, f := range freshTool {
		f()
	}
}

// Reset prepares the counters of a new run.
//
//go:norace
func Reset(stepBudget int64, mapSeed uint64) {
	drain(true)
	chanReset()
	wild = false
	steps = 0
	budget = stepBudget
	mapRnd = mapSeed
	active, aborted, dead = false, false, false
	ntasks = 0
	Fresh()
}

// SetMapSeed restarts the stream that decides map iteration orders: the one of
// the calling task, or the common one.
//
//go:norace
func SetMapSeed(s uint64) {
	if active && turn >= 0 {
		taskMap[turn] = s
		return
	}
	mapRnd = s
}

// Task is the number of the task that runs, or -1.
//
//go:norace
func Task() int {
	if !active || adhoc {
		return -1
	}
	return turn
}

// MapIters is the number of map iterations ordered by the simulator.
//
//go:norace
func MapIters() int64 { return mapIter }

// Result describes what the scheduler did during Run.
type Result struct {
	Switches []Switch
	Overflow bool
	Sig      uint64
	NSwitch  int64
	Steps    int64
	Dead     bool
}

// Run runs the tasks to completion under the given schedule.
func Run(sc Sched, tasks []func()) Result {
	if len(tasks) > MaxTasks {
		panic("rt: too many tasks")
	}
	drain(false)
	setup(sc, len(tasks))
	wg.Add(len(tasks))
	for i, f := range tasks {
		go taskMain(i, f)
	}
	start()
	wg.Wait()
	return finish()
}

func taskMain(i int, f func()) {
	defer wg.Done()
	begin(i)
	defer leave(i)
	f()
}

//go:norace
func setup(sc Sched, n int) {
	ntasks, callers = n, n
	mode = sc.Mode
	rnd = sc.Seed
	prob = sc.Prob
	den, hotSeed, after = sc.Den, next(), false
	if den == 0 {
		den = 1
	}
	exN, exI = len(sc.Switches), 0
	exAt = make([]int64, exN)
	exTo = make([]int, exN)
	for i, s := range sc.Switches {
		exAt[i], exTo[i] = s.At, s.To
	}
	recN, overflow, sig, switches = 0, false, 0xcbf29ce484222325, 0
	for i := 0; i < n; i++ {
		state[i] = stRun
		waitOn[i] = nil
		taskMap[i] = mapRnd
	}
	nchg, lowprio = 0, 0
	if mode == PCT {
		for i := 0; i < n; i++ {
			prio[i] = int64(next()%1000000) + 1
		}
		l := uint64(sc.Length)
		if l == 0 {
			l = 1
		}
		for nchg < sc.Depth && nchg < len(chg) {
			chg[nchg] = steps + int64(next()%l) + 1
			nchg++
		}
	}
	aborted, dead = false, false
	turn, current = -1, -1
}

//go:norace
func start() {
	active = true
	steps++
	to := forced(-1)
	record(to, -4)
	turn, current = to, to
}

//go:norace
func finish() Result {
	active = false
	r := Result{Overflow: overflow, Sig: sig, NSwitch: switches, Steps: steps, Dead: dead}
	r.Switches = make([]Switch, recN)
	for i := 0; i < recN; i++ {
		r.Switches[i] = Switch{recAt[i], int(recTo[i])}
	}
	aborted, dead = false, false
	return r
}

// Go replaces the go statement in instrumented code. The library starts no
// goroutine; should a changed one do, it becomes a task of the run. Outside of
// a run its caller becomes one too, until the goroutine has ended.
func Go(f func()) {
	if !Active() {
		if !single {
			single = true
			runtime.GOMAXPROCS(1)
		}
		promote()
	}
	i := addTask()
	if adhoc {
		go func() {
			begin(i)
			defer leave(i)
			defer caught()
			if !killed() {
				f()
			}
		}()
	} else {
		wg.Add(1)
		go taskMain(i, f)
	}
	Y(-7)
}

//go:norace
func killed() bool { return aborted && dead }

// caught keeps what a goroutine panicked with for the caller.
func caught() {
	if x := recover(); x != nil {
		throw(x)
	}
}

//go:norace
func throw(x any) {
	if !killed() && thrown == nil {
		thrown = x
		aborted = true
		state[0] = stRun
	}
}

//go:norace
func addTask() int {
	wild = true
	if ntasks == MaxTasks { // wait for one to end
		for full() {
			to := pickRandom(turn)
			if to < 0 || aborted {
				panic("rt: too many tasks")
			}
			handover(turn, to, -3)
		}
	}
	i := ntasks
	for k := callers; k < ntasks; k++ {
		if state[k] == stDone {
			i = k
			break
		}
	}
	if i == ntasks {
		ntasks++
	}
	state[i] = stRun
	waitOn[i] = nil
	taskMap[i] = taskMap[turn] ^ uint64(i)<<32
	prio[i] = int64(next()%1000000) + 1
	return i
}

//go:norace
func full() bool {
	for i := 0; i < ntasks; i++ {
		if i >= callers && state[i] == stDone {
			return false
		}
	}
	return true
}

// SiteSnapshot copies the set of statements reached so far in this process.
func SiteSnapshot() []uint64 {
	out := make([]uint64, len(sites))
	copy(out, sites[:])
	return out
}

// Entry is one entry of a map being iterated in simulator order.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Get reads the entry, which may have been deleted meanwhile.
func (e Entry[K, V]) Get() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

// V reads the value.
func (e Entry[K, V]) V() V { return e.m[e.K] }

// Entries lists a map in an order decided by the simulator.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	es := make([]Entry[K, V], 0, len(m))
	keys := make([]string, 0, len(m))
	for k := range m {
		es = append(es, Entry[K, V]{K: k, m: m})
		keys = append(keys, fmt.Sprintf("%#v", k))
	}
	idx := make([]int, len(es))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return keys[idx[a]] < keys[idx[b]] })
	out := make([]Entry[K, V], len(es))
	for i, j := range idx {
		out[i] = es[j]
	}
	for i := len(out) - 1; i > 0; i-- {
		j := mapNext(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

//go:norace
func mapNext(n int) int {
	mapIter++
	var z uint64
	if active && turn >= 0 {
		taskMap[turn] += 0x9E3779B97F4A7C15
		z = taskMap[turn]
	} else {
		mapRnd += 0x9E3779B97F4A7C15
		z = mapRnd
	}
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	z ^= z >> 31
	return int(z % uint64(n))
}
