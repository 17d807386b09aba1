package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"simverif/rt"
	"simverif/xos"
)

// simTask is one simulated caller. Everything it touches besides the documents
// under test is its own.
type simTask struct {
	id    int
	ops   []Op
	v     *Violation
	skip  string
	trace []string
	recs  []idRec
	paras []paraRef
	cells []cellRef
	w     *World
}

type paraRef struct {
	p *docx.Paragraph
	m *MPara
}

type cellRef struct {
	c *docx.WTableCell
	m *MCell
}

// idRec is one call that got a number from a named counter.
type idRec struct {
	name       string
	val        int
	start, end int64
	task       int
}

// runTasks executes a plan with several simulated callers.
func runTasks(p *Plan, out *Outcome, logging bool) {
	w := newWorld(p.Prop, p.Seed)
	w.plan = p
	if logging {
		w.log = &strings.Builder{}
	}
	w.install()
	out.Worlds = []*World{w}
	out.Tasks = len(p.Tasks)
	out.V, out.Skipped = protect(w, func() {
		for i := range p.Ops {
			w.exec(&p.Ops[i])
		}
	})
	if out.V == nil && out.Skipped == "" {
		switch p.Prop {
		case "C11":
			concCounters(w, p, out)
		case "C12":
			concEdit(w, p, out)
		case "C13":
			concRead(w, p, out)
		case "C14":
			concIndependent(w, p, out)
		default:
			panic("harness: no tasks for " + p.Prop)
		}
	}
	w.install()
	if out.Steps == 0 {
		out.Steps = rt.Steps()
	}
	if w.log != nil {
		fmt.Fprintf(w.log, "switches %d sig %x\n", out.NSwitch, out.Sig)
		if out.V != nil {
			fmt.Fprintf(w.log, "violation %s\n", out.V.Class)
		}
		out.Log = w.log.String()
	}
}

// together runs the tasks under the schedule of the plan. The first task that
// broke something other than by being stuck names the violation; a data race
// is one unless something worse happened.
func together(w *World, p *Plan, out *Outcome, tasks []*simTask, body func(t *simTask, o *Op)) bool {
	before := raceErrors()
	takeRaceReport()
	fs := make([]func(), len(tasks))
	for i, t := range tasks {
		t := t
		tw := &World{prop: w.prop, step: w.step}
		fs[i] = func() {
			t.v, t.skip = protect(tw, func() {
				for k := range t.ops {
					tw.step++
					body(t, &t.ops[k])
				}
			})
		}
	}
	r := rt.Run(p.Sched, fs)
	out.Switches, out.NSwitch, out.Sig = r.Switches, r.NSwitch, r.Sig
	out.Overflow = r.Overflow
	out.Steps = rt.Steps()
	if w.log != nil {
		for _, t := range tasks {
			for _, s := range t.trace {
				fmt.Fprintf(w.log, "task %d: %s\n", t.id, s)
			}
			for _, x := range t.recs {
				fmt.Fprintf(w.log, "task %d: %s %d [%d,%d]\n", t.id, x.name, x.val, x.start, x.end)
			}
		}
	}
	stuck := -1
	for i, t := range tasks {
		if t.v == nil {
			continue
		}
		if t.v.Class == "deadlock" || t.v.Class == "no-progress" {
			if stuck < 0 {
				stuck = i
			}
			continue
		}
		if out.V == nil {
			out.V = t.v
			out.V.Msg = fmt.Sprintf("task %d: %s", i, t.v.Msg)
		}
	}
	if out.V == nil && stuck >= 0 {
		out.V = tasks[stuck].v
	}
	if n := raceErrors() - before; n > 0 && out.V == nil {
		out.V = &Violation{Prop: w.prop, Class: "race", Op: w.step, Msg: fmt.Sprintf("%d data races: %s", n, takeRaceReport())}
	}
	for _, t := range tasks {
		if t.skip != "" && out.Skipped == "" {
			out.Skipped = t.skip
		}
	}
	return out.V == nil && out.Skipped == ""
}

func newTasks(p *Plan) []*simTask {
	ts := make([]*simTask, len(p.Tasks))
	for i := range ts {
		ts[i] = &simTask{id: i, ops: p.Tasks[i]}
	}
	return ts
}

// finish checks the state after the tasks and performs the final steps.
func finish(w *World, p *Plan, out *Outcome, f func()) {
	out.V, out.Skipped = protect(w, func() {
		f()
		for i := range p.After {
			w.exec(&p.After[i])
		}
	})
	if n := raceErrors(); n > 0 {
		takeRaceReport()
	}
}

// numberOf is the number a shape got from the counter of its name.
func numberOf(r *docx.Run) (string, int, error) {
	if r == nil || len(r.Children) == 0 {
		return "", 0, errors.New("no run")
	}
	d, ok := r.Children[0].(*docx.Drawing)
	if !ok {
		return "", 0, errors.New("no drawing")
	}
	n := ""
	switch {
	case d.Inline != nil && d.Inline.DocPr != nil:
		n = d.Inline.DocPr.Name
	case d.Anchor != nil && d.Anchor.DocPr != nil:
		n = d.Anchor.DocPr.Name
	}
	i := strings.LastIndexByte(n, ' ')
	if i < 0 {
		return "", 0, fmt.Errorf("no number in %q", n)
	}
	k, err := strconv.Atoi(n[i+1:])
	return n[:i], k, err
}

// concCounters: C11.
func concCounters(w *World, p *Plan, out *Outcome) {
	d := w.docs[0]
	if d == nil {
		return
	}
	names := map[string]bool{}
	for _, l := range p.Tasks {
		for i := range l {
			names[l[i].s(0)] = true
		}
	}
	base := map[string]int{}
	asked := p.Seed&1 == 0 // otherwise the first use may be one of several at once
	for _, n := range sortedKeys(names) {
		if asked {
			base[n] = int(d.d.IncreaseID(n))
		}
	}
	taken := liveDocPrs(d.d)
	tasks := newTasks(p)
	for i, t := range tasks {
		l, m := d.para(i)
		if l != nil && len(d.m.Paras())-d.nframe > i {
			t.paras = []paraRef{{l, m}}
		}
	}
	if !together(w, p, out, tasks, func(t *simTask, o *Op) {
		x := idRec{name: o.s(0), task: t.id}
		switch o.K {
		case "incid":
			x.start = rt.Steps()
			x.val = int(d.d.IncreaseID(o.s(0)))
			x.end = rt.Steps()
		case "shape":
			if len(t.paras) == 0 {
				return
			}
			x.start = rt.Steps()
			editPara(t.paras[0].p, t.paras[0].m, o)
			x.end = rt.Steps()
			c := t.paras[0].p.Children
			r, _ := c[len(c)-1].(*docx.Run)
			n, k, err := numberOf(r)
			if err != nil || n != o.s(0) {
				return
			}
			x.val = k
		default:
			return
		}
		t.recs = append(t.recs, x)
	}) {
		return
	}
	finish(w, p, out, func() {
		by := map[string][]idRec{}
		for _, t := range tasks {
			for _, x := range t.recs {
				by[x.name] = append(by[x.name], x)
			}
		}
		for _, n := range sortedKeys(names) {
			l := by[n]
			sort.SliceStable(l, func(a, b int) bool { return l[a].val < l[b].val })
			if !asked && len(l) > 0 {
				base[n] = l[0].val - 1
				w.cond["counter first used by several at once"]++
			}
			for i, x := range l {
				w.req("C11", x.val == base[n]+1+i, "counter", "%d calls on the counter %q after %d got %s: want consecutive numbers", len(l), n, base[n], vals(l))
				for _, y := range l[:i] {
					// y got the smaller number, so x may not have been over before y began
					w.req("C11", x.end > y.start, "counter-order", "the counter %q gave %d to task %d in a call that was over before the one of task %d that got %d began", n, x.val, x.task, y.task, y.val)
				}
			}
			k := int(d.d.IncreaseID(n))
			if !asked && len(l) == 0 {
				continue
			}
			w.req("C11", k == base[n]+len(l)+1, "counter", "the counter %q gave %d after %d calls from %d", n, k, len(l), base[n])
			if len(l) > 1 {
				w.cond["counter used by several calls"]++
			}
		}
		freshIDs(w, taken, liveDocPrs(d.d))
		w.states[hashString(fmt.Sprint(by))] = true
	})
}

func vals(l []idRec) string {
	var s []string
	for _, x := range l {
		s = append(s, strconv.Itoa(x.val))
	}
	return strings.Join(s, ",")
}

// freshIDs checks that the drawings that came meanwhile have ids of their own.
func freshIDs(w *World, before, after []int) {
	old, n := map[int]int{}, map[int]int{}
	for _, id := range before {
		old[id]++
	}
	for _, id := range after {
		n[id]++
	}
	for _, id := range after {
		if n[id] > old[id] {
			w.req("C11 C12", n[id] == 1, "drawing-id", "the id %d was given to a new drawing, but %d have it", id, n[id])
		}
	}
}

// concEdit: C12.
func concEdit(w *World, p *Plan, out *Outcome) {
	d := w.docs[0]
	if d == nil {
		return
	}
	tasks := newTasks(p)
	n := len(tasks)
	ls, ms := liveParas(d.d), d.m.Paras()
	for i := range ls {
		t := tasks[i%n]
		t.paras = append(t.paras, paraRef{ls[i], ms[i]})
	}
	k := 0
	for i, it := range d.d.Document.Body.Items {
		t, ok := it.(*docx.Table)
		if !ok {
			continue
		}
		for a, r := range t.TableRows {
			for b, c := range r.TableCells {
				tasks[k%n].cells = append(tasks[k%n].cells, cellRef{c, d.m[i].T.Rows[a].Cells[b]})
				k++
			}
		}
	}
	taken := liveDocPrs(d.d)
	if !together(w, p, out, tasks, func(t *simTask, o *Op) {
		switch o.K {
		case "cellshade", "cellpara":
			if len(t.cells) == 0 {
				return
			}
			c := t.cells[mod(o.C, len(t.cells))]
			if editCell(c.c, c.m, o) && o.K == "cellpara" {
				t.paras = append(t.paras, paraRef{c.c.Paragraphs[len(c.c.Paragraphs)-1], c.m.Paras[len(c.m.Paras)-1]})
			}
			return
		}
		if len(t.paras) == 0 {
			return
		}
		x := t.paras[mod(o.P, len(t.paras))]
		switch o.K {
		case "fmt", "runtab", "size", "settext":
			if len(x.m.Kids) == 0 || len(x.m.Kids) != len(x.p.Children) {
				return
			}
			i := mod(o.C, len(x.m.Kids))
			switch r := x.p.Children[i].(type) {
			case *docx.Run:
				editRun(r, x.m.Kids[i], o)
			case *docx.Hyperlink:
				editRun(&r.Run, x.m.Kids[i], o)
			}
			return
		}
		nk := len(x.p.Children)
		editPara(x.p, x.m, o)
		if o.K == "shape" && len(x.p.Children) > nk {
			r, _ := x.p.Children[len(x.p.Children)-1].(*docx.Run)
			if name, v, err := numberOf(r); err == nil {
				t.recs = append(t.recs, idRec{name: name, val: v, task: t.id})
			}
		}
	}) {
		return
	}
	finish(w, p, out, func() {
		freshIDs(w, taken, liveDocPrs(d.d)) // first: a check of another property ends the run
		nums := map[string]bool{}
		for _, t := range tasks {
			for _, x := range t.recs {
				k := fmt.Sprintf("%s %d", x.name, x.val)
				w.req("C12", !nums[k], "drawing-number", "two shapes are called %q", k)
				nums[k] = true
			}
		}
		w.check(d)
	})
}

// concRead: C13.
func concRead(w *World, p *Plan, out *Outcome) {
	d := w.docs[0]
	if d == nil {
		return
	}
	if d.frozen {
		return
	}
	before := liveState(d.d)
	tasks := newTasks(p)
	if !together(w, p, out, tasks, func(t *simTask, o *Op) { readOp(t, d, o) }) {
		return
	}
	out.V, out.Skipped = protect(w, func() {
		after := liveState(d.d)
		w.req("C13", before == after, "reader-edits", "reading changed the document: %s", firstDiff(before, after))
		// what each would have got alone, on a document of its own
		for i, t := range tasks {
			rt.Reset(stepBudget, p.MapSeed)
			tw := newWorld(w.prop, w.seed)
			tw.twin = true
			tw.install()
			for k := range p.Ops {
				tw.exec(&p.Ops[k])
			}
			s := &simTask{id: i}
			for k := range t.ops {
				readOp(s, tw.docs[0], &t.ops[k])
			}
			for k := range s.trace {
				w.checks++
				if k < len(t.trace) && t.trace[k] != s.trace[k] && !strings.HasSuffix(t.trace[k], upToTurns) && !strings.HasSuffix(s.trace[k], upToTurns) {
					w.req("C13", false, "disturbed", "task %d, call %d (%s): alone %s", i, k, t.ops[k].K, firstDiff(s.trace[k], t.trace[k]))
				}
			}
			w.req("C13", len(s.trace) == len(t.trace), "disturbed", "task %d got %d results, alone %d", i, len(t.trace), len(s.trace))
			for k, v := range s.stat() {
				w.stats[k] += v
			}
			w.states[hashString(strings.Join(s.trace, "|"))] = true
		}
	})
}

func (t *simTask) stat() map[string]int {
	m := map[string]int{}
	for _, s := range t.trace {
		if strings.HasPrefix(s, "fault ") {
			m[strings.TrimSuffix(strings.Fields(s)[1], ":")]++
		}
	}
	return m
}

// savedParts is the outcome of a save without what the order of the library's
// tables decides.
func savedParts(d *docx.Docx, dst *dest) string {
	n, err := d.WriteTo(dst)
	if err != nil {
		return "failed"
	}
	if n != int64(len(dst.accepted)) {
		return fmt.Sprintf("count %d of %d", n, len(dst.accepted))
	}
	p, err := readPkgOpt(dst.accepted, true)
	if err != nil {
		return "broken: " + err.Error()
	}
	m := p.partSums()
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		fmt.Fprintf(&sb, "%s %s\n", k, m[k])
	}
	return sb.String()
}

const upToTurns = "what it met is up to how goroutines of the library took turns"

func readOp(t *simTask, d *Doc, o *Op) {
	say := func(f string, a ...any) { t.trace = append(t.trace, fmt.Sprintf(f, a...)) }
	clean := func() *dest { return newDest(newFaultSet(nil, nil)) }
	switch o.K {
	case "save":
		fs := newFaultSet(resolveTo(o.F, o.v(0)), nil)
		s := savedParts(d.d, newDest(fs))
		f := "no fault"
		for i := range fs.list {
			if fs.fired[i] > 0 {
				f = "fault " + fs.list[i].T
			}
		}
		if rt.Wild() && len(fs.list) > 0 {
			f, s = "fault", upToTurns
		}
		say("%s: %s", f, s)
	case "print":
		say("%s", printDoc(d.d))
	case "content":
		say("%s", liveContent(d.d).Render())
	case "split":
		w := &World{}
		rule, _ := w.rule(d, o)
		var sb strings.Builder
		for i, x := range d.d.SplitByParagraph(func(p *docx.Paragraph) bool { rt.Y(-15); return rule(p) }) {
			fmt.Fprintf(&sb, "piece %d\n%s", i, liveState(x))
			if o.v(2)&1 != 0 {
				g := x.AddParagraph()
				g.AddText("of my own " + strconv.Itoa(t.id))
				g.AddLink("link", "http://own/"+strconv.Itoa(t.id))
				g.AddInlineShape(10, 10, "own", "auto", "rect", nil)
				if _, err := g.AddInlineDrawing(imageBytes(int(o.v(2)>>4)%4, 3, 4, uint64(t.id)+77, 3)); err != nil {
					sb.WriteString("picture refused\n")
				}
				for _, it := range x.Document.Body.Items {
					if p, ok := it.(*docx.Paragraph); ok {
						for _, c := range p.Children {
							if r, ok := c.(*docx.Run); ok && r.RunProperties != nil {
								r.Bold().Size("44")
							}
						}
						p.Justification("center")
					}
				}
				sb.WriteString(liveState(x))
			}
			if o.v(2)&2 != 0 {
				sb.WriteString(savedParts(x, clean()))
			}
		}
		say("%s", sb.String())
	case "range":
		var sb strings.Builder
		n := 0
		err := d.d.RangeRelationships(func(r *docx.Relationship) error {
			rt.Y(-16)
			fmt.Fprintf(&sb, "%s %s %s %s\n", r.ID, r.Type, r.Target, r.TargetMode)
			n++
			if o.v(0) > 0 && n == int(o.v(0)) {
				return errStop
			}
			return nil
		})
		say("%s%v", sb.String(), err)
	case "lookup":
		rs := liveRels(d.d)
		var sb strings.Builder
		for _, r := range rs {
			x, err := d.d.ReferTarget(r.ID)
			y, err2 := d.d.ReferID(r.Target)
			fmt.Fprintf(&sb, "%s %v %s %v\n", x, err, y, err2)
		}
		_, err := d.d.ReferTarget("rId-none")
		fmt.Fprintf(&sb, "%v\n", err != nil)
		for _, n := range mediaNames(d) {
			if m := d.d.Media(n); m != nil {
				fmt.Fprintf(&sb, "%s %s\n", n, sum(m.Data))
			} else {
				fmt.Fprintf(&sb, "%s none\n", n)
			}
		}
		say("%s", sb.String())
	case "append":
		x := docx.New().WithDefaultTheme()
		x.AddParagraph().AddText("mine " + strconv.Itoa(t.id))
		for k := int64(0); k < o.v(0); k++ {
			g := x.AddParagraph()
			g.AddLink("l", "http://mine/"+strconv.Itoa(t.id))
			_, _ = g.AddInlineDrawing(imageBytes(int(k)%4, 3, 4, uint64(t.id)+50, 3))
		}
		x.AppendFile(d.d)
		if o.v(1)&1 != 0 {
			x.AppendFile(d.d)
		}
		x.AddParagraph().AddLink("after", "http://mine/after")
		s := liveState(x)
		if o.v(1)&2 != 0 {
			s += savedParts(x, clean())
		}
		say("%s", s)
	}
}

// resolveTo turns relative offsets into bytes of a size known beforehand.
func resolveTo(l []Fault, size int64) []Fault {
	return resolve(l, "w.", func() int64 { return size })
}

// concIndependent: C14.
func concIndependent(w *World, p *Plan, out *Outcome) {
	shared := map[int]*tmplFS{}
	for i := 0; i < 3; i++ {
		t := makeTmpl(p.Seed, i)
		t.shared = true
		shared[100+i] = t
	}
	sts := map[int]*storage{}
	for i, f := range w.files {
		sts[i] = &storage{data: f.data}
	}
	world := func(i int) *World {
		x := newWorld(w.prop, p.Seed+uint64(i/2))
		for k, t := range shared {
			x.tmpls[k] = t
		}
		for k, f := range w.files {
			x.files[k] = f.copyOf()
		}
		x.sharedSt = sts
		x.picPrefix = fmt.Sprintf("t%d/", i)
		x.tracing = true
		return x
	}
	live := map[string]*picHook{}
	hook := func(name string) ([]byte, error, bool) {
		if i := strings.IndexByte(name, '/'); i > 0 {
			if h, ok := live[name[:i+1]]; ok {
				return h.ReadFile(name)
			}
		}
		return nil, nil, false
	}
	xos.Hook = hook
	tasks := newTasks(p)
	for i, t := range tasks {
		t.w = world(i)
		live[t.w.picPrefix] = t.w.pics
		out.Worlds = append(out.Worlds, t.w)
	}
	run := func(t *simTask, x *World) {
		v, s := protect(x, func() {
			for k := range t.ops {
				x.exec(&t.ops[k])
			}
		})
		if v != nil {
			x.trace = append(x.trace, "violation "+v.Class+" "+v.Msg)
		}
		if s != "" {
			x.trace = append(x.trace, "stopped "+s)
		}
		t.v = v
	}
	mapSeed := NewRng(p.MapSeed, 99).U64()
	w.crash() // only the files are needed
	rt.SetMapSeed(mapSeed)
	if !together(w, p, out, tasks, func(t *simTask, o *Op) {
		// the whole list of steps runs at the first one
		if o == &t.ops[0] {
			run(t, t.w)
			if t.v != nil && (t.v.Class == "deadlock" || t.v.Class == "no-progress") {
				panic(t.v)
			}
			t.v = nil
		}
	}) {
		return
	}
	out.V, out.Skipped = protect(w, func() {
		for i, t := range tasks {
			rt.Reset(stepBudget, mapSeed)
			x := world(i)
			x.sharedSt = map[int]*storage{}
			for k, f := range w.files {
				x.sharedSt[k] = &storage{data: f.data}
			}
			for k, s := range shared {
				c := *s
				x.tmpls[k] = &c
			}
			live[x.picPrefix] = x.pics
			s := &simTask{id: i, ops: t.ops}
			run(s, x)
			w.checks++
			for k := range x.trace {
				if k < len(t.w.trace) && t.w.trace[k] != x.trace[k] {
					w.req("C14", false, "influence", "task %d, step %d: alone %s", i, k, firstDiff(x.trace[k], t.w.trace[k]))
				}
			}
			w.req("C14", len(x.trace) == len(t.w.trace) || x.loose || t.w.loose, "influence", "task %d has %d results, alone %d: %v / %v", i, len(t.w.trace), len(x.trace), tail(t.w.trace), tail(x.trace))
			if w.log != nil {
				for _, l := range x.trace {
					fmt.Fprintf(w.log, "task %d %s\n", i, sum([]byte(l)))
				}
			}
		}
	})
}

func tail(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return clip(l[len(l)-1], 300)
}
