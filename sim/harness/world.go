package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"simverif/rt"
	"simverif/sos"
	"simverif/xos"
)

// Op is one step of a simulated history. References are taken modulo what
// exists and steps that refer to nothing are skipped, so that every subset of
// a history is a history.
type Op struct {
	K string   `json:"k"`
	D int      `json:"d,omitempty"` // document slot
	X int      `json:"x,omitempty"` // second document, file or template slot
	P int      `json:"p,omitempty"` // paragraph or row
	C int      `json:"c,omitempty"` // child or cell
	V []int64  `json:"v,omitempty"`
	S []string `json:"s,omitempty"`
	F []Fault  `json:"f,omitempty"`
}

func (o *Op) v(i int) int64 {
	if i < len(o.V) {
		return o.V[i]
	}
	return 0
}

func (o *Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

// Plan is one run: a seed, a history, the tasks and their schedule.
type Plan struct {
	Prop    string   `json:"property"`
	Seed    uint64   `json:"seed"`
	Index   uint64   `json:"index"`
	MapSeed uint64   `json:"mapseed"`
	Ops     []Op     `json:"ops,omitempty"`
	Tasks   [][]Op   `json:"tasks,omitempty"`
	After   []Op     `json:"after,omitempty"`
	Sched   rt.Sched `json:"sched"`
}

// Violation is one broken property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Op    int    `json:"op"`
	Stack string `json:"stack,omitempty"`
}

func (v *Violation) String() string {
	return fmt.Sprintf("%s %s at step %d: %s", v.Prop, v.Class, v.Op, v.Msg)
}

// skipRun ends a run in which something outside of the property went wrong.
type skipRun struct{ why string }

// Doc is a live document and what is known about it.
type Doc struct {
	d       *docx.Docx
	m       Content
	tmpl    *tmplFS
	st      *storage
	carried map[string]string // parts every save has to contain, by content
	loose   map[string]bool   // parts that relationships lead to, but never were there
	held    map[string]bool   // relationships to parts, which have to stay
	sick    map[string]bool   // carried parts whose source is damaged
	known   map[string]string // relationship ids and their targets
	seen    map[int]bool      // drawing ids ever present
	prev    map[int]int       // drawing ids at the last check
	frozen  bool              // items belong to another document: append only
	opaque  bool              // holds items the independent reader does not model
	nframe  int               // paragraphs not to be edited
	rIDs    []string
}

// File is what is on the simulated disk.
type File struct {
	data    []byte
	ack     bool
	alts    []*File // a torn overwrite may still be read as one of these
	m       Content
	dump    string
	carried map[string]string
	loose   map[string]bool
	held    map[string]bool
	rels    []docx.Relationship
	ids     []int
	ranges  []dataRange
	opaque  bool
}

// World is one simulated deployment.
type World struct {
	prop   string
	seed   uint64
	docs   map[int]*Doc
	files  map[int]*File
	tmpls  map[int]*tmplFS
	pics   *picHook
	step   int
	stats  map[string]int // fault kinds that fired
	ops    map[string]int // operations executed
	log    *strings.Builder
	states map[uint64]bool
	checks int64
	cond   map[string]int // interesting conditions met
	plan   *Plan
	twin   bool
	soft   int    // checks that fail for another property are put off
	pend   string // the first of them

	pictures map[string]string // the formats of the pictures added, by content

	disk *sos.Disk // of the command line tool

	sharedSt  map[int]*storage // storage that several worlds read from
	picPrefix string           // names of the picture files of this world
	tracing   bool
	trace     []string
	outcome   string
	loose     bool // what a fault meets is up to how goroutines of the library took turns
}

func newWorld(prop string, seed uint64) *World {
	return &World{
		prop: prop, seed: seed,
		docs: map[int]*Doc{}, files: map[int]*File{}, tmpls: map[int]*tmplFS{},
		pics: &picHook{files: map[string][]byte{}}, pictures: map[string]string{},
		stats: map[string]int{}, ops: map[string]int{}, states: map[uint64]bool{}, cond: map[string]int{},
	}
}

func (w *World) logf(format string, a ...any) {
	if w.log != nil {
		fmt.Fprintf(w.log, format+"\n", a...)
	}
}

// req is one check of the properties listed. Should it fail, the run of one of
// them is a violation; the run of any other property ends there.
func (w *World) req(props string, ok bool, class, format string, a ...any) {
	w.checks++
	if ok {
		return
	}
	msg := fmt.Sprintf(format, a...)
	if props == "*" || strings.Contains(props, w.prop) {
		panic(&Violation{Prop: w.prop, Class: class, Msg: clip(msg, 1500), Op: w.step})
	}
	if w.soft > 0 {
		if w.pend == "" {
			w.pend = class + ": " + msg
		}
		return
	}
	panic(skipRun{class + ": " + msg})
}

// aside is req for what nothing else rests on: runs of other properties go on.
func (w *World) aside(prop string, ok bool, class, format string, a ...any) {
	if ok || w.prop == prop {
		w.req(prop, ok, class, format, a...)
		return
	}
	w.checks++
	w.cond["passed over: "+class]++
}

// softly makes several checks of one state, so that one of another property
// that fails does not keep the rest from being made.
func (w *World) softly(f func()) {
	w.soft++
	f()
	w.soft--
	if w.soft == 0 && w.pend != "" {
		panic(skipRun{w.pend})
	}
}

func (w *World) tmplFor(id int) *tmplFS {
	if t, ok := w.tmpls[id]; ok {
		return t
	}
	t := makeTmpl(w.seed, id)
	w.tmpls[id] = t
	return t
}

// copyOf is the same file, for another world.
func (f *File) copyOf() *File {
	c := *f
	c.m = f.m.Clone(false)
	c.carried = copyMap(f.carried)
	return &c
}

func makeTmpl(seed uint64, id int) *tmplFS {
	r := NewRng(seed, uint64(id), 0x7E)
	t := &tmplFS{files: map[string][]byte{}}
	if r.P(70) {
		t.dir = "xml/" + Pick(r, "mine", "a", "default", "模板") + "/"
	}
	names := []string{"[Content_Types].xml", "_rels/.rels", "word/styles.xml", "word/theme/theme1.xml", "word/fontTable.xml", "docProps/app.xml", "docProps/core.xml", "word/settings.xml", "customXml/item1.xml", "a", "word/header1.xml"}
	n := r.R(1, len(names))
	if r.P(50) {
		n = r.R(1, 3)
	}
	for i := 0; i < n; i++ {
		size := Pick(r, 0, 1, 10, 100, 1000, 4095, 4096, 4097, 32767, 32768, 32769, 66000, 140000)
		b := make([]byte, size)
		q := NewRng(r.U64())
		if r.P(50) { // incompressible
			for k := range b {
				b[k] = byte(q.U64())
			}
		} else {
			for k := range b {
				b[k] = "<abc/>"[k%6]
			}
		}
		if names[i] == typesPart && r.P(60) {
			b = genTypes(r, nil)
		}
		t.list = append(t.list, names[i])
		t.files[t.dir+names[i]] = b
	}
	if r.P(10) {
		t.list = append(t.list, Pick(r, t.list...)) // the same file twice
	}
	t.able = r.P(30)
	return t
}

func (t *tmplFS) name() string { return strings.TrimSuffix(strings.TrimPrefix(t.dir, "xml/"), "/") }

func (t *tmplFS) sums() map[string]string {
	m := map[string]string{}
	for _, n := range t.list {
		m[n] = sumOf(n, t.files[t.dir+n])
	}
	return m
}

var defaultSums map[string]string

func defaultCarried() map[string]string {
	if defaultSums == nil {
		defaultSums = map[string]string{}
		for _, n := range docx.DefaultTemplateFilesList {
			b, err := docx.TemplateXMLFS.ReadFile("xml/default/" + n)
			must(err)
			defaultSums[n] = sumOf(n, b)
		}
	}
	return copyMap(defaultSums)
}

func (w *World) putDoc(slot int, d *Doc) *Doc {
	d.known, d.seen, d.prev = map[string]string{}, map[int]bool{}, map[int]int{}
	if d.sick == nil {
		d.sick = map[string]bool{}
	}
	if d.loose == nil {
		d.loose = d.looseNow()
	}
	if d.held == nil {
		d.held = holds(liveRels(d.d))
	}
	w.docs[slot] = d
	return d
}

// newDoc makes an empty document with one of the templates.
func (w *World) newDoc(slot int, kind int64, tmpl int) *Doc {
	d := &Doc{d: docx.New()}
	switch kind {
	case 0:
		d.d.WithDefaultTheme()
		d.carried = defaultCarried()
	case 1:
		w.useTmpl(d, tmpl)
	default:
		d.carried = map[string]string{}
	}
	return w.putDoc(slot, d)
}

func (w *World) useTmpl(d *Doc, tmpl int) {
	d.tmpl = w.tmplFor(tmpl)
	var files fs.FS = d.tmpl
	if d.tmpl.able {
		files = ableFS{d.tmpl}
	}
	d.d.UseTemplate(d.tmpl.name(), d.tmpl.list, files)
	media := map[string]string{}
	for k, v := range d.carried {
		if strings.HasPrefix(k, "word/media/") {
			media[k] = v
		}
	}
	d.carried = d.tmpl.sums()
	for k, v := range media {
		d.carried[k] = v
	}
	d.st = nil
	d.sick = map[string]bool{}
	for k := range d.looseNow() {
		if d.loose == nil {
			d.loose = map[string]bool{}
		}
		d.loose[k] = true // parts that the template lacks
	}
}

// para resolves a paragraph both live and in the model.
func (d *Doc) para(i int) (*docx.Paragraph, *MPara) {
	ms := d.m.Paras()
	ls := liveParas(d.d)
	if len(ms) != len(ls) || len(ms) <= d.nframe {
		return nil, nil
	}
	i = d.nframe + mod(i, len(ms)-d.nframe)
	return ls[i], ms[i]
}

func mod(i, n int) int {
	if n <= 0 {
		return 0
	}
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

// kid resolves a run.
func (d *Doc) kid(p, c int) (*docx.Run, *MKid) {
	l, m := d.para(p)
	if l == nil || len(m.Kids) == 0 || len(m.Kids) != len(l.Children) {
		return nil, nil
	}
	c = mod(c, len(m.Kids))
	switch x := l.Children[c].(type) {
	case *docx.Run:
		return x, m.Kids[c]
	case *docx.Hyperlink:
		return &x.Run, m.Kids[c]
	}
	return nil, nil
}

// table resolves a table.
func (d *Doc) table(i int) (*docx.Table, *MTable) {
	var ms []*MTable
	for _, b := range d.m {
		if b.T != nil {
			ms = append(ms, b.T)
		}
	}
	var ls []*docx.Table
	for _, it := range d.d.Document.Body.Items {
		if t, ok := it.(*docx.Table); ok {
			ls = append(ls, t)
		}
	}
	if len(ms) == 0 || len(ms) != len(ls) || d.frozen {
		return nil, nil
	}
	i = mod(i, len(ms))
	return ls[i], ms[i]
}

func addTextToks(text string) (ts []string) {
	if text == "\t" {
		return []string{"tab"}
	}
	for i, line := range strings.Split(text, "\n") {
		if i > 0 {
			ts = append(ts, "br:")
		}
		for j, s := range strings.Split(line, "\t") {
			if j > 0 {
				ts = append(ts, "tab")
			}
			if s != "" {
				ts = append(ts, "t:"+s)
			}
		}
	}
	return
}

func newRunKid(toks ...string) *MKid { return &MKid{Kind: 'r', Fmt: map[string]string{}, Toks: toks} }

// apply sets one formatting property through the API.
func applyFmt(r *docx.Run, k, v string) {
	p := strings.Split(v, "/")
	for len(p) < 4 {
		p = append(p, "")
	}
	switch k {
	case "color":
		r.Color(v)
	case "sz":
		r.Size(v)
	case "szCs":
		r.SizeCs(v)
	case "shd":
		r.Shade(p[0], p[1], p[2])
	case "spacing":
		n, _ := strconv.Atoi(v)
		r.Spacing(n)
	case "b":
		r.Bold()
	case "i":
		r.Italic()
	case "u":
		r.Underline(v)
	case "hl":
		r.Highlight(v)
	case "strike":
		r.Strike(v == "true")
	case "fonts":
		r.Font(p[0], p[1], p[2], p[3])
	}
}

// edit performs one editing step on a document. It reports whether the step
// applied. It touches nothing but the document and its model, so that
// simulated tasks can use it on documents and paragraphs of their own.
func edit(d *Doc, o *Op) bool {
	switch o.K {
	case "para":
		d.d.AddParagraph()
		d.m = append(d.m, &MBlock{P: &MPara{Props: map[string]string{}}})
		return true
	case "sect":
		if o.v(0) == 0 {
			d.d.WithA3Page()
			d.m = append(d.m, &MBlock{S: map[string]string{"w": "16838", "h": "23811"}})
		} else {
			d.d.WithA4Page()
			d.m = append(d.m, &MBlock{S: map[string]string{"w": "11906", "h": "16838"}})
		}
		return true
	case "table", "tabletwips":
		return editTable(d, o)
	case "tbljc":
		t, m := d.table(o.P)
		if t == nil || t.TableProperties == nil {
			return false
		}
		t.Justification(o.s(0))
		m.Props["jc"] = o.s(0)
		return true
	case "rowjc", "cellshade", "cellpara":
		t, m := d.table(o.P)
		if t == nil || len(m.Rows) == 0 || len(m.Rows) != len(t.TableRows) {
			return false
		}
		ri := mod(int(o.v(0)), len(m.Rows))
		if o.K == "rowjc" {
			if t.TableRows[ri].TableRowProperties == nil {
				return false
			}
			t.TableRows[ri].Justification(o.s(0))
			m.Rows[ri].Props["jc"] = o.s(0)
			return true
		}
		if len(m.Rows[ri].Cells) == 0 {
			return false
		}
		ci := mod(o.C, len(m.Rows[ri].Cells))
		return editCell(t.TableRows[ri].TableCells[ci], m.Rows[ri].Cells[ci], o)
	case "incid":
		d.d.IncreaseID(o.s(0))
		return true
	}
	switch o.K {
	case "text", "tab", "link", "pic", "picfile", "shape", "pagebreak", "jc", "style", "numpr", "numfont", "numsize":
		p, m := d.para(o.P)
		if p == nil {
			return false
		}
		ok, _ := editPara(p, m, o)
		return ok
	case "fmt", "runtab", "size", "settext":
		r, k := d.kid(o.P, o.C)
		if r == nil {
			return false
		}
		return editRun(r, k, o)
	}
	panic("harness: unknown step " + o.K)
}

func editCell(c *docx.WTableCell, m *MCell, o *Op) bool {
	if o.K == "cellshade" {
		if c.TableCellProperties == nil {
			return false
		}
		c.Shade(o.s(0), o.s(1), o.s(2))
		m.Props["shd"] = o.s(0) + "/" + o.s(1) + "/" + o.s(2)
		return true
	}
	c.AddParagraph()
	m.Paras = append(m.Paras, &MPara{Props: map[string]string{}})
	return true
}

func editTable(d *Doc, o *Op) bool {
	t := &MTable{Props: map[string]string{}}
	rows, cols := int(o.v(0)), int(o.v(1))
	var bc *docx.APITableBorderColors
	col := func(s string) string {
		if s == "" {
			return "#000000"
		}
		return s
	}
	if len(o.S) > 0 {
		bc = &docx.APITableBorderColors{Top: o.s(0), InsideV: o.s(1)}
	}
	for _, s := range []string{"left", "bottom", "right", "insideH"} {
		t.Props["b."+s] = "#000000"
	}
	t.Props["b.top"], t.Props["b.insideV"] = col(o.s(0)), col(o.s(1))
	if o.v(2) > 0 {
		t.Props["w"] = i64(o.v(2))
	} else {
		t.Props["type"] = "auto"
	}
	if o.K == "table" {
		d.d.AddTable(rows, cols, o.v(2), bc)
	} else {
		var hs, ws []int64
		for i := 0; i < rows; i++ {
			hs = append(hs, o.v(3)*int64(i))
		}
		for i := 0; i < cols; i++ {
			ws = append(ws, o.v(4)+int64(i))
			t.Grid = append(t.Grid, o.v(4)+int64(i))
		}
		d.d.AddTableTwips(hs, ws, o.v(2), bc)
	}
	for i := 0; i < rows; i++ {
		r := &MRow{Props: map[string]string{}}
		if o.K == "tabletwips" && o.v(3)*int64(i) > 0 {
			r.Props["h"] = i64(o.v(3) * int64(i))
		}
		for k := 0; k < cols; k++ {
			c := &MCell{Props: map[string]string{"type": "auto"}}
			if o.K == "tabletwips" {
				c.Props["type"], c.Props["w"] = "dxa", i64(o.v(4)+int64(k))
			}
			r.Cells = append(r.Cells, c)
		}
		t.Rows = append(t.Rows, r)
	}
	d.m = append(d.m, &MBlock{T: t})
	return true
}

func frameSize(x *docx.Drawing) string {
	if x.Inline != nil {
		return fmt.Sprintf("inline:%dx%d", x.Inline.Extent.CX, x.Inline.Extent.CY)
	}
	return fmt.Sprintf("anchor:%dx%d", x.Anchor.Extent.CX, x.Anchor.Extent.CY)
}

// editPara performs a step that touches one paragraph only.
func editPara(p *docx.Paragraph, m *MPara, o *Op) (bool, error) {
	switch o.K {
	case "text":
		p.AddText(o.s(0))
		m.Kids = append(m.Kids, newRunKid(addTextToks(o.s(0))...))
	case "tab":
		p.AddTab()
		m.Kids = append(m.Kids, newRunKid("tab"))
	case "pagebreak":
		p.AddPageBreaks()
		m.Kids = append(m.Kids, newRunKid("br:page"))
	case "link":
		p.AddLink(o.s(0), o.s(1))
		k := &MKid{Kind: 'a', Fmt: map[string]string{"rStyle": "a3"}, Target: o.s(1)}
		if o.s(0) != "" {
			k.Toks = []string{"i:" + o.s(0)}
		}
		m.Kids = append(m.Kids, k)
	case "pic", "picfile":
		var r *docx.Run
		var err error
		var b []byte
		if o.K == "pic" {
			b = opImage(o)
			in := append([]byte(nil), b...)
			if o.v(5) == 0 {
				r, err = p.AddInlineDrawing(in)
			} else {
				r, err = p.AddAnchorDrawing(in)
			}
		} else {
			b = opImage(o)
			if o.v(5) == 0 {
				r, err = p.AddInlineDrawingFrom(o.s(0))
			} else {
				r, err = p.AddAnchorDrawingFrom(o.s(0))
			}
		}
		if err != nil {
			return true, err
		}
		if r == nil || len(r.Children) != 1 {
			return true, errors.New("no run returned")
		}
		dr, ok := r.Children[0].(*docx.Drawing)
		if !ok {
			return true, errors.New("no drawing returned")
		}
		m.Kids = append(m.Kids, newRunKid("pic:"+frameSize(dr)+":"+sum(b)))
	case "shape":
		var ln *docx.ALine
		tok := o.s(1)
		if o.v(3) > 0 {
			ln = &docx.ALine{W: o.v(3), SolidFill: &docx.ASolidFill{SrgbClr: &docx.ASrgbClr{Val: "000000"}}, Round: &struct{}{}}
			tok += fmt.Sprintf(":ln%d", o.v(3))
		}
		kind := "inline"
		if o.v(2) == 0 {
			p.AddInlineShape(o.v(0), o.v(1), o.s(0), "auto", o.s(1), ln)
		} else {
			kind = "anchor"
			p.AddAnchorShape(o.v(0), o.v(1), o.s(0), "auto", o.s(1), ln)
		}
		m.Kids = append(m.Kids, newRunKid(fmt.Sprintf("shape:%s:%dx%d:%s:%s", kind, o.v(0), o.v(1), tok, o.s(0))))
	case "jc":
		p.Justification(o.s(0))
		m.Props["jc"] = o.s(0)
	case "style":
		p.Style(o.s(0))
		m.Props["style"] = o.s(0)
	case "numpr":
		p.NumPr(o.s(0), o.s(1))
		m.Props["num"] = o.s(0) + "/" + o.s(1)
	case "numfont":
		p.NumFont(o.s(0), o.s(1), "", "")
		m.Props["r.fonts"] = o.s(0) + "/" + o.s(1) + "//"
	case "numsize":
		p.NumSize(o.s(0))
		m.Props["r.sz"] = o.s(0)
	default:
		return false, nil
	}
	return true, nil
}

func editRun(r *docx.Run, k *MKid, o *Op) bool {
	switch o.K {
	case "fmt":
		if r.RunProperties == nil {
			return false
		}
		applyFmt(r, o.s(0), o.s(1))
		v := o.s(1)
		if o.s(0) == "strike" && v != "true" {
			v = "false"
		}
		k.Fmt[o.s(0)] = v
	case "runtab":
		r.AddTab()
		k.Toks = append(k.Toks, "tab")
	case "size":
		for i, t := range r.Children {
			dr, ok := t.(*docx.Drawing)
			if !ok {
				continue
			}
			ti := i + len(k.Toks) - len(r.Children)
			if ti < 0 || ti >= len(k.Toks) {
				return false
			}
			p := strings.SplitN(k.Toks[ti], ":", 4)
			if len(p) < 3 {
				return false
			}
			p[2] = fmt.Sprintf("%dx%d", o.v(0), o.v(1))
			if dr.Inline != nil && dr.Inline.Extent != nil {
				dr.Inline.Size(o.v(0), o.v(1))
			} else if dr.Anchor != nil && dr.Anchor.Extent != nil {
				dr.Anchor.Size(o.v(0), o.v(1))
			} else {
				return false
			}
			k.Toks[ti] = strings.Join(p, ":")
			return true
		}
		return false
	case "settext":
		for i, t := range r.Children {
			x, ok := t.(*docx.Text)
			if !ok {
				continue
			}
			ti := i + len(k.Toks) - len(r.Children)
			if ti < 0 || ti >= len(k.Toks) || !strings.HasPrefix(k.Toks[ti], "t:") {
				return false
			}
			x.Text = o.s(0)
			k.Toks[ti] = "t:" + o.s(0)
			return true
		}
		return false
	default:
		return false
	}
	return true
}

func opImage(o *Op) []byte {
	return imageBytes(int(o.v(0)), int(o.v(1)), int(o.v(2)), uint64(o.v(3)), int(o.v(4)))
}

// exec performs one step.
func (w *World) exec(o *Op) {
	w.step++
	before := len(w.docs)
	w.outcome = ""
	applied := w.exec1(o)
	if rt.Wild() && len(o.F) > 0 {
		w.loose = true
	}
	if w.tracing && !w.loose {
		s := fmt.Sprintf("%d %s %v %s\n", w.step, o.K, applied, w.outcome)
		for _, k := range []int{o.D, o.X} {
			if d := w.docs[k]; d != nil && applied {
				s += liveState(d.d)
			}
		}
		w.trace = append(w.trace, s)
	}
	if applied {
		w.ops[o.K]++
	}
	w.logf("%d %s d=%d x=%d applied=%v steps=%d docs=%d>%d", w.step, o.K, o.D, o.X, applied, rt.Steps(), before, len(w.docs))
}

func (w *World) exec1(o *Op) bool {
	switch o.K {
	case "new":
		w.newDoc(o.D, o.v(0), o.X)
		return true
	case "foreign":
		f := buildForeign(uint64(o.v(0)), int(o.v(1)))
		b := zipParts(f.parts)
		p, err := readPkg(b)
		must(err)
		if d := firstDiff(f.content.Render(), p.Content.Render()); d != "" {
			panic("harness: foreign package and its model differ: " + d)
		}
		w.files[o.X] = fileOfForeign(f, b, p)
		return true
	case "open":
		return w.open(o)
	case "save":
		return w.save(o)
	case "crash":
		w.crash()
		return true
	case "drop":
		if w.docs[o.D] == nil {
			return false
		}
		delete(w.docs, o.D)
		return true
	case "append":
		return w.append(o)
	case "split":
		return w.split(o)
	case "loaditems":
		return w.loadItems(o)
	case "print":
		d := w.docs[o.D]
		if d == nil {
			return false
		}
		before := ""
		if w.prop == "C25" {
			before = liveState(d.d)
		}
		printDoc(d.d)
		if before != "" {
			after := liveState(d.d)
			w.req("C25", before == after, "print-changes", "printing changed the document: %s", firstDiff(before, after))
		}
		w.check(d)
		w.checkPrint(d)
		return true
	case "usetmpl":
		d := w.docs[o.D]
		if d == nil {
			return false
		}
		w.useTmpl(d, o.X)
		return true
	case "struct":
		d := w.docs[o.D]
		if d == nil {
			return false
		}
		return w.structOp(d, o)
	case "merge", "filter", "innards":
		d := w.docs[o.D]
		if d == nil {
			return false
		}
		switch o.K {
		case "merge":
			return w.merge(d, o)
		case "filter":
			return w.filter(d, o)
		}
		return w.innards(d, o)
	case "prefix":
		return w.prefixes(o)
	case "rexml":
		return w.rexmlOp(o)
	case "repack":
		return w.repack(o)
	case "tool":
		return w.toolOp(o)
	case "harm":
		return w.harm(o)
	case "mangle":
		return w.mangle(o)
	case "twinsave":
		return w.twinSave(o)
	}
	d := w.docs[o.D]
	if d == nil {
		return false
	}
	if o.K == "pic" || o.K == "picfile" {
		return w.picture(d, o)
	}
	ok := edit(d, o)
	if ok && o.K == "text" {
		w.spaces(d, o)
	}
	if ok {
		w.check(d)
	}
	return ok
}

func printDoc(d *docx.Docx) string {
	var sb strings.Builder
	for _, it := range d.Document.Body.Items {
		switch x := it.(type) {
		case *docx.Paragraph:
			sb.WriteString(x.String())
		case *docx.Table:
			sb.WriteString(x.String())
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

func (w *World) crash() {
	w.docs = map[int]*Doc{}
	for _, t := range w.tmpls {
		if !t.shared {
			t.opened, t.closed = 0, 0
		}
	}
	w.cond["process lost"]++
	if rt.Task() < 0 && !w.twin && w.sharedSt == nil {
		rt.Fresh() // no other document is alive
	}
}

// check compares a live document with everything known about it.
func (w *World) check(d *Doc) { w.softly(func() { w.check1(d) }) }

func (w *World) check1(d *Doc) {
	live := liveContent(d.d)
	want, got := d.m.Render(), live.Render()
	if want != got {
		w.req(propsFor(d.m, live), false, "content", "the live document differs from what was put in: %s", firstDiff(want, got))
	}
	w.states[hashString(got)] = true
	w.checkRels(d)
	w.checkDrawingIDs(d)
	if w.prop == "C23" {
		now := d.looseNow()
		for _, k := range sortedKeys(now) {
			w.req("C23", d.loose[k], "dangling-live", "a relationship of the document leads to the part %q, which it does not have", k)
		}
	}
	for _, k := range sortedKeys(d.carried) {
		if strings.HasPrefix(k, "word/media/") {
			md := d.d.Media(k[len("word/media/"):])
			w.req("C05 C07 C16 C17 C03 C15", md != nil, "media-lost", "the image %s is gone", k)
			w.req("C05 C07 C16 C17 C03 C15", md != nil && sum(md.Data) == d.carried[k], "media-changed", "the image %s has other bytes now", k)
		}
	}
}

// propsFor decides which properties a difference in content speaks about.
func propsFor(want, got Content) string {
	a, b := picToks(want), picToks(got)
	ps := "C01 C03 C04 C06 C12 C13 C14 C16 C17 C18"
	if a != b {
		ps += " C07 C15"
	}
	return ps
}

func picToks(c Content) string {
	var sb strings.Builder
	for _, p := range c.Paras() {
		for _, k := range p.Kids {
			for _, t := range k.Toks {
				switch {
				case strings.HasPrefix(t, "pic:"):
					sb.WriteString(t[strings.LastIndexByte(t, ':'):])
				case strings.HasPrefix(t, "shape:"), strings.HasPrefix(t, "canvas:"), strings.HasPrefix(t, "group:"):
					for _, s := range digests.FindAllString(t, -1) {
						sb.WriteString(":" + s)
					}
				}
			}
		}
	}
	return sb.String()
}

var digests = regexp.MustCompile("\\b[0-9a-f]{16}\\b")

var errStop = errors.New("stop")

func (w *World) checkRels(d *Doc) {
	rels := liveRels(d.d)
	ids := map[string]string{}
	for _, r := range rels {
		_, dup := ids[r.ID]
		w.req("C08", !dup, "rel-dup", "relationship id %s is there twice", r.ID)
		ids[r.ID] = r.Target
	}
	for _, id := range sortedKeys(d.known) {
		t, ok := ids[id]
		w.req("C08", ok, "rel-lost", "relationship %s -> %q is gone", id, d.known[id])
		w.req("C08", t == d.known[id], "rel-changed", "relationship %s meant %q, now %q", id, d.known[id], t)
	}
	if w.prop == "C08" {
		for i, r := range rels {
			t, err := d.d.ReferTarget(r.ID)
			w.req("C08", err == nil && t == r.Target, "refer-target", "ReferTarget(%s) = %q, %v; listed as %q", r.ID, t, err, r.Target)
			id, err := d.d.ReferID(r.Target)
			w.req("C08", err == nil && ids[id] == r.Target, "refer-id", "ReferID(%q) = %q, %v", r.Target, id, err)
			if i < len(d.rIDs) {
				w.req("C08", d.rIDs[i] == r.ID, "rel-order", "relationship number %d was %s, now %s", i, d.rIDs[i], r.ID)
			}
		}
		_, err := d.d.ReferTarget("rId999999999999")
		w.req("C08", err != nil, "refer-unknown", "an unknown id resolves")
		_, err = d.d.ReferID("no such target \x01")
		w.req("C08", err != nil, "refer-unknown", "an unknown target resolves")
		if len(rels) > 0 {
			k, n := w.step%len(rels), 0
			err := d.d.RangeRelationships(func(r *docx.Relationship) error {
				w.req("C08", n <= k && *r == rels[n], "range", "iteration number %d visits %v after an error at %d", n, *r, k)
				n++
				if n == k+1 {
					return errStop
				}
				return nil
			})
			w.req("C08", err == errStop && n == k+1, "range", "iteration that should stop after %d calls made %d, error %v", k+1, n, err)
		}
	}
	d.rIDs = d.rIDs[:0]
	for _, r := range rels {
		d.known[r.ID] = r.Target
		d.rIDs = append(d.rIDs, r.ID)
	}
}

func (w *World) checkDrawingIDs(d *Doc) {
	cnt := map[int]int{}
	ids := liveDocPrs(d.d)
	for _, id := range ids {
		cnt[id]++
	}
	for _, id := range ids {
		if cnt[id] > d.prev[id] {
			w.aside("C09", !d.seen[id], "drawing-id", "a new drawing got the id %d, which is taken", id)
			w.aside("C09", cnt[id] == d.prev[id]+1, "drawing-id", "%d new drawings got the id %d", cnt[id], id)
		}
	}
	for _, id := range ids {
		d.seen[id] = true
	}
	d.prev = cnt
}

// picture adds a picture, which must work entirely or not at all.
func (w *World) picture(d *Doc, o *Op) bool {
	p, m := d.para(o.P)
	if p == nil {
		return false
	}
	b := opImage(o)
	w.pictures[sum(b)] = pictureKinds[o.v(0)&3]
	fs := newFaultSet(o.F, w.stats)
	defer fs.tally()
	if o.K == "picfile" {
		w.pics.files[o.s(0)] = b
	}
	w.pics.fs = fs
	if o.K == "picfile" {
		w.pics.mirror(o.s(0))
	}
	before := ""
	if w.prop == "C15" {
		before = liveState(d.d)
	}
	_, err := editPara(p, m, o)
	w.pics.fs = nil
	if err != nil {
		w.req("*", fs.harmful() > 0, "picture-refused", "a healthy picture was refused: %v", err)
		w.cond["picture refused after a fault"]++
		if before != "" {
			w.req("C15", liveState(d.d) == before, "picture-half", "adding the picture failed with %v, but the document changed: %s", err, firstDiff(before, liveState(d.d)))
		}
	} else {
		w.req("C15", fs.harmful() == 0, "picture-fault", "adding a picture succeeded although reading its file failed:%s", describeFaults(o.F))
	}
	w.check(d)
	return true
}

// harm adds a picture from damaged bytes (V: kind,w,h,uid,extra,anchor,mode,at,bit).
func (w *World) harm(o *Op) bool {
	d := w.docs[o.D]
	if d == nil {
		return false
	}
	p, m := d.para(o.P)
	if p == nil {
		return false
	}
	b := opImage(o)
	at := mod(int(o.v(7)), len(b)+1)
	switch o.v(6) {
	case 0:
		b = b[:at]
	case 1:
		if at < len(b) {
			b[at] ^= 1 << uint(o.v(8)&7)
		}
	case 2:
		for i := at; i < len(b) && i < at+int(o.v(8)); i++ {
			b[i] = 0
		}
	case 3:
		b = append(append([]byte(nil), b[at:]...), b[:at]...)
	case 4:
		for i := at; i < len(b) && i < at+int(o.v(8)); i++ {
			b[i] = 0xff
		}
	}
	if o.v(6) == 0 {
		w.stats["p.truncated"]++
	} else {
		w.stats["p.damaged"]++
	}
	in := append([]byte(nil), b...)
	before := liveState(d.d)
	var r *docx.Run
	var err error
	switch {
	case len(o.S) > 0:
		w.pics.files[o.s(0)] = in
		w.pics.mirror(o.s(0))
		if o.v(5) == 0 {
			r, err = p.AddInlineDrawingFrom(o.s(0))
		} else {
			r, err = p.AddAnchorDrawingFrom(o.s(0))
		}
	case o.v(5) == 0:
		r, err = p.AddInlineDrawing(in)
	default:
		r, err = p.AddAnchorDrawing(in)
	}
	if err != nil {
		w.cond["damaged picture refused"]++
		after := liveState(d.d)
		w.req("C15", before == after, "picture-half", "adding a damaged picture failed with %v, but the document changed: %s", err, firstDiff(before, after))
	} else {
		w.cond["damaged picture accepted"]++
		ok := r != nil && len(r.Children) == 1
		w.req("C15", ok, "picture-none", "adding a picture succeeded without a run")
		dr, ok := r.Children[0].(*docx.Drawing)
		w.req("C15", ok, "picture-none", "adding a picture succeeded without a drawing")
		m.Kids = append(m.Kids, newRunKid("pic:"+frameSize(dr)+":"+sum(b)))
	}
	w.check(d)
	return true
}

func (w *World) append(o *Op) bool {
	d, s := w.docs[o.D], w.docs[o.X]
	if d == nil || s == nil {
		return false
	}
	if s.frozen {
		return false
	}
	before := ""
	if s != d && (w.prop == "C17" || w.prop == "C07") {
		before = liveState(s.d)
	}
	add := s.m.Clone(false)
	d.d.AppendFile(s.d)
	d.m = append(d.m, add...)
	for k := range s.loose {
		d.loose[k] = true
	}
	if before != "" {
		after := liveState(s.d)
		w.req("C17 C07", before == after, "append-source", "appending changed the appended document: %s", firstDiff(before, after))
	}
	w.check(d)
	if s != d {
		w.check(s)
	}
	return true
}

type sepPanic struct{}

// rule builds the separator of a split step.
// splitRules are those by regular expressions that a run goes on using, its tasks at
// the same time too.
var splitRules map[string]docx.ParagraphSplitRule

func shareRules(p *Plan) {
	splitRules = map[string]docx.ParagraphSplitRule{}
	if p.Prop == "C14" {
		return // nothing but storage is shared
	}
	share := func(ops []Op) {
		for i := range ops {
			if o := &ops[i]; o.K == "split" && o.v(0) == 2 && splitRules[o.s(0)] == nil {
				splitRules[o.s(0)] = docx.SplitDocxByPlainTextRegex(regexp.MustCompile(o.s(0)))
			}
		}
	}
	share(p.Ops)
	for _, t := range p.Tasks {
		share(t)
	}
}

func (w *World) rule(d *Doc, o *Op) (rule docx.ParagraphSplitRule, panicAt int) {
	panicAt = -1
	switch o.v(0) {
	case 0:
		rule = func(*docx.Paragraph) bool { return true }
	case 1:
		rule = func(*docx.Paragraph) bool { return false }
	case 2:
		if rule = splitRules[o.s(0)]; rule == nil {
			rule = docx.SplitDocxByPlainTextRegex(regexp.MustCompile(o.s(0)))
		}
	default:
		// by position
		pos := map[*docx.Paragraph]int{}
		for i, it := range d.d.Document.Body.Items {
			if p, ok := it.(*docx.Paragraph); ok {
				pos[p] = i
			}
		}
		mask := uint64(o.v(1))
		rule = func(p *docx.Paragraph) bool { return mask>>(uint(pos[p])%64)&1 == 1 }
	}
	if o.v(0) == 4 {
		panicAt = int(o.v(2))
	}
	return
}

func (w *World) split(o *Op) bool {
	d := w.docs[o.D]
	if d == nil || d.frozen {
		return false
	}
	rule, panicAt := w.rule(d, o)
	w.checkPrint(d)
	before := liveState(d.d)
	cuts := rule // what the library makes of the rule, and what it should
	if o.v(0) == 2 {
		re := regexp.MustCompile(o.s(0))
		cuts = func(p *docx.Paragraph) bool { return re.MatchString(p.String()) }
	}
	// what the pieces should be
	var want []Content
	if panicAt < 0 {
		var cur Content
		for i, it := range d.d.Document.Body.Items {
			if p, ok := it.(*docx.Paragraph); ok && len(cur) > 0 && cuts(p) {
				want = append(want, cur)
				cur = nil
			}
			cur = append(cur, d.m[i])
		}
		if len(cur) > 0 {
			want = append(want, cur)
		}
	}
	var docs []*docx.Docx
	died := false
	n := 0
	func() {
		if panicAt >= 0 {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(sepPanic); !ok {
						panic(r)
					}
					died = true
				}
			}()
		}
		docs = d.d.SplitByParagraph(func(p *docx.Paragraph) bool {
			rt.Y(-15)
			n++
			if panicAt >= 0 && n > panicAt {
				w.stats["separator.panic"]++
				panic(sepPanic{})
			}
			return rule(p)
		})
	}()
	after := liveState(d.d)
	w.req("C16", before == after, "split-source", "splitting changed the source: %s", firstDiff(before, after))
	if died || panicAt >= 0 {
		w.check(d)
		return true
	}
	w.req("C16 C25", len(docs) == len(want), "split-count", "split into %d pieces, want %d", len(docs), len(want))
	for i, nd := range docs {
		p := &Doc{d: nd, m: want[i].Clone(false), tmpl: d.tmpl, st: d.st, sick: copyBool(d.sick), loose: copyBool(d.loose), held: copyBool(d.held), carried: map[string]string{}}
		for k, v := range d.carried {
			if !strings.HasPrefix(k, "word/media/") {
				p.carried[k] = v
			}
		}
		slot := o.X + i
		if i >= int(o.v(3)) {
			slot = o.X + int(o.v(3))
		}
		if slot == o.D {
			slot += 100
		}
		w.putDoc(slot, p)
		w.req("C16 C25", len(nd.Document.Body.Items) == len(want[i]), "split-cut", "piece %d has %d items, want %d", i, len(nd.Document.Body.Items), len(want[i]))
		w.check(p)
		w.checkPrint(p)
	}
	w.check(d)
	if o.v(0) == 2 && len(docs) > 1 {
		w.cond["split by text"]++
	}
	if len(docs) > 1 {
		w.cond["split into several pieces"]++
	}
	return true
}

func copyBool(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// loadItems rebuilds a document from the text paragraphs and the media of another one.
func (w *World) loadItems(o *Op) bool {
	s := w.docs[o.X]
	if s == nil || s.frozen {
		return false
	}
	var items []interface{}
	var m Content
	for i, it := range s.d.Document.Body.Items {
		if p, ok := it.(*docx.Paragraph); ok && plainPara(s.m[i].P) {
			items = append(items, p)
			m = append(m, s.m[i])
		}
	}
	var media []docx.Media
	carried := map[string]string{}
	for _, name := range mediaNames(s) {
		if md := s.d.Media(name); md != nil {
			media = append(media, docx.Media{Name: md.Name, Data: md.Data})
			carried["word/media/"+name] = sum(md.Data)
		}
	}
	if o.D != o.X {
		defer delete(w.docs, o.X) // its items belong to the new ones now
	}
	load := func(slot int, items []interface{}, m Content) *Doc {
		c := map[string]string{}
		for k, v := range carried {
			c[k] = v
		}
		d := &Doc{d: docx.LoadBodyItems(items, media), m: m.Clone(false), carried: c, frozen: true}
		d.nframe = len(d.m.Paras())
		w.putDoc(slot, d)
		if o.v(0) == 0 {
			d.d.WithDefaultTheme()
			for k, v := range defaultCarried() {
				d.carried[k] = v
			}
		} else {
			w.useTmpl(d, int(o.v(1)))
		}
		d.loose = d.looseNow()
		return d
	}
	sib := int(o.v(2)) - 1
	if sib < 0 || sib == o.D || sib == o.X {
		w.check(load(o.D, items, m))
		return true
	}
	// Two documents of one list of items, each with its share, both with all of
	// the media.
	k := int(uint64(o.v(3)) % uint64(len(items)+1))
	media = append(make([]docx.Media, 0, len(media)+4), media...)
	d, e := load(o.D, items[:k], m[:k]), load(sib, items[k:], m[k:])
	w.check(d)
	w.check(e)
	return true
}

func plainPara(p *MPara) bool {
	for _, k := range p.Kids {
		if k.Kind != 'r' {
			return false
		}
		for _, t := range k.Toks {
			if !strings.HasPrefix(t, "t:") && t != "tab" && !strings.HasPrefix(t, "br:") {
				return false
			}
		}
	}
	return true
}

// mediaNames lists the names of the media of a document known to the outside.
func mediaNames(d *Doc) []string {
	set := map[string]bool{}
	for k := range d.carried {
		if strings.HasPrefix(k, "word/media/") {
			set[k[len("word/media/"):]] = true
		}
	}
	for _, r := range liveRels(d.d) {
		t := strings.TrimPrefix(r.Target, "/word/")
		if r.Type == relImage && strings.HasPrefix(t, "media/") {
			set[t[6:]] = true
		}
	}
	return sortedKeys(set)
}

func fileOfForeign(f *foreign, b []byte, p *Pkg) *File {
	x := &File{data: b, ack: true, m: f.content.Clone(false), carried: map[string]string{}, ids: f.docprs, ranges: p.Ranges}
	for n, d := range p.Parts {
		if isCarried(n) {
			x.carried[n] = sumOf(n, d)
		}
	}
	for _, r := range f.rels {
		x.rels = append(x.rels, docx.Relationship{ID: r.ID, Type: r.Type, Target: r.Target, TargetMode: r.Mode})
	}
	x.loose = looseEnds(x.rels, func(part string) bool { return p.Parts[part] != nil })
	x.held = holds(x.rels)
	return x
}

// protect runs f and turns what it panics with into a violation or the end of
// the run.
func protect(w *World, f func()) (v *Violation, skipped string) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case *Violation:
			v = x
		case skipRun:
			skipped = x.why
		case rt.NoProgress:
			v = &Violation{Prop: w.prop, Class: "no-progress", Msg: x.Error(), Op: w.step}
		case rt.Deadlock:
			v = &Violation{Prop: w.prop, Class: "deadlock", Msg: x.Error(), Op: w.step}
		case string:
			if strings.HasPrefix(x, "harness:") {
				panic(r)
			}
			v = &Violation{Prop: w.prop, Class: "panic", Msg: x, Op: w.step, Stack: clip(string(debug.Stack()), 3000)}
		default:
			v = &Violation{Prop: w.prop, Class: "panic", Msg: fmt.Sprint(r), Op: w.step, Stack: clip(string(debug.Stack()), 3000)}
		}
	}()
	f()
	return
}

func (w *World) install() { xos.Hook = w.pics.ReadFile }

// saveBytes is a save that meets no fault.
func saveBytes(d *docx.Docx) ([]byte, int64, error) {
	var b bytes.Buffer
	n, err := d.WriteTo(&b)
	return b.Bytes(), n, err
}

var _ io.Writer = (*dest)(nil)
