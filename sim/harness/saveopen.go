package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	"simverif/rt"
)

// resolve turns offsets given as a fraction into bytes, with the size a save
// that meets no fault has.
func resolve(l []Fault, prefix string, size func() int64) []Fault {
	rel := false
	for _, f := range l {
		rel = rel || f.Rel && strings.HasPrefix(f.T, prefix)
	}
	if !rel {
		return l
	}
	n := size()
	out := append([]Fault(nil), l...)
	for i := range out {
		if out[i].Rel && strings.HasPrefix(out[i].T, prefix) {
			out[i].At = out[i].At * n / 1000000
			if out[i].At >= n && n > 0 {
				out[i].At = n - 1
			}
			out[i].Rel = false
		}
	}
	return out
}

// save writes a document to a simulated destination (V: mode).
func (w *World) save(o *Op) bool {
	d := w.docs[o.D]
	if d == nil {
		return false
	}
	faults := resolve(o.F, "w.", func() int64 {
		b, _, _ := saveBytes(d.d)
		return int64(len(b))
	})
	if d.st != nil {
		faults = resolve(faults, "s.", func() int64 { return int64(len(d.st.data)) })
	}
	fs := newFaultSet(faults, w.stats)
	defer fs.tally()
	before := ""
	if w.prop == "C03" {
		before = liveState(d.d)
	}
	dst := newDest(fs)
	own := d.tmpl != nil && !d.tmpl.shared
	if own {
		d.tmpl.arm(fs)
	}
	ownSt := d.st != nil && !d.st.isShared(w)
	if ownSt {
		d.st.arm(fs)
	}
	var n int64
	var err error
	died := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(crashed); !ok {
					panic(r)
				}
				died = true
			}
		}()
		n, err = d.d.WriteTo(dst)
	}()
	if own {
		d.tmpl.arm(nil)
	}
	if ownSt {
		d.st.arm(nil)
	}
	// what the destination holds now
	file := &File{data: append([]byte(nil), dst.accepted...)}
	old := w.files[o.X]
	if o.v(0) == 1 && (died || err != nil) && old != nil && old.ack && len(file.data) <= dirStart(old.data) {
		// a tear inside of the directory, which no checksum covers, is left out
		snap := d.snapshot()
		file.data = append(file.data, old.data[len(file.data):]...)
		file.alts = []*File{old, snap}
		w.cond["file torn"]++
	}
	w.files[o.X] = file
	if died {
		w.cond["process lost while saving"]++
		w.rejects("C02", dst.accepted, "crash")
		w.crash()
		return true
	}
	if own {
		w.req("C10", d.tmpl.opened == d.tmpl.closed, "open-files", "%d template files opened, %d closed after a save (error %v)", d.tmpl.opened, d.tmpl.closed, err)
		w.req("C10", d.tmpl.reuse == 0, "use-after-close", "a template file was used after it was closed")
	}
	if before != "" {
		after := liveState(d.d)
		w.req("C03", before == after, "save-edits", "a save (error %v) changed the document: %s", err, firstDiff(before, after))
	}
	if w.tracing {
		w.outcome = fmt.Sprintf("error %v", err != nil)
	}
	if err != nil {
		w.cond["save failed"]++
		w.req("*", fs.harmful() > 0 || len(d.sick) > 0, "healthy-save-failed", "a save that met no fault failed: %v", err)
		w.rejects("C01 C02 C05", dst.accepted, "failed save")
		return true
	}
	if !w.delivered(d, fs, dst, n) {
		return true
	}
	snap := d.snapshot()
	snap.data, snap.ack = file.data, true
	w.files[o.X] = snap
	p, err := readPkg(snap.data)
	must(err)
	snap.ranges = p.Ranges
	if w.tracing {
		if p, err := readPkgOpt(snap.data, true); err == nil {
			m := p.partSums()
			for _, k := range sortedKeys(m) {
				w.outcome += " " + k + "=" + m[k]
			}
		}
	}
	w.cond["save acknowledged"]++
	return true
}

// dirStart is where the central directory of a package begins.
func dirStart(b []byte) int {
	if len(b) < 22 {
		return 0
	}
	return int(binary.LittleEndian.Uint32(b[len(b)-6:]))
}

// rejects checks that what a save that did not finish left behind does not open.
func (w *World) rejects(props string, b []byte, why string) {
	d, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
	w.req(props, err != nil, "partial-accepted", "the %d bytes left by a %s open as a document: %s", len(b), why, partial(d))
}

func partial(d *docx.Docx) string {
	if d == nil {
		return "nil"
	}
	return clip(liveContent(d).Render(), 200)
}

// delivered checks a save that reported success.
func (w *World) delivered(d *Doc, fs *faultSet, dst *dest, n int64) bool {
	for i, f := range fs.list {
		if fs.fired[i] == 0 || legal(f.T) || mayRecover(f.T) {
			continue
		}
		ps := "C01"
		if strings.HasPrefix(f.T, "s.") {
			ps = "C01 C05"
		}
		w.req(ps, false, "fault-unreported", "a save reported success although it met a fault:%s", describeFaults(fs.list[i:i+1]))
	}
	w.req("C05", len(d.sick) == 0, "damage-unreported", "a save reported success although parts of the source are damaged: %v", sortedKeys(d.sick))
	w.req("C01", n == int64(len(dst.accepted)), "count", "the save returned %d bytes, the destination accepted %d", n, len(dst.accepted))
	p, err := readPkg(dst.accepted)
	ps := "C01 C02 C03 C04"
	if err != nil && strings.HasPrefix(err.Error(), "relationship") {
		ps += " C08 C23"
	}
	w.req(ps, err == nil, "incomplete", "a save reported success, but the destination does not hold a complete package: %v", err)
	w.softly(func() { w.delivered1(d, p) })
	return true
}

func (w *World) delivered1(d *Doc, p *Pkg) {
	for _, k := range sortedKeys(d.carried) {
		got, ok := p.Parts[k]
		ps := "C01 C05"
		if strings.HasPrefix(k, "word/media/") {
			ps += " C07"
		}
		w.req(ps, ok, "part-lost", "a save reported success without the part %q", k)
		if k == typesPart {
			ps += " C22"
		}
		w.req(ps, samePart(k, d.carried[k], sumOf(k, got)), "part-changed", "the part %q was saved with other bytes: %s", k, firstDiff(d.carried[k], sumOf(k, got)))
	}
	w.declared(p, d.carried)
	w.references(d, p)
	if !d.opaque {
		want, got := d.m.Render(), p.Content.Render()
		if want != got {
			w.req(propsFor(d.m, p.Content)+" C01", false, "saved-content", "the saved package differs from the document: %s", firstDiff(want, got))
		}
		want, got = fmt.Sprint(liveDocPrs(d.d)), fmt.Sprint(p.DocPrs)
		w.aside("C09", want == got, "saved-drawing-ids", "drawing ids %s were saved as %s", want, got)
	}
	var rs []docx.Relationship
	for _, r := range p.Rels {
		rs = append(rs, docx.Relationship{ID: r.ID, Type: r.Type, Target: r.Target, TargetMode: r.Mode})
	}
	want, got := relString(liveRels(d.d)), relString(rs)
	w.req("C08 C01", want == got, "saved-rels", "relationships were saved differently: %s", firstDiff(want, got))
}

// snapshot is what opening a save of the document has to give.
func (d *Doc) snapshot() *File {
	f := &File{m: d.m.Clone(false), dump: dumpString(d.d.Document.Body.Items), carried: copyMap(d.carried), rels: liveRels(d.d), ids: liveDocPrs(d.d), opaque: d.opaque, loose: copyBool(d.loose), held: copyBool(d.held)}
	for name, s := range liveMedia(d.d) {
		if s != "missing" {
			f.carried["word/media/"+name] = s
		}
	}
	return f
}

// sickParts lists the carried parts that can no longer be read from the data.
func sickParts(data []byte, carried map[string]string) map[string]bool {
	sick := map[string]bool{}
	m := lenientParts(data)
	for k, s := range carried {
		if strings.HasPrefix(k, "word/media/") {
			continue // read when opening
		}
		if g, ok := m[k]; !ok || !samePart(k, s, g) {
			sick[k] = true
		}
	}
	return sick
}

// open opens a file of the simulated disk as a document.
func (w *World) open(o *Op) bool {
	f := w.files[o.X]
	if f == nil {
		return false
	}
	fs := newFaultSet(resolve(o.F, "s.", func() int64 { return int64(len(f.data)) }), w.stats)
	defer fs.tally()
	data, hurt := damage(f.data, f.ranges, fs)
	st := &storage{data: data}
	if s := w.sharedSt[o.X]; s != nil && len(fs.list) == 0 && len(data) > 0 && &s.data[0] == &data[0] {
		st = s
	} else {
		st.arm(fs)
	}
	d, err := docx.Parse(st, int64(len(data)))
	if st.fs != nil {
		st.arm(nil)
	}
	if w.tracing {
		w.outcome = fmt.Sprintf("error %v", err != nil)
	}
	for i, x := range fs.list {
		if x.T == "s.trunc" && fs.fired[i] > 0 {
			st.data = data[:x.At] // it stays short
		}
	}
	faulty := fs.harmful() > 0 || len(hurt) > 0
	if err != nil {
		w.req("*", faulty || !f.ack, "healthy-open-failed", "opening a healthy file failed: %v", err)
		w.cond["open refused"]++
		return true
	}
	if d == nil {
		w.req("*", false, "open-nil", "opening gave neither a document nor an error")
	}
	if !f.ack && len(f.alts) == 0 {
		w.req("C02 C01", false, "partial-accepted", "what a save that was cut short left behind opens as a document: %s", partial(d))
	}
	src := f
	if len(f.alts) > 0 {
		w.cond["torn file opened"]++
		src = nil
		got := dumpString(d.Document.Body.Items)
		for _, a := range f.alts {
			if a.dump == got || a.dump == "" && a.m.Render() == liveContent(d).Render() {
				if relString(a.rels) == relString(liveRels(d)) {
					src = a
					break
				}
			}
		}
		w.req("C06", src != nil, "torn-misread", "a torn file opens as something that was never saved: %s; %s", firstDiff(f.alts[0].dump, got), firstDiff(relString(f.alts[0].rels), relString(liveRels(d))))
	}
	nd := &Doc{d: d, m: src.m.Clone(false), st: st, carried: map[string]string{}, opaque: src.opaque, loose: copyBool(src.loose), held: copyBool(src.held)}
	for k, v := range src.carried {
		nd.carried[k] = v
	}
	if _, ok := nd.carried[typesPart]; ok {
		// may have got the types of pictures when it was saved
		if s, ok := lenientParts(st.data)[typesPart]; ok && samePart(typesPart, nd.carried[typesPart], s) {
			nd.carried[typesPart] = s
		}
	}
	nd.sick = sickParts(st.data, nd.carried)
	w.softly(func() { w.opened(d, src, faulty, fs) })
	w.putDoc(o.D, nd)
	for _, id := range liveDocPrs(d) {
		nd.prev[id]++
		nd.seen[id] = true
	}
	if src.opaque {
		nd.m = liveContent(d)
	}
	w.check(nd)
	w.cond["opened"]++
	if len(nd.sick) > 0 {
		w.cond["opened with damaged carried parts"]++
	}
	if w.prop == "C06" && faulty {
		exercise(d)
	}
	return true
}

// opened checks what opening a file gave.
func (w *World) opened(d *docx.Docx, src *File, faulty bool, fs *faultSet) {
	got := dumpString(d.Document.Body.Items)
	if faulty {
		w.cond["open accepted in spite of a fault"]++
		if src.dump != "" {
			w.req("C06", got == src.dump, "misread", "opening met%s and returned other content: %s", describeFaults(fs.list), firstDiff(src.dump, got))
		}
		w.req("C06", src.opaque || liveContent(d).Render() == src.m.Render(), "misread", "opening met%s and returned other content: %s", describeFaults(fs.list), firstDiff(src.m.Render(), liveContent(d).Render()))
		w.req("C06", relString(src.rels) == relString(liveRels(d)), "misread-rels", "opening met%s and returned other relationships: %s", describeFaults(fs.list), firstDiff(relString(src.rels), relString(liveRels(d))))
	}
	if src.dump != "" {
		w.req("C04 C06 C16 C17", got == src.dump, "reopened", "the document came back different: %s", firstDiff(src.dump, got))
	}
	w.req("C08 C04", relString(src.rels) == relString(liveRels(d)), "reopened-rels", "the relationships came back different: %s", firstDiff(relString(src.rels), relString(liveRels(d))))
	if !src.opaque {
		want, have := fmt.Sprint(src.ids), fmt.Sprint(liveDocPrs(d))
		w.aside("C09", want == have, "reopened-drawing-ids", "drawing ids %s came back as %s", want, have)
	}
}

// exercise uses a document in every way that must not crash.
func exercise(d *docx.Docx) {
	_ = printDoc(d)
	_, _, _ = saveBytes(d)
	for _, n := range d.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
		_, _, _ = saveBytes(n)
		_ = printDoc(n)
	}
	t := docx.New().WithDefaultTheme()
	t.AddParagraph().AddText("before")
	t.AppendFile(d)
	_, _, _ = saveBytes(t)
	_ = printDoc(t)
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		_, _ = d.ReferTarget(r.ID)
		_, _ = d.ReferID(r.Target)
		return nil
	})
}

// prefixes opens prefixes of a complete package (V: how many, seed).
func (w *World) prefixes(o *Op) bool {
	f := w.files[o.X]
	if f == nil || !f.ack {
		return false
	}
	n := len(f.data)
	want := int(o.v(0))
	r := NewRng(uint64(o.v(1)), 5)
	try := func(at int) {
		if at < 0 || at >= n {
			return
		}
		w.stats["cut.prefix"]++
		w.rejects("C02", f.data[:at], "cut")
	}
	if want >= n {
		for at := 0; at < n; at++ {
			try(at)
		}
		return true
	}
	for _, g := range f.ranges {
		for k := -2; k <= 2; k++ {
			try(g.from + k)
			try(g.to + k)
		}
	}
	for k := 1; k < 80; k++ {
		try(n - k)
	}
	for i := 0; i < want; i++ {
		try(r.N(n))
	}
	return true
}

// repack stores the parts of a file in another way and compares what is read
// and saved (V: seed).
func (w *World) repack(o *Op) bool {
	f := w.files[o.X]
	if f == nil || !f.ack {
		return false
	}
	r := NewRng(uint64(o.v(0)), 9)
	p, err := readPkgOpt(f.data, true)
	must(err)
	var ps []foreignPart
	mode := r.N(4)
	for _, n := range p.Names {
		ps = append(ps, foreignPart{name: n, data: p.Parts[n], store: mode == 1 || mode >= 2 && r.P(40)})
	}
	if r.P(60) {
		seen := map[string]bool{}
		for _, n := range p.Names {
			for i := range n {
				if n[i] == '/' && !seen[n[:i+1]] && r.P(70) {
					seen[n[:i+1]] = true
					ps = append(ps, foreignPart{name: n[:i+1], dir: true})
				}
			}
		}
		if r.P(30) {
			ps = append(ps, foreignPart{name: "empty folder/", dir: true})
		}
	}
	switch r.N(3) {
	case 0:
		shuffleParts(r, ps)
	case 1:
		// document first, relationships last
		move(ps, "word/document.xml", 0)
		move(ps, "word/_rels/document.xml.rels", len(ps)-1)
	case 2:
		// media in the reverse order, in front
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	}
	script := r.U64()
	image := func(data []byte, mapSeed uint64) (string, map[string]string) {
		rt.SetMapSeed(mapSeed)
		d, err := docx.Parse(&storage{data: data}, int64(len(data)))
		w.req("C18", err == nil, "layout-open", "the same parts stored differently do not open: %v", err)
		s := liveState(d)
		// the same further steps
		q := NewRng(script)
		if q.P(50) {
			g := d.AddParagraph()
			g.AddText("more")
			g.AddLink("l", "http://l/"+fmt.Sprint(q.N(9)))
			if q.P(50) {
				_, err := g.AddInlineDrawing(imageBytes(q.N(4), 7, 8, q.U64(), 5))
				w.req("C18 C15", err == nil, "layout-picture", "a picture was refused: %v", err)
			}
		}
		if q.P(25) {
			t := docx.New().WithDefaultTheme()
			t.AppendFile(d)
			d = t
			s += liveState(d)
		}
		if q.P(25) {
			for _, x := range d.SplitByParagraph(func(*docx.Paragraph) bool { return q.P(30) }) {
				s += liveState(x)
				d = x
			}
		}
		b, _, err := saveBytes(d)
		w.req("C18", err == nil, "layout-save", "the same parts stored differently cannot be saved again: %v", err)
		pk, err := readPkgOpt(b, true)
		w.req("C18", err == nil, "layout-save", "the same parts stored differently give a broken package: %v", err)
		s += liveState(d)
		return s, pk.partSums()
	}
	a, am := image(f.data, w.seed+1)
	b, bm := image(zipParts(ps), r.U64())
	w.req("C18", a == b, "layout-content", "the same parts stored differently are read differently: %s", firstDiff(a, b))
	w.req("C18", mapDiff(am, bm) == "", "layout-parts", "the same parts stored differently are saved differently: %s", mapDiff(am, bm))
	w.cond["repacked"]++
	return true
}

func move(ps []foreignPart, name string, to int) {
	for i := range ps {
		if ps[i].name == name {
			x := ps[i]
			copy(ps[i:], ps[i+1:])
			copy(ps[to+1:], ps[to:len(ps)-1])
			ps[to] = x
			return
		}
	}
}

// scratchSlot is the first file slot that plans never open: twins leave out
// every save that went there.
const scratchSlot = 50

// twinSave compares a save of a document with the save of a twin that lived
// through the same history without the earlier saves.
func (w *World) twinSave(o *Op) bool {
	d := w.docs[o.D]
	if d == nil || w.twin || w.plan == nil {
		return false
	}
	b, n, err := saveBytes(d.d)
	w.req("C03", err == nil && n == int64(len(b)), "healthy-save-failed", "a save after earlier saves failed: %d, %v", n, err)
	t := newWorld(w.prop, w.seed)
	t.twin = true
	keep := w.pics
	t.install()
	for i := range w.plan.Ops[:w.step-1] {
		x := w.plan.Ops[i]
		if x.K == "save" && x.X >= scratchSlot || x.K == "print" || x.K == "twinsave" {
			t.step++
			continue
		}
		t.exec(&x)
	}
	w.pics = keep
	w.install()
	td := t.docs[o.D]
	if td == nil {
		w.req("C03", false, "twin", "the twin has no such document")
	}
	tb, _, err := saveBytes(td.d)
	w.req("C03", err == nil, "healthy-save-failed", "a save failed: %v", err)
	p, err := readPkgOpt(b, true)
	w.req("C03", err == nil, "incomplete", "a save after earlier saves is not a package: %v", err)
	q, err := readPkgOpt(tb, true)
	w.req("C03", err == nil, "incomplete", "a save is not a package: %v", err)
	df := mapDiff(q.partSums(), p.partSums())
	w.req("C03", df == "", "retry-differs", "a save after earlier saves holds other parts than one without: %s", df)
	w.cond["twin compared"]++
	return true
}

// lenientParts reads what can be read of a package.
func lenientParts(b []byte) map[string]string {
	m := map[string]string{}
	zr, err := newZip(b)
	if err != nil {
		return m
	}
	for _, f := range zr.File {
		if data, err := readEntry(f); err == nil {
			m[f.Name] = sumOf(f.Name, data)
		}
	}
	return m
}
