package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode"

	docx "github.com/fumiama/go-docx"
)

// Steps that rebuild what a document already holds: merging the runs of a
// paragraph and keeping or dropping elements by kind. What they must do is
// stated on the logical content, and holds for the live document, for what
// the next successful save writes, and for what is read from that again.

// mergeRule is the rule of a merge step and the formatting it preserves.
func mergeRule(o *Op) (docx.RunMergeRule, func(map[string]string) string) {
	switch o.v(0) {
	case 0:
		return docx.MergeAllRuns, func(map[string]string) string { return "" }
	case 1:
		return docx.MergeSamePropRuns, func(m map[string]string) string {
			var sb strings.Builder
			renderMap(&sb, m)
			return sb.String()
		}
	case 2:
		return func(_, _ *docx.Run) bool { return false }, func(map[string]string) string { return "" }
	}
	return docx.MergeSamePropRunsOf(o.S...), func(m map[string]string) string {
		n := map[string]string{}
		for _, s := range o.S {
			if v, ok := m[propKey[s]]; ok {
				n[s] = v
			}
		}
		var sb strings.Builder
		renderMap(&sb, n)
		return sb.String()
	}
}

var propKey = map[string]string{
	"Color": "color", "Size": "sz", "Bold": "b", "Italic": "i", "Underline": "u", "Highlight": "hl",
	"Strike": "strike", "Fonts": "fonts", "Shade": "shd",
}

// stream is what a reader of the paragraph meets, whatever runs it is cut
// into: text that is not interrupted is one item.
func (p *MPara) stream(f func(map[string]string) string) string {
	var sb strings.Builder
	renderMap(&sb, p.Props)
	last := "" // formatting of the text that is still open
	open := false
	shut := func() {
		if open {
			sb.WriteByte('\n')
		}
		open = false
	}
	for _, k := range p.Kids {
		if k.Kind != 'r' {
			shut()
			sb.WriteByte('\n')
			(&MPara{Kids: []*MKid{k}}).render(&sb, "")
			continue
		}
		fm := f(k.Fmt)
		for _, t := range k.Toks {
			if t == "t:" {
				continue
			}
			if !strings.HasPrefix(t, "t:") {
				shut()
				fmt.Fprintf(&sb, "\n%s %q", fm, t)
				continue
			}
			if !open || fm != last {
				shut()
				fmt.Fprintf(&sb, "\n%s text ", fm)
				open, last = true, fm
			}
			q := fmt.Sprintf("%q", t[2:])
			sb.WriteString(q[1 : len(q)-1])
		}
	}
	return sb.String()
}

// guarded tells of every character of the paragraph's runs whether a reader
// must keep it: white space at the ends of a text may be dropped unless the
// text says otherwise.
func guarded(p *docx.Paragraph) (g []bool, plain bool) {
	plain = true
	for _, c := range p.Children {
		r, ok := c.(*docx.Run)
		if !ok {
			continue
		}
		for _, rc := range r.Children {
			t, ok := rc.(*docx.Text)
			if !ok {
				continue
			}
			if t.XMLSpace != "" && t.XMLSpace != "preserve" {
				plain = false
			}
			l := []rune(t.Text)
			a, b := 0, len(l)
			if t.XMLSpace != "preserve" {
				for a < b && unicode.IsSpace(l[a]) {
					a++
				}
				for b > a && unicode.IsSpace(l[b-1]) {
					b--
				}
			}
			for i := range l {
				g = append(g, i >= a && i < b)
			}
		}
	}
	return
}

// spaces checks that white space at the ends of added text is marked: other
// readers may drop it. The mark itself is compared like everything else.
func (w *World) spaces(d *Doc, o *Op) {
	p, _ := d.para(o.P)
	r := runOf(p.Children[len(p.Children)-1])
	for _, c := range r.Children {
		if t, ok := c.(*docx.Text); ok && strings.Trim(t.Text, " \t\r\n") != t.Text {
			w.req("C04", t.XMLSpace == "preserve", "space", "white space at the ends of %q is not marked as significant", t.Text)
			w.cond["significant space"]++
		}
	}
}

// merge merges the runs of a paragraph (V: rule, store it, with faults).
func (w *World) merge(d *Doc, o *Op) bool {
	p, m := d.para(o.P)
	if p == nil {
		return false
	}
	idx := 0
	for i, x := range d.m.Paras() {
		if x == m {
			idx = i
		}
	}
	w.check(d)
	rule, f := mergeRule(o)
	before := liveState(d.d)
	want := livePara(d.d, p).stream(f)
	wg, plain := guarded(p)
	np := p.MergeText(rule)
	if after := liveState(d.d); after != before {
		w.req("C20", false, "merge-source", "merging changed the original: %s", firstDiff(before, after))
	}
	merged := livePara(d.d, &np)
	got := merged.stream(f)
	w.req("C20", want == got, "merge", "the merged paragraph reads differently: %s", firstDiff(want, got))
	if plain {
		ng, _ := guarded(&np)
		w.req("C20", len(wg) == len(ng), "merge", "the merged paragraph has %d characters, want %d", len(ng), len(wg))
		for i := range wg {
			w.req("C20", !wg[i] || ng[i], "merge-space", "the white space at character %d is no longer significant", i)
		}
	}
	if len(merged.Kids) < len(m.Kids) {
		w.cond["runs merged"]++
	}
	if o.v(1) == 0 {
		w.check(d)
		return true
	}
	return w.around(d, o, "C20", func() {
		*p = np
		m.Kids = livePara(d.d, p).Kids
	}, func(c Content) Content {
		// cut the paragraph in both documents in the same way
		ps := c.Paras()
		n := &MPara{Props: map[string]string{"stream": ps[idx].stream(f)}}
		*ps[idx] = *n
		return c
	}, true, idx)
}

// around makes a change between two saves, a failing one in between, and
// compares what they wrote.
func (w *World) around(d *Doc, o *Op, prop string, change func(), model func(Content) Content, both bool, idx int) bool {
	a, _, erra := saveBytes(d.d)
	change()
	if len(o.F) > 0 {
		w.save(&Op{K: "save", D: o.D, X: scratchSlot, F: o.F})
	}
	w.check(d)
	if erra != nil {
		w.cond["not saved for other reasons"]++
		return true
	}
	b, _, err := saveBytes(d.d)
	w.req(prop, err == nil, "unsaved", "the document could be saved before, and now gives %v", err)
	if pa, err := readPkg(a); err == nil && len(pa.Content.Paras()) > idx && !d.opaque {
		pb, err := readPkg(b)
		w.req(prop, err == nil, "unreadable", "what is saved now cannot be read: %v", err)
		w.compare(prop, "saved", pa.Content, pb.Content, model, both)
	}
	da, err := docx.Parse(bytes.NewReader(a), int64(len(a)))
	if err == nil && len(liveContent(da).Paras()) > idx {
		db, err := docx.Parse(bytes.NewReader(b), int64(len(b)))
		w.req(prop, err == nil, "unreadable", "what is saved now cannot be opened: %v", err)
		w.compare(prop, "reopened", liveContent(da), liveContent(db), model, both)
	}
	return true
}

func (w *World) compare(prop, what string, a, b Content, model func(Content) Content, both bool) {
	if both && len(a.Paras()) != len(b.Paras()) {
		w.req(prop, false, what, "the %s document has %d paragraphs, want %d", what, len(b.Paras()), len(a.Paras()))
	}
	want := model(a)
	if both {
		b = model(b)
	}
	x, y := want.Render(), b.Render()
	w.req(prop, x == y, what, "the %s document is not the earlier one changed so: %s", what, firstDiff(x, y))
	w.cond["compared "+what]++
}

var dropKinds = map[string][]string{
	"Canvas": {"canvas:"}, "Shape": {"shape:"}, "Group": {"group:"},
	"ShapeAndCanvas": {"shape:", "canvas:"}, "ShapeAndCanvasAndGroup": {"shape:", "canvas:", "group:"},
	"NilPicture": {"shape:", "canvas:", "group:", "drawing:"},
}

func tokKind(t string) string {
	switch {
	case strings.HasPrefix(t, "t:"):
		return "*docx.Text"
	case t == "tab":
		return "*docx.Tab"
	case strings.HasPrefix(t, "br:"):
		return "*docx.BarterRabbet"
	case strings.HasPrefix(t, "i:"):
		return "" // not an element of the run
	case strings.HasPrefix(t, "*"):
		return t
	}
	return "*docx.Drawing"
}

func (p *MPara) drop(prefixes []string) {
	for _, k := range p.Kids {
		var ts []string
	next:
		for _, t := range k.Toks {
			for _, s := range prefixes {
				if strings.HasPrefix(t, s) {
					continue next
				}
			}
			ts = append(ts, t)
		}
		k.Toks = ts
	}
}

// filter keeps or drops elements by kind (V: which filter; S: the kinds).
func (w *World) filter(d *Doc, o *Op) bool {
	if d.frozen {
		return false
	}
	w.check(d)
	keep := map[string]bool{}
	for _, s := range o.S {
		keep[s] = true
	}
	idx, kid := 0, 0
	var run *docx.Run
	var para *docx.Paragraph
	if o.v(0) >= 2 {
		p, m := d.para(o.P)
		if p == nil {
			return false
		}
		para = p
		for i, x := range d.m.Paras() {
			if x == m {
				idx = i
			}
		}
		if o.v(0) == 4 {
			if len(m.Kids) == 0 {
				return false
			}
			kid = mod(o.C, len(m.Kids))
			if run = runOf(p.Children[kid]); run == nil {
				return false
			}
		}
	}
	model := func(c Content) Content {
		switch o.v(0) {
		case 0:
			var n Content
			for _, b := range c {
				k := "*docx.SectPr"
				if b.P != nil {
					k = "*docx.Paragraph"
				} else if b.T != nil {
					k = "*docx.Table"
				}
				if keep[k] {
					n = append(n, b)
				}
			}
			return n
		case 1:
			for _, p := range c.Paras() {
				p.drop(dropKinds[o.s(0)])
			}
		case 2:
			p := c.Paras()[idx]
			var ks []*MKid
			for _, k := range p.Kids {
				n := "*docx.Run"
				if k.Kind == 'a' {
					n = "*docx.Hyperlink"
				} else if k.Kind == '?' {
					n = k.Toks[0]
				}
				if keep[n] {
					ks = append(ks, k)
				}
			}
			p.Kids = ks
		case 3:
			c.Paras()[idx].drop(dropKinds[o.s(0)])
		case 4:
			p := c.Paras()[idx]
			if kid >= len(p.Kids) {
				break
			}
			var ts []string
			for _, t := range p.Kids[kid].Toks {
				if k := tokKind(t); k == "" || keep[k] {
					ts = append(ts, t)
				}
			}
			p.Kids[kid].Toks = ts
		}
		return c
	}
	n := len(d.m.Render())
	want := model(liveContent(d.d)).Render()
	w.around(d, o, "C21", func() {
		switch o.v(0) {
		case 0:
			d.d.Document.Body.KeepElements(o.S...)
		case 1:
			d.d.Document.Body.DropDrawingOf(o.s(0))
		case 2:
			para.KeepElements(o.S...)
		case 3:
			switch o.s(0) {
			case "Canvas":
				para.DropCanvas()
			case "Shape":
				para.DropShape()
			case "Group":
				para.DropGroup()
			case "ShapeAndCanvas":
				para.DropShapeAndCanvas()
			case "ShapeAndCanvasAndGroup":
				para.DropShapeAndCanvasAndGroup()
			case "NilPicture":
				para.DropNilPicture()
			}
		default:
			run.KeepElements(o.S...)
		}
		got := liveContent(d.d).Render()
		w.req("C21", want == got, "filter", "the filter (%d %v) left something else: %s", o.v(0), o.S, firstDiff(want, got))
		d.m = model(d.m)
	}, model, false, idx)
	if len(d.m.Render()) < n {
		w.cond["something filtered out"]++
	}
	return true
}

// innards changes something deep inside of a drawing or a section, which
// must not show anywhere else (V: text in a
// shape, a shape, the size of a page, the size of a drawing; a value).
func (w *World) innards(d *Doc, o *Op) bool {
	type spot struct {
		do  func() bool
		run *docx.Run
		kid *MKid
		sec map[string]string
	}
	var l []spot
	val := o.v(1)
	ls, ms := liveParas(d.d), d.m.Paras()
	if len(ls) != len(ms) || d.frozen {
		return false
	}
	for i, p := range ls {
		if len(p.Children) != len(ms[i].Kids) {
			continue
		}
		for j, c := range p.Children {
			r := runOf(c)
			if r == nil {
				continue
			}
			for _, rc := range r.Children {
				dr, ok := rc.(*docx.Drawing)
				if !ok {
					continue
				}
				switch o.v(0) {
				case 0:
					for _, b := range boxes(dr) {
						l = append(l, spot{do: func() bool { b.AddText(o.s(0)); return true }, run: r, kid: ms[i].Kids[j]})
						for _, c := range b.Children {
							br := runOf(c)
							if br == nil {
								continue
							}
							l = append(l, spot{do: func() bool { br.AddTab(); return true }, run: r, kid: ms[i].Kids[j]})
							for _, x := range br.Children {
								if t, ok := x.(*docx.Text); ok {
									l = append(l, spot{do: func() bool { t.Text = o.s(0); return true }, run: r, kid: ms[i].Kids[j]})
								}
							}
						}
					}
				case 3:
					if dr.Inline != nil {
						l = append(l, spot{do: func() bool { dr.Inline.Size(val, val+1); return true }, run: r, kid: ms[i].Kids[j]})
					}
					if dr.Anchor != nil {
						l = append(l, spot{do: func() bool { dr.Anchor.Size(val, val+1); return true }, run: r, kid: ms[i].Kids[j]})
					}
				case 1:
					for _, s := range shapes(dr) {
						if s.SpPr == nil {
							continue
						}
						l = append(l, spot{do: func() bool {
							s.SpPr.PrstGeom.Prst = o.s(0)
							if s.SpPr.Line != nil {
								s.SpPr.Line.W = val
							}
							return true
						}, run: r, kid: ms[i].Kids[j]})
					}
				}
			}
		}
	}
	if o.v(0) == 2 {
		k := 0
		for _, it := range d.d.Document.Body.Items {
			if s, ok := it.(*docx.SectPr); ok && s.PgSz != nil {
				for k < len(d.m) && (d.m[k].P != nil || d.m[k].T != nil) {
					k++
				}
				if k >= len(d.m) {
					break
				}
				b := d.m[k]
				k++
				l = append(l, spot{do: func() bool { s.PgSz.W = int(val); b.S["w"] = fmt.Sprint(val); return true }})
			} else if ok {
				return false
			}
		}
	}
	if len(l) == 0 {
		return false
	}
	s := l[mod(o.C, len(l))]
	if !s.do() {
		return false
	}
	if s.run != nil {
		s.kid.Toks = liveToks(d.d, s.run)
	}
	var ks []int
	for k := range w.docs {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	for _, k := range ks {
		w.check(w.docs[k])
	}
	return true
}

// shapes lists the shapes of a drawing.
func shapes(x *docx.Drawing) (ss []*docx.WordprocessingShape) {
	eachElem(x, func(e interface{}) {
		if s, ok := e.(*docx.WordprocessingShape); ok {
			ss = append(ss, s)
		}
	})
	return
}
