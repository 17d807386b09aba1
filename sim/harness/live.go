package main

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// liveContent reads the logical content out of a live document through the
// exported types and the exported lookups.
func liveContent(d *docx.Docx) Content {
	var c Content
	for _, it := range d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			c = append(c, &MBlock{P: livePara(d, o)})
		case *docx.Table:
			c = append(c, &MBlock{T: liveTable(d, o)})
		case *docx.SectPr:
			s := map[string]string{}
			if o.PgSz != nil {
				s["w"], s["h"] = strconv.Itoa(o.PgSz.W), strconv.Itoa(o.PgSz.H)
			}
			c = append(c, &MBlock{S: s})
		default:
			c = append(c, &MBlock{S: map[string]string{"unknown": fmt.Sprintf("%T", it)}})
		}
	}
	return c
}

func liveTable(d *docx.Docx, o *docx.Table) *MTable {
	t := &MTable{Props: map[string]string{}}
	if p := o.TableProperties; p != nil {
		if p.Width != nil {
			if p.Width.W != 0 {
				t.Props["w"] = i64(p.Width.W)
			}
			if p.Width.Type != "" {
				t.Props["type"] = p.Width.Type
			}
		}
		if p.Justification != nil {
			t.Props["jc"] = p.Justification.Val
		}
		if l := p.Look; l != nil {
			var on []string
			for i, x := range []int{l.FirstRow, l.LastRow, l.FirstCol, l.LastCol, l.NoHBand, l.NoVBand} {
				if x == 1 {
					on = append(on, lookAttrs[i])
				}
			}
			if on != nil {
				t.Props["look"] = strings.Join(on, " ")
			}
		}
		if b := p.TableBorders; b != nil {
			for n, x := range map[string]*docx.WTableBorder{"top": b.Top, "left": b.Left, "bottom": b.Bottom, "right": b.Right, "insideH": b.InsideH, "insideV": b.InsideV} {
				if x != nil {
					t.Props["b."+n] = x.Color
				}
			}
		}
	}
	if o.TableGrid != nil {
		for _, g := range o.TableGrid.GridCols {
			if g != nil {
				t.Grid = append(t.Grid, g.W)
			}
		}
	}
	for _, r := range o.TableRows {
		mr := &MRow{Props: map[string]string{}}
		if p := r.TableRowProperties; p != nil {
			if p.TableRowHeight != nil {
				mr.Props["h"] = i64(p.TableRowHeight.Val)
			}
			if p.Justification != nil {
				mr.Props["jc"] = p.Justification.Val
			}
		}
		for _, c := range r.TableCells {
			mc := &MCell{Props: map[string]string{}}
			if p := c.TableCellProperties; p != nil {
				if p.TableCellWidth != nil {
					if p.TableCellWidth.W != 0 {
						mc.Props["w"] = i64(p.TableCellWidth.W)
					}
					if p.TableCellWidth.Type != "" {
						mc.Props["type"] = p.TableCellWidth.Type
					}
				}
				if p.GridSpan != nil {
					mc.Props["span"] = strconv.Itoa(p.GridSpan.Val)
				}
				if p.VMerge != nil {
					mc.Props["merge"] = p.VMerge.Val
				}
				if p.VAlign != nil {
					mc.Props["valign"] = p.VAlign.Val
				}
				if p.Shade != nil {
					mc.Props["shd"] = p.Shade.Val + "/" + p.Shade.Color + "/" + p.Shade.Fill
				}
			}
			for _, p := range c.Paragraphs {
				mc.Paras = append(mc.Paras, livePara(d, p))
			}
			mr.Cells = append(mr.Cells, mc)
		}
		t.Rows = append(t.Rows, mr)
	}
	return t
}

func i64(v int64) string { return strconv.FormatInt(v, 10) }

func liveFmt(r *docx.RunProperties) map[string]string {
	m := map[string]string{}
	if r == nil {
		return m
	}
	if r.Color != nil {
		m["color"] = r.Color.Val
	}
	if r.Size != nil {
		m["sz"] = r.Size.Val
	}
	if r.SizeCs != nil {
		m["szCs"] = r.SizeCs.Val
	}
	if r.Shade != nil {
		m["shd"] = r.Shade.Val + "/" + r.Shade.Color + "/" + r.Shade.Fill
	}
	if r.Spacing != nil {
		m["spacing"] = strconv.Itoa(r.Spacing.Line)
	}
	if r.Bold != nil {
		m["b"] = switchOf(r.Bold)
	}
	if r.Italic != nil {
		m["i"] = switchOf(r.Italic)
	}
	if r.Underline != nil {
		m["u"] = r.Underline.Val
	}
	if r.Highlight != nil {
		m["hl"] = r.Highlight.Val
	}
	if r.Strike != nil {
		m["strike"] = r.Strike.Val
	}
	if r.Fonts != nil {
		m["fonts"] = r.Fonts.ASCII + "/" + r.Fonts.EastAsia + "/" + r.Fonts.HAnsi + "/" + r.Fonts.Hint
	}
	if r.RunStyle != nil {
		m["rStyle"] = r.RunStyle.Val
	}
	return m
}

// onOff is what a switch says however it is spelled.
func onOff(v string) string {
	switch v {
	case "", "1", "true", "on":
		return ""
	case "0", "false", "off":
		return "off"
	}
	return v
}

// switchOf is what a switch in the formatting of a run says: being there
// without a value means on.
func switchOf(x interface{}) string {
	if f := reflect.ValueOf(x).Elem().FieldByName("Val"); f.IsValid() {
		return onOff(fmt.Sprint(f.Interface()))
	}
	return ""
}

func valOf(x interface{}) int {
	if v := reflect.ValueOf(x); !v.IsNil() {
		return int(v.Elem().FieldByName("Val").Int())
	}
	return 0
}

// paraSwitches are the switches among the properties of paragraphs.
var paraSwitches = []string{"adjustRightInd", "snapToGrid", "kinsoku", "overflowPunct"}

func livePara(d *docx.Docx, o *docx.Paragraph) *MPara {
	p := &MPara{Props: map[string]string{}}
	if pr := o.Properties; pr != nil {
		if pr.Justification != nil {
			p.Props["jc"] = pr.Justification.Val
		}
		if pr.Style != nil {
			p.Props["style"] = pr.Style.Val
		}
		for _, x := range []struct {
			name string
			on   bool
			is   int
		}{
			{"adjustRightInd", pr.AdjustRightInd != nil, valOf(pr.AdjustRightInd)},
			{"snapToGrid", pr.SnapToGrid != nil, valOf(pr.SnapToGrid)},
			{"kinsoku", pr.Kinsoku != nil, valOf(pr.Kinsoku)},
			{"overflowPunct", pr.OverflowPunct != nil, valOf(pr.OverflowPunct)},
		} {
			if x.on {
				p.Props[x.name] = onOff(strconv.Itoa(x.is))
			}
		}
		if n := pr.NumProperties; n != nil {
			v := ""
			if n.NumID != nil {
				v = n.NumID.Val
			}
			v += "/"
			if n.Ilvl != nil {
				v += n.Ilvl.Val
			}
			p.Props["num"] = v
		}
		for k, v := range liveFmt(pr.RunProperties) {
			p.Props["r."+k] = v
		}
	}
	for _, c := range o.Children {
		switch x := c.(type) {
		case *docx.Run:
			p.Kids = append(p.Kids, &MKid{Kind: 'r', Fmt: liveFmt(x.RunProperties), Toks: liveToks(d, x)})
		case *docx.Hyperlink:
			tgt, err := d.ReferTarget(x.ID)
			if x.ID == x.Anchor && x.ID != "" {
				tgt = "bookmark " + x.Anchor
			} else if err != nil {
				tgt = "unresolved " + x.ID
			} else {
				_ = d.RangeRelationships(func(r *docx.Relationship) error {
					if r.ID == x.ID {
						tgt = linkTo(r.Type, r.TargetMode, tgt)
						return errStop
					}
					return nil
				})
			}
			fm := liveFmt(x.Run.RunProperties)
			if x.Anchor != "" && x.Anchor != x.ID {
				fm["anchor"] = x.Anchor
			}
			p.Kids = append(p.Kids, &MKid{Kind: 'a', Fmt: fm, Toks: liveToks(d, &x.Run), Target: tgt})
		default:
			p.Kids = append(p.Kids, &MKid{Kind: '?', Toks: []string{fmt.Sprintf("%T", c)}})
		}
	}
	return p
}

func liveToks(d *docx.Docx, r *docx.Run) (ts []string) {
	if r.InstrText != "" {
		ts = append(ts, "i:"+r.InstrText)
	}
	for _, c := range r.Children {
		switch x := c.(type) {
		case *docx.Text:
			ts = append(ts, "t:"+x.Text)
		case *docx.Tab:
			ts = append(ts, "tab")
		case *docx.BarterRabbet:
			ts = append(ts, "br:"+x.Type)
		case *docx.Drawing:
			ts = append(ts, liveDrawing(d, x))
		default:
			ts = append(ts, fmt.Sprintf("%T", c))
		}
	}
	return
}

func mediaOf(d *docx.Docx, embed string) string {
	tgt, err := d.ReferTarget(embed)
	if err != nil {
		return "unresolved " + embed
	}
	m := d.Media(strings.TrimPrefix(strings.TrimPrefix(tgt, "/word/"), "media/"))
	if m == nil {
		return "no media for " + tgt
	}
	return sum(m.Data)
}

func baseName(n string) string {
	if i := strings.LastIndexByte(n, ' '); i >= 0 {
		return n[:i]
	}
	return n
}

func liveDrawing(d *docx.Docx, x *docx.Drawing) string {
	var g *docx.AGraphic
	kind := ""
	var ext *docx.WPExtent
	name := ""
	switch {
	case x.Inline != nil:
		g, kind, ext = x.Inline.Graphic, "inline", x.Inline.Extent
		if x.Inline.DocPr != nil {
			name = x.Inline.DocPr.Name
		}
	case x.Anchor != nil:
		g, kind, ext = x.Anchor.Graphic, "anchor", x.Anchor.Extent
		if x.Anchor.DocPr != nil {
			name = x.Anchor.DocPr.Name
		}
	default:
		return "drawing:empty"
	}
	sz := "?"
	if ext != nil {
		sz = fmt.Sprintf("%dx%d", ext.CX, ext.CY)
	}
	if g == nil || g.GraphicData == nil {
		return "drawing:nographic"
	}
	switch gd := g.GraphicData; {
	case gd.Pic != nil:
		em := "noblip"
		if gd.Pic.BlipFill != nil {
			em = mediaOf(d, gd.Pic.BlipFill.Blip.Embed)
		}
		return "pic:" + kind + ":" + sz + ":" + em
	case gd.Shape != nil:
		geom, rest := liveShape(d, gd.Shape)
		return "shape:" + kind + ":" + sz + ":" + geom + ":" + baseName(name) + rest
	case gd.Canvas != nil:
		return "canvas:" + kind + ":" + sz + ":" + liveElems(d, gd.Canvas.Items)
	case gd.Group != nil:
		return "group:" + kind + ":" + sz + ":" + liveElems(d, gd.Group.Elems)
	}
	return "drawing:nothing"
}

// liveShape gives the form of a shape and what is in it.
func liveShape(d *docx.Docx, s *docx.WordprocessingShape) (geom, rest string) {
	if p := s.SpPr; p != nil {
		geom = p.PrstGeom.Prst
		if p.Line != nil {
			geom += fmt.Sprintf(":ln%d", p.Line.W)
		}
		if p.BlipFill != nil && p.BlipFill.Blip != nil {
			rest += " fill " + mediaOf(d, p.BlipFill.Blip.Embed)
		}
	}
	if s.TextBox != nil && s.TextBox.Content != nil {
		var sb strings.Builder
		for i := range s.TextBox.Content.Paragraphs {
			livePara(d, &s.TextBox.Content.Paragraphs[i]).render(&sb, "")
		}
		rest += " box " + sb.String()
	}
	return geom, strings.ReplaceAll(rest, "\n", "|")
}

// liveElems are the contents of a canvas or a group.
func liveElems(d *docx.Docx, l []interface{}) string {
	s := "{"
	for _, e := range l {
		switch x := e.(type) {
		case *docx.Picture:
			em := "noblip"
			if x.BlipFill != nil {
				em = mediaOf(d, x.BlipFill.Blip.Embed)
			}
			s += "pic " + em + ";"
		case *docx.WordprocessingShape:
			geom, rest := liveShape(d, x)
			s += "shape " + geom + rest + ";"
		case *docx.WordprocessingCanvas:
			s += "canvas " + liveElems(d, x.Items) + ";"
		case *docx.WordprocessingGroup:
			s += "group " + liveElems(d, x.Elems) + ";"
		case *docx.WPGGroupShape:
			s += "grpSp " + liveElems(d, x.Elems) + ";"
		default:
			s += fmt.Sprintf("%T;", e)
		}
	}
	return s + "}"
}

// eachElem visits the shapes, canvases and groups of a drawing.
func eachElem(x *docx.Drawing, f func(e interface{})) {
	var g *docx.AGraphic
	switch {
	case x.Inline != nil:
		g = x.Inline.Graphic
	case x.Anchor != nil:
		g = x.Anchor.Graphic
	}
	if g == nil || g.GraphicData == nil {
		return
	}
	var walk func(e interface{})
	walk = func(e interface{}) {
		switch x := e.(type) {
		case *docx.WordprocessingShape:
			if x != nil {
				f(x)
			}
		case *docx.WordprocessingCanvas:
			if x != nil {
				f(x)
				for _, e := range x.Items {
					walk(e)
				}
			}
		case *docx.WordprocessingGroup:
			if x != nil {
				f(x)
				for _, e := range x.Elems {
					walk(e)
				}
			}
		case *docx.WPGGroupShape:
			if x != nil {
				f(x)
				for _, e := range x.Elems {
					walk(e)
				}
			}
		}
	}
	walk(g.GraphicData.Shape)
	walk(g.GraphicData.Canvas)
	walk(g.GraphicData.Group)
}

// boxes lists the paragraphs of the text boxes of a drawing.
func boxes(x *docx.Drawing) (ps []*docx.Paragraph) {
	eachElem(x, func(e interface{}) {
		if s, ok := e.(*docx.WordprocessingShape); ok && s.TextBox != nil && s.TextBox.Content != nil {
			for i := range s.TextBox.Content.Paragraphs {
				ps = append(ps, &s.TextBox.Content.Paragraphs[i])
			}
		}
	})
	return
}

// liveDocPrs lists the drawing ids in document order.
func liveDocPrs(d *docx.Docx) (ids []int) { return docPrsOf(liveParas(d), 0) }

func docPrsOf(ps []*docx.Paragraph, depth int) (ids []int) {
	for _, p := range ps {
		for _, c := range p.Children {
			r := runOf(c)
			if r == nil {
				continue
			}
			for _, rc := range r.Children {
				if dr, ok := rc.(*docx.Drawing); ok {
					if dr.Inline != nil && dr.Inline.DocPr != nil {
						ids = append(ids, dr.Inline.DocPr.ID)
					}
					if dr.Anchor != nil && dr.Anchor.DocPr != nil {
						ids = append(ids, dr.Anchor.DocPr.ID)
					}
					if depth < 40 {
						ids = append(ids, docPrsOf(boxes(dr), depth+1)...)
					}
				}
			}
		}
	}
	return
}

// runOf is the run of a paragraph's child, if it has one.
func runOf(c interface{}) *docx.Run {
	switch x := c.(type) {
	case *docx.Run:
		return x
	case *docx.Hyperlink:
		return &x.Run
	}
	return nil
}

// liveParas lists the live paragraphs in the order of Content.Paras.
func liveParas(d *docx.Docx) (ps []*docx.Paragraph) {
	for _, it := range d.Document.Body.Items {
		switch o := it.(type) {
		case *docx.Paragraph:
			ps = append(ps, o)
		case *docx.Table:
			for _, r := range o.TableRows {
				for _, c := range r.TableCells {
					ps = append(ps, c.Paragraphs...)
				}
			}
		}
	}
	return
}

// liveRels lists the relationships as text, in order.
func liveRels(d *docx.Docx) (rs []docx.Relationship) {
	_ = d.RangeRelationships(func(r *docx.Relationship) error {
		rs = append(rs, *r)
		return nil
	})
	return
}

func relString(rs []docx.Relationship) string {
	var sb strings.Builder
	for _, r := range rs {
		fmt.Fprintf(&sb, "%s %s %q %s\n", r.ID, r.Type, r.Target, r.TargetMode)
	}
	return sb.String()
}

// liveMedia lists name and content of the media that relationships refer to.
func liveMedia(d *docx.Docx) map[string]string {
	m := map[string]string{}
	for _, r := range liveRels(d) {
		if strings.HasPrefix(r.Target, "media/") {
			if md := d.Media(r.Target[6:]); md != nil {
				m[r.Target[6:]] = sum(md.Data)
			} else {
				m[r.Target[6:]] = "missing"
			}
		}
	}
	return m
}

// liveState is everything the exported interface shows of a document.
func liveState(d *docx.Docx) string {
	var sb strings.Builder
	dump(&sb, d.Document.Body.Items)
	sb.WriteString("\nrels:\n")
	sb.WriteString(relString(liveRels(d)))
	md := liveMedia(d)
	ks := make([]string, 0, len(md))
	for k := range md {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString("media:\n")
	for _, k := range ks {
		sb.WriteString(k + " " + md[k] + "\n")
	}
	return sb.String()
}
