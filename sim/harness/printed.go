package main

import (
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// What a paragraph prints is what programs search documents for and split them
// by. It is compared with what the model says is in the paragraph.

// printed is what printing has to give: pieces of text with anything between.
type printed struct {
	segs []string
	any  bool // anything may follow
}

func (p *printed) lit(s string) {
	if s == "" {
		return
	}
	if p.any || len(p.segs) == 0 {
		p.segs = append(p.segs, "")
		p.any = false
	}
	p.segs[len(p.segs)-1] += s
}

func (p *printed) star() {
	if len(p.segs) == 0 {
		p.segs = append(p.segs, "")
	}
	p.any = true
}

// match finds the pieces from left to right; the last one has to be the end.
func (p *printed) match(s string) bool {
	if len(p.segs) == 0 {
		return s == ""
	}
	if !strings.HasPrefix(s, p.segs[0]) {
		return false
	}
	s = s[len(p.segs[0]):]
	for i := 1; i < len(p.segs); i++ {
		if i == len(p.segs)-1 && !p.any {
			return strings.HasSuffix(s, p.segs[i])
		}
		k := strings.Index(s, p.segs[i])
		if k < 0 {
			return false
		}
		s = s[k+len(p.segs[i]):]
	}
	return p.any || s == ""
}

func (p *printed) String() string {
	s := fmt.Sprintf("%q", p.segs)
	if p.any {
		s += " and something"
	}
	return s
}

// printer knows the pictures of a document.
type printer struct {
	d    *docx.Docx
	md5s map[string]string
}

func newPrinter(d *Doc) *printer {
	p := &printer{d: d.d, md5s: map[string]string{}}
	for _, n := range mediaNames(d) {
		if m := d.d.Media(n); m != nil {
			h := md5.Sum(m.Data)
			p.md5s[sum(m.Data)] = hex.EncodeToString(h[:])
		}
	}
	return p
}

func (p *printer) toks(x *printed, ts []string, link bool) {
	for _, t := range ts {
		k, v, _ := strings.Cut(t, ":")
		switch k {
		case "t":
			x.lit(v)
		case "i":
			if link {
				x.lit(v)
			}
		case "tab":
			x.lit("\t")
		case "br":
			x.lit("\n")
		case "pic":
			x.lit("![")
			x.star()
			if h := p.md5s[t[strings.LastIndexByte(t, ':')+1:]]; h != "" {
				x.lit("](" + h + ")")
			} else {
				x.lit(")")
			}
		case "shape", "canvas":
			x.lit("![")
			x.star()
			x.lit(")")
		case "drawing", "group":
			x.star()
		}
	}
}

// para is what a paragraph prints. What a link leads to is known to the model,
// unless it is no link.
func (p *printer) para(x *printed, l *docx.Paragraph, m *MPara) {
	for i, k := range m.Kids {
		if k.Kind != 'a' {
			if k.Kind == 'r' {
				p.toks(x, k.Toks, false)
			}
			continue
		}
		to := k.Target
		if h, ok := l.Children[i].(*docx.Hyperlink); ok {
			if r, err := p.d.ReferTarget(h.ID); err != nil {
				to = h.ID
			} else if strings.HasPrefix(to, "part ") || strings.HasPrefix(to, "bookmark ") {
				to = r
			}
		}
		x.lit("[")
		p.toks(x, k.Toks, true)
		x.lit("](" + to + ")")
	}
}

func (p *printer) table(x *printed, l *docx.Table, m *MTable) {
	if len(m.Rows) == 0 || len(m.Rows[0].Cells) == 0 {
		return
	}
	x.lit("| " + strings.Repeat(" :----: |", len(m.Rows[0].Cells)))
	for i, r := range m.Rows {
		x.lit("\n|")
		for k, c := range r.Cells {
			if len(c.Paras) > 0 && len(c.Paras[0].Kids) > 0 {
				x.lit(" ")
				p.para(x, l.TableRows[i].TableCells[k].Paragraphs[0], c.Paras[0])
			} else {
				x.lit("       ")
			}
			x.lit(" |")
		}
	}
}

// checkPrint compares what the paragraphs and tables print with what is in them.
func (w *World) checkPrint(d *Doc) {
	if w.prop != "C25" || len(d.m) != len(d.d.Document.Body.Items) {
		return
	}
	p := newPrinter(d)
	ls := liveParas(d.d)
	ms := d.m.Paras()
	if len(ls) != len(ms) {
		return
	}
	for i, l := range ls {
		if len(l.Children) != len(ms[i].Kids) {
			return
		}
		var x printed
		p.para(&x, l, ms[i])
		got := l.String()
		w.req("C25", x.match(got), "print", "paragraph number %d prints %q, which should be %s", i, got, x.String())
		if len(ms[i].Kids) > 0 {
			w.cond["paragraphs printed"]++
		}
		for _, k := range ms[i].Kids {
			if k.Kind == 'a' {
				w.cond["links printed"]++
			}
		}
	}
	for i, it := range d.d.Document.Body.Items {
		if l, ok := it.(*docx.Table); ok && d.m[i].T != nil {
			var x printed
			p.table(&x, l, d.m[i].T)
			got := l.String()
			w.req("C25", x.match(got), "print", "the table at %d prints %q, which should be %s", i, got, x.String())
			w.cond["tables printed"]++
		}
	}
}
