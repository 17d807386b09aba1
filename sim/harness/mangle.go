package main

import (
	"encoding/xml"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// A mangled package is intact as storage - every checksum is right - but what
// its parts say is not what anybody meant: elements and attributes are gone,
// doubled or exchanged, relationships or images are missing. Nothing is known
// about what it holds, only that nothing may crash.

type rawNode struct {
	name  xml.Name
	attrs []xml.Attr
	kids  []*rawNode
	text  string // of a text node
}

func parseRaw(b []byte) *rawNode {
	d := xml.NewDecoder(strings.NewReader(string(b)))
	var st []*rawNode
	var root *rawNode
	for {
		t, err := d.RawToken()
		if err != nil {
			return root
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &rawNode{name: x.Name, attrs: append([]xml.Attr(nil), x.Attr...)}
			if len(st) > 0 {
				p := st[len(st)-1]
				p.kids = append(p.kids, n)
			} else {
				root = n
			}
			st = append(st, n)
		case xml.EndElement:
			if len(st) > 0 {
				st = st[:len(st)-1]
			}
		case xml.CharData:
			if len(st) > 0 {
				p := st[len(st)-1]
				p.kids = append(p.kids, &rawNode{text: string(x)})
			}
		}
	}
}

func rawName(n xml.Name) string {
	if n.Space != "" {
		return n.Space + ":" + n.Local
	}
	return n.Local
}

func (n *rawNode) write(sb *strings.Builder) {
	if n.name.Local == "" {
		sb.WriteString(xesc(n.text))
		return
	}
	sb.WriteString("<" + rawName(n.name))
	for _, a := range n.attrs {
		sb.WriteString(" " + rawName(a.Name) + `="` + xesc(a.Value) + `"`)
	}
	sb.WriteString(">")
	for _, k := range n.kids {
		k.write(sb)
	}
	sb.WriteString("</" + rawName(n.name) + ">")
}

func (n *rawNode) all(l []*rawNode) []*rawNode {
	if n.name.Local != "" {
		l = append(l, n)
	}
	for _, k := range n.kids {
		l = k.all(l)
	}
	return l
}

// mangle opens and uses packages that make no sense (V: seed, changes).
func (w *World) mangle(o *Op) bool {
	f := w.files[o.X]
	if f == nil || !f.ack {
		return false
	}
	p, err := readPkgOpt(f.data, true)
	must(err)
	r := NewRng(uint64(o.v(0)), 3)
	parts := map[string][]byte{}
	names := append([]string(nil), p.Names...)
	for k, v := range p.Parts {
		parts[k] = v
	}
	const doc, rels = "word/document.xml", "word/_rels/document.xml.rels"
	for n := o.v(1); n > 0; n-- {
		name := doc
		switch r.W(70, 20, 10) {
		case 1:
			name = rels
		case 2: // a whole part is gone
			k := names[r.N(len(names))]
			delete(parts, k)
			w.stats["m.part"]++
			continue
		}
		if parts[name] == nil {
			continue
		}
		root := parseRaw(parts[name])
		if root == nil {
			continue
		}
		all := root.all(nil)
		x := all[r.N(len(all))]
		// rather something deep
		for i := 0; i < 3 && len(x.kids) > 0; i++ {
			k := x.kids[r.N(len(x.kids))]
			if k.name.Local != "" {
				x = k
			}
		}
		what := r.N(9)
		if r.P(50) {
			// each kind of element is as likely as any other
			by := map[string][]*rawNode{}
			for _, n := range all {
				if k := n.name.Local; k != "" && (what != 4 || len(n.attrs) > 0) {
					by[k] = append(by[k], n)
				}
			}
			if ks := sortedKeys(by); len(ks) > 0 {
				x = Pick(r, by[Pick(r, ks...)]...)
			}
		}
		y := all[r.N(len(all))]
		switch what {
		case 0, 1: // children gone
			w.stats["m.children"]++
			x.kids = nil
		case 2: // one child gone
			w.stats["m.child"]++
			if len(x.kids) > 0 {
				i := r.N(len(x.kids))
				x.kids = append(append([]*rawNode(nil), x.kids[:i]...), x.kids[i+1:]...)
			}
		case 3: // attributes gone
			w.stats["m.attrs"]++
			x.attrs = nil
		case 4: // a value is nonsense
			w.stats["m.value"]++
			if len(x.attrs) > 0 {
				i := r.N(len(x.attrs))
				x.attrs[i].Value = Pick(r, "", "x", "-1", "-1", "99999999999999999999", "9223372036854775807", "-9223372036854775808", "2147483648", "-7", "rId", "rId999", "1.5", " 7 ", "media/", "/word/", strconv.Itoa(r.N(9)))
			}
		case 5: // doubled
			w.stats["m.double"]++
			x.kids = append(x.kids, x.kids...)
		case 6: // something else inside
			w.stats["m.inside"]++
			if y != root && !contains(y, x) {
				x.kids = append(x.kids, y)
			}
		case 7: // another element
			w.stats["m.name"]++
			x.name = y.name
		case 8: // text where none belongs
			w.stats["m.text"]++
			x.kids = append([]*rawNode{{text: Pick(r, "7", "x", "-", "12 ")}}, x.kids...)
		}
		var sb strings.Builder
		sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
		root.write(&sb)
		if sb.Len() > 4<<20 {
			return false
		}
		parts[name] = []byte(sb.String())
	}
	var ps []foreignPart
	for _, k := range names {
		if b, ok := parts[k]; ok {
			ps = append(ps, foreignPart{name: k, data: b})
		}
	}
	data := zipParts(ps)
	d, err := docx.Parse(&storage{data: data}, int64(len(data)))
	if err != nil {
		w.cond["mangled package refused"]++
		return true
	}
	w.cond["mangled package opened"]++
	w.softly(func() { w.odd(d) })
	if w.prop == "C06" {
		exercise(d)
	}
	if o.v(2) == 1 {
		w.files[o.X+mangledSlot] = &File{data: data, ack: true, opaque: true}
	}
	return true
}

// odd checks what holds for every document that opens, whatever it is like.
func (w *World) odd(d *docx.Docx) {
	same := func(props, class, what string, f func()) {
		before := liveState(d)
		f()
		after := liveState(d)
		w.req(props, before == after, class, "%s changed an oddly structured document: %s", what, firstDiff(before, after))
	}
	state, content := liveState(d), wording(liveContent(d))
	var b []byte
	var err error
	same("C03", "save-edits", "a save", func() { b, _, err = saveBytes(d) })
	if err == nil {
		w.cond["mangled package saved"]++
		q, err := docx.Parse(&storage{data: b}, int64(len(b)))
		w.req("C04", err == nil, "reopen", "an oddly structured document was saved, but the save does not open: %v", err)
		if err == nil {
			got := liveState(q)
			w.req("C04", state == got, "reopened", "an oddly structured document came back different: %s", firstDiff(state, got))
			again, _, err := saveBytes(q)
			w.req("C03 C04", err == nil, "resave", "a reopened document cannot be saved: %v", err)
			x, err := readPkgOpt(b, true)
			w.req("C01 C04", err == nil, "incomplete", "a save reported success, but gave no package: %v", err)
			y, err := readPkgOpt(again, true)
			w.req("C01 C04", err == nil, "incomplete", "a save reported success, but gave no package: %v", err)
			df := mapDiff(x.partSums(), y.partSums())
			w.req("C04 C05", df == "", "resaved", "saving a reopened document gave other parts: %s", df)
		}
	}
	same("C16", "split-source", "splitting", func() {
		var all string
		for _, n := range d.SplitByParagraph(func(*docx.Paragraph) bool { return true }) {
			all += wording(liveContent(n))
		}
		w.req("C16", all == content, "split-content", "the pieces of an oddly structured document hold something else: %s", firstDiff(content, all))
	})
	same("C17", "append-source", "appending", func() {
		t := docx.New().WithDefaultTheme()
		t.AppendFile(d)
		got := wording(liveContent(t))
		w.req("C17", got == content, "append-content", "an oddly structured document was appended as something else: %s", firstDiff(content, got))
		t.AppendFile(d)
	})
}

// wording is what a document says, without its drawings and the targets of its
// links: those that lead nowhere are not copied.
func wording(c Content) string {
	for _, p := range c.Paras() {
		for _, k := range p.Kids {
			l := k.Toks[:0]
			for _, t := range k.Toks {
				if t == "tab" || strings.HasPrefix(t, "t:") || strings.HasPrefix(t, "i:") || strings.HasPrefix(t, "br:") {
					l = append(l, t)
				}
			}
			k.Toks = l
			k.Target = ""
		}
	}
	return c.Render()
}

// mangledSlot is where a mangled package that opens is kept.
const mangledSlot = 60

func contains(y, x *rawNode) bool {
	if y == x {
		return true
	}
	for _, k := range y.kids {
		if contains(k, x) {
			return true
		}
	}
	return false
}
