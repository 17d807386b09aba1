package main

import (
	"encoding/xml"
	"fmt"
	"strings"

	docx "github.com/fumiama/go-docx"

	"simverif/rt"
)

// The same XML can be written in many ways: other prefixes, quotes, orders of
// attributes, white space and comments between elements, text in pieces, ends
// of empty elements. What is read must not depend on it.

type rexml struct {
	r      *Rng
	sb     strings.Builder
	rename map[string]string // prefixes
	order  bool              // attributes in another order
	refs   int               // percentages of
	cdata  int
	space  int
	empty  int
	expand int
	again  int  // declare a prefix once more
	strew  int  // attributes nobody knows
	spells int  // switches in other words
	defW   bool // elements of the main namespace without a prefix
}

func newRexml(r *Rng, doc bool) *rexml {
	x := &rexml{r: r, rename: map[string]string{}}
	p := func(on, max int) int {
		if r.P(on) {
			return r.R(1, max)
		}
		return 0
	}
	x.order = r.P(40)
	x.refs, x.cdata, x.space, x.empty = p(40, 20), p(40, 15), p(60, 60), p(30, 30)
	x.expand, x.again, x.strew = p(50, 100), p(30, 30), p(25, 15)
	x.spells = p(30, 100)
	x.defW = doc && r.P(12)
	if doc && r.P(45) {
		for _, n := range []string{"w", "r", "a", "pic", "wp", "mc"} {
			if r.P(40) {
				x.rename[n] = Pick(r, "", "x-", "A.", "_") + n + Pick(r, "0", "", "_", "ü")
			}
		}
	}
	return x
}

func (x *rexml) pre(n xml.Name) string {
	if n.Space == "" {
		if n.Local == "xmlns" {
			return "xmlns"
		}
		return n.Local
	}
	if n.Space == "xmlns" {
		if v, ok := x.rename[n.Local]; ok {
			return "xmlns:" + v
		}
		return "xmlns:" + n.Local
	}
	if v, ok := x.rename[n.Space]; ok {
		return v + ":" + n.Local
	}
	return n.Space + ":" + n.Local
}

func (x *rexml) attr(n xml.Name, v string) {
	r := x.r
	q := `"`
	if r.P(30) {
		q = "'"
	}
	x.sb.WriteString(Pick(r, " ", " ", " ", "\n ", "  ", "\t") + x.pre(n) + Pick(r, "=", "=", "=", " = ") + q)
	for _, c := range v {
		x.char(c, q[0])
	}
	x.sb.WriteString(q)
}

func (x *rexml) char(c rune, quote byte) {
	switch {
	case c == '\r' || c == '<' || c == '&' || c == '>' || quote != 0 && (c == '\n' || c == '\t' || c == rune(quote)) || x.r.P(x.refs):
		switch {
		case c == '<' && x.r.P(60):
			x.sb.WriteString("&lt;")
		case c == '&' && x.r.P(60):
			x.sb.WriteString("&amp;")
		case c == '>' && x.r.P(60):
			x.sb.WriteString("&gt;")
		case x.r.P(50):
			fmt.Fprintf(&x.sb, "&#%d;", c)
		default:
			fmt.Fprintf(&x.sb, "&#x%X;", c)
		}
	default:
		x.sb.WriteRune(c)
	}
}

// switches are the attributes that turn something on or off and are held as
// numbers, which can be spelled in several ways: 1 and true, and on where the
// main namespace is concerned.
var switches = map[string]bool{}

func init() {
	for _, e := range paraSwitches {
		switches[e+" val"] = true
	}
	for _, a := range lookAttrs {
		switches["tblLook "+a] = true
	}
	for _, a := range []string{"simplePos", "behindDoc", "locked", "layoutInCell", "allowOverlap"} {
		switches["anchor "+a] = true
	}
	for _, e := range []string{"graphicFrameLocks noChangeAspect", "picLocks noChangeAspect", "xfrm flipH", "xfrm flipV", "cNvSpPr txBox", "spLocks noChangeArrowheads", "blipFill rotWithShape", "bodyPr anchorCtr", "bodyPr upright"} {
		switches[e] = true
	}
}

// spell spells a switch in another way.
func (x *rexml) spell(e xml.Name, a xml.Name, v string) string {
	if x.spells == 0 || !switches[e.Local+" "+a.Local] || !x.r.P(x.spells) {
		return v
	}
	w := e.Space == "w" || x.rename["w"] != "" && e.Space == x.rename["w"]
	switch {
	case v == "1" && w:
		return Pick(x.r, "true", "on", "1")
	case v == "0" && w:
		return Pick(x.r, "false", "off", "0")
	case v == "1":
		return "true"
	case v == "0":
		return "false"
	}
	return v
}

// between writes something that means nothing.
func (x *rexml) between(p int) {
	r := x.r
	for r.P(p) {
		x.sb.WriteString(Pick(r, " ", "\n", "\n    ", "\r\n", "\t", "<!-- -->", "<!-- <w:t>no</w:t> -->", "<?pi data?>", "<!---->"))
		p /= 2
	}
}

var textHolders = map[string]bool{"t": true, "instrText": true, "posOffset": true, "delText": true}

func (x *rexml) text(s string) {
	r := x.r
	cs := []rune(s)
	for i := 0; i < len(cs); {
		if r.P(x.cdata) && cs[i] != '\r' {
			n := r.R(1, 12)
			x.sb.WriteString("<![CDATA[")
			for ; n > 0 && i < len(cs) && cs[i] != '\r' && cs[i] != ']'; n-- {
				x.sb.WriteRune(cs[i])
				i++
			}
			x.sb.WriteString("]]>")
			if r.P(30) {
				continue
			}
		}
		if r.P(x.cdata) {
			x.sb.WriteString(Pick(r, "<!-- -->", "<?pi?>", "<![CDATA[]]>"))
		}
		if i < len(cs) {
			x.char(cs[i], 0)
			i++
		}
	}
}

func (x *rexml) node(n *rawNode, decl map[string]string) {
	r := x.r
	name := x.pre(n.name)
	as := append([]xml.Attr(nil), n.attrs...)
	if x.defW && n.name.Space == "w" {
		name = n.name.Local
		if len(decl) == 0 {
			as = append(as, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: nsW})
		}
	}
	x.sb.WriteString("<" + name)
	in := decl
	for _, a := range as {
		if a.Name.Space == "xmlns" {
			if len(in) == len(decl) {
				in = copyMap(decl)
			}
			in[a.Name.Local] = a.Value
		}
	}
	if r.P(x.again) && len(decl) > 0 {
		k := Pick(r, sortedKeys(decl)...)
		if in[k] == decl[k] && !hasAttr(as, "xmlns", k) {
			as = append(as, xml.Attr{Name: xml.Name{Space: "xmlns", Local: k}, Value: decl[k]})
		}
	}
	if r.P(x.strew) && !hasAttr(as, "", "unheard") {
		as = append(as, xml.Attr{Name: xml.Name{Local: "unheard"}, Value: "of"})
	}
	if x.order {
		r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	}
	for _, a := range as {
		x.attr(a.Name, x.spell(n.name, a.Name, a.Value))
	}
	x.sb.WriteString(Pick(r, "", "", "", " ", "\n"))
	hasText, elems := false, false
	for _, k := range n.kids {
		if k.name.Local != "" {
			elems = true
		} else if strings.TrimSpace(k.text) != "" {
			hasText = true
		}
	}
	holder := textHolders[n.name.Local]
	if !elems && !hasText && !holder {
		if !r.P(x.expand) {
			x.sb.WriteString("/>")
			return
		}
		x.sb.WriteString(">")
		x.between(x.empty)
	} else {
		x.sb.WriteString(">")
		for _, k := range n.kids {
			switch {
			case k.name.Local != "":
				if !hasText && !holder {
					x.between(x.space)
				}
				x.node(k, in)
			case holder || hasText:
				x.text(k.text)
			}
		}
		if elems && !hasText && !holder {
			x.between(x.space)
		}
	}
	x.sb.WriteString("</" + name + Pick(r, "", "", "", " ", "\n") + ">")
}

func hasAttr(as []xml.Attr, space, local string) bool {
	for _, a := range as {
		if a.Name.Space == space && a.Name.Local == local {
			return true
		}
	}
	return false
}

// rewriteXML writes the same in another way.
func rewriteXML(r *Rng, data []byte, doc bool) []byte {
	root := parseRaw(data)
	if root == nil {
		return data
	}
	x := newRexml(r, doc)
	x.sb.WriteString(Pick(r, "", `<?xml version="1.0"?>`, `<?xml version='1.0' encoding='utf-8'?>`, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\r\n"))
	x.between(x.space)
	x.node(root, map[string]string{})
	x.between(x.space)
	return []byte(x.sb.String())
}

// rexmlOp writes the XML of a file in another way and compares what is read
// and saved (V: seed).
func (w *World) rexmlOp(o *Op) bool {
	f := w.files[o.X]
	if f == nil || !f.ack {
		return false
	}
	r := NewRng(uint64(o.v(0)), 11)
	p, err := readPkgOpt(f.data, true)
	must(err)
	var ps []foreignPart
	for _, n := range p.Names {
		b := p.Parts[n]
		if n == "word/document.xml" || n == "word/_rels/document.xml.rels" {
			q := r.U64()
			if r.P(80) {
				b = rewriteXML(NewRng(q), b, n == "word/document.xml")
				if d := xmlDiff(p.Parts[n], b); d != "" {
					panic("harness: rewritten XML says something else: " + d)
				}
			}
		}
		ps = append(ps, foreignPart{name: n, data: b})
	}
	script := r.U64()
	image := func(data []byte) (string, map[string]string) {
		rt.SetMapSeed(w.seed + 1)
		d, err := docx.Parse(&storage{data: data}, int64(len(data)))
		w.req("C24", err == nil, "xml-open", "the same XML written differently does not open: %v", err)
		s := liveState(d)
		q := NewRng(script)
		if q.P(40) {
			g := d.AddParagraph()
			g.AddText("more")
			g.AddLink("l", "http://l/"+fmt.Sprint(q.N(9)))
		}
		if q.P(25) {
			t := docx.New().WithDefaultTheme()
			t.AppendFile(d)
			d = t
			s += liveState(d)
		}
		b, _, err := saveBytes(d)
		w.req("C24", err == nil, "xml-save", "the same XML written differently cannot be saved again: %v", err)
		pk, err := readPkgOpt(b, true)
		w.req("C24", err == nil, "xml-save", "the same XML written differently gives a broken package: %v", err)
		return s, pk.partSums()
	}
	a, am := image(f.data)
	b, bm := image(zipParts(ps))
	w.req("C24", a == b, "xml-content", "the same XML written differently is read differently: %s", firstDiff(a, b))
	w.req("C24", mapDiff(am, bm) == "", "xml-parts", "the same XML written differently is saved differently: %s", mapDiff(am, bm))
	w.cond["written differently"]++
	return true
}

// xmlDiff compares what two pieces of XML say.
func xmlDiff(a, b []byte) string {
	x, err := parseXML(a)
	if err != nil {
		return ""
	}
	y, err := parseXML(b)
	if err != nil {
		return err.Error()
	}
	var sx, sy strings.Builder
	x.say(&sx)
	y.say(&sy)
	return firstDiff(sx.String(), sy.String())
}

func (n *XNode) say(sb *strings.Builder) {
	fmt.Fprintf(sb, "<%s %s", n.Space, n.Local)
	for _, k := range sortedKeys(n.Attr) {
		if k != " unheard" {
			v := n.Attr[k]
			if _, a, _ := strings.Cut(k, " "); switches[n.Local+" "+a] {
				v = "on" + onOff(v)
			}
			fmt.Fprintf(sb, " %s=%q", k, v)
		}
	}
	t := n.Text
	if len(n.Kids) > 0 || !textHolders[n.Local] {
		t = strings.TrimSpace(t)
	}
	fmt.Fprintf(sb, ">%q\n", t)
	for _, k := range n.Kids {
		k.say(sb)
	}
	sb.WriteString("<>\n")
}
