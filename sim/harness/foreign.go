package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"hash/crc32"
	"strconv"
	"strings"
)

// A foreign package is one the library did not write: what a word processor
// might have left on disk. It is generated together with the content it holds.

type foreignPart struct {
	name  string
	data  []byte
	store bool
	dir   bool
}

type foreign struct {
	parts   []foreignPart
	content Content
	rels    []PRel
	docprs  []int
}

func xesc(s string) string {
	var b bytes.Buffer
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

var textPool = []string{
	"alpha", "beta gamma", " leading", "trailing ", "  ", "a<b&c>d", `quotes "x" 'y'`, "]]>", "源文雨", "emoji 😀 end",
	"line\rreturn", "&amp;", "<w:t>", "x", "0", "é\u00a0ü", "\u202eright", "mark", "chapter", "section", "%d %s", "\\n", "--", "\u2028sep", "\ufeffbom",
}

func randText(r *Rng) string {
	switch r.W(60, 25, 8, 4, 3) {
	case 0:
		return Pick(r, textPool...)
	case 1:
		return Pick(r, textPool...) + Pick(r, textPool...)
	case 2:
		return strings.Repeat(Pick(r, textPool...), r.R(2, 9))
	case 3:
		return strings.Repeat(Pick(r, textPool...), r.R(100, 1500))
	default:
		b := make([]byte, r.R(1, 3000))
		for i := range b {
			b[i] = byte('!' + r.N(94))
		}
		return string(b)
	}
}

func randLink(r *Rng) string {
	return Pick(r, "http://google.com", "https://e.org/?a=1&b=2", "mailto:a@b.c", "file:///c:/x y", "#anchor", "media/image1.png", "styles.xml", "theme/theme1.xml", "settings.xml", "", "http://例え.jp/パス", "https://x/\"q\"<>", "http://google.com") + Pick(r, "", "", strconv.Itoa(r.N(30)))
}

type foreignGen struct {
	r      *Rng
	f      *foreign
	relIDs map[string]bool
	media  []struct{ rid, sum string }
	nextDP int
	xmlb   strings.Builder
	uid    uint64
	rootNS bool
	ids    int
	depth  int
	noRels bool
}

func (g *foreignGen) newRelID() string {
	for {
		var n uint64
		switch g.r.W(60, 30, 8, 2) {
		case 0:
			g.ids++
			n = uint64(g.ids)
		case 1:
			n = uint64(g.r.R(1, 60))
		case 2:
			n = uint64(g.r.R(90, 1200))
		default:
			n = uint64(g.r.R(1<<20, 1<<31))
		}
		id := "rId" + strconv.FormatUint(n, 10)
		if g.r.P(3) {
			id = "rId0" + strconv.FormatUint(n, 10)
		}
		if !g.relIDs[id] {
			g.relIDs[id] = true
			return id
		}
	}
}

func (g *foreignGen) addRel(typ, target, mode string) string {
	id := g.newRelID()
	g.f.rels = append(g.f.rels, PRel{id, typ, target, mode})
	return id
}

func (g *foreignGen) docPr() int {
	r := g.r
	switch r.W(70, 15, 10, 5) {
	case 0:
		g.nextDP++
	case 1:
		g.nextDP = r.R(100000, 100010)
	case 2:
		g.nextDP = r.R(1, 400000)
	default:
		g.nextDP = r.R(1<<20, 1<<31-20)
	}
	g.f.docprs = append(g.f.docprs, g.nextDP)
	return g.nextDP
}

func (g *foreignGen) fmtXML(m map[string]string) string {
	var sb strings.Builder
	for _, k := range sortedKeys(m) {
		v := m[k]
		p := strings.Split(v, "/")
		switch k {
		case "b", "i":
			sb.WriteString("<w:" + k + g.onOff(v) + "/>")
		case "hl":
			sb.WriteString(`<w:highlight w:val="` + xesc(v) + `"/>`)
		case "spacing":
			sb.WriteString(`<w:spacing w:line="` + xesc(v) + `"/>`)
		case "shd":
			sb.WriteString(`<w:shd w:val="` + xesc(p[0]) + `" w:color="` + xesc(p[1]) + `" w:fill="` + xesc(p[2]) + `"/>`)
		case "fonts":
			sb.WriteString(`<w:rFonts w:ascii="` + xesc(p[0]) + `" w:eastAsia="` + xesc(p[1]) + `" w:hAnsi="` + xesc(p[2]) + `" w:hint="` + xesc(p[3]) + `"/>`)
		default:
			sb.WriteString("<w:" + k + ` w:val="` + xesc(v) + `"/>`)
		}
		if g.r.P(5) {
			sb.WriteString(`<w:lang w:val="en-US"/>`)
		}
	}
	return sb.String()
}

// onOff spells a switch.
func (g *foreignGen) onOff(v string) string {
	q := NewRng(g.r.U64())
	if v == "" {
		return Pick(q, "", "", ` w:val="1"`, ` w:val="true"`, ` w:val="on"`)
	}
	return Pick(q, ` w:val="0"`, ` w:val="false"`, ` w:val="off"`)
}

func randFmt(r *Rng) map[string]string {
	m := map[string]string{}
	for n := r.N(4); n > 0; n-- {
		k, v := randFmt1(r)
		m[k] = v
	}
	return m
}

func randFmt1(r *Rng) (string, string) {
	switch r.N(11) {
	case 0:
		return "color", Pick(r, "FF0000", "808080", "auto", "00ff00")
	case 1:
		return "sz", strconv.Itoa(r.R(1, 99))
	case 2:
		return "szCs", strconv.Itoa(r.R(1, 99))
	case 3:
		return "shd", Pick(r, "clear", "solid") + "/" + Pick(r, "auto", "112233") + "/" + Pick(r, "E7E6E6", "ffffff")
	case 4:
		return "spacing", strconv.Itoa(r.R(1, 900))
	case 5:
		return "b", Pick(r, "", "", "off")
	case 6:
		return "i", Pick(r, "", "", "off")
	case 7:
		return "u", Pick(r, "single", "wave", "none", "double")
	case 8:
		return "hl", Pick(r, "yellow", "green")
	case 9:
		return "strike", Pick(r, "true", "false")
	default:
		return "fonts", Pick(r, "Consolas", "Arial") + "/" + Pick(r, "", "宋体") + "/" + Pick(r, "", "X") + "/" + Pick(r, "", "cs", "eastAsia")
	}
}

func (g *foreignGen) rsid() string {
	if g.r.P(30) {
		return ` w:rsidR="00A77B3E" w:rsidRPr="00112233"`
	}
	return ""
}

func (g *foreignGen) noise() string {
	switch g.r.W(80, 5, 5, 5, 5) {
	case 1:
		return `<w:bookmarkStart w:id="0" w:name="_GoBack"/><w:bookmarkEnd w:id="0"/>`
	case 2:
		return `<w:proofErr w:type="spellStart"/>`
	case 3:
		return "\n  "
	case 4:
		return "<!-- a comment -->"
	}
	return ""
}

// linkRuns makes the inside of a link: a run, now and then more that look alike.
func (g *foreignGen) linkRuns() (string, *MKid) {
	x, k := g.run(true)
	for n := g.r.W(80, 15, 5); n > 0; n-- {
		ids := len(g.f.docprs)
		x2, k2 := g.run(true)
		if len(k2.Toks) > 0 && !strings.HasPrefix(k2.Toks[0], "i:") && mapDiff(k.Fmt, k2.Fmt) == "" {
			x += g.noise() + x2
			k.Toks = append(k.Toks, k2.Toks...)
		} else { // left out, with the drawings in it
			g.f.docprs = g.f.docprs[:ids]
		}
	}
	return x, k
}

func (g *foreignGen) run(hyper bool) (string, *MKid) {
	r := g.r
	k := &MKid{Kind: 'r', Fmt: map[string]string{}}
	var sb strings.Builder
	sb.WriteString("<w:r" + g.rsid() + ">")
	if r.P(50) {
		k.Fmt = randFmt(r)
		sb.WriteString("<w:rPr>" + g.fmtXML(k.Fmt) + "</w:rPr>")
	}
	if hyper && r.P(20) {
		t := Pick(r, textPool...)
		sb.WriteString("<w:instrText>" + xesc(t) + "</w:instrText>")
		k.Toks = append(k.Toks, "i:"+t)
	}
	n, c := r.W(5, 62, 15, 10, 5, 3), 0
	for i := 0; i < n; i++ {
		if i == 0 || r.P(65) { // or another one of the same kind
			c = r.W(60, 10, 10, 14, 6)
		}
		if hyper && c == 4 {
			c = 0
		}
		switch c {
		case 0:
			t := randText(r)
			sp := ""
			if r.P(30) {
				sp = ` xml:space="preserve"`
			}
			sb.WriteString("<w:t" + sp + ">" + g.pieces(t) + "</w:t>")
			k.Toks = append(k.Toks, "t:"+t)
		case 1:
			sb.WriteString("<w:tab/>")
			k.Toks = append(k.Toks, "tab")
		case 2:
			t := Pick(r, "", "page", "textWrapping")
			if t == "" {
				sb.WriteString("<w:br/>")
			} else {
				sb.WriteString(`<w:br w:type="` + t + `"/>`)
			}
			k.Toks = append(k.Toks, "br:"+t)
		case 3:
			x, tok := g.drawing()
			if x != "" {
				sb.WriteString(x)
				k.Toks = append(k.Toks, tok)
			}
		case 4:
			ind := func() string { return Pick(r, "", "", "", "", "\n    ", "<!-- -->") }
			if r.P(60) {
				req := "wps"
				var x, tok string
				switch r.W(60, 20, 20) {
				case 0:
					x, tok = g.shape()
				case 1:
					req = "wpc"
					x, tok = g.canvas()
				default:
					req = "wpg"
					x, tok = g.group()
				}
				sb.WriteString(`<mc:AlternateContent xmlns:mc="` + nsMC + `">` + ind() + `<mc:Choice Requires="` + req + `">` + ind() + x + ind() + `</mc:Choice>` + ind() + `<mc:Fallback><w:pict/></mc:Fallback>` + ind() + `</mc:AlternateContent>`)
				k.Toks = append(k.Toks, tok)
			} else {
				sb.WriteString(`<mc:AlternateContent xmlns:mc="` + nsMC + `">` + ind() + `<mc:Choice Requires="w16"><w:t>hidden</w:t></mc:Choice>` + ind() + `<mc:Fallback><w:pict/></mc:Fallback>` + ind() + `</mc:AlternateContent>`)
			}
		}
		if r.P(8) {
			sb.WriteString(`<w:lastRenderedPageBreak/>`)
		}
	}
	sb.WriteString("</w:r>")
	return sb.String(), k
}

func (g *foreignGen) frame(inner, name string) (string, string) {
	return g.frameOf(func() string { return inner }, name)
}

// frameOf makes the frame of a drawing. Its own id comes before those inside.
func (g *foreignGen) frameOf(content func() string, name string) (string, string) {
	r := g.r
	cx, cy := r.R(1, 6000000), r.R(1, 6000000)
	sz := fmt.Sprintf("%dx%d", cx, cy)
	dp := g.docPr()
	inner := content()
	ns := ""
	if !g.rootNS {
		ns = ` xmlns:wp="` + nsWP + `"`
	}
	head := fmt.Sprintf(`<wp:extent cx="%d" cy="%d"/>`, cx, cy)
	dpx := fmt.Sprintf(`<wp:docPr id="%d" name="%s" descr="d"/>`, dp, xesc(name))
	if r.P(60) {
		return `<w:drawing><wp:inline` + ns + ` distT="0" distB="0" distL="0" distR="0">` + head + `<wp:effectExtent l="0" t="0" r="0" b="0"/>` + dpx +
			`<wp:cNvGraphicFramePr><a:graphicFrameLocks xmlns:a="` + nsA + `" noChangeAspect="1"/></wp:cNvGraphicFramePr>` + inner + `</wp:inline></w:drawing>`, "inline:" + sz
	}
	return `<w:drawing><wp:anchor` + ns + ` distT="0" distB="0" distL="1" distR="2" simplePos="0" relativeHeight="25" behindDoc="0" locked="0" layoutInCell="1" allowOverlap="1"><wp:simplePos x="0" y="0"/>` +
		`<wp:positionH relativeFrom="column"><wp:posOffset>12</wp:posOffset></wp:positionH><wp:positionV relativeFrom="paragraph"><wp:posOffset>34</wp:posOffset></wp:positionV>` +
		head + `<wp:effectExtent l="0" t="0" r="0" b="0"/><wp:wrapNone/>` + dpx + `<wp:cNvGraphicFramePr/>` + inner + `</wp:anchor></w:drawing>`, "anchor:" + sz
}

func (g *foreignGen) graphic(uri, inner string) string {
	if g.rootNS && g.r.P(50) {
		return `<a:graphic><a:graphicData uri="` + uri + `">` + inner + `</a:graphicData></a:graphic>`
	}
	return `<a:graphic xmlns:a="` + nsA + `"><a:graphicData uri="` + uri + `">` + inner + `</a:graphicData></a:graphic>`
}

// pieces writes text the way some producers do: not in one piece.
func (g *foreignGen) pieces(t string) string {
	i := 0
	for k := range t {
		if k <= len(t)/2 {
			i = k
		}
	}
	if i > 0 && g.r.P(5) {
		if g.r.P(50) || strings.ContainsAny(t, "\r]") {
			return xesc(t[:i]) + "<!-- - -->" + xesc(t[i:])
		}
		return xesc(t[:i]) + "<![CDATA[" + t[i:] + "]]>"
	}
	return xesc(t)
}

// ns declares a namespace unless the root did.
func (g *foreignGen) ns(prefix, uri string) string {
	if !g.rootNS {
		return ` xmlns:` + prefix + `="` + uri + `"`
	}
	return ""
}

func (g *foreignGen) pic() (string, string) {
	m := g.media[g.r.N(len(g.media))]
	pns := ` xmlns:pic="` + nsPIC + `"`
	if g.rootNS && g.r.P(50) {
		pns = ""
	}
	return `<pic:pic` + pns + `><pic:nvPicPr><pic:cNvPr id="1" name="p"/><pic:cNvPicPr/></pic:nvPicPr><pic:blipFill><a:blip` + g.ns("r", nsR) + ` r:embed="` + m.rid + `"/><a:stretch><a:fillRect/></a:stretch></pic:blipFill>` +
		`<pic:spPr><a:xfrm><a:off x="0" y="0"/><a:ext cx="3" cy="4"/></a:xfrm><a:prstGeom prst="rect"><a:avLst/></a:prstGeom></pic:spPr></pic:pic>`, m.sum
}

func (g *foreignGen) drawing() (string, string) {
	if len(g.media) == 0 {
		return "", ""
	}
	px, s := g.pic()
	x, k := g.frame(g.graphic(nsPIC, px), "Picture "+strconv.Itoa(g.nextDP))
	return x, "pic:" + k + ":" + s
}

// wsp is a shape without its frame.
func (g *foreignGen) wsp() (x, geom, rest string) {
	r := g.r
	geom = Pick(r, "rect", "ellipse", "straightConnector1")
	x = `<wps:wsp` + g.ns("wps", nsWPS) + `><wps:cNvSpPr/><wps:spPr><a:xfrm><a:off x="0" y="0"/><a:ext cx="3" cy="4"/></a:xfrm><a:prstGeom prst="` + geom + `"><a:avLst/></a:prstGeom>`
	if len(g.media) > 0 && r.P(15) {
		m := g.media[r.N(len(g.media))]
		x += `<a:blipFill dpi="0" rotWithShape="1"><a:blip` + g.ns("r", nsR) + ` r:embed="` + m.rid + `"/><a:srcRect/><a:tile tx="0" ty="0" sx="1" sy="1" flip="none" algn="tl"/></a:blipFill>`
		rest = " fill " + m.sum
	}
	if r.P(50) {
		w := r.R(1, 30000)
		x += fmt.Sprintf(`<a:ln w="%d"><a:solidFill><a:srgbClr val="00ff00"/></a:solidFill></a:ln>`, w)
		geom += fmt.Sprintf(":ln%d", w)
	}
	x += `</wps:spPr>`
	if g.depth < 2 && r.P(30) {
		g.depth++
		x += `<wps:txbx><w:txbxContent>`
		rest += " box "
		var sb strings.Builder
		for n := r.R(1, 2); n > 0; n-- {
			px, pm := g.para()
			x += px
			pm.render(&sb, "")
		}
		rest += strings.ReplaceAll(sb.String(), "\n", "|")
		x += `</w:txbxContent></wps:txbx>`
		g.depth--
	}
	return x + `<wps:bodyPr/></wps:wsp>`, geom, rest
}

func (g *foreignGen) shape() (string, string) {
	name := Pick(g.r, "Rect", "AutoShape", "形")
	var geom, rest, inner string
	x, k := g.frameOf(func() string {
		inner, geom, rest = g.wsp()
		return g.graphic(nsWPS, inner)
	}, name+" 7")
	return x, "shape:" + k + ":" + geom + ":" + name + rest
}

// elems are the contents of a canvas or a group.
func (g *foreignGen) elems(in string, depth int) (x, tok string) {
	r := g.r
	tok = "{"
	for n := r.N(4); n > 0; n-- {
		k := r.W(40, 40, 20)
		if len(g.media) == 0 && k == 1 {
			k = 0
		}
		if depth > 1 && k == 2 {
			k = 0
		}
		switch k {
		case 0:
			sx, geom, rest := g.wsp()
			x += sx
			tok += "shape " + geom + rest + ";"
		case 1:
			px, s := g.pic()
			x += px
			tok += "pic " + s + ";"
		default:
			var ix, it string
			switch {
			case in == "wpc":
				ix, it = g.elems("wgp", depth+1)
				x += `<wpg:wgp` + g.ns("wpg", nsWPG) + `><wpg:cNvGrpSpPr/><wpg:grpSpPr/>` + ix + `</wpg:wgp>`
				tok += "group " + it + ";"
			case in == "wgp" && r.P(60):
				ix, it = g.elems("grpSp", depth+1)
				x += `<wpg:grpSp` + g.ns("wpg", nsWPG) + `><wpg:cNvPr id="4" name="g"/><wpg:cNvGrpSpPr/><wpg:grpSpPr/>` + ix + `</wpg:grpSp>`
				tok += "grpSp " + it + ";"
			default:
				ix, it = g.elems("wpc", depth+1)
				x += `<wpc:wpc` + g.ns("wpc", nsWPC) + `><wpc:bg/><wpc:whole/>` + ix + `</wpc:wpc>`
				tok += "canvas " + it + ";"
			}
		}
	}
	return x, tok + "}"
}

func (g *foreignGen) canvas() (string, string) {
	var inner, tok string
	x, k := g.frameOf(func() string {
		inner, tok = g.elems("wpc", 0)
		return g.graphic("http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas", `<wpc:wpc`+g.ns("wpc", nsWPC)+`><wpc:bg/><wpc:whole/>`+inner+`</wpc:wpc>`)
	}, "Canvas 3")
	return x, "canvas:" + k + ":" + tok
}

func (g *foreignGen) group() (string, string) {
	var inner, tok string
	x, k := g.frameOf(func() string {
		inner, tok = g.elems("wgp", 0)
		return g.graphic("http://schemas.microsoft.com/office/word/2010/wordprocessingGroup", `<wpg:wgp`+g.ns("wpg", nsWPG)+`><wpg:cNvGrpSpPr/><wpg:grpSpPr/>`+inner+`</wpg:wgp>`)
	}, "Group 3")
	return x, "group:" + k + ":" + tok
}

func (g *foreignGen) para() (string, *MPara) {
	r := g.r
	p := &MPara{Props: map[string]string{}}
	var sb strings.Builder
	sb.WriteString("<w:p" + g.rsid() + ">")
	if r.P(50) {
		sb.WriteString("<w:pPr>")
		if r.P(30) {
			p.Props["style"] = Pick(r, "1", "Heading1", "a3")
			sb.WriteString(`<w:pStyle w:val="` + p.Props["style"] + `"/>`)
		}
		if r.P(20) {
			p.Props["num"] = strconv.Itoa(r.R(1, 9)) + "/" + strconv.Itoa(r.N(4))
			v := strings.Split(p.Props["num"], "/")
			sb.WriteString(`<w:numPr><w:ilvl w:val="` + v[1] + `"/><w:numId w:val="` + v[0] + `"/></w:numPr>`)
		}
		if r.P(10) {
			sb.WriteString(`<w:widowControl w:val="0"/>`)
		}
		if r.P(20) {
			n := Pick(r, paraSwitches...)
			p.Props[n] = Pick(r, "", "off")
			sb.WriteString("<w:" + n + g.onOff(p.Props[n]) + "/>")
		}
		if r.P(30) {
			p.Props["jc"] = Pick(r, "center", "end", "both")
			sb.WriteString(`<w:jc w:val="` + p.Props["jc"] + `"/>`)
		}
		if r.P(20) {
			m := randFmt(r)
			for k, v := range m {
				p.Props["r."+k] = v
			}
			sb.WriteString(`<w:rPr>` + g.fmtXML(m) + `</w:rPr>`)
		}
		sb.WriteString("</w:pPr>")
	}
	n := r.W(10, 40, 25, 15, 9, 1)
	if n == 5 {
		n = r.R(5, 70)
	}
	for i := 0; i < n; i++ {
		sb.WriteString(g.noise())
		if r.P(3) {
			x, k := g.linkRuns()
			k.Kind, k.Target = 'a', "bookmark "+Pick(r, "_Toc1", "part 2", "rId1", "ü")
			sb.WriteString(`<w:hyperlink w:anchor="` + k.Target[9:] + `">` + x + `</w:hyperlink>`)
			p.Kids = append(p.Kids, k)
			continue
		}
		if r.P(15) && !g.noRels {
			l := randLink(r)
			id := ""
			if r.P(20) { // share an existing relationship
				for _, x := range g.f.rels {
					if x.Type == relHyperlink {
						id, l = x.ID, x.Target
					}
				}
			}
			if id == "" {
				id = g.addRel(relHyperlink, l, "External")
			}
			x, k := g.linkRuns()
			k.Kind, k.Target = 'a', l
			rns := ""
			if !g.rootNS {
				rns = ` xmlns:r="` + nsR + `"`
			}
			if r.P(15) { // a place in what it leads to
				k.Fmt["anchor"] = Pick(r, "_Toc1", "top", "part 2", "ü")
				as := []string{` r:id="` + id + `"`, ` w:anchor="` + k.Fmt["anchor"] + `"`}
				r.Shuffle(2, func(i, j int) { as[i], as[j] = as[j], as[i] })
				sb.WriteString(`<w:hyperlink` + rns + as[0] + as[1] + `>` + x + `</w:hyperlink>`)
			} else {
				sb.WriteString(`<w:hyperlink` + rns + ` r:id="` + id + `" w:history="1">` + x + `</w:hyperlink>`)
			}
			p.Kids = append(p.Kids, k)
			continue
		}
		x, k := g.run(false)
		sb.WriteString(x)
		p.Kids = append(p.Kids, k)
	}
	sb.WriteString("</w:p>")
	return sb.String(), p
}

func (g *foreignGen) table() (string, *MTable) {
	r := g.r
	t := &MTable{Props: map[string]string{}}
	var sb strings.Builder
	sb.WriteString("<w:tbl><w:tblPr>")
	if r.P(40) {
		t.Props["w"], t.Props["type"] = strconv.Itoa(r.R(1, 9000)), "dxa"
		sb.WriteString(`<w:tblW w:w="` + t.Props["w"] + `" w:type="dxa"/>`)
	}
	if r.P(30) {
		t.Props["jc"] = "center"
		sb.WriteString(`<w:jc w:val="center"/>`)
	}
	if r.P(30) {
		sb.WriteString("<w:tblBorders>")
		for _, s := range []string{"top", "left", "bottom", "right", "insideH", "insideV"} {
			t.Props["b."+s] = Pick(r, "auto", "FF00FF")
			sb.WriteString(`<w:` + s + ` w:val="single" w:sz="4" w:space="0" w:color="` + t.Props["b."+s] + `"/>`)
		}
		sb.WriteString("</w:tblBorders>")
	}
	q := NewRng(r.U64())
	if q.P(35) {
		sb.WriteString(`<w:tblLook`)
		look, n := "", ""
		for _, a := range lookAttrs {
			if q.P(80) {
				v := Pick(q, "0", "1", "0", "1", "true", "false", "on", "off")
				sb.WriteString(" w:" + a + `="` + v + `"`)
				if v == "1" || v == "true" || v == "on" {
					look += n + a
					n = " "
				}
			}
		}
		sb.WriteString(` w:val="04A0"/>`)
		if look != "" {
			t.Props["look"] = look
		}
	}
	sb.WriteString("</w:tblPr><w:tblGrid>")
	cols := r.R(1, 3)
	if q.P(15) {
		cols += 3
	}
	for i := 0; i < cols; i++ {
		w := r.R(100, 4000)
		t.Grid = append(t.Grid, int64(w))
		fmt.Fprintf(&sb, `<w:gridCol w:w="%d"/>`, w)
	}
	sb.WriteString("</w:tblGrid>")
	for y := r.R(1, 3); y > 0; y-- {
		mr := &MRow{Props: map[string]string{}}
		sb.WriteString("<w:tr" + g.rsid() + ">")
		if r.P(40) {
			sb.WriteString("<w:trPr>")
			mr.Props["h"] = strconv.Itoa(r.R(1, 999))
			sb.WriteString(`<w:trHeight w:val="` + mr.Props["h"] + `"/>`)
			if r.P(40) {
				mr.Props["jc"] = "end"
				sb.WriteString(`<w:jc w:val="end"/>`)
			}
			sb.WriteString("</w:trPr>")
		}
		for x := 0; x < cols; x++ {
			mc := &MCell{Props: map[string]string{}}
			mc.Props["w"], mc.Props["type"] = strconv.Itoa(r.R(1, 4000)), "dxa"
			sb.WriteString(`<w:tc><w:tcPr><w:tcW w:w="` + mc.Props["w"] + `" w:type="dxa"/>`)
			if cols-x > 1 && q.P(25) {
				n := q.R(2, cols-x)
				x += n - 1
				mc.Props["span"] = strconv.Itoa(n)
				sb.WriteString(`<w:gridSpan w:val="` + mc.Props["span"] + `"/>`)
			}
			if q.P(15) {
				mc.Props["merge"] = Pick(q, "", "restart", "continue")
				if mc.Props["merge"] == "" {
					sb.WriteString("<w:vMerge/>")
				} else {
					sb.WriteString(`<w:vMerge w:val="` + mc.Props["merge"] + `"/>`)
				}
			}
			if r.P(30) {
				mc.Props["shd"] = "clear/auto/E7E6E6"
				sb.WriteString(`<w:shd w:val="clear" w:color="auto" w:fill="E7E6E6"/>`)
			}
			if q.P(20) {
				mc.Props["valign"] = Pick(q, "center", "bottom", "top", "both")
				sb.WriteString(`<w:vAlign w:val="` + mc.Props["valign"] + `"/>`)
			}
			sb.WriteString("</w:tcPr>")
			for n := r.R(1, 2); n > 0; n-- {
				px, pm := g.para()
				sb.WriteString(px)
				mc.Paras = append(mc.Paras, pm)
			}
			sb.WriteString("</w:tc>")
			mr.Cells = append(mr.Cells, mc)
		}
		sb.WriteString("</w:tr>")
		t.Rows = append(t.Rows, mr)
	}
	sb.WriteString("</w:tbl>")
	return sb.String(), t
}

// buildForeign makes the package of a seed. size scales the body.
func buildForeign(seed uint64, size int) *foreign { return buildForeignIn(seed, size, false) }

func buildForeignIn(seed uint64, size int, nested bool) *foreign {
	r := NewRng(seed, 0xF0)
	f := &foreign{}
	g := &foreignGen{r: r, f: f, relIDs: map[string]bool{}, rootNS: r.P(75), uid: seed << 20, noRels: r.P(4)}
	addPart := func(name string, data []byte) {
		f.parts = append(f.parts, foreignPart{name: name, data: data, store: r.P(15)})
	}
	addRel := func(typ, target string) {
		if g.noRels {
			return
		}
		g.addRel("http://schemas.openxmlformats.org/officeDocument/2006/relationships/"+typ, target, "")
	}
	randBytes := func(n int) []byte {
		b := make([]byte, n)
		q := NewRng(r.U64())
		for i := range b {
			b[i] = byte(q.U64())
		}
		return b
	}
	addPart("_rels/.rels", []byte(`<?xml version="1.0"?><Relationships xmlns="`+nsREL+`"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="word/document.xml"/></Relationships>`))
	addPart("word/styles.xml", append([]byte("<styles>"), randBytes(r.Log(6000))...))
	addRel("styles", "styles.xml")
	if r.P(80) {
		addPart("word/theme/theme1.xml", randBytes(r.Log(9000)))
		addRel("theme", "theme/theme1.xml")
	}
	if r.P(60) {
		addPart("word/settings.xml", []byte("<settings "+strings.Repeat("a=b ", r.Log(3000))+"/>"))
		addRel("settings", "settings.xml")
	}
	if r.P(40) {
		addPart("word/numbering.xml", []byte("<numbering/>"))
		addRel("numbering", "numbering.xml")
	}
	if r.P(50) {
		addPart("docProps/core.xml", []byte("<core>ö</core>"))
		addPart("docProps/app.xml", nil) // empty
	}
	if r.P(1) {
		// now and then a part far larger than any buffer
		b := randBytes(1 << r.R(8, 12))
		n := r.R(1<<19, 1<<23)
		if r.P(20) {
			n *= 4
		}
		big := make([]byte, 0, n+len(b))
		for i := 0; len(big) < n; i++ {
			big = strconv.AppendInt(append(big, b...), int64(i), 10)
		}
		addPart(Pick(r, "word/embeddings/big.bin", "customXml/big.xml", "word/big", "word/fonts/font1.odttf"), big)
	}
	if r.P(1) {
		for i := r.R(100, 400); i > 0; i-- {
			addPart(fmt.Sprintf("customXml/many%d.xml", i), randBytes(r.N(40)))
		}
	}
	if r.P(1) && !g.noRels {
		for i := r.R(60, 300); i > 0; i-- {
			g.addRel(relHyperlink, fmt.Sprintf("http://many/%d", i), "External")
		}
	}
	for i := r.N(3); i > 0; i-- {
		addPart(fmt.Sprintf("customXml/item%d.xml", i), randBytes(r.Log(40000)))
	}
	taken := map[string]bool{}
	for _, p := range f.parts {
		taken[p.name] = true
	}
	for i := r.W(50, 25, 15, 10); i > 0; i-- {
		name := otherPart(r)
		if taken[name] {
			continue
		}
		taken[name] = true
		addPart(name, randBytes(r.Log(5000)))
	}
	if r.P(12) && !nested {
		b := zipParts(buildForeignIn(r.U64(), r.R(1, 3), true).parts)
		if r.P(60) { // small enough to be stored in one piece
			b = zipParts([]foreignPart{
				{name: "word/document.xml", data: []byte(`<w:document xmlns:w="` + nsW + `"><w:body><w:p><w:r><w:t>embedded</w:t></w:r></w:p></w:body></w:document>`), store: true},
				{name: "word/media/image1.png", data: randBytes(r.R(2000, 9000)), store: true},
				{name: "word/_rels/document.xml.rels", data: []byte(`<Relationships xmlns="` + nsREL + `"/>`), store: true},
			})
		}
		addPart(Pick(r, "word/embeddings/Microsoft_Word_Document1.docx", "word/embeddings/oleObject2.bin", "embedded.zip"), b)
	}
	names := map[string]bool{}
	for i := r.W(30, 30, 20, 12, 6, 2); i > 0; i-- {
		g.uid++
		kind := r.N(4)
		name := Pick(r, "image1.png", "image2.jpeg", "image3.gif", "image100001.png", "image100002.jpeg", "image100001.gif", "图.png", "sub/pic.png", "IMAGE1.png", "image100003.png", "logo.webp", "image1", "scan.jpg", "scan.tif", "chart.emf", "image4.wmf", "drawing.svg", "image1.JPG")
		if names[name] {
			continue
		}
		names[name] = true
		b := imageBytes(kind, r.R(1, 400), r.R(1, 400), g.uid, r.Log(3000))
		if len(names) == 1 && r.P(6) {
			b = nil // an image of no bytes
		}
		addPart("word/media/"+name, b)
		if r.P(90) && !g.noRels {
			tgt := "media/" + name
			if r.P(15) {
				tgt = "/word/media/" + name
			}
			for k := r.W(0, 85, 15); k > 0; k-- { // now and then two relationships for one image
				id := g.addRel(relImage, tgt, "")
				g.media = append(g.media, struct{ rid, sum string }{id, sum(b)})
			}
		}
	}
	if r.P(95) {
		var ms []string
		for _, p := range f.parts {
			if strings.HasPrefix(p.name, "word/media/") {
				ms = append(ms, p.name[len("word/media/"):])
			}
		}
		addPart(typesPart, genTypes(r, ms))
	}
	// the body
	var body strings.Builder
	n := r.Log(size)
	for i := 0; i < n; i++ {
		body.WriteString(g.noise())
		if r.P(12) {
			x, t := g.table()
			body.WriteString(x)
			f.content = append(f.content, &MBlock{T: t})
			continue
		}
		x, p := g.para()
		body.WriteString(x)
		f.content = append(f.content, &MBlock{P: p})
		if r.P(4) {
			body.WriteString(`<w:sdt><w:sdtContent/></w:sdt>`)
		}
	}
	if r.P(70) {
		w, h := r.R(1000, 20000), r.R(1000, 20000)
		fmt.Fprintf(&body, `<w:sectPr><w:pgSz w:w="%d" w:h="%d"/></w:sectPr>`, w, h)
		f.content = append(f.content, &MBlock{S: map[string]string{"w": strconv.Itoa(w), "h": strconv.Itoa(h)}})
	}
	root := ` xmlns:w="` + nsW + `"`
	if g.rootNS {
		root += ` xmlns:r="` + nsR + `" xmlns:wp="` + nsWP + `" xmlns:a="` + nsA + `" xmlns:pic="` + nsPIC + `" xmlns:wps="` + nsWPS + `"`
		root += ` xmlns:wpc="` + nsWPC + `" xmlns:wpg="` + nsWPG + `"`
	}
	doc := `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n" + `<w:document` + root + `>` + `<w:body>` + body.String() + `</w:body></w:document>`
	if r.P(20) {
		doc = strew(r, doc)
	}
	// shuffle the relationship table
	if r.P(50) {
		for i := len(f.rels) - 1; i > 0; i-- {
			j := r.N(i + 1)
			f.rels[i], f.rels[j] = f.rels[j], f.rels[i]
		}
	}
	if !g.noRels || r.P(50) {
		addPart("word/_rels/document.xml.rels", relTable(r, f.rels))
	}
	addPart("word/document.xml", []byte(doc))
	if r.P(30) {
		for _, d := range []string{"word/", "_rels/", "word/media/", "customXml/"} {
			if r.P(60) {
				f.parts = append(f.parts, foreignPart{name: d, dir: true})
			}
		}
	}
	shuffleParts(r, f.parts)
	return f
}

// strew puts elements and attributes into a document that nobody knows, such as
// those of newer or other word processors.
func strew(r *Rng, doc string) string {
	type spot struct {
		at   int
		attr bool
	}
	var spots []spot
	d := xml.NewDecoder(strings.NewReader(doc))
	depth, text := 0, 0
	for {
		before := int(d.InputOffset())
		t, err := d.RawToken()
		if err != nil {
			break
		}
		after := int(d.InputOffset())
		switch x := t.(type) {
		case xml.StartElement:
			depth++
			switch x.Name.Local {
			case "t", "instrText", "posOffset", "document":
				text = depth
			}
			if doc[after-2] == '/' {
				spots = append(spots, spot{after - 2, true})
				break
			}
			spots = append(spots, spot{after - 1, true})
			if text == 0 {
				spots = append(spots, spot{after, false})
			}
		case xml.EndElement:
			if text == 0 && before != after && doc[after-2] != '/' {
				spots = append(spots, spot{before, false})
			}
			if text == depth {
				text = 0
			}
			depth--
		}
		if depth == 1 {
			text = 0
		}
	}
	n := min(r.Log(12)+1, len(spots))
	put := map[int]string{}
	for ; n > 0; n-- {
		s := spots[r.N(len(spots))]
		if put[s.at] != "" {
			continue
		}
		if s.attr {
			put[s.at] = Pick(r, ` zz:new="1" xmlns:zz="urn:x"`, ` unheard="of"`, ` xmlns:zz="urn:x"`, ` zz:id2="rId1" xmlns:zz="urn:x"`)
			continue
		}
		in := Pick(r, "", "7", `<w:t>trap</w:t>`, `<w:r><w:t>trap</w:t></w:r>`, `<w:p/>`, `<a:ext xmlns:a="`+nsA+`" cx="1" cy="2"/>`, `<x:x xmlns:x="urn:x"><x:x/></x:x><w:tab/>`, `<w:b/><w:jc w:val="end"/>`, `<a:blip xmlns:a="`+nsA+`"/>`)
		put[s.at] = Pick(r, `<x:new xmlns:x="urn:x">`+in+`</x:new>`, `<x:new xmlns:x="urn:x" val="3">`+in+in+`</x:new>`,
			`<a:extLst xmlns:a="`+nsA+`"><a:ext uri="{28A0092B-C50C-407E-A947-70E740481C1C}">`+in+`</a:ext></a:extLst>`)
	}
	var sb strings.Builder
	for i := 0; i < len(doc); i++ {
		sb.WriteString(put[i])
		sb.WriteByte(doc[i])
	}
	return sb.String()
}

// relTable writes a table of relationships the way various producers do.
func relTable(r *Rng, rels []PRel) []byte {
	var rb strings.Builder
	rb.WriteString(Pick(r, `<?xml version="1.0" encoding="UTF-8"?>`+"\n", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\r\n", ""))
	pre, ns := "", "xmlns"
	if r.P(12) {
		pre, ns = Pick(r, "rel:", "ns0:"), ""
		ns = "xmlns:" + strings.TrimSuffix(pre, ":")
	}
	nl := Pick(r, "", "", "\n  ", "<!-- -->", "\r\n")
	rb.WriteString(`<` + pre + `Relationships ` + ns + `="` + nsREL + `">`)
	long := r.P(15)
	order := r.P(30)
	for _, x := range rels {
		l := []string{`Id="` + xesc(x.ID) + `"`, `Type="` + xesc(x.Type) + `"`, `Target="` + xesc(x.Target) + `"`}
		if x.Mode != "" {
			l = append(l, `TargetMode="`+xesc(x.Mode)+`"`)
		}
		if order {
			r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
		}
		rb.WriteString(nl + `<` + pre + `Relationship ` + strings.Join(l, " "))
		if long {
			rb.WriteString(`></` + pre + `Relationship>`)
		} else {
			rb.WriteString(`/>`)
		}
	}
	rb.WriteString(`</` + pre + `Relationships>`)
	return []byte(rb.String())
}

// otherPart names a part that the library knows nothing about: such as other
// programs write, left behind, or none has ever written.
func otherPart(r *Rng) string {
	if r.P(70) {
		return Pick(r, "word/embeddings/oleObject1.bin", "word/header1.xml", "weird name ü.bin", "word/media.txt", "word/document.xml.bak",
			"word/_rels/settings.xml.rels", "x", "[trash]/0000.dat", "[trash]/0001.dat", ".DS_Store", "__MACOSX/word/._document.xml",
			"Thumbs.db", "word/Thumbs.db", "docProps/thumbnail.jpeg", "docProps/custom.xml", "_xmlsignatures/origin.sigs",
			"_xmlsignatures/_rels/origin.sigs.rels", "word/vbaProject.bin", "word/_rels/vbaProject.bin.rels", "word/webSettings.xml",
			"word/footnotes.xml", "word/endnotes.xml", "word/comments.xml", "word/commentsExtended.xml", "word/people.xml", "word/footer1.xml",
			"word/_rels/header1.xml.rels", "word/glossary/document.xml", "word/glossary/_rels/document.xml.rels", "word/glossary/styles.xml",
			"word/charts/chart1.xml", "word/diagrams/data1.xml", "word/activeX/activeX1.bin", "word/printerSettings/printerSettings1.bin",
			"customXml/_rels/item1.xml.rels", "word/document2.xml", "document.xml", "document.xml.rels", "_rels/document.xml.rels",
			"word/document.xml.rels", "word/_rels/document.xml", "word/_rels/document.xml.rels.bak", "media/image1.png", "word/glossary/media/image1.png",
			"word/Media/image1.png", "Word/document.xml", "word/media1/image1.png", "xml/word/document.xml", "word/media.xml", "Content_Types.xml",
			"word/[Content_Types].xml", "word/image1.png", "mimetype", "META-INF/manifest.xml", "word/document.XML", "word/styles.xml.tmp", "~$doc.tmp",
			"word/fontTable.xml", "word/_rels/fontTable.xml.rels", "word/fonts/font1.odttf", "word/stylesWithEffects.xml", "docMetadata/LabelInfo.xml")
	}
	var sb strings.Builder
	for i := r.W(40, 30, 20, 10); i > 0; i-- {
		sb.WriteString(Pick(r, "word", "_rels", "a b", "ä", "customXml", ".x", "x.xml", "1", "字", "media", "...") + "/")
	}
	sb.WriteString(Pick(r, "item", "Ü", "a&b", "a'b", "a%20b", "a+b", "#1", "字", "-", "a;b=c", "COM1", strings.Repeat("long", 50)))
	sb.WriteString(strconv.Itoa(r.N(5)))
	return sb.String() + Pick(r, ".xml", ".bin", "", ".XML", ".png", ".jpeg", ".rels", ".tmp", ".bak", ".docx", ".gz", ".", "~", ".gif")
}

func shuffleParts(r *Rng, ps []foreignPart) {
	for i := len(ps) - 1; i > 0; i-- {
		j := r.N(i + 1)
		ps[i], ps[j] = ps[j], ps[i]
	}
}

// zipParts writes a package. Stored parts get their checksum up front, the way
// other tools write them.
func zipParts(ps []foreignPart) []byte {
	var b bytes.Buffer
	zw := zip.NewWriter(&b)
	for _, p := range ps {
		switch {
		case p.dir:
			_, err := zw.CreateHeader(&zip.FileHeader{Name: p.name, Method: zip.Store})
			must(err)
		case p.store:
			h := &zip.FileHeader{Name: p.name, Method: zip.Store, CRC32: crc32.ChecksumIEEE(p.data), CompressedSize64: uint64(len(p.data)), UncompressedSize64: uint64(len(p.data))}
			w, err := zw.CreateRaw(h)
			must(err)
			_, err = w.Write(p.data)
			must(err)
		default:
			w, err := zw.Create(p.name)
			must(err)
			_, err = w.Write(p.data)
			must(err)
		}
	}
	must(zw.Close())
	return b.Bytes()
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}
