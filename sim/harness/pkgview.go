package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// The independent reader: what is in a saved package, found out without the
// library. Names are resolved through the namespaces really in scope, and the
// namespace names are the ones the standard prescribes.
const (
	nsW   = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
	nsR   = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
	nsWP  = "http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing"
	nsA   = "http://schemas.openxmlformats.org/drawingml/2006/main"
	nsPIC = "http://schemas.openxmlformats.org/drawingml/2006/picture"
	nsWPS = "http://schemas.microsoft.com/office/word/2010/wordprocessingShape"
	nsWPC = "http://schemas.microsoft.com/office/word/2010/wordprocessingCanvas"
	nsWPG = "http://schemas.microsoft.com/office/word/2010/wordprocessingGroup"
	nsMC  = "http://schemas.openxmlformats.org/markup-compatibility/2006"
	nsREL = "http://schemas.openxmlformats.org/package/2006/relationships"

	relHyperlink = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink"
	relImage     = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/image"
)

// XNode is one element.
type XNode struct {
	Space, Local string
	Attr         map[string]string // "space local" -> value
	Kids         []*XNode
	Text         string
}

func (n *XNode) is(space, local string) bool { return n != nil && n.Space == space && n.Local == local }

func (n *XNode) kid(space, local string) *XNode {
	if n == nil {
		return nil
	}
	for _, k := range n.Kids {
		if k.is(space, local) {
			return k
		}
	}
	return nil
}

func (n *XNode) path(steps ...string) *XNode {
	for i := 0; i+1 < len(steps); i += 2 {
		n = n.kid(steps[i], steps[i+1])
	}
	return n
}

func (n *XNode) at(space, local string) string {
	if n == nil {
		return ""
	}
	return n.Attr[space+" "+local]
}

func (n *XNode) atOK(space, local string) (string, bool) {
	if n == nil {
		return "", false
	}
	v, ok := n.Attr[space+" "+local]
	return v, ok
}

// parseXML checks that the bytes are one well-formed element with every
// prefix bound, and returns it.
func parseXML(b []byte) (*XNode, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	type frame struct {
		n   *XNode
		raw xml.Name
		ns  map[string]string
	}
	var st []frame
	var root *XNode
	lookup := func(p string) (string, bool) {
		if p == "xml" {
			return "http://www.w3.org/XML/1998/namespace", true
		}
		for i := len(st) - 1; i >= 0; i-- {
			if v, ok := st[i].ns[p]; ok {
				return v, true
			}
		}
		return "", p == ""
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			if root != nil && len(st) == 0 {
				return nil, errors.New("more than one root element")
			}
			n := &XNode{Attr: map[string]string{}}
			f := frame{n: n, raw: x.Name, ns: map[string]string{}}
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" {
					f.ns[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					f.ns[""] = a.Value
				}
			}
			st = append(st, f)
			sp, ok := lookup(x.Name.Space)
			if !ok {
				return nil, fmt.Errorf("element prefix %q is not bound", x.Name.Space)
			}
			n.Space, n.Local = sp, x.Name.Local
			for _, a := range x.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				asp := ""
				if a.Name.Space != "" {
					asp, ok = lookup(a.Name.Space)
					if !ok {
						return nil, fmt.Errorf("attribute prefix %q is not bound", a.Name.Space)
					}
				}
				k := asp + " " + a.Name.Local
				if _, dup := n.Attr[k]; dup {
					return nil, fmt.Errorf("attribute %s twice on %s", k, x.Name.Local)
				}
				n.Attr[k] = a.Value
			}
			if len(st) > 1 {
				p := st[len(st)-2].n
				p.Kids = append(p.Kids, n)
			} else {
				root = n
			}
		case xml.EndElement:
			if len(st) == 0 || st[len(st)-1].raw != x.Name {
				return nil, fmt.Errorf("unbalanced end tag %s", x.Name.Local)
			}
			st = st[:len(st)-1]
		case xml.CharData:
			if len(st) > 0 {
				st[len(st)-1].n.Text += string(x)
			} else if strings.TrimSpace(string(x)) != "" {
				return nil, errors.New("text outside of the root element")
			}
		}
	}
	if len(st) > 0 || root == nil {
		return nil, errors.New("document ends inside of an element")
	}
	return root, nil
}

// PRel is one relationship of a package.
type PRel struct{ ID, Type, Target, Mode string }

// Pkg is a package as the independent reader sees it.
type Pkg struct {
	Names   []string
	Parts   map[string][]byte
	Ranges  []dataRange
	Rels    []PRel
	RelOf   map[string]PRel
	Content Content
	DocPrs  []int
	Doc     *XNode
}

func readPkg(b []byte) (*Pkg, error) { return readPkgOpt(b, false) }

// readPkgOpt reads a package. relaxed leaves document and relationships
// unparsed when they are not there.
func readPkgOpt(b []byte, partsOnly bool) (*Pkg, error) {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	p := &Pkg{Parts: map[string][]byte{}, RelOf: map[string]PRel{}}
	for _, f := range zr.File {
		if strings.HasSuffix(f.Name, "/") {
			continue
		}
		if _, dup := p.Parts[f.Name]; dup {
			return nil, fmt.Errorf("part %q is there twice", f.Name)
		}
		off, err := f.DataOffset()
		if err != nil {
			return nil, err
		}
		rc, err := f.Open()
		if err != nil {
			return nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		data, err := io.ReadAll(rc)
		_ = rc.Close()
		if err != nil {
			return nil, fmt.Errorf("part %q: %w", f.Name, err)
		}
		p.Names = append(p.Names, f.Name)
		p.Parts[f.Name] = data
		p.Ranges = append(p.Ranges, dataRange{f.Name, int(off), int(off) + int(f.CompressedSize64)})
	}
	if partsOnly {
		return p, nil
	}
	rb, ok := p.Parts["word/_rels/document.xml.rels"]
	if !ok {
		rb = []byte(`<Relationships xmlns="` + nsREL + `"/>`) // a document that refers to nothing needs none
	}
	rn, err := parseXML(rb)
	if err != nil {
		return nil, fmt.Errorf("relationships: %w", err)
	}
	if !rn.is(nsREL, "Relationships") {
		return nil, fmt.Errorf("relationships: root is %q %q", rn.Space, rn.Local)
	}
	for _, k := range rn.Kids {
		if !k.is(nsREL, "Relationship") {
			return nil, fmt.Errorf("relationships: %q %q", k.Space, k.Local)
		}
		r := PRel{k.at("", "Id"), k.at("", "Type"), k.at("", "Target"), k.at("", "TargetMode")}
		if _, dup := p.RelOf[r.ID]; dup {
			return nil, fmt.Errorf("relationship id %s is there twice", r.ID)
		}
		p.RelOf[r.ID] = r
		p.Rels = append(p.Rels, r)
	}
	db, ok := p.Parts["word/document.xml"]
	if !ok {
		return nil, errors.New("no word/document.xml")
	}
	dn, err := parseXML(db)
	if err != nil {
		return nil, fmt.Errorf("document: %w", err)
	}
	if !dn.is(nsW, "document") {
		return nil, fmt.Errorf("document: root is %q %q", dn.Space, dn.Local)
	}
	body := dn.kid(nsW, "body")
	if body == nil {
		return nil, errors.New("document: no body")
	}
	p.Doc = dn
	p.Content = p.content(body)
	return p, nil
}

func (p *Pkg) content(body *XNode) (c Content) {
	for _, n := range body.Kids {
		if n.Space != nsW {
			continue
		}
		switch n.Local {
		case "p":
			c = append(c, &MBlock{P: p.para(n)})
		case "tbl":
			c = append(c, &MBlock{T: p.table(n)})
		case "sectPr":
			s := map[string]string{}
			if z := n.kid(nsW, "pgSz"); z != nil {
				s["w"], s["h"] = z.at(nsW, "w"), z.at(nsW, "h")
			}
			c = append(c, &MBlock{S: s})
		}
	}
	return
}

func numAttr(n *XNode, m map[string]string, key string) {
	if v, ok := n.atOK(nsW, "w"); ok && v != "0" {
		m[key] = v
	}
	if v, ok := n.atOK(nsW, "type"); ok && v != "" {
		m["type"] = v
	}
}

// lookAttrs are the switches of the look of a table.
var lookAttrs = []string{"firstRow", "lastRow", "firstColumn", "lastColumn", "noHBand", "noVBand"}

func (p *Pkg) table(n *XNode) *MTable {
	t := &MTable{Props: map[string]string{}}
	if pr := n.kid(nsW, "tblPr"); pr != nil {
		if w := pr.kid(nsW, "tblW"); w != nil {
			numAttr(w, t.Props, "w")
		}
		if j := pr.kid(nsW, "jc"); j != nil {
			t.Props["jc"] = j.at(nsW, "val")
		}
		if l := pr.kid(nsW, "tblLook"); l != nil {
			var on []string
			for _, a := range lookAttrs {
				switch l.at(nsW, a) {
				case "1", "true", "on":
					on = append(on, a)
				}
			}
			if on != nil {
				t.Props["look"] = strings.Join(on, " ")
			}
		}
		if b := pr.kid(nsW, "tblBorders"); b != nil {
			for _, s := range []string{"top", "left", "bottom", "right", "insideH", "insideV"} {
				if x := b.kid(nsW, s); x != nil {
					t.Props["b."+s] = x.at(nsW, "color")
				}
			}
		}
	}
	if g := n.kid(nsW, "tblGrid"); g != nil {
		for _, k := range g.Kids {
			if k.is(nsW, "gridCol") {
				v, _ := strconv.ParseInt(k.at(nsW, "w"), 10, 64)
				t.Grid = append(t.Grid, v)
			}
		}
	}
	for _, r := range n.Kids {
		if !r.is(nsW, "tr") {
			continue
		}
		mr := &MRow{Props: map[string]string{}}
		if pr := r.kid(nsW, "trPr"); pr != nil {
			if h := pr.kid(nsW, "trHeight"); h != nil {
				mr.Props["h"] = h.at(nsW, "val")
			}
			if j := pr.kid(nsW, "jc"); j != nil {
				mr.Props["jc"] = j.at(nsW, "val")
			}
		}
		for _, c := range r.Kids {
			if !c.is(nsW, "tc") {
				continue
			}
			mc := &MCell{Props: map[string]string{}}
			if pr := c.kid(nsW, "tcPr"); pr != nil {
				if w := pr.kid(nsW, "tcW"); w != nil {
					numAttr(w, mc.Props, "w")
				}
				for n, k := range map[string]string{"gridSpan": "span", "vMerge": "merge", "vAlign": "valign"} {
					if x := pr.kid(nsW, n); x != nil {
						mc.Props[k] = x.at(nsW, "val")
					}
				}
				if s := pr.kid(nsW, "shd"); s != nil {
					mc.Props["shd"] = s.at(nsW, "val") + "/" + s.at(nsW, "color") + "/" + s.at(nsW, "fill")
				}
			}
			for _, k := range c.Kids {
				if k.is(nsW, "p") {
					mc.Paras = append(mc.Paras, p.para(k))
				}
			}
			mr.Cells = append(mr.Cells, mc)
		}
		t.Rows = append(t.Rows, mr)
	}
	return t
}

func xmlFmt(n *XNode) map[string]string {
	m := map[string]string{}
	if n == nil {
		return m
	}
	for _, k := range n.Kids {
		if k.Space != nsW {
			continue
		}
		v := k.at(nsW, "val")
		switch k.Local {
		case "color", "sz", "szCs", "rStyle", "strike", "u":
			m[k.Local] = v
		case "highlight":
			m["hl"] = v
		case "b", "i":
			m[k.Local] = onOff(v)
		case "spacing":
			l := k.at(nsW, "line")
			if l == "" {
				l = "0"
			}
			m["spacing"] = l
		case "shd":
			m["shd"] = v + "/" + k.at(nsW, "color") + "/" + k.at(nsW, "fill")
		case "rFonts":
			m["fonts"] = k.at(nsW, "ascii") + "/" + k.at(nsW, "eastAsia") + "/" + k.at(nsW, "hAnsi") + "/" + k.at(nsW, "hint")
		}
	}
	return m
}

func (p *Pkg) para(n *XNode) *MPara {
	m := &MPara{Props: map[string]string{}}
	for _, k := range n.Kids {
		if k.Space != nsW {
			continue
		}
		switch k.Local {
		case "pPr":
			if j := k.kid(nsW, "jc"); j != nil {
				m.Props["jc"] = j.at(nsW, "val")
			}
			if s := k.kid(nsW, "pStyle"); s != nil {
				m.Props["style"] = s.at(nsW, "val")
			}
			for _, n := range paraSwitches {
				if x := k.kid(nsW, n); x != nil {
					m.Props[n] = onOff(x.at(nsW, "val"))
				}
			}
			if np := k.kid(nsW, "numPr"); np != nil {
				m.Props["num"] = np.kid(nsW, "numId").at(nsW, "val") + "/" + np.kid(nsW, "ilvl").at(nsW, "val")
			}
			for a, b := range xmlFmt(k.kid(nsW, "rPr")) {
				m.Props["r."+a] = b
			}
		case "r":
			m.Kids = append(m.Kids, &MKid{Kind: 'r', Fmt: xmlFmt(k.kid(nsW, "rPr")), Toks: p.toks(k)})
		case "hyperlink":
			id := k.at(nsR, "id")
			r, ok := p.RelOf[id]
			tgt := linkTo(r.Type, r.Mode, r.Target)
			if a := k.at(nsW, "anchor"); !ok && id == "" && a != "" {
				tgt = "bookmark " + a
			} else if !ok {
				tgt = "unresolved " + id
			}
			mk := &MKid{Kind: 'a', Fmt: map[string]string{}, Target: tgt}
			for _, run := range k.Kids {
				if run.is(nsW, "r") { // they look alike, or there is only one
					if pr := run.kid(nsW, "rPr"); pr != nil {
						mk.Fmt = xmlFmt(pr)
					}
					mk.Toks = append(mk.Toks, p.toks(run)...)
				}
			}
			if a := k.at(nsW, "anchor"); id != "" && a != "" {
				mk.Fmt["anchor"] = a
			}
			m.Kids = append(m.Kids, mk)
		case "rPr":
			m.Kids = append(m.Kids, &MKid{Kind: '?', Toks: []string{"*docx.RunProperties"}})
		}
	}
	return m
}

func (p *Pkg) toks(r *XNode) (ts []string) {
	if t := r.kid(nsW, "instrText"); t != nil && t.Text != "" {
		ts = append(ts, "i:"+t.Text)
	}
	for _, k := range r.Kids {
		if k.Space == nsMC && k.Local == "AlternateContent" {
			for _, ch := range k.Kids {
				if ch.is(nsMC, "Choice") {
					switch ch.at("", "Requires") {
					case "wps", "wpc", "wpg":
						if d := ch.kid(nsW, "drawing"); d != nil {
							ts = append(ts, p.drawing(d))
						}
					}
				}
			}
			continue
		}
		if k.Space != nsW {
			continue
		}
		switch k.Local {
		case "t":
			ts = append(ts, "t:"+k.Text)
		case "tab":
			ts = append(ts, "tab")
		case "br":
			ts = append(ts, "br:"+k.at(nsW, "type"))
		case "drawing":
			ts = append(ts, p.drawing(k))
		}
	}
	return
}

func (p *Pkg) drawing(n *XNode) string {
	kind := "inline"
	d := n.kid(nsWP, "inline")
	if d == nil {
		kind = "anchor"
		d = n.kid(nsWP, "anchor")
	}
	if d == nil {
		return "drawing:empty"
	}
	name := ""
	if dp := d.kid(nsWP, "docPr"); dp != nil {
		name = dp.at("", "name")
		id, _ := strconv.Atoi(dp.at("", "id"))
		p.DocPrs = append(p.DocPrs, id)
	}
	sz := "?"
	if e := d.kid(nsWP, "extent"); e != nil {
		sz = e.at("", "cx") + "x" + e.at("", "cy")
	}
	gd := d.path(nsA, "graphic", nsA, "graphicData")
	if gd == nil {
		return "drawing:nographic"
	}
	if pic := gd.kid(nsPIC, "pic"); pic != nil {
		return "pic:" + kind + ":" + sz + ":" + p.pic(pic)
	}
	if sh := gd.kid(nsWPS, "wsp"); sh != nil {
		geom, rest := p.shape(sh)
		return "shape:" + kind + ":" + sz + ":" + geom + ":" + baseName(name) + rest
	}
	if c := gd.kid(nsWPC, "wpc"); c != nil {
		return "canvas:" + kind + ":" + sz + ":" + p.elems(c)
	}
	if g := gd.kid(nsWPG, "wgp"); g != nil {
		return "group:" + kind + ":" + sz + ":" + p.elems(g)
	}
	return "drawing:nothing"
}

// image is the digest of the image an id refers to.
func (p *Pkg) image(id string) string {
	r, ok := p.RelOf[id]
	if !ok {
		return "unresolved " + id
	}
	t := r.Target
	if strings.HasPrefix(t, "/") {
		t = t[1:]
	} else {
		t = "word/" + t
	}
	if b, ok := p.Parts[t]; ok {
		return sum(b)
	}
	return "no media for " + r.Target
}

func (p *Pkg) pic(pic *XNode) string {
	if bf := pic.kid(nsPIC, "blipFill"); bf != nil {
		return p.image(bf.kid(nsA, "blip").at(nsR, "embed"))
	}
	return "noblip"
}

func (p *Pkg) shape(sh *XNode) (geom, rest string) {
	if sp := sh.kid(nsWPS, "spPr"); sp != nil {
		geom = sp.kid(nsA, "prstGeom").at("", "prst")
		if l := sp.kid(nsA, "ln"); l != nil {
			w := l.at("", "w")
			if w == "" {
				w = "0"
			}
			geom += ":ln" + w
		}
		if b := sp.path(nsA, "blipFill", nsA, "blip"); b != nil {
			rest += " fill " + p.image(b.at(nsR, "embed"))
		}
	}
	if c := sh.path(nsWPS, "txbx", nsW, "txbxContent"); c != nil {
		var sb strings.Builder
		for _, k := range c.Kids {
			if k.is(nsW, "p") {
				p.para(k).render(&sb, "")
			}
		}
		rest += " box " + sb.String()
	}
	return geom, strings.ReplaceAll(rest, "\n", "|")
}

func (p *Pkg) elems(n *XNode) string {
	s := "{"
	for _, k := range n.Kids {
		switch {
		case k.is(nsPIC, "pic"):
			s += "pic " + p.pic(k) + ";"
		case k.is(nsWPS, "wsp"):
			geom, rest := p.shape(k)
			s += "shape " + geom + rest + ";"
		case k.is(nsWPC, "wpc"):
			s += "canvas " + p.elems(k) + ";"
		case k.is(nsWPG, "wgp"):
			s += "group " + p.elems(k) + ";"
		case k.is(nsWPG, "grpSp"):
			s += "grpSp " + p.elems(k) + ";"
		}
	}
	return s + "}"
}

// partSums maps part names to content sums.
func (p *Pkg) partSums() map[string]string {
	m := make(map[string]string, len(p.Parts))
	for k, v := range p.Parts {
		m[k] = sum(v)
	}
	return m
}

// isCarried says whether a part is one the library does not edit.
func isCarried(name string) bool {
	return name != "word/document.xml" && name != "word/_rels/document.xml.rels"
}

// mapDiff names the first difference of two string maps.
func mapDiff(want, got map[string]string) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return "missing " + strconv.Quote(k)
		}
		if g != want[k] {
			return fmt.Sprintf("%q: want %s, got %s", k, want[k], g)
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return "unexpected " + strconv.Quote(k)
		}
	}
	return ""
}

func newZip(b []byte) (*zip.Reader, error) { return zip.NewReader(bytes.NewReader(b), int64(len(b))) }

func readEntry(f *zip.File) ([]byte, error) {
	rc, err := f.Open()
	if err != nil {
		return nil, err
	}
	data, err := io.ReadAll(rc)
	_ = rc.Close()
	return data, err
}
