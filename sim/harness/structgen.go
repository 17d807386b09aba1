package main

import (
	"reflect"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// Trees of the exported types, filled in by reflection: what a user can put in
// a document without going through the convenience calls.

type structGen struct {
	r      *Rng
	id     int
	budget int
}

var strPool = []string{"a", "auto", "center", "x y", "<&>", `"q"`, "源", "100", "rect", "dxa", "FF00FF", " lead", "0"}

// fits lists the element types a field of mixed children can hold.
func (g *structGen) child(owner reflect.Type, field string, depth int) any {
	r := g.r
	deep := depth > 9 || g.budget <= 0
	mk := func(v any) any {
		g.fill(reflect.ValueOf(v).Elem(), depth+1)
		return v
	}
	switch owner.Name() + "." + field {
	case "Paragraph.Children":
		switch r.W(70, 20, 10) {
		case 0:
			return mk(&docx.Run{})
		case 1:
			return mk(&docx.Hyperlink{})
		}
		return mk(&docx.RunProperties{})
	case "Run.Children":
		w := 30
		if deep {
			w = 0
		}
		switch r.W(50, w, 10, 10) {
		case 0:
			return mk(&docx.Text{})
		case 1:
			return mk(&docx.Drawing{})
		case 2:
			return &docx.Tab{}
		}
		return mk(&docx.BarterRabbet{})
	case "WordprocessingCanvas.Items":
		switch r.W(40, 40, 20) {
		case 0:
			return mk(&docx.WordprocessingShape{})
		case 1:
			return mk(&docx.Picture{})
		}
		if deep {
			return nil
		}
		return mk(&docx.WordprocessingGroup{})
	case "WordprocessingGroup.Elems", "WPGGroupShape.Elems":
		switch r.W(40, 40, 10, 10) {
		case 0:
			return mk(&docx.WordprocessingShape{})
		case 1:
			return mk(&docx.Picture{})
		case 2:
			if deep {
				return nil
			}
			return mk(&docx.WordprocessingCanvas{})
		}
		if deep || owner.Name() == "WPGGroupShape" {
			return nil
		}
		return mk(&docx.WPGGroupShape{})
	}
	return nil
}

func (g *structGen) str() string {
	if g.r.P(10) {
		return randText(g.r)
	}
	return Pick(g.r, strPool...)
}

func (g *structGen) fill(v reflect.Value, depth int) {
	r := g.r
	t := v.Type()
	g.budget--
	if t == xmlNameType {
		return
	}
	switch x := v.Addr().Interface().(type) {
	case *docx.Drawing:
		if r.P(50) {
			x.Inline = &docx.WPInline{}
			g.fill(reflect.ValueOf(x.Inline).Elem(), depth+1)
		} else {
			x.Anchor = &docx.WPAnchor{}
			g.fill(reflect.ValueOf(x.Anchor).Elem(), depth+1)
		}
		return
	case *docx.AGraphicData:
		x.URI = g.str()
		switch k := r.N(4); {
		case k == 0:
			x.Pic = &docx.Picture{}
			g.fill(reflect.ValueOf(x.Pic).Elem(), depth+1)
		case k == 1:
			x.Shape = &docx.WordprocessingShape{}
			g.fill(reflect.ValueOf(x.Shape).Elem(), depth+1)
		case k == 2:
			x.Canvas = &docx.WordprocessingCanvas{}
			g.fill(reflect.ValueOf(x.Canvas).Elem(), depth+1)
		default:
			x.Group = &docx.WordprocessingGroup{}
			g.fill(reflect.ValueOf(x.Group).Elem(), depth+1)
		}
		return
	case *docx.WTableLook:
		// on-off values
		x.Val = g.str()
		for _, p := range []*int{&x.FirstRow, &x.LastRow, &x.FirstCol, &x.LastCol, &x.NoHBand, &x.NoVBand} {
			*p = r.N(2)
		}
		return
	case *docx.Hyperlink:
		// a link has a relationship, or its bookmark stands in for one
		x.ID = g.str()
		if x.Anchor = ""; r.P(50) {
			x.Anchor = x.ID
		} else if r.P(30) {
			x.Anchor = g.str()
		}
		g.fill(reflect.ValueOf(&x.Run).Elem(), depth+1)
		return
	case *docx.WPDocPr:
		g.id++
		x.ID, x.Name = g.id, g.str()
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		fv := v.Field(i)
		tag := strings.Split(f.Tag.Get("xml"), ",")[0]
		switch tag {
		case "xmlns:a":
			fv.SetString(nsA)
			continue
		case "xmlns:pic":
			fv.SetString(nsPIC)
			continue
		case "xml:space":
			if r.P(50) {
				fv.SetString("preserve")
			}
			continue
		}
		switch fv.Kind() {
		case reflect.Ptr:
			if depth > 22 || r.P(35) || g.budget <= 0 && r.P(90) {
				continue
			}
			nv := reflect.New(f.Type.Elem())
			if f.Type.Elem().Kind() == reflect.Struct {
				g.fill(nv.Elem(), depth+1)
			}
			fv.Set(nv)
		case reflect.Struct:
			g.fill(fv, depth+1)
		case reflect.String:
			if r.P(70) {
				fv.SetString(g.str())
			}
		case reflect.Int, reflect.Int64, reflect.Int32:
			if r.P(70) {
				fv.SetInt(Pick(r, 1, 0, 2, 100, int64(r.N(100000)), -3, 1<<31-1))
			}
		case reflect.Slice:
			n := r.W(25, 35, 25, 15)
			if g.budget <= 0 {
				n = 0
			}
			for k := 0; k < n; k++ {
				switch f.Type.Elem().Kind() {
				case reflect.Interface:
					if c := g.child(t, f.Name, depth); c != nil {
						fv.Set(reflect.Append(fv, reflect.ValueOf(c)))
					}
				case reflect.Ptr:
					nv := reflect.New(f.Type.Elem().Elem())
					g.fill(nv.Elem(), depth+1)
					fv.Set(reflect.Append(fv, nv))
				case reflect.Struct:
					nv := reflect.New(f.Type.Elem()).Elem()
					g.fill(nv, depth+1)
					fv.Set(reflect.Append(fv, nv))
				}
			}
		}
	}
}

// structOp adds a generated item to the body (V: seed, kind).
func (w *World) structOp(d *Doc, o *Op) bool {
	g := &structGen{r: NewRng(uint64(o.v(0)), 0x57), id: 1<<21 + w.step*1000, budget: 400}
	var it any
	switch o.v(1) {
	case 0:
		p := d.d.AddParagraph()
		it = p
		g.fill(reflect.ValueOf(p).Elem(), 0)
	case 1:
		t := &docx.Table{}
		it = t
		g.fill(reflect.ValueOf(t).Elem(), 0)
		d.d.Document.Body.Items = append(d.d.Document.Body.Items, t)
	default:
		s := &docx.SectPr{}
		it = s
		g.fill(reflect.ValueOf(s).Elem(), 0)
		d.d.Document.Body.Items = append(d.d.Document.Body.Items, s)
	}
	_ = it
	d.opaque = true
	d.m = liveContent(d.d)
	w.check(d)
	return true
}
