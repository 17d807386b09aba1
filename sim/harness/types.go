package main

import (
	"fmt"
	"path"
	"strings"
)

// The table of content types is carried over like any other part, except that
// the types of pictures may be added to it, and must be when it lacks them.

const (
	typesPart = "[Content_Types].xml"
	nsCT      = "http://schemas.openxmlformats.org/package/2006/content-types"
)

// sumOf names the content of a part that is carried over.
func sumOf(name string, data []byte) string {
	if name == typesPart {
		return "types:" + string(data)
	}
	return sum(data)
}

// samePart tells whether a part that was want may have become got.
func samePart(name, want, got string) bool {
	if want == got {
		return true
	}
	if name != typesPart {
		return false
	}
	return extends(strings.TrimPrefix(want, "types:"), strings.TrimPrefix(got, "types:"))
}

type ctype struct{ kind, key, typ string }

// ctypes lists the declarations of a table of content types.
func ctypes(data string) (l []ctype, m map[string]string, ok bool) {
	n, err := parseXML([]byte(strings.TrimPrefix(data, "\ufeff")))
	if err != nil || !n.is(nsCT, "Types") {
		return nil, nil, false
	}
	m = map[string]string{}
	for _, k := range n.Kids {
		c := ctype{kind: k.Local, typ: k.at("", "ContentType")}
		switch {
		case k.is(nsCT, "Default"):
			c.key = "." + strings.ToLower(k.at("", "Extension"))
		case k.is(nsCT, "Override"):
			c.key = strings.ToLower(k.at("", "PartName"))
		default:
			continue
		}
		if _, dup := m[c.key]; !dup {
			m[c.key] = c.typ
		}
		l = append(l, c)
	}
	return l, m, true
}

// extends tells whether got is want with nothing but types of pictures added.
func extends(want, got string) bool {
	a, m, ok := ctypes(want)
	if !ok {
		return false
	}
	b, _, ok := ctypes(got)
	if !ok || len(b) <= len(a) {
		return false
	}
	i := 0
	for _, c := range b {
		if i < len(a) && a[i] == c {
			i++
			continue
		}
		if _, there := m[c.key]; there || !strings.HasPrefix(c.typ, "image/") {
			return false
		}
		m[c.key] = c.typ // only once
	}
	return i == len(a)
}

var pictureTypes = map[string]string{".png": "image/png", ".jpeg": "image/jpeg", ".gif": "image/gif", ".webp": "image/webp", ".jpg": "image/jpeg"}

// declared checks that the types of all pictures in a package are known.
func (w *World) declared(p *Pkg, carried map[string]string) {
	tb, ok := p.Parts[typesPart]
	if !ok {
		return
	}
	before := strings.TrimPrefix(carried[typesPart], "types:")
	if l, _, ok := ctypes(before); !ok || len(l) == 0 {
		w.cond["table of types not understood"]++
		return
	}
	_, m, ok := ctypes(string(tb))
	w.req("C22", ok, "types", "the table of content types can no longer be read")
	_, old, _ := ctypes(before)
	lacked := false
	for _, k := range sortedKeys(p.Parts) {
		if !strings.HasPrefix(k, "word/media/") {
			continue
		}
		ext := strings.ToLower(path.Ext(k))
		if len(ext) < 2 {
			continue
		}
		t, ok := m[strings.ToLower("/"+k)]
		if !ok {
			t, ok = m[ext]
		}
		w.req("C22", ok, "undeclared", "the type of %q is not declared", k)
		if want := w.pictures[sum(p.Parts[k])]; want != "" {
			w.req("C22", t == want, "types", "%q is %s, but was declared as %q", k, want, t)
		}
		_, byName := old[strings.ToLower("/"+k)]
		_, byExt := old[ext]
		if !byName && !byExt {
			lacked = true
			w.req("C22", strings.HasPrefix(t, "image/"), "types", "%q was declared as %q", k, t)
			if want := pictureTypes[ext]; want != "" {
				w.req("C22", t == want, "types", "%q was declared as %q", k, t)
			}
			w.cond["type of a picture added"]++
		}
	}
	if !lacked && len(p.Parts) > 0 {
		w.req("C22 C05", string(tb) == before, "types-changed", "the table of content types was changed although it lacked nothing")
		w.cond["table of types left alone"]++
	}
}

// genTypes makes a table of content types for the media of a package.
func genTypes(r *Rng, media []string) []byte {
	var sb strings.Builder
	sb.WriteString(Pick(r, "", `<?xml version="1.0"?>`, `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`+"\r\n", "\ufeff"))
	pre := Pick(r, "", "", "", "ct:")
	if r.P(3) { // no such table
		return []byte(Pick(r, `<Typo xmlns="`+nsCT+`"></Typo>`, `<x><Types xmlns="`+nsCT+`"></Types></x>`, `<Types xmlns="`+nsCT+`"/>`, `<html><Default Extension="png" ContentType="x"/></html>`, `<Types xmlns="`+nsCT+`">`))
	}
	attr := ` xmlns="` + nsCT + `"`
	if pre != "" {
		attr = ` xmlns:ct="` + nsCT + `"`
	}
	sb.WriteString("<" + pre + "Types" + attr + ">")
	nl := Pick(r, "", "\n  ", "<!-- </Types> -->", "\n")
	put := func(kind, at, key, typ string) {
		sb.WriteString(nl)
		if r.P(50) {
			fmt.Fprintf(&sb, `<%s%s %s="%s" ContentType="%s"/>`, pre, kind, at, xesc(key), xesc(typ))
		} else {
			fmt.Fprintf(&sb, `<%s%s ContentType='%s' %s='%s'></%s%s>`, pre, kind, xesc(typ), at, xesc(key), pre, kind)
		}
	}
	put("Default", "Extension", "rels", "application/vnd.openxmlformats-package.relationships+xml")
	put("Default", "Extension", Pick(r, "xml", "XML"), "application/xml")
	all := r.W(50, 30, 20) // what pictures are declared: those that are there, some, none
	if r.P(30) {
		all = 3 // and more
	}
	done := map[string]bool{}
	for _, n := range media {
		ext := path.Ext(n)
		if len(ext) < 2 {
			put("Override", "PartName", "/word/media/"+n, "image/png")
			continue
		}
		ext = strings.ToLower(ext[1:])
		if done[ext] || all == 2 || all == 1 && r.P(50) {
			continue
		}
		typ := pictureTypes["."+ext]
		if typ == "" {
			typ = "image/" + ext
		}
		if r.P(20) {
			put("Override", "PartName", "/word/media/"+n, typ)
			continue
		}
		done[ext] = true
		if r.P(20) {
			ext = strings.ToUpper(ext)
		}
		put("Default", "Extension", ext, typ)
	}
	if all == 3 {
		for _, ext := range []string{"png", "jpeg", "gif", "emf", "bin"} {
			if !done[ext] && r.P(60) {
				put("Default", "Extension", ext, "image/"+ext)
			}
		}
	}
	put("Override", "PartName", "/word/document.xml", "application/vnd.openxmlformats-officedocument.wordprocessingml.document.main+xml")
	sb.WriteString(Pick(r, "", "\n", " <!-- end -->") + "</" + pre + "Types" + Pick(r, "", " ", "\n") + ">" + Pick(r, "", "\n", "<!-- </Types> -->"))
	return []byte(sb.String())
}
