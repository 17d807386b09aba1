package main

import (
	"fmt"
	"sort"
	"strings"
)

// The logical content of a document: what a user put in and expects to find
// again. It is produced three ways - by the workload itself, from the live
// document, and by an independent reader of the saved package - and compared.

// MKid is a run ('r'), a hyperlink ('a') or something else ('?').
type MKid struct {
	Kind   byte
	Fmt    map[string]string
	Toks   []string
	Target string
	Shared bool // also referenced from another document: do not edit
}

// MPara ...
type MPara struct {
	Props  map[string]string
	Kids   []*MKid
	Shared bool
}

// MCell ...
type MCell struct {
	Props map[string]string
	Paras []*MPara
	Share bool
}

// MRow ...
type MRow struct {
	Props map[string]string
	Cells []*MCell
}

// MTable ...
type MTable struct {
	Props map[string]string
	Grid  []int64
	Rows  []*MRow
	Share bool
}

// MBlock is one body item.
type MBlock struct {
	P *MPara
	T *MTable
	S map[string]string
}

// Content ...
type Content []*MBlock

// linkTo is where a link leads: to a part of the package it is no link.
func linkTo(typ, mode, target string) string {
	if typ != relHyperlink || mode != "External" {
		return fmt.Sprintf("part %s (%s %s)", target, typ, mode)
	}
	return target
}

func renderMap(sb *strings.Builder, m map[string]string) {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteByte('[')
	for i, k := range ks {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(sb, "%s=%q", k, m[k])
	}
	sb.WriteByte(']')
}

func (p *MPara) render(sb *strings.Builder, ind string) {
	sb.WriteString(ind + "p")
	renderMap(sb, p.Props)
	sb.WriteByte('\n')
	for _, k := range p.Kids {
		sb.WriteString(ind + "  ")
		sb.WriteByte(k.Kind)
		renderMap(sb, k.Fmt)
		if k.Kind == 'a' {
			fmt.Fprintf(sb, " ->%q", k.Target)
		}
		for _, t := range k.Toks {
			fmt.Fprintf(sb, " %q", t)
		}
		sb.WriteByte('\n')
	}
}

// Render writes the content one item per line.
func (c Content) Render() string {
	var sb strings.Builder
	for _, b := range c {
		switch {
		case b.P != nil:
			b.P.render(&sb, "")
		case b.T != nil:
			sb.WriteString("tbl")
			renderMap(&sb, b.T.Props)
			fmt.Fprintf(&sb, " grid=%v\n", b.T.Grid)
			for _, r := range b.T.Rows {
				sb.WriteString("  tr")
				renderMap(&sb, r.Props)
				sb.WriteByte('\n')
				for _, c := range r.Cells {
					sb.WriteString("    tc")
					renderMap(&sb, c.Props)
					sb.WriteByte('\n')
					for _, p := range c.Paras {
						p.render(&sb, "      ")
					}
				}
			}
		default:
			sb.WriteString("sect")
			renderMap(&sb, b.S)
			sb.WriteByte('\n')
		}
	}
	return sb.String()
}

func copyMap(m map[string]string) map[string]string {
	n := make(map[string]string, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (p *MPara) clone(share bool) *MPara {
	n := &MPara{Props: copyMap(p.Props), Shared: share || p.Shared}
	if share {
		p.Shared = true
	}
	for _, k := range p.Kids {
		if share {
			k.Shared = true
		}
		n.Kids = append(n.Kids, &MKid{Kind: k.Kind, Fmt: copyMap(k.Fmt), Toks: append([]string(nil), k.Toks...), Target: k.Target, Shared: share || k.Shared})
	}
	return n
}

// Clone copies content. share marks both sides as sharing formatting, which
// is how the library copies between documents.
func (c Content) Clone(share bool) Content {
	n := make(Content, 0, len(c))
	for _, b := range c {
		switch {
		case b.P != nil:
			n = append(n, &MBlock{P: b.P.clone(share)})
		case b.T != nil:
			t := &MTable{Props: copyMap(b.T.Props), Grid: append([]int64(nil), b.T.Grid...), Share: share || b.T.Share}
			if share {
				b.T.Share = true
			}
			for _, r := range b.T.Rows {
				nr := &MRow{Props: copyMap(r.Props)}
				for _, c := range r.Cells {
					if share {
						c.Share = true
					}
					nc := &MCell{Props: copyMap(c.Props), Share: share || c.Share}
					for _, p := range c.Paras {
						nc.Paras = append(nc.Paras, p.clone(share))
					}
					nr.Cells = append(nr.Cells, nc)
				}
				t.Rows = append(t.Rows, nr)
			}
			n = append(n, &MBlock{T: t})
		default:
			n = append(n, &MBlock{S: copyMap(b.S)})
		}
	}
	return n
}

// Paras lists every paragraph, in document order.
func (c Content) Paras() (ps []*MPara) {
	for _, b := range c {
		if b.P != nil {
			ps = append(ps, b.P)
		}
		if b.T != nil {
			for _, r := range b.T.Rows {
				for _, c := range r.Cells {
					ps = append(ps, c.Paras...)
				}
			}
		}
	}
	return
}

// Count counts tokens with a prefix.
func (c Content) Count(prefix string) (n int) {
	for _, p := range c.Paras() {
		for _, k := range p.Kids {
			for _, t := range k.Toks {
				if strings.HasPrefix(t, prefix) {
					n++
				}
			}
		}
	}
	return
}

// firstDiff names the first line in which two renderings differ.
func firstDiff(want, got string) string {
	if want == got {
		return ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; ; i++ {
		a, b := "(end)", "(end)"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d: want %s, got %s", i, clip(a, 300), clip(b, 300))
		}
		if i >= len(w) && i >= len(g) {
			return "same lines"
		}
	}
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}
