package main

import (
	"path"
	"strings"

	docx "github.com/fumiama/go-docx"
)

// References of a saved package: those of the body into the table of
// relationships, and from there to the parts.

// targetPart is the part an internal relationship of the document leads to.
func targetPart(target string) string {
	if strings.HasPrefix(target, "/") {
		return path.Clean(target)[1:]
	}
	return path.Join("word", target)
}

// looseEnds lists the parts that relationships lead to and that are not there.
func looseEnds(rels []docx.Relationship, has func(string) bool) map[string]bool {
	m := map[string]bool{}
	for _, r := range rels {
		if r.TargetMode == "External" || r.Type == relHyperlink && strings.HasPrefix(r.Target, "#") {
			continue
		}
		if t := targetPart(r.Target); !has(t) {
			m[t] = true
		}
	}
	return m
}

// looseNow is looseEnds of a document as it is.
func (d *Doc) looseNow() map[string]bool {
	return looseEnds(liveRels(d.d), func(part string) bool {
		if _, ok := d.carried[part]; ok {
			return true
		}
		return strings.HasPrefix(part, "word/media/") && d.d.Media(part[len("word/media/"):]) != nil
	})
}

// references checks that everything in a saved package leads somewhere, but for
// what led nowhere before.
func (w *World) references(d *Doc, p *Pkg) {
	if !d.opaque {
		var walk func(n *XNode)
		walk = func(n *XNode) {
			for k, v := range n.Attr {
				if strings.HasPrefix(k, nsR+" ") && v != "" {
					_, ok := p.RelOf[v]
					w.req("C23", ok, "dangling-id", "the document refers to the relationship %q, which the package does not have", v)
					w.cond["references resolved"]++
				}
			}
			for _, k := range n.Kids {
				walk(k)
			}
		}
		walk(p.Doc)
	}
	for _, r := range p.Rels {
		if r.Mode == "External" || r.Type == relHyperlink && strings.HasPrefix(r.Target, "#") {
			continue
		}
		t := targetPart(r.Target)
		if d.loose[t] {
			continue
		}
		_, ok := p.Parts[t]
		w.req("C23", ok, "dangling-target", "the relationship %s leads to the part %q, which the package does not have", r.ID, t)
		w.cond["relationship targets found"]++
	}
	there := map[string]bool{}
	for _, r := range p.Rels {
		there[r.Type+" "+r.Target] = true
	}
	for _, k := range sortedKeys(d.held) {
		if d.loose[targetPart(k[strings.IndexByte(k, ' ')+1:])] {
			continue
		}
		ok := there[k]
		w.req("C23", ok, "reference-lost", "the reference to a part that is carried over was lost: %s", k)
	}
}

// holds lists the relationships to parts other than pictures: every save, and
// every piece of a split, has to keep them.
func holds(rels []docx.Relationship) map[string]bool {
	m := map[string]bool{}
	for _, r := range rels {
		if r.TargetMode == "External" || r.Type == relHyperlink || r.Type == relImage || strings.HasPrefix(targetPart(r.Target), "word/media/") {
			continue
		}
		m[r.Type+" "+r.Target] = true
	}
	return m
}
