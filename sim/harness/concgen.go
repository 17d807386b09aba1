package main

import (
	"fmt"
	"strings"

	"simverif/rt"
)

// cost is about how many steps one call takes.
var cost = map[string]map[string]int64{
	"C11": {"incid": 6, "shape": 20},
	"C12": {"": 12},
	"C13": {"save": 1500, "print": 150, "content": 30, "split": 1500, "range": 30, "lookup": 100, "append": 900, "": 100},
	"C14": {"save": 1200, "open": 1500, "append": 300, "split": 300, "print": 150, "": 40},
}

// sched picks how the tasks of a run interleave: with one to very many
// hand-overs, spread over about as many steps as the tasks take.
func (g *gen) sched() {
	r := g.r
	length := int64(0)
	c := cost[g.p.Prop]
	for _, t := range g.p.Tasks {
		for i := range t {
			n, ok := c[t[i].K]
			if !ok {
				n = c[""]
			}
			length += n
		}
	}
	length = length*int64(r.R(10, 110))/100 + 4
	s := rt.Sched{Seed: r.U64()}
	few := func(n int64) {
		s.Prob = uint32(65536 * n / length)
		if s.Prob < 1 && r.P(50) {
			s.Prob = 1
		}
	}
	switch r.W(30, 35, 20, 15) {
	case 2:
		s.Mode = rt.Hot
		s.Den = uint64(1) << uint(r.R(2, 8))
		few(int64(r.N(6)))
	case 3:
		s.Mode = rt.Sync
		s.Den = uint64(r.R(1, 12))
		few(int64(r.N(6)))
	case 0:
		s.Mode = rt.Random
		want := int64(1 + r.Log(int(length)/3+1))
		s.Prob = uint32(65536 * want / length)
		if s.Prob < 1 {
			s.Prob = 1
		}
	default:
		s.Mode = rt.PCT
		s.Depth = r.R(1, 6)
		s.Length = length
	}
	g.p.Sched = s
}

func (g *gen) task(ops ...Op) { g.p.Tasks = append(g.p.Tasks, ops) }

// list collects what f adds to the plan.
func (g *gen) list(f func()) []Op {
	keep := g.p.Ops
	g.p.Ops = nil
	f()
	l := g.p.Ops
	g.p.Ops = keep
	return l
}

var longName = strings.Repeat("name of a shape ", 20)

var concGens = map[string]func(g *gen){
	"C11": func(g *gen) {
		r := g.r
		n := r.R(2, 5)
		switch r.N(3) {
		case 0:
			g.op(Op{K: "new", D: 0, V: []int64{2}})
		default:
			g.start(0)
			if r.P(30) {
				g.edits(0, r.R(0, 4))
				g.cycle(0)
			}
		}
		for i := 0; i < n; i++ {
			g.add("para", 0)
		}
		names := []string{"a", "b", "", "图片", "a 1", "AutoShape"}
		if r.P(50) {
			// names that are easily taken for each other
			l := Pick(r, []string{"a", "A", "ａ", "á", "a\u0301"},
				[]string{"a", " a", "a ", "a\t", "a\n", ""},
				[]string{"1", "01", "1.0", "+1", "１"},
				[]string{"a", "a1", "a 1", "a_1", "a\x001", "a/1"},
				[]string{longName + "1", longName + "2", longName, longName[:64], longName[:32]},
				[]string{"图片", "图", "圖片", "图片 ", "片图"},
				[]string{"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"}, // same Java hash
				[]string{"ab", "ba", "abc", "cab", "bca"},
				[]string{"costarring", "liquid", "declinate", "macallums", "altarage", "zinke"}, // FNV-1a pairs
				[]string{"plumless", "buckeroo"},                                                // CRC-32
				[]string{"\ufffd", "\ufeff", "\u200b", ""})
			names = append([]string(nil), l...)
			for i := range names {
				j := r.N(i + 1)
				names[i], names[j] = names[j], names[i]
			}
		}
		k := r.R(1, min(4, len(names)))
		pick := func() string { return names[r.N(k)] }
		for i := 0; i < n; i++ {
			var l []Op
			for m := r.R(1, 6); m > 0; m-- {
				if r.P(60) {
					l = append(l, Op{K: "incid", S: []string{pick()}})
				} else {
					o := g.editOf("shape", 0)
					o.S[0] = pick()
					l = append(l, o)
				}
			}
			g.task(l...)
		}
		g.sched()
	},
	"C12": func(g *gen) {
		r := g.r
		n := r.R(2, 4)
		g.start(0)
		for i := r.R(1, 2*n); i > 0; i-- {
			g.add("para", 0)
		}
		if r.P(60) {
			g.op(g.editOf("table", 0))
		}
		g.edits(0, r.R(0, 8))
		if r.P(25) {
			g.cycle(0)
		}
		for i := 0; i < 2; i++ {
			g.add("para", 0)
		}
		kinds := []string{"text", "text", "tab", "pagebreak", "shape", "shape", "jc", "style", "numpr", "numfont", "numsize", "fmt", "fmt", "fmt", "runtab", "size", "settext", "cellshade", "cellpara"}
		// often most callers do the same thing
		only, focus := Pick(r, kinds...), Pick(r, 0, 0, 30, 60, 85)
		var alike *Op
		if r.P(50) {
			o := g.editOf(only, 0)
			alike = &o
		}
		for i := 0; i < n; i++ {
			var l []Op
			g.prof = baseProfile
			for m := r.R(2, 14); m > 0; m-- {
				k := Pick(r, kinds...)
				if r.P(focus) {
					k = only
				}
				o := g.editOf(k, 0)
				if alike != nil && o.K == only && r.P(80) {
					o.V, o.S = alike.V, alike.S // the very same call
				}
				if o.K == "shape" && r.P(70) {
					o.S[0] = "same"
				}
				l = append(l, o)
			}
			if r.P(4) {
				for m := 0; m < 66; m++ {
					l = append(l, g.editOf("text", 0))
					l[len(l)-1].P = 0
				}
			}
			g.task(l...)
		}
		g.p.After = g.list(func() {
			if r.P(50) {
				f := g.file()
				g.save(0, f)
				g.op(Op{K: "crash"})
				g.op(Op{K: "open", D: 0, X: f})
				g.edits(0, r.R(0, 3))
			}
		})
		g.sched()
	},
	"C13": func(g *gen) {
		r := g.r
		g.start(0)
		g.op(Op{K: "para", D: 0})
		g.edits(0, r.R(0, 12))
		if r.P(20) {
			g.start(1)
			g.edits(1, 4)
			g.op(Op{K: "append", D: 0, X: 1})
		}
		if r.P(40) {
			g.cycle(0)
		}
		if r.P(10) {
			g.op(Op{K: "split", D: 0, X: 1, V: []int64{3, int64(r.U64()), 0, 2}})
			g.op(Op{K: "append", D: 0, X: 1})
		}
		n := r.R(2, 4)
		kinds := []string{"save", "save", "save", "print", "content", "split", "split", "range", "lookup", "append", "append"}
		only := Pick(r, kinds...)
		for i := 0; i < n; i++ {
			var l []Op
			for m := r.R(1, 3); m > 0; m-- {
				o := Op{K: Pick(r, kinds...)}
				if r.P(30) {
					o.K = only // the same call several times at once
				}
				switch o.K {
				case "save":
					o.V = []int64{int64(r.R(300, 14000))}
					if r.P(50) {
						o.F = []Fault{g.wFault()}
					}
				case "split":
					k := int64(r.W(20, 10, 30, 40))
					o.V = []int64{k, int64(r.U64()), int64(r.N(64))}
					if k == 2 {
						o.S = []string{Pick(r, "mark", "^$", "chapter|section", "a", ".*")}
					}
				case "range":
					o.V = []int64{int64(r.N(4))}
				case "append":
					o.V = []int64{int64(r.N(3)), int64(r.N(4))}
				}
				l = append(l, o)
			}
			g.task(l...)
		}
		g.sched()
	},
	"C14": func(g *gen) {
		r := g.r
		nf := r.R(0, 2)
		for i := 0; i < nf; i++ {
			g.op(Op{K: "foreign", X: 30 + i, V: []int64{int64(r.U64() >> 16), int64(r.R(0, 7))}})
		}
		n := r.R(2, 4)
		for i := 0; i < n; i++ {
			g.files, g.nfile, g.docs = nil, 0, nil
			g.mix = nil
			l := g.list(func() { g.independent(nf) })
			for k := range l {
				if l[k].K == "picfile" || l[k].K == "harm" && len(l[k].S) > 0 {
					l[k].S = []string{fmt.Sprintf("t%d/", i) + l[k].S[0]}
				}
				if l[k].K == "save" && len(l[k].F) > 0 {
					l[k].X += 40 // never opened: where a fault strikes decides what is left
				}
			}
			g.task(l...)
		}
		g.sched()
	},
}

// independent is what one of several independent callers does.
func (g *gen) independent(nf int) {
	r := g.r
	start := func(d int) {
		switch {
		case nf > 0 && r.P(45):
			g.op(Op{K: "open", D: d, X: 30 + r.N(nf)})
		case r.P(30):
			g.op(Op{K: "new", D: d, X: 100 + r.N(3), V: []int64{1}})
		default:
			g.start(d)
		}
		g.add("para", d)
	}
	start(0)
	g.edits(0, r.R(0, 6))
	nd := 1
	if r.P(35) {
		start(1)
		g.edits(1, r.R(0, 4))
		nd = 2
	}
	for n := r.R(1, 4); n > 0; n-- {
		d := r.N(nd)
		switch r.W(25, 25, 15, 12, 10, 8, 5) {
		case 0:
			g.edits(d, r.R(1, 4))
		case 1:
			g.cycle(d)
		case 2:
			g.op(Op{K: "append", D: d, X: r.N(nd)})
		case 3:
			g.op(Op{K: "split", D: d, X: 2, V: []int64{3, int64(r.U64()), 0, 2}})
			g.edits(2, 2)
			g.save(2, g.file())
		case 4:
			g.save(d, g.file(), g.saveFaults()...)
		case 5:
			g.op(Op{K: "print", D: d})
		case 6:
			o := g.picOp(d)
			o.K = "picfile"
			o.S = []string{picName(r.N(6))}
			if r.P(50) {
				o.F = []Fault{{T: Pick(r, "p.missing", "p.perm", "p.eio")}}
			}
			g.op(o)
		}
	}
	g.cycle(0)
}
