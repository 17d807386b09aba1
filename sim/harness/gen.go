package main

import (
	"path"
	"strconv"
)

// gen builds the plan of one run. Everything follows from the seed, the
// property and the number of the run.
type gen struct {
	r     *Rng
	p     *Plan
	uid   int64
	ntmpl int
	prof  profile
	mix   []string // the kinds of edits this run uses
	nfile int
	files []int // file slots that may hold a document
	docs  []int

	lastPic []int64 // the picture that others may resemble
	huge    int     // how many of a thousand pictures are large
}

// profile weighs the kinds of edits.
type profile map[string]int

var baseProfile = profile{
	"para": 14, "text": 22, "tab": 3, "pagebreak": 3, "link": 10, "pic": 8, "picfile": 3, "shape": 6,
	"jc": 3, "style": 3, "numpr": 2, "numfont": 2, "numsize": 2, "sect": 2, "table": 4, "tabletwips": 2,
	"tbljc": 1, "rowjc": 1, "cellshade": 2, "cellpara": 6, "fmt": 12, "runtab": 2, "size": 2, "settext": 3, "incid": 1,
}

func (b profile) with(kv ...any) profile {
	n := profile{}
	for k, v := range b {
		n[k] = v
	}
	for i := 0; i < len(kv); i += 2 {
		n[kv[i].(string)] = kv[i+1].(int)
	}
	return n
}

func newGen(prop string, seed, index uint64) *gen {
	r := NewRng(seed, index, hashString(prop))
	g := &gen{r: r, p: &Plan{Prop: prop, Seed: r.U64(), Index: index, MapSeed: r.U64()}, prof: baseProfile, ntmpl: r.R(1, 3)}
	g.uid = int64(index)<<24 | int64(r.N(1<<20))<<4
	return g
}

func (g *gen) op(o Op) { g.p.Ops = append(g.p.Ops, o) }

func (g *gen) add(k string, d int) { g.op(Op{K: k, D: d}) }

// swarm leaves some kinds of edits out of a run, so that the others meet more
// often.
func (g *gen) swarm() {
	g.mix = g.mix[:0]
	for _, k := range sortedKeys(g.prof) {
		if g.r.P(75) {
			for i := 0; i < g.prof[k]; i++ {
				g.mix = append(g.mix, k)
			}
		}
	}
	if len(g.mix) == 0 {
		g.mix = []string{"para", "text", "link", "pic"}
	}
}

func (g *gen) picOp(d int) Op {
	r := g.r
	g.uid++
	uid := g.uid
	if r.P(6) && uid > 1 {
		uid-- // the very same image once more
	}
	extra := r.Log(200)
	if r.P(6) {
		extra = r.Log(40000)
	}
	if g.huge > 0 && r.N(1000) < g.huge {
		// as large as photographs are
		g.huge = 0
		n := Pick(r, 1<<16, 1<<17, 1<<20, 1<<20, 1<<21, 1<<22, 5<<20) + r.R(-100, 5000)
		return Op{K: "pic", D: d, P: r.N(1000), V: []int64{int64(r.N(4)), int64(r.R(1, 900)), int64(r.R(1, 900)), uid, int64(n), int64(r.N(2))}}
	}
	if g.lastPic != nil && r.P(25) {
		// another image that looks much like an earlier one
		v := append([]int64(nil), g.lastPic...)
		v[3], v[5] = uid, int64(r.N(2))
		return Op{K: "pic", D: d, P: r.N(1000), V: v}
	}
	if r.P(30) {
		extra |= r.R(1, 3)<<32 | int(g.uid&0xffff)<<40
	}
	o := Op{K: "pic", D: d, P: r.N(1000), V: []int64{int64(r.N(4)), int64(r.R(1, 900)), int64(r.R(1, 900)), uid, int64(extra), int64(r.N(2))}}
	if r.P(40) {
		g.lastPic = o.V
	}
	return o
}

func (g *gen) color() string { return Pick(g.r, "auto", "FF0000", "00ff00", "112233", "") }

// edit makes one editing step.
func (g *gen) edit(d int) Op {
	if len(g.mix) == 0 {
		g.swarm()
	}
	return g.editOf(Pick(g.r, g.mix...), d)
}

func (g *gen) editOf(k string, d int) Op {
	r := g.r
	o := Op{K: k, D: d, P: r.N(1000), C: r.N(1000)}
	if r.P(40) {
		o.P = 999983 - r.N(3) // rather late paragraphs, modulo what exists
	}
	switch k {
	case "text", "settext":
		t := randText(r)
		switch r.W(70, 6, 6, 6, 6, 6) {
		case 1:
			t = "\t"
		case 2:
			t = "a\tb\t\tc"
		case 3:
			t = "one\ntwo\n\nthree\n"
		case 4:
			t = "\t" + t + "\n\t"
		case 5:
			t = ""
		}
		if k == "settext" && t == "" {
			t = "set"
		}
		o.S = []string{t}
	case "link":
		o.S = []string{Pick(r, textPool...), randLink(r)}
		if r.P(5) {
			o.S[0] = ""
		}
	case "pic":
		return g.picOp(d)
	case "picfile":
		o = g.picOp(d)
		o.K = "picfile"
		o.S = []string{picName(r.N(6))}
	case "shape":
		o.V = []int64{int64(r.R(1, 9000000)), int64(r.R(1, 9000000)), int64(r.N(2)), 0}
		if r.P(60) {
			o.V[3] = int64(r.R(1, 20000))
		}
		o.S = []string{Pick(r, "AutoShape", "Rect", "图片", "形", ""), Pick(r, "rect", "ellipse", "straightConnector1")}
	case "jc":
		o.S = []string{Pick(r, "start", "center", "end", "both", "distribute")}
	case "style":
		o.S = []string{Pick(r, "1", "2", "Heading1", "a3")}
	case "numpr":
		o.S = []string{strconv.Itoa(r.R(1, 9)), strconv.Itoa(r.N(5))}
	case "numfont":
		o.S = []string{Pick(r, "Arial", "Consolas"), Pick(r, "", "宋体")}
	case "numsize":
		o.S = []string{strconv.Itoa(r.R(1, 99))}
	case "sect":
		o.V = []int64{int64(r.N(2))}
	case "table":
		o.V = []int64{int64(r.R(1, 4)), int64(r.R(1, 4)), int64(r.N(2) * r.N(9000))}
		if r.P(3) {
			o.V[0], o.V[1] = int64(r.R(60, 75)), int64(r.R(1, 2))
		}
		if r.P(30) {
			o.S = []string{g.color(), g.color()}
		}
	case "tabletwips":
		o.V = []int64{int64(r.R(1, 4)), int64(r.R(1, 4)), int64(r.N(2) * r.N(9000)), int64(r.N(400)), int64(r.R(1, 3000))}
	case "tbljc", "rowjc":
		o.V = []int64{int64(r.N(50))}
		o.S = []string{Pick(r, "center", "start", "end")}
	case "cellshade":
		o.V = []int64{int64(r.N(50))}
		o.S = []string{"clear", g.color(), "E7E6E6"}
	case "cellpara":
		o.V = []int64{int64(r.N(50))}
	case "fmt":
		a, b := randFmt1(r)
		if a == "b" || a == "i" {
			b = "" // there is no call that turns them off
		}
		o.S = []string{a, b}
	case "size":
		o.V = []int64{int64(r.R(1, 999999)), int64(r.R(1, 999999))}
	case "incid":
		o.S = []string{Pick(r, "a", "b", "图片", "")}
	}
	return o
}

// build starts a document and fills it.
func (g *gen) build(d int) {
	g.start(d)
	g.fill(d)
}

// start makes a document that is new or comes from elsewhere.
func (g *gen) start(d int) {
	r := g.r
	if r.P(35) {
		g.fromForeign(d)
		return
	}
	switch r.W(50, 40, 10) {
	case 0:
		g.op(Op{K: "new", D: d, V: []int64{0}})
	case 1:
		g.op(Op{K: "new", D: d, X: r.N(g.ntmpl), V: []int64{1}})
	default:
		g.op(Op{K: "new", D: d, V: []int64{2}})
	}
	g.docs = append(g.docs, d)
}

func (g *gen) file() int {
	g.nfile++
	f := g.nfile % 40
	g.files = append(g.files, f)
	return f
}

func (g *gen) fromForeign(d int) int {
	f := g.file()
	size := g.r.R(0, 8)
	if g.r.P(4) {
		size = g.r.R(30, 140)
	}
	g.op(Op{K: "foreign", X: f, V: []int64{int64(g.r.U64() >> 16), int64(size)}})
	g.op(Op{K: "open", D: d, X: f})
	g.docs = append(g.docs, d)
	return f
}

// fill edits a document a while.
func (g *gen) fill(d int) {
	r := g.r
	g.op(Op{K: "para", D: d})
	n := r.R(0, 14)
	if r.P(15) {
		n = r.R(15, 60)
	}
	g.edits(d, n)
	if r.P(5) {
		g.burst(d)
	}
}

// burst repeats one kind of edit often enough to outgrow every initial
// capacity.
func (g *gen) burst(d int) {
	r := g.r
	k := Pick(r, "text", "link", "pic", "para", "runtab", "shape", "cellpara", "tab")
	n := r.R(60, 75)
	if r.P(20) {
		n = r.R(120, 140)
	}
	p := r.N(1000)
	for i := 0; i < n; i++ {
		o := g.editOf(k, d)
		o.P, o.C = p, p
		g.op(o)
	}
}

func (g *gen) edits(d, n int) {
	for i := 0; i < n; i++ {
		g.op(g.edit(d))
	}
}

// offset picks where in the destination a fault strikes.
func (g *gen) offset(f *Fault) {
	r := g.r
	switch r.W(50, 20, 15, 15) {
	case 0:
		f.Rel, f.At = true, int64(r.N(1000000))
	case 1: // near the end: the directory
		f.Rel, f.At = true, 1000000-int64(r.Log(120000))
	case 2: // the very beginning
		f.At = int64(r.Log(80))
	default: // around a multiple of a buffer size
		f.At = int64(r.R(0, 12))*4096 + int64(r.R(-2, 2))
		if f.At < 0 {
			f.At = 0
		}
	}
}

func (g *gen) wFault() Fault {
	f := Fault{T: Pick(g.r, "w.err", "w.err", "w.once", "w.full", "w.short", "w.zero")}
	g.offset(&f)
	f.E = g.errKind()
	return f
}

func (g *gen) errKind() int {
	if g.r.P(50) {
		return 0
	}
	return g.r.N(len(errKinds))
}

func (g *gen) tFault() Fault {
	r := g.r
	f := Fault{T: Pick(r, "t.open", "t.read", "t.once", "t.stat"), I: r.N(24), E: g.errKind()}
	if f.T == "t.read" || f.T == "t.once" {
		f.N = int64(r.Log(150000))
	}
	return f
}

func (g *gen) sFault() Fault {
	r := g.r
	switch r.N(4) {
	case 0:
		return Fault{T: "s.err", At: int64(r.R(1, 14)), E: g.errKind()}
	case 1, 2:
		return Fault{T: "s.once", At: int64(r.R(1, 20)), E: g.errKind()}
	}
	return Fault{T: "s.trunc", Rel: true, At: int64(r.N(1000000))}
}

// dFault is a fault of the disk the command line tool works on.
func (g *gen) dFault(mode int64) Fault {
	r := g.r
	if mode&toolA == 0 && r.P(25) {
		return Fault{T: Pick(r, "p.missing", "p.perm", "p.eio", "p.eioall"), At: int64(r.N(600)), E: g.errKind()}
	}
	f := Fault{T: Pick(r, "d.create", "d.write", "d.write", "d.write", "d.once", "d.lose", "d.lose", "d.lose", "d.sync", "d.open", "d.stat", "d.read", "d.read", "d.readonce", "d.trunc", "d.rename", "d.dir", "d.crash"), E: g.errKind()}
	f.I = r.W(40, 30, 20, 10)
	f.N = int64(r.Log(3000))
	switch f.T {
	case "d.open", "d.stat":
		f.I = r.W(80, 15, 5)
	case "d.read", "d.readonce":
		f.At = int64(1 + r.Log(120))
	case "d.write", "d.once", "d.crash", "d.trunc":
		g.offset(&f)
	}
	return f
}

func (g *gen) legalFault() Fault {
	r := g.r
	switch r.N(4) {
	case 3:
		return Fault{T: "t.close", I: r.N(24), E: g.errKind()}
	case 0:
		return Fault{T: "t.short", N: int64(Pick(r, 1, 3, 511, 512, 1000, 4096))}
	case 1:
		return Fault{T: "t.zero"}
	}
	return Fault{T: "t.eof"}
}

// faults of one save
func (g *gen) saveFaults() (l []Fault) {
	r := g.r
	switch r.W(20, 40, 18, 14, 8) {
	case 1:
		l = append(l, g.wFault())
	case 2:
		l = append(l, g.tFault())
	case 3:
		l = append(l, g.sFault())
	case 4:
		l = append(l, g.wFault(), g.tFault(), g.sFault())
	}
	if r.P(15) {
		l = append(l, g.legalFault())
	}
	return
}

func (g *gen) save(d, x int, l ...Fault) { g.op(Op{K: "save", D: d, X: x, F: l}) }

func (g *gen) storedFault() Fault {
	r := g.r
	switch r.W(45, 20, 10, 10, 15) {
	case 0:
		return Fault{T: "s.flip", I: r.N(200), At: int64(r.U64() >> 33), N: int64(r.N(8))}
	case 1:
		return Fault{T: "s.sector", I: r.N(200), At: int64(r.U64() >> 33)}
	case 2:
		return Fault{T: "s.err", At: int64(r.R(1, 40)), E: g.errKind()}
	case 3:
		return Fault{T: "s.trunc", Rel: true, At: int64(r.N(1000000))}
	}
	return Fault{T: "s.once", At: int64(r.R(1, 40)), E: g.errKind()}
}

// cycle saves, maybe loses the process, reopens.
func (g *gen) cycle(d int) {
	f := g.file()
	g.save(d, f)
	switch g.r.N(3) {
	case 0:
		g.op(Op{K: "crash"})
	case 1:
		g.op(Op{K: "drop", D: d})
	}
	g.op(Op{K: "open", D: d, X: f})
}

var seqGens = map[string]func(g *gen){
	"C01": func(g *gen) {
		r := g.r
		g.huge = 3
		g.build(0)
		for n := r.R(1, 4); n > 0; n-- {
			f := g.file()
			g.save(0, f, g.saveFaults()...)
			if r.P(40) {
				g.edits(0, r.R(1, 4))
			}
			if r.P(25) {
				g.save(0, f)
				g.op(Op{K: "open", D: 0, X: f})
			}
			if r.P(10) {
				g.op(Op{K: "split", D: 0, X: 1, V: []int64{3, int64(r.U64()), 0, 2}})
				g.save(1, g.file(), g.saveFaults()...)
			}
			if r.P(6) {
				g.op(Op{K: "usetmpl", D: 0, X: r.N(g.ntmpl)})
			}
		}
	},
	"C02": func(g *gen) {
		r := g.r
		g.build(0)
		for n := r.R(1, 3); n > 0; n-- {
			f := g.file()
			var l []Fault
			switch r.W(40, 40, 20) {
			case 0:
				c := Fault{T: "w.crash"}
				g.offset(&c)
				l = append(l, c)
			case 1:
				l = g.saveFaults()
			}
			g.save(0, f, l...)
			g.op(Op{K: "open", D: 2, X: f})
			g.op(Op{K: "prefix", X: f, V: []int64{int64(r.R(10, 150)), int64(r.N(1 << 30))}})
			if r.P(50) {
				g.edits(0, r.R(1, 4))
			}
		}
		if r.P(40) {
			f := g.file()
			g.build(1)
			g.save(1, f)
			g.op(Op{K: "prefix", X: f, V: []int64{int64(r.R(100, 1500)), int64(r.N(1 << 30))}})
		}
	},
	"C03": func(g *gen) {
		r := g.r
		g.build(0)
		for n := r.R(1, 3); n > 0; n-- {
			for k := r.R(1, 4); k > 0; k-- {
				g.save(0, scratchSlot+r.N(5), g.saveFaults()...)
				if r.P(30) {
					g.op(Op{K: "print", D: 0})
				}
			}
			if r.P(60) {
				g.op(Op{K: "twinsave", D: 0})
			}
			g.edits(0, r.R(0, 5))
			if r.P(20) {
				g.cycle(0)
			}
			if r.P(10) {
				g.start(1)
				g.edits(1, 5)
				g.op(Op{K: "append", D: 0, X: 1})
			}
		}
		g.op(Op{K: "twinsave", D: 0})
	},
	"C04": func(g *gen) {
		r := g.r
		if r.P(30) {
			// the exported types
			g.start(0)
			if r.P(40) {
				g.fill(0)
			}
			for n := r.R(1, 4); n > 0; n-- {
				g.op(Op{K: "struct", D: 0, V: []int64{int64(r.U64() >> 16), int64(r.W(60, 30, 10))}})
			}
			g.cycle(0)
			g.cycle(0)
			return
		}
		g.build(0)
		if r.P(30) {
			g.build(1)
		}
		for n := r.R(1, 4); n > 0; n-- {
			d := r.N(2)
			g.cycle(d)
			g.edits(d, r.Log(14))
			if r.P(15) {
				g.op(Op{K: "append", D: 0, X: 1})
			}
			if r.P(10) {
				g.op(Op{K: "split", D: 0, X: 1, V: []int64{3, int64(r.U64()), 0, 3}})
			}
		}
		g.cycle(0)
		g.cycle(1)
	},
	"C05": func(g *gen) {
		r := g.r
		f := g.fromForeign(0)
		if r.P(20) {
			g.build(0)
			f = g.file()
			g.save(0, f)
			g.op(Op{K: "open", D: 0, X: f})
		}
		for n := r.R(1, 5); n > 0; n-- {
			g.edits(0, r.R(0, 4))
			switch r.W(30, 30, 25, 15) {
			case 0:
				g.cycle(0)
			case 1:
				x := g.file()
				g.save(0, x, g.sFault())
				if r.P(50) {
					g.save(0, x)
				}
			case 2: // damaged at rest, then opened, then saved again
				x := g.file()
				g.save(0, x)
				g.op(Op{K: "open", D: 1, X: x, F: []Fault{{T: Pick(r, "s.flip", "s.sector"), I: r.N(200), At: int64(r.U64() >> 33), N: int64(r.N(8))}}})
				g.save(1, g.file())
				g.edits(1, 2)
				g.save(1, g.file(), g.saveFaults()...)
			case 3:
				g.op(Op{K: "split", D: 0, X: 2, V: []int64{3, int64(r.U64()), 0, 2}})
				g.save(2, g.file(), g.saveFaults()...)
				g.cycle(2)
			}
		}
		_ = f
		g.cycle(0)
	},
	"C06": func(g *gen) {
		r := g.r
		f := 0
		if r.P(50) {
			f = g.fromForeign(0)
			g.edits(0, r.R(0, 3))
		} else {
			g.build(0)
			f = g.file()
			g.save(0, f)
		}
		for n := r.R(2, 9); n > 0; n-- {
			switch r.W(70, 15, 15) {
			case 0:
				l := []Fault{g.storedFault()}
				if r.P(15) {
					l = append(l, g.storedFault())
				}
				g.op(Op{K: "open", D: 3, X: f, F: l})
				if r.P(20) {
					g.edits(3, 2)
					g.save(3, g.file(), g.saveFaults()...)
				}
			case 1: // torn overwrite
				g.edits(0, r.R(0, 3))
				x := Fault{T: Pick(r, "w.err", "w.full", "w.once")}
				g.offset(&x)
				g.save(0, f+40)
				g.op(Op{K: "save", D: 0, X: f + 40, V: []int64{0}})
				g.edits(0, r.R(0, 3))
				g.op(Op{K: "save", D: 0, X: f + 40, V: []int64{1}, F: []Fault{x}})
				g.op(Op{K: "open", D: 4, X: f + 40})
				g.save(4, g.file())
			case 2:
				g.op(Op{K: "mangle", X: f, V: []int64{int64(r.U64() >> 16), int64(r.R(1, 4))}})
			}
		}
	},
	"C07": func(g *gen) {
		g.prof = baseProfile.with("pic", 45, "picfile", 12, "text", 8, "link", 6, "fmt", 3)
		g.huge = 1
		history(g)
	},
	"C22": func(g *gen) {
		g.prof = baseProfile.with("pic", 40, "picfile", 8, "text", 6, "link", 4, "fmt", 3)
		history(g)
	},
	"C23": func(g *gen) {
		g.prof = baseProfile.with("link", 25, "pic", 20, "shape", 8, "text", 8, "fmt", 3)
		history(g)
		r := g.r
		if r.P(30) {
			g.op(Op{K: "split", D: 0, X: 10, V: []int64{int64(r.W(20, 0, 0, 80)), int64(r.U64()), 0, 3}})
			g.pieces()
		}
		if r.P(15) {
			if r.P(50) {
				g.merge(0)
			}
			g.filter(0)
			g.cycle(0)
		}
	},
	"C08": func(g *gen) {
		g.prof = baseProfile.with("link", 50, "pic", 25, "fmt", 3)
		history(g)
	},
	"C09": func(g *gen) {
		g.prof = baseProfile.with("pic", 25, "picfile", 5, "shape", 40, "fmt", 3)
		history(g)
	},
	"C19": func(g *gen) {
		r := g.r
		var fs []int
		for n := r.R(1, 2); n > 0; n-- {
			if r.P(60) {
				fs = append(fs, g.fromForeign(0))
				continue
			}
			g.build(0)
			f := g.file()
			g.save(0, f)
			fs = append(fs, f)
		}
		locs := []string{"new-file.docx", "in.docx", "d/in.docx", "./in.docx", "/abs/dir/x.y.docx", "/root.docx", "noext", "v1.2/noext", ".docx"}
		var done []string
		for n := r.R(1, 6); n > 0; n-- {
			o := Op{K: "tool", V: []int64{0, 0, 0}, S: []string{"", ""}}
			mode := int64(toolA)
			if r.P(12) {
				mode = 0
			}
			if r.P(15) {
				mode |= toolC
			}
			if r.P(15) {
				mode |= toolP
			}
			if r.P(60) {
				mode |= toolU
			}
			if r.P(45) {
				o.S[1] = Pick(r, "mark", "^$", "chapter|section", "a", ".*", "\\d", "^[^a]")
			}
			if r.P(45) {
				o.V[1] = int64(r.R(0, 4))
			}
			o.V[0] = mode
			if len(done) > 0 && r.P(40) {
				o.S[0] = Pick(r, done...) // again, or what was written before
			} else {
				o.S[0], o.V[2], o.X = Pick(r, locs[:r.R(1, len(locs))]...), 1, Pick(r, fs...)
				dir, base := path.Split(o.S[0])
				done = append(done, o.S[0], dir+"unmarshal_"+base, dir+"dup_"+base)
			}
			if r.P(70) {
				o.F = append(o.F, g.dFault(mode))
			}
			if r.P(10) {
				o.F = append(o.F, g.dFault(mode))
			}
			g.op(o)
		}
	},
	"C10": func(g *gen) {
		r := g.r
		g.op(Op{K: "new", D: 0, X: r.N(g.ntmpl), V: []int64{1}})
		g.fill(0)
		for n := r.R(1, 6); n > 0; n-- {
			l := g.saveFaults()
			if r.P(50) {
				l = append(l, g.tFault())
			}
			if r.P(30) {
				l = append(l, g.legalFault())
			}
			g.save(0, g.file(), l...)
			if r.P(20) {
				g.edits(0, 2)
			}
			if r.P(15) {
				g.op(Op{K: "usetmpl", D: 0, X: r.N(g.ntmpl)})
			}
			if r.P(15) {
				g.op(Op{K: "split", D: 0, X: 1, V: []int64{3, int64(r.U64()), 0, 2}})
				g.save(1, g.file(), g.saveFaults()...)
			}
		}
	},
	"C15": func(g *gen) {
		r := g.r
		g.prof = baseProfile.with("pic", 20, "picfile", 10)
		g.huge = 4
		g.build(0)
		for n := r.R(2, 9); n > 0; n-- {
			switch r.W(45, 35, 20) {
			case 0:
				o := g.editOf("picfile", 0)
				o.F = []Fault{{T: Pick(r, "p.missing", "p.perm", "p.eio", "p.eio", "p.eioall"), At: int64(r.Log(4000)), E: g.errKind()}}
				g.op(o)
			case 1:
				o := g.picOp(0)
				o.K = "harm"
				o.V = append(o.V, int64(r.N(5)), int64(r.Log(80)), int64(r.R(1, 60)))
				if r.P(40) {
					o.S = []string{picName(r.N(6))}
				}
				g.op(o)
			default:
				g.op(g.editOf("picfile", 0))
			}
			if r.P(30) {
				g.edits(0, 2)
			}
			if r.P(10) {
				g.cycle(0)
			}
		}
		if r.P(50) {
			g.cycle(0)
		}
	},
	"C16": func(g *gen) {
		r := g.r
		g.build(0)
		if r.P(30) {
			g.edits(0, r.R(10, 30))
		}
		if r.P(30) {
			g.cycle(0)
		}
		for n := r.R(1, 2); n > 0; n-- {
			k := int64(r.W(20, 8, 27, 35, 10))
			o := Op{K: "split", D: 0, X: 10, V: []int64{k, int64(r.U64()), int64(r.N(6)), int64(r.R(3, 6))}}
			if k == 2 {
				o.S = []string{g.regex()}
			}
			g.op(o)
			g.pieces()
		}
	},
	"C17": func(g *gen) {
		r := g.r
		nd := r.R(2, 3)
		for d := 0; d < nd; d++ {
			g.build(d)
		}
		for n := r.R(2, 10); n > 0; n-- {
			d := r.N(nd)
			if r.P(25) {
				g.innards(r.N(nd))
			}
			switch r.W(40, 30, 15, 10, 5) {
			case 0:
				o := Op{K: "append", D: d, X: r.N(nd)}
				if r.P(10) {
					o.X = d
				}
				g.op(o)
				if o.X == d && r.P(60) {
					g.innards(d)
				}
			case 1:
				g.edits(d, r.R(1, 4))
			case 2:
				g.cycle(d)
			case 3:
				g.save(d, g.file(), g.saveFaults()...)
			case 4:
				g.op(Op{K: "drop", D: d})
				g.start(d)
				g.edits(d, 4)
			}
		}
		for d := 0; d < nd; d++ {
			if r.P(50) {
				g.cycle(d)
				g.edits(d, 2)
			}
		}
	},
	"C20": func(g *gen) {
		r := g.r
		g.prof = baseProfile.with("text", 40, "fmt", 20, "para", 6, "link", 6, "tab", 5)
		for n := r.R(1, 2); n > 0; n-- {
			g.build(n - 1)
		}
		for n := r.R(2, 9); n > 0; n-- {
			switch r.W(55, 20, 10, 8, 7) {
			case 0:
				g.merge(0)
			case 1:
				g.edits(0, r.R(1, 6))
			case 2:
				g.cycle(0)
			case 3:
				g.op(Op{K: "append", D: 0, X: r.N(2)})
			case 4:
				g.op(Op{K: "split", D: 0, X: 2, V: []int64{3, int64(r.U64()), 0, 2}})
				g.merge(2)
			}
		}
		if r.P(50) {
			g.cycle(0)
			g.merge(0)
		}
	},
	"C21": func(g *gen) {
		r := g.r
		g.prof = baseProfile.with("shape", 14, "pic", 12, "tab", 6, "pagebreak", 5)
		for n := r.R(1, 2); n > 0; n-- {
			g.build(n - 1)
			if r.P(12) {
				g.op(Op{K: "struct", D: n - 1, V: []int64{int64(r.U64() >> 16), int64(r.W(60, 30, 10))}})
				if r.P(30) {
					g.filter(n - 1)
				}
				g.cycle(n - 1) // only then everything knows its document
			}
		}
		for n := r.R(1, 7); n > 0; n-- {
			switch r.W(55, 20, 10, 8, 7) {
			case 0:
				g.filter(0)
			case 1:
				g.edits(0, r.R(1, 6))
			case 2:
				g.cycle(0)
			case 3:
				g.op(Op{K: "append", D: 0, X: r.N(2)})
			case 4:
				g.op(Op{K: "split", D: 0, X: 2, V: []int64{3, int64(r.U64()), 0, 2}})
				g.filter(2)
			}
		}
		if r.P(50) {
			g.cycle(0)
			g.filter(0)
		}
	},
	"C24": func(g *gen) {
		r := g.r
		var f int
		if r.P(60) {
			f = g.fromForeign(0)
		} else {
			g.build(0)
			if r.P(30) {
				g.op(Op{K: "struct", D: 0, V: []int64{int64(r.U64() >> 16), int64(r.W(60, 30, 10))}})
			}
			f = g.file()
			g.save(0, f)
		}
		for n := r.R(1, 3); n > 0; n-- {
			g.op(Op{K: "rexml", X: f, V: []int64{int64(r.U64() >> 16)}})
		}
	},
	"C25": func(g *gen) {
		r := g.r
		g.prof = baseProfile.with("text", 30, "link", 15, "para", 12, "settext", 8, "table", 4, "pagebreak", 4)
		show := func(d int) {
			if r.P(70) {
				g.add("print", d)
			}
		}
		if r.P(35) {
			g.fromForeign(0)
		} else {
			g.build(0)
		}
		if r.P(25) {
			g.build(1)
		}
		show(0)
		for n := r.R(1, 6); n > 0; n-- {
			d := 0
			if r.P(20) {
				d = r.N(4)
			}
			switch r.W(30, 22, 25, 10, 5, 5, 3) {
			case 0:
				g.edits(d, r.R(1, 8))
			case 1:
				g.cycle(d)
			case 2:
				g.op(Op{K: "split", D: d, X: 10, V: []int64{2, 0, 0, int64(r.R(2, 5))}, S: []string{g.regex()}})
				for k := 0; k < 3; k++ {
					show(10 + k)
				}
				if r.P(50) {
					g.cycle(10 + r.N(3))
					show(10)
					show(11)
				}
			case 3:
				g.op(Op{K: "append", D: d, X: r.N(2)})
			case 4:
				g.merge(d)
			case 5:
				g.filter(d)
			case 6:
				g.op(Op{K: "loaditems", D: 3, X: d, V: []int64{0, 0}})
				show(3)
			}
			show(d)
		}
	},
	"C18": func(g *gen) {
		r := g.r
		if r.P(60) {
			f := g.fromForeign(0)
			for n := r.R(1, 3); n > 0; n-- {
				g.op(Op{K: "repack", X: f, V: []int64{int64(r.U64() >> 16)}})
			}
			return
		}
		g.build(0)
		if r.P(40) {
			g.build(1)
			g.op(Op{K: "append", D: 0, X: 1})
		}
		f := g.file()
		g.save(0, f)
		for n := r.R(1, 3); n > 0; n-- {
			g.op(Op{K: "repack", X: f, V: []int64{int64(r.U64() >> 16)}})
		}
	},
}

func (g *gen) merge(d int) {
	r := g.r
	o := Op{K: "merge", D: d, P: r.N(1000), V: []int64{int64(r.W(40, 30, 5, 25)), int64(r.N(2))}}
	if o.V[0] == 3 {
		for _, s := range []string{"Color", "Size", "Bold", "Italic", "Underline", "Highlight", "Strike", "Fonts", "Shade"} {
			if r.P(35) {
				o.S = append(o.S, s)
			}
		}
	}
	if o.V[1] == 1 && r.P(40) {
		o.F = g.saveFaults()
	}
	g.op(o)
}

func (g *gen) filter(d int) {
	r := g.r
	o := Op{K: "filter", D: d, P: r.N(1000), C: r.N(1000), V: []int64{int64(r.W(12, 35, 15, 20, 18))}}
	some := func(p int, l ...string) {
		for _, s := range l {
			if r.P(p) {
				o.S = append(o.S, s)
			}
		}
		if r.P(10) {
			o.S = append(o.S, "*docx.Nothing")
		}
		r.Shuffle(len(o.S), func(i, j int) { o.S[i], o.S[j] = o.S[j], o.S[i] })
	}
	switch o.V[0] {
	case 0:
		some(75, "*docx.Paragraph", "*docx.Table", "*docx.SectPr")
	case 1, 3:
		o.S = []string{Pick(r, "Canvas", "Shape", "Group", "ShapeAndCanvas", "ShapeAndCanvasAndGroup", "NilPicture")}
		if o.V[0] == 1 && r.P(5) {
			o.S[0] = Pick(r, "", "Nothing", "shape")
		}
	case 2:
		some(60, "*docx.Run", "*docx.Hyperlink", "*docx.RunProperties")
	case 4:
		some(60, "*docx.Text", "*docx.Drawing", "*docx.Tab", "*docx.BarterRabbet")
	}
	if r.P(40) {
		o.F = g.saveFaults()
	}
	g.op(o)
}

// innards makes a change deep inside of a document.
func (g *gen) innards(d int) {
	r := g.r
	o := Op{K: "innards", D: d, C: r.N(1000), V: []int64{int64(r.W(40, 28, 12, 20)), int64(r.R(1, 99999))}, S: []string{randText(r)}}
	if o.V[0] == 1 {
		o.S[0] = Pick(r, "rect", "ellipse", "star5")
	}
	g.op(o)
}

// pieces saves, fails to save, edits, loses and reopens what a split gave.
func (g *gen) pieces() {
	r := g.r
	if r.P(25) {
		g.op(Op{K: "drop", D: 0})
	}
	for i := 0; i < 5; i++ {
		d := 10 + i
		if r.P(30) {
			g.edits(d, r.R(1, 4))
		}
		if r.P(30) {
			g.innards(Pick(r, d, 0))
		}
		if r.P(20) {
			g.save(d, g.file(), g.saveFaults()...)
		}
		if r.P(30) {
			g.edits(0, 1)
		}
	}
	// save all, lose everything, open all
	fs := map[int]int{}
	for i := 0; i < 5; i++ {
		fs[i] = g.file()
		g.save(10+i, fs[i])
	}
	f0 := g.file()
	g.save(0, f0)
	if r.P(70) {
		g.op(Op{K: "crash"})
	}
	for i := 0; i < 5; i++ {
		g.op(Op{K: "open", D: 10 + i, X: fs[i]})
	}
	g.op(Op{K: "open", D: 0, X: f0})
}

// history mixes everything that touches the tables of a document.
func history(g *gen) {
	r := g.r
	nd := r.R(1, 3)
	for d := 0; d < nd; d++ {
		g.build(d)
	}
	for n := r.R(2, 12); n > 0; n-- {
		d := r.N(nd)
		switch r.W(35, 25, 15, 8, 8, 9) {
		case 0:
			g.edits(d, r.R(1, 6))
		case 1:
			g.cycle(d)
		case 2:
			g.op(Op{K: "append", D: d, X: r.N(nd)})
		case 3:
			g.op(Op{K: "split", D: d, X: r.N(4), V: []int64{3, int64(r.U64()), 0, 2}})
		case 4:
			o := Op{K: "loaditems", D: r.N(4), X: d, V: []int64{int64(r.N(2)), int64(r.N(g.ntmpl))}}
			if r.P(50) {
				sib := r.N(4)
				o.V = append(o.V, 1+int64(sib), int64(r.N(8)))
				g.op(o)
				g.edits(o.D, r.R(1, 3))
				g.edits(sib, r.R(1, 3))
				break
			}
			g.op(o)
		case 5:
			g.save(d, g.file(), g.saveFaults()...)
		}
	}
	for d := 0; d < nd; d++ {
		if r.P(60) {
			g.cycle(d)
			g.edits(d, 2)
		}
	}
}

// regex is what a document is split by.
func (g *gen) regex() string {
	return Pick(g.r, "mark", "^$", "chapter|section", "a", "[0-9]", "雨", ".*", "^a", "[a-z]$", `\t`, `\n`, `\]\(`, "http", "!\\[", "^ ", `(?m)^[A-Z]`, "^.{0,4}$", "é|ß|&")
}

// odd opens packages that make no sense, the ones that open are stored in other
// ways.
func (g *gen) odd(repack bool) {
	r := g.r
	f := g.file()
	if r.P(65) {
		g.op(Op{K: "foreign", X: f, V: []int64{int64(r.U64() >> 16), int64(r.R(0, 8))}})
	} else {
		g.start(0)
		if r.P(60) {
			g.fill(0)
		}
		if r.P(40) {
			g.op(Op{K: "struct", D: 0, V: []int64{int64(r.U64() >> 16), int64(r.W(60, 30, 10))}})
		}
		g.save(0, f)
		g.op(Op{K: "drop", D: 0})
	}
	for n := r.R(1, 6); n > 0; n-- {
		o := Op{K: "mangle", X: f, V: []int64{int64(r.U64() >> 16), int64(r.W(10, 40, 20, 15, 10, 5)), 0}}
		if repack {
			o.V[2] = 1
		}
		g.op(o)
		if repack {
			g.op(Op{K: "repack", X: f + mangledSlot, V: []int64{int64(r.U64() >> 16)}})
		}
	}
}

// makePlan builds the plan of run index.
func makePlan(prop string, seed, index uint64) *Plan {
	g := newGen(prop, seed, index)
	if f, ok := seqGens[prop]; ok {
		switch prop {
		case "C03", "C04", "C05", "C16", "C17", "C18":
			if g.r.P(12) {
				g.odd(prop == "C18")
				return g.p
			}
		}
		f(g)
		return g.p
	}
	if f, ok := concGens[prop]; ok {
		f(g)
		return g.p
	}
	return nil
}
