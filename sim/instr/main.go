// Command instr writes an instrumented copy of the library's source files and
// the go build overlay that puts it in place of the originals. The sources in
// the repository are never touched.
//
// What it changes, and nothing else:
//   - a yield point before every statement (simulated scheduling, step budget)
//   - package sync and sync/atomic are replaced by the simulated ones
//   - io.Pipe becomes a simulated one
//   - os.ReadFile goes through the simulator's file seam
//   - range over a map visits the entries in the simulator's order
//   - a go statement starts a simulated task
//   - package variables can be brought back to what a new process has
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	Export     string
}

type edit struct {
	at   int
	end  int // replaced range [at,end)
	seq  int
	text string
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	as := flag.String("as", "", "the overlay replaces the files of this directory instead (default: repo)")
	tool := flag.String("tool", "", "also make the package main in cmd/main of the repository the package in this directory")
	flag.Parse()
	if *out == "" {
		fail("need -out")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fail(err)
	}
	overlay := map[string]string{}
	var sites []site
	next := 0
	dir := *as
	if dir == "" {
		dir = *repo
	}
	one(*repo, dir, *out, "", overlay, &sites, &next)
	if *tool != "" {
		one(filepath.Join(*repo, "cmd", "main"), *tool, *out, "cmd/main/", overlay, &sites, &next)
	}
	writeJSON(filepath.Join(*out, "overlay.json"), map[string]any{"Replace": overlay})
	writeJSON(filepath.Join(*out, "sites.json"), sites)
}

// one instruments the package in a directory, to be found in another one. A
// command becomes an ordinary package.
func one(repo, as, out, prefix string, overlay map[string]string, sites *[]site, next *int) {
	pkgs := goList(repo)
	exports := map[string]string{}
	var root pkgInfo
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
		if p.Dir == filepath.Clean(repo) {
			root = p
		}
	}
	if root.Name == "" {
		fail("cannot find the package in " + repo)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[string][]byte{}
	for _, name := range root.GoFiles {
		path := filepath.Join(root.Dir, name)
		b, err := os.ReadFile(path)
		if err != nil {
			fail(err)
		}
		srcs[path] = b
		f, err := parser.ParseFile(fset, path, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			fail(err)
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e, ok := exports[path]
			if !ok || e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(error) {},
	}
	if _, err := conf.Check(root.ImportPath, fset, files, info); err != nil {
		fail("type check: ", err)
	}
	fr := &fresh{order: map[types.Object]int{}}
	for i, x := range info.InitOrder {
		for _, v := range x.Lhs {
			fr.order[v] = i
		}
	}
	for i, f := range files {
		path := filepath.Join(root.Dir, root.GoFiles[i])
		b := instrument(fset, f, srcs[path], info, prefix+root.GoFiles[i], sites, next, fr)
		if i == len(files)-1 {
			b = append(b, fr.code(root.Name == "main")...)
		}
		dst := filepath.Join(out, strings.ReplaceAll(prefix, "/", "_")+"src_"+root.GoFiles[i])
		if err := os.WriteFile(dst, b, 0o644); err != nil {
			fail(err)
		}
		overlay[filepath.Join(as, root.GoFiles[i])] = dst
	}
	if prefix != "" {
		// what the package has in place of a process
		dst := filepath.Join(out, "tool_entry.go")
		if err := os.WriteFile(dst, []byte("package tool\n\n// Main runs the tool.\nfunc Main() { main() }\n\n// Present tells that there is one.\nconst Present = true\n"), 0o644); err != nil {
			fail(err)
		}
		overlay[filepath.Join(as, "zz_sim_entry.go")] = dst
	}
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fail(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fail(err)
	}
}

func fail(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(2)
}

func goList(dir string) []pkgInfo {
	cmd := exec.Command("go", "list", "-mod=readonly", "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Export", ".")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("go list: ", err)
	}
	var ps []pkgInfo
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkgInfo
		err := dec.Decode(&p)
		if err == io.EOF {
			return ps
		}
		if err != nil {
			fail(err)
		}
		ps = append(ps, p)
	}
}

type inst struct {
	labels map[ast.Stmt]token.Pos // where the labels of labelled statements begin
	comm   map[ast.Node]bool      // operations that a select chooses from
	pairs  map[ast.Expr]bool      // receives whose second result is used
	done   map[ast.Node]bool      // replaced as a whole
	fset   *token.FileSet
	src    []byte
	info   *types.Info
	edits  []edit
	file   string
	fn     string
	sites  *[]site
	next   *int
	loopN  int
}

func (in *inst) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *inst) insert(at int, text string) {
	in.edits = append(in.edits, edit{at: at, end: at, seq: len(in.edits), text: text})
}

func (in *inst) replace(at, end int, text string) {
	in.edits = append(in.edits, edit{at: at, end: end, seq: len(in.edits), text: text})
}

// fresh collects what brings the variables of a package back to what they are
// in a process that has just begun.
type fresh struct {
	order map[types.Object]int // of the initialisers
	zero  []string             // functions for variables without one
	init  map[int]string       // functions for those with one
	funcs []string             // init functions
	n     int
}

func (fr *fresh) code(tool bool) string {
	l := append([]string(nil), fr.zero...)
	var keys []int
	for k := range fr.init {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	for _, k := range keys {
		l = append(l, fr.init[k])
	}
	l = append(l, fr.funcs...)
	var sb strings.Builder
	fmt.Fprintf(&sb, "\nfunc init() { simrtZZ.OnFresh(%v, func() {", tool)
	for _, n := range l {
		sb.WriteString(n + "(); ")
	}
	sb.WriteString("}) }\n")
	return sb.String()
}

// variables adds what resets the package's variables of a file.
func (in *inst) variables(f *ast.File, fr *fresh) string {
	var sb strings.Builder
	name := func() string { fr.n++; return fmt.Sprintf("simfreshZZ%d", fr.n) }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				n := name()
				in.replace(in.off(d.Name.Pos()), in.off(d.Name.End()), n)
				fmt.Fprintf(&sb, "\nfunc init() { %s() }\n", n)
				fr.funcs = append(fr.funcs, n)
			}
		case *ast.GenDecl:
			if d.Tok != token.VAR || embeds(d.Doc) {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				if embeds(vs.Doc) || embeds(vs.Comment) {
					continue
				}
				var lhs []string
				k, skip := -1, false
				for _, id := range vs.Names {
					o := in.info.Defs[id]
					if id.Name != "_" && o != nil {
						skip = skip || o.Type().String() == "error" // a sentinel, never changed
						if i, ok := fr.order[o]; ok && k < 0 {
							k = i
						}
					}
					lhs = append(lhs, id.Name)
				}
				if skip {
					continue
				}
				switch {
				case len(vs.Values) == 0:
					n := name()
					t := string(in.src[in.off(vs.Type.Pos()):in.off(vs.Type.End())])
					fmt.Fprintf(&sb, "\nfunc %s() {", n)
					for _, v := range lhs {
						if v != "_" {
							fmt.Fprintf(&sb, " %s = *new(%s);", v, t)
						}
					}
					sb.WriteString(" }\n")
					fr.zero = append(fr.zero, n)
				case len(vs.Values) == len(lhs):
					for i, v := range lhs {
						o := in.info.Defs[vs.Names[i]]
						j, ok := fr.order[o]
						if v == "_" || !ok {
							continue
						}
						n := name()
						fmt.Fprintf(&sb, "\nfunc %s() { %s = %s }\n", n, v, in.render(vs.Values[i]))
						fr.init[j] = n
					}
				case k >= 0:
					n := name()
					fmt.Fprintf(&sb, "\nfunc %s() { %s = %s }\n", n, strings.Join(lhs, ", "), in.render(vs.Values[0]))
					fr.init[k] = n
				}
			}
		}
	}
	return sb.String()
}

func embeds(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

// render is the text of an expression as changed.
func (in *inst) render(x ast.Expr) string {
	a, b := in.off(x.Pos()), in.off(x.End())
	l := append([]edit(nil), in.edits...)
	sortEdits(l)
	var sb strings.Builder
	pos := a
	for _, e := range l {
		if e.at < a || e.end > b {
			continue
		}
		sb.Write(in.src[pos:e.at])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(in.src[pos:b])
	return sb.String()
}

func sortEdits(l []edit) {
	sort.SliceStable(l, func(a, b int) bool {
		if l[a].at != l[b].at {
			return l[a].at < l[b].at
		}
		return l[a].seq < l[b].seq
	})
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, name string, sites *[]site, next *int, fr *fresh) []byte {
	in := &inst{fset: fset, src: src, info: info, file: name, sites: sites, next: next}
	xosUsed, osOther, needDisk := false, false, false
	osName, ioName := "", ""
	tool := f.Name.Name == "main"
	as := func(im *ast.ImportSpec, n string) string {
		if im.Name != nil {
			return im.Name.Name
		}
		return n
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		switch p {
		case "sync":
			n := "sync"
			if im.Name != nil {
				n = im.Name.Name
			}
			in.replace(in.off(im.Pos()), in.off(im.End()), n+` "simverif/xsync"`)
		case "sync/atomic":
			n := "atomic"
			if im.Name != nil {
				n = im.Name.Name
			}
			in.replace(in.off(im.Pos()), in.off(im.End()), n+` "simverif/xatomic"`)
		case "io/ioutil":
			if tool {
				in.replace(in.off(im.Pos()), in.off(im.End()), as(im, "ioutil")+` "simverif/sos"`)
				break
			}
			needDisk = true
		case "log":
			if tool {
				in.replace(in.off(im.Pos()), in.off(im.End()), as(im, "log")+` "simverif/slog"`)
			}
		case "os":
			if tool {
				in.replace(in.off(im.Pos()), in.off(im.End()), as(im, "os")+` "simverif/sos"`)
				break
			}
			osName = "os"
			if im.Name != nil {
				osName = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			in.fn = funcName(fd)
		} else {
			in.fn = "(package)"
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if in.done[n] {
				return false
			}
			switch s := n.(type) {
			case *ast.BlockStmt:
				in.list(s.List)
			case *ast.CaseClause:
				in.list(s.Body)
			case *ast.CommClause:
				in.list(s.Body)
			case *ast.RangeStmt:
				in.rng(s)
			case *ast.GoStmt:
				in.goStmt(s)
			case *ast.LabeledStmt:
				if in.labels == nil {
					in.labels = map[ast.Stmt]token.Pos{}
				}
				at := s.Pos()
				if p, ok := in.labels[s]; ok {
					at = p
				}
				in.labels[s.Stmt] = at
			case *ast.SelectStmt:
				in.selects(s)
			case *ast.AssignStmt:
				if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
					in.pair(s.Rhs[0])
				}
			case *ast.ValueSpec:
				if len(s.Names) == 2 && len(s.Values) == 1 {
					in.pair(s.Values[0])
				}
			case *ast.SendStmt:
				if !in.comm[s] {
					in.insert(in.off(s.Pos()), "simrtZZ.Send(")
					in.replace(in.off(s.Chan.End()), in.off(s.Value.Pos()), ")(")
					in.insert(in.off(s.Value.End()), ")")
				}
			case *ast.UnaryExpr:
				if s.Op == token.ARROW && !in.comm[s] {
					f := "simrtZZ.Recv("
					if in.pairs[s] {
						f = "simrtZZ.Recv2("
					}
					in.replace(in.off(s.OpPos), in.off(s.X.Pos()), f)
					in.insert(in.off(s.X.End()), ")")
				}
			case *ast.CallExpr:
				return !in.chanCall(s)
			case *ast.SelectorExpr:
				if x, ok := s.X.(*ast.Ident); ok && (s.Sel.Name == "Pipe" || s.Sel.Name == "PipeReader" || s.Sel.Name == "PipeWriter") {
					if pn, ok := in.info.Uses[x].(*types.PkgName); ok && pn.Imported().Path() == "io" {
						in.replace(in.off(x.Pos()), in.off(x.End()), "simxioZZ")
						ioName = x.Name
					}
				}
				if x, ok := s.X.(*ast.Ident); ok && osName != "" && x.Name == osName {
					if pn, ok := in.info.Uses[x].(*types.PkgName); ok && pn.Imported().Path() == "os" {
						if s.Sel.Name == "ReadFile" {
							in.replace(in.off(x.Pos()), in.off(x.End()), "simxosZZ")
							xosUsed = true
						} else {
							osOther = true
							switch s.Sel.Name {
							case "Open", "OpenFile", "Stat", "Lstat", "DirFS", "ReadDir", "OpenRoot", "OpenInRoot":
								needDisk = true
							}
						}
					}
				}
			}
			return true
		})
	}
	if xosUsed {
		if !osOther {
			in.insert(len(src), "\nvar _ = "+osName+".ReadFile\n")
		}
	}
	if ioName != "" {
		in.insert(len(src), "\nvar _ = "+ioName+".EOF\n")
	}
	if fr.init == nil {
		fr.init = map[int]string{}
	}
	vars := in.variables(f, fr)
	sortEdits(in.edits)
	// a file's imports come first, so the extra ones go on the package line
	extra := `; import simrtZZ "simverif/rt"`
	if ioName != "" {
		extra += `; import simxioZZ "simverif/xio"`
	}
	if xosUsed || needDisk {
		extra += `; import simxosZZ "simverif/xos"`
	}
	var sb strings.Builder
	pos := in.off(f.Name.End())
	if tool {
		sb.Write(src[:in.off(f.Name.Pos())])
		sb.WriteString("tool")
	} else {
		sb.Write(src[:pos])
	}
	sb.WriteString(extra)
	for _, e := range in.edits {
		if e.at < pos {
			fail("overlapping edits in ", name, " at ", e.at)
		}
		sb.Write(src[pos:e.at])
		sb.WriteString(e.text)
		pos = e.end
	}
	sb.Write(src[pos:])
	sb.WriteString("\nvar _ = simrtZZ.Y\n" + vars)
	if needDisk {
		// files are read in ways the seam does not cover: use real ones
		sb.WriteString("\nfunc init() { simxosZZ.NeedDisk = true }\n")
	}
	return []byte(sb.String())
}

func funcName(fd *ast.FuncDecl) string {
	if fd.Recv == nil || len(fd.Recv.List) == 0 {
		return fd.Name.Name
	}
	t := fd.Recv.List[0].Type
	if st, ok := t.(*ast.StarExpr); ok {
		t = st.X
	}
	if id, ok := t.(*ast.Ident); ok {
		return id.Name + "." + fd.Name.Name
	}
	return fd.Name.Name
}

func (in *inst) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		p := in.fset.Position(s.Pos())
		id := *in.next
		*in.next++
		if id >= 1<<16 {
			fail("too many statements")
		}
		*in.sites = append(*in.sites, site{ID: id, File: in.file, Line: p.Line, Func: in.fn})
		in.insert(p.Offset, fmt.Sprintf("simrtZZ.Y(%d); ", id))
	}
}

// rng rewrites a range over a map so that the simulator decides the order.
func (in *inst) rng(s *ast.RangeStmt) {
	tv, ok := in.info.Types[s.X]
	if !ok {
		fail("no type for a range expression in ", in.file)
	}
	t := tv.Type.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Constraint().Underlying()
	}
	if _, ok := t.(*types.Chan); ok {
		in.loopN++
		n := strconv.Itoa(in.loopN)
		in.replace(in.off(s.For), in.off(s.X.Pos()), "for simchZZ"+n+" := ")
		in.insert(in.off(s.X.End()), "; ; ")
		b := " simcvZZ" + n + ", simokZZ" + n + " := simrtZZ.Recv2(simchZZ" + n + "); if !simokZZ" + n + " { break };"
		if k, ok := s.Key.(*ast.Ident); s.Key == nil || ok && k.Name == "_" {
			b += " _ = simcvZZ" + n + ";"
		} else {
			b += " " + string(in.src[in.off(s.Key.Pos()):in.off(s.Key.End())]) + " " + s.Tok.String() + " simcvZZ" + n + ";"
		}
		in.insert(in.off(s.Body.Lbrace)+1, b)
		return
	}
	if _, ok := t.(*types.Map); !ok {
		return
	}
	in.loopN++
	e := fmt.Sprintf("simeZZ%d", in.loopN)
	src := func(x ast.Expr) string { return string(in.src[in.off(x.Pos()):in.off(x.End())]) }
	blank := func(x ast.Expr) bool {
		if x == nil {
			return true
		}
		id, ok := x.(*ast.Ident)
		return ok && id.Name == "_"
	}
	// for k, v := range M {   ->   for _, e := range Entries(M) { v, ok := e.Get() ...
	at, end := in.off(s.For), in.off(s.X.Pos())
	in.replace(at, end, "for _, "+e+" := range simrtZZ.Entries(")
	in.insert(in.off(s.X.End()), ")")
	body := fmt.Sprintf(" if _, simokZZ := %s.Get(); !simokZZ { continue };", e)
	tok := s.Tok.String()
	if !blank(s.Key) {
		body += fmt.Sprintf(" %s %s %s.K;", src(s.Key), tok, e)
	}
	if !blank(s.Value) {
		body += fmt.Sprintf(" %s %s %s.V();", src(s.Value), tok, e)
	}
	in.insert(in.off(s.Body.Lbrace)+1, body)
}

// goStmt turns go f(args) into simrt.Go(func() { f(args) }), with f and the
// arguments evaluated before.
func (in *inst) goStmt(s *ast.GoStmt) {
	c := s.Call
	in.loopN++
	var names, vals []string
	n := 0
	early := func(x ast.Expr) {
		switch f := x.(type) {
		case *ast.Ident:
			if _, ok := in.info.Uses[f].(*types.Func); ok {
				return
			}
		case *ast.SelectorExpr:
			if o, ok := in.info.Uses[f.Sel].(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
				return
			}
		}
		tv := in.info.Types[x]
		if tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType() {
			return
		}
		if _, ok := x.(*ast.FuncLit); ok {
			return
		}
		n++
		v := fmt.Sprintf("simgoZZ%d_%d", in.loopN, n)
		names = append(names, v)
		vals = append(vals, string(in.src[in.off(x.Pos()):in.off(x.End())]))
		in.replace(in.off(x.Pos()), in.off(x.End()), v)
		if in.done == nil {
			in.done = map[ast.Node]bool{}
		}
		in.done[x] = true
	}
	// a literal that is called without arguments needs nothing
	early(c.Fun)
	for _, a := range c.Args {
		early(a)
	}
	pre := "simrtZZ.Go(func() { "
	if n > 0 {
		pre = strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; " + pre
		pre = "{ " + pre
	}
	in.replace(in.off(s.Go), in.off(c.Pos()), pre)
	post := " })"
	if n > 0 {
		post += " }"
	}
	in.insert(in.off(c.End()), post)
}

// pair notes that both results of a receive are used.
func (in *inst) pair(x ast.Expr) {
	for {
		p, ok := x.(*ast.ParenExpr)
		if !ok {
			break
		}
		x = p.X
	}
	if in.pairs == nil {
		in.pairs = map[ast.Expr]bool{}
	}
	in.pairs[x] = true
}

// plain tells expressions that can be evaluated again.
func plain(x ast.Expr) bool {
	switch x := x.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plain(x.X)
	case *ast.IndexExpr:
		return plain(x.X) && plain(x.Index)
	case *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return plain(x.X)
	case *ast.StarExpr:
		return plain(x.X)
	}
	return false
}

// selects lets a select that would wait try again after others went on.
func (in *inst) selects(s *ast.SelectStmt) {
	if in.comm == nil {
		in.comm = map[ast.Node]bool{}
	}
	def := false
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var ch ast.Expr
		f := ""
		switch k := cc.Comm.(type) {
		case nil:
			def = true
			continue
		case *ast.SendStmt:
			in.comm[k] = true
			ch, f = k.Chan, "Sent(%s)"
		case *ast.ExprStmt:
			ch, f = k.X, "Received(%s, true)"
		case *ast.AssignStmt:
			ch, f = k.Rhs[0], "Received(%s, true)"
		}
		for {
			p, ok := ch.(*ast.ParenExpr)
			if !ok {
				break
			}
			ch = p.X
		}
		if u, ok := ch.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			in.comm[u] = true
			ch = u.X
		}
		text := "simrtZZ.News()"
		if plain(ch) {
			text = "simrtZZ." + fmt.Sprintf(f, string(in.src[in.off(ch.Pos()):in.off(ch.End())]))
		}
		in.insert(in.off(cc.Colon)+1, " "+text+"; ")
	}
	if def {
		return
	}
	in.loopN++
	l := fmt.Sprintf("simselZZ%d", in.loopN)
	at := s.Pos()
	if p, ok := in.labels[s]; ok {
		at = p
	}
	in.insert(in.off(at), l+": ")
	in.insert(in.off(s.Body.Rbrace), " default: simrtZZ.ChanWait(); goto "+l+"\n")
}

// chanCall rewrites the making and closing of channels. It reports whether
// nothing inside of the call is left to do.
func (in *inst) chanCall(c *ast.CallExpr) bool {
	if in.done[c] {
		return true
	}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := in.info.Uses[id].(*types.Builtin)
	if !ok {
		return false
	}
	src := func(x ast.Expr) string { return string(in.src[in.off(x.Pos()):in.off(x.End())]) }
	switch b.Name() {
	case "close":
		in.replace(in.off(id.Pos()), in.off(id.End()), "simrtZZ.Close")
	case "make":
		if _, ok := in.info.Types[c.Args[0]].Type.Underlying().(*types.Chan); !ok {
			return false
		}
		n := "0"
		if len(c.Args) > 1 {
			n = "int(" + src(c.Args[1]) + ")"
		}
		t := src(c.Args[0])
		in.replace(in.off(c.Pos()), in.off(c.End()), "simrtZZ.MakeChan(func(simnZZ int) "+t+" { return make("+t+", simnZZ) }, "+n+")")
		return true
	}
	return false
}
