package main

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"

	docx "github.com/fumiama/go-docx"

	"simverif/rt"
	"simverif/sos"
)

// Faults of the simulated disk the command line tool works on:
//
//	d.create   creating the I-th output fails
//	d.write    the I-th output takes At bytes and fails for good
//	d.once     one write at byte At of the I-th output fails
//	d.lose     closing the I-th output reports an error, its last N bytes are lost
//	d.sync     flushing an output fails
//	d.open     opening the I-th file that is read fails
//	d.stat     the I-th question for the state of a file fails
//	d.read     the At-th read and all later ones fail
//	d.readonce the At-th read fails
//	d.trunc    the file being read ends at byte At
//	d.rename   the I-th renaming fails
//	d.dir      the name of the I-th output is that of a folder
//	d.crash    the process dies when the I-th output has At bytes

const (
	toolA = 1 << iota // analyze a file that is there
	toolC             // drop what is not a picture
	toolU             // write what was read
	toolP             // drop paragraph properties
)

// toolPics are the pictures the tool puts into the file it makes.
func (w *World) toolPics() []string {
	return []string{"testdata/fumiama.JPG", "testdata/fumiama2x.webp", "testdata/fumiamayoko.png"}
}

// toolStatus is how a simulated process ended.
type toolStatus struct {
	ok      bool
	crashed bool
	why     string
}

// startTool runs the tool with its arguments on a disk.
func startTool(d *sos.Disk, args []string) (st toolStatus) {
	old, oldArgs, oldFlags := sos.Cur, os.Args, flag.CommandLine
	stdout, stderr := os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	must(err)
	defer func() {
		d.End()
		sos.Cur, os.Args, flag.CommandLine = old, oldArgs, oldFlags
		os.Stdout, os.Stderr = stdout, stderr
		_ = null.Close()
	}()
	sos.Cur = d
	os.Args = append([]string{"tool"}, args...)
	sos.Args = os.Args
	flag.CommandLine = flag.NewFlagSet("tool", flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	rt.FreshTool()
	os.Stdout, os.Stderr = null, null
	defer func() {
		switch x := recover().(type) {
		case nil:
			st = toolStatus{ok: true}
		case sos.ExitCode:
			st = toolStatus{ok: x == 0, why: fmt.Sprintf("exit status %d", int(x))}
		case crashed:
			st = toolStatus{crashed: true, why: "crash"}
		case rt.NoProgress:
			panic(x)
		case rt.Deadlock:
			panic(x)
		case string:
			if strings.HasPrefix(x, "harness:") {
				panic(x)
			}
			st = toolStatus{why: "panic: " + x}
		default:
			st = toolStatus{why: fmt.Sprint("panic: ", x)}
		}
	}()
	toolMain()
	return
}

// armDisk lets the faults strike a disk.
func armDisk(d *sos.Disk, fs *faultSet) {
	var creates, opens, stats, reads, renames int
	nth := map[string]int{}
	took := map[string]int64{}
	once := make([]bool, len(fs.list))
	d.Before = func(op, name string, off int64, n int) (int, error) {
		if op == "create" {
			nth[name] = creates
			took[name] = 0
			creates++
		}
		switch op {
		case "open":
			opens++
		case "stat":
			stats++
		case "read":
			reads++
		case "rename":
			renames++
		}
		for i := range fs.list {
			f := &fs.list[i]
			mine := func() bool { k, ok := nth[name]; return ok && f.I == k }
			switch {
			case f.T == "d.create" && op == "create" && f.I == creates-1,
				f.T == "d.open" && op == "open" && f.I == opens-1,
				f.T == "d.stat" && op == "stat" && f.I == stats-1,
				f.T == "d.rename" && op == "rename" && f.I == renames-1,
				f.T == "d.sync" && op == "sync" && mine(),
				f.T == "d.lose" && op == "wclose" && mine(),
				f.T == "d.read" && op == "read" && int64(reads) >= f.At:
				fs.fire(i)
				return 0, f.err()
			case f.T == "d.readonce" && op == "read" && int64(reads) == f.At:
				fs.fire(i)
				return 0, f.err()
			case f.T == "d.trunc" && op == "read" && off+int64(n) > f.At && inodeSize(d, name) > f.At:
				fs.fire(i)
				n = int(max(0, f.At-off))
			case op == "write" && mine() && !once[i] && took[name]+int64(n) > f.At:
				k := int(max(0, f.At-took[name]))
				switch f.T {
				case "d.write":
				case "d.once":
					once[i] = true
				case "d.crash":
					fs.fire(i)
					if in := d.Files[name]; in != nil {
						in.Data = in.Data[:min(int64(len(in.Data)), f.At)]
					}
					panic(crashed{})
				default:
					continue
				}
				fs.fire(i)
				took[name] += int64(k)
				return k, f.err()
			}
		}
		if op == "write" {
			took[name] += int64(n)
		}
		return n, nil
	}
	d.Lost = func(name string, size int) int {
		for i := range fs.list {
			f := &fs.list[i]
			if k, ok := nth[name]; ok && f.T == "d.lose" && f.I == k {
				fs.fire(i)
				return 1 + mod(int(f.N), max(1, size))
			}
		}
		return 0
	}
}

func inodeSize(d *sos.Disk, name string) int64 {
	if in := d.Files[name]; in != nil {
		return int64(len(in.Data))
	}
	return 0
}

// toolFile is a file the tool was asked to write.
type toolFile struct {
	name    string
	content string
	parts   map[string]string
}

// besides lists the parts of a package a save carries over.
func besides(b []byte, media bool) map[string]string {
	p, err := readPkgOpt(b, true)
	must(err)
	m := map[string]string{}
	for k, v := range p.Parts {
		switch {
		case k == "word/document.xml", k == "word/_rels/document.xml.rels", strings.HasSuffix(k, "/"):
		case strings.HasPrefix(k, "word/media/") && !media:
		default:
			m[k] = sumOf(k, v)
		}
	}
	return m
}

// toolWants works out what the tool has to write when it analyzes a file.
func toolWants(in []byte, loc string, mode int, re string, dup int64) []toolFile {
	var l []toolFile
	d, err := docx.Parse(bytes.NewReader(in), int64(len(in)))
	must(err)
	if mode&toolC != 0 {
		d.Document.Body.DropDrawingOf("NilPicture")
	}
	if mode&toolP != 0 {
		for _, p := range liveParas(d) {
			p.Properties = nil
		}
	}
	m := liveContent(d)
	dir, base := path.Split(loc)
	if mode&toolU != 0 {
		f := toolFile{dir + "unmarshal_" + base, m.Render(), besides(in, true)}
		if mode&(toolC|toolP) == 0 {
			p, err := readPkg(in)
			must(err)
			f.content = p.Content.Render()
		}
		l = append(l, f)
	}
	if re != "" {
		rule := docx.SplitDocxByPlainTextRegex(regexp.MustCompile(re))
		var cur Content
		ext := path.Ext(base)
		flush := func() {
			n := 0
			for _, f := range l {
				if strings.Contains(f.name, "_split") {
					n++
				}
			}
			l = append(l, toolFile{dir + "unmarshal_" + strings.TrimSuffix(base, ext) + "_split" + strconv.Itoa(n) + ext, cur.Render(), besides(in, false)})
			cur = nil
		}
		for i, it := range d.Document.Body.Items {
			if p, ok := it.(*docx.Paragraph); ok && len(cur) > 0 && rule(p) {
				flush()
			}
			cur = append(cur, m[i])
		}
		if len(cur) > 0 {
			flush()
		}
	}
	if dup > 1 {
		n := docx.New().WithDefaultTheme().WithA4Page()
		b, _, err := saveBytes(n)
		must(err)
		c := liveContent(n)
		for i := int64(0); i < dup; i++ {
			c = append(c, m...)
		}
		l = append(l, toolFile{dir + "dup_" + base, c.Render(), besides(b, false)})
	}
	return l
}

// toolOp runs the command line tool.
// V: mode, copies, whether the file X is put on the disk; S: file, regex.
func (w *World) toolOp(o *Op) bool {
	if w.disk == nil {
		w.disk = sos.NewDisk()
		for i, n := range w.toolPics() {
			w.pics.files[n] = imageBytes(i, 300+i, 200, w.seed+uint64(i), 600)
		}
	}
	mode, loc, re, dup := int(o.v(0)), o.s(0), o.s(1), o.v(1)
	key := path.Clean(loc)
	w.disk.MkdirAll(path.Dir(key))
	if mode&toolA != 0 && o.v(2) == 1 {
		f := w.files[o.X]
		if f == nil || !f.ack {
			return false
		}
		w.disk.Files[key] = &sos.Inode{Data: append([]byte(nil), f.data...), Mode: 0o644}
	}
	var args []string
	for i, a := range []string{"-a", "-c", "-u", "-p"} {
		if mode>>i&1 == 1 {
			args = append(args, a)
		}
	}
	args = append(args, "-f", loc)
	if re != "" {
		args = append(args, "-s", re)
	}
	if dup > 0 {
		args = append(args, "-d", strconv.FormatInt(dup, 10))
	}
	var in []byte
	var wants []toolFile
	w.pics.fs = nil
	for _, n := range w.toolPics() {
		w.pics.mirror(n)
	}
	if mode&toolA != 0 {
		f := w.disk.Files[key]
		if f == nil {
			return false
		}
		in = append([]byte(nil), f.Data...)
		if d, err := docx.Parse(bytes.NewReader(in), int64(len(in))); err != nil || d == nil {
			return false // left over from a run that failed
		}
	} else {
		// what the tool writes when nothing goes wrong
		ref := sos.NewDisk()
		st := startTool(ref, []string{"-f", "ref.docx"})
		w.req("C19", st.ok, "healthy-failed", "making a file failed although nothing went wrong: %s", st.why)
		f := ref.Files["ref.docx"]
		w.req("C19", f != nil, "missing", "making a file succeeded, but there is none")
		in = f.Data
		p, err := readPkg(in)
		w.req("C19", err == nil, "incomplete", "making a file succeeded, but it is not a complete package: %v", err)
		wants = append(wants, toolFile{loc, p.Content.Render(), besides(in, true)})
	}
	wants = append(wants, toolWants(in, loc, mode, re, dup)...)

	var ds, ps []Fault
	for _, f := range o.F {
		switch {
		case strings.HasPrefix(f.T, "p."):
			ps = append(ps, f)
			continue
		case f.Rel && (f.T == "d.read" || f.T == "d.trunc"):
			f.At, f.Rel = f.At*int64(len(in))/1000000, false
		case f.Rel:
			f.At, f.Rel = f.At*int64(len(in)+2000)/1000000, false
		}
		ds = append(ds, f)
	}
	fs := newFaultSet(ds, w.stats)
	defer fs.tally()
	pf := newFaultSet(ps, w.stats)
	defer pf.tally()
	armDisk(w.disk, fs)
	w.pics.fs = pf
	for _, n := range w.toolPics() {
		w.pics.mirror(n)
	}
	var away []func()
	for i, f := range fs.list {
		if f.T != "d.dir" || len(wants) == 0 {
			continue
		}
		k := path.Clean(wants[mod(f.I, len(wants))].name)
		if w.disk.Dirs[k] {
			continue
		}
		old := w.disk.Files[k]
		delete(w.disk.Files, k)
		w.disk.Dirs[k] = true
		fs.fire(i)
		away = append(away, func() {
			delete(w.disk.Dirs, k)
			if old != nil {
				w.disk.Files[k] = old
			}
		})
	}
	st := startTool(w.disk, args)
	for _, f := range away {
		f()
	}
	w.pics.fs = nil
	w.disk.Before, w.disk.Lost = nil, nil
	w.logf("tool %v: ok=%v %s%s", args, st.ok, st.why, describeFaults(o.F))
	if mode&toolA != 0 {
		f := w.disk.Files[key]
		w.req("C19", f != nil && bytes.Equal(f.Data, in), "input-changed", "the tool (%v) changed its input file", args)
	}
	if !st.ok {
		w.cond["tool failed"]++
		w.req("C19", fs.harmful()+pf.harmful() > 0, "healthy-failed", "the tool (%v) failed although nothing went wrong: %s", args, st.why)
		return true
	}
	w.cond["tool succeeded"]++
	for i, f := range fs.list {
		if fs.fired[i] == 0 {
			continue
		}
		switch f.T {
		case "d.dir":
			w.req("C19", false, "fault-unreported", "the tool (%v) succeeded although the name of an output is that of a folder", args)
		case "d.read", "d.trunc":
			// archive/zip takes a directory that lacks its last bytes when they are zero
			ok := f.T == "d.trunc" && f.At < int64(len(in)) && len(bytes.Trim(in[max(0, f.At):], "\x00")) == 0
			w.req("C19", ok, "fault-unreported", "the tool (%v) succeeded although it met a fault:%s", args, describeFaults(fs.list[i:i+1]))
		}
		w.cond["tool succeeded in spite of a fault"]++
	}
	w.req("C19", pf.harmful() == 0, "fault-unreported", "the tool (%v) succeeded although it met a fault:%s", args, describeFaults(ps))
	for _, x := range wants {
		f := w.disk.Files[path.Clean(x.name)]
		w.req("C19", f != nil, "missing", "the tool (%v) succeeded without writing %s", args, x.name)
		p, err := readPkg(f.Data)
		w.req("C19", err == nil, "incomplete", "the tool (%v) succeeded, but %s is not a complete package: %v", args, x.name, err)
		if got := p.Content.Render(); got != x.content {
			w.req("C19", false, "content", "the tool (%v) succeeded, but %s holds something else: %s", args, x.name, firstDiff(x.content, got))
		}
		for _, k := range sortedKeys(x.parts) {
			got, ok := p.Parts[k]
			w.req("C19", ok && samePart(k, x.parts[k], sumOf(k, got)), "part", "the tool (%v) succeeded, but %s has lost or changed the part %s", args, x.name, k)
		}
		w.states[hashString(x.content)] = true
		w.cond["tool output complete"]++
	}
	return true
}
