// Package cmdx: the command, run as a whole over files.
package cmdx

import (
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"time"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/cmdmain"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/osx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

//verif:command cmd

// The command runs in a process of its own: this very program, started with
// VERIF_CMD set.
func init() {
	if !sym.Engine() && os.Getenv("VERIF_CMD") == "1" {
		cmdmain.Main()
		os.Exit(0)
	}
}

// Run runs the command and returns its exit status.
func Run(args ...string) int {
	exe, err := os.Executable()
	sym.Assert(err == nil, "the program does not know itself")
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	sym.Assert(err == nil, "no null device")
	defer null.Close()
	p, err := os.StartProcess(exe, append([]string{"appendable"}, args...), &os.ProcAttr{Env: append(os.Environ(), "VERIF_CMD=1"), Files: []*os.File{null, null, null}})
	sym.Assert(err == nil, "the command cannot be started")
	st, err := p.Wait()
	sym.Assert(err == nil, "waiting for the command failed")
	return st.ExitCode()
}

type exited struct{ code int }

//verif:replace os.Exit
func exit(code int) { panic(exited{code}) }

//verif:replace log.Fatal
func fatal(v ...any) { exit(1) }

//verif:replace log.Fatalf
func fatalf(format string, v ...any) { exit(1) }

//verif:replace log.Fatalln
func fatalln(v ...any) { exit(1) }

//verif:replace (*log.Logger).Fatal
func fatalOf(l *log.Logger, v ...any) { exit(1) }

//verif:replace (*log.Logger).Fatalf
func fatalfOf(l *log.Logger, format string, v ...any) { exit(1) }

//verif:replace (*log.Logger).Fatalln
func fatallnOf(l *log.Logger, v ...any) { exit(1) }

//verif:replace log.Panic
func panics(v ...any) { panic(v) }

//verif:replace log.Panicf
func panicsf(format string, v ...any) { panic(v) }

//verif:replace log.Panicln
func panicsln(v ...any) { panic(v) }

//verif:replace flag.PrintDefaults
func printDefaults() {}

//verif:replace (*flag.FlagSet).PrintDefaults
func printDefaultsOf(*flag.FlagSet) {}

//verif:replace runtime/pprof.StartCPUProfile
func startProfile(io.Writer) error { return nil }

//verif:replace runtime/pprof.StopCPUProfile
func stopProfile() {}

//verif:replace github.com/kevmo314/appendable/zz_verif/cmdx.Run
func runModel(args ...string) (code int) {
	os.Args = append([]string{"appendable"}, args...)
	flag.CommandLine = flag.NewFlagSet("appendable", flag.ExitOnError)
	defer func() {
		if r := recover(); r != nil {
			code = 2
			if x, ok := r.(exited); ok {
				code = x.code
			}
		}
	}()
	cmdmain.Main()
	return 0
}

// dir is a scratch directory; its files are named in it.
type dir struct{ path string }

func scratch() *dir {
	osx.Room = 1 << 17
	p, err := os.MkdirTemp("", "verif-cmd")
	sym.Assert(err == nil, "no scratch directory")
	return &dir{p}
}

func (d *dir) gone()                { os.RemoveAll(d.path) }
func (d *dir) name(n string) string { return filepath.Join(d.path, n) }
func (d *dir) put(n string, b []byte) {
	sym.Assert(os.WriteFile(d.name(n), b, 0o644) == nil, "no scratch file")
}
func (d *dir) get(n string) ([]byte, bool) {
	b, err := os.ReadFile(d.name(n))
	return b, err == nil
}

// index is the storage of an index file with the given contents.
func index(b []byte) *hx.Sparse {
	f := ix.File()
	f.Write(b)
	f.Pos, f.Ops = 0, 0
	return f
}

func handler(csv bool) appendable.DataHandler {
	if csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

// doc is a data file of n records with the fields p and q, the last of them
// with an arbitrary letter.
func doc(csv bool, n int) *ix.Doc {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	d := &ix.Doc{}
	d.Skip = func(t appendable.FieldType) bool {
		return t == appendable.FieldTypeUnigram || t == appendable.FieldTypeBigram || t == appendable.FieldTypeTrigram
	}
	if csv {
		d.Parser, d.Pad = handlers.CSVHandler{}, "\""
		d.Str("p,q\n")
		d.Ends = append(d.Ends, len(d.Data))
	} else {
		d.Parser, d.Pad = handlers.JSONLHandler{}, " "
	}
	for i := 0; i < n; i++ {
		x := byte('k' + i)
		if i == n-1 {
			x = c
		}
		s := len(d.Data)
		field := func(name string, v []byte) {
			if !csv {
				d.Str(map[string]string{"p": `{"p":`, "q": `,"q":`}[name])
				v = append(append([]byte{'"'}, v...), '"')
			} else if name == "q" {
				d.Str(",")
			}
			w := ix.Want{Name: name, Type: appendable.FieldTypeString, Key: bytes.Trim(v, `"`), At: len(d.Data), Raw: v}
			d.Data = append(d.Data, v...)
			d.Want = append(d.Want, w)
		}
		field("p", []byte{'u', x, 'v'})
		field("q", []byte{x, 'w', 'e', 'f'})
		if !csv {
			d.Str("}")
		}
		for j := range d.Want[2*i:] {
			d.Want[2*i+j].Rec = pointer.MemoryPointer{Offset: uint64(s), Length: uint32(len(d.Data) - s)}
		}
		d.Str("\n")
		d.Ends, d.RowEnds = append(d.Ends, len(d.Data)), append(d.RowEnds, len(d.Data))
	}
	return d
}

// same compares the entries of all indexes of two index files.
func same(x, y *appendable.IndexFile, d *ix.Doc) {
	a, b := ix.List(x, d.Data, d.Parser), ix.List(y, d.Data, d.Parser)
	sym.Assert(len(a) == len(b), "the file on disk has other indexes than the package makes")
	for _, i := range a {
		hit := false
		for _, j := range b {
			if i.Meta.FieldType != j.Meta.FieldType || i.Meta.FieldName != j.Meta.FieldName {
				continue
			}
			hit = true
			sym.Assert(*i.Meta == *j.Meta, "an index on disk has other metadata than the package makes")
			p, err := i.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
			sym.Assert(err == nil, "iterating an index failed")
			q, err := j.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
			sym.Assert(err == nil, "iterating an index failed")
			for {
				m, n := p.Next(), q.Next()
				sym.Assert(m == n, "an index on disk has more or fewer entries than the package makes")
				if !m {
					break
				}
				sym.Assert(bytes.Equal(p.Key().Value, q.Key().Value) && p.Key().DataPointer == q.Key().DataPointer && p.Pointer() == q.Pointer(), "an index on disk has other entries than the package makes")
			}
		}
		sym.Assert(hit, "the file on disk has an index the package does not make")
	}
}

// styles of the command line
const styles = 5

// args is the command line of a style.
func args(d *dir, style int, csv bool, search []string) []string {
	form, file := "-jsonl", []string{"-i", d.name("index")}
	if csv {
		form = "-csv"
	}
	var a []string
	switch style {
	case 0:
		a = append([]string{form}, file...)
	case 1:
		a = append(file, "-"+form, "-debug")
	case 2:
		a = []string{"-t", "-i=" + d.name("index"), form + "=true", "-pprof", d.name("profile")}
	case 3:
		a = append([]string{form, "-b", d.name("benchmark")}, file...)
	case 4:
		other := map[bool]string{false: "-csv=false", true: "-jsonl=0"}[csv]
		a = append([]string{"-debug=false", other, "-t=F", form}, file...)
	}
	for _, s := range search {
		if style == 1 {
			a = append(a, "--s="+s)
		} else {
			a = append([]string{"-s", s}, a...)
		}
	}
	if style == 4 {
		a = append(a, "--")
	}
	return append(a, d.name("data"))
}

func fields() []string {
	return [][]string{nil, {"p"}, {"q"}, {"q", "p"}}[sym.Choose("search", 4)]
}

// world: the files of a command, and what the package makes of the same data.
type world struct {
	*dir
	csv    bool
	doc    *ix.Doc
	search []string
	ref    *hx.Sparse
}

func setup(n int) *world {
	w := &world{dir: scratch(), csv: sym.Choose("csv", 2) == 1, search: fields(), ref: ix.File()}
	w.doc = doc(w.csv, n)
	return w
}

// run runs the command over the first n bytes of the data.
func (w *world) run(n, style int) {
	to := w.doc.Data[:n:n]
	w.put("data", to)
	if style%2 == 1 { // a copy that keeps the time of the original
		sym.Assert(os.Chtimes(w.name("data"), time.Unix(1e9, 0), time.Unix(1e9, 0)) == nil, "the time of the file cannot be set")
	}
	sym.Assert(Run(args(w.dir, style, w.csv, w.search)...) == 0, "the command failed")
	got, ok := w.get("data")
	sym.Assert(ok && sym.EqBytes(got, to), "the command changed the data file")
	x := ix.Open(w.ref, handler(w.csv), w.search)
	sym.Assert(x.Synchronize(to) == nil, "synchronizing failed")
	b, ok := w.get("index")
	sym.Assert(ok, "the command left no index file")
	y := ix.Open(index(b), handler(w.csv), w.search)
	ix.Check(y, w.doc.Prefix(n))
	same(y, ix.Open(w.ref, handler(w.csv), w.search), w.doc)
}

// Build: the index on disk after a run.
//
//verif:harness prop=P24 quick="n=2" thorough="n=4" tbudget=1800 steps=60000000 bounds="data files of n records of two fields, the last with an arbitrary letter, JSONL and CSV, whole, empty or without the last line break; no, either or both fields searched; five styles of the command line; the index file absent or empty before"
func Build() {
	w := setup(sym.Param("n", 2))
	defer w.gone()
	if sym.Choose("empty", 2) == 1 {
		w.put("index", nil)
	}
	n := len(w.doc.Data)
	w.run([]int{n, 0, n - 1}[sym.Choose("part", 3)], sym.Choose("style", styles))
}

// Grown: the index on disk after several runs over a data file that grows.
//
//verif:harness prop=P24 quick="n=2" thorough="n=1,runs=3" tbudget=2400 steps=60000000 bounds="as Build, with runs runs of which all but the last see the file cut anywhere, each in the next style of the command line; files written now or long ago"
func Grown() {
	w := setup(sym.Param("n", 2))
	defer w.gone()
	cut, runs := 0, sym.Param("runs", 2)
	for i := 0; i < runs-1; i++ {
		cut += sym.Choose("cut", len(w.doc.Data)-cut+1)
		w.run(cut, i%styles)
	}
	w.run(len(w.doc.Data), (runs-1)%styles)
}

// Misuse: runs that cannot do what they are told.
//
//verif:harness prop=P24 quick="" steps=60000000 bounds="no format, no file, two files, an unknown flag, a flag without its value, a missing data file, an index of the other format or of another version (any byte), a malformed third record, and then a run without it; with no index before, or the one of an earlier run"
func Misuse() {
	w := setup(2)
	defer w.gone()
	d := w.doc
	if sym.Choose("before", 2) == 1 {
		w.run(d.Ends[len(d.Ends)-2], 0)
	}
	data := append([]byte{}, d.Data...)
	w.put("data", data)
	old, had := w.get("index")
	a := args(w.dir, 0, w.csv, w.search)
	end := len(a) - 1
	quiet := true // nothing may have been written
	switch sym.Choose("what", 9) {
	case 0:
		for i := range a {
			if a[i] == "-csv" || a[i] == "-jsonl" {
				a = append(a[:i:i], a[i+1:]...)
				break
			}
		}
	case 1:
		a = a[:end]
	case 2:
		a = append(a, a[end])
	case 3:
		a = append([]string{"-unknown"}, a...)
	case 4:
		a = append(a[:end:end], "-s")
	case 5:
		a[end] = w.name("nothing")
	case 6:
		if !had {
			sym.Stop()
		}
		for i := range a {
			if a[i] == "-csv" {
				a[i] = "-jsonl"
			} else if a[i] == "-jsonl" {
				a[i] = "-csv"
			}
		}
	case 7:
		if !had {
			sym.Stop()
		}
		f := index(old)
		x := ix.Open(f, handler(w.csv), w.search)
		m, err := x.Metadata()
		sym.Assert(err == nil, "reading file metadata failed")
		v := appendable.Version(sym.Byte("version"))
		sym.Assume(v != m.Version)
		m.Version = v
		sym.Assert(x.SetMetadata(m) == nil, "storing metadata failed")
		f.Pos = 0
		n, err := f.Read(old)
		sym.Assert(err == nil && n == len(old), "the index changed its size")
		w.put("index", old)
	case 8:
		quiet = false
		bad := "{\"p\":}\n"
		if w.csv {
			bad = "7,8,9\n"
		}
		data = append(data, bad...)
		w.put("data", data)
	}
	sym.Assert(Run(a...) > 0, "the command succeeds although it cannot do what it was told")
	got, ok := w.get("data")
	sym.Assert(ok && sym.EqBytes(got, data), "the command changed the data file")
	now, has := w.get("index")
	if quiet && had {
		sym.Assert(has && sym.EqBytes(now, old), "a run that was refused changed the index")
	} else if quiet {
		sym.Assert(len(now) == 0, "a run that was refused made an index")
	} else {
		sym.Assert(has, "the records before a malformed one are not indexed")
		ix.Check(ix.Open(index(now), handler(w.csv), w.search), d)
	}
	if !had || !quiet {
		w.run(len(d.Data), 0) // told what it can do, it does it
	}
}
