package csvx

import (
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

func (g *gen) good(i int) {
	g.begin()
	g.plain(appendable.FieldTypeFloat64, nums[i].s, f64(nums[i].f))
	g.field(appendable.FieldTypeString, []byte(`"x,y"`), 1, 3, []byte("x,y"))
	g.end()
}

// Refused: a row that is no record between others.
//
//verif:harness prop=P18 quick="n=2" thorough="n=3" tbudget=2400 bounds="CSV: a header of two columns (or three, the last with a name too long), 0..2 rows, then a refused row (0..n arbitrary bytes alone or behind one of three beginnings, a cell too many, a cell under the name too long), then a row; synchronized at once or after the first row; a second attempt through the same handle or a new one, or with the file cut before the row; then with the row corrected"
func Refused() {
	cols := []string{"a", "b"}
	long := sym.Choose("long", 2) == 1
	if long {
		cols = append(cols, strings.Repeat("n", 247))
	}
	g := newGen("\n", cols...)
	n := sym.Choose("before", 3)
	for i := 0; i < n; i++ {
		g.good(i)
	}
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	if k := sym.Choose("first", min(n, 1)+2); k > 0 {
		p := g.Prefix(g.Ends[k-1])
		sym.Assert(x.Synchronize(p.Data) == nil, "synchronizing failed")
	}
	ok := g.Prefix(len(g.Data))
	row := []byte("7,8,9,10")
	if long {
		row = []byte("7,y,z")
	} else if sym.Choose("many", 2) == 0 {
		b := sym.Bytes("b", sym.Choose("len", sym.Param("n", 2)+1))
		for _, c := range b {
			sym.Assume(c != '\n')
		}
		row = append([]byte([]string{"", "7,", `7,"x`, `"y"`}[sym.Choose("beginning", 4)]), b...)
	}
	data := append(append([]byte(nil), g.Data...), row...)
	data = append(data, "\n5,z\n"...)
	err := x.Synchronize(data)
	sym.Assume(err != nil)
	ix.Check(x, ok)
	mode := sym.Choose("mode", 3)
	if mode == 1 {
		x = ix.Open(f, h, nil)
	}
	sym.Assert(x.Synchronize(data) != nil, "a refused row is accepted the second time")
	ix.Check(x, ok)
	if mode == 2 {
		sym.Assert(x.Synchronize(ok.Data) == nil, "synchronizing fails after a refused row was removed")
		ix.Check(x, ok)
	}
	g.good(3)
	g.good(4)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing fails after a refused row was corrected")
	ix.Check(x, &g.Doc)
}

// BadHeader: a first line that is no header.
//
//verif:harness prop=P18 quick="n=3" thorough="n=4" bounds="CSV: a first line of 0..n arbitrary bytes that is refused, then a row; a second attempt; then with the line corrected"
func BadHeader() {
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	b := sym.Bytes("b", sym.Choose("len", sym.Param("n", 3)+1))
	for _, c := range b {
		sym.Assume(c != '\n')
	}
	data := append(append([]byte(nil), b...), "\n5,z\n"...)
	err := x.Synchronize(data)
	if m, e := x.Metadata(); err != nil && e == nil && m.ReadOffset > 0 {
		sym.Assume(false) // the header is fine, the row has more cells
	}
	sym.Assume(err != nil)
	none := &ix.Doc{}
	ix.Check(x, none)
	sym.Assert(x.Synchronize(data) != nil, "a refused header is accepted the second time")
	ix.Check(x, none)
	g := newGen("\n", "a", "b")
	g.good(0)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing fails after a refused header was corrected")
	ix.Check(x, &g.Doc)
}

// Shorter: the data file has lost its end.
//
//verif:harness prop=P18 quick="" bounds="CSV: a header and 0..2 rows, then the data file cut at any byte before its end"
func Shorter() {
	g := newGen("\n", "a", "b")
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		g.good(i)
	}
	x := ix.Open(ix.File(), handlers.CSVHandler{}, nil)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
	at := sym.Choose("at", len(g.Data))
	sym.Assert(x.Synchronize(g.Data[:at:at]) != nil, "a data file shorter than its index is accepted")
	ix.Check(x, &g.Doc)
	g.good(3)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
	ix.Check(x, &g.Doc)
}
