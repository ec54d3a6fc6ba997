package csvx

import (
	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Far: rows behind gigabytes of others.
//
//verif:harness prop=P06 quick="n=1" thorough="n=2" bounds="n+1 rows of two fields, one of them of any kind, behind the header and a part of the data file that was read before and ends at, 1 or 15 bytes before 2^31 or 2^32; either line ending"
func Far() {
	head := newGen(eol(), "a", "b")
	far := []int{1 << 31, 1 << 32}[sym.Choose("far", 2)] - []int{0, 1, 15}[sym.Choose("before", 3)]
	g := newGen(head.eol, "a", "b")
	g.Data, g.Ends = nil, nil
	for i, n := 0, sym.Param("n", 1); i <= n; i++ {
		g.begin()
		if i < n {
			g.any(sym.Choose("kind", nKinds), 1)
		} else {
			g.plain(appendable.FieldTypeFloat64, "7", f64(7))
		}
		g.str(1)
		g.end()
	}
	for i := range g.Want {
		g.Want[i].At += far
		g.Want[i].Rec.Offset += uint64(far)
	}
	for i := range g.Ends {
		g.Ends[i] += far
		g.RowEnds[i] += far
	}
	g.Data = sym.Far(far, g.Data)
	for len(head.Data) < 70000 {
		head.Str("1,x" + g.eol)
	}
	sym.FarHead(g.Data, head.Data)
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	m, err := x.Metadata()
	sym.Assert(err == nil, "reading file metadata failed")
	m.ReadOffset = uint64(far)
	sym.Assert(x.SetMetadata(m) == nil, "writing file metadata failed")
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid rows failed")
	ix.Check(x, &g.Doc)
	ix.Check(ix.Open(f, h, nil), &g.Doc)
}
