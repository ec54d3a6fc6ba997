package jsonl

import (
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Far: records behind gigabytes of others.
//
//verif:harness prop=P01 quick="n=2" thorough="n=3" bounds="n records of a field of any scalar shape (strings of one arbitrary character) and one of a number, behind a part of the data file that was read before and ends at, 1 or 15 bytes before 2^31 or 2^32"
func Far() {
	g := newGen()
	for i, n := 0, sym.Param("n", 2); i < n; i++ {
		g.begin()
		g.key(true, "a")
		switch kind := sym.Choose("kind", nScalars); kind {
		case 3:
			g.num("a", 1)
		case 5:
			g.esc("a", 1)
		default:
			g.simple("a", kind, 1)
		}
		g.key(false, "b")
		g.num("b", i)
		g.end()
	}
	far := []int{1 << 31, 1 << 32}[sym.Choose("far", 2)] - []int{0, 1, 15}[sym.Choose("before", 3)]
	g.move(far)
	f := ix.File()
	x := ix.Open(f, handlers.JSONLHandler{}, nil)
	m, err := x.Metadata()
	sym.Assert(err == nil, "reading file metadata failed")
	m.ReadOffset = uint64(far)
	sym.Assert(x.SetMetadata(m) == nil, "writing file metadata failed")
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
	ix.Check(x, &g.Doc)
}

// move puts the records at offset n.
func (g *gen) move(n int) {
	g.Data = sym.Far(n, g.Data)
	for i := range g.Want {
		g.Want[i].At += n
		g.Want[i].Rec.Offset += uint64(n)
	}
	for i := range g.Bare {
		g.Bare[i].Rec.Offset += uint64(n)
	}
	for i := range g.Ends {
		g.Ends[i] += n
	}
}

// FarPages: index files of gigabytes.
//
//verif:harness prop=P02 quick="n=2" thorough="n=3" bounds="n records synchronized into an index file that then grew to 0, 1 or 2 pages before 2^31, 2^32 or 2^43 bytes, then n more with the same and other fields, so that list pages and tree pages lie on both sides; numbers and strings of one arbitrary character; through the same handle or a new one"
func FarPages() {
	g := newGen()
	n := sym.Param("n", 2)
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, nil)
	for i := 0; i < 2*n; i++ {
		if i == n {
			sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
			ix.Check(x, &g.Doc)
			f.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*4096)
			if sym.Choose("reopen", 2) == 1 {
				x = ix.Open(f, h, nil)
			}
		}
		g.begin()
		g.key(true, "a")
		if i == 0 || i == 2*n-1 {
			g.str("a", 1)
		} else {
			g.num("a", i)
		}
		for j := 0; j < 7; j++ {
			k := string([]byte{'b' + byte(7*(i/n)+j)})
			g.key(false, k)
			g.num(k, i)
		}
		g.key(false, "z")
		g.num("z", 1)
		g.end()
	}
	for i := 0; i < 2; i++ {
		sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
		ix.Check(x, &g.Doc)
	}
	ix.Check(ix.Open(f, h, nil), &g.Doc)
}
