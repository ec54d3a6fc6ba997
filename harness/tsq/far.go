package tsq

import (
	"fmt"

	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// Far: records behind gigabytes of others.
//
//verif:harness prop=P21 quick="n=3" thorough="n=8" bounds="n records with a number, null or not, and a string that is searched, the last with an arbitrary letter, behind a part of the data file that ends at, 1 or 15 bytes before 2^31 or 2^32; queries by number, by string in either direction, by null and a search; compared with the same records at the beginning of a file"
func Far() {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	var data []byte
	for i, n := 0, sym.Param("n", 3); i < n; i++ {
		x := byte('k')
		if i == n-1 {
			x = c
		}
		data = append(data, fmt.Sprintf(`{"a":%d,"s":"u`, 7+i/2)...)
		data = append(data, x)
		data = append(data, "\",\"z\":null}\n"...)
	}
	asks := []any{
		[]any(where("a", ">=", int64(7), "")),
		[]any(where("s", ">", "ug", "")),
		[]any(where("s", "<=", "ug", "DESC")),
		[]any(where("z", "==", tsx.Null{}, "")),
		[]any{undef, undef, undef, []any{"s", "uk", []any{int64(1), int64(2)}}},
	}
	index := func(far int, data []byte) []byte {
		f := ix.File()
		x := ix.Open(f, handlers.JSONLHandler{}, []string{"s"})
		m, err := x.Metadata()
		sym.Assert(err == nil, "reading file metadata failed")
		m.ReadOffset = uint64(far)
		sym.Assert(x.SetMetadata(m) == nil, "writing file metadata failed")
		sym.Assert(x.Synchronize(data) == nil, "synchronizing valid records failed")
		return f.Flat()
	}
	want, err := tsx.Call("far", data, index(0, data), int64(0), asks)
	sym.Assert(err == nil, "the client failed")
	far := []int{1 << 31, 1 << 32}[sym.Choose("far", 2)] - []int{0, 1, 15}[sym.Choose("before", 3)]
	got, err := tsx.Call("far", data, index(far, sym.Far(far, data)), int64(far), asks)
	sym.Assert(err == nil, "the client fails on records behind others")
	for i := range asks {
		w, g := want.([]any)[i].([]any), got.([]any)[i].([]any)
		sym.Assert(len(w) == len(g) && prefix(g, w), "the records behind others are found differently")
	}
}

// FarPages: index files of gigabytes.
//
//verif:harness prop=P21 quick="n=2" thorough="n=4" bounds="2n records, the later half with other fields too, indexed when the index file had grown to 0, 1 or 2 pages before 2^31, 2^32 or 2^43 bytes, so that list pages and tree pages lie on both sides; a string of an arbitrary letter; queries by number, by string in either direction and by fields of either half; compared with an index file without a gap"
func FarPages() {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	n := sym.Param("n", 2)
	rows := func(lo, hi int) []byte {
		var data []byte
		for i := lo; i < hi; i++ {
			x := byte('k')
			if i == hi-1 && lo > 0 {
				x = c
			}
			data = append(data, fmt.Sprintf(`{"a":%d,"s":"u`, 7+i/2)...)
			data = append(append(data, x), '"')
			for j := 0; j < 7; j++ {
				data = append(data, fmt.Sprintf(`,"%c":%d`, 'b'+j+7*(i/n), i)...)
			}
			data = append(data, "}\n"...)
		}
		return data
	}
	first := rows(0, n)
	data := append(append([]byte(nil), first...), rows(n, 2*n)...)
	asks := []any{
		[]any(where("a", ">=", int64(7), "")),
		[]any(where("s", ">", "ug", "")),
		[]any(where("s", "<=", "uk", "DESC")),
		[]any(where("b", "<=", int64(n), "")),
		[]any(where("o", ">=", int64(n), "DESC")),
	}
	index := func(size int64) any {
		f := ix.File()
		h := handlers.JSONLHandler{}
		sym.Assert(ix.Open(f, h, nil).Synchronize(first) == nil, "synchronizing valid records failed")
		if size > 0 {
			f.Skip(size)
		}
		sym.Assert(ix.Open(f, h, nil).Synchronize(data) == nil, "synchronizing valid records failed")
		if size == 0 {
			return f.Flat()
		}
		return f.Parts()
	}
	want, err := tsx.Call("far", data, index(0), int64(0), asks)
	sym.Assert(err == nil, "the client failed")
	size := int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*4096
	got, err := tsx.Call("far", data, index(size), int64(0), asks)
	sym.Assert(err == nil, "the client fails on an index file of gigabytes")
	for i := range asks {
		w, g := want.([]any)[i].([]any), got.([]any)[i].([]any)
		sym.Assert(len(w) > 0 && len(w) == len(g) && prefix(g, w), "an index file of gigabytes is read differently")
	}
}
