package csvx

import (
	"bytes"
	"fmt"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Long: rows and cells whose lengths lie around the powers of two that buffers
// and encodings of lengths care about, and many columns.
//
//verif:harness prop=P06 quick="n=18" thorough="n=18" steps=4000000000 tbudget=1800 bounds="three rows, the second with a cell (its last character arbitrary; quoted or not) of the first n of 126, 127, 128, 254..257, 1000, 4095, 4096, 4097, 16383, 16384, 65537, 32768, 65535, 65536, 200000 bytes; or a column name of 126..128 or 236 bytes; or 13, 14, 15 or 31 columns"
func Long() {
	lens := []int{126, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 16383, 16384, 65537, 32768, 65535, 65536, 200000}
	kind := sym.Choose("kind", 4)
	cols := []string{"a", "b"}
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'm', c <= 'p'))
	var fill []byte
	switch kind {
	case 0, 1:
		fill = bytes.Repeat([]byte{'n'}, lens[sym.Choose("size", sym.Param("n", 12))])
		fill[len(fill)-1] = c
	case 2:
		cols[1] = string(bytes.Repeat([]byte{'n'}, []int{126, 127, 128, 236}[sym.Choose("size", 4)]))
	case 3:
		for i := []int{13, 14, 15, 31}[sym.Choose("cols", 4)]; len(cols) < i; {
			cols = append(cols, fmt.Sprintf("c%d", len(cols)))
		}
	}
	g := newGen(eol(), cols...)
	g.begin()
	g.plain(appendable.FieldTypeString, "n", []byte("n"))
	g.plain(appendable.FieldTypeFloat64, "7", f64(7))
	g.end()
	g.begin()
	switch kind {
	case 0:
		g.field(appendable.FieldTypeString, fill, 0, len(fill), fill)
		g.plain(appendable.FieldTypeFloat64, "1", f64(1))
	case 1:
		g.plain(appendable.FieldTypeFloat64, "1", f64(1))
		g.field(appendable.FieldTypeString, append(append([]byte{'"'}, fill...), '"'), 1, len(fill), fill)
	default:
		for i := range cols {
			b := []byte{c, byte('a' + i%3)}
			g.field(appendable.FieldTypeString, b, 0, 2, b)
		}
	}
	g.end()
	g.begin()
	g.plain(appendable.FieldTypeString, "nn", []byte("nn"))
	g.plain(appendable.FieldTypeString, "nn", []byte("nn"))
	g.end()
	g.run()
}

// Many: enough rows to split leaves.
//
//verif:harness prop=P06 quick="n=200" thorough="n=700" steps=4000000000 bounds="n fixed rows of a number and an empty cell, in scrambled order (several leaves), then one row of any of ten numbers and an arbitrary two-character string"
func Many() {
	g := newGen("\n", "a", "b")
	n := sym.Param("n", 300)
	for i := 0; i < n; i++ {
		v := 100 + i*73%1009%900
		g.begin()
		g.plain(appendable.FieldTypeFloat64, fmt.Sprint(v), f64(float64(v)))
		g.plain(appendable.FieldTypeNull, "", []byte{})
		g.end()
	}
	g.begin()
	k := nums[sym.Choose("num", len(nums))]
	g.plain(appendable.FieldTypeFloat64, k.s, f64(k.f))
	g.str(2)
	g.end()
	g.run()
}

// Steps: a row per synchronization.
//
//verif:harness prop=P02 quick="n=8" thorough="n=20" steps=4000000000 bounds="CSV: a header of 20 columns (indexes over several list pages) and n rows, the i-th with 5i cells (at most 20) of numbers, strings and empty ones, the last string of a row arbitrary; synchronized one by one through new handles, from the header on or with the first row"
func Steps() {
	var cols []string
	for i := 0; i < 20; i++ {
		cols = append(cols, fmt.Sprintf("c%d", i))
	}
	g := newGen("\n", cols...)
	f := ix.File()
	sync := func() {
		x := ix.Open(f, handlers.CSVHandler{}, nil)
		sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
		ix.Check(x, &g.Doc)
	}
	if sym.Choose("header", 2) == 1 {
		sync()
	}
	n := sym.Param("n", 5)
	for i := 0; i < n; i++ {
		g.begin()
		k := min(5*(i+1), len(cols))
		for j := 0; j < k; j++ {
			switch (i + j) % 3 {
			case 0:
				g.plain(appendable.FieldTypeFloat64, fmt.Sprint(i+j), f64(float64(i+j)))
			case 1:
				if i == n-1 && j >= k-3 {
					g.str(1)
				} else {
					g.plain(appendable.FieldTypeString, "v", []byte("v"))
				}
			case 2:
				g.plain(appendable.FieldTypeNull, "", []byte{})
			}
		}
		g.end()
		sync()
	}
	ix.Check(ix.Open(f, handlers.CSVHandler{}, nil), &g.Doc)
}
