package tsc

import (
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// LinkedFar: lists whose later pages lie behind gigabytes.
//
//verif:harness prop=P19 quick="" bounds="lists of 1, 15 or 16 indexes in a file that then grew to 0, 1 or 2 pages before 2^31, 2^32 or 2^43 bytes, then 16 more; the last with any root and metadata of 1 or 252 bytes"
func LinkedFar() {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "page file")
	h, err := linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "linked pages")
	h, err = h.AddNext() // file metadata
	sym.Assert(err == nil, "AddNext")
	n := []int{1, 15, 16}[sym.Choose("slots", 3)]
	var roots []pointer.MemoryPointer
	var metas [][]byte
	for i := 0; i <= n+16; i++ {
		if i == n {
			f.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*4096)
		}
		if i > 0 {
			h, err = h.AddNext()
			sym.Assert(err == nil, "AddNext")
		}
		r := pointer.MemoryPointer{Offset: uint64(i)*7 + 1, Length: uint32(i) + 3}
		md := []byte{byte(i), 1, 2, byte(i)}
		if i == n+16 {
			r = pointer.MemoryPointer{Offset: sym.Uint64("root.off"), Length: sym.Uint32("root.len")}
			md = make([]byte, []int{1, 252}[sym.Choose("len", 2)])
			md[0] = sym.Byte("first")
		}
		sym.Assert(h.SetRoot(r) == nil && h.SetMetadata(md) == nil, "updating a slot failed")
		roots, metas = append(roots, r), append(metas, md)
	}
	a := call("linked", f.Parts(), n+20)
	sym.Assert(len(a) == len(roots), "the client finds another number of indexes")
	for i := range roots {
		x := a[i].([]any)
		sym.Assert(sym.EqBytes(x[0].([]byte), metas[i]), "the client reads other metadata of an index")
		sym.Assert(sym.And(x[1].(uint64) == roots[i].Offset, x[2].(int64) == int64(roots[i].Length)), "the client reads another root of an index")
	}
}
