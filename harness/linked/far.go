package linked

import (
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Far: lists whose later pages lie behind gigabytes.
//
//verif:harness prop=P09 quick="k=1,edge=1" thorough="k=1,edge=0" bounds="lists of 1, 15 or 16 slots in a file that then grew to 0, 1 or 2 pages before 2^31, 2^32 or 2^43 bytes, then 16 more; then k updates as in Isolation (quick tier: on the slots next to a page boundary, the first and the last two)"
func Far() {
	w := newWorld()
	n := []int{1, 15, 16}[sym.Choose("slots", 3)]
	for i := 0; i < n+16; i++ {
		if i == n {
			w.f.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*4096)
			pf, err := pagefile.NewPageFile(w.f)
			sym.Assert(err == nil, "reopening failed")
			w.pf = pf
		}
		h := w.add()
		mp := pointer.MemoryPointer{Offset: uint64(i)*7 + 1, Length: uint32(i) + 3}
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		md := []byte{byte(i), 1, 2, byte(i)}
		sym.Assert(h.SetMetadata(md) == nil, "SetMetadata failed")
		w.s[i] = slot{mp, md}
	}
	for i := 0; i < sym.Param("k", 1); i++ {
		w.mutate([]int{0, 1, 20, 252, 256})
	}
	w.agree()
}
