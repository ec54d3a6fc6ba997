package vbt

import (
	"math"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Far: trees of which a part lies behind gigabytes.
//
//verif:harness prop=P07 quick="d=5,e=4,n=1" thorough="d=14,e=10,n=2" bounds="trees of d ids in ascending or descending order, then e ids between them on pages from 0, 1 or 2 pages before 2^31, 2^32 or 2^43 on, then every choice of n ids below 2^8 with any vector and one of three data pointers"
func Far() {
	t, p, meta := mk(64, 1)
	var m []ent
	d, order := sym.Param("d", 5), sym.Choose("order", 2)
	for i := 0; i < d+sym.Param("e", 4); i++ {
		if i == d {
			p.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*64)
		}
		j := i
		if order == 1 {
			j = d - 1 - i
		}
		if i >= d {
			j = i - d
		}
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(4*j + 2 + i/d), DataPointer: pointer.MemoryPointer{Offset: uint64(j) << 33, Length: 1 << 31}}, hnsw.Point{float32(j) + 0.5}})
	}
	for i := 0; i < sym.Param("n", 1); i++ {
		off := uint64(1) << (31 * sym.Choose("off", 3))
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(sym.Byte("id")), DataPointer: pointer.MemoryPointer{Offset: off}}, hnsw.Point{math.Float32frombits(sym.Uint32("coord"))}})
	}
	agree(btree.NewBTree(meta, p, 1), m)
}
