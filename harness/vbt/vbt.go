// Package vbt: the vector B-tree.
package vbt

import (
	"math"

	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

func vec(d int) hnsw.Point {
	p := make(hnsw.Point, d)
	for i := range p {
		p[i] = math.Float32frombits(sym.Uint32("coord"))
	}
	return p
}

func sameVec(a, b hnsw.Point) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, math.Float32bits(a[i]) == math.Float32bits(b[i]))
	}
	return r
}

type ent struct {
	k pointer.ReferencedId
	v hnsw.Point
}

func find(m []ent, id hnsw.Id) int {
	for i := range m {
		if m[i].k.Value == id {
			return i
		}
	}
	return -1
}

func insert(t *btree.BTree, m []ent, e ent) []ent {
	err := t.Insert(e.k, e.v)
	have := find(m, e.k.Value) >= 0
	sym.Assert((err != nil) == have, "Insert must fail exactly on an id that is already present")
	if have {
		return m
	}
	return append(m, e)
}

func agree(t *btree.BTree, m []ent) {
	for _, e := range m {
		k, v, err := t.Find(pointer.ReferencedId{Value: e.k.Value})
		sym.Assert(err == nil, "an inserted id is not found")
		sym.Assert(sym.And(k.Value == e.k.Value, sym.And(k.DataPointer.Offset == e.k.DataPointer.Offset, k.DataPointer.Length == e.k.DataPointer.Length)), "the stored id or data pointer changed")
		sym.Assert(sameVec(v, e.v), "the stored vector changed")
	}
}

func mk(page, dim int) (*btree.BTree, *hx.Pager, *hx.Meta) {
	p, meta := hx.NewPager(page), &hx.Meta{}
	return btree.NewBTree(meta, p, uint64(dim)), p, meta
}

// History: arbitrary ids and vectors.
//
//verif:harness prop=P07 quick="n=5,dim=1,page=32,bits=7" thorough="n=5,dim=2,page=44,bits=15" tbudget=2400 bounds="every history of n insertions of ids below 2^bits with arbitrary dim-dimensional vectors (all float32 bit patterns), two to three entries per node; absent ids"
func History() {
	dim := sym.Param("dim", 1)
	t, p, meta := mk(sym.Param("page", 32), dim)
	var m []ent
	for i := 0; i < sym.Param("n", 4); i++ {
		id := sym.Uint16("id")
		sym.Assume(id < 1<<uint(sym.Param("bits", 7)))
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(id), DataPointer: pointer.MemoryPointer{Offset: uint64(i + 1), Length: uint32(i)}}, vec(dim)})
	}
	agree(btree.NewBTree(meta, p, uint64(dim)), m)
	x := hnsw.Id(sym.Uint16("probe"))
	_, v, err := t.Find(pointer.ReferencedId{Value: x})
	if i := find(m, x); i >= 0 {
		sym.Assert(err == nil && sameVec(v, m[i].v), "an inserted id is not found")
	} else {
		sym.Assert(err != nil, "Find of an absent id must fail")
	}
}

// Deep: arbitrary insertions into trees of several levels.
//
//verif:harness prop=P07 quick="d=14,n=2" thorough="d=30,n=2" bounds="trees of d ids in ascending, descending or alternating order, then every choice of n ids below 2^8"
func Deep() {
	t, _, _ := mk(34, 1)
	var m []ent
	d := sym.Param("d", 14)
	order := sym.Choose("order", 3)
	for i := 0; i < d; i++ {
		j := i
		if order == 1 || order == 2 && i%2 == 1 {
			j = d - 1 - i
			if order == 2 {
				j = d - i
				if d%2 == 1 {
					j = d - 1 - i
				}
			}
		}
		if find(m, hnsw.Id(2*j+2)) >= 0 {
			continue
		}
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(2*j + 2), DataPointer: pointer.MemoryPointer{Offset: uint64(j)}}, hnsw.Point{float32(j) + 0.5}})
	}
	for i := 0; i < sym.Param("n", 2); i++ {
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(sym.Byte("id"))}, vec(1)})
	}
	agree(t, m)
}

// Wide: long vectors on full-size pages.
//
//verif:harness prop=P07 quick="d=12,n=1" thorough="d=40,n=2" tbudget=1800 steps=4000000000 bounds="4096-byte pages of the real page file, vectors of 31, 32, 100, 127, 128 or 300 dimensions: d ids in ascending, descending or alternating order, then every choice of n ids below 2^8; first and last coordinate arbitrary"
func Wide() {
	pf, err := pagefile.NewPageFile(&hx.Sparse{})
	sym.Assert(err == nil, "page file")
	dim := []int{31, 32, 100, 127, 128, 300}[sym.Choose("dim", 6)]
	t := btree.NewBTree(&hx.Meta{}, pf, uint64(dim))
	v := func(i int) hnsw.Point {
		p := make(hnsw.Point, dim)
		for j := range p {
			p[j] = float32(i*dim + j)
		}
		return p
	}
	var m []ent
	d, order := sym.Param("d", 12), sym.Choose("order", 3)
	for i := 0; i < d; i++ {
		j := []int{i, d - 1 - i, i / 2}[order]
		if order == 2 && i%2 == 1 {
			j = d - 1 - i/2
		}
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(6*j + 2), DataPointer: pointer.MemoryPointer{Offset: uint64(j) << 20, Length: 1 << 20}}, v(j)})
	}
	for i := 0; i < sym.Param("n", 2); i++ {
		p := v(d + i)
		p[0], p[dim-1] = math.Float32frombits(sym.Uint32("coord")), math.Float32frombits(sym.Uint32("coord"))
		m = insert(t, m, ent{pointer.ReferencedId{Value: hnsw.Id(sym.Byte("id"))}, p})
	}
	agree(t, m)
}

// Empty: nothing is found in an empty tree.
//
//verif:harness prop=P07 quick="" bounds="every 64-bit id"
func Empty() {
	t, _, _ := mk(64, 2)
	k, v, err := t.Find(pointer.ReferencedId{Value: hnsw.Id(sym.Uint64("id"))})
	sym.Assert(err != nil || k == (pointer.ReferencedId{}) && len(v) == 0, "an empty tree must find nothing")
}

// Node round trip.
//
//verif:harness prop=P07 quick="n=2,dim=3,ob=14,ib=14" thorough="n=3,dim=4,ob=21,ib=21" tbudget=1800 bounds="nodes (leaf and internal) with 1..n ids below 2^ib, data pointer offsets below 2^ob, vectors of 1..dim arbitrary float32"
func Node() {
	dim := 1 + sym.Choose("dim", sym.Param("dim", 2))
	k := 1 + sym.Choose("n", sym.Param("n", 2))
	leaf := sym.Choose("leaf", 2) == 1
	n := &btree.BTreeNode{VectorDim: uint64(dim)}
	lim := func(v uint64, b int) uint64 { sym.Assume(v < 1<<uint(b)); return v }
	for i := 0; i < k; i++ {
		n.Ids = append(n.Ids, pointer.ReferencedId{Value: hnsw.Id(lim(sym.Uint64("id"), sym.Param("ib", 14))), DataPointer: pointer.MemoryPointer{Offset: lim(sym.Uint64("off"), sym.Param("ob", 14)), Length: uint32(sym.Byte("len"))}})
		n.Vectors = append(n.Vectors, vec(dim))
	}
	for i := 0; !leaf && i <= k; i++ {
		n.Offsets = append(n.Offsets, uint64(sym.Byte("child")))
	}
	roundTrip(n)
}

// Node1: full ranges in a one-id leaf.
//
//verif:harness prop=P07 quick="" bounds="one-id leaf: every 64-bit id and data pointer offset, 32-bit length, dimension 1"
func Node1() {
	n := &btree.BTreeNode{VectorDim: 1}
	n.Ids = []pointer.ReferencedId{{Value: hnsw.Id(sym.Uint64("id")), DataPointer: pointer.MemoryPointer{Offset: sym.Uint64("off"), Length: sym.Uint32("len")}}}
	n.Vectors = []hnsw.Point{vec(1)}
	roundTrip(n)
}

func roundTrip(n *btree.BTreeNode) {
	buf, err := n.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(int64(len(buf)) == n.Size(), "Size is not the encoded length")
	d := &btree.BTreeNode{}
	sym.Assert(d.UnmarshalBinary(append(buf, 0xa5, 0xa5)) == nil, "decoding failed")
	sym.Assert(d.Leaf() == n.Leaf() && len(d.Ids) == len(n.Ids) && len(d.Vectors) == len(n.Vectors) && len(d.Offsets) == len(n.Offsets), "the shape of the node changed")
	sym.Assert(d.VectorDim == n.VectorDim, "the vector dimension changed")
	for i := range n.Ids {
		a, b := n.Ids[i], d.Ids[i]
		sym.Assert(sym.And(a.Value == b.Value, sym.And(a.DataPointer.Offset == b.DataPointer.Offset, a.DataPointer.Length == b.DataPointer.Length)), "an id changed")
		sym.Assert(sameVec(n.Vectors[i], d.Vectors[i]), "a vector changed")
	}
	for i := range n.Offsets {
		sym.Assert(n.Offsets[i] == d.Offsets[i], "a child offset changed")
	}
	sym.ObsBytes("buf", buf)
}
