// Package vstore: the vector store (graph, vector B-tree and neighborhood tree together).
package vstore

import (
	"bytes"
	"math"
	"math/rand"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/pkg/vectorpage"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// room is the number of neighbors a neighborhood is written with.
const room = 8

// coord is one of the 2^b coordinates 2, 3, 4, ...
func coord(b int) float32 {
	bits := make([]bool, b)
	for i := range bits {
		bits[i] = sym.Bool("x")
	}
	var pick func(i, v int) uint64
	pick = func(i, v int) uint64 {
		if i == b {
			return uint64(math.Float32bits(float32(2 + v)))
		}
		return sym.Ite(bits[i], pick(i+1, 2*v+1), pick(i+1, 2*v))
	}
	return math.Float32frombits(uint32(pick(0, 0)))
}

type store struct {
	d, m    int
	f       *hx.Sparse
	h       *hnsw.Hnsw
	vectors *btree.BTree
	hoods   *bptree.BPTree
	s       *vectorpage.VectorPageManager

	ps    []hnsw.Point
	texts [][]byte // the neighborhoods as written
}

// open builds a store of d dimensions over a page file, with an entry point
// of coordinates on a grid.
func open(d, ef, m, b int) *store {
	p := make(hnsw.Point, d)
	for i := range p {
		p[i] = coord(b)
	}
	return openAt(p, ef, m)
}

func openAt(p hnsw.Point, ef, m int) *store {
	d := len(p)
	s := &store{d: d, m: m, f: &hx.Sparse{}}
	pf, err := pagefile.NewPageFile(s.f)
	sym.Assert(err == nil, "page file")
	list, err := linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "list of trees")
	one, err := list.AddNext()
	sym.Assert(err == nil, "first slot")
	two, err := one.AddNext()
	sym.Assert(err == nil, "second slot")
	s.h = hnsw.NewHnsw(d, ef, m, p)
	s.vectors = one.BTree(&btree.BTree{VectorDim: uint64(d)})
	s.hoods = two.BPTree(&bptree.BPTree{Width: 5*room + 1})
	s.s = vectorpage.NewVectorPageManager(s.vectors, s.hoods, s.h)
	s.ps, s.texts = []hnsw.Point{p}, [][]byte{nil}
	return s
}

func (s *store) point(b int) hnsw.Point {
	p := make(hnsw.Point, s.d)
	for i := range p {
		p[i] = coord(b)
	}
	return p
}

func (s *store) level(levels int) {
	l := sym.Choose("level", levels)
	rand.VerifHook = func() float64 { return math.Exp(-(float64(l) + 0.5) * math.Log(float64(s.m))) }
}

func (s *store) add(p hnsw.Point, levels int) {
	s.level(levels)
	err := s.s.AddNode(p)
	rand.VerifHook = nil
	sym.Assert(err == nil, "adding a vector failed")
	f, err := s.h.Neighborhood(hnsw.Id(len(s.ps)))
	sym.Assert(err == nil, "an added vector is not in the graph under the next id")
	text, err := f.Flush(room)
	sym.Assert(err == nil, "neighborhood")
	s.ps, s.texts = append(s.ps, p), append(s.texts, text)
}

// agree checks both trees against the vectors added.
func (s *store) agree() {
	for i := 1; i < len(s.ps); i++ {
		k, v, err := s.vectors.Find(pointer.ReferencedId{Value: hnsw.Id(i)})
		sym.Assert(err == nil && k.Value == hnsw.Id(i), "an added vector is not found under its id")
		sym.Assert(len(v) == len(s.ps[i]), "a vector has another dimension")
		for j := range v {
			sym.Assert(math.Float32bits(v[j]) == math.Float32bits(s.ps[i][j]), "a stored vector is not the one added")
		}
	}
	_, _, err := s.vectors.Find(pointer.ReferencedId{Value: hnsw.Id(len(s.ps))})
	sym.Assert(err != nil || len(s.ps) == 1, "a vector is found that was not added")
	it, err := s.hoods.Iter(pointer.ReferencedValue{})
	sym.Assert(err == nil, "iterating over the neighborhoods failed")
	seen := map[int]bool{}
	for it.Next() {
		k := it.Key()
		i := int(k.DataPointer.Offset)
		sym.Assert(i >= 1 && i < len(s.ps) && !seen[i], "a neighborhood is stored for no vector, or twice for one")
		sym.Assert(bytes.Equal(k.Value, s.texts[i]), "the stored neighborhood is not that of its vector when it was added")
		seen[i] = true
	}
	sym.Assert(it.Err() == nil, "iterating over the neighborhoods failed")
	sym.Assert(len(seen) == len(s.ps)-1, "the neighborhood of a vector is missing")
}

// Line: vectors on a line.
//
//verif:harness prop=P25 quick="n=3,b=2" thorough="n=4,b=2" bounds="an entry point and n vectors on the line with 2^b possible coordinates each, every choice of levels 0 and 1, M=2, candidate list 3, both trees on one page file"
func Line() {
	n, b := sym.Param("n", 3), sym.Param("b", 2)
	s := open(1, 3, 2, b)
	s.agree()
	for i := 0; i < n; i++ {
		s.add(s.point(b), 2)
	}
	s.agree()
}

// Plane: vectors of two coordinates.
//
//verif:harness prop=P25 quick="n=3,b=1" thorough="n=4,b=1" bounds="as Line in two dimensions: an entry point and n vectors with 2^b coordinates per axis"
func Plane() {
	n, b := sym.Param("n", 3), sym.Param("b", 1)
	s := open(2, n+1, 3, b)
	for i := 0; i < n; i++ {
		s.add(s.point(b), 2)
	}
	s.agree()
}

// Bits: vectors of unusual numbers.
//
//verif:harness prop=P25 bounds="two vectors of two coordinates out of 12: zeros of both signs, the least, the least normal and the greatest number, infinities, numbers that are not exact in decimal, NaNs with different payloads"
func Bits() {
	s := openAt(hnsw.Point{1, 2}, 3, 2)
	for i := 0; i < 2; i++ {
		p := make(hnsw.Point, 2)
		for j := range p {
			p[j] = math.Float32frombits([]uint32{0, 1 << 31, 1, 1<<31 | 1, 0x00800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x3dcccccd, 0xc0490fdb, 0x7fc00001, 0xffc12345}[sym.Choose("coord", 12)])
		}
		s.add(p, 1)
	}
	s.agree()
}

// Many: more vectors than a neighborhood is written with, and more than a page holds.
//
//verif:harness prop=P25 quick="n=24,m=10" thorough="n=60,m=12" tbudget=1800 steps=4000000000 bounds="n vectors of 40 dimensions in ascending, descending or alternating order or all the same, M=m, then one with a first coordinate on a grid of 8"
func Many() {
	n, m := sym.Param("n", 24), sym.Param("m", 10)
	s := openAt(make(hnsw.Point, 40), m+2, m)
	order := sym.Choose("order", 4)
	for i := 0; i < n; i++ {
		p := make(hnsw.Point, 40)
		p[0] = float32([]int{i, n - i, i * (i%2*2 - 1), 3}[order])
		p[39] = 1
		s.add(p, 1)
	}
	p := make(hnsw.Point, 40)
	p[0], p[39] = coord(3), 1
	s.add(p, 2)
	s.agree()
}

// Wrong: a vector of another dimension is refused and leaves the store alone.
//
//verif:harness prop=P25 bounds="a store of dimension 2 with up to 2 vectors, an addition of a vector of dimension 0..4, then one of dimension 2"
func Wrong() {
	s := open(2, 3, 2, 1)
	for i := sym.Choose("n", 3); i > 0; i-- {
		s.add(s.point(1), 2)
	}
	n := sym.Choose("dim", 5)
	sym.Assume(n != 2)
	s.level(2)
	err := s.s.AddNode(make(hnsw.Point, n))
	rand.VerifHook = nil
	sym.Assert(err != nil, "a vector of another dimension is accepted")
	s.agree()
	s.add(s.point(1), 2)
	s.agree()
}

// Fault: a storage failure is reported.
//
//verif:harness prop=P25 bounds="a store with one or two vectors, an addition during which any one storage operation fails, once or from then on"
func Fault() {
	s := open(1, 3, 2, 1)
	for i := 1 + sym.Choose("n", 2); i > 0; i-- {
		s.add(s.point(1), 1)
	}
	s.f.Ops, s.f.FailAt, s.f.Sticky = 0, 1+sym.Choose("op", 40), sym.Choose("sticky", 2) == 1
	p := s.point(1)
	s.level(1)
	err := s.s.AddNode(p)
	rand.VerifHook = nil
	sym.Assert(!s.f.Failed || err != nil, "a storage failure is not reported")
	sym.Assert(s.f.Failed || err == nil, "adding a vector failed")
	// the vectors added before are still there
	s.f.FailAt = 0
	for i := 1; i < len(s.ps); i++ {
		_, v, err := s.vectors.Find(pointer.ReferencedId{Value: hnsw.Id(i)})
		sym.Assert(err == nil && len(v) == 1 && v[0] == s.ps[i][0], "a failed addition damaged a stored vector")
	}
}
