// Package graph: the HNSW graph.
package graph

//verif:inpkg hnsw

import (
	"encoding/binary"
	"math"
	"math/rand"

	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// coord is one of the 2^b coordinates 2, 3, 4, ...
func coord(b int) float32 {
	bits := make([]bool, b)
	for i := range bits {
		bits[i] = sym.Bool("x")
	}
	var pick func(i, v int) uint64
	pick = func(i, v int) uint64 {
		if i == b {
			return uint64(math.Float32bits(float32(2 + v)))
		}
		return sym.Ite(bits[i], pick(i+1, 2*v+1), pick(i+1, 2*v))
	}
	return math.Float32frombits(uint32(pick(0, 0)))
}

func (w *world) point(b int) hnsw.Point {
	p := make(hnsw.Point, w.d)
	for i := range p {
		p[i] = coord(b)
	}
	return p
}

type world struct {
	d  int
	h  *hnsw.Hnsw
	ps []hnsw.Point
	// tops are the top levels of the nodes.
	tops []int
	m    int
}

// levels are values of the random source that yield levels 0, 1 and 2 for M=2..4.
func (w *world) add(b, levels int) {
	l := sym.Choose("level", levels)
	rand.VerifHook = func() float64 { return math.Exp(-(float64(l) + 0.5) * math.Log(float64(w.m))) }
	p := w.point(b)
	id, err := w.h.InsertVector(p)
	rand.VerifHook = nil
	sym.Assert(err == nil, "inserting a vector failed")
	sym.Assert(id == hnsw.Id(len(w.ps)), "ids are not consecutive")
	w.ps = append(w.ps, p)
	w.tops = append(w.tops, l)
}

// agree checks every neighborhood.
func (w *world) agree() {
	for i := range w.ps {
		f, err := w.h.Neighborhood(hnsw.Id(i))
		sym.Assert(err == nil, "a node has no neighborhood")
		sym.Assert(f.TopLevel() == w.tops[i], "a node is on another level than drawn")
		for l := 0; l <= f.TopLevel(); l++ {
			d, err := f.GetFriendsAtLevel(l)
			sym.Assert(err == nil, "a level of a node has no neighbors list")
			seen := map[hnsw.Id]bool{}
			for _, it := range items(d) {
				id, dist := hnsw.VerifItem(it)
				sym.Assert(int(id) < len(w.ps), "a neighbor does not exist")
				sym.Assert(int(id) != i, "a node is its own neighbor")
				sym.Assert(!seen[id], "a neighbor is listed twice")
				seen[id] = true
				sym.Assert(w.tops[id] >= l, "a neighbor is not on the level")
				sym.Assert(dist == hnsw.EuclidDistance(w.ps[i], w.ps[id]), "a neighbor is recorded with a wrong distance")
			}
		}
	}
}

func (w *world) search(b int, k int) {
	q := w.point(b)
	r, err := w.h.KnnSearch(q, k)
	sym.Assert(err == nil, "searching failed")
	n := min(k, len(w.ps))
	sym.Assert(r.Len() == n, "a search must return k points, or all when there are fewer")
	got, far := w.results(q, r, n)
	for i := range w.ps {
		if !got[hnsw.Id(i)] {
			sym.Assert(!(hnsw.EuclidDistance(w.ps[i], q) < far), "a point nearer than a result was not returned")
		}
	}
}

// results takes the n results nearest first and checks them.
func (w *world) results(q hnsw.Point, r *hnsw.DistHeap, n int) (map[hnsw.Id]bool, float32) {
	got := map[hnsw.Id]bool{}
	var far float32
	for i := 0; i < n; i++ {
		it, err := r.PopMinItem()
		sym.Assert(err == nil, "reading a result failed")
		id, d := hnsw.VerifItem(it)
		sym.Assert(int(id) < len(w.ps) && !got[id], "a result is no point or is returned twice")
		got[id] = true
		sym.Assert(d == hnsw.EuclidDistance(w.ps[id], q), "a result has a wrong distance")
		sym.Assert(!(d < far), "results are out of order")
		far = d
	}
	return got, far
}

func newWorld(d, ef, m, b int) *world {
	w := &world{d: d, m: m}
	p := w.point(b)
	w.h = hnsw.NewHnsw(d, ef, m, p)
	w.ps, w.tops = []hnsw.Point{p}, []int{0}
	return w
}

// Small: graphs in which every node can know every other.
//
//verif:harness prop=P13 quick="n=3,b=2" thorough="n=4,b=2" bounds="an entry point and n vectors on the line with 2^b possible coordinates each, every choice of levels 0..2, M=n, candidate list n+1: neighborhoods, and a search for every coordinate and k=1..n+2"
func Small() {
	n, b := sym.Param("n", 3), sym.Param("b", 2)
	w := newWorld(1, n+1, n, b)
	for i := 0; i < n; i++ {
		w.add(b, 3)
	}
	w.agree()
	w.search(b, 1+sym.Choose("k", n+2))
}

// Plane: the same with two coordinates.
//
//verif:harness prop=P13 quick="n=3,b=1" thorough="n=4,b=1" bounds="as Small in two dimensions: an entry point and n vectors with 2^b coordinates per axis"
func Plane() {
	n, b := sym.Param("n", 3), sym.Param("b", 1)
	w := newWorld(2, n+1, n, b)
	for i := 0; i < n; i++ {
		w.add(b, 2)
	}
	w.agree()
	w.search(b, 1+sym.Choose("k", n+1))
}

// Large: graphs whose neighborhoods and candidate lists are smaller than the graph.
//
//verif:harness prop=P13 quick="n=4,b=2" thorough="n=5,b=2" bounds="an entry point and n vectors on the line with 2^b possible coordinates each, every choice of levels 0 and 1, M=2, candidate list 2: neighborhoods, and a search for every coordinate with k=2"
func Large() {
	n, b := sym.Param("n", 4), sym.Param("b", 2)
	w := newWorld(1, 2, 2, b)
	for i := 0; i < n; i++ {
		w.add(b, 2)
	}
	w.agree()
	q := w.point(b)
	r, err := w.h.KnnSearch(q, 2)
	sym.Assert(err == nil, "searching failed")
	w.results(q, r, r.Len())
	sym.Assert(r.Len() <= 2, "a search returned more than k points")
}

// Wrong: vectors of another dimension are refused and leave the graph alone.
//
//verif:harness prop=P13 bounds="a graph of dimension 2 with two vectors, an insertion of a vector of dimension 0..4"
func Wrong() {
	w := newWorld(2, 2, 2, 1)
	w.add(1, 2)
	n := sym.Choose("dim", 5)
	p := make(hnsw.Point, n)
	for i := range p {
		p[i] = coord(1)
	}
	rand.VerifHook = func() float64 { return 0.7 }
	id, err := w.h.InsertVector(p)
	rand.VerifHook = nil
	if n == 2 {
		sym.Assert(err == nil && id == 2, "a vector of the right dimension is refused")
		return
	}
	sym.Assert(err != nil, "a vector of another dimension is accepted")
	_, err = w.h.Neighborhood(2)
	sym.Assert(err != nil && w.h.GenerateId() == 2, "a refused vector is in the graph")
	w.agree()
}

// Flush: the neighborhood written out lists the nearest neighbors with their highest levels.
//
//verif:harness prop=P13 quick="n=4" thorough="n=5" bounds="a node of levels 0..2, n insertions of any of 3 neighbors on any level at any of 4 distances (the same one for the same neighbor), written with room for 1..4 neighbors"
func Flush() {
	n := sym.Param("n", 4)
	f := hnsw.NewFriends(2)
	var dist [4]float32
	for i := 1; i < 4; i++ {
		dist[i] = coord(2)
	}
	max := map[hnsw.Id]int{}
	var has [3]map[hnsw.Id]bool
	for l := range has {
		has[l] = map[hnsw.Id]bool{}
	}
	for i := 0; i < n; i++ {
		id, l := hnsw.Id(1+sym.Choose("id", 3)), sym.Choose("level", 3)
		f.InsertFriendsAtLevel(l, id, dist[id])
		if m, ok := max[id]; !ok || l > m {
			max[id] = l
		}
		for k := 0; k <= l; k++ {
			has[k][id] = true
		}
	}
	for l := range has {
		d, err := f.GetFriendsAtLevel(l)
		sym.Assert(err == nil && d.Len() == len(has[l]), "a level does not have the neighbors inserted on it or above")
		for _, it := range items(d) {
			id, x := hnsw.VerifItem(it)
			sym.Assert(has[l][id] && x == dist[id], "a level has a neighbor that was not inserted, or another distance")
		}
	}
	k := 1 + sym.Choose("room", 4)
	buf, err := f.Flush(k)
	sym.Assert(err == nil && len(buf) == 5*k, "a neighborhood is not written with five bytes per neighbor")
	wrote := map[hnsw.Id]bool{}
	var far float32
	for i := 0; i < k; i++ {
		id := hnsw.Id(binary.BigEndian.Uint32(buf[5*i+1:]))
		if i >= len(max) {
			sym.Assert(id == 0 && buf[5*i] == 0, "unused room is not zero")
			continue
		}
		m, ok := max[id]
		sym.Assert(ok && !wrote[id], "a neighborhood lists a neighbor that was not inserted, or one twice")
		sym.Assert(int(buf[5*i]) == m, "a neighbor is written with another level than its highest")
		sym.Assert(!(dist[id] < far), "neighbors are not written nearest first")
		wrote[id], far = true, dist[id]
	}
	d, err := f.GetFriendsAtLevel(0)
	sym.Assert(err == nil && d.Len() == len(max), "writing a neighborhood changed it")
}

// items lists the items of a heap, nearest first.
func items(d *hnsw.DistHeap) []*hnsw.Item {
	var r []*hnsw.Item
	for c := d.Clone(); !c.IsEmpty(); {
		it, err := c.PopMinItem()
		sym.Assert(err == nil, "taking an item from a heap failed")
		r = append(r, it)
	}
	return r
}
