// Package heap: the min-max heap of distances.
package heap

//verif:inpkg hnsw

import (
	"errors"
	"math"

	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

type ent struct {
	id hnsw.Id
	d  float32
}

func dist() float32 {
	f := math.Float32frombits(sym.Uint32("d"))
	sym.Assume(f == f)
	return f
}

// rank is one of 32 distances: enough for every order of the items, with ties.
func rank() float32 {
	b := sym.Byte("rank")
	sym.Assume(b < 32)
	return math.Float32frombits(0x3f800000 | uint32(b)<<18)
}

func put(m []ent, id hnsw.Id, d float32) []ent {
	m = append([]ent(nil), m...)
	for i := range m {
		if m[i].id == id {
			m[i].d = d
			return m
		}
	}
	return append(m, ent{id, d})
}

// take removes the popped item from the model: it must be there, and no item
// may be below (max: above) it.
func take(m []ent, it *hnsw.Item, max bool, remove bool) []ent {
	id, d := hnsw.VerifItem(it)
	at := -1
	best := true
	for i := range m {
		if m[i].id == id {
			at = i
		}
		if max {
			best = sym.And(best, !(m[i].d > d))
		} else {
			best = sym.And(best, !(m[i].d < d))
		}
	}
	sym.Assert(at >= 0, "the heap yields an item that is not in it")
	sym.Assert(m[at].d == d, "the heap yields another distance than was inserted")
	sym.Assert(best, "the heap does not yield the nearest (farthest) item")
	if !remove {
		return m
	}
	r := append([]ent(nil), m[:at]...)
	return append(r, m[at+1:]...)
}

func agree(h *hnsw.DistHeap, m []ent) {
	sym.Assert(h.Len() == len(m) && h.IsEmpty() == (len(m) == 0), "wrong number of items")
	a, err := h.PeekMinItem()
	b, err2 := h.PeekMaxItem()
	if len(m) == 0 {
		sym.Assert(errors.Is(err, hnsw.EmptyHeapError) && errors.Is(err2, hnsw.EmptyHeapError), "peeking into an empty heap must fail")
		return
	}
	sym.Assert(err == nil && err2 == nil, "peeking failed")
	take(m, a, false, false)
	take(m, b, true, false)
}

func popMin(h *hnsw.DistHeap, m []ent) []ent {
	it, err := h.PopMinItem()
	if len(m) == 0 {
		sym.Assert(errors.Is(err, hnsw.EmptyHeapError), "popping from an empty heap must fail")
		return m
	}
	sym.Assert(err == nil, "popping failed")
	return take(m, it, false, true)
}

func popMax(h *hnsw.DistHeap, m []ent) []ent {
	it, err := h.PopMaxItem()
	if len(m) == 0 {
		sym.Assert(errors.Is(err, hnsw.EmptyHeapError), "popping from an empty heap must fail")
		return m
	}
	sym.Assert(err == nil, "popping failed")
	return take(m, it, true, true)
}

func drain(h *hnsw.DistHeap, m []ent) {
	for len(m) > 0 {
		m = popMin(h, m)
	}
	agree(h, m)
}

// Push: n different ids with arbitrary distances, then popped from either end.
//
//verif:harness prop=P12 quick="n=5" thorough="n=6" tbudget=2400 bounds="n items with different ids and arbitrary distances (every float32 but NaN), then n pops, each from either end, with peeks at both ends in between"
func Push() {
	h := hnsw.NewDistHeap()
	var m []ent
	n := sym.Param("n", 5)
	for i := 0; i < n; i++ {
		d := dist()
		h.Insert(hnsw.Id(i), d)
		m = put(m, hnsw.Id(i), d)
	}
	for i := 0; i <= n; i++ {
		agree(h, m)
		if sym.Bool("max") {
			m = popMax(h, m)
		} else {
			m = popMin(h, m)
		}
	}
}

// Step: one update of any valid heap of n items.
//
//verif:harness prop=P12 quick="n=8,pops=2" thorough="n=12,pops=2" tbudget=3600 bounds="heaps of 1..n items inserted in any order that keeps the newest at the bottom (every min-max arrangement of distances arises so), then one operation: pop either end, insert a new id, or change the distance of any id; then up to `pops` pops from either end with peeks"
func Step() {
	h := hnsw.NewDistHeap()
	var m []ent
	n := 1 + sym.Choose("n", sym.Param("n", 9))
	ds := make([]float32, n)
	for i := range ds {
		ds[i] = rank()
		min := true // level of the parent
		for j := (i + 1) / 2; j > 1; j /= 2 {
			min = !min
		}
		if i > 0 {
			p := (i - 1) / 2
			if min {
				sym.Assume(ds[p] <= ds[i])
			} else {
				sym.Assume(ds[p] >= ds[i])
			}
			if i > 2 {
				g := (p - 1) / 2
				if min {
					sym.Assume(ds[g] >= ds[i])
				} else {
					sym.Assume(ds[g] <= ds[i])
				}
			}
		}
		h.Insert(hnsw.Id(i), ds[i])
		m = put(m, hnsw.Id(i), ds[i])
	}
	agree(h, m)
	switch sym.Choose("op", 4) {
	case 0:
		m = popMin(h, m)
	case 1:
		m = popMax(h, m)
	case 2:
		d := rank()
		h.Insert(hnsw.Id(n), d)
		m = put(m, hnsw.Id(n), d)
	case 3:
		d := rank()
		k := hnsw.Id(sym.Choose("id", n))
		h.Insert(k, d)
		m = put(m, k, d)
	}
	agree(h, m)
	for i := 0; i < sym.Param("pops", 2); i++ {
		if sym.Bool("max") {
			m = popMax(h, m)
		} else {
			m = popMin(h, m)
		}
		agree(h, m)
	}
}

// History: insertions with repeated ids, pops and clones in any order.
//
//verif:harness prop=P12 quick="k=5" thorough="k=6" tbudget=2400 bounds="every sequence of k operations: insert one of three ids with an arbitrary distance, pop either end, continue on a clone (the original must stay as it was); then the heap and the set aside original are drained"
func History() {
	h := hnsw.NewDistHeap()
	var m, om []ent
	var old *hnsw.DistHeap
	for i := 0; i < sym.Param("k", 4); i++ {
		op := sym.Choose("op", 4)
		if op == 3 && old != nil {
			op = 0
		}
		switch op {
		case 0:
			id := hnsw.Id(sym.Choose("id", 3))
			d := rank()
			h.Insert(id, d)
			m = put(m, id, d)
		case 1:
			m = popMin(h, m)
		case 2:
			m = popMax(h, m)
		case 3:
			old, om = h, m
			h = h.Clone()
		}
		agree(h, m)
	}
	if old != nil {
		agree(old, om)
		drain(old, om)
	}
	drain(h, m)
}
