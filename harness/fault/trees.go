// Package fault: a storage operation that fails is reported to the caller.
package fault

import (
	"bytes"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/btree"
	"github.com/kevmo314/appendable/pkg/hnsw"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

func rv(b byte) pointer.ReferencedValue {
	return pointer.ReferencedValue{Value: []byte{b}, DataPointer: pointer.MemoryPointer{Offset: uint64(b), Length: 1}}
}

func mp(b byte) pointer.MemoryPointer {
	return pointer.MemoryPointer{Offset: uint64(b) + 1000, Length: 3}
}

// arm makes one page or root operation fail from now on.
func arm(p *hx.Pager, m *hx.Meta, ops int) {
	p.Ops, p.Failed = 0, false
	m.Roots, m.Sets, m.FailedRoot = 0, 0, false
	k := sym.Choose("fail", ops+2)
	switch {
	case k < ops:
		p.FailAt = k + 1
		p.Sticky = sym.Choose("sticky", 2) == 1
	case k == ops:
		m.FailRoot = 1
	default:
		m.FailSet = 1
	}
}

func disarm(p *hx.Pager, m *hx.Meta) bool {
	failed := p.Failed || m.FailedRoot
	p.FailAt, p.Sticky, m.FailRoot, m.FailSet = 0, false, 0, 0
	return failed
}

// have tells which of the keys 2, 4, .. 2d the sorted model holds.
func checkTree(t *bptree.BPTree, keys []byte) {
	it, err := t.Iter(pointer.ReferencedValue{Value: []byte{}})
	sym.Assert(err == nil, "Iter failed")
	for _, k := range keys {
		sym.Assert(it.Next(), "an entry was lost")
		sym.Assert(bytes.Equal(it.Key().Value, []byte{k}) && it.Pointer() == mp(k), "an entry changed")
	}
	sym.Assert(!it.Next(), "an entry appeared")
	sym.Assert(it.Err() == nil, "iteration failed")
}

func bigTree(d int) (*bptree.BPTree, *hx.Pager, *hx.Meta, []byte) {
	p, meta := hx.NewPager(24), &hx.Meta{}
	t := &bptree.BPTree{PageFile: p, MetaPage: meta, Width: 2}
	var keys []byte
	for i := 0; i < d; i++ {
		k := byte(2*i + 2)
		sym.Assert(t.Insert(rv(k), mp(k)) == nil, "Insert failed")
		keys = append(keys, k)
	}
	return t, p, meta, keys
}

func with(keys []byte, x byte) []byte {
	i := 0
	for i < len(keys) && keys[i] < x {
		i++
	}
	r := append([]byte(nil), keys[:i]...)
	return append(append(r, x), keys[i:]...)
}

// TreeInsert: an insertion with a failing storage operation.
//
//verif:harness prop=P16 quick="d=9,ops=20" thorough="d=16,ops=30" bounds="B+ trees of 0..d keys (24-byte pages), every new or present one-byte key, failure of any one of the first ops page operations or of reading or setting the root, once or for good"
func TreeInsert() {
	t, p, meta, keys := bigTree(sym.Choose("d", sym.Param("d", 9)+1))
	x := sym.Byte("x")
	arm(p, meta, sym.Param("ops", 20))
	before := append([]byte(nil), p.B...)
	root := meta.R
	err := t.Insert(rv(x), mp(x))
	failed := disarm(p, meta)
	present := x >= 2 && x%2 == 0 && int(x) <= 2*len(keys)
	if failed {
		sym.Assert(err != nil, "an insertion succeeded although a storage operation failed")
	} else {
		sym.Assert((err == nil) == !present, "Insert must fail exactly on a key that is already present")
		if !present {
			keys = with(keys, x)
		}
		checkTree(t, keys)
		return
	}
	if len(p.B) >= len(before) && bytes.Equal(p.B[:len(before)], before) && meta.R == root {
		// no page that the tree uses was written: nothing may have changed,
		// and the insertion can be tried again
		checkTree(t, keys)
		err := t.Insert(rv(x), mp(x))
		sym.Assert((err == nil) == !present, "an insertion that had no effect cannot be repeated")
		if !present {
			keys = with(keys, x)
		}
		checkTree(t, keys)
	}
}

// TreeRead: reading with a failing storage operation.
//
//verif:harness prop=P16 quick="d=9,ops=14" thorough="d=16,ops=30" bounds="B+ trees of 0..d keys (24-byte pages), Find, Contains, and full forward and backward iteration from every one-byte key, failure of any one of the first ops page operations or of reading the root, once or for good"
func TreeRead() {
	t, p, meta, keys := bigTree(sym.Choose("d", sym.Param("d", 9)+1))
	x := sym.Byte("x")
	from := pointer.ReferencedValue{Value: []byte{x}} // sorts before the key x itself
	lo := 0
	for lo < len(keys) && keys[lo] < x {
		lo++
	}
	before := append([]byte(nil), p.B...)
	root := meta.R
	arm(p, meta, sym.Param("ops", 14))
	what := sym.Choose("what", 4)
	for round := 0; round < 2; round++ {
		var err error
		switch what {
		case 0:
			var k pointer.ReferencedValue
			var v pointer.MemoryPointer
			k, v, err = t.Find(from)
			if err == nil {
				if lo < len(keys) {
					sym.Assert(bytes.Equal(k.Value, []byte{keys[lo]}) && v == mp(keys[lo]), "Find returns a wrong entry")
				} else {
					sym.Assert(len(k.Value) == 0 && v == (pointer.MemoryPointer{}), "Find returns an entry behind the last one")
				}
			}
		case 1:
			var ok bool
			ok, err = t.Contains(from)
			if err == nil {
				sym.Assert(ok == (lo < len(keys) && keys[lo] == x), "Contains is wrong")
			} else {
				sym.Assert(!ok, "Contains is true with an error")
			}
		case 2, 3:
			it, e := t.Iter(from)
			err = e
			if err == nil {
				i := lo - 1
				step := it.Next
				if what == 3 {
					i, step = lo, it.Prev
				}
				for step() {
					if what == 2 {
						i++
					} else {
						i--
					}
					sym.Assert(i >= 0 && i < len(keys), "iteration does not end")
					sym.Assert(bytes.Equal(it.Key().Value, []byte{keys[i]}) && it.Pointer() == mp(keys[i]), "iteration yields a wrong entry")
				}
				err = it.Err()
				if err == nil {
					sym.Assert(what == 2 && i == max(len(keys)-1, lo-1) || what == 3 && i == min(0, lo), "an iteration that ended early reports no error")
				}
			}
		}
		if round == 0 {
			sym.Assert((err != nil) == disarm(p, meta), "a read must fail exactly when a storage operation failed")
		} else {
			sym.Assert(err == nil, "a read that failed cannot be repeated")
		}
	}
	sym.Assert(bytes.Equal(before, p.B) && meta.R == root, "reading changed the tree")
}

func vecOf(b byte) hnsw.Point { return hnsw.Point{float32(b) + 0.5} }

func id(b byte) pointer.ReferencedId {
	return pointer.ReferencedId{Value: hnsw.Id(b), DataPointer: mp(b)}
}

// Vector: the vector B-tree with a failing storage operation.
//
//verif:harness prop=P16 quick="d=9,ops=20" thorough="d=16,ops=30" bounds="vector B-trees of 0..d ids (34-byte pages), insertion of or search for every id below 256, failure of any one of the first ops page operations or of reading or setting the root, once or for good"
func Vector() {
	p, meta := hx.NewPager(34), &hx.Meta{}
	t := btree.NewBTree(meta, p, 1)
	d := sym.Choose("d", sym.Param("d", 9)+1)
	for i := 1; i <= d; i++ {
		sym.Assert(t.Insert(id(byte(2*i)), vecOf(byte(2*i))) == nil, "Insert failed")
	}
	check := func(x byte, more bool) {
		for i := 1; i <= d; i++ {
			_, v, err := t.Find(id(byte(2 * i)))
			sym.Assert(err == nil && len(v) == 1 && v[0] == float32(2*i)+0.5, "a vector was lost")
		}
		if more {
			_, v, err := t.Find(id(x))
			sym.Assert(err == nil && len(v) == 1 && v[0] == float32(x)+0.5, "the inserted vector is not found")
		}
	}
	x := sym.Byte("x")
	present := x >= 2 && x%2 == 0 && int(x) <= 2*d
	before := append([]byte(nil), p.B...)
	root := meta.R
	find := sym.Choose("find", 2) == 1
	arm(p, meta, sym.Param("ops", 20))
	if find {
		_, v, err := t.Find(id(x))
		if disarm(p, meta) {
			sym.Assert(err != nil, "a search succeeded although a storage operation failed")
		} else {
			sym.Assert((err == nil && len(v) == 1) == present, "Find is wrong")
		}
		sym.Assert(bytes.Equal(before, p.B) && meta.R == root, "reading changed the tree")
		check(0, false)
		return
	}
	err := t.Insert(id(x), vecOf(x))
	if !disarm(p, meta) {
		sym.Assert((err == nil) == !present, "Insert must fail exactly on an id that is already present")
		check(x, true)
		return
	}
	sym.Assert(err != nil, "an insertion succeeded although a storage operation failed")
	if len(p.B) >= len(before) && bytes.Equal(p.B[:len(before)], before) && meta.R == root {
		check(0, false)
		err := t.Insert(id(x), vecOf(x))
		sym.Assert((err == nil) == !present, "an insertion that had no effect cannot be repeated")
		check(x, true)
	}
}
