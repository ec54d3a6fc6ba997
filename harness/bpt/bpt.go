// Package bpt: the B+ tree as an ordered map.
package bpt

import (
	"bytes"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

type ent struct {
	k pointer.ReferencedValue
	v pointer.MemoryPointer
}

// less is the specified order: value bytes, then data pointer offset, then length.
func cmp(a, b pointer.ReferencedValue) int {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c
	}
	if a.DataPointer.Offset != b.DataPointer.Offset {
		if a.DataPointer.Offset < b.DataPointer.Offset {
			return -1
		}
		return 1
	}
	if a.DataPointer.Length != b.DataPointer.Length {
		if a.DataPointer.Length < b.DataPointer.Length {
			return -1
		}
		return 1
	}
	return 0
}

// add inserts into the reference model; false when already there.
func add(m []ent, e ent) ([]ent, bool) {
	for i := range m {
		c := cmp(e.k, m[i].k)
		if c == 0 {
			return m, false
		}
		if c < 0 {
			r := make([]ent, 0, len(m)+1)
			r = append(r, m[:i]...)
			r = append(r, e)
			return append(r, m[i:]...), true
		}
	}
	return append(m, e), true
}

func sameKey(a, b pointer.ReferencedValue) bool {
	return sym.And(sym.EqBytes(a.Value, b.Value), sym.And(a.DataPointer.Offset == b.DataPointer.Offset, a.DataPointer.Length == b.DataPointer.Length))
}

// agree compares the tree with the model: forward and backward iteration, and
// lookup of every key.
func agree(t *bptree.BPTree, m []ent, width int) {
	low := pointer.ReferencedValue{Value: make([]byte, 0)}
	it, err := t.Iter(low)
	sym.Assert(err == nil, "Iter failed")
	i := 0
	for it.Next() {
		sym.Assert(i < len(m), "forward iteration yields more entries than were inserted")
		sym.Assert(sameKey(it.Key(), m[i].k), "forward iteration yields a wrong key")
		sym.Assert(it.Pointer() == m[i].v, "forward iteration yields a wrong value")
		i++
	}
	sym.Assert(it.Err() == nil, "iteration error")
	sym.Assert(i == len(m), "forward iteration misses entries")

	hi := make([]byte, width+1)
	for j := range hi {
		hi[j] = 0xff
	}
	it, err = t.Iter(pointer.ReferencedValue{Value: hi})
	sym.Assert(err == nil, "Iter failed")
	i = len(m)
	for it.Prev() {
		i--
		sym.Assert(i >= 0, "backward iteration yields more entries than were inserted")
		sym.Assert(sameKey(it.Key(), m[i].k), "backward iteration yields a wrong key")
		sym.Assert(it.Pointer() == m[i].v, "backward iteration yields a wrong value")
	}
	sym.Assert(it.Err() == nil, "iteration error")
	sym.Assert(i == 0, "backward iteration misses entries")

	for j := range m {
		k, v, err := t.Find(m[j].k)
		sym.Assert(err == nil, "Find failed")
		sym.Assert(sameKey(k, m[j].k), "Find of an inserted key returns another key")
		sym.Assert(v == m[j].v, "Find of an inserted key returns another value")
	}
}

func tree(page, width int) (*bptree.BPTree, *hx.Pager, *hx.Meta) {
	p, meta := hx.NewPager(page), &hx.Meta{}
	return &bptree.BPTree{PageFile: p, MetaPage: meta, Width: uint16(width)}, p, meta
}

// insert applies one insertion to tree and model and checks the verdict.
func insert(t *bptree.BPTree, m []ent, e ent) []ent {
	err := t.Insert(e.k, e.v)
	m2, fresh := add(m, e)
	sym.Assert((err == nil) == fresh, "Insert must fail exactly on a key that is already present")
	return m2
}

func key1(b byte, off uint64) pointer.ReferencedValue {
	return pointer.ReferencedValue{Value: []byte{b}, DataPointer: pointer.MemoryPointer{Offset: off, Length: 1}}
}

func val(i int) pointer.MemoryPointer {
	return pointer.MemoryPointer{Offset: uint64(i + 1), Length: uint32(i + 7)}
}

// History: any sequence of n insertions of arbitrary one-byte keys with
// arbitrary small data pointers agrees with a sorted-map model.
//
//verif:harness prop=P03 quick="n=5,page=24" thorough="n=6,page=24" tbudget=2400 bounds="every history of n insertions into an empty tree; value 1 byte, data pointer offset < 4, page size `page` (two to three keys per node)"
func History() {
	n := sym.Param("n", 4)
	t, p, meta := tree(sym.Param("page", 24), 2)
	var m []ent
	for i := 0; i < n; i++ {
		off := sym.Byte("off")
		sym.Assume(off < 4)
		e := ent{pointer.ReferencedValue{Value: sym.Bytes("key", 1), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: 1}}, val(i)}
		m = insert(t, m, e)
	}
	// a second handle on the same pages sees the same map
	t2 := &bptree.BPTree{PageFile: p, MetaPage: meta, Width: 2}
	agree(t2, m, 1)
	for i := range m {
		sym.ObsInt("v", int64(m[i].v.Offset))
	}
}

// Lengths: data pointers that differ only in their length are distinct keys.
//
//verif:harness prop=P03 quick="n=3" thorough="n=4" bounds="n insertions; value 1 byte of 2 values, data pointer offset < 2, length < 2"
func Lengths() {
	n := sym.Param("n", 3)
	t, _, _ := tree(24, 2)
	var m []ent
	for i := 0; i < n; i++ {
		k, o, l := sym.Byte("k"), sym.Byte("off"), sym.Byte("len")
		sym.Assume(sym.And(sym.And(k < 2, o < 2), l < 2))
		m = insert(t, m, ent{pointer.ReferencedValue{Value: []byte{k}, DataPointer: pointer.MemoryPointer{Offset: uint64(o), Length: uint32(l)}}, val(i)})
	}
	agree(t, m, 1)
}

// prebuilt makes a tree of d keys (even byte values 2,4,..) inserted in one of three orders.
func prebuilt(t *bptree.BPTree, d int) []ent {
	order := sym.Choose("order", 3)
	var m []ent
	for i := 0; i < d; i++ {
		j := i
		switch order {
		case 1:
			j = d - 1 - i
		case 2: // inside out
			if i%2 == 0 {
				j = d/2 + i/2
			} else {
				j = d/2 - 1 - i/2
			}
			if j < 0 || j >= d {
				j = i
			}
		}
		e := ent{key1(byte(2*j+2), uint64(j)), val(100 + j)}
		var fresh bool
		if m, fresh = add(m, e); fresh {
			sym.Assert(t.Insert(e.k, e.v) == nil, "Insert of a fresh key failed")
		}
	}
	return m
}

// Deep: arbitrary insertions into trees of three and more levels.
//
//verif:harness prop=P03 quick="d=14,n=2,page=24" thorough="d=24,n=3,page=24" tbudget=2400 bounds="trees pre-filled with d keys in ascending, descending or inside-out order, then every choice of n further one-byte keys (data pointer offset < 2)"
func Deep() {
	t, _, _ := tree(sym.Param("page", 24), 2)
	m := prebuilt(t, sym.Param("d", 14))
	for i := 0; i < sym.Param("n", 2); i++ {
		off := sym.Byte("off")
		sym.Assume(off < 2)
		m = insert(t, m, ent{pointer.ReferencedValue{Value: sym.Bytes("key", 1), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: 1}}, val(i)})
	}
	agree(t, m, 1)
}

// Referenced: variable-width keys that live in the data file.
//
//verif:harness prop=P03 quick="n=4,d=4" thorough="n=5,d=5" tbudget=2400 bounds="variable-width tree: n keys, each a slice of an arbitrary d-byte data file (position fixed by its number, length 0..2), page size 32"
func Referenced() {
	dn := sym.Param("d", 4)
	data := sym.Bytes("data", dn)
	p, meta := hx.NewPager(32), &hx.Meta{}
	mk := func() *bptree.BPTree {
		return &bptree.BPTree{PageFile: p, MetaPage: meta, Data: data, DataParser: hx.Ident{}}
	}
	var m []ent
	for i := 0; i < sym.Param("n", 4); i++ {
		lo := (i * 3) % dn
		ln := sym.Choose("len", 3)
		if lo+ln > dn {
			ln = dn - lo
		}
		m = insert(mk(), m, ent{pointer.ReferencedValue{Value: data[lo : lo+ln], DataPointer: pointer.MemoryPointer{Offset: uint64(lo), Length: uint32(ln)}}, val(i)})
	}
	agree(mk(), m, 2)
}

// Width: a fixed-width tree takes exactly the values of its width; a refused
// value leaves the tree as it was.
//
//verif:harness prop=P03 quick="" bounds="widths 1..3, value lengths 0..4 and 65536 + 0..4, before and after one accepted key"
func Width() {
	w := 1 + sym.Choose("w", 3)
	l := sym.Choose("l", 5)
	value := sym.Bytes("k1", l)
	if sym.Choose("far", 2) == 1 { // too long by more than a 16-bit width can tell
		l += 1 << 16
		value = append(value, make([]byte, 1<<16)...)
	}
	t, p, _ := tree(48, w)
	var m []ent
	if sym.Choose("pre", 2) == 1 {
		m = insert(t, m, ent{pointer.ReferencedValue{Value: sym.Bytes("k0", w-1), DataPointer: pointer.MemoryPointer{Offset: 1}}, val(0)})
	}
	before := append([]byte(nil), p.B...)
	e := ent{pointer.ReferencedValue{Value: value, DataPointer: pointer.MemoryPointer{Offset: 2}}, val(1)}
	err := t.Insert(e.k, e.v)
	sym.Assert((err == nil) == (l == w-1), "Insert must accept exactly the values of the tree's width")
	if err == nil {
		m, _ = add(m, e)
	} else {
		sym.Assert(sym.EqBytes(before, p.B), "a refused insertion changed the pages")
	}
	agree(t, m, w-1)
}

// Wide: real page files and wide keys (about eight keys per page).
//
//verif:harness prop=P03 quick="d=8,n=2" thorough="d=40,n=2" bounds="4096-byte pages of the real page file, 400-byte keys: d keys in ascending order, then every choice of n keys differing in two bytes"
func Wide() {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "page file")
	t := &bptree.BPTree{PageFile: pf, MetaPage: &hx.Meta{}, Width: 401}
	mk := func(hi, lo byte) []byte {
		b := make([]byte, 400)
		b[0], b[399] = hi, lo
		return b
	}
	var m []ent
	for i := 0; i < sym.Param("d", 8); i++ {
		m = insert(t, m, ent{pointer.ReferencedValue{Value: mk(byte(4*i+4), 7), DataPointer: pointer.MemoryPointer{Offset: uint64(i), Length: 3}}, val(i)})
	}
	for i := 0; i < sym.Param("n", 2); i++ {
		m = insert(t, m, ent{pointer.ReferencedValue{Value: mk(sym.Byte("hi"), sym.Byte("lo")), DataPointer: pointer.MemoryPointer{Offset: 1, Length: 3}}, val(50 + i)})
	}
	agree(t, m, 400)
}

// FarPages: trees whose later pages lie behind gigabytes.
//
//verif:harness prop=P03 quick="d=7,e=3,n=1" thorough="d=20,e=10,n=2" bounds="trees of 400-byte keys in a real page file: d keys in ascending order, then the file grows to 0, 1 or 2 pages before 2^31, 2^32 or 2^43 bytes, then e more keys and every choice of n keys differing in two bytes, with one of three data pointers and any value around 2^31"
func FarPages() {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "page file")
	t := &bptree.BPTree{PageFile: pf, MetaPage: &hx.Meta{}, Width: 401}
	mk := func(hi, lo byte) []byte {
		b := make([]byte, 400)
		b[0], b[399] = hi, lo
		return b
	}
	var m []ent
	d := sym.Param("d", 7)
	for i := 0; i < d+sym.Param("e", 3); i++ {
		if i == d {
			f.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*4096)
			t.PageFile, err = pagefile.NewPageFile(f)
			sym.Assert(err == nil, "reopening the page file failed")
		}
		m = insert(t, m, ent{pointer.ReferencedValue{Value: mk(byte(4*i+4), 7), DataPointer: pointer.MemoryPointer{Offset: uint64(i) << 41, Length: 3}}, val(i)})
	}
	for i := 0; i < sym.Param("n", 1); i++ {
		m = insert(t, m, ent{pointer.ReferencedValue{Value: mk(sym.Byte("hi"), sym.Byte("lo")), DataPointer: pointer.MemoryPointer{Offset: uint64(1) << (31 * sym.Choose("off", 3)), Length: 3}}, pointer.MemoryPointer{Offset: uint64(1)<<31 | uint64(sym.Uint32("voff")), Length: 1<<31 | uint32(sym.Byte("vlen"))}})
	}
	agree(t, m, 400)
}

// ---- seeks (P04) ----

// lower is the number of model entries below k.
func lower(m []ent, k pointer.ReferencedValue) int {
	n := 0
	for i := range m {
		if cmp(m[i].k, k) < 0 {
			n++
		}
	}
	return n
}

// seek checks Iter, Find and Contains for one key against the model.
func seek(t *bptree.BPTree, m []ent, k pointer.ReferencedValue) {
	lo := lower(m, k)
	switch sym.Choose("what", 4) {
	case 0: // forwards from the first key not below k
		it, err := t.Iter(k)
		sym.Assert(err == nil, "Iter failed")
		i := lo
		for it.Next() {
			sym.Assert(i < len(m), "iteration from a key yields too many entries")
			sym.Assert(sameKey(it.Key(), m[i].k), "iteration from a key does not start at the first entry not below it, or skips or repeats entries")
			sym.Assert(it.Pointer() == m[i].v, "iteration yields a wrong value")
			i++
		}
		sym.Assert(it.Err() == nil, "iteration error")
		sym.Assert(i == len(m), "iteration from a key misses later entries")
	case 1: // backwards from the last key below k
		it, err := t.Iter(k)
		sym.Assert(err == nil, "Iter failed")
		i := lo
		for it.Prev() {
			i--
			sym.Assert(i >= 0, "backward iteration from a key yields too many entries")
			sym.Assert(sameKey(it.Key(), m[i].k), "backward iteration from a key does not start at the last entry below it, or skips or repeats entries")
			sym.Assert(it.Pointer() == m[i].v, "backward iteration yields a wrong value")
		}
		sym.Assert(it.Err() == nil, "iteration error")
		sym.Assert(i == 0, "backward iteration from a key misses earlier entries")
	case 2:
		fk, fv, err := t.Find(k)
		sym.Assert(err == nil, "Find failed")
		if lo < len(m) {
			sym.Assert(sameKey(fk, m[lo].k), "Find does not return the first entry not below the key")
			sym.Assert(fv == m[lo].v, "Find returns a wrong value")
		} else {
			sym.Assert(len(fk.Value) == 0 && fv == (pointer.MemoryPointer{}), "Find past the last key must return nothing")
		}
	case 3:
		any := false
		for i := lo; i < len(m); i++ {
			if bytes.Equal(m[i].k.Value, k.Value) {
				any = true
			}
		}
		got, err := t.Contains(k)
		sym.Assert(err == nil, "Contains failed")
		sym.Assert(got == any, "Contains disagrees with the stored entries")
	}
}

func target(n int, off byte) pointer.ReferencedValue {
	o := sym.Byte("toff")
	sym.Assume(o < off)
	return pointer.ReferencedValue{Value: sym.Bytes("target", n), DataPointer: pointer.MemoryPointer{Offset: uint64(o), Length: 1}}
}

// SeekAny: arbitrary small trees, arbitrary target.
//
//verif:harness prop=P04 quick="n=3,page=24" thorough="n=4,page=24" tbudget=2400 bounds="every history of n insertions (1-byte values, data pointer offset < 2) and every 1-byte target with data pointer offset < 3"
func SeekAny() {
	t, _, _ := tree(sym.Param("page", 24), 2)
	var m []ent
	n := sym.Choose("n", sym.Param("n", 3)+1)
	for i := 0; i < n; i++ {
		off := sym.Byte("off")
		sym.Assume(off < 2)
		m = insert(t, m, ent{pointer.ReferencedValue{Value: sym.Bytes("key", 1), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: 1}}, val(i)})
	}
	seek(t, m, target(1, 3))
}

// SeekDeep: trees of several levels, arbitrary target of up to two bytes.
//
//verif:harness prop=P04 quick="d=16,page=24" thorough="d=40,page=24" bounds="trees of d keys built in ascending, descending or inside-out order; every target value of 0, 1 or 2 bytes with data pointer offset below 32"
func SeekDeep() {
	t, _, _ := tree(sym.Param("page", 24), 2)
	m := prebuilt(t, sym.Param("d", 16))
	seek(t, m, target(sym.Choose("len", 3), 32))
}

// SeekDup: one value under many data pointers, spread over several leaves.
//
//verif:harness prop=P04 quick="d=9" thorough="d=20" bounds="d entries sharing one of three values, spread over several leaves; every 1-byte target and data pointer offset below 32"
func SeekDup() {
	t, _, _ := tree(24, 2)
	var m []ent
	d := sym.Param("d", 9)
	for i := 0; i < d; i++ {
		j := (i * 7) % d
		m = insert(t, m, ent{key1(byte(10*(j*3/d)+10), uint64(j+1)), val(j)})
	}
	seek(t, m, target(1, 32))
}

// SeekReferenced: variable-width keys, targets that are prefixes and extensions.
//
//verif:harness prop=P04 quick="n=3" thorough="n=4" bounds="variable-width tree over an arbitrary 4-byte data file, n keys of 0..2 bytes; every target of 0..2 bytes"
func SeekReferenced() {
	data := sym.Bytes("data", 4)
	p, meta := hx.NewPager(24), &hx.Meta{}
	t := &bptree.BPTree{PageFile: p, MetaPage: meta, Data: data, DataParser: hx.Ident{}}
	var m []ent
	for i := 0; i < sym.Param("n", 3); i++ {
		lo := (i * 3) % 4
		ln := min(sym.Choose("len", 3), 4-lo)
		m = insert(t, m, ent{pointer.ReferencedValue{Value: data[lo : lo+ln], DataPointer: pointer.MemoryPointer{Offset: uint64(lo), Length: uint32(ln)}}, val(i)})
	}
	seek(t, m, pointer.ReferencedValue{Value: sym.Bytes("target", sym.Choose("tlen", 3))})
}

// Turn: stepping back and forth from any position moves by exactly one entry.
//
//verif:harness prop=P04 quick="d=9,k=4" thorough="d=20,k=6" bounds="trees of d keys in three build orders, every 1-byte start key, every sequence of k steps forwards or backwards, including over both ends"
func Turn() {
	t, _, _ := tree(24, 2)
	m := prebuilt(t, sym.Param("d", 9))
	k := pointer.ReferencedValue{Value: sym.Bytes("start", 1)}
	it, _ := t.Iter(k)
	lo := lower(m, k)
	pos, started := lo, false
	for i := 0; i < sym.Param("k", 4); i++ {
		var ok bool
		if sym.Choose("dir", 2) == 0 {
			if started {
				pos = min(pos+1, len(m))
			}
			ok = it.Next()
			sym.Assert(ok == (pos < len(m)), "Next reports the wrong end")
		} else {
			pos = max(pos-1, -1)
			ok = it.Prev()
			sym.Assert(ok == (pos >= 0), "Prev reports the wrong end")
		}
		started = true
		sym.Assert(it.Err() == nil, "iteration error")
		if ok {
			sym.Assert(sameKey(it.Key(), m[pos].k), "a step does not move to the adjacent entry")
			sym.Assert(it.Pointer() == m[pos].v, "a step yields a wrong value")
		}
	}
}
