// Package tsq: lookups and queries in the TypeScript client.
package tsq

import (
	"bytes"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

type ent struct {
	k pointer.ReferencedValue
	v pointer.MemoryPointer
}

// cmp is the specified order: value bytes, then data pointer offset, then length.
func cmp(a, b pointer.ReferencedValue) int {
	if c := bytes.Compare(a.Value, b.Value); c != 0 {
		return c
	}
	if a.DataPointer.Offset != b.DataPointer.Offset {
		if a.DataPointer.Offset < b.DataPointer.Offset {
			return -1
		}
		return 1
	}
	if a.DataPointer.Length != b.DataPointer.Length {
		if a.DataPointer.Length < b.DataPointer.Length {
			return -1
		}
		return 1
	}
	return 0
}

// world is a tree on small pages, what is in it, in order, and its data file.
type world struct {
	t    *bptree.BPTree
	p    *hx.Pager
	meta *hx.Meta
	m    []ent
	data []byte
	typ  appendable.FieldType
}

func newWorld(page, width int) *world {
	w := &world{p: hx.NewPager(page), meta: &hx.Meta{}, typ: appendable.FieldTypeFloat64}
	w.t = &bptree.BPTree{PageFile: w.p, MetaPage: w.meta, Width: uint16(width)}
	return w
}

// add inserts an entry; one that is already there is left out.
func (w *world) add(e ent) {
	at := len(w.m)
	for i := range w.m {
		c := cmp(e.k, w.m[i].k)
		if c == 0 {
			return
		}
		if c < 0 {
			at = i
			break
		}
	}
	sym.Assert(w.t.Insert(e.k, e.v) == nil, "Insert of a fresh key failed")
	m := append([]ent{}, w.m[:at]...)
	m = append(m, e)
	w.m = append(m, w.m[at:]...)
}

func key1(b byte, off uint64) pointer.ReferencedValue {
	return pointer.ReferencedValue{Value: []byte{b}, DataPointer: pointer.MemoryPointer{Offset: off, Length: 1}}
}

func val(i int) pointer.MemoryPointer {
	return pointer.MemoryPointer{Offset: uint64(i + 1), Length: uint32(i + 7)}
}

// prebuild fills the tree with d keys (2, 4, ...) in one of three orders.
func (w *world) prebuild(d int) {
	order := sym.Choose("order", 3)
	for i := 0; i < d; i++ {
		j := i
		switch order {
		case 1:
			j = d - 1 - i
		case 2: // inside out
			if i%2 == 0 {
				j = d/2 + i/2
			} else {
				j = d/2 - 1 - i/2
			}
			if j < 0 || j >= d {
				j = i
			}
		}
		w.add(ent{key1(byte(2*j+2), uint64(j)), val(100 + j)})
	}
}

func (w *world) args(more ...any) []any {
	var b any = append([]byte{}, w.p.B...)
	if w.p.Gap > 0 {
		b = []any{b.([]byte)[:w.p.From:w.p.From], b.([]byte)[w.p.From:], w.p.From + w.p.Gap}
	}
	return append([]any{b, int64(w.meta.R.Offset), w.data, int64(appendable.FormatJSONL), int64(w.typ), int64(w.t.Width)}, more...)
}

// call is a call that must succeed.
func call(fn string, args ...any) []any {
	r, err := tsx.Call(fn, args...)
	sym.Assert(err == nil, "the client fails on "+fn)
	return r.([]any)
}

func (w *world) lower(k pointer.ReferencedValue) int {
	for i := range w.m {
		if cmp(w.m[i].k, k) >= 0 {
			return i
		}
	}
	return len(w.m)
}

func (w *world) same(a []any, e ent) bool {
	return sym.And(sym.EqBytes(a[0].([]byte), e.k.Value), sym.And(a[1].(uint64) == e.v.Offset, a[2].(int64) == int64(e.v.Length)))
}

// seek looks for a key in all ways.
func (w *world) seek(k pointer.ReferencedValue) {
	lo := w.lower(k)
	v := append([]byte{}, k.Value...)
	switch sym.Choose("what", 4) {
	case 0:
		a := call("walk", w.args(v, k.DataPointer.Offset, int64(k.DataPointer.Length), false, int64(len(w.m)+3))...)
		sym.Assert(len(a) == len(w.m)-lo, "walking forwards from a key misses entries or yields too many")
		for i := range a {
			sym.Assert(w.same(a[i].([]any), w.m[lo+i]), "walking forwards from a key yields a wrong entry")
		}
	case 1:
		a := call("walk", w.args(v, k.DataPointer.Offset, int64(k.DataPointer.Length), true, int64(len(w.m)+3))...)
		sym.Assert(len(a) == lo, "walking backwards from a key misses entries or yields too many")
		for i := range a {
			sym.Assert(w.same(a[i].([]any), w.m[lo-1-i]), "walking backwards from a key yields a wrong entry")
		}
	case 2:
		a := call("find", w.args(v, k.DataPointer.Offset, int64(k.DataPointer.Length))...)
		if lo == len(w.m) {
			sym.Assert(len(a[0].([]byte)) == 0 && a[4].(int64) == 0, "a lookup finds an entry where there is none")
			return
		}
		sym.Assert(w.same([]any{a[0], a[3], a[4]}, w.m[lo]), "a lookup does not find the first entry not below the key")
	case 3:
		a := call("ends", w.args()...)
		sym.Assert(sym.And(sym.EqBytes(a[0].([]byte), w.m[0].k.Value), a[1].(uint64) == w.m[0].k.DataPointer.Offset), "the first key is wrong")
		n := len(w.m) - 1
		sym.Assert(sym.And(sym.EqBytes(a[2].([]byte), w.m[n].k.Value), a[3].(uint64) == w.m[n].k.DataPointer.Offset), "the last key is wrong")
	}
}

func target(n int, off byte) pointer.ReferencedValue {
	o := sym.Byte("toff")
	sym.Assume(o < off)
	return pointer.ReferencedValue{Value: sym.Bytes("target", n), DataPointer: pointer.MemoryPointer{Offset: uint64(o), Length: 1}}
}

// SeekAny: arbitrary small trees.
//
//verif:harness prop=P20 quick="n=3,page=24" thorough="n=4,page=24" tbudget=2400 bounds="every history of 1..n insertions (1-byte values, data pointer offset < 2) and every 1-byte target with data pointer offset < 3; first, last, lookup, walks in both directions"
func SeekAny() {
	w := newWorld(sym.Param("page", 24), 2)
	n := 1 + sym.Choose("n", sym.Param("n", 3))
	for i := 0; i < n; i++ {
		off := sym.Byte("off")
		sym.Assume(off < 2)
		w.add(ent{pointer.ReferencedValue{Value: sym.Bytes("key", 1), DataPointer: pointer.MemoryPointer{Offset: uint64(off), Length: 1}}, val(i)})
	}
	w.seek(target(1, 3))
}

// SeekDeep: trees of several levels.
//
//verif:harness prop=P20 quick="d=16,page=24" thorough="d=40,page=24" tbudget=2400 bounds="trees of d keys built in ascending, descending or inside-out order, two to three keys per node; every target value of 0, 1 or 2 bytes with data pointer offset below 32"
func SeekDeep() {
	w := newWorld(sym.Param("page", 24), 2)
	w.prebuild(sym.Param("d", 16))
	w.seek(target(sym.Choose("len", 3), 32))
}

// SeekFar: trees of which a part lies behind gigabytes.
//
//verif:harness prop=P20 quick="d=5,e=4" thorough="d=16,e=16" tbudget=2400 bounds="trees of d keys in ascending, descending or inside-out order and then e keys between them, the pages allocated for those e from 0, 1 or 2 pages before 2^31, 2^32 or 2^43 on; every target value of 0 or 1 bytes with data pointer offset below 32"
func SeekFar() {
	w := newWorld(40, 2)
	d := sym.Param("d", 5)
	w.prebuild(d)
	w.p.Skip(int64(1)<<[]int{31, 32, 43}[sym.Choose("far", 3)] - int64(sym.Choose("before", 3))*40)
	for i := 0; i < sym.Param("e", 4); i++ {
		w.add(ent{key1(byte(2*i%d*2+3), uint64(i+40)), val(i)})
	}
	w.seek(target(sym.Choose("len", 2), 32))
}

// SeekDup: one value under many data pointers.
//
//verif:harness prop=P20 quick="d=9" thorough="d=20" bounds="d entries sharing one of three values, spread over several leaves; every 1-byte target and data pointer offset below 32"
func SeekDup() {
	w := newWorld(24, 2)
	d := sym.Param("d", 9)
	for i := 0; i < d; i++ {
		j := (i * 7) % d
		w.add(ent{key1(byte(10*(j*3/d)+10), uint64(j+1)), val(j)})
	}
	w.seek(target(1, 32))
}

// Strings: keys that stand in the data file.
//
//verif:harness prop=P20 quick="n=3" thorough="n=4" tbudget=2400 bounds="n string keys of 0..2 arbitrary plain ASCII characters in a data file, on small pages; every target of 0..2 bytes"
func Strings() {
	w := newWorld(24, 0)
	w.typ = appendable.FieldTypeString
	n := sym.Param("n", 3)
	var at [][2]int
	for i := 0; i < n; i++ {
		w.data = append(w.data, `{"a":`...)
		lo := len(w.data)
		b := sym.Bytes("s", sym.Choose("len", 3))
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
		}
		w.data = append(append(append(w.data, '"'), b...), '"')
		at = append(at, [2]int{lo, len(w.data)})
		w.data = append(w.data, "}\n"...)
	}
	w.t.Data, w.t.DataParser = w.data, handlers.JSONLHandler{}
	for i, a := range at {
		w.add(ent{pointer.ReferencedValue{Value: w.data[a[0]+1 : a[1]-1], DataPointer: pointer.MemoryPointer{Offset: uint64(a[0]), Length: uint32(a[1] - a[0])}}, val(i)})
	}
	w.seek(pointer.ReferencedValue{Value: sym.Bytes("target", sym.Choose("tlen", 3))})
}
