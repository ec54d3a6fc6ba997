// Package codec: the node and metadata encodings.
package codec

import (
	"encoding/binary"

	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/encoding"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// SizeVarint: for every uint64 the size function equals the length of the encoding.
//
//verif:harness prop=P05 quick="" bounds="every uint64 value"
func SizeVarint() {
	v := sym.Uint64("v")
	buf := make([]byte, binary.MaxVarintLen64)
	n := binary.PutUvarint(buf, v)
	sym.Assert(encoding.SizeVarint(v) == n, "SizeVarint differs from the length PutUvarint writes")
	sym.ObsInt("n", int64(n))
}

// MetaSizes has no loop: a bit-vector identity over the whole range.
//
//verif:harness prop=P05 quick="" bounds="every uint64 value; length classes by comparison"
func SizeVarintClosed() {
	v := sym.Uint64("v")
	want := 1
	for s := uint(7); s < 64; s += 7 {
		want += int(sym.Ite(v>>s != 0, 1, 0))
	}
	sym.Assert(encoding.SizeVarint(v) == want, "SizeVarint is not the number of 7-bit groups")
}

func sameRV(a, b pointer.ReferencedValue) bool {
	return sym.And(sym.EqBytes(a.Value, b.Value), sym.And(a.DataPointer.Offset == b.DataPointer.Offset, a.DataPointer.Length == b.DataPointer.Length))
}

// limit narrows a pointer to the stated range.
func ptr(name string, offBits, lenBits int) pointer.MemoryPointer {
	p := pointer.MemoryPointer{Offset: sym.Uint64(name + ".off"), Length: sym.Uint32(name + ".len")}
	if offBits < 64 {
		sym.Assume(p.Offset < 1<<uint(offBits))
	}
	if lenBits < 32 {
		sym.Assume(p.Length < 1<<uint(lenBits))
	}
	return p
}

func node(width, keys int, leaf bool, ob, lb int) *bptree.BPTreeNode {
	n := &bptree.BPTreeNode{Width: uint16(width)}
	for i := 0; i < keys; i++ {
		n.Keys = append(n.Keys, pointer.ReferencedValue{Value: sym.Bytes("key", width-1), DataPointer: ptr("dp", ob, lb)})
	}
	if leaf {
		for i := 0; i < keys; i++ {
			n.LeafPointers = append(n.LeafPointers, ptr("leaf", ob, lb))
		}
	} else {
		for i := 0; i <= keys; i++ {
			v := sym.Uint64("child")
			if ob < 64 {
				sym.Assume(v < 1<<uint(ob))
			}
			n.InternalPointers = append(n.InternalPointers, v)
		}
	}
	return n
}

func roundTrip(n *bptree.BPTreeNode, d *bptree.BPTreeNode, pad int) {
	buf, err := n.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(int64(len(buf)) == n.Size(), "Size is not the encoded length")
	buf = append(buf, make([]byte, pad)...) // a page holds the node followed by whatever
	for i := len(buf) - pad; i < len(buf); i++ {
		buf[i] = 0xa5
	}
	sym.Assert(d.UnmarshalBinary(buf) == nil, "decoding failed")
	sym.Assert(d.Leaf() == n.Leaf(), "leaf flag lost")
	sym.Assert(len(d.Keys) == len(n.Keys), "number of keys changed")
	sym.Assert(d.NumPointers() == n.NumPointers() && len(d.LeafPointers) == len(n.LeafPointers), "number of pointers changed")
	for i := range n.Keys {
		sym.Assert(sameRV(d.Keys[i], n.Keys[i]), "key changed")
	}
	for i := 0; i < n.NumPointers(); i++ {
		a, b := n.Pointer(i), d.Pointer(i)
		sym.Assert(sym.And(a.Offset == b.Offset, a.Length == b.Length), "pointer changed")
	}
	sym.Assert(d.Size() == n.Size(), "size changed")
	sym.ObsBytes("buf", buf)
}

// Node1: one key, full ranges.
//
//verif:harness prop=P05 quick="w=3" thorough="w=9" bounds="nodes with one key (leaf), inlined keys of w-1 bytes, every 64-bit offset and 32-bit length"
func Leaf1() {
	w := sym.Param("w", 3)
	roundTrip(node(w, 1, true, 64, 32), &bptree.BPTreeNode{Width: uint16(w)}, 3)
}

//verif:harness prop=P05 quick="w=3" thorough="w=9" bounds="internal nodes with one key, inlined keys of w-1 bytes, every 64-bit offset and 32-bit length"
func Internal1() {
	w := sym.Param("w", 3)
	roundTrip(node(w, 1, false, 64, 32), &bptree.BPTreeNode{Width: uint16(w)}, 3)
}

//verif:harness prop=P05 quick="n=3,ob=14,lb=7" thorough="n=4,ob=15,lb=8" bounds="nodes (leaf and internal) with 1..n keys of every inlined width 1..3, offsets below 2^ob, lengths below 2^lb"
func Many() {
	w := 1 + sym.Choose("width", 3)
	n := 1 + sym.Choose("n", sym.Param("n", 3))
	leaf := sym.Choose("leaf", 2) == 1
	roundTrip(node(w, n, leaf, sym.Param("ob", 8), sym.Param("lb", 7)), &bptree.BPTreeNode{Width: uint16(w)}, 2)
}

// Referenced: width 0 keys are re-read from the data file.
//
//verif:harness prop=P05 quick="n=2,d=6" thorough="n=3,d=8" bounds="variable-width nodes, keys referring to any slice of a d-byte data file with arbitrary content"
func Referenced() {
	dn := sym.Param("d", 6)
	data := sym.Bytes("data", dn)
	k := 1 + sym.Choose("n", sym.Param("n", 2))
	leaf := sym.Choose("leaf", 2) == 1
	n := &bptree.BPTreeNode{Data: data, DataParser: hx.Ident{}}
	for i := 0; i < k; i++ {
		lo := sym.Choose("lo", dn+1)
		ln := sym.Choose("ln", dn+1)
		sym.Assume(lo+ln <= dn)
		n.Keys = append(n.Keys, pointer.ReferencedValue{Value: data[lo : lo+ln], DataPointer: pointer.MemoryPointer{Offset: uint64(lo), Length: uint32(ln)}})
		if leaf {
			n.LeafPointers = append(n.LeafPointers, ptr("leaf", 8, 3))
		}
	}
	for i := 0; !leaf && i <= k; i++ {
		n.InternalPointers = append(n.InternalPointers, uint64(sym.Byte("child")))
	}
	roundTrip(n, &bptree.BPTreeNode{Data: data, DataParser: hx.Ident{}}, 1)
}

// WriteTo must hand the writer exactly the encoding and report its errors.
//
//verif:harness prop=P05 quick="" bounds="one-key leaf, offsets below 2^14; a writer that fails or accepts"
func WriteTo() {
	n := node(2, 1, true, 14, 7)
	f := &hx.File{}
	if sym.Choose("fail", 2) == 1 {
		f.FailAt = 1
	}
	m, err := n.WriteTo(f)
	if f.FailAt == 1 {
		sym.Assert(err != nil, "a failed write is not reported")
		return
	}
	sym.Assert(err == nil && m == int64(len(f.B)), "WriteTo reports a wrong length")
	buf, _ := n.MarshalBinary()
	sym.Assert(sym.EqBytes(buf, f.B), "WriteTo does not write the encoding")
}
