// Package tsc: what the TypeScript client reads of what the Go side wrote.
package tsc

import (
	"encoding/binary"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// call is a call that must succeed.
func call(fn string, args ...any) []any {
	r, err := tsx.Call(fn, args...)
	sym.Assert(err == nil, "the client fails on "+fn)
	return r.([]any)
}

// Uvarint: numbers up to what a JavaScript number holds exactly.
//
//verif:harness prop=P19 quick="" bounds="every number below 2^53"
func Uvarint() {
	x := sym.Uint64("x")
	sym.Assume(x < 1<<53)
	b := binary.AppendUvarint(nil, x)
	a := call("uvarint", b)
	sym.Assert(a[0].(int64) == int64(x), "the client reads another number")
	sym.Assert(a[1].(int64) == int64(len(b)), "the client reads a number of another length")
}

// FileMeta: file metadata.
//
//verif:harness prop=P19 quick="" bounds="every version byte, both formats, every 64-bit read offset, every entry count below 2^53"
func FileMeta() {
	m := &appendable.FileMeta{Version: appendable.Version(sym.Byte("version")), Format: appendable.Format(sym.Choose("format", 2)), ReadOffset: sym.Uint64("off"), Entries: sym.Uint64("entries")}
	sym.Assume(m.Entries < 1<<53)
	buf, err := m.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	a := call("fileMeta", buf)
	sym.Assert(sym.And(a[0].(int64) == int64(m.Version), a[1].(int64) == int64(m.Format)), "the client reads another version or format")
	sym.Assert(a[2].(uint64) == m.ReadOffset, "the client reads another read offset")
	sym.Assert(a[3].(int64) == int64(m.Entries), "the client reads another number of entries")
}

// names: a field name of one to three characters of UTF-8.
func name(n int) string {
	s := ""
	for i := 0; i < n; i++ {
		switch sym.Choose("char", 3) {
		case 0:
			c := sym.Byte("c")
			sym.Assume(c < 0x80)
			s += string([]byte{c})
		case 1:
			s += "\xc3\xa9"
		case 2:
			s += "\xf0\x9f\x98\x80"
		}
	}
	return s
}

// IndexMeta: index metadata.
//
//verif:harness prop=P19 quick="n=2" thorough="n=4" bounds="every field type byte and width, every total length below 2^53, names of 0..n characters: any ASCII character, one of two and one of four bytes; and of 130 and 240 bytes"
func IndexMeta() {
	n := sym.Choose("n", sym.Param("n", 2)+3)
	m := &appendable.IndexMeta{FieldType: appendable.FieldType(sym.Byte("type")), Width: sym.Uint16("width"), TotalFieldValueLength: sym.Uint64("total")}
	sym.Assume(m.TotalFieldValueLength < 1<<53)
	if k := n - sym.Param("n", 2); k > 0 {
		b := make([]byte, []int{130, 240}[k-1])
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		m.FieldName = string(b)
	} else {
		m.FieldName = name(n)
	}
	buf, err := m.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	a := call("indexMeta", buf)
	sym.Assert(a[0].(string) == m.FieldName, "the client reads another field name")
	sym.Assert(a[1].(int64) == int64(m.FieldType), "the client reads another field type")
	sym.Assert(a[2].(int64) == int64(m.Width), "the client reads another width")
	sym.Assert(a[3].(int64) == int64(m.TotalFieldValueLength), "the client reads another total length")
}

func mp(name string) pointer.MemoryPointer {
	p := pointer.MemoryPointer{Offset: sym.Uint64(name + ".off"), Length: sym.Uint32(name + ".len")}
	sym.Assume(p.Offset < 1<<53)
	return p
}

func eqNode(a []any, n *bptree.BPTreeNode) {
	sym.Assert(a[0].(bool) == n.Leaf(), "the client takes a leaf for an inner node or the other way round")
	ks, ps := a[1].([]any), a[2].([]any)
	sym.Assert(len(ks) == len(n.Keys) && len(ps) == n.NumPointers(), "the client reads another number of entries")
	for i, k := range n.Keys {
		x := ks[i].([]any)
		sym.Assert(sym.And(x[0].(uint64) == k.DataPointer.Offset, x[1].(int64) == int64(k.DataPointer.Length)), "the client reads another data pointer")
		sym.Assert(sym.EqBytes(x[2].([]byte), k.Value), "the client reads another key")
	}
	for i := range ps {
		x, p := ps[i].([]any), n.Pointer(i)
		sym.Assert(sym.And(x[0].(uint64) == p.Offset, x[1].(int64) == int64(p.Length)), "the client reads another pointer")
	}
}

// Inline: nodes that hold their keys.
//
//verif:harness prop=P19 quick="k=1,w=2" thorough="k=2,w=3" tbudget=2400 bounds="nodes of 1..k keys of 0..w bytes (of k keys: 1 byte), leaf and inner, every key byte, every pointer below 2^53 and 32-bit length"
func Inline() {
	k := 1 + sym.Choose("keys", sym.Param("k", 1))
	w := 1 + sym.Choose("width", sym.Param("w", 2)+1)
	if k > 1 {
		sym.Assume(w == 2)
	}
	n := &bptree.BPTreeNode{Width: uint16(w)}
	leaf := sym.Choose("leaf", 2) == 1
	for i := 0; i < k; i++ {
		dp := mp("dp")
		if k > 1 { // pointers of all sizes are covered by one key
			sym.Assume(dp.Offset < 1<<14)
			sym.Assume(dp.Length < 1<<7)
		}
		n.Keys = append(n.Keys, pointer.ReferencedValue{Value: sym.Bytes("key", w-1), DataPointer: dp})
		if leaf {
			l := mp("leaf")
			sym.Assume(l.Offset < 1<<14)
			n.LeafPointers = append(n.LeafPointers, l)
		}
	}
	if !leaf {
		for i := 0; i <= k; i++ {
			p := sym.Uint64("child")
			sym.Assume(p < 1<<53)
			if i < k {
				sym.Assume(p < 1<<14)
			}
			n.InternalPointers = append(n.InternalPointers, p)
		}
	}
	store(n, nil, 0)
}

// store puts a node on the second page of a file and reads it back in the client.
func store(n *bptree.BPTreeNode, data []byte, t appendable.FieldType) {
	buf, err := n.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	f := make([]byte, 4096+4096)
	copy(f[4096:], buf)
	eqNode(call("node", f, 4096, data, int64(appendable.FormatJSONL), int64(t), int64(n.Width)), n)
}

// Wide: nodes of many keys.
//
//verif:harness prop=P19 quick="k=120" thorough="k=250" bounds="nodes of k 8-byte keys with one arbitrary key byte and data offset, leaf and inner"
func Wide() {
	k := sym.Param("k", 120)
	n := &bptree.BPTreeNode{Width: 9}
	leaf := sym.Choose("leaf", 2) == 1
	for i := 0; i < k; i++ {
		v := make([]byte, 8)
		binary.BigEndian.PutUint64(v, uint64(i)<<20)
		n.Keys = append(n.Keys, pointer.ReferencedValue{Value: v, DataPointer: pointer.MemoryPointer{Offset: uint64(i) * 3, Length: uint32(i)}})
		if leaf {
			n.LeafPointers = append(n.LeafPointers, pointer.MemoryPointer{Offset: uint64(i) << 5, Length: uint32(i)})
		}
	}
	if !leaf {
		for i := 0; i <= k; i++ {
			n.InternalPointers = append(n.InternalPointers, uint64(i)<<12)
		}
	}
	n.Keys[k/2].Value[3] = sym.Byte("key")
	n.Keys[k-1].DataPointer.Offset = uint64(sym.Uint16("off"))
	store(n, nil, appendable.FieldTypeFloat64)
}

var raws = []string{`"\n"`, `"\""`, `"a\\"`, `"\u0041"`, "\"\xc3\xa9\"", `"\ud83d\ude00"`, "\"\xf0\x9f\x98\x80\"", `"\u00e9"`, `"\/\b\f\r\t"`, `"\ud800"`, `" x "`, `""`}

// Referenced: nodes whose keys stand in the data file.
//
//verif:harness prop=P19 quick="n=2" thorough="n=3" bounds="string keys: 0..n arbitrary plain ASCII characters, and twelve strings with escapes and non-ASCII characters, with and without white space before them, next to another key; leaf and inner"
func Referenced() {
	raw := raws
	i := sym.Choose("raw", len(raw)+sym.Param("n", 2)+1)
	v := ""
	if i < len(raw) {
		v = raw[i]
	} else {
		b := sym.Bytes("s", i-len(raw))
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
		}
		v = `"` + string(b) + `"`
	}
	data := []byte(`{"k":` + []string{"", " "}[sym.Choose("gap", 2)] + v + `,"l":"zz"}`)
	at := 5
	keys := [][2]int{{at, len(data) - 10}, {len(data) - 5, len(data) - 1}}
	n := &bptree.BPTreeNode{}
	leaf := sym.Choose("leaf", 2) == 1
	for i, k := range keys {
		n.Keys = append(n.Keys, pointer.ReferencedValue{Value: handlers.JSONLHandler{}.Parse(data[k[0]:k[1]]), DataPointer: pointer.MemoryPointer{Offset: uint64(k[0]), Length: uint32(k[1] - k[0])}})
		if leaf {
			n.LeafPointers = append(n.LeafPointers, pointer.MemoryPointer{Offset: uint64(i), Length: uint32(len(data))})
		}
	}
	if !leaf {
		n.InternalPointers = []uint64{4096, 8192, 12288}
	}
	store(n, data, appendable.FieldTypeString)
}

var counts = []int{1, 2, 14, 15, 16, 30, 31}

// Linked: the list of indexes.
//
//verif:harness prop=P19 quick="" bounds="lists of 1, 2, 14, 15, 16, 30 or 31 indexes (up to three pages) behind the file metadata; any one has any 64-bit root offset and 32-bit length and metadata of 0, 1, 20 or 252 bytes with arbitrary first and last byte"
func Linked() {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "page file")
	h, err := linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "linked pages")
	h, err = h.AddNext() // file metadata
	sym.Assert(err == nil, "AddNext")
	n := counts[sym.Choose("slots", len(counts))]
	var roots []pointer.MemoryPointer
	var metas [][]byte
	which := sym.Choose("which", n)
	if n > 2 {
		sym.Assume(which < 2 || which >= 12 && which < 17 || which >= n-2)
	}
	for i := 0; i <= n; i++ {
		if i > 0 {
			h, err = h.AddNext()
			sym.Assert(err == nil, "AddNext")
		}
		r := pointer.MemoryPointer{Offset: uint64(i)*7 + 1, Length: uint32(i) + 3}
		md := []byte{byte(i), 1, 2, byte(i)}
		if i == which {
			r = pointer.MemoryPointer{Offset: sym.Uint64("root.off"), Length: sym.Uint32("root.len")}
			l := []int{0, 1, 20, 252}[sym.Choose("len", 4)]
			md = make([]byte, l)
			if l > 0 {
				md[0], md[l-1] = sym.Byte("first"), sym.Byte("last")
			}
		}
		sym.Assert(h.SetRoot(r) == nil && h.SetMetadata(md) == nil, "updating a slot failed")
		roots, metas = append(roots, r), append(metas, md)
	}
	a := call("linked", f.Flat(), n+3)
	sym.Assert(len(a) == len(roots), "the client finds another number of indexes")
	for i := range roots {
		x := a[i].([]any)
		sym.Assert(sym.EqBytes(x[0].([]byte), metas[i]), "the client reads other metadata of an index")
		sym.Assert(sym.And(x[1].(uint64) == roots[i].Offset, x[2].(int64) == int64(roots[i].Length)), "the client reads another root of an index")
	}
}

// Headers: the fields of an index file.
//
//verif:harness prop=P19 quick="k=3" thorough="k=4" bounds="0, 13 or 14 indexes, then k created with any two of the names and types used; the field list and the lookup of every field and type"
func Headers() {
	f := ix.File()
	x := ix.Open(f, handlers.JSONLHandler{}, nil)
	type key struct {
		n string
		t appendable.FieldType
	}
	var want []key
	mk := func(n string, t appendable.FieldType) {
		_, _, err := x.FindOrCreateIndex(n, t)
		sym.Assert(err == nil, "FindOrCreateIndex failed")
		for _, k := range want {
			if k == (key{n, t}) {
				return
			}
		}
		want = append(want, key{n, t})
	}
	pre := []int{0, 13, 14}[sym.Choose("pre", 3)]
	for i := 0; i < pre; i++ {
		mk(string([]byte{'f', byte('a' + i)}), appendable.FieldTypeFloat64)
	}
	types := []appendable.FieldType{appendable.FieldTypeString, appendable.FieldTypeFloat64, appendable.FieldTypeNull}
	for i := 0; i < sym.Param("k", 3); i++ {
		c := sym.Byte("name")
		sym.Assume(sym.And(c >= 'a', c < 'c'))
		mk(string([]byte{c}), types[sym.Choose("type", 3)])
	}
	m, err := x.Metadata()
	sym.Assert(err == nil, "metadata")
	m.ReadOffset, m.Entries = sym.Uint64("off"), uint64(sym.Byte("entries"))
	sym.Assert(x.SetMetadata(m) == nil, "metadata")
	flat := f.Flat()
	a := call("open", flat)
	sym.Assert(a[0].(int64) == int64(m.Version) && a[1].(int64) == int64(m.Format), "the client reads another version or format")
	sym.Assert(sym.And(a[2].(uint64) == m.ReadOffset, a[3].(int64) == int64(m.Entries)), "the client reads other file metadata")
	got := 0
	hs := a[4].([]any)
	for i, h := range hs {
		n := h.([]any)[0].(string)
		for _, o := range hs[:i] {
			sym.Assert(o.([]any)[0].(string) != n, "the client lists a field twice")
		}
		for _, t := range h.([]any)[1].([]any) {
			got++
			ok := false
			for _, k := range want {
				if k.n == n && int64(k.t) == t.(int64) {
					ok = true
				}
			}
			sym.Assert(ok, "the client lists a field or type that has no index")
		}
	}
	sym.Assert(got == len(want), "the client does not list every field and type")
	for _, k := range want {
		sym.Assert(len(call("seek", flat, k.n, int64(k.t))) == 1, "the client does not find an index")
	}
	sym.Assert(len(call("seek", flat, "none", int64(appendable.FieldTypeString))) == 0, "the client finds an index that is not there")
}
