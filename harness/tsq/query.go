package tsq

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

var ops = []string{"<", "<=", "==", ">=", ">"}

// record writes record i with the raw value v, and is where that stands.
func (w *world) record(i int, v string) (dp, rec pointer.MemoryPointer) {
	lo := len(w.data)
	w.data = append(w.data, `{"a":`...)
	at := len(w.data)
	w.data = append(w.data, v...)
	dp = pointer.MemoryPointer{Offset: uint64(at), Length: uint32(len(w.data) - at)}
	w.data = append(w.data, fmt.Sprintf(`,"r":%d}`, i)...)
	rec = pointer.MemoryPointer{Offset: uint64(lo), Length: uint32(len(w.data) - lo)}
	w.data = append(w.data, '\n')
	return dp, rec
}

func holds(op string, c int) bool {
	switch op {
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case "==":
		return c == 0
	case ">=":
		return c >= 0
	}
	return c > 0
}

// query runs every kind of query with the value (its key is key) and compares
// with the entries that match, in order.
func (w *world) query(key []byte, value any) {
	op := ops[sym.Choose("op", 5)]
	var dir any
	back := false
	switch sym.Choose("dir", 3) {
	case 1:
		dir = "ASC"
	case 2:
		dir, back = "DESC", true
	}
	var want []string
	for _, e := range w.m {
		if holds(op, bytes.Compare(e.k.Value, key)) {
			rec := string(w.data[e.v.Offset : e.v.Offset+uint64(e.v.Length)])
			if back && op != "==" {
				want = append([]string{rec}, want...)
			} else {
				want = append(want, rec)
			}
		}
	}
	m := &appendable.IndexMeta{FieldName: "a", FieldType: w.typ, Width: w.t.Width}
	meta, err := m.MarshalBinary()
	sym.Assert(err == nil, "index metadata")
	r, err := tsx.Call("treeQuery", w.data, append([]byte{}, w.p.B...), int64(w.meta.R.Offset), meta, int64(len(w.m)), op, value, dir)
	sym.Assert(err == nil, "the client fails on a query")
	got := r.([]any)
	sym.Assert(len(got) >= len(want), "a query misses a record")
	sym.Assert(len(got) <= len(want), "a query yields a record that does not match")
	for i := range got {
		sym.Assert(got[i].(string) == want[i], "a query yields a wrong record or a wrong order")
	}
}

// QueryText: string queries.
//
//verif:harness prop=P21 quick="n=3" thorough="n=4" tbudget=2400 bounds="1..n records of a string of 0..1 (the last: 0..2) arbitrary plain ASCII characters on small pages, every operator and direction, every plain ASCII string of 0..2 characters asked for"
func QueryText() {
	w := newWorld(24, 0)
	w.typ = appendable.FieldTypeString
	n := 1 + sym.Choose("n", sym.Param("n", 3))
	type at struct{ dp, rec pointer.MemoryPointer }
	var as []at
	text := func(n int) []byte {
		b := sym.Bytes("s", n)
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
		}
		return b
	}
	for i := 0; i < n; i++ {
		k := 2
		if i == n-1 {
			k = 3
		}
		b := text(sym.Choose("len", k))
		dp, rec := w.record(i, `"`+string(b)+`"`)
		as = append(as, at{dp, rec})
	}
	w.t.Data, w.t.DataParser = w.data, handlers.JSONLHandler{}
	for _, a := range as {
		w.add(ent{pointer.ReferencedValue{Value: w.data[a.dp.Offset+1 : a.dp.Offset+uint64(a.dp.Length)-1], DataPointer: a.dp}, a.rec})
	}
	q := text(sym.Choose("qlen", 3))
	w.query(q, string(q))
}

func f64(f float64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return b
}

// QueryDeep: numbers in trees of several levels.
//
//verif:harness prop=P21 quick="d=9" thorough="d=21" tbudget=2400 bounds="d records of the numbers 2, 4, 6, ... and one of any number between 0 and 2d+3 (every half), on small pages in three insertion orders; every operator and direction; every number from -1 to 2d+3, below, between and above"
func QueryDeep() {
	w := newWorld(48, 9)
	d := sym.Param("d", 9)
	order := sym.Choose("order", 3)
	for i := 0; i < d; i++ {
		j := i
		switch order {
		case 1:
			j = d - 1 - i
		case 2:
			j = i * 5 % d
		}
		dp, rec := w.record(i, fmt.Sprint(2*j+2))
		w.add(ent{pointer.ReferencedValue{Value: f64(float64(2*j + 2)), DataPointer: dp}, rec})
	}
	k := f64(0)
	// between two neighbours: the leading bytes are arbitrary
	k[0], k[1] = sym.Byte("k0"), sym.Byte("k1")
	sym.Assume(sym.Or(k[0] == 0x3f, sym.And(k[0] == 0x40, k[1] < 0x40)))
	dp, rec := w.record(d, "0")
	w.add(ent{pointer.ReferencedValue{Value: k, DataPointer: dp}, rec})
	q := sym.Choose("q", 2*d+4)
	w.query(f64(float64(q)), int64(q))
}

// QueryDup: many records of the same value.
//
//verif:harness prop=P21 quick="d=9" thorough="d=20" bounds="d records sharing one of three values over several leaves and one of any one-byte text, every operator and direction, every one-character text"
func QueryDup() {
	w := newWorld(24, 0)
	w.typ = appendable.FieldTypeString
	d := sym.Param("d", 9)
	type at struct{ dp, rec pointer.MemoryPointer }
	var as []at
	for i := 0; i < d; i++ {
		j := (i * 7) % d
		dp, rec := w.record(i, `"`+string([]byte{'h' + 5*byte(j*3/d)})+`"`)
		as = append(as, at{dp, rec})
	}
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	dp, rec := w.record(d, `"`+string([]byte{c})+`"`)
	as = append(as, at{dp, rec})
	w.t.Data, w.t.DataParser = w.data, handlers.JSONLHandler{}
	for _, a := range as {
		w.add(ent{pointer.ReferencedValue{Value: w.data[a.dp.Offset+1 : a.dp.Offset+uint64(a.dp.Length)-1], DataPointer: a.dp}, a.rec})
	}
	q := sym.Bytes("q", 1)
	sym.Assume(sym.And(q[0] >= 'a', q[0] <= 'z'))
	w.query(q, string(q))
}

// QueryFew: booleans and null.
//
//verif:harness prop=P21 quick="d=6" thorough="d=12" bounds="d records of arbitrary booleans, or of null, on small pages; every operator and direction, both booleans, null"
func QueryFew() {
	null := sym.Choose("null", 2) == 1
	width := 2
	if null {
		width = 1
	}
	w := newWorld(24, width)
	w.typ = appendable.FieldTypeBoolean
	if null {
		w.typ = appendable.FieldTypeNull
	}
	for i := 0; i < sym.Param("d", 6); i++ {
		if null {
			dp, rec := w.record(i, "null")
			w.add(ent{pointer.ReferencedValue{Value: []byte{}, DataPointer: dp}, rec})
			continue
		}
		v := sym.Byte("v")
		sym.Assume(v < 2)
		dp, rec := w.record(i, "true")
		w.add(ent{pointer.ReferencedValue{Value: []byte{v}, DataPointer: dp}, rec})
	}
	if null {
		w.query([]byte{}, tsx.Null{})
	} else if sym.Choose("q", 2) == 1 {
		w.query([]byte{1}, true)
	} else {
		w.query([]byte{0}, false)
	}
}
