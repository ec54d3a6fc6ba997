package tsq

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// cell is a value: as it stands in the file, as the client shows it, as one asks
// for it, and its order.
type cell struct {
	raw, show string
	ask       any
	typ       appendable.FieldType
	key       []byte
	num       float64
}

func (v cell) compare(o cell) int {
	if v.typ == appendable.FieldTypeFloat64 {
		switch {
		case v.num < o.num:
			return -1
		case v.num > o.num:
			return 1
		}
		return 0
	}
	return bytes.Compare(v.key, o.key)
}

func number(raw, show string, f float64) cell {
	return cell{raw: raw, show: show, ask: f, typ: appendable.FieldTypeFloat64, key: f64(f), num: f}
}

func str(raw, s, show string) cell {
	return cell{raw: `"` + raw + `"`, show: `"` + show + `"`, ask: s, typ: appendable.FieldTypeString, key: []byte(s)}
}

var (
	null   = cell{raw: "null", show: "null", ask: tsx.Null{}, typ: appendable.FieldTypeNull, key: []byte{}}
	yes    = cell{raw: "true", show: "true", ask: true, typ: appendable.FieldTypeBoolean, key: []byte{1}}
	no     = cell{raw: "false", show: "false", ask: false, typ: appendable.FieldTypeBoolean, key: []byte{0}}
	counts = []cell{number("0", "0", 0), number("1.5", "1.5", 1.5), number("2", "2", 2), number("1e3", "1000", 1000), number("1E300", "1e+300", 1e300), number("5e-324", "5e-324", 5e-324), number("4294967297", "4294967297", 4294967297)}
	signed = []cell{number("-1", "-1", -1), number("-2.5", "-2.5", -2.5), number("3", "3", 3), number("-0", "0", math.Copysign(0, -1)), number("0.0", "0", 0)}
	texts  = []cell{str("", "", ""), str("a", "a", "a"), str("ab", "ab", "ab"), str(`\u0061b`, "ab", "ab"), str(`\"`, `"`, `\"`), str(`é`, "é", "é"), str(`\ud83d\ude00`, "😀", "😀"), str("\uffff", "\uffff", "\uffff"), str(`\n`, "\n", `\n`), str(`a\/b`, "a/b", "a/b")}
)

// table is a data file of records and the index the Go side builds.
type table struct {
	key   string
	data  []byte
	first int
	vals  []cell
	shows []string
	bytes bool
}

// add appends a record whose field (nested, where in says so) has the value.
func (t *table) add(v cell, in string) {
	i := len(t.vals)
	t.vals = append(t.vals, v)
	if in == "" {
		t.data = append(t.data, `{"a":`+v.raw+fmt.Sprintf(`,"r":%d}`, i)...)
		t.shows = append(t.shows, `{"a":`+v.show+fmt.Sprintf(`,"r":%d}`, i))
	} else {
		t.data = append(t.data, fmt.Sprintf(`{"r": %d, "%s" : {"a":`, i, in)+v.raw+`}, "z":[1]}`...)
		t.shows = append(t.shows, fmt.Sprintf(`{"r":%d,"%s":{"a":`, i, in)+v.show+`},"z":[1]}`)
	}
	t.data = append(t.data, '\n')
	if i == 0 {
		t.first = len(t.data)
	}
}

// ask queries for the value and compares with the records that match; split
// synchronizes the file in two parts.
func (t *table) ask(op string, v cell, dir int, sel int, split bool) {
	f := ix.File()
	if split {
		n := t.first
		sym.Assert(ix.Open(f, handlers.JSONLHandler{}, nil).Synchronize(t.data[:n]) == nil, "synchronizing valid records failed")
	}
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, nil).Synchronize(t.data) == nil, "synchronizing valid records failed")
	var ids []int
	for i, o := range t.vals {
		if o.typ == v.typ && holds(op, o.compare(v)) {
			ids = append(ids, i)
		}
	}
	back := dir == 2 && op != "=="
	sort.SliceStable(ids, func(x, y int) bool {
		a, b := ids[x], ids[y]
		c := t.vals[a].compare(t.vals[b])
		if c == 0 {
			c = a - b
		}
		return c < 0 != back && c != 0
	})
	want := t.show(ids, sel)
	if t.bytes {
		// KF-number-order: the order of the bytes is accepted as well
		ids = nil
		for i, o := range t.vals {
			if o.typ == v.typ && holds(op, bytes.Compare(o.key, v.key)) {
				ids = append(ids, i)
			}
		}
		sort.SliceStable(ids, func(x, y int) bool {
			a, b := ids[x], ids[y]
			c := bytes.Compare(t.vals[a].key, t.vals[b].key)
			if c == 0 {
				c = a - b
			}
			return c < 0 != back && c != 0
		})
	}
	r, err := tsx.Call("query", t.data, f.Flat(), sel == 1, t.key, op, v.ask, []any{nil, "ASC", "DESC"}[dir], []any{nil, []any{"a"}, []any{"none", "r"}}[sel])
	sym.Assert(err == nil, "the client fails on a query")
	got := r.([]any)
	if alt := t.show(ids, sel); t.bytes && fmt.Sprint(got) == fmt.Sprint(alt) {
		return
	}
	sym.Assert(len(got) >= len(want), "a query misses a record")
	sym.Assert(len(got) <= len(want), "a query yields a record that does not match")
	for i := range got {
		sym.Assert(got[i].(string) == want[i], "a query yields a wrong record or a wrong order")
	}
}

func (t *table) show(ids []int, sel int) (want []string) {
	for _, i := range ids {
		switch sel {
		case 0:
			want = append(want, t.shows[i])
		case 1:
			want = append(want, `{"a":`+t.vals[i].show+`}`)
		case 2:
			want = append(want, fmt.Sprintf(`{"r":%d}`, i))
		}
	}
	return want
}

func (t *table) has(y appendable.FieldType) bool {
	for _, v := range t.vals {
		if v.typ == y {
			return true
		}
	}
	return false
}

// EndMixed: values of every type in one field, from the data file to the result.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" tbudget=2400 bounds="n records with a field (at the top, or within an object) of null, a boolean, one of two numbers or any plain character each, synchronized at once or in two steps; every operator and direction, with a selection of fields or none, asked for a value of each type present"
func EndMixed() {
	pick := func(s string) cell {
		switch sym.Choose(s, 6) {
		case 0:
			return null
		case 1:
			return yes
		case 2:
			return no
		case 3:
			return counts[2]
		case 4:
			c := sym.Bytes("c", 1)
			sym.Assume(sym.And(sym.And(c[0] >= 0x20, c[0] < 0x80), sym.And(c[0] != '"', c[0] != '\\')))
			return str(string(c), string(c), string(c))
		}
		return counts[4]
	}
	t := &table{key: "a"}
	in := ""
	if sym.Choose("nested", 2) == 1 {
		in, t.key = "o", "o.a"
	}
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		t.add(pick("v"), in)
	}
	v := pick("q")
	sym.Assume(t.has(v.typ))
	sel := 0
	if in == "" {
		sel = sym.Choose("select", 3)
	}
	t.ask(ops[sym.Choose("op", 5)], v, sym.Choose("dir", 3), sel, sym.Choose("split", 2) == 1)
}

// EndNumbers: numbers without a sign.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" tbudget=2400 bounds="n records of seven numbers (zero, fractions, beyond 32 bits, the smallest and a huge one); every operator and direction, asked for each of them"
func EndNumbers() {
	t := &table{key: "a"}
	for i := 0; i < sym.Param("n", 2); i++ {
		t.add(counts[sym.Choose("v", len(counts))], "")
	}
	t.ask(ops[sym.Choose("op", 5)], counts[sym.Choose("q", len(counts))], sym.Choose("dir", 3), 0, false)
}

// EndTexts: strings with escapes and characters of several bytes.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" tbudget=2400 bounds="n records of ten strings (empty, escapes, two, three and four bytes of UTF-8, surrogate pairs); every operator and direction, asked for each of them"
func EndTexts() {
	t := &table{key: "a"}
	for i := 0; i < sym.Param("n", 2); i++ {
		t.add(texts[sym.Choose("v", len(texts))], "")
	}
	t.ask(ops[sym.Choose("op", 5)], texts[sym.Choose("q", len(texts))], sym.Choose("dir", 3), 0, false)
}

// EndSigns: equality of numbers with a sign.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" bounds="n records of three numbers, two below zero; asked for each of them"
func EndSigns() {
	t := &table{key: "a"}
	for i := 0; i < sym.Param("n", 2); i++ {
		t.add(signed[sym.Choose("v", 3)], "")
	}
	t.ask("==", signed[sym.Choose("q", 3)], sym.Choose("dir", 3), 0, false)
}

// EndOrder: comparisons where numbers below zero (or minus zero) take part.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" kf=KF-number-order bounds="n records of five numbers, at least one below zero or minus zero; every operator and direction (== only where minus zero takes part), asked for each of them"
func EndOrder() {
	t := &table{key: "a"}
	neg, mz := false, false
	see := func(i int) cell {
		neg = neg || i != 2 && i != 4
		mz = mz || i == 3
		return signed[i]
	}
	for i := 0; i < sym.Param("n", 2); i++ {
		t.add(see(sym.Choose("v", len(signed))), "")
	}
	v := see(sym.Choose("q", len(signed)))
	op := ops[sym.Choose("op", 5)]
	sym.Assume(neg)
	if op == "==" {
		sym.Assume(mz)
	}
	t.ask(op, v, sym.Choose("dir", 3), 0, false)
}

// EndOrderBytes: as EndOrder; the order of the index's bytes is accepted too.
//
//verif:harness prop=P21 quick="n=2" thorough="n=3" bounds="n records of five numbers, at least one below zero or minus zero; every operator and direction (== only where minus zero takes part), asked for each of them"
func EndOrderBytes() {
	t := &table{key: "a", bytes: true}
	neg, mz := false, false
	see := func(i int) cell {
		neg = neg || i != 2 && i != 4
		mz = mz || i == 3
		return signed[i]
	}
	for i := 0; i < sym.Param("n", 2); i++ {
		t.add(see(sym.Choose("v", len(signed))), "")
	}
	v := see(sym.Choose("q", len(signed)))
	op := ops[sym.Choose("op", 5)]
	sym.Assume(neg)
	if op == "==" {
		sym.Assume(mz)
	}
	t.ask(op, v, sym.Choose("dir", 3), 0, false)
}

// EndLong: texts and records longer than pages and buffers.
//
//verif:harness prop=P21 quick="n=3" thorough="n=6" tbudget=1800 steps=4000000000 bounds="records of the texts a, and n more a's (the first n of 127, 128, 4096, 300, 16384, 70000) of which the last may be b; every operator and direction, asked for each of them"
func EndLong() {
	t := &table{key: "a"}
	n := []int{127, 128, 4096, 300, 16384, 70000}[sym.Choose("n", sym.Param("n", 3))]
	var vs []cell
	for _, s := range []string{"a", string(bytes.Repeat([]byte{'a'}, n)), string(bytes.Repeat([]byte{'a'}, n-1)) + "b"} {
		vs = append(vs, str(s, s, s))
	}
	for _, i := range [][]int{{0, 1, 2}, {2, 1, 0}, {2, 1, 2}}[sym.Choose("order", 3)] {
		t.add(vs[i], "")
	}
	t.ask(ops[sym.Choose("op", 5)], vs[sym.Choose("v", 3)], sym.Choose("dir", 3), sym.Choose("select", 2), false)
}

// EndMany: an index of several full-size pages.
//
//verif:harness prop=P21 quick="n=150,step=29" thorough="n=500,step=7" tbudget=1800 steps=4000000000 bounds="n records of different numbers in scrambled order; every operator and direction, asked for every step-th of them"
func EndMany() {
	t := &table{key: "a"}
	n, step := sym.Param("n", 150), sym.Param("step", 29)
	for i := 0; i < n; i++ {
		v := i * 73 % n
		t.add(number(fmt.Sprint(v), fmt.Sprint(v), float64(v)), "")
	}
	v := sym.Choose("v", (n+step-1)/step) * step
	t.ask(ops[sym.Choose("op", 5)], number(fmt.Sprint(v), fmt.Sprint(v), float64(v)), sym.Choose("dir", 3), 0, false)
}
