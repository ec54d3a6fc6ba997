package tsq

import (
	"fmt"

	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// question is what a database is asked: conditions, orders, selection, search.
type question []any

// undef is undefined
var undef any

func where(key, op string, v any, dir string) question {
	q := question{[]any{[]any{key, op, v}}, undef, undef, undef}
	if dir != "" {
		q[1] = []any{[]any{key, dir}}
	}
	return q
}

// sameAll says whether two lists of results are the same, the first up to its length.
func prefix(a, b []any) bool {
	for i := range a {
		if i >= len(b) || a[i].(string) != b[i].(string) {
			return false
		}
	}
	return true
}

// flaky asks questions in a row of a database over a network of which one
// request, or all from one on, fail while the first is asked.
func flaky(data []byte, search []string, qs []question) {
	f := ix.File()
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, search).Synchronize(data) == nil, "synchronizing valid records failed")
	// what each question yields on its own
	var want [][]any
	total := int64(0)
	for i, q := range qs {
		r, err := tsx.Call("flaky", data, f.Flat(), []any{[]any(q)}, int64(0), int64(0))
		sym.Assert(err == nil, "the driver failed")
		a := r.([]any)[0].([]any)
		sym.Assert(!a[0].(bool) && !a[1].(bool), "a query fails although no request does")
		want = append(want, a[2].([]any))
		if i == 0 {
			total = int64(number64(a[3]))
		}
	}
	from := int64(sym.Choose("from", int(total)))
	upto := from + 1
	if sym.Choose("all", 2) == 1 {
		upto = total
	}
	var asks []any
	for _, q := range qs {
		asks = append(asks, []any(q))
	}
	r, err := tsx.Call("flaky", data, f.Flat(), asks, from, upto)
	sym.Assert(err == nil, "the driver failed")
	for i, x := range r.([]any) {
		a := x.([]any)
		hit, failed, got := a[0].(bool), a[1].(bool), a[2].([]any)
		if failed {
			sym.Assert(hit, "a query fails although none of its requests does")
			sym.Assert(prefix(got, want[i]), "a query yields something wrong before it fails")
		} else {
			sym.Assert(prefix(got, want[i]), "a query yields a wrong record after a request failed")
			sym.Assert(len(got) == len(want[i]), "a query ends early after a request failed, as if there were no more records")
		}
	}
}

// Flaky: requests that fail during a query, and queries after it.
//
//verif:harness prop=P27 quick="n=3" thorough="n=6" tbudget=2400 bounds="files of n records with a number, a string that is searched and a field of its own, of which the last has an arbitrary letter; a query by number or by string in either direction, a search or the list of fields, during which any one request or all from any one on fail, and then the same again or another of them"
func Flaky() {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	n := sym.Param("n", 3)
	var data []byte
	for i := 0; i < n; i++ {
		x := byte('k')
		if i == n-1 {
			x = c
		}
		data = append(data, fmt.Sprintf(`{"a":%d,"f%d":null,"s":"u`, 7+i/2, i)...)
		data = append(data, x)
		data = append(data, "\"}\n"...)
	}
	qs := []question{
		where("a", ">=", int64(7), ""),
		where("a", "<=", int64(9), "DESC"),
		where("s", "==", "uk", ""),
		{undef, undef, undef, []any{"s", "uk", []any{int64(1), int64(2)}}},
		{undef, undef, undef, undef},
	}
	a := sym.Choose("a", len(qs))
	b := a
	if k := sym.Choose("b", 3); k > 0 {
		b = (a + k) % len(qs)
	}
	flaky(data, []string{"s"}, []question{qs[a], qs[b]})
}

// FlakyPages: as Flaky, with a list of indexes and a tree of several pages.
//
//verif:harness prop=P27 quick="n=18,d=60,step=6" thorough="n=34,d=700,step=150" tbudget=2400 steps=4000000000 bounds="files of n fields in a record and d records of one of them, with an arbitrary digit in the last; a query of the last step of them in either direction, for the field created last, or for the list of fields, during which any one request or all from any one on fail, and then the same again or another of them"
func FlakyPages() {
	data, d := paged(), sym.Param("d", 300)
	step := sym.Param("step", 100)
	qs := []question{
		where("a", ">=", int64(d-step), ""),
		where("a", ">=", int64(d-step), "DESC"),
		where("z", ">=", int64(5), ""),
		{undef, undef, undef, undef},
	}
	a := sym.Choose("a", len(qs))
	b := a
	if sym.Choose("b", 2) == 1 {
		b = (a + 1) % len(qs)
	}
	flaky(data, nil, []question{qs[a], qs[b]})
}

// paged is a file of n fields in its last record and d records of one of them.
func paged() []byte {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= '0', c <= '9'))
	n, d := sym.Param("n", 18), sym.Param("d", 300)
	var data []byte
	for i := 0; i < d; i++ {
		data = append(data, fmt.Sprintf(`{"a":%d}`, i)...)
		data = append(data, '\n')
	}
	data = append(data, '{')
	for i := 0; i < n; i++ {
		data = append(data, fmt.Sprintf(`"f%d":1,`, i)...)
	}
	data = append(data, `"z":`...)
	data = append(data, c)
	data = append(data, "}\n"...)
	return data
}

// leaves is a file of d records ordered by a number, of which those next to
// where the first leaf may end, wide on either side, have the same.
func leaves() []byte {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= '0', c <= '9'))
	d, wide := sym.Param("d", 300), sym.Param("wide", 12)
	var data []byte
	for i := 0; i < d; i++ {
		v := 1
		if i >= 147-wide {
			v = 5
		}
		if i >= 147+wide {
			v = 8
		}
		data = append(data, fmt.Sprintf(`{"a":%d,"b":%d`, v, i%10)...)
		if i == d-1 {
			data = append(data, c)
		}
		data = append(data, "}\n"...)
	}
	return data
}

// FlakyLeaves: as Flaky, with a query that goes on in another leaf.
//
//verif:harness prop=P27 quick="d=300,wide=8,back=0" thorough="d=450,wide=20,back=1" tbudget=2400 steps=4000000000 bounds="files of d records, the last with an arbitrary digit; a query for about twice wide records with the same value, which are in two leaves of the tree (thorough: also one for these and all smaller ones in descending order), during which any one request or all from any one on fail, and then the same again"
func FlakyLeaves() {
	q := where("a", "==", int64(5), "")
	if sym.Choose("back", 1+sym.Param("back", 0)) == 1 {
		q = where("a", "<=", int64(5), "DESC")
	}
	flaky(leaves(), nil, []question{q, q})
}
