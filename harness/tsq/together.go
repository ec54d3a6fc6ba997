package tsq

import (
	"fmt"

	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// together asks questions at once of a database over a network that answers the
// requests out of order.
func together(data []byte, search []string, qs []question, fail, short bool) {
	f := ix.File()
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, search).Synchronize(data) == nil, "synchronizing valid records failed")
	// what each question yields on its own
	var want [][]any
	var asks []any
	for _, q := range qs {
		r, err := tsx.Call("flaky", data, f.Flat(), []any{[]any(q)}, int64(0), int64(0))
		sym.Assert(err == nil, "the driver failed")
		want = append(want, r.([]any)[0].([]any)[2].([]any))
		asks = append(asks, []any(q))
	}
	want = append(want, want[0])
	r, err := tsx.Call("together", data, f.Flat(), asks, int64(0), int64(0), int64(-1))
	sym.Assert(err == nil, "the driver failed")
	total := int(number64(r.([]any)[1]))
	sym.ObsInt("requests", int64(total))
	odd, from, upto := -1, 0, 0
	if fail {
		odd = 1 + sym.Choose("odd", total-1) // the first is for opening the index
		from, upto = 0, total*sym.Choose("newest", 2)
	} else {
		from = sym.Choose("from", total)
		upto = total
		if part := total - from; short {
			upto = from + 1 + sym.Choose("upto", min(part, 1))
		} else {
			upto = from + 1 + sym.Choose("upto", part)
		}
	}
	r, err = tsx.Call("together", data, f.Flat(), asks, int64(from), int64(upto), int64(odd))
	sym.Assert(err == nil, "the driver failed")
	for i, x := range r.([]any)[0].([]any) {
		a := x.([]any)
		ended, failed, got := a[0].(bool), a[1].(bool), a[2].([]any)
		sym.Assert(ended, "a query that overlaps with another does not come to an end")
		sym.Assert(!failed || odd >= 0, "a query fails because another overlaps with it")
		sym.Assert(!failed || i < len(qs), "a query fails after another failed")
		sym.Assert(prefix(got, want[i]), "a query yields a wrong record when another overlaps with it")
		sym.Assert(failed || len(got) == len(want[i]), "a query misses a record when another overlaps with it")
	}
}

// Together: questions asked at once.
//
//verif:harness prop=P29 quick="n=3" thorough="n=6" tbudget=2400 bounds="files of n records with a number and a string that is searched, the last with an arbitrary letter; two questions at once and one of them again in the end: queries by number or by string, a search, the list of fields; the oldest request is answered first, but from one turn to another the newest"
func Together() {
	data, qs := gathering(sym.Param("n", 3))
	a := sym.Choose("a", len(qs))
	b := sym.Choose("b", len(qs))
	together(data, []string{"s"}, []question{qs[a], qs[b]}, false, false)
}

// TogetherFails: questions asked at once, while a request fails.
//
//verif:harness prop=P29 quick="n=3" thorough="n=6" tbudget=2400 bounds="as Together; one request, any one, fails; the oldest or the newest is answered first"
func TogetherFails() {
	data, qs := gathering(sym.Param("n", 3))
	a := sym.Choose("a", len(qs))
	b := sym.Choose("b", len(qs))
	together(data, []string{"s"}, []question{qs[a], qs[b]}, true, false)
}

// TogetherPages: as Together, with a list of indexes and a tree of several pages.
//
//verif:harness prop=P29 quick="n=18,d=40,step=4" thorough="n=34,d=700,step=20" tbudget=2400 steps=4000000000 bounds="files of n fields in a record and d records of one of them, with an arbitrary digit in the last; two questions at once and the first again in the end: a query from step to step of them in either direction, for the field created last, or for the list of fields; the newest request is answered first at one turn, any, or any one request fails and the oldest or newest is always answered first"
func TogetherPages() {
	data := paged()
	d, step := sym.Param("d", 60), sym.Param("step", 6)
	qs := []question{
		where("a", ">=", int64(d-step), ""),
		where("a", "<", int64(step), "DESC"),
		where("z", ">=", int64(5), ""),
		{undef, undef, undef, undef},
	}
	a := sym.Choose("a", len(qs))
	b := sym.Choose("b", len(qs))
	together(data, nil, []question{qs[a], qs[b]}, sym.Choose("fail", 2) == 1, true)
}

// TogetherLeaves: as Together, with queries that go on in another leaf.
//
//verif:harness prop=P29 quick="d=300,wide=4" thorough="d=450,wide=12" tbudget=2400 steps=4000000000 bounds="files of d records, the last with an arbitrary digit; the same query twice at once and once again in the end, for about twice wide records with the same value, which are in two leaves of the tree; as in TogetherPages"
func TogetherLeaves() {
	q := where("a", "==", int64(5), "")
	together(leaves(), nil, []question{q, q}, sym.Choose("fail", 2) == 1, true)
}

func gathering(n int) ([]byte, []question) {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	var data []byte
	for i := 0; i < n; i++ {
		x := byte('k')
		if i == n-1 {
			x = c
		}
		data = append(data, fmt.Sprintf(`{"a":%d,"s":"u`, 7+i/2)...)
		data = append(data, x)
		data = append(data, "\"}\n"...)
	}
	return data, []question{
		where("a", ">=", int64(7), ""),
		where("s", "<=", "uk", "DESC"),
		{undef, undef, undef, []any{"s", "uk", []any{int64(1), int64(2)}}},
		{undef, undef, undef, undef},
	}
}
