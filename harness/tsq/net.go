package tsq

import (
	"fmt"

	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// Net: databases opened by address.
//
//verif:harness prop=P28 quick="n=3" thorough="n=40" tbudget=2400 steps=4000000000 bounds="files of n records with a number and a string that is searched, the last with an arbitrary letter, each given by address or by a resolver; no configuration, an empty one, multipart requests on or off; servers that refuse requests for several ranges, if those are off, and otherwise servers that answer several ranges in parts, in parts in reverse, with one part that spans them, or with the whole file; a query by number or by string, a search or the list of fields, one request of which may be refused, and another afterwards"
func Net() {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	n := sym.Param("n", 3)
	var data []byte
	for i := 0; i < n; i++ {
		x := byte('k')
		if i == n-1 {
			x = c
		}
		data = append(data, fmt.Sprintf(`{"a":%d,"s":"u`, 7+i/2)...)
		data = append(data, x)
		data = append(data, "\"}\n"...)
	}
	f := ix.File()
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, []string{"s"}).Synchronize(data) == nil, "synchronizing valid records failed")
	qs := []question{
		where("a", "<=", int64(8), "DESC"),
		where("s", ">=", "uf", ""),
		{undef, undef, undef, []any{"s", "uk", []any{int64(1), int64(2)}}},
		{undef, undef, undef, undef},
	}
	a := sym.Choose("a", len(qs))
	b := (a + 1 + sym.Choose("b", 2)) % len(qs)
	asks := []any{[]any(qs[a]), []any(qs[b])}
	// what a database over the files yields
	r, err := tsx.Call("flaky", data, f.Flat(), asks, int64(0), int64(0))
	sym.Assert(err == nil, "the driver failed")
	want := r.([]any)
	total := int(number64(want[0].([]any)[3]))
	odd := sym.Choose("odd", total+1) - 1
	direct := []any{false, false}
	if odd < 0 {
		direct = []any{sym.Choose("data", 2) == 1, sym.Choose("index", 2) == 1}
	}
	config := 2 * sym.Choose("config", 2)
	if odd < 0 && sym.Choose("other", 2) == 1 {
		config++
	}
	how := 4 // no requests for several ranges
	if config != 2 {
		how = 0
	}
	if config != 2 && !direct[0].(bool) {
		how = sym.Choose("how", 4)
	}
	r, err = tsx.Call("net", data, f.Flat(), direct, int64(config), int64(how), int64(odd), asks)
	sym.Assert(err == nil, "opening a database failed")
	for i, x := range r.([]any) {
		a, w := x.([]any), want[i].([]any)[2].([]any)
		hit, failed, got := a[0].(bool), a[1].(bool), a[2].([]any)
		sym.Assert(!failed || hit, "a query fails although the server answers all its requests")
		sym.Assert(failed || !hit, "a query ends well although the server refused a request of it")
		sym.Assert(prefix(got, w), "a database opened by address yields a wrong record")
		sym.Assert(failed || len(got) == len(w), "a database opened by address misses a record")
	}
}
