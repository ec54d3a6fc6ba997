// Package tsv: which queries the client refuses.
package tsv

import (
	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// The type codes of the index format.
const (
	tString  = int64(appendable.FieldTypeString)
	tInt64   = int64(appendable.FieldTypeInt64)
	tUint64  = int64(appendable.FieldTypeUint64)
	tFloat64 = int64(appendable.FieldTypeFloat64)
	tBoolean = int64(appendable.FieldTypeBoolean)
	tNull    = int64(appendable.FieldTypeNull)
	tTri     = int64(appendable.FieldTypeTrigram)
	tBi      = int64(appendable.FieldTypeBigram)
	tUni     = int64(appendable.FieldTypeUnigram)
)

// types is a list of n arbitrary field types.
func types(n int) []any {
	ts := make([]any, n)
	for i := range ts {
		t := sym.Byte("type")
		sym.Assume(t <= 10)
		ts[i] = int64(t)
	}
	return ts
}

// has says whether one of the types is one of those asked for.
func has(ts []any, of ...int64) bool {
	r := false
	for _, t := range ts {
		for _, o := range of {
			r = sym.Or(r, t.(int64) == o)
		}
	}
	return r
}

// a value, and whether a field of the types has values of its type.
func value(ts []any) (any, bool) {
	switch sym.Choose("value", 9) {
	case 0:
		return 1.5, has(ts, tFloat64, tInt64, tUint64)
	case 1:
		return uint64(7), has(ts, tFloat64, tInt64, tUint64) // a bigint
	case 2:
		return "x", has(ts, tString)
	case 3:
		return "", has(ts, tString)
	case 4:
		return sym.Choose("bool", 2) == 1, has(ts, tBoolean)
	case 5:
		return tsx.Null{}, has(ts, tNull)
	case 6:
		return []any{}, false // an object
	case 7:
		return int64(0), has(ts, tFloat64, tInt64, tUint64)
	}
	return nil, false // missing
}

func key() string { return []string{"a", "b", "", "A"}[sym.Choose("key", 4)] }

var ops = []string{"<", "<=", "==", ">=", ">", "=", "!=", ""}

// Where: conditions, orders and selections.
//
//verif:harness prop=P26 quick="n=2,t=3" thorough="n=3,t=3" tbudget=1800 bounds="two fields a and b, the first of t arbitrary types, the second of one; 0..n conditions, the last on a, b or fields the index has not, with eight operators of which five exist, all with nine values of every type; and with up to one condition: no order, an empty one, or one by a field that is or is not that of the first condition in three directions; no selection, an empty one or one of two fields"
func Where() {
	a, b := types(sym.Param("t", 3)), types(1)
	var where []any
	ok := true
	n := sym.Choose("conditions", sym.Param("n", 2)+1)
	first := ""
	for i := 0; i < n; i++ {
		k, op := []string{"a", "b"}[i%2], 2
		if i == n-1 {
			k, op = key(), sym.Choose("op", len(ops))
		}
		ts := a
		if k == "b" {
			ts = b
		}
		v, fits := value(ts)
		where = append(where, []any{k, ops[op], v})
		ok = sym.And(ok, fits)
		if k != "a" && k != "b" || op > 4 {
			ok = false
		}
		if i == 0 {
			first = k
		}
	}
	if n > 1 {
		// orders and selections are tried with one condition
		_, err := tsx.Call("validate", []any{[]any{"a", a}, []any{"b", b}}, where, nil, nil, nil)
		sym.Assert((err == nil) == ok, "a query is refused that could be answered, or accepted that could not")
		return
	}
	if n == 0 {
		where, ok = []any{}, false
	}
	var order, sel any
	switch sym.Choose("order", 3) {
	case 1:
		order, ok = []any{}, false
	case 2:
		k, d := []string{"a", "b"}[sym.Choose("by", 2)], sym.Choose("direction", 3)
		order = []any{[]any{k, []string{"ASC", "DESC", "asc"}[d]}}
		if k != first || d == 2 {
			ok = false
		}
	}
	switch sym.Choose("select", 4) {
	case 1:
		sel, ok = []any{}, false
	case 2:
		sel = []any{"b", "a"}
	case 3:
		sel, ok = []any{"a", "c"}, false
	}
	_, err := tsx.Call("validate", []any{[]any{"a", a}, []any{"b", b}}, where, order, sel, nil)
	sym.Assert((err == nil) == ok, "a query is refused that could be answered, or accepted that could not")
}

// Search: searches.
//
//verif:harness prop=P26 quick="t=2" thorough="t=3" tbudget=1800 bounds="a field of t arbitrary types and any of the three kinds of n-gram index, in any place; gram lengths each from -1 to 6, or none; a field the index does not have"
func Search() {
	ts := types(sym.Param("t", 2))
	for _, g := range []int64{tTri, tBi, tUni} {
		switch sym.Choose("gram", 3) {
		case 0:
			ts = append(ts, g)
		case 1:
			ts = append([]any{g}, ts...)
		}
	}
	ok := sym.And(has(ts, tTri), sym.And(has(ts, tBi), has(ts, tUni)))
	k := []string{"a", "b"}[sym.Choose("key", 2)]
	if k == "b" {
		ok = false
	}
	var gram any
	lo, hi := int64(1), int64(2)
	if sym.Choose("lengths", 2) == 1 {
		lo, hi = int64(sym.Byte("min"))-1, int64(sym.Byte("max"))-1
		sym.Assume(sym.And(lo <= 6, hi <= 6))
		gram = []any{lo, hi}
		ok = sym.And(ok, sym.And(lo >= 1, sym.And(lo <= hi, hi <= 3)))
	}
	r, err := tsx.Call("validate", []any{[]any{"a", ts}}, nil, nil, nil, []any{k, "text", gram})
	sym.Assert((err == nil) == ok, "a search is refused that could be done, or accepted that could not")
	if err == nil {
		g := r.([]any)
		sym.Assert(sym.And(g[0].(int64) == lo, g[1].(int64) == hi), "a search uses other gram lengths than asked for, or than 1 to 2 by default")
	}
}

// Database: queries on a data file and its index that cannot be answered fail before any record is yielded.
//
//verif:harness prop=P26 bounds="a file of two records with a number, a text that is searched and one that is not; conditions on different fields, on a field that is not there, of an unsupported type; searches of a field that is not there or not searched, and of gram lengths from 0 to 4"
func Database() {
	data := []byte("{\"n\":1,\"s\":\"one two\",\"t\":\"text\"}\n{\"n\":2,\"s\":\"two\",\"t\":\"next\"}\n")
	f := ix.File()
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, []string{"s"}).Synchronize(data) == nil, "synchronizing valid records failed")
	var where, search any
	want, n := true, 0
	switch sym.Choose("query", 8) {
	case 0: // an answer
		where, want, n = []any{[]any{"n", ">=", int64(1)}}, false, 2
	case 1:
		where = []any{[]any{"n", ">=", int64(1)}, []any{"s", "==", "two"}}
	case 2:
		where = []any{[]any{"N", ">=", int64(1)}}
	case 3:
		where = []any{[]any{"n", ">=", []any{int64(1)}}}
	case 4:
		search = []any{"t", "text", nil}
	case 5:
		search = []any{"u", "text", nil}
	case 6:
		search = []any{"n", "1", nil}
	case 7:
		lo, hi := sym.Choose("min", 5), sym.Choose("max", 5)
		search = []any{"s", "two", []any{int64(lo), int64(hi)}}
		want = lo < 1 || hi > 3 || lo > hi
		if !want {
			n = 2
		}
	}
	r, err := tsx.Call("refused", data, f.Flat(), where, nil, nil, search)
	sym.Assert(err == nil, "the client fails to open the index")
	g := r.([]any)
	sym.Assert(g[0].(bool) == want, "a query that cannot be answered does not fail, or one that can does")
	sym.Assert(g[1].(int64) == int64(n), "a refused query yields records, or another lacks some")
}

// Builder: what is derived from a query builder leaves the builder alone.
//
//verif:harness prop=P21 quick="n=3" thorough="n=4" bounds="n steps, each a condition, an order, a selection or a limit added to any of the builders so far"
func Builder() {
	type query struct{ where, order, sel, limit any }
	var steps []any
	var qs []query
	for i := 0; i < sym.Param("n", 3); i++ {
		q := query{where: []any{}}
		from, what := 0, 0
		if i > 0 {
			from, what = sym.Choose("from", len(qs)), sym.Choose("what", 4)
			q = qs[from]
		}
		x := string(rune('a' + i))
		switch what {
		case 0:
			v := sym.Byte("v")
			steps = append(steps, []any{int64(from), "where", x, "<", int64(v)})
			q.where = append(append([]any{}, q.where.([]any)...), []any{x, "<", int64(v)})
		case 1:
			steps = append(steps, []any{int64(from), "orderBy", x, "DESC"})
			o := []any{}
			if q.order != nil {
				o = append(o, q.order.([]any)...)
			}
			q.order = append(o, []any{x, "DESC"})
		case 2:
			steps = append(steps, []any{int64(from), "select", []any{x, "z"}})
			q.sel = []any{x, "z"}
		case 3:
			steps = append(steps, []any{int64(from), "limit", int64(i)})
			q.limit = int64(i)
		}
		qs = append(qs, q)
	}
	r, err := tsx.Call("built", steps)
	sym.Assert(err == nil, "the query builder fails")
	for i, g := range r.([]any) {
		q := g.([]any)
		sym.Assert(same(q[0], qs[i].where), "a query builder asks with other conditions")
		sym.Assert(same(q[1], qs[i].order), "a query builder asks for another order")
		sym.Assert(same(q[2], qs[i].sel), "a query builder asks for other fields")
		sym.Assert(same(q[3], qs[i].limit), "a query builder asks with another limit")
	}
}

func same(a, b any) bool {
	x, ok := a.([]any)
	y, yes := b.([]any)
	if !ok && !yes {
		return a == b
	}
	if !ok || !yes || len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i]) {
			return false
		}
	}
	return true
}
