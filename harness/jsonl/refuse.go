package jsonl

import (
	"strings"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// good writes a record with a number under a, a null under b and an object under o.
func (g *gen) good(i int) {
	g.begin()
	g.key(true, "a")
	g.num("a", i)
	g.key(false, "b")
	g.simple("b", 0, 0)
	g.key(false, "o")
	g.bare("o", appendable.FieldTypeObject)
	g.Str("{")
	g.key(true, "c")
	g.str("o.c", 0)
	g.Str("}")
	g.end()
}

// bad returns a line that may be no record.
func bad() []byte {
	long := strings.Repeat("n", 247)
	switch c := sym.Choose("context", 9); c {
	case 7: // a name too long, at once or as a path
		n := []int{234, 235, 236, 247}[sym.Choose("n", 4)]
		return []byte([]string{`{"a":1,"` + long[:n] + `":2}`, `{"a":1,"o":{"c":1,"` + long[:n] + `":2}}`, `{"a":1,"` + long[:n] + `":{}}`, `{"` + long[:n] + `":[]}`}[sym.Choose("long", 4)])
	case 8: // numbers out of range
		return []byte([]string{`{"a":1,"b":1e999}`, `{"a":[1e999]}`, `{"o":{"c":null,"d":-1e999}}`}[sym.Choose("range", 3)])
	default:
		around := [][2]string{{"", ""}, {`{"a":7,"b":`, `}`}, {`{"a":7`, `}`}, {`{"b":null,"o":{"c":"x"`, ``}, {`{"a":7,"b":[1,`, `}`}, {`{"a":7,"o":{`, `}}`}, {`{"a":7,"b":"`, `,"c":1}`}}[c]
		b := sym.Bytes("b", sym.Choose("len", sym.Param("n", 2)+1))
		for _, c := range b {
			sym.Assume(c != '\n')
		}
		return append(append([]byte(around[0]), b...), around[1]...)
	}
}

// Refused: a line that is no record between others.
//
//verif:harness prop=P18 quick="n=2" thorough="n=3" tbudget=2400 bounds="JSONL: 0 or 2 records, then a refused line (0..n arbitrary bytes alone or in one of six contexts, a field name or path too long (of up to 247 bytes), a number out of range), then a record; synchronized at once or after the first record; a second attempt through the same handle or a new one, or with the file cut before the line; then with the line corrected"
func Refused() {
	g := newGen()
	n := 2 * sym.Choose("before", 2)
	for i := 0; i < n; i++ {
		g.good(i)
	}
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, nil)
	if n > 0 && sym.Choose("first", 2) == 1 {
		p := g.Prefix(g.Ends[0])
		sym.Assert(x.Synchronize(p.Data) == nil, "synchronizing failed")
	}
	ok := g.Prefix(len(g.Data)) // the records before the line
	data := append(append([]byte(nil), g.Data...), bad()...)
	data = append(data, "\n{\"z\":1}\n"...)
	err := x.Synchronize(data)
	sym.Assume(err != nil)
	ix.Check(x, ok)
	mode := sym.Choose("mode", 3)
	if mode == 1 {
		x = ix.Open(f, h, nil)
	}
	sym.Assert(x.Synchronize(data) != nil, "a refused line is accepted the second time")
	ix.Check(x, ok)
	if mode == 2 {
		sym.Assert(x.Synchronize(ok.Data) == nil, "synchronizing fails after a refused line was removed")
		ix.Check(x, ok)
	}
	g.good(3)
	g.good(4)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing fails after a refused line was corrected")
	ix.Check(x, &g.Doc)
}

// Shorter: the data file has lost its end.
//
//verif:harness prop=P18 quick="" bounds="JSONL: 1 or 2 records, then the data file cut at any byte before the end of the last record"
func Shorter() {
	g := newGen()
	for i := 0; i <= sym.Choose("n", 2); i++ {
		g.good(i)
	}
	x := ix.Open(ix.File(), handlers.JSONLHandler{}, nil)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
	at := sym.Choose("at", len(g.Data))
	sym.Assert(x.Synchronize(g.Data[:at:at]) != nil, "a data file shorter than its index is accepted")
	ix.Check(x, &g.Doc)
	g.good(3)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
	ix.Check(x, &g.Doc)
}
