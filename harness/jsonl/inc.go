package jsonl

import (
	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Split: synchronizing prefixes of a file, cut anywhere, then the whole file.
//
//verif:harness prop=P02 quick="n=2,cuts=2" thorough="n=3,cuts=2" tbudget=2400 bounds="JSONL: n records with one field a or b (null, number, string of one arbitrary character, array, object), synchronized after each of up to `cuts` prefixes cut at any byte, through the same handle or a new one, then completely, then once more"
func Split() {
	g := newGen()
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		g.begin()
		k := []string{"a", "b"}[sym.Choose("key", 2)]
		g.key(true, k)
		switch sym.Choose("kind", 4) {
		case 0:
			g.num(k, 1)
		case 1:
			g.str(k, 1)
		case 2:
			g.arr(k, 0)
		case 3:
			g.bare(k, appendable.FieldTypeObject)
			g.Str("{")
			g.key(true, "c")
			g.simple(k+".c", 0, 0)
			g.Str("}")
		}
		g.end()
	}
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, nil)
	at := 0
	for i := 0; i < sym.Param("cuts", 2); i++ {
		at += sym.Choose("cut", len(g.Data)-at+1)
		p := g.Prefix(at)
		sym.Assert(x.Synchronize(p.Data) == nil, "synchronizing a prefix failed")
		ix.Check(x, p)
		if sym.Choose("reopen", 2) == 1 {
			x = ix.Open(f, h, nil)
		}
	}
	for i := 0; i < 2; i++ {
		sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
		ix.Check(x, &g.Doc)
	}
}

// Steps: one record at a time.
//
//verif:harness prop=P02 quick="n=18" thorough="n=40" steps=200000000 bounds="JSONL: n records each with a field of its own (up to n indexes over several list pages) and a shared number field, synchronized one by one through new handles, the last with an arbitrary two-character string"
func Steps() {
	g := newGen()
	f := ix.File()
	h := handlers.JSONLHandler{}
	n := sym.Param("n", 18)
	for i := 0; i < n; i++ {
		g.begin()
		k := string([]byte{'a' + byte(i/10), '0' + byte(i%10)})
		g.key(true, k)
		if i == n-1 {
			g.str(k, 2)
		} else {
			g.esc(k, i%len(escs))
		}
		g.key(false, "n")
		g.num("n", i%len(nums))
		g.end()
		x := ix.Open(f, h, nil)
		sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
		if i%4 == 3 || i == n-1 {
			ix.Check(x, &g.Doc)
		}
	}
	ix.Check(ix.Open(f, h, nil), &g.Doc)
}
