// Package jsonl: the JSONL index.
package jsonl

import (
	"encoding/binary"
	"math"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// gen writes records and notes what their index entries are.
type gen struct {
	ix.Doc
	start      int
	wants      int // first entry of the current record
	bares      int
	colon, gap string // white space before and after ':'
	comma      string
}

func newGen() *gen {
	g := &gen{}
	g.Parser = handlers.JSONLHandler{}
	g.Pad = " \t"
	g.Totals = true
	return g
}

func (g *gen) begin() {
	g.start, g.wants, g.bares = len(g.Data), len(g.Want), len(g.Bare)
	g.Str("{")
}

func (g *gen) end() {
	g.Str("}")
	rec := pointer.MemoryPointer{Offset: uint64(g.start), Length: uint32(len(g.Data) - g.start)}
	for i := g.wants; i < len(g.Want); i++ {
		g.Want[i].Rec = rec
	}
	for i := g.bares; i < len(g.Bare); i++ {
		g.Bare[i].Rec = rec
	}
	g.Str("\n")
	g.Ends = append(g.Ends, len(g.Data))
	g.RowEnds = g.Ends
}

func (g *gen) key(first bool, k string) {
	if !first {
		g.Str("," + g.comma)
	}
	g.Str(`"` + k + `"` + g.colon + ":" + g.gap)
}

func (g *gen) scalar(name string, t appendable.FieldType, raw []byte, key []byte) {
	g.Want = append(g.Want, ix.Want{Name: name, Type: t, Key: key, At: len(g.Data), Raw: raw})
	g.Data = append(g.Data, raw...)
}

func (g *gen) bare(name string, t appendable.FieldType) {
	g.Bare = append(g.Bare, ix.Want{Name: name, Type: t})
}

func f64(f float64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return b
}

type num struct {
	s string
	f float64
}

var nums = []num{{"0", 0}, {"7", 7}, {"-2.5", -2.5}, {"1e3", 1000}, {"123456789", 123456789}, {"0.125", 0.125}, {"-0", math.Copysign(0, -1)}, {"1.7976931348623157e308", math.MaxFloat64}, {"5e-324", 5e-324}}

func (g *gen) num(name string, i int) {
	g.scalar(name, appendable.FieldTypeFloat64, []byte(nums[i].s), f64(nums[i].f))
}

// str: a string of n arbitrary plain characters.
func (g *gen) str(name string, n int) {
	b := sym.Bytes("s", n)
	for _, c := range b {
		sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
	}
	raw := append(append([]byte{'"'}, b...), '"')
	g.scalar(name, appendable.FieldTypeString, raw, b)
}

type esc struct{ raw, val string }

var escs = []esc{{`"\n"`, "\n"}, {`"\""`, `"`}, {`"a\\"`, `a\`}, {`"\u0041"`, "A"}, {"\"\xc3\xa9\"", "\xc3\xa9"}, {`"\ud83d\ude00"`, "\xf0\x9f\x98\x80"}, {"\"\xff\"", "\xef\xbf\xbd"}, {`"}]"`, "}]"}, {`" x "`, " x "}, {`":,"`, ":,"}}

func (g *gen) esc(name string, i int) {
	g.scalar(name, appendable.FieldTypeString, []byte(escs[i].raw), []byte(escs[i].val))
}

// nScalars is the number of scalar shapes of simple.
const nScalars = 6

// simple writes one of the scalar shapes; n bounds the length of strings.
func (g *gen) simple(name string, kind, n int) {
	switch kind {
	case 0:
		g.scalar(name, appendable.FieldTypeNull, []byte("null"), []byte{})
	case 1:
		g.scalar(name, appendable.FieldTypeBoolean, []byte("true"), []byte{1})
	case 2:
		g.scalar(name, appendable.FieldTypeBoolean, []byte("false"), []byte{0})
	case 3:
		g.num(name, sym.Choose("num", len(nums)))
	case 4:
		g.str(name, sym.Choose("len", n+1))
	case 5:
		g.esc(name, sym.Choose("esc", len(escs)))
	}
}

var arrays = []string{`[]`, `[1,"x"]`, `[[],[[]]]`, `[{"a":1},[{}]]`, `["]","["]`, `[{"q":["}"]}]`, `[null,true , 2.5]`}

func (g *gen) arr(name string, i int) {
	g.bare(name, appendable.FieldTypeArray)
	g.Str(arrays[i])
}

func (g *gen) spaces() {
	g.colon = []string{"", " ", "\t "}[sym.Choose("colon", 3)]
	g.gap = []string{"", " ", " \t"}[sym.Choose("gap", 3)]
	g.comma = []string{"", " "}[sym.Choose("comma", 2)]
}

// run synchronizes the whole document into a new index and checks it, also
// through a second handle.
func (g *gen) run() {
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, g.Search)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
	ix.Check(x, &g.Doc)
	ix.Check(ix.Open(f, h, g.Search), &g.Doc)
}

// Scalar: one record with one field of any scalar shape.
//
//verif:harness prop=P01 quick="n=2" thorough="n=3" bounds="one record {\"a\": value}: null, booleans, nine numbers, strings of 0..n arbitrary plain characters, ten strings with escapes, UTF-8 or invalid bytes; three spacings around ':'"
func Scalar() {
	g := newGen()
	g.spaces()
	g.begin()
	g.key(true, "a")
	g.simple("a", sym.Choose("kind", nScalars), sym.Param("n", 2))
	g.end()
	g.run()
}

// Pair: two records of one field each.
//
//verif:harness prop=P01 quick="n=1" thorough="n=2" bounds="two records with one field each, named a or b, of any scalar shape (strings of 0..n arbitrary characters), an array or an empty object"
func Pair() {
	g := newGen()
	for i := 0; i < 2; i++ {
		g.begin()
		k := []string{"a", "b"}[sym.Choose("key", 2)]
		g.key(true, k)
		switch kind := sym.Choose("kind", nScalars+1); kind {
		case 3:
			g.num(k, sym.Choose("num", 3))
		case 5:
			g.esc(k, sym.Choose("esc", 2))
		case 6:
			g.bare(k, appendable.FieldTypeObject)
			g.Str("{}")
		default:
			g.simple(k, kind, sym.Param("n", 1))
		}
		g.end()
	}
	g.run()
}

// Fields: one record of several fields, with arrays and objects in between.
//
//verif:harness prop=P01 quick="n=4" thorough="n=5" bounds="one record of n fields named a, b, c, ..., each null, a number, a one-character string, an array (seven shapes, nested, with brackets inside strings) or an object holding a string, an array and an object"
func Fields() {
	g := newGen()
	g.begin()
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		k := string([]byte{'a' + byte(i)})
		g.key(i == 0, k)
		switch sym.Choose("kind", 5) {
		case 0:
			g.simple(k, 0, 0)
		case 1:
			g.num(k, 2)
		case 2:
			g.str(k, 1)
		case 3:
			g.arr(k, sym.Choose("arr", len(arrays)))
		case 4:
			g.bare(k, appendable.FieldTypeObject)
			g.Str("{")
			g.key(true, "x")
			g.esc(k+".x", 7)
			g.key(false, "y")
			g.arr(k+".y", 3)
			g.key(false, "z")
			g.bare(k+".z", appendable.FieldTypeObject)
			g.Str("{")
			g.key(true, "x")
			g.simple(k+".z.x", 1, 0)
			g.Str("}}")
		}
	}
	g.end()
	g.run()
}

// Nested: objects within objects.
//
//verif:harness prop=P01 quick="d=3" thorough="d=5" bounds="one record nesting up to d objects, at each level an optional scalar before and after the inner object, then a second record with a flat field whose name contains a dot"
func Nested() {
	g := newGen()
	d := 1 + sym.Choose("depth", sym.Param("d", 3))
	g.spaces()
	g.begin()
	var rec func(path string, l int)
	rec = func(path string, l int) {
		first := true
		if sym.Choose("before", 2) == 1 {
			g.key(true, "p")
			g.num(path+"p", 1)
			first = false
		}
		if l < d {
			g.key(first, "o")
			first = false
			g.bare(path+"o", appendable.FieldTypeObject)
			g.Str("{")
			rec(path+"o.", l+1)
			g.Str("}")
		}
		if sym.Choose("after", 2) == 1 {
			g.key(first, "q")
			g.simple(path+"q", 2, 0)
		}
	}
	rec("", 0)
	g.end()
	g.begin()
	g.key(true, "o.p")
	g.num("o.p", 0)
	g.end()
	g.run()
}

// Names: arbitrary field names.
//
//verif:harness prop=P01 quick="n=3" thorough="n=4" bounds="n records of one number field whose name is one or two arbitrary plain characters"
func Names() {
	g := newGen()
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		b := sym.Bytes("name", 1+sym.Choose("len", 2))
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
		}
		g.begin()
		g.key(true, string(b))
		g.num(string(b), i)
		g.end()
	}
	g.run()
}

// Dups: records that share values, and a field repeated within a record.
//
//verif:harness prop=P01 quick="n=3" thorough="n=4" tbudget=2400 bounds="n records of one or two fields, all named a, each a string of one of three characters or a number of two"
func Dups() {
	g := newGen()
	n := sym.Param("n", 4)
	for i := 0; i < n; i++ {
		g.begin()
		k := 1 + sym.Choose("fields", 2)
		for j := 0; j < k; j++ {
			g.key(j == 0, "a")
			if sym.Choose("kind", 2) == 0 {
				c := sym.Byte("c")
				sym.Assume(c >= 'x' && c <= 'z')
				g.scalar("a", appendable.FieldTypeString, []byte{'"', c, '"'}, []byte{c})
			} else {
				g.num("a", j)
			}
		}
		g.end()
	}
	g.run()
}

// Many: enough distinct values to split leaves.
//
//verif:harness prop=P01 quick="n=300" thorough="n=700" steps=4000000000 bounds="n fixed records with a number and null each, in scrambled order (several leaves), then one record with any of nine numbers and an arbitrary two-character string"
func Many() {
	g := newGen()
	n := sym.Param("n", 300)
	for i := 0; i < n; i++ {
		v := i * 73 % 1009
		g.begin()
		g.key(true, "b")
		s := []byte{'1' + byte(v/100%9), '0' + byte(v/10%10), '0' + byte(v%10)}
		g.scalar("b", appendable.FieldTypeFloat64, s, f64(float64(int(s[0]-'0')*100+int(s[1]-'0')*10+int(s[2]-'0'))))
		g.key(false, "n")
		g.simple("n", 0, 0)
		g.end()
	}
	g.begin()
	g.key(true, "a")
	g.str("a", 2)
	g.key(false, "b")
	g.num("b", sym.Choose("num", len(nums)))
	g.end()
	g.run()
}

// Any: any line at all.
//
//verif:harness prop=P01 quick="n=3" thorough="n=4" tbudget=2400 bounds="every line of 0..n bytes without newline, and every line {\"a\":...} with n arbitrary bytes in place of the dots"
func Any() {
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, nil)
	n := sym.Param("n", 5)
	k := sym.Choose("len", n+1)
	b := sym.Bytes("b", k)
	for _, c := range b {
		sym.Assume(c != '\n')
	}
	data := b
	if sym.Choose("shape", 2) == 1 {
		data = append(append([]byte(`{"a":`), b...), '}')
	}
	data = append(data, '\n')
	if x.Synchronize(data) != nil {
		sym.Assert(!object(data[:len(data)-1]), "a valid object is refused")
		return
	}
	sym.Assert(object(data[:len(data)-1]), "a line that is no JSON object is accepted")
	m, err := x.Metadata()
	sym.Assert(err == nil, "reading file metadata failed")
	sym.Assert(m.ReadOffset == uint64(len(data)) && m.Entries == 1, "wrong read offset or number of entries")
	for _, i := range ix.List(x, data, h) {
		it, err := i.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
		sym.Assert(err == nil, "iterating an index failed")
		for it.Next() {
			p := it.Key().DataPointer
			sym.Assert(it.Pointer() == pointer.MemoryPointer{Length: uint32(len(data) - 1)}, "an entry refers to something else than the record")
			sym.Assert(p.Offset+uint64(p.Length) < uint64(len(data)), "an entry refers to a value outside its record")
			got := h.Parse(data[p.Offset : p.Offset+uint64(p.Length)])
			sym.Assert(string(got) == string(it.Key().Value), "the value an entry refers to is not its key")
		}
		sym.Assert(it.Err() == nil, "iterating an index failed")
	}
}
