package jsonl

import (
	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/grams"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

var gramTypes = []appendable.FieldType{appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram}

// token is one expected n-gram entry.
type token struct {
	name  string
	n     int
	word  string
	off   uint64 // its position in the value
	span  uint32
	lo    int // the offset just behind the colon
	at    int // the offset of the value
	size  int // the length of the value
	start int
	used  bool
}

// sgen generates documents with searched fields.
type sgen struct {
	gen
	toks []token
	// first token of the current record
	first int
	ends  []pointer.MemoryPointer
	colon int
}

func newSearch(fields ...string) *sgen {
	g := &sgen{gen: *newGen()}
	g.Search = fields
	g.Skip = func(t appendable.FieldType) bool {
		return t == gramTypes[0] || t == gramTypes[1] || t == gramTypes[2]
	}
	return g
}

// text writes a string value, given by its characters, under a searched field.
func (g *sgen) text(name string, b []byte, us []grams.Unit) {
	raw := append(append([]byte{'"'}, b...), '"')
	lo := len(g.Data) - len(g.gap)
	g.scalar(name, appendable.FieldTypeString, raw, b)
	for n := 1; n <= 3; n++ {
		for _, t := range grams.Want(us, n) {
			g.toks = append(g.toks, token{name: name, n: n, word: t.Word, off: t.Offset, span: t.Length, lo: lo, at: lo + len(g.gap), size: len(b), start: g.start})
		}
	}
}

func ascii(b []byte) []grams.Unit {
	us := make([]grams.Unit, len(b))
	for i, c := range b {
		us[i].C = c
	}
	return us
}

// check compares the n-gram indexes of x with the tokens of the document.
func (g *sgen) check(x *appendable.IndexFile) {
	ix.Check(x, &g.Doc)
	for i := range g.toks {
		g.toks[i].used = false
	}
	seen := 0
	for _, i := range ix.List(x, g.Data, g.Parser) {
		n := 0
		for j, t := range gramTypes {
			if i.Meta.FieldType == t {
				n = j + 1
			}
		}
		if n == 0 {
			continue
		}
		sym.Assert(i.Meta.Width == uint16(n+1), "an n-gram index has the wrong width")
		searched := false
		for _, s := range g.Search {
			searched = searched || s == i.Meta.FieldName
		}
		sym.Assert(searched, "a field that is not searched has an n-gram index")
		total := uint64(0)
		it, err := i.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
		sym.Assert(err == nil, "iterating an n-gram index failed")
		for it.Next() {
			k, rec := it.Key(), it.Pointer()
			hit := false
			for j := range g.toks {
				t := &g.toks[j]
				if t.used || t.n != n || t.name != i.Meta.FieldName || uint64(t.start) != rec.Offset || t.word != string(k.Value) {
					continue
				}
				// it refers to the position of the n-gram, counted from the
				// value or from the colon before it, and to the length of the value
				if d := k.DataPointer.Offset - t.off; d < uint64(t.lo) || d > uint64(t.at)+1 || int(k.DataPointer.Length) != t.size {
					continue
				}
				t.used, hit = true, true
				total += uint64(t.span)
				seen++
				break
			}
			sym.Assert(hit, "an n-gram entry matches no n-gram of a searched field")
			end := 0
			for _, e := range g.Ends {
				if e > int(rec.Offset) && end == 0 {
					end = e - 1
				}
			}
			sym.Assert(int(rec.Offset)+int(rec.Length) == end, "an n-gram entry does not refer to its record")
		}
		sym.Assert(it.Err() == nil, "iterating an n-gram index failed")
		sym.Assert(i.Meta.TotalFieldValueLength == total, "the total length of an n-gram index is not the sum of its entries")
	}
	sym.Assert(seen == len(g.toks), "an n-gram of a searched field is missing from its index")
}

func (g *sgen) runSearch() {
	f := ix.File()
	h := handlers.JSONLHandler{}
	x := ix.Open(f, h, g.Search)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records with searched fields failed")
	g.check(x)
	g.check(ix.Open(f, h, g.Search))
}

// Text: any short text under a searched field.
//
//verif:harness prop=P15 quick="n=3" thorough="n=4" tbudget=2400 bounds="one record {\"a\": text} with a searched: every text of 0..n plain ASCII characters, three spacings around ':'"
func Text() {
	g := newSearch("a")
	g.spaces()
	g.begin()
	g.key(true, "a")
	b := sym.Bytes("s", sym.Choose("len", sym.Param("n", 3)+1))
	for _, c := range b {
		sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
	}
	g.text("a", b, ascii(b))
	g.end()
	g.runSearch()
}

// TextLong: long texts under a searched field.
//
//verif:harness prop=P15 quick="n=1" thorough="n=3" steps=4000000000 tbudget=1800 bounds="two records of a searched field, the first with a text of the first n of 280, 600, 1500 characters of which one is arbitrary"
func TextLong() {
	g := newSearch("a")
	k := []int{280, 600, 1500}[sym.Choose("size", sym.Param("n", 1))]
	b := make([]byte, k)
	for i := range b {
		b[i] = "abcabdxyz0Q "[i*5%12]
	}
	c := sym.Byte("c")
	sym.Assume(sym.And(sym.And(c >= 0x20, c < 0x80), sym.And(c != '"', c != '\\')))
	b[[]int{0, k / 2, k - 1}[sym.Choose("at", 3)]] = c
	for _, s := range [][]byte{b, []byte("abc")} {
		g.begin()
		g.key(true, "a")
		g.text("a", s, ascii(s))
		g.end()
	}
	g.runSearch()
}

var texts = []string{"", "ab", "a a", "Aa aA", "abab-ab", "x yz", "zzzz"}

// Records: records with searched and other fields and values of any type.
//
//verif:harness prop=P15 quick="n=2" thorough="n=3" tbudget=2400 bounds="n records of one or two fields, a (searched), b and o.c (not searched, although c is) or o.a and o.d (searched, although d is not; nor are names that differ in case, blanks or length, the empty one, or stars): one of seven texts with repeated n-grams, mixed case and punctuation, or null, a number, a Boolean, an array or an object; synchronized at once or one by one through new handles"
func Records() {
	g := newSearch("a", "o.a", "c", "o.d", "", "B", "bb", " b", "o", "o.*", "*", "o.C")
	n := sym.Param("n", 2)
	f := ix.File()
	h := handlers.JSONLHandler{}
	step := sym.Choose("steps", 2) == 1
	for i := 0; i < n; i++ {
		g.begin()
		switch sym.Choose("field", 4) {
		case 0:
			g.key(true, "a")
			g.value("a", true)
		case 1:
			g.key(true, "o")
			g.bare("o", appendable.FieldTypeObject)
			g.Str("{")
			g.key(true, "a")
			g.value("o.a", true)
			g.Str("}")
		case 2:
			g.key(true, "o")
			g.bare("o", appendable.FieldTypeObject)
			g.Str("{")
			g.key(true, "c")
			g.esc("o.c", 8)
			g.key(false, "d")
			g.text("o.d", []byte(texts[4]), ascii([]byte(texts[4])))
			g.Str("}")
		case 3:
			g.key(true, "b")
			g.esc("b", 8)
			g.key(false, "a")
			g.value("a", true)
		}
		g.end()
		if step || i == n-1 {
			x := ix.Open(f, h, g.Search)
			sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records with searched fields failed")
			g.check(x)
		}
	}
}

func (g *sgen) value(name string, search bool) {
	k := sym.Choose("value", len(texts)+5)
	if k < len(texts) {
		g.text(name, []byte(texts[k]), ascii([]byte(texts[k])))
		return
	}
	switch k - len(texts) {
	case 0:
		g.simple(name, 0, 0)
	case 1:
		g.num(name, 2)
	case 2:
		g.simple(name, 1, 0)
	case 3:
		g.arr(name, 1)
	case 4:
		g.bare(name, appendable.FieldTypeObject)
		g.Str("{")
		g.key(true, "q")
		g.num(name+".q", 1)
		g.Str("}")
	}
}

// pieces writes a text of n pieces under a searched field.
func (g *sgen) pieces(name string, ps []grams.Piece) {
	var b []byte
	var us []grams.Unit
	for _, p := range ps {
		b = append(b, p.S...)
		us = append(us, p.Units()...)
	}
	g.text(name, b, us)
}

// Foreign: texts with characters outside ASCII.
//
//verif:harness prop=P15 quick="n=2,p=2" thorough="n=2,p=3" tbudget=2400 bounds="n records of a searched field, the first of one text of p pieces, each a letter, a space or one of seventeen characters outside ASCII (accents, ligatures, symbols, CJK, emoji), the others of p letters"
func Foreign() {
	g := newSearch("a")
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		var ps []grams.Piece
		for j := 0; j < sym.Param("p", 2); j++ {
			k := len(grams.Pieces)
			if i == 0 {
				k = sym.Choose("piece", len(grams.Pieces)+2)
			}
			switch {
			case k == len(grams.Pieces):
				ps = append(ps, grams.Piece{S: "x", D: "x"})
			case k == len(grams.Pieces)+1:
				ps = append(ps, grams.Piece{S: " ", D: " "})
			case grams.Pieces[k].S[0] < 0x20:
				ps = append(ps, grams.Piece{S: "-", D: "-"})
			default:
				ps = append(ps, grams.Pieces[k])
			}
		}
		g.begin()
		g.key(true, "a")
		g.pieces("a", ps)
		g.end()
	}
	g.runSearch()
}

// Collide: positions counted in the decomposed text reach into the next record.
//
//verif:harness prop=P15 quick="" kf=KF-gram-position bounds="two records whose texts decompose into more characters than they have bytes"
func Collide() {
	g := newSearch("a")
	for _, p := range []grams.Piece{{S: "\ufdfa", D: ".................."}, {S: "\u33ae", D: "rad.s"}} {
		g.begin()
		g.key(true, "a")
		g.pieces("a", []grams.Piece{p, {S: "a", D: "a"}})
		g.end()
	}
	g.runSearch()
}
