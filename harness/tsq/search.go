package tsq

import (
	"fmt"
	"math"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/zz_verif/grams"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

var gramTypes = []appendable.FieldType{0, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram}

// sameTokens: the client cuts the phrase into the n-grams the index is built from.
func sameTokens(phrase string, lo, hi int) {
	r, err := tsx.Call("tokens", phrase, int64(lo), int64(hi))
	sym.Assert(err == nil, "the client fails to cut a phrase")
	got := r.([]any)
	i := 0
	for n := lo; n <= hi; n++ {
		for _, t := range ngram.BuildNgram(phrase, n) {
			sym.Assert(i < len(got), "the client misses an n-gram")
			g := got[i].([]any)
			sym.Assert(g[0].(string) == t.Word, "the client takes another n-gram")
			sym.Assert(string(g[1].([]byte)) == t.Word, "the client looks up another n-gram")
			sym.Assert(g[2].(int64) == int64(gramTypes[n]), "the client takes an n-gram of another kind")
			i++
		}
	}
	sym.Assert(i == len(got), "the client takes an n-gram too many")
}

// TokensAscii: any ASCII phrase.
//
//verif:harness prop=P22 quick="n=4" thorough="n=6" tbudget=2400 bounds="every phrase of 0..n ASCII characters, gram lengths 1..3, 1..2 and 3..3"
func TokensAscii() {
	b := sym.Bytes("b", sym.Choose("len", sym.Param("n", 4)+1))
	for _, c := range b {
		sym.Assume(sym.And(c < 0x80, c != 0))
	}
	g := [][2]int{{1, 3}, {1, 2}, {3, 3}}[sym.Choose("gram", 3)]
	sameTokens(string(b), g[0], g[1])
}

// TokensMixed: phrases with characters outside ASCII.
//
//verif:harness prop=P22 quick="n=3" thorough="n=4" tbudget=2400 bounds="phrases of n pieces, each a letter, digit or space or one of eighteen characters (accents, ligatures, symbols, full-width, CJK, emoji, control), gram lengths 1..3"
func TokensMixed() {
	s := ""
	for i := 0; i < sym.Param("n", 3); i++ {
		k := sym.Choose("piece", len(grams.Pieces)+1)
		if k < len(grams.Pieces) {
			s += grams.Pieces[k].S
			continue
		}
		c := sym.Byte("c")
		sym.Assume(sym.Or(sym.Or(c == 'q', c == 'Z'), sym.Or(c == '7', c == ' ')))
		s += string([]byte{c})
	}
	sameTokens(s, 1, 3)
}

// corpus is a data file with a searched field a.
type corpus struct {
	data []byte
	recs []string
	text [][]grams.Unit
}

// add appends a record of a text, or of something that is none.
func (c *corpus) add(raw string, us []grams.Unit) {
	r := `{"a":` + raw + fmt.Sprintf(`,"r":%d}`, len(c.recs))
	c.recs = append(c.recs, r)
	c.text = append(c.text, us)
	c.data = append(append(c.data, r...), '\n')
}

func plain(s string) []grams.Unit {
	us := make([]grams.Unit, len(s))
	for i := range us {
		us[i].C = s[i]
	}
	return us
}

// search searches for the phrase and compares with the definition: every record
// with one of the n-grams once, the score of which is the sum of what the
// n-grams contribute, the best first.
func (c *corpus) search(phrase string, us []grams.Unit, lo, hi int, random []any) {
	f := ix.File()
	sym.Assert(ix.Open(f, handlers.JSONLHandler{}, []string{"a"}).Synchronize(c.data) == nil, "synchronizing valid records failed")
	want := map[int]float64{}
	for n := lo; n <= hi; n++ {
		for _, t := range grams.Want(us, n) {
			tf := make([]int, len(c.recs))
			nt := 0
			for i, u := range c.text {
				for _, x := range grams.Want(u, n) {
					if x.Word == t.Word {
						tf[i]++
					}
				}
				if tf[i] > 0 {
					nt++
				}
			}
			idf := math.Log((float64(len(c.recs)-nt) + 0.5) / (float64(nt) + 0.5))
			for i, k := range tf {
				if k > 0 {
					want[i] += idf * (float64(k) * 2.2 / (float64(k) + 1.2))
				}
			}
		}
	}
	var gram any
	if lo != 1 || hi != 2 {
		gram = []any{int64(lo), int64(hi)}
	}
	r, err := tsx.Call("search", c.data, f.Flat(), "a", phrase, gram, random)
	sym.Assert(err == nil, "the client fails on a search")
	got := r.([]any)
	seen := map[int]bool{}
	last := math.Inf(1)
	for _, g := range got {
		d, score := g.([]any)[0].(string), number64(g.([]any)[1])
		id := -1
		for i, x := range c.recs {
			if d == x {
				id = i
			}
		}
		sym.Assert(id >= 0, "a search yields something that is no record")
		sym.Assert(!seen[id], "a search yields a record twice")
		seen[id] = true
		w, ok := want[id]
		sym.Assert(ok, "a search yields a record without any of the n-grams")
		sym.Assert(math.Abs(w-score) < 1e-9, "a search scores a record wrong")
		sym.Assert(score <= last, "a search does not yield the best records first")
		last = score
	}
	sym.Assert(len(got) == len(want), "a search misses a record")
}

func number64(v any) float64 {
	if i, ok := v.(int64); ok {
		return float64(i)
	}
	return v.(float64)
}

func randoms(n int) []any {
	var r []any
	for i := 0; i < n; i++ {
		r = append(r, []float64{0, 0.5, 0.999}[sym.Choose("random", 3)])
	}
	return r
}

func letters(name string, n int) string {
	b := sym.Bytes(name, n)
	for _, c := range b {
		sym.Assume(sym.Or(sym.Or(c == 'a', c == 'b'), sym.Or(c == ' ', c == 'B')))
	}
	return string(b)
}

// SearchTexts: arbitrary short texts.
//
//verif:harness prop=P22 quick="n=3,m=2" thorough="n=4,m=3" tbudget=2400 bounds="three records of the text abc, of n arbitrary characters of a small alphabet (two letters, one of them in both cases, and white space), and of null; phrases of m such characters, the default gram lengths 1..2, and 1..3, 3..3"
func SearchTexts() {
	c := &corpus{}
	c.add(`"abc"`, plain("abc"))
	s := letters("s", sym.Param("n", 3))
	c.add(`"`+s+`"`, plain(s))
	c.add("null", nil)
	p := letters("p", sym.Param("m", 2))
	g := [][2]int{{1, 2}, {1, 3}, {3, 3}}[sym.Choose("gram", 3)]
	c.search(p, plain(p), g[0], g[1], nil)
}

// SearchMany: records that share n-grams, in any order of the lookups.
//
//verif:harness prop=P22 quick="n=2" thorough="n=3" tbudget=2400 bounds="n records of one of five texts (with one, several or none of the n-grams) and one of a long text, four phrases (with a character outside ASCII), every shuffle of up to three steps, the default gram lengths and 2..3"
func SearchMany() {
	c := &corpus{}
	c.add(`"wake me up inside 12"`, plain("wake me up inside 12"))
	texts := []string{"up", "UP up upup", "x", "", "1 2 12"}
	for i := 0; i < sym.Param("n", 3); i++ {
		t := texts[sym.Choose("text", len(texts))]
		c.add(`"`+t+`"`, plain(t))
	}
	var us []grams.Unit
	p := []string{"up", "Wup 1", "12", "\U0001f600u\u00e9p"}[sym.Choose("phrase", 4)]
	if p[0] >= 0x80 {
		us = []grams.Unit{{}, {C: 'u'}, {C: 'e'}, {}, {C: 'p'}}
	} else {
		us = plain(p)
	}
	g := [][2]int{{1, 2}, {2, 3}}[sym.Choose("gram", 2)]
	c.search(p, us, g[0], g[1], randoms(2))
}
