// Package grams: the n-gram tokenizer.
package grams

import (
	"github.com/kevmo314/appendable/pkg/ngram"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Unit is one character of the decomposed text: an ASCII one, or 0 for any other.
type Unit struct {
	C byte
}

func space(c byte) bool {
	return sym.Or(sym.And(c >= 9, c <= 13), c == ' ')
}

func word(c byte) bool {
	l := sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z'))
	return sym.Or(l, sym.And(c >= '0', c <= '9'))
}

func lower(c byte) byte {
	return byte(sym.Ite(sym.And(c >= 'A', c <= 'Z'), uint64(c)+32, uint64(c)))
}

// Want computes the tokens of a decomposed text from its definition: every n
// consecutive letters or digits of a word, where words are separated by white
// space and all other characters are skipped.
func Want(us []Unit, n int) []ngram.Token {
	var out []ngram.Token
	for i := range us {
		if !(us[i].C != 0 && word(us[i].C)) {
			continue
		}
		w, last := []byte{lower(us[i].C)}, i
		for j := i + 1; j < len(us) && len(w) < n; j++ {
			c := us[j].C
			if c == 0 {
				continue
			}
			if space(c) {
				break
			}
			if word(c) {
				w, last = append(w, lower(c)), j
			}
		}
		if len(w) == n {
			out = append(out, ngram.Token{Word: string(w), Offset: uint64(i), Length: uint32(last - i + 1)})
		}
	}
	return out
}

func same(got, exp []ngram.Token, what string) {
	sym.Assert(len(got) == len(exp), what+" number of n-grams")
	for i := range got {
		sym.Assert(got[i].Word == exp[i].Word, what+" n-gram")
		sym.Assert(got[i].Offset == exp[i].Offset, what+" n-gram position")
		sym.Assert(got[i].Length == exp[i].Length, what+" n-gram length")
	}
}

// Ascii: any ASCII text.
//
//verif:harness prop=P14 quick="n=5" thorough="n=6" tbudget=2400 bounds="every text of 0..n ASCII characters, every gram length 1..3"
func Ascii() {
	k := sym.Choose("len", sym.Param("n", 5)+1)
	b := sym.Bytes("b", k)
	us := make([]Unit, k)
	for i, c := range b {
		sym.Assume(sym.And(c < 0x80, c != 0))
		us[i].C = c
	}
	g := 1 + sym.Choose("gram", 3)
	same(ngram.BuildNgram(string(b), g), Want(us, g), "BuildNgram: wrong")
}

// Long: text longer than buffers.
//
//verif:harness prop=P14 quick="n=3" thorough="n=4" steps=4000000000 tbudget=1200 bounds="texts of words of 1, 2, 3, 40 and 300 letters and digits, altogether the first n of 400, 1000, 5000 and 20000 characters; any ASCII character at one of five places (first, last, middle, on either side of a space); every gram length 1..3"
func Long() {
	k := []int{400, 1000, 5000, 20000}[sym.Choose("len", sym.Param("n", 2))]
	var b []byte
	for i := 0; len(b) < k; i++ {
		for j := 0; j < []int{3, 1, 40, 2, 300}[i%5]; j++ {
			b = append(b, "abcXYZ059q"[(i+j*7)%10])
		}
		b = append(b, " \t,"[i%3])
	}
	b = b[:k]
	c := sym.Byte("c")
	sym.Assume(sym.And(c < 0x80, c != 0))
	b[[]int{0, k - 1, k / 2, 3, 4}[sym.Choose("at", 5)]] = c
	us := make([]Unit, k)
	for i, c := range b {
		us[i].C = c
	}
	g := 1 + sym.Choose("gram", 3)
	same(ngram.BuildNgram(string(b), g), Want(us, g), "BuildNgram: wrong")
}

// Piece is a character (or sequence) with its decomposition.
type Piece struct {
	S string
	// D is the compatibility decomposition, with . for every character outside ASCII
	D string
}

// Pieces are characters outside ASCII and two inside.
var Pieces = []Piece{
	{"\u00e9", "e."}, {"e\u0301", "e."}, {"\u222b", "."}, {"\ufb03", "ffi"}, {"\u4e2d", "."}, {"\u00a0", " "},
	{"\u2460", "1"}, {"\U0001f600", "."}, {"\u00bd", "1.2"}, {"\u212b", "A."}, {"\u1e69", "s.."}, {"\uff21", "A"},
	{"\u0130", "I."}, {"\u00df", "."}, {"\ufffd", "."}, {"\u33af", "rad.s2"}, {"\u0001", "\x01"}, {"-", "-"},
}

// Units is the decomposition of p.
func (p Piece) Units() []Unit {
	var us []Unit
	for _, c := range []byte(p.D) {
		if c == '.' {
			c = 0
		}
		us = append(us, Unit{c})
	}
	return us
}

// Mixed: text with characters outside ASCII.
//
//verif:harness prop=P14 quick="n=3" thorough="n=4" bounds="texts of n pieces, each an arbitrary ASCII letter, digit or space or one of eighteen characters (accents, ligatures, symbols, full-width, CJK, emoji, control), every gram length 1..3"
func Mixed() {
	n := sym.Param("n", 3)
	var s []byte
	var us []Unit
	for i := 0; i < n; i++ {
		k := sym.Choose("piece", len(Pieces)+1)
		if k == len(Pieces) {
			c := []byte{'q', 'Z', '7', ' '}[sym.Choose("c", 4)]
			s = append(s, c)
			us = append(us, Unit{c})
			continue
		}
		s = append(s, Pieces[k].S...)
		us = append(us, Pieces[k].Units()...)
	}
	g := 1 + sym.Choose("gram", 3)
	same(ngram.BuildNgram(string(s), g), Want(us, g), "BuildNgram: wrong")
}

// Shuffle: a permutation that leaves its argument alone.
//
//verif:harness prop=P14 quick="n=4" thorough="n=6" bounds="token lists of 0..n tokens with any of two one-letter words and arbitrary positions; the same list twice"
func Shuffle() {
	n := sym.Choose("n", sym.Param("n", 4)+1)
	ts := make([]ngram.Token, n)
	for i := range ts {
		ts[i] = ngram.Token{Word: []string{"a", "b"}[sym.Choose("w", 2)], Offset: sym.Uint64("o"), Length: uint32(i)}
	}
	keep := append([]ngram.Token(nil), ts...)
	a := ngram.Shuffle(ts)
	same(ts, keep, "Shuffle changes its argument:")
	sym.Assert(len(a) == n, "shuffling changes the number of tokens")
	used := make([]bool, n)
	for _, t := range a {
		// lengths tell the tokens apart
		i := int(t.Length)
		sym.Assert(i < n && !used[i], "shuffling repeats a token")
		used[i] = true
		sym.Assert(t.Word == keep[i].Word && t.Offset == keep[i].Offset, "shuffling changes a token")
	}
	same(ngram.Shuffle(ts), a, "shuffling again gives another order:")
}
