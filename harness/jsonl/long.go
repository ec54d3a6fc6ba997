package jsonl

import (
	"bytes"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

func (g *gen) letter() byte {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'm', c <= 'p'))
	return c
}

// Long: records, texts and names whose lengths lie around the powers of two
// that buffers and encodings of lengths care about.
//
//verif:harness prop=P01 quick="n=18" thorough="n=18" steps=4000000000 tbudget=1800 bounds="three records, the second with a text (its last character arbitrary), white space, an array or an unused object of the first n of 126, 127, 128, 254..257, 1000, 4095, 4096, 4097, 16383, 16384, 32768, 65535, 65536, 65537, 200000 bytes, or a field name of 126..128 or 236 bytes, or 14 nested objects; the other two with short texts under the same name"
func Long() {
	g := newGen()
	lens := []int{126, 127, 128, 254, 255, 256, 257, 1000, 4095, 4096, 4097, 16383, 16384, 65537, 32768, 65535, 65536, 200000}
	g.begin()
	g.key(true, "a")
	g.scalar("a", appendable.FieldTypeString, []byte(`"n"`), []byte("n"))
	g.end()
	g.begin()
	kind := sym.Choose("kind", 6)
	n := 0
	switch kind {
	case 4:
		n = []int{126, 127, 128, 236}[sym.Choose("size", 4)]
	case 5:
	default:
		n = lens[sym.Choose("size", sym.Param("n", 12))]
	}
	fill := bytes.Repeat([]byte{'n'}, n)
	switch kind {
	case 0:
		fill[n-1] = g.letter()
		g.key(true, "a")
		g.scalar("a", appendable.FieldTypeString, append(append([]byte{'"'}, fill...), '"'), fill)
		g.key(false, "b")
		g.num("b", 1)
	case 1:
		g.key(true, "a")
		g.Str(string(bytes.Repeat([]byte{' '}, n)))
		g.scalar("a", appendable.FieldTypeString, []byte(`"nn"`), []byte("nn"))
	case 2:
		g.key(true, "x")
		g.bare("x", appendable.FieldTypeArray)
		g.Str(`["` + string(fill) + `"]`)
		g.key(false, "a")
		g.str("a", 1)
	case 3:
		g.key(true, "x")
		g.bare("x", appendable.FieldTypeObject)
		g.Str(`{"y":`)
		g.scalar("x.y", appendable.FieldTypeString, []byte(`"`+string(fill)+`"`), fill)
		g.Str("}")
		g.key(false, "a")
		g.str("a", 1)
	case 4:
		g.key(true, string(fill))
		g.num(string(fill), 2)
		g.key(false, string(fill[1:])+"o")
		g.num(string(fill[1:])+"o", 1)
	case 5:
		path := ""
		for i := 0; i < 14; i++ {
			g.key(true, "o")
			path += "o"
			g.bare(path, appendable.FieldTypeObject)
			g.Str("{")
			path += "."
		}
		g.key(true, "p")
		g.num(path+"p", 1)
		for i := 0; i < 14; i++ {
			g.Str("}")
			if i == 6 {
				g.key(false, "q")
				g.num(path[:len(path)-2*i-2]+"q", 2)
			}
		}
	}
	g.end()
	g.begin()
	g.key(true, "a")
	g.scalar("a", appendable.FieldTypeString, []byte(`"nn"`), []byte("nn"))
	g.end()
	g.run()
}
