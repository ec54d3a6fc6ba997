// Package csvx: the CSV index.
package csvx

import (
	"encoding/binary"
	"math"
	"strconv"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

type gen struct {
	ix.Doc
	cols  []string
	start int
	col   int
	wants int
	eol   string
}

// newGen starts a file with a header naming the columns.
func newGen(eol string, cols ...string) *gen {
	g := &gen{cols: cols, eol: eol}
	g.Parser = handlers.CSVHandler{}
	g.Pad = "\""
	for i, c := range cols {
		if i > 0 {
			g.Str(",")
		}
		g.Str(c)
	}
	g.Str(eol)
	g.Ends = append(g.Ends, len(g.Data))
	return g
}

func (g *gen) begin() { g.start, g.col, g.wants = len(g.Data), 0, len(g.Want) }

func (g *gen) end() {
	g.Str(g.eol[:len(g.eol)-1])
	rec := pointer.MemoryPointer{Offset: uint64(g.start), Length: uint32(len(g.Data) - g.start)}
	for i := g.wants; i < len(g.Want); i++ {
		g.Want[i].Rec = rec
	}
	g.Str("\n")
	g.Ends = append(g.Ends, len(g.Data))
	g.RowEnds = append(g.RowEnds, len(g.Data))
}

// field writes one field: raw is its text, at and n the part that is the value
// proper (inside quotes).
func (g *gen) field(t appendable.FieldType, raw []byte, at, n int, key []byte) {
	if g.col > 0 {
		g.Str(",")
	}
	g.Want = append(g.Want, ix.Want{Name: g.cols[g.col], Type: t, Key: key, At: len(g.Data) + at, Raw: raw[at : at+n]})
	g.Data = append(g.Data, raw...)
	g.col++
}

func (g *gen) plain(t appendable.FieldType, raw string, key []byte) {
	g.field(t, []byte(raw), 0, len(raw), key)
}

func f64(f float64) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return b
}

type num struct {
	s string
	f float64
}

var nums = []num{{"7", 7}, {"-2.5", -2.5}, {"0", 0}, {"1e3", 1000}, {"123456789", 123456789}, {"9223372036854775808", 9223372036854775808}, {"0.125", 0.125}, {"007", 7}, {"010", 10}, {"+5", 5}}

type boolT struct {
	s string
	v byte
}

var bools = []boolT{{"true", 1}, {"false", 0}, {"T", 1}, {"FALSE", 0}}

type quoted struct{ raw, val string }

// quoteds are quoted fields with separators, quotes and blanks inside.
var quoteds = []quoted{{`"x,y"`, "x,y"}, {`"a""b"`, `a"b`}, {`" z"`, " z"}, {`""""`, `"`}, {`"plain"`, "plain"}, {`"""q"""`, `"q"`}, {`"x""",`, ""}}

// str: a string of n characters that cannot be taken for a number or boolean.
func (g *gen) str(n int) {
	b := sym.Bytes("s", n)
	for _, c := range b {
		sym.Assume(sym.Or(sym.And(c >= 'a', c <= 'e'), sym.Or(c == ' ', sym.Or(c >= 0x80, sym.And(c >= 'X', c <= 'Z')))))
	}
	g.field(appendable.FieldTypeString, b, 0, n, b)
}

const nKinds = 7

func (g *gen) any(kind, n int) {
	switch kind {
	case 0:
		g.plain(appendable.FieldTypeNull, "", []byte{})
	case 1:
		k := nums[sym.Choose("num", len(nums))]
		g.plain(appendable.FieldTypeFloat64, k.s, f64(k.f))
	case 2:
		k := bools[sym.Choose("bool", len(bools))]
		g.plain(appendable.FieldTypeBoolean, k.s, []byte{k.v})
	case 3:
		g.str(1 + sym.Choose("len", n))
	case 4:
		k := quoteds[sym.Choose("quoted", len(quoteds)-1)]
		g.field(appendable.FieldTypeString, []byte(k.raw), 1, len(k.raw)-2, []byte(k.val))
	case 5: // quoted number
		g.field(appendable.FieldTypeFloat64, []byte(`"12"`), 1, 2, f64(12))
	case 6: // quoted empty field
		g.field(appendable.FieldTypeNull, []byte(`""`), 1, 0, []byte{})
	}
}

func (g *gen) run() {
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing valid records failed")
	ix.Check(x, &g.Doc)
	ix.Check(ix.Open(f, h, nil), &g.Doc)
}

func eol() string { return []string{"\n", "\r\n"}[sym.Choose("eol", 2)] }

// Row: one record.
//
//verif:harness prop=P06 quick="n=2" thorough="n=3" bounds="a header of three columns and one record of three fields of any kind: empty, one of ten numbers, four booleans, strings of 1..n arbitrary characters, six quoted strings (with commas, doubled quotes, blanks), a quoted number, a quoted empty field; either line ending"
func Row() {
	g := newGen(eol(), "a", "b", "c")
	g.begin()
	for i := 0; i < 3; i++ {
		if i == 2 {
			g.any([]int{0, 3}[sym.Choose("last", 2)], sym.Param("n", 2))
			continue
		}
		g.any(sym.Choose("kind", nKinds), 1)
	}
	g.end()
	g.run()
}

// isInt reads a decimal integer.
func isInt(b []byte) (float64, bool) {
	neg := false
	if len(b) > 0 && (b[0] == '+' || b[0] == '-') {
		neg = b[0] == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return 0, false
	}
	v := int64(0)
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = 10*v + int64(c-'0')
	}
	if neg {
		v = -v
	}
	return float64(v), true
}

// Cell: the type and key of any cell.
//
//verif:harness prop=P06 quick="n=3,d=4" thorough="n=4,d=6" tbudget=2400 bounds="one record of a single unquoted cell: 1..n arbitrary bytes, or 1..d bytes among digits, signs, point, underscore, e, x, o, b and p; decimal integers are read independently, other numbers and Booleans as strconv reads them, everything else is a string"
func Cell() {
	var b []byte
	if sym.Choose("alphabet", 2) == 0 {
		b = sym.Bytes("b", 1+sym.Choose("len", sym.Param("n", 3)))
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c != '"', c != ','), sym.And(c != '\n', c != '\r')))
		}
	} else {
		b = sym.Bytes("b", 1+sym.Choose("len", sym.Param("d", 4)))
		for _, c := range b {
			ok := sym.And(c >= '0', c <= '9')
			for _, x := range []byte("+-._exobp") {
				ok = sym.Or(ok, c == x)
			}
			sym.Assume(ok)
		}
	}
	g := newGen("\n", "a")
	g.begin()
	if v, ok := isInt(b); ok {
		g.field(appendable.FieldTypeFloat64, b, 0, len(b), f64(v))
	} else if v, err := strconv.ParseFloat(string(b), 64); err == nil {
		g.field(appendable.FieldTypeFloat64, b, 0, len(b), f64(v))
	} else if v, err := strconv.ParseBool(string(b)); err == nil {
		g.field(appendable.FieldTypeBoolean, b, 0, len(b), []byte{byte(boolInt(v))})
	} else {
		g.field(appendable.FieldTypeString, b, 0, len(b), b)
	}
	g.end()
	g.run()
}

// Rows: several records, also with fewer fields than columns.
//
//verif:harness prop=P06 quick="n=3" thorough="n=4" bounds="a header of two columns and n records of one or two fields: empty (second field), a number, a one-character string or a quoted string"
func Rows() {
	g := newGen("\n", "a", "b")
	n := sym.Param("n", 3)
	for i := 0; i < n; i++ {
		g.begin()
		k := 1 + sym.Choose("fields", 2)
		for j := 0; j < k; j++ {
			switch kind := sym.Choose("kind", 4-boolInt(j == 0)); kind {
			case 0:
				g.plain(appendable.FieldTypeFloat64, "7", f64(7))
			case 1:
				g.str(1)
			case 2:
				g.field(appendable.FieldTypeString, []byte(`"x,y"`), 1, 3, []byte("x,y"))
			case 3:
				g.any(0, 1)
			}
		}
		g.end()
	}
	g.run()
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Header: columns by name.
//
//verif:harness prop=P06 quick="" bounds="headers of two columns: plain, with blanks, quoted with a comma, equal names; one record of number and empty field or two numbers"
func Header() {
	hs := [][4]string{{"a", "b", "a", "b"}, {"b", "a", "b", "a"}, {" a", "b ", " a", "b "}, {`"x,y"`, "z", "x,y", "z"}, {"a", "a", "a", "a"}, {"", "q.r", "", "q.r"}}
	hd := hs[sym.Choose("header", len(hs))]
	g := newGen(eol(), hd[0], hd[1])
	g.cols = []string{hd[2], hd[3]}
	n := 1 + sym.Choose("rows", 2)
	for i := 0; i < n; i++ {
		g.begin()
		g.plain(appendable.FieldTypeFloat64, "7", f64(7))
		g.any(sym.Choose("second", 2), 1)
		g.end()
	}
	g.run()
}

// Any: any record line.
//
//verif:harness prop=P06 quick="n=4" thorough="n=5" tbudget=2400 bounds="a header of two columns and every line of 1..n bytes without newline as record"
func Any() {
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	b := sym.Bytes("b", 1+sym.Choose("len", sym.Param("n", 3)))
	quote := false
	commas := 0
	for _, c := range b {
		sym.Assume(c != '\n')
		if c == '"' {
			quote = true
		}
		if c == ',' {
			commas++
		}
	}
	head := "a,b\n"
	data := append(append([]byte(head), b...), '\n')
	if x.Synchronize(data) != nil {
		blank := len(b) == 1 && b[0] == '\r'
		sym.Assert(quote || blank || commas > 1, "a valid record is refused")
		return
	}
	m, err := x.Metadata()
	sym.Assert(err == nil, "reading file metadata failed")
	sym.Assert(m.ReadOffset == uint64(len(data)) && m.Entries == 1, "wrong read offset or number of entries")
	fields := 0
	for _, i := range ix.List(x, data, h) {
		it, err := i.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
		sym.Assert(err == nil, "iterating an index failed")
		for it.Next() {
			p := it.Key().DataPointer
			sym.Assert(it.Pointer() == pointer.MemoryPointer{Offset: uint64(len(head)), Length: uint32(len(b))}, "an entry refers to something else than the record")
			sym.Assert(p.Offset >= uint64(len(head)) && p.Offset+uint64(p.Length) < uint64(len(data)), "an entry refers to a value outside its record")
			fields++
		}
		sym.Assert(it.Err() == nil, "iterating an index failed")
	}
	sym.Assert(quote || fields == commas+1, "the number of entries is not the number of fields")
}

// Split: synchronizing prefixes of a file, cut anywhere, then the whole file.
//
//verif:harness prop=P02 quick="n=2,cuts=2" thorough="n=3,cuts=2" tbudget=2400 bounds="CSV: a header of two columns and n records of one or two fields (number, string of one arbitrary character; first field also a quoted string), synchronized after each of up to `cuts` prefixes cut at any byte (also within the header), through the same handle or a new one, then completely, then once more"
func Split() {
	g := newGen("\n", "b", "a")
	n := sym.Param("n", 2)
	for i := 0; i < n; i++ {
		g.begin()
		k := 1 + sym.Choose("fields", 2)
		for j := 0; j < k; j++ {
			switch sym.Choose("kind", 3-boolInt(j == 1)) {
			case 0:
				g.plain(appendable.FieldTypeFloat64, "7", f64(7))
			case 1:
				g.str(1)
			case 2:
				g.field(appendable.FieldTypeString, []byte(`"x,y"`), 1, 3, []byte("x,y"))
			}
		}
		g.end()
	}
	f := ix.File()
	h := handlers.CSVHandler{}
	x := ix.Open(f, h, nil)
	at := 0
	for i := 0; i < sym.Param("cuts", 2); i++ {
		at += sym.Choose("cut", len(g.Data)-at+1)
		p := g.Prefix(at)
		sym.Assert(x.Synchronize(p.Data) == nil, "synchronizing a prefix failed")
		ix.Check(x, p)
		if sym.Choose("reopen", 2) == 1 {
			x = ix.Open(f, h, nil)
		}
	}
	for i := 0; i < 2; i++ {
		sym.Assert(x.Synchronize(g.Data) == nil, "synchronizing failed")
		ix.Check(x, &g.Doc)
	}
}
