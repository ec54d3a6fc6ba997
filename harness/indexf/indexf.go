// Package indexf: the index file as a versioned container of named indexes.
package indexf

import (
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

func handler(csv bool) appendable.DataHandler {
	if csv {
		return handlers.CSVHandler{}
	}
	return handlers.JSONLHandler{}
}

func same(f, g *hx.Sparse) bool {
	if f.Size != g.Size || len(f.Blocks) != len(g.Blocks) {
		return false
	}
	ok := true
	for i := range f.Blocks {
		a, b := f.Blocks[i], g.Blocks[i]
		if a == nil || b == nil {
			if (a == nil) != (b == nil) {
				return false
			}
			continue
		}
		ok = sym.And(ok, sym.EqBytes(a, b))
	}
	return ok
}

// Open: which files can be opened, and that opening changes nothing.
//
//verif:harness prop=P11 quick="" bounds="a fresh file and its reopening; then every version byte, format byte, 64-bit read offset and entry count stored in it, opened with either handler"
func Open() {
	f := ix.File()
	csv := sym.Bool("csv")
	x := ix.Open(f, handler(csv), nil)
	want := appendable.FileMeta{Version: 1}
	if csv {
		want.Format = appendable.FormatCSV
	}
	m, err := x.Metadata()
	sym.Assert(err == nil && *m == want, "a new index file must record the current version, its format and no data")
	e, err := x.IsEmpty()
	sym.Assert(err == nil && e, "a new index file must be empty")
	_, err = x.Indexes()
	sym.Assert(errors.Is(err, io.EOF), "a new index file must have no indexes")
	g := f.Clone()
	x = ix.Open(f, handler(csv), nil)
	m, err = x.Metadata()
	sym.Assert(err == nil && *m == want, "reopening changed the metadata")
	sym.Assert(same(f, g), "reopening changed the file")

	s := appendable.FileMeta{Version: appendable.Version(sym.Byte("version")), Format: appendable.Format(sym.Byte("format")), ReadOffset: sym.Uint64("off"), Entries: sym.Uint64("entries")}
	sym.Assert(x.SetMetadata(&s) == nil, "storing metadata failed")
	g = f.Clone()
	csv2 := sym.Bool("csv2")
	y, err := appendable.NewIndexFile(f, handler(csv2), nil)
	ok := s.Version == 1 && s.Format == handler(csv2).Format()
	sym.Assert((err == nil) == ok, "exactly files of the current version and the handler's format can be opened")
	sym.Assert(same(f, g), "opening changed the file")
	if err == nil {
		m, err := y.Metadata()
		sym.Assert(err == nil && *m == s, "stored metadata came back differently")
	}
}

type slot struct {
	name string
	t    appendable.FieldType
	root pointer.MemoryPointer
}

type world struct {
	f     *hx.Sparse
	x     *appendable.IndexFile
	s     []slot
	total map[int]uint64
}

func (w *world) find(name string, t appendable.FieldType) {
	k := -1
	for i := range w.s {
		if w.s[i].t == t && w.s[i].name == name {
			k = i
			break
		}
	}
	p, m, err := w.x.FindOrCreateIndex(name, t)
	sym.Assert(err == nil, "FindOrCreateIndex failed")
	sym.Assert(m.FieldName == name && m.FieldType == t, "FindOrCreateIndex returned another index's metadata")
	sym.Assert(m.Width == width(t), "wrong width recorded")
	r, err := p.Root()
	sym.Assert(err == nil, "reading the root failed")
	if k < 0 {
		sym.Assert(r == pointer.MemoryPointer{}, "a new index is not empty")
		sym.Assert(m.TotalFieldValueLength == 0, "a new index has a value length")
		s := slot{name, t, pointer.MemoryPointer{Offset: uint64(len(w.s) + 1), Length: 5}}
		sym.Assert(p.SetRoot(s.root) == nil, "storing the root failed")
		w.s = append(w.s, s)
		return
	}
	sym.Assert(r == w.s[k].root, "FindOrCreateIndex returned another index for a name and type seen before")
}

// width is the number of bytes of a key, plus one; 0 when variable.
func width(t appendable.FieldType) uint16 {
	switch t {
	case appendable.FieldTypeInt64, appendable.FieldTypeUint64, appendable.FieldTypeFloat64:
		return 9
	case appendable.FieldTypeBoolean, appendable.FieldTypeUnigram:
		return 2
	case appendable.FieldTypeBigram:
		return 3
	case appendable.FieldTypeTrigram:
		return 4
	case appendable.FieldTypeNull:
		return 1
	}
	return 0
}

func (w *world) agree() {
	var names []string
	for i := range w.s {
		dup := false
		for j := 0; j < i; j++ {
			if w.s[j].name == w.s[i].name {
				dup = true
			}
		}
		if !dup {
			names = append(names, w.s[i].name)
		}
	}
	got, err := w.x.IndexFieldNames()
	sym.Assert(err == nil, "IndexFieldNames failed")
	sym.Assert(len(got) == len(names), "IndexFieldNames must list every field name once")
	for i := range names {
		sym.Assert(got[i] == names[i], "IndexFieldNames must list the names in order of creation")
	}
	e, err := w.x.IsEmpty()
	sym.Assert(err == nil && e == (len(w.s) == 0), "IsEmpty must tell whether there are indexes")
	list := ix.List(w.x, nil, handlers.JSONLHandler{})
	sym.Assert(len(list) == len(w.s), "wrong number of indexes")
	for i, l := range list {
		r, err := l.Tree.MetaPage.Root()
		sym.Assert(err == nil && r == w.s[i].root, "an index lost its root")
		sym.Assert(l.Meta.FieldName == w.s[i].name && l.Meta.FieldType == w.s[i].t && l.Meta.Width == width(w.s[i].t), "an index lost its metadata")
	}
}

// Create: histories of FindOrCreateIndex.
//
//verif:harness prop=P11 quick="k=2" thorough="k=3" tbudget=2400 bounds="0, 13, 14, 15 or 29 indexes, then every sequence of k (k+1 on an empty file) FindOrCreateIndex calls with a new one-byte name, an existing or the empty name and any of four types, reopening in between or not"
func Create() {
	w := &world{f: ix.File()}
	w.x = ix.Open(w.f, handler(false), nil)
	pre := []int{0, 13, 14, 15, 29}[sym.Choose("pre", 5)]
	for i := 0; i < pre; i++ {
		w.find(string([]byte{'A' + byte(i/2)}), []appendable.FieldType{appendable.FieldTypeString, appendable.FieldTypeFloat64}[i%2])
	}
	k := sym.Param("k", 2)
	if pre == 0 {
		k++
	}
	for i := 0; i < k; i++ {
		var name string
		switch sym.Choose("name", 3) {
		case 0:
			name = string([]byte{sym.Byte("c")})
		case 1:
			name = "A"
		}
		w.find(name, []appendable.FieldType{appendable.FieldTypeString, appendable.FieldTypeFloat64, appendable.FieldTypeNull, appendable.FieldTypeTrigram}[sym.Choose("type", 4)])
		if i == 0 && sym.Bool("reopen") {
			w.x = ix.Open(w.f, handler(false), nil)
		}
	}
	w.agree()
	m, err := w.x.Metadata()
	sym.Assert(err == nil && *m == appendable.FileMeta{Version: 1}, "creating indexes changed the file metadata")
	s := appendable.FileMeta{Version: 1, ReadOffset: sym.Uint64("off"), Entries: 3}
	sym.Assert(w.x.SetMetadata(&s) == nil, "storing metadata failed")
	w.agree()
	w.x = ix.Open(w.f, handler(false), nil)
	w.agree()
}

// Types: every field type.
//
//verif:harness prop=P11 quick="" bounds="two calls with any two field types 0..12 and names of 0..2 arbitrary bytes"
func Types() {
	w := &world{f: ix.File()}
	w.x = ix.Open(w.f, handler(true), nil)
	for i := 0; i < 2; i++ {
		w.find(string(sym.Bytes("name", sym.Choose("len", 3))), appendable.FieldType(sym.Choose("type", 13)))
	}
	w.agree()
}

// Long: long field names.
//
//verif:harness prop=P11 quick="" bounds="field names of 0, 1, 127, 128 or 220..280 bytes with arbitrary last byte, before and after another index; value lengths up to 2^64-1"
func Long() {
	w := &world{f: ix.File()}
	w.x = ix.Open(w.f, handler(false), nil)
	if sym.Bool("other") {
		w.find("o", appendable.FieldTypeString)
	}
	n := sym.Choose("n", 65)
	switch {
	case n < 2:
	case n < 4:
		n += 125
	default:
		n += 216
	}
	name := make([]byte, n)
	for i := range name {
		name[i] = 'x'
	}
	if n > 0 {
		name[n-1] = sym.Byte("last")
	}
	g := w.f.Clone()
	_, _, err := w.x.FindOrCreateIndex(string(name), appendable.FieldTypeFloat64)
	if err != nil {
		sym.Assert(n > 200, "an ordinary field name is refused")
		sym.Assert(same(w.f, g), "a refused field name changed the file")
	} else {
		p, m, err := w.x.FindOrCreateIndex(string(name), appendable.FieldTypeFloat64)
		sym.Assert(err == nil && m.FieldName == string(name), "a field name was not recorded")
		w.s = append(w.s, slot{string(name), appendable.FieldTypeFloat64, pointer.MemoryPointer{}})
		w.find("p", appendable.FieldTypeNull)
		m.TotalFieldValueLength = sym.Uint64("total")
		sym.Assert(p.MarshalMetadata(m) == nil, "storing index metadata failed")
	}
	w.find("q", appendable.FieldTypeNull)
	w.agree()
}

// AnyFile: a file that is no index.
//
//verif:harness prop=P11 quick="" bounds="two-page files with an arbitrary list header (next page: none, the free list, itself or behind the end; any slot count) and arbitrary first 16 bytes of the first slot"
func AnyFile() {
	f := ix.File()
	ix.Open(f, handler(false), nil)
	f.Blocks = [][]byte{f.Blocks[0], make([]byte, 4096)}
	f.Size = 8192
	b := f.Blocks[1]
	switch sym.Choose("next", 4) {
	case 0:
		for i := 0; i < 8; i++ {
			b[i] = 0xff
		}
	case 1:
		b[1] = 0x10 // itself
	case 2:
		b[1] = 0x20 // behind the end
	}
	b[8] = sym.Byte("count")
	copy(b[9:], sym.Bytes("slot", 24))
	x, err := appendable.NewIndexFile(f, handler(false), nil)
	if err != nil {
		return
	}
	m, err := x.Metadata()
	sym.Assert(err == nil && m.Version == 1 && m.Format == appendable.FormatJSONL, "a file of another version or format was opened")
}
