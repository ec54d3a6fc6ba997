// Package ix reads an index file back through its public interface and
// compares it with the entries a data file should have.
package ix

import (
	"bytes"
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/bptree"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Want is one expected entry.
type Want struct {
	Name string
	Type appendable.FieldType
	Key  []byte
	// At and Raw: where the value stands in the data file, and its text.
	At  int
	Raw []byte
	Rec pointer.MemoryPointer

	used bool
}

// Doc is a data file with what its index must contain.
type Doc struct {
	Data []byte
	Want []Want
	// Bare lists (name, type) pairs that must exist without entries (objects, arrays).
	Bare []Want
	// Ends are the offsets just behind each complete record.
	Ends []int
	// Rows counts the records (a header is none); RowEnds as Ends for records only.
	RowEnds []int

	Parser bptree.DataParser
	// Pad lists the characters a data pointer may cover besides the value.
	Pad string
	// Inexact skips the data pointer check.
	Inexact bool
	Search  []string
	// Totals checks the recorded total length of the values.
	Totals bool
	// Skip tells which indexes Check leaves alone.
	Skip func(appendable.FieldType) bool
}

func (d *Doc) Str(s string) { d.Data = append(d.Data, s...) }

// Prefix is the document cut at byte n: only records complete there count.
func (d *Doc) Prefix(n int) *Doc {
	p := *d
	p.Data = d.Data[:n:n]
	end := 0
	p.Ends, p.RowEnds = nil, nil
	for _, e := range d.Ends {
		if e <= n {
			end = e
			p.Ends = append(p.Ends, e)
		}
	}
	for _, e := range d.RowEnds {
		if e <= n {
			p.RowEnds = append(p.RowEnds, e)
		}
	}
	p.Want, p.Bare = nil, nil
	for _, w := range d.Want {
		if int(w.Rec.Offset) < end {
			p.Want = append(p.Want, w)
		}
	}
	for _, w := range d.Bare {
		if int(w.Rec.Offset) < end {
			p.Bare = append(p.Bare, w)
		}
	}
	return &p
}

// Open opens an index over f.
func Open(f io.ReadWriteSeeker, h appendable.DataHandler, search []string) *appendable.IndexFile {
	x, err := appendable.NewIndexFile(f, h, search)
	sym.Assert(err == nil, "opening the index failed")
	return x
}

// Index is one index read back.
type Index struct {
	Meta *appendable.IndexMeta
	Tree *bptree.BPTree
}

// List reads the indexes of f in order.
func List(f *appendable.IndexFile, data []byte, p bptree.DataParser) []Index {
	var out []Index
	mp, err := f.Indexes()
	if errors.Is(err, io.EOF) {
		return nil
	}
	sym.Assert(err == nil, "reading the index list failed")
	for {
		buf, err := mp.Metadata()
		sym.Assert(err == nil, "reading index metadata failed")
		m := &appendable.IndexMeta{}
		sym.Assert(m.UnmarshalBinary(buf) == nil, "index metadata is malformed")
		out = append(out, Index{m, mp.BPTree(&bptree.BPTree{Data: data, DataParser: p, Width: m.Width})})
		next, err := mp.Next()
		if errors.Is(err, io.EOF) {
			return out
		}
		sym.Assert(err == nil, "reading the index list failed")
		mp = next
	}
}

// Check compares everything the index file holds with what the document calls for.
func Check(f *appendable.IndexFile, d *Doc) {
	m, err := f.Metadata()
	sym.Assert(err == nil, "reading file metadata failed")
	end := 0
	if len(d.Ends) > 0 {
		end = d.Ends[len(d.Ends)-1]
	}
	sym.Assert(m.ReadOffset == uint64(end), "the recorded read offset is not the end of the last complete record")
	sym.Assert(m.Entries == uint64(len(d.RowEnds)), "the recorded number of entries is not the number of records")
	sym.Assert(m.Version == appendable.CurrentVersion, "the recorded version changed")

	for i := range d.Want {
		d.Want[i].used = false
	}
	list := List(f, d.Data, d.Parser)
	for i, x := range list {
		for j := 0; j < i; j++ {
			sym.Assert(list[j].Meta.FieldName != x.Meta.FieldName || list[j].Meta.FieldType != x.Meta.FieldType, "two indexes for one field and type")
		}
		if d.Skip != nil && d.Skip(x.Meta.FieldType) {
			continue
		}
		known := false
		for _, w := range d.Bare {
			if w.Type == x.Meta.FieldType && w.Name == x.Meta.FieldName {
				known = true
			}
		}
		for _, w := range d.Want {
			if w.Type == x.Meta.FieldType && w.Name == x.Meta.FieldName {
				known = true
			}
		}
		sym.Assert(known, "an index exists for a field and type that no record has")
		entries(x, d)
	}
	for _, w := range d.Bare {
		ok := false
		for _, x := range list {
			if w.Type == x.Meta.FieldType && w.Name == x.Meta.FieldName {
				ok = true
			}
		}
		sym.Assert(ok, "an object or array field has no index")
	}
	for i := range d.Want {
		sym.Assert(d.Want[i].used, "a field value of a record is missing from the index")
	}
}

func entries(x Index, d *Doc) {
	it, err := x.Tree.Iter(pointer.ReferencedValue{Value: []byte{}})
	sym.Assert(err == nil, "iterating an index failed")
	var prev []byte
	total := uint64(0)
	for n := 0; it.Next(); n++ {
		k, rec := it.Key(), it.Pointer()
		if n > 0 {
			sym.Assert(bytes.Compare(prev, k.Value) <= 0, "index entries are out of order")
		}
		prev = k.Value
		sym.Assert(rec.Offset+uint64(rec.Length) <= uint64(len(d.Data)), "an entry refers to a record outside the data file")
		dp := k.DataPointer
		switch x.Meta.FieldType {
		case appendable.FieldTypeString, appendable.FieldTypeFloat64:
			total += uint64(dp.Length)
		case appendable.FieldTypeBoolean:
			total++
		}
		sym.Assert(dp.Offset >= rec.Offset && dp.Offset+uint64(dp.Length) <= rec.Offset+uint64(rec.Length), "an entry refers to a value outside its record")
		hit := false
		for i := range d.Want {
			w := &d.Want[i]
			if w.used || w.Type != x.Meta.FieldType || w.Rec != rec || w.Name != x.Meta.FieldName || !bytes.Equal(w.Key, k.Value) {
				continue
			}
			if !d.Inexact {
				// the data pointer must denote exactly this value, but for white space
				lo, hi := int(dp.Offset), int(dp.Offset)+int(dp.Length)
				if !(lo <= w.At && hi >= w.At+len(w.Raw)) || !d.blank(d.Data[lo:w.At]) || !d.blank(d.Data[w.At+len(w.Raw):hi]) {
					continue
				}
			}
			w.used, hit = true, true
			break
		}
		sym.Assert(hit, "an index entry matches no field value of its record")
		sym.Assert(n < 100000, "endless iteration")
	}
	sym.Assert(it.Err() == nil, "iterating an index failed")
	sym.Assert(!d.Totals || x.Meta.TotalFieldValueLength == total, "the total length recorded for an index is not that of its values")
	// every value is found by key
	for i := range d.Want {
		w := &d.Want[i]
		if w.Type != x.Meta.FieldType || w.Name != x.Meta.FieldName {
			continue
		}
		k, _, err := x.Tree.Find(pointer.ReferencedValue{Value: w.Key})
		sym.Assert(err == nil, "looking up a value failed")
		sym.Assert(bytes.Equal(k.Value, w.Key), "looking up an indexed value finds another one")
	}
}

func (d *Doc) blank(b []byte) bool {
	for _, c := range b {
		if bytes.IndexByte([]byte(d.Pad), c) < 0 {
			return false
		}
	}
	return true
}

// File is the storage of an index.
func File() *hx.Sparse { return &hx.Sparse{} }
