package fault

import (
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/pkg/handlers"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/ix"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// docs: a file of one format with one arbitrary character, and where its
// first part ends.
func doc(csv bool) (*ix.Doc, appendable.DataHandler, int) {
	c := sym.Byte("c")
	sym.Assume(sym.And(c >= 'a', c <= 'd'))
	d := &ix.Doc{}
	rec := func(s, e int) pointer.MemoryPointer {
		return pointer.MemoryPointer{Offset: uint64(s), Length: uint32(e - s)}
	}
	if csv {
		d.Parser = handlers.CSVHandler{}
		d.Pad = "\""
		d.Str("p,q\n")
		d.Ends = append(d.Ends, len(d.Data))
		for i, x := range []byte{'x', c} {
			s := len(d.Data)
			d.Data = append(d.Data, x)
			d.Str(",")
			d.Data = append(d.Data, 'm', x)
			r := rec(s, len(d.Data))
			d.Want = append(d.Want, ix.Want{Name: "p", Type: appendable.FieldTypeString, Key: []byte{x}, At: s, Raw: []byte{x}, Rec: r},
				ix.Want{Name: "q", Type: appendable.FieldTypeString, Key: []byte{'m', x}, At: s + 2, Raw: []byte{'m', x}, Rec: r})
			d.Str("\n")
			d.Ends, d.RowEnds = append(d.Ends, len(d.Data)), append(d.RowEnds, len(d.Data))
			_ = i
		}
		return d, handlers.CSVHandler{}, d.Ends[1]
	}
	d.Parser = handlers.JSONLHandler{}
	d.Pad = " "
	for _, x := range []byte{'x', c} {
		s := len(d.Data)
		d.Str(`{"p":"`)
		d.Data = append(d.Data, x)
		d.Str(`","n":null}`)
		r := rec(s, len(d.Data))
		d.Want = append(d.Want, ix.Want{Name: "p", Type: appendable.FieldTypeString, Key: []byte{x}, At: s + 5, Raw: []byte{'"', x, '"'}, Rec: r},
			ix.Want{Name: "n", Type: appendable.FieldTypeNull, Key: []byte{}, At: s + 13, Raw: []byte("null"), Rec: r})
		d.Str("\n")
		d.Ends, d.RowEnds = append(d.Ends, len(d.Data)), append(d.RowEnds, len(d.Data))
	}
	return d, handlers.JSONLHandler{}, d.Ends[0]
}

// Sync: opening, synchronizing and listing an index with a failing storage operation.
//
//verif:harness prop=P16 quick="ops=240" thorough="ops=400" tbudget=1800 steps=40000000 bounds="JSONL and CSV files of two records with two fields, the second record with an arbitrary string; failure of any one of the first ops storage operations, once or for good, of: creating the index, synchronizing the first record into a new index, or opening an index of the first record, synchronizing the second and listing the fields"
func Sync() {
	d, h, cut := doc(sym.Choose("csv", 2) == 1)
	f := ix.File()
	second := sym.Choose("second", 2) == 1
	if second {
		x := ix.Open(f, h, nil)
		sym.Assert(x.Synchronize(d.Data[:cut]) == nil, "synchronizing failed")
	}
	k := 1 + sym.Choose("fail", sym.Param("ops", 240))
	f.Ops, f.FailAt, f.Sticky = 0, k, sym.Choose("sticky", 2) == 1
	to := d.Data
	if !second {
		to = d.Data[:cut]
	}
	step, err := 0, error(nil)
	x, err := appendable.NewIndexFile(f, h, nil)
	var old *appendable.FileMeta
	if err == nil {
		sym.Assert(!f.Failed, "opening succeeded although a storage operation failed")
		if old, err = x.Metadata(); err == nil {
			step = 1
			if err = x.Synchronize(to); err == nil {
				step = 2
				var names []string
				if names, err = x.IndexFieldNames(); err == nil {
					sym.Assert(len(names) == 2, "the list of fields is wrong")
					_, _, err = x.FindOrCreateIndex("p", appendable.FieldTypeString)
				}
			}
		}
	}
	if !f.Failed {
		sym.Assert(err == nil, "synchronizing failed")
		sym.Assume(f.Ops < k) // the operation to fail was never reached: all k beyond are alike
		sym.Assume(k == sym.Param("ops", 240))
		ix.Check(x, d.Prefix(len(to)))
		return
	}
	sym.Assert(err != nil && !errors.Is(err, io.EOF), "success is reported although a storage operation failed")
	f.FailAt, f.Failed = 0, false
	switch step {
	case 1:
		// a synchronization that failed is not recorded as done
		m, err := x.Metadata()
		sym.Assert(err == nil, "the metadata cannot be read after a storage failure")
		sym.Assert(m.ReadOffset >= old.ReadOffset && m.ReadOffset < uint64(len(to)), "a synchronization that failed is recorded as done")
		done := d.Prefix(int(m.ReadOffset))
		sym.Assert(m.ReadOffset == 0 || len(done.Ends) > 0 && done.Ends[len(done.Ends)-1] == int(m.ReadOffset), "the read offset after a failed synchronization is not the end of a record")
		sym.Assert(m.Entries == uint64(len(done.RowEnds)), "the number of entries after a failed synchronization is wrong")
	case 2:
		ix.Check(x, d.Prefix(len(to)))
		sym.Assert(x.Synchronize(d.Data) == nil, "synchronizing fails after a failed listing")
		ix.Check(x, d)
	}
}
