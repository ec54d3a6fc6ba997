// Package metac: file and index metadata encodings.
package metac

import (
	"github.com/kevmo314/appendable/pkg/appendable"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// File: every file metadata survives encoding.
//
//verif:harness prop=P10 quick="" bounds="every version byte, both formats, every 64-bit read offset and entry count"
func File() {
	m := &appendable.FileMeta{Version: appendable.Version(sym.Byte("version")), Format: appendable.Format(sym.Byte("format")), ReadOffset: sym.Uint64("off"), Entries: sym.Uint64("entries")}
	buf, err := m.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	sym.Assert(len(buf) <= 255, "file metadata must fit its slot")
	d := &appendable.FileMeta{}
	err = d.UnmarshalBinary(buf)
	if m.Format != appendable.FormatJSONL && m.Format != appendable.FormatCSV {
		sym.Assert(err != nil, "an unknown format must be refused")
		return
	}
	sym.Assert(err == nil, "decoding failed")
	sym.Assert(sym.And(sym.And(d.Version == m.Version, d.Format == m.Format), sym.And(d.ReadOffset == m.ReadOffset, d.Entries == m.Entries)), "file metadata changed")
	sym.ObsBytes("buf", buf)
}

// Index: every index metadata survives encoding.
//
//verif:harness prop=P10 quick="n=4" thorough="n=16" bounds="every type byte, width and 64-bit total; names of 0..n arbitrary bytes"
func Index() {
	n := sym.Choose("n", sym.Param("n", 4)+1)
	index(n)
}

// LongName: names as long as a slot can hold.
//
//verif:harness prop=P10 quick="" bounds="names of 127, 128, 239, 240 and 255 arbitrary bytes"
func LongName() {
	index([]int{127, 128, 239, 240, 255}[sym.Choose("n", 5)])
}

func index(n int) {
	m := &appendable.IndexMeta{FieldName: string(sym.Bytes("name", n)), FieldType: appendable.FieldType(sym.Byte("type")), Width: sym.Uint16("width"), TotalFieldValueLength: sym.Uint64("total")}
	buf, err := m.MarshalBinary()
	sym.Assert(err == nil, "encoding failed")
	d := &appendable.IndexMeta{}
	sym.Assert(d.UnmarshalBinary(buf) == nil, "decoding failed")
	sym.Assert(sym.EqBytes([]byte(d.FieldName), []byte(m.FieldName)), "the field name changed")
	sym.Assert(sym.And(sym.And(d.FieldType == m.FieldType, d.Width == m.Width), d.TotalFieldValueLength == m.TotalFieldValueLength), "index metadata changed")
}

// AnyFile: arbitrary bytes never panic the decoder, short ones are errors.
//
//verif:harness prop=P10 quick="n=14" thorough="n=22" bounds="every byte string of 0..n bytes"
func AnyFile() {
	n := sym.Choose("n", sym.Param("n", 12)+1)
	b := sym.Bytes("b", n)
	m := &appendable.FileMeta{}
	err := m.UnmarshalBinary(b)
	if n < 10 {
		sym.Assert(err != nil, "truncated file metadata must be an error")
	} else {
		sym.Assert((err == nil) == (b[1] <= 1), "file metadata of an unknown format must be an error")
	}
}

//verif:harness prop=P10 quick="n=12" thorough="n=18" bounds="every byte string of 0..n bytes"
func AnyIndex() {
	n := sym.Choose("n", sym.Param("n", 10)+1)
	b := sym.Bytes("b", n)
	m := &appendable.IndexMeta{}
	err := m.UnmarshalBinary(b)
	if n < 6 || int(b[4])|int(b[5])<<8 > n-6 {
		sym.Assert(err != nil, "truncated index metadata must be an error")
	} else {
		sym.Assert(err == nil, "complete index metadata must be decoded")
		sym.Assert(len(m.FieldName) == int(b[4])|int(b[5])<<8, "wrong field name")
	}
}
