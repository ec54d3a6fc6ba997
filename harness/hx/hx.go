// Package hx holds the environment the harnesses drive the code with: an
// in-memory file with optional fault injection, and a small-page pager.
package hx

import (
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/pointer"
)

// ErrFault is the injected storage error.
var ErrFault = errors.New("injected storage fault")

// File is an in-memory io.ReadWriteSeeker. When FailAt is k>0 the k-th
// operation fails with ErrFault (and, when Sticky, all later ones too).
type File struct {
	B      []byte
	Pos    int64
	Ops    int
	FailAt int
	Sticky bool
	Failed bool
	// NoSeekFault limits faults to reads and writes.
	NoSeekFault bool
}

func (f *File) fault() bool {
	f.Ops++
	if f.FailAt > 0 && (f.Ops == f.FailAt || f.Sticky && f.Ops > f.FailAt) {
		f.Failed = true
		return true
	}
	return false
}

func (f *File) Read(p []byte) (int, error) {
	if f.fault() {
		return 0, ErrFault
	}
	if f.Pos >= int64(len(f.B)) {
		return 0, io.EOF
	}
	n := copy(p, f.B[f.Pos:])
	f.Pos += int64(n)
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if f.fault() {
		return 0, ErrFault
	}
	end := f.Pos + int64(len(p))
	if end > int64(len(f.B)) {
		nb := make([]byte, end)
		copy(nb, f.B)
		f.B = nb
	}
	copy(f.B[f.Pos:], p)
	f.Pos = end
	return len(p), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if !f.NoSeekFault && f.fault() {
		return 0, ErrFault
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.Pos
	case io.SeekEnd:
		off += int64(len(f.B))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.Pos = off
	return off, nil
}

// Pager is a page store with pages of any size, enough for the trees.
type Pager struct {
	File
	Size int
	Allocs int
	// The bytes From..From+Gap-1 are not stored, see Skip.
	From, Gap int64
}

func NewPager(size int) *Pager {
	p := &Pager{Size: size}
	p.B = make([]byte, size) // page 0 is reserved, as in the real page file
	return p
}

func (p *Pager) Page(i int) (int64, error) { return int64(i+1) * int64(p.Size), nil }

func (p *Pager) NewPage(buf []byte) (int64, error) {
	if len(buf) > p.Size {
		return 0, errors.New("buffer is too large")
	}
	if p.fault() {
		return 0, ErrFault
	}
	off := int64(len(p.B))
	nb := make([]byte, len(p.B)+p.Size)
	copy(nb, p.B)
	copy(nb[off:], buf)
	p.B = nb
	p.Allocs++
	if off >= p.From {
		off += p.Gap
	}
	return off, nil
}

// Skip lets the pages to come start at the last page boundary up to n.
func (p *Pager) Skip(n int64) {
	p.From = int64(len(p.B))
	p.Gap = n - n%int64(p.Size) - p.From
}

// Seek knows the gap.
func (p *Pager) Seek(off int64, whence int) (int64, error) {
	if p.Gap == 0 {
		return p.File.Seek(off, whence)
	}
	if whence == io.SeekStart && off >= p.From {
		if off < p.From+p.Gap {
			panic("a place nobody owns is accessed")
		}
		off -= p.Gap
	}
	n, err := p.File.Seek(off, whence)
	if n >= p.From {
		n += p.Gap
	}
	return n, err
}
func (p *Pager) FreePage(int64) error { return nil }
func (p *Pager) LastPage() int64      { return int64(len(p.B) / p.Size) }
func (p *Pager) PageSize() int        { return p.Size }
func (p *Pager) SlotSize() int        { return 256 }
func (p *Pager) PageCount() int64     { return p.LastPage() }

// Write refuses to cross a page boundary, as the debug page file does.
func (p *Pager) Write(b []byte) (int, error) {
	if p.Pos%int64(p.Size)+int64(len(b)) > int64(p.Size) {
		panic("write across a page boundary")
	}
	return p.File.Write(b)
}

// Read refuses to cross a page boundary.
func (p *Pager) Read(b []byte) (int, error) {
	if p.Pos%int64(p.Size)+int64(len(b)) > int64(p.Size) {
		panic("read across a page boundary")
	}
	return p.File.Read(b)
}

// Meta is an in-memory root pointer.
type Meta struct {
	R          pointer.MemoryPointer
	Sets       int
	FailRoot   int // fail the k-th Root call
	FailSet    int
	Roots      int
	FailedRoot bool
}

func (m *Meta) Root() (pointer.MemoryPointer, error) {
	m.Roots++
	if m.Roots == m.FailRoot {
		m.FailedRoot = true
		return pointer.MemoryPointer{}, ErrFault
	}
	return m.R, nil
}
func (m *Meta) SetRoot(p pointer.MemoryPointer) error {
	m.Sets++
	if m.Sets == m.FailSet {
		m.FailedRoot = true
		return ErrFault
	}
	m.R = p
	return nil
}

// Ident is a data parser that returns the bytes themselves.
type Ident struct{}

func (Ident) Parse(b []byte) []byte { return b }

// Flat are the bytes of the file.
func (f *Sparse) Flat() []byte {
	b := make([]byte, f.Size)
	for i, src := range f.Blocks {
		if src != nil {
			copy(b[i*blk:], src)
		}
	}
	return b
}
