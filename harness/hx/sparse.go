package hx

import (
	"errors"
	"io"

	"github.com/kevmo314/appendable/zz_verif/sym"
)

const blk = 4096

// Sparse is an in-memory io.ReadWriteSeeker made of 4096-byte blocks, with the
// same fault injection as File.
type Sparse struct {
	Blocks [][]byte
	// The blocks From..From+Gap-1 are not stored: they read as zeros and may
	// not be written.
	From, Gap int64
	Size      int64
	Pos    int64
	Ops    int
	FailAt int
	Sticky bool
	Failed bool
	// Writes counts write calls; LastWrite is the offset of the last one.
	Writes int
	// Torn: the failing write stores its first half before it fails.
	Torn bool
}

func (f *Sparse) fault() bool {
	f.Ops++
	if f.FailAt > 0 && (f.Ops == f.FailAt || f.Sticky && f.Ops > f.FailAt) {
		f.Failed = true
		return true
	}
	return false
}

func (f *Sparse) Read(p []byte) (int, error) {
	if f.fault() {
		return 0, ErrFault
	}
	if f.Pos >= f.Size {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := 0
	for n < len(p) && f.Pos < f.Size {
		b, o := f.index(f.Pos/blk), int(f.Pos%blk)
		m := blk - o
		if rest := f.Size - f.Pos; int64(m) > rest {
			m = int(rest)
		}
		if m > len(p)-n {
			m = len(p) - n
		}
		var src []byte
		if b >= 0 {
			src = f.Blocks[b]
		}
		if src == nil {
			clear(p[n : n+m])
		} else {
			copy(p[n:n+m], src[o:o+m])
		}
		n += m
		f.Pos += int64(m)
	}
	return n, nil
}

// Skip lets the file, of whole blocks, end at size: what lies between is a
// hole of zeros.
func (f *Sparse) Skip(size int64) {
	f.From, f.Gap, f.Size = f.Size/blk, (size-f.Size)/blk, size
}

// index is where block b is stored, or -1 in the hole.
func (f *Sparse) index(b int64) int {
	if b < f.From || f.Gap == 0 {
		return int(b)
	}
	if b < f.From+f.Gap {
		return -1
	}
	return int(b - f.Gap)
}

func (f *Sparse) grow(n int64) {
	if n > f.Size {
		f.Size = n
	}
	for (int64(len(f.Blocks))+f.Gap)*blk < f.Size {
		f.Blocks = append(f.Blocks, nil)
	}
}

func (f *Sparse) Write(p []byte) (int, error) {
	f.Writes++
	if f.fault() {
		if f.Torn {
			f.write(p[:len(p)/2])
			return len(p) / 2, ErrFault
		}
		return 0, ErrFault
	}
	f.write(p)
	return len(p), nil
}

func (f *Sparse) write(p []byte) {
	if len(p) == 0 {
		return
	}
	f.grow(f.Pos + int64(len(p)))
	for n := 0; n < len(p); {
		b, o := f.index(f.Pos/blk), int(f.Pos%blk)
		sym.Assert(b >= 0, "a part of the file nobody owns was written")
		m := min(blk-o, len(p)-n)
		if f.Blocks[b] == nil {
			f.Blocks[b] = make([]byte, blk)
		}
		copy(f.Blocks[b][o:o+m], p[n:n+m])
		n += m
		f.Pos += int64(m)
	}
}

func (f *Sparse) Seek(off int64, whence int) (int64, error) {
	if f.fault() {
		return 0, ErrFault
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += f.Pos
	case io.SeekEnd:
		off += f.Size
	default:
		return 0, errors.New("bad whence")
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.Pos = off
	return off, nil
}

// Clone copies the file.
func (f *Sparse) Clone() *Sparse {
	g := &Sparse{Size: f.Size, From: f.From, Gap: f.Gap, Blocks: make([][]byte, len(f.Blocks))}
	for i, b := range f.Blocks {
		if b != nil {
			g.Blocks[i] = append([]byte(nil), b...)
		}
	}
	return g
}

// At returns n bytes at off without counting as an operation.
func (f *Sparse) At(off int64, n int) []byte {
	r := make([]byte, n)
	if off/blk == (off+int64(n)-1)/blk && off < f.Size {
		if b := f.index(off / blk); b >= 0 && b < len(f.Blocks) && f.Blocks[b] != nil {
			copy(r, f.Blocks[b][off%blk:])
		}
		return r
	}
	for i := range r {
		o := off + int64(i)
		if b := f.index(o / blk); b >= 0 && b < len(f.Blocks) && f.Blocks[b] != nil {
			r[i] = f.Blocks[b][o%blk]
		}
	}
	return r
}

// Parts are the bytes before the hole, those behind it, and where they start.
func (f *Sparse) Parts() []any {
	b := make([]byte, 0, len(f.Blocks)*blk)
	for _, p := range f.Blocks {
		b = append(append(b, p...), make([]byte, blk-len(p))...)
	}
	k := int(f.From) * blk
	return []any{b[:k:k], b[k:], (f.From + f.Gap) * blk}
}
