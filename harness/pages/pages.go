// Package pages: the page file allocator.
package pages

import (
	"encoding/binary"
	"io"

	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

const psz = 4096

type model struct {
	f    *hx.Sparse
	pf   *pagefile.PageFile
	live []int64 // allocated, not freed
	fill []byte  // first byte of every live page
	free []int64
}

func open(f *hx.Sparse) *model {
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "opening the page file failed")
	return &model{f: f, pf: pf}
}

func index(s []int64, v int64) int {
	for i := range s {
		if s[i] == v {
			return i
		}
	}
	return -1
}

// alloc allocates one page holding buf and checks where it lands.
func (m *model) alloc(buf []byte) {
	size := m.f.Size
	off, err := m.pf.NewPage(buf)
	sym.Assert(err == nil, "NewPage failed")
	sym.Assert(off > 0, "NewPage handed out page 0, which holds the free list")
	sym.Assert(off%psz == 0, "NewPage handed out a misaligned page")
	sym.Assert(index(m.live, off) < 0, "NewPage handed out a page that is in use")
	if len(m.free) > 0 {
		i := index(m.free, off)
		sym.Assert(i >= 0, "NewPage must reuse a free page while there is one")
		m.free = append(m.free[:i:i], m.free[i+1:]...)
		sym.Assert(m.f.Size == size, "reusing a page must not grow the file")
	} else {
		sym.Assert(off >= size && off < size+psz, "a new page must start at the end of the file")
		sym.Assert(m.f.Size == off+psz, "the file must end with the new page")
	}
	pos, _ := m.f.Seek(0, io.SeekCurrent)
	sym.Assert(pos == off, "NewPage must leave the file positioned at the page")
	got := m.f.At(off, psz)
	sym.Assert(sym.EqBytes(got[:len(buf)], buf), "a new page does not hold its contents")
	tail := got[len(buf):]
	z := true
	for i := range tail {
		z = sym.And(z, tail[i] == 0)
	}
	sym.Assert(z, "a new page is not zero after its contents")
	m.live = append(m.live, off)
	var b byte
	if len(buf) > 0 {
		b = buf[0]
	}
	m.fill = append(m.fill, b)
}

// intact checks that no live page lost its contents and the counters agree.
func (m *model) intact() {
	for i, off := range m.live {
		sym.Assert(m.f.At(off, 1)[0] == m.fill[i], "a page in use was overwritten")
	}
	sym.Assert(m.f.Size%psz == 0, "the file is not a whole number of pages")
	sym.Assert(m.pf.PageCount() == m.f.Size/psz && m.pf.LastPage() == m.pf.PageCount(), "the page count is wrong")
}

// freeAt frees an arbitrary offset and checks the verdict.
func (m *model) freeAt(off int64) {
	err := m.pf.FreePage(off)
	want := sym.And(off%psz == 0, sym.And(off >= psz, off < m.f.Size))
	if want {
		want = index(m.free, off) < 0 && len(m.free) < 512
	}
	sym.Assert((err == nil) == want, "FreePage must accept exactly pages that are not free already (and there is room)")
	if err == nil {
		if i := index(m.live, off); i >= 0 {
			m.live = append(m.live[:i:i], m.live[i+1:]...)
			m.fill = append(m.fill[:i:i], m.fill[i+1:]...)
		}
		m.free = append(m.free, off)
	}
}

func (m *model) reopen() {
	pf, err := pagefile.NewPageFile(m.f)
	sym.Assert(err == nil, "reopening the page file failed")
	m.pf = pf
}

// drain reopens the file and allocates until every free page came back once.
func (m *model) drain(limit int) {
	m.reopen()
	for i := 0; len(m.free) > 0 && i < limit; i++ {
		m.alloc([]byte{0xee})
	}
	m.alloc([]byte{0xef})
	m.intact()
}

// History: allocations, frees of arbitrary offsets and reopenings.
//
//verif:harness prop=P08 quick="k=5" thorough="k=7" tbudget=1800 bounds="every sequence of k operations out of: allocate (with a page holding one arbitrary byte, or none), free any offset below the file size (aligned or not, live, free or page 0), reopen; then all free pages are drained"
func History() {
	m := open(&hx.Sparse{})
	m.alloc([]byte{1})
	m.alloc([]byte{2})
	for i := 0; i < sym.Param("k", 4); i++ {
		switch sym.Choose("op", 4) {
		case 0:
			m.alloc(sym.Bytes("fill", 1))
		case 1:
			m.alloc(nil)
		case 2:
			off := int64(sym.Uint32("off"))
			sym.Assume(off < m.f.Size)
			if off%psz == 0 {
				off = int64(sym.Conc(uint64(off)))
			}
			m.freeAt(off)
		case 3:
			m.reopen()
		}
		m.intact()
	}
	m.drain(10)
	sym.ObsInt("size", m.f.Size)
}

// Outside: offsets that are no pages of the file are refused.
//
//verif:harness prop=P08 quick="" bounds="a file of three pages, freeing any 64-bit offset, then another one; then all free pages are drained"
func Outside() {
	m := open(&hx.Sparse{})
	m.alloc([]byte{1})
	m.alloc([]byte{2})
	for i := 0; i < 2; i++ {
		off := int64(sym.Uint64("off"))
		if sym.And(off >= 0, off < m.f.Size) {
			if off%psz == 0 {
				off = int64(sym.Conc(uint64(off)))
			}
		}
		m.freeAt(off)
		m.intact()
	}
	m.drain(4)
}

// Sizes: contents of any length up to a page; one byte more is refused.
//
//verif:harness prop=P08 quick="" bounds="page contents of 0, 1, 2, 4094, 4095, 4096 or 4097 bytes with arbitrary first and last byte, on a fresh and on a reused page that held other data"
func Sizes() {
	m := open(&hx.Sparse{})
	old := make([]byte, psz)
	for i := range old {
		old[i] = 0xff
	}
	m.alloc(old)
	if sym.Choose("reuse", 2) == 1 {
		m.freeAt(psz)
	}
	n := []int{0, 1, 2, 4094, 4095, 4096, 4097}[sym.Choose("n", 7)]
	buf := make([]byte, n)
	if n > 0 {
		buf[0], buf[n-1] = sym.Byte("first"), sym.Byte("last")
	}
	if n > psz {
		size, free := m.f.Size, len(m.free)
		_, err := m.pf.NewPage(buf)
		sym.Assert(err != nil, "NewPage accepted more than a page")
		sym.Assert(m.f.Size == size && len(m.free) == free, "a refused NewPage changed the file")
		m.drain(3)
		return
	}
	m.alloc(buf)
	m.intact()
	m.drain(3)
}

// crafted returns a page file whose free list holds n pages, with 520 pages in all.
func crafted(n int) *hx.Sparse {
	f := &hx.Sparse{}
	p0 := make([]byte, psz)
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint64(p0[i*8:], uint64(i+2)*psz)
	}
	f.Write(p0)
	f.Seek(521*psz, io.SeekStart)
	f.Write([]byte{0})
	f.Size = 522 * psz
	return f
}

// Full: free lists around their capacity of 512, and the ring wrapping around.
//
//verif:harness prop=P08 quick="k=3" thorough="k=5" tbudget=1800 steps=400000000 bounds="files whose free list holds 510, 511 or 512 pages; every sequence of k allocations, frees and reopenings; then a reopened handle hands out the next 5 free pages"
func Full() {
	n := 510 + sym.Choose("n", 3)
	m := open(crafted(n))
	for i := 0; i < n; i++ {
		m.free = append(m.free, int64(i+2)*psz)
	}
	next := int64(1) * psz
	pages := []int64{psz, 514 * psz, 515 * psz, 516 * psz, 517 * psz, 518 * psz, 519 * psz}
	_ = next
	for i, j := 0, 0; i < sym.Param("k", 3); i++ {
		switch sym.Choose("op", 3) {
		case 0:
			m.alloc([]byte{byte(i + 1)})
		case 1:
			m.freeAt(pages[j])
			j++
		case 2:
			m.reopen()
		}
	}
	m.reopen()
	for i := 0; i < 5; i++ {
		m.alloc([]byte{9})
	}
	m.intact()
}

// Unaligned: data written past the last page by other means is never handed out.
//
//verif:harness prop=P08 quick="" bounds="1..4095 stray bytes appended behind the last page through the page file, then two allocations"
func Unaligned() {
	m := open(&hx.Sparse{})
	m.alloc([]byte{1})
	n := []int{1, 2, 100, 4094, 4095}[sym.Choose("n", 5)]
	m.pf.Seek(0, io.SeekEnd)
	m.pf.Write(make([]byte, n))
	off, err := m.pf.NewPage([]byte{7})
	sym.Assert(err == nil, "NewPage failed")
	sym.Assert(off == 3*psz, "NewPage must skip to the next page boundary")
	sym.Assert(m.f.At(off, 1)[0] == 7, "a new page does not hold its contents")
	off2, err := m.pf.NewPage([]byte{8})
	sym.Assert(err == nil && off2 == 4*psz, "the next page must follow")
	sym.Assert(m.f.At(off, 1)[0] == 7 && m.f.At(psz, 1)[0] == 1, "a page in use was overwritten")
}

// Page: page numbers start behind the free list page.
//
//verif:harness prop=P08 quick="" bounds="every 32-bit page number"
func Page() {
	m := open(&hx.Sparse{})
	i := int(int32(sym.Uint32("i")))
	off, err := m.pf.Page(i)
	if i < 0 {
		sym.Assert(err != nil, "a negative page number must be refused")
		return
	}
	sym.Assert(err == nil && off == (int64(i)+1)*psz, "wrong page offset")
	sym.Assert(m.pf.PageSize() == psz, "wrong page size")
}

// Sizes of files that are no whole number of pages are refused.
//
//verif:harness prop=P08 quick="" bounds="existing files of 1, 8, 4088, 4095, 4096, 4097, 6000, 8191, 8192, 8193 and 12288 bytes"
func Truncated() {
	n := []int64{1, 8, 4088, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 12288}[sym.Choose("n", 11)]
	f := &hx.Sparse{Blocks: make([][]byte, 3), Size: n}
	_, err := pagefile.NewPageFile(f)
	sym.Assert((err == nil) == (n%psz == 0), "a page file must be opened exactly when it is a whole number of pages")
}
