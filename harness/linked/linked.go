// Package linked: the linked metadata pages.
package linked

import (
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

type slot struct {
	root pointer.MemoryPointer
	meta []byte
}

type world struct {
	f  *hx.Sparse
	pf *pagefile.PageFile
	s  []slot
}

func (w *world) handle() *linkedpage.LinkedPage {
	h, err := linkedpage.NewMultiBPTree(w.pf, 0)
	sym.Assert(err == nil, "opening the linked pages failed")
	return h
}

func newWorld() *world {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "page file")
	w := &world{f: f, pf: pf}
	_, err = w.handle().Next()
	sym.Assert(errors.Is(err, io.EOF), "a fresh list must be empty")
	return w
}

// at walks to slot i (0-based); past the end it must return io.EOF.
func (w *world) at(i int) *linkedpage.LinkedPage {
	h := w.handle()
	for j := 0; j <= i; j++ {
		n, err := h.Next()
		sym.Assert(err == nil, "a slot is missing from the list")
		h = n
	}
	return h
}

func (w *world) add() *linkedpage.LinkedPage {
	h := w.handle()
	if len(w.s) > 0 {
		h = w.at(len(w.s) - 1)
	}
	n, err := h.AddNext()
	sym.Assert(err == nil, "AddNext failed at the end of the list")
	w.s = append(w.s, slot{})
	r, err := n.Root()
	sym.Assert(err == nil && r == (pointer.MemoryPointer{}), "a new slot must have no root")
	b, err := n.Metadata()
	sym.Assert(err == nil && len(b) == 0, "a new slot must have no metadata")
	return n
}

func (w *world) checkSlot(h *linkedpage.LinkedPage, i int) {
	r, err := h.Root()
	sym.Assert(err == nil, "Root failed")
	sym.Assert(sym.And(r.Offset == w.s[i].root.Offset, r.Length == w.s[i].root.Length), "a slot lost its root pointer")
	b, err := h.Metadata()
	sym.Assert(err == nil, "Metadata failed")
	sym.Assert(sym.EqBytes(b, w.s[i].meta), "a slot lost its metadata")
}

// agree walks the list through a fresh page file and compares every slot.
func (w *world) agree() {
	pf, err := pagefile.NewPageFile(w.f)
	sym.Assert(err == nil, "reopening failed")
	w.pf = pf
	h := w.handle()
	for i := range w.s {
		n, err := h.Next()
		sym.Assert(err == nil, "a slot is missing from the list")
		h = n
		w.checkSlot(h, i)
	}
	_, err = h.Next()
	sym.Assert(errors.Is(err, io.EOF), "the list has too many slots")
	all, err := w.handle().Collect()
	sym.Assert(err == nil && len(all) == len(w.s), "Collect does not return every slot")
	for i := range all {
		w.checkSlot(all[i], i)
	}
}

func (w *world) mutate(lens []int) {
	i := sym.Choose("slot", len(w.s))
	if sym.Param("edge", 0) == 1 { // first, last and page boundary slots only
		sym.Assume(i < 2 || i >= 13 && i < 17 || i >= len(w.s)-2)
	}
	h := w.at(i)
	switch sym.Choose("what", 3) {
	case 0:
		mp := pointer.MemoryPointer{Offset: sym.Uint64("root.off"), Length: sym.Uint32("root.len")}
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		w.s[i].root = mp
	case 1:
		n := lens[sym.Choose("len", len(lens))]
		b := make([]byte, n)
		if n > 0 {
			b[0], b[n-1] = sym.Byte("first"), sym.Byte("last")
		}
		err := h.SetMetadata(b)
		if n > 255 {
			sym.Assert(err != nil, "metadata longer than 255 bytes must be refused")
		} else {
			sym.Assert(err == nil, "SetMetadata failed")
			w.s[i].meta = b
		}
	case 2:
		_, err := h.AddNext()
		if i < len(w.s)-1 {
			sym.Assert(err != nil, "AddNext in the middle of the list must be refused")
		} else {
			sym.Assert(err == nil, "AddNext failed at the end of the list")
			w.s = append(w.s, slot{})
		}
	}
}

var counts = []int{1, 2, 14, 15, 16, 17, 30, 31}

// Isolation: arbitrary updates of arbitrary slots.
//
//verif:harness prop=P09 quick="k=2,edge=1" thorough="k=2,edge=0" tbudget=1800 bounds="lists of 1, 2, 14..17, 30 or 31 slots (up to three pages), every sequence of k updates (any root pointer; metadata of 0, 1, 20, 252 or 256 bytes with arbitrary first and last byte; AddNext) on any slots (quick tier: the first two, the last two and those next to a page boundary)"
func Isolation() {
	w := newWorld()
	n := counts[sym.Choose("slots", len(counts))]
	for i := 0; i < n; i++ {
		h := w.add()
		mp := pointer.MemoryPointer{Offset: uint64(i)*7 + 1, Length: uint32(i) + 3}
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		md := []byte{byte(i), 1, 2, byte(i)}
		sym.Assert(h.SetMetadata(md) == nil, "SetMetadata failed")
		w.s[i] = slot{mp, md}
	}
	for i := 0; i < sym.Param("k", 2); i++ {
		w.mutate([]int{0, 1, 20, 252, 256})
	}
	w.agree()
}

// Triple: three updates on short lists.
//
//verif:harness prop=P09 quick="" bounds="lists of 1..3 slots, every sequence of 3 updates as in Isolation"
func Triple() {
	w := newWorld()
	n := 1 + sym.Choose("slots", 3)
	for i := 0; i < n; i++ {
		w.add()
	}
	for i := 0; i < 3; i++ {
		w.mutate([]int{0, 252, 256})
	}
	w.agree()
}

// Grow: slots are appended in order while other pages are allocated and freed.
//
//verif:harness prop=P09 quick="n=33" thorough="n=48" bounds="n slots appended with arbitrary contents in the last; pages allocated, filled with 0xff and freed in between so that list pages land on reused pages"
func Grow() {
	w := newWorld()
	dirty := make([]byte, 4096)
	for i := range dirty {
		dirty[i] = 0xff
	}
	at := sym.Choose("dirty", 3)
	n := sym.Param("n", 33)
	for i := 0; i < n; i++ {
		if i == at*14 {
			off, err := w.pf.NewPage(dirty)
			sym.Assert(err == nil, "NewPage failed")
			sym.Assert(w.pf.FreePage(off) == nil, "FreePage failed")
		}
		h := w.add()
		mp := pointer.MemoryPointer{Offset: uint64(sym.Byte("off")), Length: uint32(i)}
		md := []byte{byte(i), sym.Byte("md")}
		sym.Assert(h.SetMetadata(md) == nil, "SetMetadata failed")
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		w.s[i] = slot{mp, md}
	}
	w.agree()
}

// Longest: KF-linked-overlap is the only way to lose a neighbour.
//
//verif:harness prop=P09 quick="" bounds="two slots, metadata of every length 0..255 in either"
func Longest() {
	w := newWorld()
	for i := 0; i < 2; i++ {
		h := w.add()
		mp := pointer.MemoryPointer{Offset: sym.Uint64("off"), Length: sym.Uint32("len")}
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		w.s[i].root = mp
	}
	i := sym.Choose("slot", 2)
	n := sym.Choose("n", 256)
	sym.Assume(i == 1 || n <= 252) // longer metadata in a slot with a successor: see KF-linked-overlap
	md := make([]byte, n)
	if n > 0 {
		md[n-1] = sym.Byte("last")
	}
	sym.Assert(w.at(i).SetMetadata(md) == nil, "SetMetadata failed")
	w.s[i].meta = md
	w.agree()
}

// Overlap: metadata of 253..255 bytes reaches into the next slot.
//
//verif:harness prop=P09 quick="" kf=KF-linked-overlap bounds="two slots, metadata of 253..255 bytes in the first"
func Overlap() {
	w := newWorld()
	for i := 0; i < 2; i++ {
		h := w.add()
		mp := pointer.MemoryPointer{Offset: sym.Uint64("off"), Length: sym.Uint32("len")}
		sym.Assert(h.SetRoot(mp) == nil, "SetRoot failed")
		w.s[i].root = mp
	}
	n := 253 + sym.Choose("n", 3)
	md := make([]byte, n)
	md[n-1] = sym.Byte("last")
	sym.Assert(w.at(0).SetMetadata(md) == nil, "SetMetadata failed")
	w.s[0].meta = md
	w.agree()
}

// NotASlot: the list head is no slot.
//
//verif:harness prop=P09 quick="" bounds="the head handle of lists of 0..2 slots"
func NotASlot() {
	w := newWorld()
	n := sym.Choose("n", 3)
	for i := 0; i < n; i++ {
		w.add()
	}
	h := w.handle()
	_, err := h.Root()
	sym.Assert(err != nil, "the list head has no root")
	_, err = h.Metadata()
	sym.Assert(err != nil, "the list head has no metadata")
	sym.Assert(h.SetRoot(pointer.MemoryPointer{Offset: 1}) != nil, "the list head takes no root")
	sym.Assert(h.SetMetadata([]byte{1}) != nil, "the list head takes no metadata")
	w.agree()
}
