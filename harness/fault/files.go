package fault

import (
	"bytes"
	"errors"
	"io"

	"github.com/kevmo314/appendable/pkg/linkedpage"
	"github.com/kevmo314/appendable/pkg/pagefile"
	"github.com/kevmo314/appendable/pkg/pointer"
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

type pageWorld struct {
	f     *hx.Sparse
	pf    *pagefile.PageFile
	live  []int64
	stamp []byte
	next  byte
}

func (w *pageWorld) alloc() {
	w.next++
	off, err := w.pf.NewPage([]byte{w.next, 0xaa})
	if err != nil {
		sym.Assert(w.f.Failed, "NewPage failed without a storage failure")
		return
	}
	sym.Assert(!w.f.Failed, "NewPage succeeded although a storage operation failed")
	sym.Assert(off > 0 && off%4096 == 0, "NewPage returned no page offset")
	for _, l := range w.live {
		sym.Assert(l != off, "NewPage handed out a page that is in use")
	}
	w.live, w.stamp = append(w.live, off), append(w.stamp, w.next)
}

func (w *pageWorld) free(i int) {
	if err := w.pf.FreePage(w.live[i]); err != nil {
		sym.Assert(w.f.Failed, "FreePage failed without a storage failure")
		return
	}
	sym.Assert(!w.f.Failed, "FreePage succeeded although a storage operation failed")
	w.live = append(w.live[:i:i], w.live[i+1:]...)
	w.stamp = append(w.stamp[:i:i], w.stamp[i+1:]...)
}

func (w *pageWorld) check() {
	for i, off := range w.live {
		sym.Assert(bytes.Equal(w.f.At(off, 2), []byte{w.stamp[i], 0xaa}), "a page in use was overwritten")
	}
}

// Pages: allocation and release with a failing storage operation.
//
//verif:harness prop=P16 quick="pre=3,n=4,ops=5" thorough="pre=4,n=5,ops=6" tbudget=1800 bounds="page files with up to pre pages of which any one or two may be free, one NewPage or FreePage of any page with failure of any one of its first ops storage operations (nothing written, or half of the write), then every sequence of n further NewPage or FreePage calls, with or without reopening the file in between (not after a half write)"
func Pages() {
	f := &hx.Sparse{}
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "opening failed")
	w := &pageWorld{f: f, pf: pf}
	for i := sym.Choose("pre", sym.Param("pre", 4)+1); i > 0; i-- {
		w.alloc()
	}
	for i := sym.Choose("frees", 3); i > 0 && len(w.live) > 0; i-- {
		w.free(sym.Choose("which", len(w.live)))
	}
	f.Ops, f.FailAt = 0, 1+sym.Choose("fail", sym.Param("ops", 5))
	f.Torn = sym.Choose("torn", 2) == 1
	w.step()
	f.FailAt, f.Failed = 0, false
	w.check()
	for i := 0; i < sym.Param("n", 4); i++ {
		if !f.Torn && sym.Choose("reopen", 2) == 1 {
			w.pf, err = pagefile.NewPageFile(f)
			sym.Assert(err == nil, "reopening failed")
		}
		w.step()
	}
	w.check()
}

func (w *pageWorld) step() {
	if i := sym.Choose("op", len(w.live)+1); i > 0 {
		w.free(i - 1)
	} else {
		w.alloc()
	}
}

// Open: opening a page file and the linked pages with a failing storage operation.
//
//verif:harness prop=P16 quick="ops=12" thorough="ops=20" bounds="new files and files with 0..16 slots, failure of any one of the first ops storage operations of opening the page file and walking the list, once or for good; then a second, undisturbed attempt"
func Open() {
	f := &hx.Sparse{}
	n := 0
	if sym.Choose("new", 2) == 0 {
		n = []int{0, 1, 2, 15, 16}[sym.Choose("slots", 5)]
		fill(f, n)
	}
	f.Ops, f.FailAt, f.Sticky = 0, 1+sym.Choose("fail", sym.Param("ops", 12)), sym.Choose("sticky", 2) == 1
	err := walk(f, n)
	if f.Failed {
		sym.Assert(err != nil, "reading the list succeeded although a storage operation failed")
		sym.Assert(!errors.Is(err, io.EOF), "a storage failure is taken for the end of the list")
	} else {
		sym.Assert(err == nil, "reading the list failed")
	}
	f.FailAt, f.Failed = 0, false
	sym.Assert(walk(f, n) == nil, "a list that could not be read once cannot be read any more")
}

func fill(f *hx.Sparse, n int) {
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "opening failed")
	h, err := linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "opening failed")
	_, err = h.Next()
	sym.Assert(errors.Is(err, io.EOF), "a fresh list must be empty")
	for i := 0; i < n; i++ {
		h, err = h.AddNext()
		sym.Assert(err == nil, "AddNext failed")
		sym.Assert(h.SetMetadata([]byte{byte(i), 7}) == nil && h.SetRoot(pointer.MemoryPointer{Offset: uint64(i + 1)}) == nil, "filling a slot failed")
	}
}

// walk reads the list and expects the n slots of fill; nil when it saw them all.
func walk(f *hx.Sparse, n int) error {
	pf, err := pagefile.NewPageFile(f)
	if err != nil {
		return err
	}
	h, err := linkedpage.NewMultiBPTree(pf, 0)
	if err != nil {
		return err
	}
	for i := 0; ; i++ {
		next, err := h.Next()
		if err != nil {
			if errors.Is(err, io.EOF) && !f.Failed {
				sym.Assert(i == n, "slots are missing")
				return nil
			}
			return err
		}
		h = next
		sym.Assert(i < n, "the list has too many slots")
		md, err := h.Metadata()
		if err != nil {
			return err
		}
		r, err := h.Root()
		if err != nil {
			return err
		}
		sym.Assert(bytes.Equal(md, []byte{byte(i), 7}) && r.Offset == uint64(i+1), "a slot reads wrong")
	}
}

// Slots: updating a slot with a failing storage operation.
//
//verif:harness prop=P16 quick="ops=12" thorough="ops=20" bounds="lists of 1, 2, 15 or 16 slots; SetRoot, SetMetadata, AddNext or Collect on any of the first two or the last slot, failure of any one of the first ops storage operations, once or for good"
func Slots() {
	f := &hx.Sparse{}
	n := []int{1, 2, 15, 16}[sym.Choose("slots", 4)]
	fill(f, n)
	pf, err := pagefile.NewPageFile(f)
	sym.Assert(err == nil, "opening failed")
	h, err := linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "opening failed")
	at := sym.Choose("at", 3)
	if at == 2 {
		at = n - 1
	}
	sym.Assume(at < n)
	head := h
	for i := 0; i <= at; i++ {
		h, err = h.Next()
		sym.Assert(err == nil, "a slot is missing")
	}
	b := sym.Byte("b")
	f.Ops, f.FailAt, f.Sticky = 0, 1+sym.Choose("fail", sym.Param("ops", 12)), sym.Choose("sticky", 2) == 1
	what := sym.Choose("what", 4)
	want := func(ok bool) {
		if f.Failed {
			sym.Assert(err != nil && !errors.Is(err, io.EOF), "an operation on a slot succeeded although a storage operation failed")
		} else {
			sym.Assert((err == nil) == ok, "an operation on a slot failed")
		}
	}
	set := false
	switch what {
	case 0:
		err = h.SetRoot(pointer.MemoryPointer{Offset: uint64(b)})
		want(true)
		set = true
	case 1:
		err = h.SetMetadata([]byte{b})
		want(true)
		set = true
	case 2:
		_, err = h.AddNext()
		want(at == n-1)
	case 3:
		_, err = head.Collect()
		want(true)
	}
	failed := f.Failed
	f.FailAt, f.Failed = 0, false
	// whatever happened, the other slots are as they were
	pf, err = pagefile.NewPageFile(f)
	sym.Assert(err == nil, "reopening failed")
	h, err = linkedpage.NewMultiBPTree(pf, 0)
	sym.Assert(err == nil, "reopening failed")
	for i := 0; i < n; i++ {
		h, err = h.Next()
		sym.Assert(err == nil, "a slot is missing")
		md, err := h.Metadata()
		sym.Assert(err == nil, "reading a slot failed")
		r, err := h.Root()
		sym.Assert(err == nil, "reading a slot failed")
		wr, wm := uint64(i+1), []byte{byte(i), 7}
		if set && i == at && !failed {
			if what == 0 {
				wr = uint64(b)
			} else {
				wm = []byte{b}
			}
		}
		if set && i == at && failed {
			continue
		}
		sym.Assert(r.Offset == wr && bytes.Equal(md, wm), "a slot changed")
	}
}
