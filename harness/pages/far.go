package pages

import (
	"github.com/kevmo314/appendable/zz_verif/hx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Far: page files of gigabytes.
//
//verif:harness prop=P08 quick="k=3" thorough="k=5" bounds="a file of two pages that then grew to 0, 1 or 2 pages before 2^31, 2^32, 2^43 or 2^44 bytes; every sequence of k operations out of: allocate (one arbitrary byte), free any page allocated before or any 64-bit offset around the end, reopen; then all free pages are drained"
func Far() {
	m := open(&hx.Sparse{})
	m.alloc([]byte{1})
	m.alloc([]byte{2})
	m.f.Skip(int64(1)<<[]int{31, 32, 43, 44}[sym.Choose("far", 4)] - int64(sym.Choose("before", 3))*psz)
	if sym.Choose("first", 2) == 1 {
		m.freeAt(2 * psz)
	}
	m.reopen()
	m.alloc([]byte{3})
	for i := 0; i < sym.Param("k", 3); i++ {
		switch sym.Choose("op", 3) {
		case 0:
			m.alloc(sym.Bytes("fill", 1))
		case 1:
			all := append(append([]int64(nil), m.live...), m.free...)
			m.freeAt(append(all, m.f.Size, 0, psz/2)[sym.Choose("page", len(all)+3)])
		case 2:
			m.reopen()
		}
		m.intact()
	}
	m.drain(10)
	sym.ObsInt("size", m.f.Size)
}
