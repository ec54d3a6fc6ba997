// Package mm: the memory-mapped file.
package mm

import (
	"io"
	"os"
	"runtime/debug"

	"github.com/kevmo314/appendable/pkg/mmap"
	"github.com/kevmo314/appendable/zz_verif/osx"
	"github.com/kevmo314/appendable/zz_verif/sym"
)

const rw = 3 // PROT_READ|PROT_WRITE

func temp(content []byte) *os.File {
	f, err := os.CreateTemp("", "verif-mm")
	sym.Assert(err == nil, "no temporary file")
	if len(content) > 0 {
		_, err = f.WriteAt(content, 0)
		sym.Assert(err == nil, "no temporary file")
	}
	return f
}

type world struct {
	m    *mmap.MemoryMappedFile
	want []byte
	pos  int64
}

func (w *world) state() {
	sym.Assert(sym.EqBytes(w.m.Bytes(), w.want), "the contents differ from those of a file")
	p, err := w.m.Seek(0, io.SeekCurrent)
	sym.Assert(err == nil && p == w.pos, "the position differs from that of a file")
}

// off is any offset from -2 to a bit behind the end, or a huge one.
func off() int64 {
	switch k := sym.Choose("off", 16); k {
	case 15:
		return 1<<63 - 1
	case 14:
		return -1 << 63
	default:
		return int64(k) - 2
	}
}

func (w *world) read(n int, at int64, got []byte, k int, err error) {
	exp := 0
	if at < int64(len(w.want)) {
		exp = min(n, len(w.want)-int(at))
	}
	sym.Assert(k == exp, "a read returns the wrong number of bytes")
	if exp > 0 {
		sym.Assert(sym.EqBytes(got[:k], w.want[at:at+int64(exp)]), "a read returns wrong bytes")
	}
	if k < n {
		sym.Assert(err == io.EOF, "a short read must report the end of the file")
	} else {
		sym.Assert(err == nil, "a read failed")
	}
}

func (w *world) put(b []byte, at int64) {
	if len(b) == 0 {
		return
	}
	for int64(len(w.want)) < at+int64(len(b)) {
		w.want = append(w.want, 0)
	}
	copy(w.want[at:], b)
}

func (w *world) step(maxLen int) {
	switch sym.Choose("op", 5) {
	case 0:
		o, wh := off(), sym.Choose("whence", 4)
		base := []int64{0, w.pos, int64(len(w.want)), 0}[wh]
		p, err := w.m.Seek(o, wh)
		ok := wh < 3 && o >= -base && o <= int64(len(w.want))-base
		sym.Assert((err == nil) == ok, "Seek must accept exactly the positions within the file")
		if ok {
			w.pos = base + o
			sym.Assert(p == w.pos, "Seek returns the wrong position")
		}
	case 1:
		b := make([]byte, sym.Choose("len", maxLen+1))
		at := w.pos
		n, err := w.m.Read(b)
		w.read(len(b), at, b, n, err)
		w.pos += int64(n)
	case 2:
		b := make([]byte, sym.Choose("len", maxLen+1))
		o := off()
		n, err := w.m.ReadAt(b, o)
		if o < 0 {
			sym.Assert(n == 0 && err != nil, "a read at a negative offset must fail")
		} else if len(b) > 0 || n != 0 || err != io.EOF || o < int64(len(w.want)) { // nothing read at the end may be the end or not
			w.read(len(b), o, b, n, err)
		}
	case 3:
		b := sym.Bytes("b", sym.Choose("len", maxLen+1))
		n, err := w.m.Write(b)
		sym.Assert(err == nil && n == len(b), "a write failed or was short")
		w.put(b, w.pos)
		w.pos += int64(n)
	case 4:
		b := sym.Bytes("b", sym.Choose("len", maxLen+1))
		o := off()
		n, err := w.m.WriteAt(b, o)
		if o < 0 || o > 1<<62 && len(b) > 0 {
			sym.Assert(err != nil && n == 0, "a write at an impossible offset must fail")
		} else if o <= 1<<62 {
			sym.Assert(err == nil && n == len(b), "a write failed or was short")
			w.put(b, o)
		}
	}
	w.state()
}

// History: any sequence of file operations.
//
//verif:harness prop=P17 quick="n=2,k=5,len=3" thorough="n=3,k=2,len=1" tbudget=2400 bounds="files of 0, 1 or k arbitrary bytes, every sequence of n operations (Seek from any whence, Read, ReadAt, Write, WriteAt of 0..len arbitrary bytes) at offsets -2..11 and the extreme ones; then closed, and the file read back"
func History() {
	debug.SetPanicOnFault(true)
	c := sym.Bytes("c", []int{0, 1, sym.Param("k", 5)}[sym.Choose("size", 3)])
	f := temp(c)
	defer os.Remove(f.Name())
	m, err := mmap.NewMemoryMappedFile(f, rw)
	sym.Assert(err == nil, "mapping failed")
	w := &world{m: m, want: append([]byte(nil), c...)}
	w.state()
	for i := 0; i < sym.Param("n", 2); i++ {
		w.step(sym.Param("len", 2))
	}
	sym.Assert(m.Close() == nil, "closing failed")
	m, err = mmap.OpenFile(f.Name(), os.O_RDONLY, 0)
	sym.Assert(err == nil, "reopening failed")
	sym.Assert(sym.EqBytes(m.Bytes(), w.want), "the file does not hold what was written")
	sym.Assert(m.Close() == nil, "closing failed")
}

// block is n bytes, of which the first and the last are arbitrary.
func block(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + i%251)
	}
	if n > 0 {
		b[0], b[n-1] = sym.Byte("b"), sym.Byte("b")
	}
	return b
}

// Pages: files and operations of the size of memory pages.
//
//verif:harness prop=P17 quick="n=2,lens=3,offs=4" thorough="n=2,lens=5,offs=7" tbudget=1800 bounds="files of 0, 1, 4095, 4096, 4097 or 12288 bytes, n operations (ReadAt, WriteAt, or Seek with Read or Write) of the first lens of 4096, 9000, 1, 4095, 4097 bytes at the first offs of the end, 4095, 4096, 0, 1, 4097, 8191; bytes at the edges arbitrary"
func Pages() {
	debug.SetPanicOnFault(true)
	osx.Room = 1 << 16
	c := block([]int{0, 1, 4095, 4096, 4097, 12288}[sym.Choose("size", 6)])
	f := temp(c)
	defer os.Remove(f.Name())
	m, err := mmap.NewMemoryMappedFile(f, rw)
	sym.Assert(err == nil, "mapping failed")
	w := &world{m: m, want: append([]byte(nil), c...)}
	for i := 0; i < sym.Param("n", 2); i++ {
		n := []int{4096, 9000, 1, 4095, 4097}[sym.Choose("len", sym.Param("lens", 3))]
		at := []int64{int64(len(w.want)), 4095, 4096, 0, 1, 4097, 8191}[sym.Choose("off", sym.Param("offs", 4))]
		op := sym.Choose("op", 4)
		if op >= 2 {
			if at > int64(len(w.want)) {
				sym.Stop()
			}
			p, err := m.Seek(at, io.SeekStart)
			sym.Assert(err == nil && p == at, "Seek must accept the positions within the file")
			w.pos = at
		}
		switch op {
		case 0, 2:
			b := make([]byte, n)
			k := 0
			if op == 0 {
				k, err = m.ReadAt(b, at)
			} else {
				k, err = m.Read(b)
				w.pos += int64(k)
			}
			w.read(n, at, b, k, err)
		case 1, 3:
			b := block(n)
			k := 0
			if op == 1 {
				k, err = m.WriteAt(b, at)
			} else {
				k, err = m.Write(b)
				w.pos += int64(k)
			}
			sym.Assert(err == nil && k == n, "a write failed or was short")
			w.put(b, at)
		}
		w.state()
	}
	sym.Assert(m.Close() == nil, "closing failed")
	b, err := os.ReadFile(f.Name())
	sym.Assert(err == nil && sym.EqBytes(b, w.want), "the file does not hold what was written")
}

// ReadOnly: writing through a map that was opened for reading.
//
//verif:harness prop=P17 quick="" bounds="files of 0 or 3 arbitrary bytes opened read-only, one write of 0..2 arbitrary bytes at any offset up to 11 or at the position"
func ReadOnly() {
	debug.SetPanicOnFault(true)
	c := sym.Bytes("c", 3*sym.Choose("size", 2))
	f := temp(c)
	defer os.Remove(f.Name())
	m, err := mmap.OpenFile(f.Name(), os.O_RDONLY, 0)
	sym.Assert(err == nil, "mapping failed")
	b := sym.Bytes("b", sym.Choose("len", 3))
	n := 0
	if sym.Choose("at", 2) == 0 {
		n, err = m.Write(b)
	} else {
		n, err = m.WriteAt(b, int64(sym.Choose("off", 12)))
	}
	sym.Assert(n == 0 && (err != nil || len(b) == 0), "writing to a file opened for reading must fail")
	sym.Assert(sym.EqBytes(m.Bytes(), c), "a refused write changed the file")
	g := make([]byte, 3)
	n, err = m.ReadAt(g, 0)
	sym.Assert(n == len(c) && sym.EqBytes(g[:n], c), "reading failed")
	sym.Assert(m.Close() == nil, "closing failed")
}
