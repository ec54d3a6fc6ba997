// Package osx is the model of the operating system's files and memory maps
// that stands in for them in the symbolic execution. Natively the real ones run.
package osx

import (
	"errors"
	"io"
	"os"
	"strconv"
	"time"

	"github.com/kevmo314/appendable/zz_verif/sym"
)

// Room is the number of bytes a file of the model can hold.
var Room = 256

// node is a file, handle one opening of it.
type node struct {
	name string
	mem  []byte
	size int
	time int64 // of the last change
}

type handle struct {
	h           *os.File
	n           *node
	write, end_ bool
	closed      bool
	pos         int64
}

var (
	nodes   []*node
	handles []*handle
	errSys  = errors.New("system call failed")
	clock   = int64(1 << 30)
)

func (n *node) touch() {
	clock++
	n.time = clock
}

func get(h *os.File) *handle {
	for _, f := range handles {
		if f.h == h {
			return f
		}
	}
	panic("unknown file")
}

func lookup(name string) *node {
	for _, n := range nodes {
		if n.name == name {
			return n
		}
	}
	return nil
}

func create(name string) *node {
	n := &node{name: name, mem: make([]byte, Room)}
	n.touch()
	nodes = append(nodes, n)
	return n
}

func open(n *node) *handle {
	f := &handle{h: new(os.File), n: n}
	handles = append(handles, f)
	return f
}

// Names lists the files of the model.
func Names() []string {
	var out []string
	for _, n := range nodes {
		out = append(out, n.name)
	}
	return out
}

//verif:replace os.CreateTemp
func CreateTemp(dir, pattern string) (*os.File, error) {
	f := open(create("/tmp/" + strconv.Itoa(len(handles))))
	f.write = true
	return f.h, nil
}

//verif:replace os.MkdirTemp
func MkdirTemp(dir, pattern string) (string, error) { return "/tmp/dir", nil }

//verif:replace os.OpenFile
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	if flag&^(os.O_RDONLY|os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_EXCL|os.O_APPEND|os.O_SYNC) != 0 {
		sym.GiveUp("a flag of os.OpenFile without a model")
	}
	n := lookup(name)
	switch {
	case name == "" || n == nil && flag&os.O_CREATE == 0:
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	case n == nil:
		n = create(name)
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrExist}
	}
	f := open(n)
	f.write, f.end_ = flag&(os.O_RDWR|os.O_WRONLY) != 0, flag&os.O_APPEND != 0
	if flag&os.O_TRUNC != 0 {
		n.touch()
		clear(n.mem[:n.size])
		n.size = 0
	}
	return f.h, nil
}

//verif:replace os.ReadFile
func ReadFile(name string) ([]byte, error) {
	n := lookup(name)
	if n == nil {
		return nil, &os.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
	}
	return append([]byte{}, n.mem[:n.size]...), nil
}

//verif:replace os.WriteFile
func WriteFile(name string, b []byte, perm os.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = WriteAt(h, b, 0)
	return err
}

//verif:replace os.Stat
func StatName(name string) (os.FileInfo, error) {
	n := lookup(name)
	if n == nil {
		return nil, &os.PathError{Op: "stat", Path: name, Err: os.ErrNotExist}
	}
	return info{n.name, int64(n.size), n.time}, nil
}

//verif:replace os.Chtimes
func Chtimes(name string, atime, mtime time.Time) error {
	n := lookup(name)
	if n == nil {
		return &os.PathError{Op: "chtimes", Path: name, Err: os.ErrNotExist}
	}
	n.time = mtime.Unix()
	return nil
}

//verif:replace os.Remove
func Remove(name string) error {
	if n := lookup(name); n != nil {
		n.name = ""
		return nil
	}
	return &os.PathError{Op: "remove", Path: name, Err: os.ErrNotExist}
}

//verif:replace os.Rename
func Rename(from, to string) error {
	n := lookup(from)
	if n == nil || to == "" {
		return &os.PathError{Op: "rename", Path: from, Err: os.ErrNotExist}
	}
	if o := lookup(to); o != nil && o != n {
		o.name = ""
	}
	n.name = to
	return nil
}

//verif:replace os.RemoveAll
func RemoveAll(name string) error { return nil }

//verif:replace (*os.File).Name
func Name(h *os.File) string { return get(h).n.name }

//verif:replace (*os.File).Fd
func Fd(h *os.File) uintptr {
	for i, f := range handles {
		if f.h == h {
			return uintptr(i)
		}
	}
	panic("unknown file")
}

//verif:replace (*os.File).Close
func Close(h *os.File) error {
	if h == nil {
		return os.ErrInvalid
	}
	f := get(h)
	if f.closed {
		return os.ErrClosed
	}
	f.closed = true
	return nil
}

//verif:replace (*os.File).Sync
func Sync(h *os.File) error {
	if get(h).closed {
		return os.ErrClosed
	}
	return nil
}

//verif:replace (*os.File).WriteAt
func WriteAt(h *os.File, b []byte, off int64) (int, error) {
	f, room := get(h), int64(Room)
	if f.closed || !f.write || f.end_ || off < 0 || len(b) > 0 && (off > room || off+int64(len(b)) > room) {
		return 0, errSys
	}
	if len(b) == 0 {
		return 0, nil
	}
	d := f.n
	d.touch()
	copy(d.mem[off:], b)
	d.size = max(d.size, int(off)+len(b))
	return len(b), nil
}

//verif:replace (*os.File).Write
func Write(h *os.File, b []byte) (int, error) {
	f := get(h)
	if f.end_ {
		f.pos = int64(f.n.size)
		f.end_ = false
		defer func() { f.end_ = true }()
	}
	n, err := WriteAt(h, b, f.pos)
	f.pos += int64(n)
	return n, err
}

//verif:replace (*os.File).ReadAt
func ReadAt(h *os.File, b []byte, off int64) (int, error) {
	f := get(h)
	if f.closed || off < 0 {
		return 0, errSys
	}
	d := f.n
	if off >= int64(d.size) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, d.mem[off:d.size])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//verif:replace (*os.File).Read
func Read(h *os.File, b []byte) (int, error) {
	f := get(h)
	n, err := ReadAt(h, b, f.pos)
	f.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return n, err
}

//verif:replace (*os.File).Seek
func Seek(h *os.File, off int64, whence int) (int64, error) {
	f := get(h)
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(f.n.size)
	}
	if f.closed || off < 0 || whence < 0 || whence > 2 {
		return 0, errSys
	}
	f.pos = off
	return off, nil
}

//verif:replace (*os.File).Truncate
func Truncate(h *os.File, size int64) error {
	f := get(h)
	if f.closed || !f.write || size < 0 || size > int64(Room) {
		return errSys
	}
	d := f.n
	d.touch()
	clear(d.mem[min(int(size), d.size):d.size])
	d.size = int(size)
	return nil
}

type info struct {
	name string
	size int64
	time int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() os.FileMode  { return 0 }
func (i info) ModTime() time.Time { return time.Unix(i.time, 0) }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

//verif:replace (*os.File).Stat
func Stat(h *os.File) (os.FileInfo, error) {
	f := get(h)
	if f.closed {
		return nil, os.ErrClosed
	}
	return info{f.n.name, int64(f.n.size), f.n.time}, nil
}

// page is the size of a page of memory: maps move when they grow by a page.
const page = 4096

// mapping is a shared memory map of the first bytes of a file.
type mapping struct {
	n   *node
	len int
}

var mappings []*mapping

// move gives the file another place in memory, if no map but one shows it:
// what is left at the old place is of no use.
func (n *node) move() {
	k := 0
	for _, m := range mappings {
		if m.n == n {
			k++
		}
	}
	if k > 1 {
		return
	}
	old := n.mem
	n.mem = make([]byte, Room)
	copy(n.mem, old[:n.size])
	clear(old[:n.size])
}

func mapped(b []byte) *mapping {
	for _, m := range mappings {
		if len(b) > 0 && &m.n.mem[0] == &b[0] && m.len == len(b) && cap(b) == len(b) {
			return m
		}
	}
	return nil
}

//verif:replace golang.org/x/sys/unix.Mmap
func Mmap(fd int, offset int64, length, prot, flags int) ([]byte, error) {
	if fd < 0 || fd >= len(handles) || handles[fd].closed || offset != 0 || length <= 0 || length > Room {
		return nil, errSys
	}
	f := handles[fd]
	if flags&1 == 0 { // a private map
		return append(make([]byte, 0, length), f.n.mem[:length]...), nil
	}
	if prot&2 != 0 && !f.write {
		return nil, errSys
	}
	mappings = append(mappings, &mapping{f.n, length})
	return f.n.mem[:length:length], nil
}

//verif:replace golang.org/x/sys/unix.Munmap
func Munmap(b []byte) error {
	m := mapped(b)
	if m == nil {
		return errSys
	}
	m.n.move()
	for i := range mappings {
		if mappings[i] == m {
			mappings = append(mappings[:i:i], mappings[i+1:]...)
			break
		}
	}
	return nil
}

//verif:replace golang.org/x/sys/unix.Mremap
func Mremap(old []byte, size, flags int) ([]byte, error) {
	m := mapped(old)
	if m == nil || size <= 0 || size > Room {
		return nil, errSys
	}
	if (size+page-1)/page > (m.len+page-1)/page {
		if flags&1 == 0 { // may not move
			return nil, errSys
		}
		m.n.move()
	}
	m.len = size
	return m.n.mem[:size:size], nil
}
