package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// V is a runtime value. For scalars n is the concrete value under the current
// model (zero-extended to 64 bits; floats as IEEE bits; bools 0/1) and o, when
// non-nil, is the *Term it stands for. For other kinds o carries the object.
//
//	pointer   n=cell offset, o=*Obj      (nil: o==nil)
//	slice     o=*Slice                   (nil: o==nil)
//	string    o=*Str                     ("" : o==nil)
//	interface o=*Iface                   (nil: o==nil)
//	func      o=*Closure                 (nil: o==nil)
//	map       o=*Map                     (nil: o==nil)
//	struct/array o=*Agg ; tuple o=Tuple ; map/string iterator o=*Iter
type V struct {
	n uint64
	o any
}

type Obj struct {
	n    []uint64
	o    []any
	init bool // created during package initialisation: writes are undone between runs
	id   int

	// the bytes in front of far ones, see FarHead
	head *Obj
	far  int
}

// near tells where k cells from off on are kept.
func (ob *Obj) near(off, k int) (*Obj, int) {
	if off < 0 && ob.head != nil {
		if h := off + ob.far; h >= 0 && h+k <= len(ob.head.n) {
			return ob.head, h
		}
	}
	return ob, off
}

func (ob *Obj) get(i int) V {
	if ob.o == nil {
		return V{n: ob.n[i]}
	}
	return V{ob.n[i], ob.o[i]}
}

type Agg struct {
	n []uint64
	o []any
}

func (a *Agg) get(i int) V {
	if a.o == nil {
		return V{n: a.n[i]}
	}
	return V{a.n[i], a.o[i]}
}

// Slice is a view on obj; offsets in cells, len/cap in elements, es cells per element.
type Slice struct {
	obj      *Obj
	off      int
	len, cap int
	es       int
}

type Str struct {
	s   string  // concrete bytes under the current model
	sym []*Term // nil when fully concrete, else len(s), nil entries concrete
}

type Iface struct {
	t types.Type // canonical
	v V
}

type Closure struct {
	fn  *ssa.Function
	env []V
	nat func(e *Exec, args []V) V // native closures (rare)
}

type Tuple []V

type MapEnt struct {
	k, v V
	dead bool
}

type Map struct {
	ents  []*MapEnt
	idx   map[any]*MapEnt // concrete keys
	nsym  int             // number of entries with symbolic keys
	n     int
	init  bool
	saved bool
	kt    types.Type
}

type Iter struct {
	m    *Map
	ents []*MapEnt
	str  *Str
	i    int
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{o: &Str{s: s}}
}

func strOf(v V) *Str {
	if v.o == nil {
		return &Str{}
	}
	return v.o.(*Str)
}

// ---- type layout ----

type kind uint8

const (
	kBool kind = iota
	kInt
	kUint
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kUnsafePtr
	kChan
	kOther
)

type TInfo struct {
	t      types.Type
	k      kind
	w      int // bit width of scalars
	cells  int
	elem   *TInfo // array, slice, pointer elem
	fields []*TInfo
	foff   []int
	alen   int
	canon  types.Type
}

func (p *Prog) tinfo(t types.Type) *TInfo {
	if x, ok := p.tcache.Load(t); ok {
		return x.(*TInfo)
	}
	ti := &TInfo{t: t, cells: 1}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.k, ti.w = kBool, 0
		case u.Info()&types.IsString != 0:
			ti.k = kString
		case u.Kind() == types.UnsafePointer:
			ti.k = kUnsafePtr
		case u.Info()&types.IsInteger != 0:
			ti.k = kInt
			if u.Info()&types.IsUnsigned != 0 {
				ti.k = kUint
			}
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			default:
				ti.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			ti.k = kFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		default:
			ti.k = kOther
		}
	case *types.Pointer:
		ti.k = kPtr
	case *types.Slice:
		ti.k = kSlice
		ti.elem = p.tinfo(u.Elem())
	case *types.Map:
		ti.k = kMap
	case *types.Signature:
		ti.k = kFunc
	case *types.Interface:
		ti.k = kIface
	case *types.Chan:
		ti.k = kChan
	case *types.Struct:
		ti.k = kStruct
		ti.cells = 0
		for i := 0; i < u.NumFields(); i++ {
			f := p.tinfo(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.foff = append(ti.foff, ti.cells)
			ti.cells += f.cells
		}
	case *types.Array:
		ti.k = kArray
		ti.elem = p.tinfo(u.Elem())
		ti.alen = int(u.Len())
		ti.cells = ti.alen * ti.elem.cells
	case *types.Tuple:
		ti.k = kTuple
	default:
		ti.k = kOther
	}
	p.tcache.Store(t, ti)
	return ti
}

func (t *TInfo) scalar() bool { return t.k <= kFloat }
func (t *TInfo) agg() bool    { return t.k == kStruct || t.k == kArray }

func (p *Prog) canon(t types.Type) types.Type {
	ti := p.tinfo(t)
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	if ti.canon != nil {
		return ti.canon
	}
	if c := p.canonMap.At(t); c != nil {
		ti.canon = c.(types.Type)
	} else {
		p.canonMap.Set(t, t)
		ti.canon = t
	}
	return ti.canon
}

func zeroV(t *TInfo) V {
	if t.agg() {
		return V{o: &Agg{n: make([]uint64, t.cells)}}
	}
	return V{}
}

// aggGet extracts the value of type t at cell off.
func aggGet(a *Agg, off int, t *TInfo) V {
	if t.agg() {
		r := &Agg{n: a.n[off : off+t.cells : off+t.cells]}
		if a.o != nil {
			r.o = a.o[off : off+t.cells : off+t.cells]
		}
		return V{o: r}
	}
	return a.get(off)
}

func (e *Exec) newObj(cells int) *Obj {
	e.objSeq++
	if cells > 1<<27 {
		if e.far {
			panic(stopSig{stopViolation, "an allocation as large as the data"})
		}
		e.unsupported("allocation of %d cells", cells)
	}
	return &Obj{n: make([]uint64, cells), init: e.initMode, id: e.objSeq}
}

func (e *Exec) loadT(ob *Obj, off int, t *TInfo) V {
	if t.agg() {
		a := &Agg{n: make([]uint64, t.cells)}
		copy(a.n, ob.n[off:off+t.cells])
		if ob.o != nil {
			a.o = make([]any, t.cells)
			copy(a.o, ob.o[off:off+t.cells])
		}
		return V{o: a}
	}
	return ob.get(off)
}

type undoEnt struct {
	ob *Obj
	i  int
	v  V
}

func (e *Exec) set(ob *Obj, i int, v V) {
	if ob.init && !e.initMode {
		e.undo = append(e.undo, undoEnt{ob, i, ob.get(i)})
	}
	ob.n[i] = v.n
	if v.o != nil {
		if ob.o == nil {
			ob.o = make([]any, len(ob.n))
		}
		ob.o[i] = v.o
	} else if ob.o != nil {
		ob.o[i] = nil
	}
}

func (e *Exec) storeT(ob *Obj, off int, t *TInfo, v V) {
	if t.agg() {
		a := v.o.(*Agg)
		e.copyCells(ob, off, a.n, a.o)
		return
	}
	e.set(ob, off, v)
}

func (e *Exec) copyCells(ob *Obj, off int, n []uint64, o []any) {
	k := len(n)
	if k == 0 {
		return
	}
	if ob.init && !e.initMode {
		for i := 0; i < k; i++ {
			e.undo = append(e.undo, undoEnt{ob, off + i, ob.get(off + i)})
		}
	}
	copy(ob.n[off:off+k], n)
	if o != nil {
		if ob.o == nil {
			any1 := false
			for _, x := range o {
				if x != nil {
					any1 = true
					break
				}
			}
			if !any1 {
				return
			}
			ob.o = make([]any, len(ob.n))
		}
		copy(ob.o[off:off+k], o)
	} else if ob.o != nil {
		clear(ob.o[off : off+k])
	}
}

func (ob *Obj) osub(off, k int) []any {
	if ob.o == nil {
		return nil
	}
	return ob.o[off : off+k]
}

func (e *Exec) bytesToSlice(b []byte) V {
	ob := e.newObj(len(b))
	for i, c := range b {
		ob.n[i] = uint64(c)
	}
	return V{o: &Slice{obj: ob, len: len(b), cap: len(b), es: 1}}
}

// sliceStr converts a byte slice view to a Str.
func sliceStr(s *Slice) *Str {
	if s == nil || s.len == 0 {
		return &Str{}
	}
	if s.off < 0 {
		ob, off := s.obj.near(s.off, s.len)
		_ = ob.n[off] // see Far
		s = &Slice{obj: ob, off: off, len: s.len, cap: s.len, es: s.es}
	}
	b := make([]byte, s.len)
	var sym []*Term
	for i := 0; i < s.len; i++ {
		b[i] = byte(s.obj.n[s.off+i])
	}
	if s.obj.o != nil {
		for i := 0; i < s.len; i++ {
			if x := s.obj.o[s.off+i]; x != nil {
				if sym == nil {
					sym = make([]*Term, s.len)
				}
				sym[i] = x.(*Term)
			}
		}
	}
	return &Str{string(b), sym}
}

func (e *Exec) strToSlice(s *Str) V {
	if len(s.s) == 0 {
		ob := e.newObj(0)
		return V{o: &Slice{obj: ob, es: 1}}
	}
	ob := e.newObj(len(s.s))
	for i := 0; i < len(s.s); i++ {
		ob.n[i] = uint64(s.s[i])
	}
	if s.sym != nil {
		ob.o = make([]any, len(s.s))
		for i, t := range s.sym {
			if t != nil {
				ob.o[i] = t
			}
		}
	}
	return V{o: &Slice{obj: ob, len: len(s.s), cap: len(s.s), es: 1}}
}

func strV(s *Str) V {
	if len(s.s) == 0 {
		return V{}
	}
	return V{o: s}
}

func (s *Str) sub(lo, hi int) *Str {
	r := &Str{s: s.s[lo:hi]}
	if s.sym != nil {
		for _, t := range s.sym[lo:hi] {
			if t != nil {
				r.sym = s.sym[lo:hi]
				break
			}
		}
	}
	return r
}

func (s *Str) at(i int) V {
	v := V{n: uint64(s.s[i])}
	if s.sym != nil && s.sym[i] != nil {
		v.o = s.sym[i]
	}
	return v
}

func concatStr(a, b *Str) *Str {
	if len(a.s) == 0 {
		return b
	}
	if len(b.s) == 0 {
		return a
	}
	r := &Str{s: a.s + b.s}
	if a.sym != nil || b.sym != nil {
		r.sym = make([]*Term, len(r.s))
		copy(r.sym, a.sym)
		copy(r.sym[len(a.s):], b.sym)
	}
	return r
}

func (v V) String() string {
	switch o := v.o.(type) {
	case nil:
		return fmt.Sprintf("%d", v.n)
	case *Str:
		return fmt.Sprintf("%q", o.s)
	case *Iface:
		return fmt.Sprintf("iface(%v,%v)", o.t, o.v)
	}
	return fmt.Sprintf("%T(%d)", v.o, v.n)
}
