package jsrt

import (
	"strconv"
	"strings"
)

func find(ps []Prop, k string) int {
	for i := range ps {
		if ps[i].K == k {
			return i
		}
	}
	return -1
}

func set(ps *[]Prop, k string, v V) {
	if i := find(*ps, k); i >= 0 {
		(*ps)[i].V = v
		return
	}
	*ps = append(*ps, Prop{k, v})
}

func NewObj(kv ...V) V {
	o := &Obj{}
	for i := 0; i+1 < len(kv); i += 2 {
		set(&o.Props, kv[i].(string), kv[i+1])
	}
	return o
}

func NewArr(a ...V) V { return &Arr{A: append([]V(nil), a...)} }

func DefGetter(o V, k string, f V) { set(&o.(*Obj).Getter, k, f) }

func DefSetter(o V, k string, f V) { set(&o.(*Obj).Setter, k, f) }

func DefField(o, k, v V) V { PutOwn(o, Key(k), v); return v }

func NeedObj(v V) V {
	if Nullish(v) {
		throwErr("TypeError", "Cannot destructure '"+ToStr(v)+"'")
	}
	return v
}

func ObjRest(o V, used ...string) V {
	r := &Obj{}
	for _, k := range objKeys(o) {
		skip := false
		for _, u := range used {
			if u == k.(string) {
				skip = true
			}
		}
		if !skip {
			set(&r.Props, k.(string), Get(o, k.(string)))
		}
	}
	return r
}

func ObjAssign(dst V, src V) {
	switch s := src.(type) {
	case *Obj, *Arr, string:
		for _, k := range objKeys(s) {
			Put(dst, k.(string), GetI(s, k))
		}
	}
}

func objKeys(v V) []V {
	var r []V
	switch v := v.(type) {
	case *Obj:
		// integer keys come first, in ascending order
		var nums []int
		for _, p := range v.Props {
			if n, ok := index(p.K); ok {
				i := len(nums)
				for i > 0 && nums[i-1] > n {
					i--
				}
				nums = append(nums, 0)
				copy(nums[i+1:], nums[i:])
				nums[i] = n
			}
		}
		for _, n := range nums {
			r = append(r, strconv.Itoa(n))
		}
		for _, p := range v.Props {
			if _, ok := index(p.K); !ok && (p.K == "" || p.K[0] != '#' && (len(p.K) < 2 || p.K[:2] != "@@")) {
				r = append(r, p.K)
			}
		}
		for _, p := range v.Getter {
			r = append(r, p.K)
		}
	case *Arr:
		for i := range v.A {
			r = append(r, strconv.Itoa(i))
		}
	case string:
		for i := 0; i < strLen(v); i++ {
			r = append(r, strconv.Itoa(i))
		}
	case *Class:
		for _, p := range v.Props {
			r = append(r, p.K)
		}
	}
	return r
}

func index(k string) (int, bool) {
	if k == "" || len(k) > 9 || (k[0] == '0' && len(k) > 1) {
		return 0, false
	}
	n := 0
	for i := 0; i < len(k); i++ {
		if k[i] < '0' || k[i] > '9' {
			return 0, false
		}
		n = n*10 + int(k[i]-'0')
	}
	return n, true
}

// Key makes a property key of a value.
func Key(v V) string { return ToStr(v) }

func GetI(o V, k V) V {
	if i, ok := k.(Int); ok {
		switch o := o.(type) {
		case *Arr:
			if i >= 0 && int(i) < len(o.A) {
				return o.A[i]
			}
			return nil
		case *U8:
			if i >= 0 && int(i) < o.n {
				return o.get(int(i))
			}
			return nil
		case string:
			if i >= 0 && int(i) < strLen(o) {
				return substr(o, int(i), int(i)+1)
			}
			return nil
		}
	}
	return Get(o, Key(k))
}

func lookup(o *Obj, k string) V {
	if i := find(o.Props, k); i >= 0 {
		return o.Props[i].V
	}
	for c := o.Class; c != nil; c, _ = c.Super.(*Class) {
		if i := find(c.meth, k); i >= 0 {
			return c.meth[i].V
		}
	}
	return nil
}

func Get(o V, k string) V {
	switch x := o.(type) {
	case nil, NullT:
		throwErr("TypeError", "Cannot read properties of "+ToStr(o)+" (reading '"+k+"')")
	case *Obj:
		if i := find(x.Props, k); i >= 0 {
			return x.Props[i].V
		}
		if i := find(x.Getter, k); i >= 0 {
			return CallThis(x.Getter[i].V, o)
		}
		for c := x.Class; c != nil; c, _ = c.Super.(*Class) {
			if i := find(c.meth, k); i >= 0 {
				return c.meth[i].V
			}
			if i := find(c.getters, k); i >= 0 {
				return CallThis(c.getters[i].V, o)
			}
		}
		if k == "constructor" {
			if x.Class != nil {
				return x.Class
			}
			return Global("Object")
		}
		if isError(x) {
			switch k {
			case "name":
				for c := x.Class; c != nil; c, _ = c.Super.(*Class) {
					if c.build == nil && c.ctor == nil || find(c.Props, "builtin") >= 0 {
						return c.Name
					}
				}
				return "Error"
			case "message":
				return ""
			case "stack":
				return ToStr(o)
			}
		}
	case *Class:
		for c := x; c != nil; c, _ = c.Super.(*Class) {
			if i := find(c.Props, k); i >= 0 {
				return c.Props[i].V
			}
			if i := find(c.sget, k); i >= 0 {
				return CallThis(c.sget[i].V, o)
			}
		}
		if k == "name" {
			return x.Name
		}
	case *Fn:
		if i := find(x.Props, k); i >= 0 {
			return x.Props[i].V
		}
		switch k {
		case "name":
			return x.Name
		case "length":
			return Int(x.N)
		}
	case *Arr:
		if k == "length" {
			return Int(len(x.A))
		}
		if i, ok := index(k); ok {
			return GetI(o, Int(i))
		}
		if i := find(x.Props, k); i >= 0 {
			return x.Props[i].V
		}
	case string:
		if k == "length" {
			return Int(strLen(x))
		}
		if i, ok := index(k); ok {
			return GetI(o, Int(i))
		}
	case *MapObj:
		if k == "size" {
			return Int(len(x.E))
		}
	case *SetObj:
		if k == "size" {
			return Int(len(x.E))
		}
	case *Buf:
		if k == "byteLength" {
			return Int(len(x.B))
		}
	case *U8:
		switch k {
		case "length", "byteLength":
			return Int(x.n)
		case "byteOffset":
			return Int(x.off)
		case "buffer":
			return x.buf
		case "BYTES_PER_ELEMENT":
			return Int(1)
		}
		if i, ok := index(k); ok {
			return GetI(o, Int(i))
		}
	case *View:
		switch k {
		case "byteLength":
			return Int(x.n)
		case "byteOffset":
			return Int(x.off)
		case "buffer":
			return x.buf
		}
	case *Regex:
		switch k {
		case "source":
			return x.src
		case "global":
			return x.global
		case "lastIndex":
			return Int(x.last)
		}
	}
	if k == "@@iterator" {
		switch x := o.(type) {
		case *Arr, *MapObj, *SetObj, *U8, string:
			return native(k, func(this V, _ []V) V { return iterOf(IterAll(this)) })
		case *Gen:
			if x.sync {
				return native(k, func(this V, _ []V) V { return this })
			}
		}
	}
	if g, ok := o.(*Gen); ok && k == "@@asyncIterator" && !g.sync {
		return native(k, func(this V, _ []V) V { return this })
	}
	if method(o, k) != nil {
		return native(k, func(this V, args []V) V {
			if m := method(this, k); m != nil {
				return m(args)
			}
			throwErr("TypeError", k+" called on an incompatible receiver")
			return nil
		})
	}
	known := ""
	if c, ok := o.(*Class); ok && find(c.Props, "builtin") >= 0 {
		known = statics[c.Name]
	} else if o == globals["Math"] {
		known = statics["Math"]
	} else {
		known = members[kindOf(o)]
	}
	if k != "" && strings.Contains(known, " "+k+" ") {
		return native(k, func(V, []V) V { panic(unsup(k + " of a built-in object")) })
	}
	return nil
}

// kindOf names the kind of a built-in value in members.
func kindOf(o V) string {
	switch o.(type) {
	case *Arr:
		return "arr"
	case string:
		return "str"
	case *MapObj:
		return "map"
	case *SetObj:
		return "set"
	case *Buf:
		return "buf"
	case *U8:
		return "u8"
	case *View:
		return "view"
	case *Promise:
		return "promise"
	case *Gen, *Iterator:
		return "gen"
	case *Regex:
		return "regex"
	case *Fn:
		return "fn"
	case Int, float64, Big:
		return "num"
	case *Obj, bool:
		return "obj"
	}
	return ""
}

func PutI(o V, k V, v V) {
	if i, ok := k.(Int); ok {
		switch o := o.(type) {
		case *Arr:
			if i >= 0 {
				if int(i) > len(o.A)+1<<20 {
					panic(unsup("sparse array"))
				}
				for int(i) >= len(o.A) {
					o.A = append(o.A, nil)
				}
				o.A[i] = v
				return
			}
		case *U8:
			if i >= 0 && int(i) < o.n {
				o.buf.B[o.off+int(i)] = byte(toI32(v))
			}
			return
		}
	}
	Put(o, Key(k), v)
}

func Put(o V, k string, v V) {
	switch x := o.(type) {
	case nil, NullT:
		throwErr("TypeError", "Cannot set properties of "+ToStr(o)+" (setting '"+k+"')")
	case *Obj:
		if i := find(x.Props, k); i >= 0 {
			x.Props[i].V = v
			return
		}
		if i := find(x.Setter, k); i >= 0 {
			CallThis(x.Setter[i].V, o, v)
			return
		}
		if find(x.Getter, k) >= 0 {
			throwErr("TypeError", "Cannot set property "+k+" which has only a getter")
		}
		for c := x.Class; c != nil; c, _ = c.Super.(*Class) {
			if i := find(c.setters, k); i >= 0 {
				CallThis(c.setters[i].V, o, v)
				return
			}
			if find(c.getters, k) >= 0 {
				throwErr("TypeError", "Cannot set property "+k+" which has only a getter")
			}
		}
		x.Props = append(x.Props, Prop{k, v})
		return
	case *Class:
		for c := x; c != nil; c, _ = c.Super.(*Class) {
			if i := find(c.sset, k); i >= 0 {
				CallThis(c.sset[i].V, o, v)
				return
			}
		}
		set(&x.Props, k, v)
		return
	case *Fn:
		set(&x.Props, k, v)
		return
	case *Arr:
		if k == "length" {
			n := int(ToNumber(v).(Int))
			if n <= len(x.A) {
				x.A = x.A[:n:n]
			} else {
				x.A = append(x.A, make([]V, n-len(x.A))...)
			}
			return
		}
		if i, ok := index(k); ok {
			PutI(o, Int(i), v)
			return
		}
		set(&x.Props, k, v)
		return
	case *U8:
		if i, ok := index(k); ok {
			PutI(o, Int(i), v)
			return
		}
	case *Regex:
		if n, ok := v.(Int); ok && k == "lastIndex" {
			x.last = int(n)
			return
		}
	}
	switch o.(type) {
	case bool, Int, float64, string, Big:
		throwErr("TypeError", "Cannot create property '"+k+"'")
	}
	panic(unsup("property " + k + " set on a built-in object"))
}

// PutOwn defines a property on the object itself.
func PutOwn(o V, k string, v V) {
	switch x := o.(type) {
	case *Obj:
		set(&x.Props, k, v)
	case *Class:
		set(&x.Props, k, v)
	default:
		Put(o, k, v)
	}
}

func HasPriv(o V, k string) bool {
	x, ok := o.(*Obj)
	return ok && lookup(x, k) != nil
}

func In(k, o V) bool {
	s := Key(k)
	switch x := o.(type) {
	case *Obj:
		if find(x.Props, s) >= 0 || find(x.Getter, s) >= 0 {
			return true
		}
		for c := x.Class; c != nil; c, _ = c.Super.(*Class) {
			if find(c.meth, s) >= 0 || find(c.getters, s) >= 0 {
				return true
			}
		}
		return inObjectProto(s)
	case *Arr:
		if i, ok := index(s); ok {
			return i < len(x.A)
		}
		return s == "length" || method(o, s) != nil
	case *Class, *Fn:
		return Get(o, s) != nil
	}
	throwErr("TypeError", "Cannot use 'in' operator to search for '"+s+"' in "+ToStr(o))
	return false
}

func inObjectProto(s string) bool {
	switch s {
	case "constructor", "__defineGetter__", "__defineSetter__", "hasOwnProperty", "__lookupGetter__", "__lookupSetter__",
		"isPrototypeOf", "propertyIsEnumerable", "toString", "valueOf", "__proto__", "toLocaleString":
		return true
	}
	return false
}

func Delete(o, k V) V {
	if x, ok := o.(*Obj); ok {
		if i := find(x.Props, Key(k)); i >= 0 {
			x.Props = append(x.Props[:i:i], x.Props[i+1:]...)
		}
		return true
	}
	panic(unsup("delete on a built-in object"))
}

func InstanceOf(o, c V) bool {
	cl, ok := c.(*Class)
	if !ok {
		throwErr("TypeError", "Right-hand side of 'instanceof' is not callable")
	}
	if x, ok := o.(*Obj); ok {
		for k := x.Class; k != nil; k, _ = k.Super.(*Class) {
			if k == cl {
				return true
			}
		}
		return cl.Name == "Object" && find(cl.Props, "builtin") >= 0
	}
	name := ""
	switch o.(type) {
	case *Arr:
		name = "Array"
	case *MapObj:
		name = "Map"
	case *SetObj:
		name = "Set"
	case *Buf:
		name = "ArrayBuffer"
	case *U8:
		name = "Uint8Array"
	case *View:
		name = "DataView"
	case *Promise:
		name = "Promise"
	case *Fn, *Class:
		name = "Function"
	case *Regex:
		name = "RegExp"
	default:
		return false
	}
	return cl.Name == name || cl.Name == "Object"
}

// ---- classes

func NewClass(name string, super V) *Class {
	if super != nil {
		if _, ok := super.(*Class); !ok {
			throwErr("TypeError", "Class extends value that is not a constructor")
		}
	}
	return &Class{Name: name, Super: super}
}

func SetCtor(c *Class, f V) {
	c.ctor = func(this V, args []V) {
		f.(*Fn).F(this, args)
	}
}

func DefaultCtor(c *Class, super V, fields func(this V)) {
	c.ctor = func(this V, args []V) {
		if super != nil {
			construct(super.(*Class), this, args)
		}
		fields(this)
	}
}

func construct(c *Class, this V, args []V) {
	if c.ctor == nil {
		panic(unsup("class " + c.Name + " cannot be extended"))
	}
	c.ctor(this, args)
}

func SuperCall(super, this V, fields func(this V), args ...V) V {
	construct(super.(*Class), this, args)
	fields(this)
	return nil
}

func SuperGet(super, this V, k string) V {
	for c, _ := super.(*Class); c != nil; c, _ = c.Super.(*Class) {
		if i := find(c.meth, k); i >= 0 {
			return c.meth[i].V
		}
		if i := find(c.getters, k); i >= 0 {
			return CallThis(c.getters[i].V, this)
		}
	}
	return nil
}

func SetMethod(c *Class, static bool, k string, f V) {
	if static {
		set(&c.Props, k, f)
	} else {
		set(&c.meth, k, f)
	}
}
func SetGetter(c *Class, static bool, k string, f V) {
	if static {
		set(&c.sget, k, f)
	} else {
		set(&c.getters, k, f)
	}
}
func SetSetter(c *Class, static bool, k string, f V) {
	if static {
		set(&c.sset, k, f)
		return
	}
	set(&c.setters, k, f)
}

func New(cv V, args ...V) V {
	c, ok := cv.(*Class)
	if !ok {
		throwErr("TypeError", "not a constructor")
	}
	if c.build != nil {
		return c.build(args)
	}
	for b := c; b != nil; b, _ = b.Super.(*Class) {
		if b.build != nil {
			panic(unsup("subclass of built-in class " + b.Name))
		}
	}
	o := &Obj{Class: c}
	construct(c, o, args)
	return o
}

func isError(o *Obj) bool {
	for c := o.Class; c != nil; c, _ = c.Super.(*Class) {
		if c.Name == "Error" && find(c.Props, "builtin") >= 0 {
			return true
		}
	}
	return false
}
