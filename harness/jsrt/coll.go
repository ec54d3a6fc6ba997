package jsrt

import (
	"math"
	"strconv"
	"strings"

	unorm "golang.org/x/text/unicode/norm"
)

func arrMethod(x *Arr, name string) func(args []V) V {
	each := func(a []V, f func(i int, v V, r V) bool) {
		for i := 0; i < len(x.A); i++ {
			v := x.A[i]
			if !f(i, v, Call(a[0], v, Int(i), x)) {
				return
			}
		}
	}
	switch name {
	case "push":
		return func(a []V) V { x.A = append(x.A, a...); return Int(len(x.A)) }
	case "pop":
		return func([]V) V {
			if len(x.A) == 0 {
				return nil
			}
			v := x.A[len(x.A)-1]
			x.A = x.A[:len(x.A)-1]
			return v
		}
	case "shift":
		return func([]V) V {
			if len(x.A) == 0 {
				return nil
			}
			v := x.A[0]
			x.A = append([]V(nil), x.A[1:]...)
			return v
		}
	case "unshift":
		return func(a []V) V {
			x.A = append(append([]V(nil), a...), x.A...)
			return Int(len(x.A))
		}
	case "slice":
		return func(a []V) V {
			i, j := rel(intArg(a, 0, 0), len(x.A)), rel(intArg(a, 1, len(x.A)), len(x.A))
			if j < i {
				j = i
			}
			return NewArr(x.A[i:j]...)
		}
	case "splice":
		return func(a []V) V {
			i := rel(intArg(a, 0, 0), len(x.A))
			n := len(x.A) - i
			if len(a) > 1 {
				n = max(0, min(n, intArg(a, 1, 0)))
			}
			r := NewArr(x.A[i : i+n]...)
			rest := append([]V(nil), x.A[i+n:]...)
			x.A = append(x.A[:i:i], RestArgs(a, 2).(*Arr).A...)
			x.A = append(x.A, rest...)
			return r
		}
	case "concat":
		return func(a []V) V {
			r := append([]V(nil), x.A...)
			for _, v := range a {
				if y, ok := v.(*Arr); ok {
					r = append(r, y.A...)
				} else {
					r = append(r, v)
				}
			}
			return &Arr{A: r}
		}
	case "map":
		return func(a []V) V {
			r := &Arr{}
			each(a, func(i int, v, w V) bool { r.A = append(r.A, w); return true })
			return r
		}
	case "flatMap":
		return func(a []V) V {
			r := &Arr{}
			each(a, func(i int, v, w V) bool {
				if y, ok := w.(*Arr); ok {
					r.A = append(r.A, y.A...)
				} else {
					r.A = append(r.A, w)
				}
				return true
			})
			return r
		}
	case "flat":
		return func(a []V) V { return &Arr{A: flat(x.A, intArg(a, 0, 1))} }
	case "filter":
		return func(a []V) V {
			r := &Arr{}
			each(a, func(i int, v, w V) bool {
				if Truthy(w) {
					r.A = append(r.A, v)
				}
				return true
			})
			return r
		}
	case "forEach":
		return func(a []V) V { each(a, func(i int, v, w V) bool { return true }); return nil }
	case "find", "findIndex", "some":
		return func(a []V) V {
			at := -1
			each(a, func(i int, v, w V) bool {
				if Truthy(w) {
					at = i
					return false
				}
				return true
			})
			switch name {
			case "findIndex":
				return Int(at)
			case "some":
				return at >= 0
			}
			if at < 0 {
				return nil
			}
			return x.A[at]
		}
	case "findLast", "findLastIndex":
		return func(a []V) V {
			for i := len(x.A) - 1; i >= 0; i-- {
				if Truthy(Call(a[0], x.A[i], Int(i), x)) {
					if name == "findLast" {
						return x.A[i]
					}
					return Int(i)
				}
			}
			if name == "findLast" {
				return nil
			}
			return Int(-1)
		}
	case "every":
		return func(a []V) V {
			ok := true
			each(a, func(i int, v, w V) bool { ok = Truthy(w); return ok })
			return ok
		}
	case "reduce", "reduceRight":
		return func(a []V) V {
			items := append([]V(nil), x.A...)
			at := func(i int) int {
				if name == "reduce" {
					return i
				}
				return len(items) - 1 - i
			}
			i := 0
			var acc V
			if len(a) > 1 {
				acc = a[1]
			} else {
				if len(items) == 0 {
					throwErr("TypeError", "Reduce of empty array with no initial value")
				}
				acc, i = items[at(0)], 1
			}
			for ; i < len(items); i++ {
				acc = Call(a[0], acc, items[at(i)], Int(at(i)), x)
			}
			return acc
		}
	case "includes":
		return func(a []V) V {
			for _, v := range x.A {
				if sameZero(v, Arg(a, 0)) {
					return true
				}
			}
			return false
		}
	case "indexOf":
		return func(a []V) V {
			for i := rel(intArg(a, 1, 0), len(x.A)); i < len(x.A); i++ {
				if SEq(x.A[i], Arg(a, 0)) {
					return Int(i)
				}
			}
			return Int(-1)
		}
	case "lastIndexOf":
		return func(a []V) V {
			for i := len(x.A) - 1; i >= 0; i-- {
				if SEq(x.A[i], Arg(a, 0)) {
					return Int(i)
				}
			}
			return Int(-1)
		}
	case "at":
		return func(a []V) V {
			i := intArg(a, 0, 0)
			if i < 0 {
				i += len(x.A)
			}
			if i < 0 || i >= len(x.A) {
				return nil
			}
			return x.A[i]
		}
	case "fill":
		return func(a []V) V {
			for i, j := rel(intArg(a, 1, 0), len(x.A)), rel(intArg(a, 2, len(x.A)), len(x.A)); i < j; i++ {
				x.A[i] = Arg(a, 0)
			}
			return x
		}
	case "join":
		return func(a []V) V {
			sep := ","
			if Arg(a, 0) != nil {
				sep = ToStr(a[0])
			}
			s := ""
			for i, v := range x.A {
				if i > 0 {
					s += sep
				}
				if !Nullish(v) {
					s += ToStr(v)
				}
			}
			return s
		}
	case "reverse", "toReversed":
		return func(a []V) V {
			r := make([]V, len(x.A))
			for i, v := range x.A {
				r[len(r)-1-i] = v
			}
			if name == "toReversed" {
				return &Arr{A: r}
			}
			x.A = r
			return x
		}
	case "sort", "toSorted":
		return func(a []V) V {
			r := append([]V(nil), x.A...)
			less := func(p, q V) bool {
				if q == nil {
					return p != nil
				}
				if p == nil {
					return false
				}
				if f := Arg(a, 0); f != nil {
					return Lt(Call(f, p, q), Int(0))
				}
				return cmpStr(ToStr(p), ToStr(q)) < 0
			}
			for i := 1; i < len(r); i++ { // stable
				for j := i; j > 0 && less(r[j], r[j-1]); j-- {
					r[j], r[j-1] = r[j-1], r[j]
				}
			}
			if name == "toSorted" {
				return &Arr{A: r}
			}
			x.A = r
			return x
		}
	case "keys":
		return func([]V) V {
			var r []V
			for i := range x.A {
				r = append(r, Int(i))
			}
			return iterOf(r)
		}
	case "values":
		return func([]V) V { return iterOf(append([]V(nil), x.A...)) }
	case "entries":
		return func([]V) V {
			var r []V
			for i, v := range x.A {
				r = append(r, NewArr(Int(i), v))
			}
			return iterOf(r)
		}
	case "toString":
		return func([]V) V { return ToStr(x) }
	}
	return nil
}

func flat(a []V, d int) []V {
	var r []V
	for _, v := range a {
		if y, ok := v.(*Arr); ok && d > 0 {
			r = append(r, flat(y.A, d-1)...)
		} else {
			r = append(r, v)
		}
	}
	return r
}

func strMethod(s string, name string) func(args []V) V {
	n := func() int { return strLen(s) }
	switch name {
	case "charCodeAt":
		return func(a []V) V {
			i := intArg(a, 0, 0)
			if i < 0 || i >= n() {
				return math.NaN()
			}
			if ascii(s) {
				return Int(s[i])
			}
			return Int(units(s)[i])
		}
	case "codePointAt":
		return func(a []V) V {
			i := intArg(a, 0, 0)
			if i < 0 || i >= n() {
				return nil
			}
			u := units(s)
			if u[i] >= 0xd800 && u[i] < 0xdc00 && i+1 < len(u) && u[i+1] >= 0xdc00 && u[i+1] < 0xe000 {
				return Int(0x10000 + (int(u[i])-0xd800)<<10 + int(u[i+1]) - 0xdc00)
			}
			return Int(u[i])
		}
	case "charAt", "at":
		return func(a []V) V {
			i := intArg(a, 0, 0)
			if i < 0 && name == "at" {
				i += n()
			}
			if i < 0 || i >= n() {
				if name == "at" {
					return nil
				}
				return ""
			}
			return substr(s, i, i+1)
		}
	case "slice":
		return func(a []V) V {
			i, j := rel(intArg(a, 0, 0), n()), rel(intArg(a, 1, n()), n())
			if j < i {
				j = i
			}
			return substr(s, i, j)
		}
	case "substring":
		return func(a []V) V {
			i, j := min(max(intArg(a, 0, 0), 0), n()), min(max(intArg(a, 1, n()), 0), n())
			if j < i {
				i, j = j, i
			}
			return substr(s, i, j)
		}
	case "split":
		return func(a []V) V {
			lim := intArg(a, 1, 1<<30)
			if Arg(a, 0) == nil {
				return NewArr(s)
			}
			if re, ok := a[0].(*Regex); ok {
				return NewArr(re.split(s, lim)...)
			}
			sep := ToStr(a[0])
			var r []V
			if sep == "" {
				for i := 0; i < n(); i++ {
					r = append(r, substr(s, i, i+1))
				}
			} else {
				for _, p := range strings.Split(s, sep) {
					r = append(r, p)
				}
			}
			if len(r) > lim {
				r = r[:lim]
			}
			return NewArr(r...)
		}
	case "trim":
		return func([]V) V { return trim(s) }
	case "trimStart", "trimEnd":
		return func([]V) V {
			if name == "trimStart" {
				return strings.TrimLeftFunc(s, isSpace)
			}
			return strings.TrimRightFunc(s, isSpace)
		}
	case "startsWith":
		return func(a []V) V {
			i := rel(max(0, intArg(a, 1, 0)), n())
			return strings.HasPrefix(substr(s, i, n()), ToStr(Arg(a, 0)))
		}
	case "endsWith":
		return func(a []V) V { return strings.HasSuffix(s, ToStr(Arg(a, 0))) }
	case "includes":
		return func(a []V) V { return strings.Contains(s, ToStr(Arg(a, 0))) }
	case "indexOf", "lastIndexOf":
		return func(a []V) V {
			t := ToStr(Arg(a, 0))
			from := 0
			if name == "indexOf" {
				from = rel(max(0, intArg(a, 1, 0)), n())
			}
			rest := substr(s, from, n())
			i := strings.Index(rest, t)
			if name == "lastIndexOf" {
				i = strings.LastIndex(rest, t)
			}
			if i < 0 {
				return Int(-1)
			}
			return Int(from + strLen(rest[:i]))
		}
	case "toLowerCase":
		return func([]V) V { return lower(s) }
	case "toUpperCase":
		return func([]V) V { return strings.ToUpper(s) }
	case "repeat":
		return func(a []V) V { return strings.Repeat(s, intArg(a, 0, 0)) }
	case "padStart", "padEnd":
		return func(a []V) V {
			w, p := intArg(a, 0, 0), " "
			if Arg(a, 1) != nil {
				p = ToStr(a[1])
			}
			r := ""
			for i := 0; strLen(r)+n() < w && p != ""; i++ {
				r += substr(p, i%strLen(p), i%strLen(p)+1)
			}
			if name == "padStart" {
				return r + s
			}
			return s + r
		}
	case "concat":
		return func(a []V) V { return s + Cat(a...).(string) }
	case "replace", "replaceAll":
		return func(a []V) V {
			rep := func(m *Arr) string {
				if f, ok := Arg(a, 1).(*Fn); ok {
					return ToStr(Call(f, append(append([]V(nil), m.A...), Get(m, "index"), s)...))
				}
				r := ToStr(Arg(a, 1))
				if !strings.Contains(r, "$") {
					return r
				}
				out := ""
				for i := 0; i < len(r); i++ {
					if r[i] != '$' || i+1 == len(r) {
						out += r[i : i+1]
						continue
					}
					i++
					switch c := r[i]; {
					case c == '$':
						out += "$"
					case c == '&':
						out += ToStr(m.A[0])
					case c >= '1' && c <= '9' && int(c-'0') < len(m.A) && (i+1 == len(r) || r[i+1] < '0' || r[i+1] > '9'):
						if v := m.A[c-'0']; v != nil {
							out += ToStr(v)
						}
					default:
						panic(unsup("replacement pattern"))
					}
				}
				return out
			}
			if re, ok := Arg(a, 0).(*Regex); ok {
				return re.replace(s, rep, re.global)
			}
			t := ToStr(Arg(a, 0))
			out, rest := "", s
			for {
				i := strings.Index(rest, t)
				if i < 0 {
					break
				}
				out += rest[:i] + rep(&Arr{A: []V{t}, Props: []Prop{{"index", Int(strLen(s) - strLen(rest[i:]))}}})
				rest = rest[i+len(t):]
				if name == "replace" || t == "" {
					break
				}
			}
			return out + rest
		}
	case "match", "matchAll":
		return func(a []V) V {
			re, ok := Arg(a, 0).(*Regex)
			if !ok {
				panic(unsup("match of a string"))
			}
			if name == "matchAll" || re.global {
				r := &Arr{}
				re.replace(s, func(m *Arr) string {
					if name == "matchAll" {
						r.A = append(r.A, m)
					} else {
						r.A = append(r.A, m.A[0])
					}
					return ""
				}, true)
				if name == "matchAll" {
					return iterOf(r.A)
				}
				if len(r.A) == 0 {
					return Null
				}
				return r
			}
			return re.exec(s)
		}
	case "search":
		return func(a []V) V {
			re, ok := Arg(a, 0).(*Regex)
			if !ok {
				panic(unsup("search of a string"))
			}
			if c := re.at(units(s), 0); c != nil {
				return Int(c[0])
			}
			return Int(-1)
		}
	case "toLocaleLowerCase":
		return strMethod(s, "toLowerCase")
	case "toLocaleUpperCase":
		return strMethod(s, "toUpperCase")
	case "test":
		return nil
	case "normalize":
		return func(a []V) V {
			f := unorm.NFC
			if len(a) > 0 && a[0] != nil {
				switch ToStr(a[0]) {
				case "NFC":
				case "NFD":
					f = unorm.NFD
				case "NFKC":
					f = unorm.NFKC
				case "NFKD":
					f = unorm.NFKD
				default:
					throwErr("RangeError", "The normalization form should be one of NFC, NFD, NFKC, NFKD.")
				}
			}
			return f.String(s)
		}
	case "toString", "valueOf":
		return func([]V) V { return s }
	case "substr":
		return func(a []V) V {
			u := units(s)
			i := rel(intArg(a, 0, 0), len(u))
			j := i + intArg(a, 1, len(u)-i)
			if j > len(u) {
				j = len(u)
			}
			if j <= i {
				return ""
			}
			return fromUnits(u[i:j])
		}
	}
	return nil
}

func lower(s string) string {
	if !ascii(s) {
		return strings.ToLower(s)
	}
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// ---- JSON

type jp struct {
	s string
	i int
}

func jsonParse(s string) V {
	p := &jp{s: s}
	p.ws()
	v := p.value()
	p.ws()
	if p.i != len(s) {
		p.bad()
	}
	return v
}

func (p *jp) bad() {
	if p.i >= len(p.s) {
		throwErr("SyntaxError", "Unexpected end of JSON input")
	}
	throwErr("SyntaxError", "Unexpected token in JSON at position "+strconv.Itoa(p.i))
}

func (p *jp) peek() byte {
	if p.i >= len(p.s) {
		return 0
	}
	return p.s[p.i]
}

func (p *jp) ws() {
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
			continue
		}
		return
	}
}

func (p *jp) word(w string) {
	for i := 0; i < len(w); i++ {
		if p.peek() != w[i] {
			p.bad()
		}
		p.i++
	}
}

func (p *jp) value() V {
	switch c := p.peek(); {
	case c == 'n':
		p.word("null")
		return Null
	case c == 't':
		p.word("true")
		return true
	case c == 'f':
		p.word("false")
		return false
	case c == '"':
		return p.str()
	case c == '[':
		p.i++
		r := &Arr{}
		p.ws()
		if p.peek() == ']' {
			p.i++
			return r
		}
		for {
			p.ws()
			r.A = append(r.A, p.value())
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			if p.peek() != ']' {
				p.bad()
			}
			p.i++
			return r
		}
	case c == '{':
		p.i++
		r := &Obj{}
		p.ws()
		if p.peek() == '}' {
			p.i++
			return r
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.bad()
			}
			k := p.str()
			p.ws()
			if p.peek() != ':' {
				p.bad()
			}
			p.i++
			p.ws()
			set(&r.Props, k, p.value())
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			if p.peek() != '}' {
				p.bad()
			}
			p.i++
			return r
		}
	case c == '-' || c >= '0' && c <= '9':
		return p.num()
	}
	p.bad()
	return nil
}

func (p *jp) digits() {
	if c := p.peek(); c < '0' || c > '9' {
		p.bad()
	}
	for {
		if c := p.peek(); c < '0' || c > '9' {
			return
		}
		p.i++
	}
}

func (p *jp) num() V {
	i := p.i
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else {
		p.digits()
	}
	if p.peek() == '.' {
		p.i++
		p.digits()
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		p.digits()
	}
	return strToNum(p.s[i:p.i])
}

func (p *jp) hex() uint16 {
	n := uint16(0)
	for k := 0; k < 4; k++ {
		c := p.peek()
		switch {
		case c >= '0' && c <= '9':
			n = n<<4 | uint16(c-'0')
		case c >= 'a' && c <= 'f':
			n = n<<4 | uint16(c-'a'+10)
		case c >= 'A' && c <= 'F':
			n = n<<4 | uint16(c-'A'+10)
		default:
			p.bad()
		}
		p.i++
	}
	return n
}

func (p *jp) str() string {
	p.i++
	var b []byte
	surr := false
	for {
		if p.i >= len(p.s) {
			p.bad()
		}
		c := p.s[p.i]
		if c < 0x20 {
			p.bad()
		}
		if c == '"' {
			p.i++
			if surr { // join surrogate pairs
				return fromUnits(units(string(b)))
			}
			return string(b)
		}
		if c != '\\' {
			b = append(b, c)
			p.i++
			continue
		}
		p.i++
		switch e := p.peek(); e {
		case '"', '\\', '/':
			b = append(b, e)
		case 'b':
			b = append(b, '\b')
		case 'f':
			b = append(b, '\f')
		case 'n':
			b = append(b, '\n')
		case 'r':
			b = append(b, '\r')
		case 't':
			b = append(b, '\t')
		case 'u':
			p.i++
			u := p.hex()
			if u >= 0xd800 && u < 0xe000 {
				surr = true
			}
			b = append(b, fromUnits([]uint16{u})...)
			continue
		default:
			p.bad()
		}
		p.i++
	}
}

func jsonStr(v V) (string, bool) {
	switch v := v.(type) {
	case nil, *Fn, *Class:
		return "", false
	case NullT:
		return "null", true
	case bool, Int:
		return ToStr(v), true
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return "null", true
		}
		return numStr(v), true
	case string:
		return jsonQuote(v), true
	case *Arr:
		s := "["
		for i, e := range v.A {
			if i > 0 {
				s += ","
			}
			t, ok := jsonStr(e)
			if !ok {
				t = "null"
			}
			s += t
		}
		return s + "]", true
	case *Obj:
		s, n := "{", 0
		for _, k := range objKeys(v) {
			t, ok := jsonStr(Get(v, k.(string)))
			if !ok {
				continue
			}
			if n > 0 {
				s += ","
			}
			n++
			s += jsonQuote(k.(string)) + ":" + t
		}
		return s + "}", true
	case Big:
		throwErr("TypeError", "Do not know how to serialize a BigInt")
	}
	return "{}", true
}

func jsonQuote(s string) string {
	b := []byte{'"'}
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '\t':
			b = append(b, '\\', 't')
		case c == '\r':
			b = append(b, '\\', 'r')
		case c == '\b':
			b = append(b, '\\', 'b')
		case c == '\f':
			b = append(b, '\\', 'f')
		case c < 0x20:
			b = append(b, '\\', 'u', '0', '0', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		default:
			b = append(b, c)
		}
	}
	return string(append(b, '"'))
}
