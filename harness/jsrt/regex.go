package jsrt

import "unicode"

// Regex is a regular expression: a backtracking matcher over code units for
// the common constructs.
type Regex struct {
	src                    string
	global, fold, dot      bool
	unicode, lines, sticky bool
	n                      *rx
	groups                 int
	last                   int
	names                  []Prop
}

type rx struct {
	op    byte // c class, s seq, a alt, * repeat, ^ $ b B assertions, ( group, = ! lookahead
	set   func(c rune) bool
	kids  []*rx
	min   int
	max   int
	lazy  bool
	group int
}

type rxp struct {
	s []uint16
	i int
	r *Regex
}

func NewRegex(src, flags string) V {
	r := &Regex{src: src}
	for i := 0; i < len(flags); i++ {
		switch flags[i] {
		case 'g':
			r.global = true
		case 'i':
			r.fold = true
		case 's':
			r.dot = true
		case 'u':
			r.unicode = true
		case 'm':
			r.lines = true
		case 'd':
		case 'y':
			r.sticky = true
		default:
			panic(unsup("regular expression flag"))
		}
	}
	p := &rxp{s: units(src), r: r}
	r.n = p.alt()
	if p.i != len(p.s) {
		panic(unsup("regular expression " + src))
	}
	return r
}

func (p *rxp) more() bool { return p.i < len(p.s) }
func (p *rxp) peek() uint16 {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

// char takes the next character of the pattern: a unit, or a code point with the u flag.
func (p *rxp) char() rune {
	c := rune(p.peek())
	p.i++
	if p.r.unicode && c >= 0xd800 && c < 0xdc00 {
		if d := rune(p.peek()); d >= 0xdc00 && d < 0xe000 {
			p.i++
			c = (c-0xd800)<<10 + d - 0xdc00 + 0x10000
		}
	}
	return c
}

func (p *rxp) alt() *rx {
	n := &rx{op: 'a', kids: []*rx{p.seq()}}
	for p.more() && p.peek() == '|' {
		p.i++
		n.kids = append(n.kids, p.seq())
	}
	return n
}

func (p *rxp) seq() *rx {
	n := &rx{op: 's'}
	for p.more() && p.peek() != '|' && p.peek() != ')' {
		a := p.atom()
		for p.more() {
			q := &rx{op: '*', kids: []*rx{a}, max: 1 << 30}
			switch p.peek() {
			case '*':
			case '+':
				q.min = 1
			case '?':
				q.max = 1
			case '{':
				p.i++
				q.min = p.number()
				q.max = q.min
				if p.peek() == ',' {
					p.i++
					q.max = 1 << 30
					if p.peek() != '}' {
						q.max = p.number()
					}
				}
			default:
				q = nil
			}
			if q == nil {
				break
			}
			p.i++
			if p.more() && p.peek() == '?' {
				q.lazy = true
				p.i++
			}
			a = q
		}
		n.kids = append(n.kids, a)
	}
	return n
}

func (p *rxp) number() int {
	n := 0
	for p.peek() >= '0' && p.peek() <= '9' {
		n = n*10 + int(p.peek()-'0')
		p.i++
	}
	return n
}

func (p *rxp) atom() *rx {
	c := p.char()
	switch c {
	case '^', '$':
		return &rx{op: byte(c)}
	case '.':
		d := p.r.dot
		return &rx{op: 'c', set: func(c rune) bool { return d || c != '\n' && c != '\r' && c != 0x2028 && c != 0x2029 }}
	case '(':
		n := &rx{op: '('}
		if p.peek() == '?' {
			p.i++
			switch p.peek() {
			case ':':
				n.op = 'a'
			case '=', '!':
				n.op = byte(p.peek())
			case '<':
				p.i++
				name := ""
				for p.more() && p.peek() != '>' {
					if p.peek() == '=' || p.peek() == '!' || p.peek() >= 0x80 {
						panic(unsup("regular expression group"))
					}
					name += string(rune(p.peek()))
					p.i++
				}
				p.r.groups++
				n.group = p.r.groups
				p.r.names = append(p.r.names, Prop{name, Int(n.group)})
			default:
				panic(unsup("regular expression group"))
			}
			p.i++
		} else {
			p.r.groups++
			n.group = p.r.groups
		}
		n.kids = []*rx{p.alt()}
		if p.peek() != ')' {
			panic(unsup("regular expression group"))
		}
		p.i++
		return n
	case '[':
		neg := false
		if p.peek() == '^' {
			neg = true
			p.i++
		}
		var sets []func(rune) bool
		for p.more() && p.peek() != ']' {
			s, lo, single := p.classAtom()
			if single && p.peek() == '-' && p.i+1 < len(p.s) && p.s[p.i+1] != ']' {
				p.i++
				_, hi, ok := p.classAtom()
				if !ok {
					panic(unsup("regular expression range"))
				}
				s = func(c rune) bool { return c >= lo && c <= hi }
			}
			sets = append(sets, s)
		}
		p.i++
		in := p.folded(func(c rune) bool {
			for _, s := range sets {
				if s(c) {
					return true
				}
			}
			return false
		})
		if neg {
			return &rx{op: 'c', set: func(c rune) bool { return !in(c) }}
		}
		return &rx{op: 'c', set: in}
	case '\\':
		if p.peek() == 'b' || p.peek() == 'B' {
			p.i++
			return &rx{op: byte(p.s[p.i-1])}
		}
		p.i--
		s, _, _ := p.classAtom()
		return &rx{op: 'c', set: p.folded(s)}
	}
	return &rx{op: 'c', set: p.folded(func(d rune) bool { return c == d })}
}

func (p *rxp) folded(s func(rune) bool) func(rune) bool {
	if !p.r.fold {
		return s
	}
	return func(c rune) bool {
		if s(c) {
			return true
		}
		if c < 0x80 {
			if c >= 'a' && c <= 'z' && s(c-32) || c >= 'A' && c <= 'Z' && s(c+32) {
				return true
			}
			if p.r.unicode {
				switch c {
				case 'k', 'K':
					return s(0x212a)
				case 's', 'S':
					return s(0x17f)
				}
			}
			return false
		}
		for d := unicode.SimpleFold(c); d != c; d = unicode.SimpleFold(d) {
			if (p.r.unicode || d < 0x10000 && upperUnit(d) == upperUnit(c)) && s(d) {
				return true
			}
		}
		return false
	}
}

// upperUnit is the character a case-insensitive match without the u flag compares by.
func upperUnit(c rune) rune {
	u := unicode.ToUpper(c)
	if c == 0xdf || u >= 0x10000 || c >= 0x80 && u < 0x80 {
		return c
	}
	return u
}

// property is the set \p{name} stands for.
func property(name string) func(rune) bool {
	switch name {
	case "ASCII":
		return func(c rune) bool { return c < 0x80 }
	case "Any":
		return func(c rune) bool { return true }
	case "Letter":
		name = "L"
	case "Number":
		name = "N"
	case "Punctuation":
		name = "P"
	case "Mark":
		name = "M"
	case "Symbol":
		name = "S"
	case "Lowercase_Letter":
		name = "Ll"
	case "Uppercase_Letter":
		name = "Lu"
	case "Decimal_Number":
		name = "Nd"
	case "White_Space":
		return unicode.IsSpace
	}
	t := unicode.Categories[name]
	if t == nil {
		panic(unsup("regular expression property " + name))
	}
	return func(c rune) bool {
		if c < 0x80 {
			switch name {
			case "L":
				return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			case "N", "Nd":
				return isDigit(c)
			}
		}
		return unicode.Is(t, c)
	}
}

func isDigit(c rune) bool { return c >= '0' && c <= '9' }
func isWord(c rune) bool {
	return isDigit(c) || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
}

func (p *rxp) classAtom() (set func(rune) bool, c rune, single bool) {
	c = p.char()
	if c != '\\' {
		return func(d rune) bool { return d == c }, c, true
	}
	e := p.char()
	not := func(f func(rune) bool) func(rune) bool { return func(c rune) bool { return !f(c) } }
	space := func(c rune) bool { return isSpace(c) }
	switch e {
	case 'd':
		return isDigit, 0, false
	case 'D':
		return not(isDigit), 0, false
	case 'w':
		return isWord, 0, false
	case 'W':
		return not(isWord), 0, false
	case 's':
		return space, 0, false
	case 'S':
		return not(space), 0, false
	case 'n':
		c = '\n'
	case 'r':
		c = '\r'
	case 't':
		c = '\t'
	case 'f':
		c = '\f'
	case 'v':
		c = '\v'
	case '0':
		c = 0
	case 'x', 'u':
		n := 2
		if e == 'u' {
			n = 4
		}
		brace := e == 'u' && p.r.unicode && p.peek() == '{'
		if brace {
			p.i++
			for n = 0; p.i+n < len(p.s) && p.s[p.i+n] != '}'; n++ {
			}
		}
		c = 0
		for ; n > 0; n-- {
			d := rune(p.peek())
			p.i++
			switch {
			case isDigit(d):
				d -= '0'
			case d >= 'a' && d <= 'f':
				d -= 'a' - 10
			case d >= 'A' && d <= 'F':
				d -= 'A' - 10
			default:
				panic(unsup("regular expression escape"))
			}
			c = c<<4 | d
		}
		if brace {
			p.i++
		}
	case 'p', 'P':
		if !p.r.unicode || p.peek() != '{' {
			panic(unsup("regular expression escape"))
		}
		p.i++
		name := ""
		for p.more() && p.peek() != '}' {
			name += string(rune(p.peek()))
			p.i++
		}
		p.i++
		in := property(name)
		if e == 'P' {
			in = not(in)
		}
		return in, 0, false
	default:
		if isWord(e) {
			panic(unsup("regular expression escape"))
		}
		c = e
	}
	x := c
	return func(d rune) bool { return d == x }, c, true
}

func isLineEnd(c uint16) bool { return c == '\n' || c == '\r' || c == 0x2028 || c == 0x2029 }

type rxm struct {
	r    *Regex
	s    []uint16
	caps []int
}

func (m *rxm) run(n *rx, i int, k func(int) bool) bool {
	switch n.op {
	case 'c':
		if i >= len(m.s) {
			return false
		}
		c, w := rune(m.s[i]), 1
		if m.r.unicode && c >= 0xd800 && c < 0xdc00 && i+1 < len(m.s) {
			if d := rune(m.s[i+1]); d >= 0xdc00 && d < 0xe000 {
				c, w = (c-0xd800)<<10+d-0xdc00+0x10000, 2
			}
		}
		return n.set(c) && k(i+w)
	case 's':
		return m.seq(n.kids, i, k)
	case 'a':
		for _, a := range n.kids {
			if m.run(a, i, k) {
				return true
			}
		}
		return false
	case '(':
		o0, o1 := m.caps[2*n.group], m.caps[2*n.group+1]
		if m.run(n.kids[0], i, func(j int) bool {
			p0, p1 := m.caps[2*n.group], m.caps[2*n.group+1]
			m.caps[2*n.group], m.caps[2*n.group+1] = i, j
			if k(j) {
				return true
			}
			m.caps[2*n.group], m.caps[2*n.group+1] = p0, p1
			return false
		}) {
			return true
		}
		m.caps[2*n.group], m.caps[2*n.group+1] = o0, o1
		return false
	case '=':
		return m.run(n.kids[0], i, func(int) bool { return true }) && k(i)
	case '!':
		return !m.run(n.kids[0], i, func(int) bool { return true }) && k(i)
	case '^':
		return (i == 0 || m.r.lines && isLineEnd(m.s[i-1])) && k(i)
	case '$':
		return (i == len(m.s) || m.r.lines && isLineEnd(m.s[i])) && k(i)
	case 'b', 'B':
		a := i > 0 && isWord(rune(m.s[i-1]))
		b := i < len(m.s) && isWord(rune(m.s[i]))
		return (a != b) == (n.op == 'b') && k(i)
	case '*':
		return m.rep(n, 0, i, k)
	}
	panic(unsup("regex op"))
}

func (m *rxm) seq(kids []*rx, i int, k func(int) bool) bool {
	if len(kids) == 0 {
		return k(i)
	}
	return m.run(kids[0], i, func(j int) bool { return m.seq(kids[1:], j, k) })
}

func (m *rxm) rep(n *rx, done, i int, k func(int) bool) bool {
	again := func() bool {
		return done < n.max && m.run(n.kids[0], i, func(j int) bool {
			if j == i && done >= n.min {
				return false
			}
			return m.rep(n, done+1, j, k)
		})
	}
	if done < n.min {
		return again()
	}
	if n.lazy {
		return k(i) || again()
	}
	return again() || k(i)
}

// at finds the first match from position i: its bounds and groups.
func (r *Regex) at(u []uint16, i int) []int {
	for ; i <= len(u); i++ {
		m := &rxm{r: r, s: u, caps: make([]int, 2*r.groups+2)}
		for j := range m.caps {
			m.caps[j] = -1
		}
		if m.run(r.n, i, func(j int) bool { m.caps[0], m.caps[1] = i, j; return true }) {
			return m.caps
		}
		if r.sticky {
			return nil
		}
	}
	return nil
}

func (r *Regex) exec(s string) V {
	u := units(s)
	from := 0
	if r.global || r.sticky {
		from = r.last
	}
	c := []int(nil)
	if from <= len(u) {
		c = r.at(u, from)
	}
	if c == nil {
		r.last = 0
		return Null
	}
	if r.global || r.sticky {
		r.last = c[1]
	}
	return r.result(s, u, c)
}

// result is the array of a match.
func (r *Regex) result(s string, u []uint16, c []int) V {
	a := &Arr{}
	for i := 0; i < len(c); i += 2 {
		if c[i] < 0 {
			a.A = append(a.A, nil)
		} else {
			a.A = append(a.A, fromUnits(u[c[i]:c[i+1]]))
		}
	}
	groups := V(nil)
	if len(r.names) > 0 {
		groups = NewObj()
		for _, n := range r.names {
			Put(groups, n.K, a.A[n.V.(Int)])
		}
	}
	a.Props = []Prop{{"index", Int(c[0])}, {"input", s}, {"groups", groups}}
	return a
}

// replace calls f with every match in turn, or the first, and gives the text with what f gives in their places.
func (r *Regex) replace(s string, f func(m *Arr) string, all bool) string {
	if r.sticky {
		panic(unsup("replace with a sticky regular expression"))
	}
	u := units(s)
	out, i := "", 0
	for i <= len(u) {
		c := r.at(u, i)
		if c == nil {
			break
		}
		out += fromUnits(u[i:c[0]]) + f(r.result(s, u, c).(*Arr))
		if c[1] == c[0] {
			w := 1
			if r.unicode && c[0]+1 < len(u) && u[c[0]] >= 0xd800 && u[c[0]] < 0xdc00 && u[c[0]+1] >= 0xdc00 && u[c[0]+1] < 0xe000 {
				w = 2
			}
			if c[0] < len(u) {
				out += fromUnits(u[c[0] : c[0]+w])
			}
			i = c[1] + w
		} else {
			i = c[1]
		}
		if !all {
			break
		}
	}
	if i < len(u) {
		out += fromUnits(u[i:])
	}
	return out
}

func (r *Regex) split(s string, lim int) []V {
	if r.sticky {
		panic(unsup("split with a sticky regular expression"))
	}
	var parts []V
	u := units(s)
	if len(u) == 0 && r.at(u, 0) != nil {
		return nil
	}
	i, from := 0, 0
	for i < len(u) {
		c := r.at(u, i)
		if c == nil || c[0] >= len(u) {
			break
		}
		if c[1] == from {
			i++
			continue
		}
		if c[0] == c[1] && c[0] == from {
			i++
			continue
		}
		parts = append(parts, fromUnits(u[from:c[0]]))
		parts = append(parts, r.result(s, u, c).(*Arr).A[1:]...)
		from = c[1]
		i = max(c[1], c[0]+1)
	}
	parts = append(parts, fromUnits(u[from:]))
	if len(parts) > lim {
		parts = parts[:lim]
	}
	return parts
}

func regexMethod(r *Regex, name string) func(args []V) V {
	switch name {
	case "test":
		return func(a []V) V {
			_, none := r.exec(ToStr(Arg(a, 0))).(NullT)
			return !none
		}
	case "exec":
		return func(a []V) V { return r.exec(ToStr(Arg(a, 0))) }
	}
	return nil
}
