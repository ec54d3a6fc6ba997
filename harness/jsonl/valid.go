package jsonl

// object is an independent recognizer of one JSON object (the lines it is given
// are too short for a number out of range).
func object(b []byte) bool {
	p := &parser{b: b}
	p.ws()
	if p.i >= len(b) || b[p.i] != '{' || !p.value() {
		return false
	}
	p.ws()
	return p.i == len(b)
}

type parser struct {
	b []byte
	i int
}

func (p *parser) at(c byte) bool {
	if p.i < len(p.b) && p.b[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *parser) ws() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\t' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) lit(s string) bool {
	for j := 0; j < len(s); j++ {
		if !p.at(s[j]) {
			return false
		}
	}
	return true
}

func (p *parser) digits() bool {
	n := p.i
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		p.i++
	}
	return p.i > n
}

func (p *parser) str() bool {
	if !p.at('"') {
		return false
	}
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return true
		case c < 0x20:
			return false
		case c == '\\':
			if p.i >= len(p.b) {
				return false
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			case 'u':
				for j := 0; j < 4; j++ {
					if p.i >= len(p.b) {
						return false
					}
					h := p.b[p.i]
					p.i++
					if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
						return false
					}
				}
			default:
				return false
			}
		}
	}
	return false
}

func (p *parser) value() bool {
	p.ws()
	if p.i >= len(p.b) {
		return false
	}
	switch c := p.b[p.i]; {
	case c == '{':
		p.i++
		p.ws()
		if p.at('}') {
			return true
		}
		for {
			p.ws()
			if !p.str() {
				return false
			}
			p.ws()
			if !p.at(':') || !p.value() {
				return false
			}
			p.ws()
			if p.at('}') {
				return true
			}
			if !p.at(',') {
				return false
			}
		}
	case c == '[':
		p.i++
		p.ws()
		if p.at(']') {
			return true
		}
		for {
			if !p.value() {
				return false
			}
			p.ws()
			if p.at(']') {
				return true
			}
			if !p.at(',') {
				return false
			}
		}
	case c == '"':
		return p.str()
	case c == 't':
		return p.lit("true")
	case c == 'f':
		return p.lit("false")
	case c == 'n':
		return p.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		p.at('-')
		if !p.at('0') && !p.digits() {
			return false
		}
		if p.at('.') && !p.digits() {
			return false
		}
		if p.at('e') || p.at('E') {
			if !p.at('+') {
				p.at('-')
			}
			return p.digits()
		}
		return true
	}
	return false
}
