// Package tsr: how the TypeScript client requests ranges of files.
package tsr

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsx"
)

// part is a range of a file.
type part struct {
	lo   int
	data []byte
}

// body writes a multipart body as servers do.
type body struct {
	boundary string
	lead     string
	name     string
	extra    string
	end      string
	quote    string
}

func (b body) contentType() string {
	return "multipart/byteranges; boundary=" + b.quote + b.boundary + b.quote
}

func (b body) write(ps []part, total int) []byte {
	o := []byte(b.lead)
	for _, p := range ps {
		o = append(o, "--"+b.boundary+"\r\n"+b.extra...)
		o = append(o, fmt.Sprintf("%s: bytes %d-%d/%d\r\n\r\n", b.name, p.lo, p.lo+len(p.data)-1, total)...)
		o = append(append(o, p.data...), "\r\n"...)
	}
	return append(o, "--"+b.boundary+"--"+b.end...)
}

func servers() body {
	switch sym.Choose("server", 4) {
	case 0:
		return body{"3d6b6a416f9b5", "", "Content-Range", "Content-Type: text/html; charset=utf-8\r\n", "\r\n", ""}
	case 1:
		return body{"00000000000000000012", "\r\n", "Content-Range", "Content-Type: text/plain\r\n", "\r\n", ""}
	case 2:
		return body{"--x--", "\r\n", "content-range", "", "", ""}
	}
	return body{"gc0p4Jq0M2Yt08j=34c0p", "", "Content-range", "Content-type: application/octet-stream\r\n", "\r\n", "\""}
}

// cut cuts the body at most twice, at arbitrary places.
func cut(b []byte, n int) []any {
	var out []any
	for i := 0; i < n && len(b) > 1; i++ {
		k := sym.Choose("cut", len(b)+1)
		out = append(out, b[:k:k])
		b = b[k:]
	}
	return append(out, b)
}

func call(fn string, args ...any) []any {
	r, err := tsx.Call(fn, args...)
	sym.Assert(!errors.Is(err, tsx.ErrHang), "the client waits forever")
	sym.Assert(err == nil, "the client fails on "+fn)
	return r.([]any)
}

// Multipart: bodies in any chunks.
//
//verif:harness prop=P23 quick="n=2" thorough="n=3" bounds="bodies of n parts of 1..2 arbitrary bytes as four kinds of servers write them (boundaries with dashes, in quotes, with and without a leading line break, header names in either case), in one or two chunks cut anywhere (also empty ones)"
func Multipart() {
	s := servers()
	var ps []part
	for i := 0; i < sym.Param("n", 2); i++ {
		ps = append(ps, part{i * 10, sym.Bytes("d", 1+sym.Choose("len", 2))})
	}
	b := s.write(ps, 100)
	r := call("multipart", s.contentType(), cut(b, 1))
	sym.Assert(r[0].(bool), "a well-formed body is refused")
	same(r[1].([]any), ps)
}

func same(got []any, ps []part) {
	sym.Assert(len(got) == len(ps), "another number of parts than sent")
	for i := range ps {
		sym.Assert(sym.EqBytes(got[i].([]byte), ps[i].data), "a part with other bytes than sent")
	}
}

// Wrap: parts larger than the client's buffer.
//
//verif:harness prop=P23 quick="" bounds="bodies of parts of 5000, 1 and 4097 bytes with an arbitrary byte at the edges of the buffer, in chunks of 61, 1000, 4095, 4096, 4097 bytes or in one"
func Wrap() {
	s := servers()
	var ps []part
	for _, n := range []int{5000, 1, 4097} {
		d := make([]byte, n)
		for i := range d {
			d[i] = "\r\n-x"[i%4]
		}
		for _, i := range []int{0, 1, 3990, 4000, 4095, 4096, n - 1} {
			if i < n {
				d[i] = sym.Byte("d")
			}
		}
		ps = append(ps, part{0, d})
	}
	b := s.write(ps, 10000)
	n := []int{61, 1000, 4095, 4096, 4097, len(b)}[sym.Choose("chunk", 6)]
	var cs []any
	for len(b) > n {
		cs = append(cs, b[:n:n])
		b = b[n:]
	}
	r := call("multipart", s.contentType(), append(cs, b))
	sym.Assert(r[0].(bool), "a well-formed body is refused")
	same(r[1].([]any), ps)
}

// Truncated: bodies that end early.
//
//verif:harness prop=P23 quick="" bounds="bodies of two parts of 1..2 arbitrary bytes that end after any number of bytes, in one chunk or two"
func Truncated() {
	s := servers()
	ps := []part{{0, sym.Bytes("d", 2)}, {10, sym.Bytes("e", 1)}}
	b := s.write(ps, 100)
	n := sym.Choose("end", len(b))
	b = b[:n]
	cs := []any{b}
	if sym.Choose("two", 2) == 1 {
		cs = []any{b[:n/2], b[n/2:]}
	}
	r := call("multipart", s.contentType(), cs)
	got := r[1].([]any)
	sym.Assert(len(got) <= len(ps), "another number of parts than sent")
	same(got, ps[:len(got)])
}

// covers says whether a Range header asks for all of some ranges.
func covers(header string, asked []any) bool {
	h, ok := strings.CutPrefix(header, "bytes=")
	if !ok {
		return false
	}
	var rs [][2]int64
	for _, r := range strings.Split(h, ",") {
		lo, hi, ok := strings.Cut(strings.TrimSpace(r), "-")
		a, err := strconv.ParseInt(lo, 10, 64)
		b, berr := strconv.ParseInt(hi, 10, 64)
		if !ok || err != nil || berr != nil || a > b {
			return false
		}
		rs = append(rs, [2]int64{a, b})
	}
	for _, x := range asked {
		ok := false
		for _, r := range rs {
			if r[0] <= x.([]any)[0].(int64) && x.([]any)[1].(int64) <= r[1] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// Requests: what a request for ranges returns.
//
//verif:harness prop=P23 quick="n=2" thorough="n=3" bounds="requests for 1..n ranges of two to four bytes of a file of eight arbitrary bytes, with multipart requests and without; servers that send the parts in one chunk or two, cut at every third place, in reverse, ranges merged, the whole file, one part with a range, the whole file or other bytes than asked for, parts that end at every third place, fewer parts, one merged range, or refuse; single requests answered rightly, refused (with a body), with more bytes, other bytes or the whole file"
func Requests() {
	file := sym.Bytes("f", 8)
	n := 1 + sym.Choose("ranges", sym.Param("n", 2))
	multi := sym.Choose("multi", 2) == 1
	var ps []part
	var asked []any
	for i := 0; i < n; i++ {
		lo, l := sym.Choose("lo", 3)*2, 2+sym.Choose("len", 2)*2
		if lo+l > 8 {
			l = 2
		}
		ps = append(ps, part{lo, file[lo : lo+l : lo+l]})
		asked = append(asked, []any{int64(lo), int64(lo + l - 1)})
	}
	status := 206
	s := servers()
	hs := []any{[]any{"Content-Type", s.contentType()}}
	b := s.write(ps, 8)
	chunks := []any{b}
	good := true
	if multi {
		switch sym.Choose("response", 8) {
		case 0:
			k := 3 * sym.Choose("cut", len(b)/3)
			chunks = []any{b[:k:k], b[k:]}
		case 1:
			// all parts may have arrived
			b = b[:3*sym.Choose("end", len(b)/3)]
			chunks, good = []any{b}, false
		case 2:
			status, hs, chunks = 200, []any{[]any{"Content-Type", "text/plain"}}, []any{file}
		case 3:
			p := ps[0]
			if sym.Choose("wide", 2) == 1 {
				p = part{0, file}
			}
			if sym.Choose("other", 2) == 1 {
				// not what was asked for, or only a part of it
				p, good = part{p.lo + 1, p.data[1:]}, false
			}
			hs = []any{[]any{"Content-Type", "text/plain"}, []any{"Content-Range", fmt.Sprintf("bytes %d-%d/8", p.lo, p.lo+len(p.data)-1)}}
			chunks, good = []any{p.data}, good && n == 1 || len(p.data) == 8
		case 4:
			chunks, good = []any{s.write(ps[1:], 8)}, false
		case 5:
			status, good = []int{416, 404, 500}[sym.Choose("status", 3)], false
		case 6:
			// the parts may come in any order
			var qs []part
			for i := range ps {
				qs = append(qs, ps[len(ps)-1-i])
			}
			chunks = []any{s.write(qs, 8)}
		case 7:
			// and ranges may be merged
			sym.Assume(n > 1)
			lo := min(ps[0].lo, ps[1].lo)
			hi := max(ps[0].lo+len(ps[0].data), ps[1].lo+len(ps[1].data))
			chunks = []any{s.write(append([]part{{lo, file[lo:hi:hi]}}, ps[2:]...), 8)}
		}
	}
	if multi && n == 1 && (status == 200 || len(hs) == 1) {
		// servers do not answer requests for one range so
		good = false
	}
	odd, how := 0, 0
	if single := !multi || status == 200; single {
		how = sym.Choose("single", 5)
		if how > 0 {
			odd = sym.Choose("odd", n)
			good = how == 2 && !(multi && n == 1)
		}
	}
	r, err := tsx.Call("ranges", file, asked, multi, int64(status), hs, chunks, int64(odd), int64(how))
	sym.Assert(!errors.Is(err, tsx.ErrHang), "the client waits forever")
	if err != nil {
		sym.Assert(!good, "a good response is refused")
		return
	}
	log, got := r.([]any)[0].([]any), r.([]any)[1].([]any)
	if multi {
		sym.Assert(covers(log[0].(string), asked), "the client requests other ranges")
	}
	sym.Assert(len(got) == len(ps), "another number of ranges than requested")
	for i, p := range ps {
		g := got[i].([]any)
		sym.Assert(sym.EqBytes(g[0].([]byte), p.data), "a range with other bytes than the file has there")
		sym.Assert(g[1].(int64) == 8, "a wrong total length")
	}
}

// Cached: the caching resolver.
//
//verif:harness prop=P23 quick="n=3" thorough="n=4" tbudget=2400 bounds="n requests for any range of a file of five arbitrary bytes"
func Cached() {
	n := sym.Param("n", 3)
	fetched(func() int { return 1 }, n, nil)
}

// CachedMany: several ranges at once, and a network that fails.
//
//verif:harness prop=P23 quick="n=2" thorough="n=3" tbudget=2400 bounds="n requests for one or two ranges each of a file of four arbitrary bytes; each request that reaches the file may fail"
func CachedMany() {
	n := sym.Param("n", 2)
	var fails []any
	for i := 0; i < n; i++ {
		fails = append(fails, sym.Choose("fail", 2) == 1)
	}
	fetched(func() int { return 1 + sym.Choose("ranges", 2) }, n, fails)
}

func fetched(count func() int, n int, fails []any) {
	file := sym.Bytes("f", 5)
	if fails != nil {
		file = file[:4:4]
	}
	var asked []any
	var want [][]part
	for i := 0; i < n; i++ {
		var rs []any
		var ps []part
		for k := count(); k > 0; k-- {
			lo := sym.Choose("lo", len(file))
			hi := lo + sym.Choose("len", len(file)-lo)
			rs = append(rs, []any{int64(lo), int64(hi)})
			ps = append(ps, part{lo, file[lo : hi+1]})
		}
		asked = append(asked, rs)
		want = append(want, ps)
	}
	if fails == nil {
		fails = []any{}
	}
	got := call("cached", file, asked, fails)
	sym.Assert(len(got) == len(want), "another number of answers than requests")
	for i, ps := range want {
		g := got[i].([]any)
		rs, ok := g[1].([]any)
		if !ok {
			sym.Assert(g[0].(bool), "a request fails though the file is there")
			continue
		}
		sym.Assert(len(rs) == len(ps), "another number of ranges than requested")
		for k, p := range ps {
			r := rs[k].([]any)
			sym.Assert(sym.EqBytes(r[0].([]byte), p.data), "a range with other bytes than the file has there")
			sym.Assert(r[1].(int64) == int64(len(file)), "a wrong total length")
		}
	}
}
