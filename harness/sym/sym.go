// Package sym is the harness interface. The symbolic engine replaces every
// function here by its symbolic meaning; the bodies below are the native ones,
// used to replay a model (a list of values, one per variable created) against
// the real build.
package sym

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	_ "github.com/kevmo314/appendable/zz_verif/std"
)

var (
	vals   []uint64
	next   int
	params map[string]int
	obs    []string
)

type stopT struct{}
type assumeT struct{}
type violT struct{ msg string }

func take() uint64 {
	k := next
	next++
	if k < len(vals) {
		return vals[k]
	}
	return 0
}

// Bool and the following make a fresh symbolic value.
func Bool(name string) bool     { return take()&1 == 1 }
func Byte(name string) byte     { return byte(take()) }
func Uint16(name string) uint16 { return uint16(take()) }
func Uint32(name string) uint32 { return uint32(take()) }
func Uint64(name string) uint64 { return take() }
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(take())
	}
	return b
}

// Choose returns a value in [0,n), explored by case split.
func Choose(name string, n int) int {
	v := int(uint16(take()))
	if v >= n {
		panic(assumeT{})
	}
	return v
}

// Conc splits on the value of x.
func Conc(x uint64) uint64 { return x }

func Assume(c bool) {
	if !c {
		panic(assumeT{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		panic(violT{msg})
	}
}
func Fail(msg string) { panic(violT{msg}) }
func Stop()           { panic(stopT{}) }

// Far is data at offset n. What comes before is zero and should not matter.
func Far(n int, data []byte) []byte {
	b, err := syscall.Mmap(-1, 0, n+len(data), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	copy(b[n:], data)
	return b
}

// FarHead writes the first bytes of what Far returned.
func FarHead(far, head []byte) { copy(far, head) }

// Idle waits until all other goroutines wait. It has no native meaning.
func Idle() {}

// GiveUp says that the encoding does not cover what was reached.
func GiveUp(why string) { panic(stopT{}) }

func Reach(tag string)         {}
func ObsInt(k string, v int64) { obs = append(obs, fmt.Sprintf("%s=%d", k, v)) }
func ObsStr(k string, v string) {
	obs = append(obs, fmt.Sprintf("%s=%s", k, hex.EncodeToString([]byte(v))))
}
func ObsBytes(k string, v []byte) {
	obs = append(obs, fmt.Sprintf("%s=%s", k, hex.EncodeToString(v)))
}
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// And and Or do not branch.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Ite(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Engine reports whether the code runs under the symbolic engine.
func Engine() bool { return false }

// Case is one native run.
type Case struct {
	Harness string         `json:"harness"`
	Vals    []uint64       `json:"vals"`
	Params  map[string]int `json:"params"`
}
type Result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Stack  string   `json:"stack,omitempty"`
}

// Main runs the cases of the file named by the first argument, one JSON object per line.
func Main(reg map[string]func()) {
	f, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	debug.SetMemoryLimit(2 << 30)
	r := bufio.NewReaderSize(f, 1<<20)
	dec := json.NewDecoder(r)
	limit := 20 * time.Second
	for dec.More() {
		var c Case
		if err := dec.Decode(&c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		fn := reg[c.Harness]
		if fn == nil {
			fmt.Fprintln(os.Stderr, "unknown harness", c.Harness)
			os.Exit(2)
		}
		vals, next, params, obs = c.Vals, 0, c.Params, nil
		tm := time.AfterFunc(limit, func() {
			out(Result{Status: "hang", Msg: "no result after 20s"})
			os.Exit(3)
		})
		res := run(fn)
		tm.Stop()
		out(res)
	}
}

func out(r Result) {
	b, _ := json.Marshal(r)
	fmt.Println("@@" + string(b))
}

func run(fn func()) (res Result) {
	defer func() {
		res.Obs = obs
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopT:
				res.Status = "stopped"
			case assumeT:
				res.Status = "assume"
			case violT:
				res.Status, res.Msg = "violation", x.msg
			case runtime.Error:
				res.Status, res.Msg = "violation", "panic: "+x.Error()
				res.Stack = stack()
			default:
				res.Status, res.Msg = "violation", fmt.Sprint("panic: ", r)
				res.Stack = stack()
			}
		}
	}()
	fn()
	return Result{Status: "done"}
}

func stack() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t") && strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	return strings.Join(out, " < ")
}
