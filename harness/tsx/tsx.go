// Package tsx runs the TypeScript client: natively its bundle on node, under
// the engine the Go code that ts2go makes of the same bundle.
package tsx

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"time"

	"github.com/kevmo314/appendable/zz_verif/jsrt"
	"github.com/kevmo314/appendable/zz_verif/sym"
	"github.com/kevmo314/appendable/zz_verif/tsgen"
)

var (
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
)

// ErrHang is what a call that does not come back returns.
var ErrHang = errors.New("the client does not come back")

// Call calls an exported function of ts/driver.ts. Arguments and results are
// nil, bool, int, int64, uint64 (a bigint), float64, string, []byte (an
// ArrayBuffer), []any. A promise is awaited.
func Call(fn string, args ...any) (any, error) {
	if tsgen.Bundle == "" {
		return nil, errors.New("the client was not translated")
	}
	if cmd == nil {
		start()
	}
	b, err := json.Marshal([]any{fn, enc(args)})
	if err != nil {
		panic(err)
	}
	if _, err := in.Write(append(b, '\n')); err != nil {
		panic(err)
	}
	line := make(chan string, 1)
	go func() {
		s, err := out.ReadString('\n')
		if err != nil {
			s = "!" + err.Error()
		}
		line <- s
	}()
	select {
	case s := <-line:
		if s[0] == '!' {
			cmd.Wait()
			cmd = nil
			return nil, errors.New("node died: " + s)
		}
		var r []any
		if err := json.Unmarshal([]byte(s), &r); err != nil {
			panic(err.Error() + ": " + s)
		}
		if e, ok := r[0].(string); ok {
			if e == "UNMODELLED" {
				sym.GiveUp("stand-ins for fetch")
			}
			return nil, errors.New(e)
		}
		return dec(r[1]), nil
	case <-time.After(8 * time.Second):
		cmd.Process.Kill()
		cmd.Wait()
		cmd = nil
		return nil, ErrHang
	}
}

const server = `
import * as m from %q;
import readline from "readline";
for (const k of ["log", "warn", "error", "info", "debug"]) console[k] = () => {};
const dec = (v) => Array.isArray(v) ? v.map(dec) : v === null || typeof v !== "object" ? v : "u" in v ? undefined
  : "b" in v ? Uint8Array.from(v.b.match(/../g) ?? [], (x) => parseInt(x, 16)).buffer : "i" in v ? BigInt(v.i) : "f" in v ? Number(v.f) : v;
const enc = (v) => v === undefined ? { u: 1 } : typeof v === "bigint" ? { i: v.toString() } : typeof v === "number" ? (Number.isFinite(v) ? v : { f: String(v) })
  : v instanceof ArrayBuffer ? { b: Buffer.from(v).toString("hex") } : ArrayBuffer.isView(v) ? { b: Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString("hex") }
  : Array.isArray(v) ? v.map(enc) : v;
let left = false;
Object.defineProperty(globalThis, "__verifUnmodelled", { get() { left = true; throw new Error("unmodelled"); } });
for await (const line of readline.createInterface({ input: process.stdin })) {
  const [fn, args] = JSON.parse(line);
  let r;
  left = false;
  try { r = [null, enc(await m[fn](...dec(args)))]; } catch (e) { r = [String(e) || "error"]; }
  process.stdout.write(JSON.stringify(left ? ["UNMODELLED"] : r) + "\n");
}
`

func start() {
	dir, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	f := filepath.Join(dir, "server.mjs")
	if err := os.WriteFile(f, []byte(fmt.Sprintf(server, tsgen.Bundle)), 0o644); err != nil {
		panic(err)
	}
	c := exec.Command("node", f)
	c.Stderr = os.Stderr
	if in, err = c.StdinPipe(); err != nil {
		panic(err)
	}
	o, err := c.StdoutPipe()
	if err != nil {
		panic(err)
	}
	out = bufio.NewReaderSize(o, 1<<20)
	if err := c.Start(); err != nil {
		panic(err)
	}
	cmd = c
}

func enc(v any) any {
	switch v := v.(type) {
	case nil:
		return map[string]any{"u": 1}
	case []byte:
		return map[string]any{"b": hex.EncodeToString(v)}
	case uint64:
		return map[string]any{"i": fmt.Sprint(v)}
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = enc(v[i])
		}
		return r
	case Null:
		return nil
	}
	return v
}

func dec(v any) any {
	switch v := v.(type) {
	case nil:
		return Null{}
	case float64:
		if v == math.Trunc(v) && math.Abs(v) <= 1<<53 {
			return int64(v)
		}
		return v
	case []any:
		r := make([]any, len(v))
		for i := range v {
			r[i] = dec(v[i])
		}
		return r
	case map[string]any:
		if h, ok := v["b"].(string); ok {
			b, _ := hex.DecodeString(h)
			return b
		}
		if s, ok := v["i"].(string); ok {
			var n uint64
			if _, err := fmt.Sscan(s, &n); err != nil {
				return "bigint " + s
			}
			return n
		}
		if s, ok := v["f"].(string); ok {
			switch s {
			case "NaN":
				return math.NaN()
			case "Infinity":
				return math.Inf(1)
			}
			return math.Inf(-1)
		}
		return nil
	}
	return v
}

// Null is null.
type Null struct{}

//verif:replace github.com/kevmo314/appendable/zz_verif/tsx.Call
func call(fn string, args ...any) (res any, err error) {
	defer func() {
		if e := recover(); e != nil {
			t, ok := e.(*jsrt.Throw)
			if !ok {
				panic(e)
			}
			if t.Val == nil {
				err = errors.New("undefined thrown")
			}
			err = errors.New("thrown")
		}
	}()
	if tsgen.Bundle == "" {
		sym.GiveUp("the client could not be translated: " + tsgen.Why)
	}
	js := make([]jsrt.V, len(args))
	for i, a := range args {
		js[i] = toJS(a)
	}
	jsrt.Concurrent = fn == "together"
	return fromJS(jsrt.Await(jsrt.Call(tsgen.Export(fn), js...))), nil
}

func toJS(v any) jsrt.V {
	switch v := v.(type) {
	case []byte:
		return jsrt.NewBuf(append([]byte{}, v...))
	case uint64:
		return jsrt.Big{Lo: v}
	case int:
		return jsrt.Int(v)
	case int64:
		return jsrt.Int(v)
	case float64:
		return jsrt.Num(v)
	case []any:
		a := &jsrt.Arr{}
		for _, e := range v {
			a.A = append(a.A, toJS(e))
		}
		return a
	case Null:
		return jsrt.Null
	}
	return v
}

func fromJS(v jsrt.V) any {
	switch v := v.(type) {
	case nil, bool, string, float64:
		return v
	case jsrt.NullT:
		return Null{}
	case jsrt.Int:
		return int64(v)
	case jsrt.Big:
		if v.Hi != 0 {
			return "bigint out of range"
		}
		return v.Lo
	case *jsrt.Arr:
		r := make([]any, len(v.A))
		for i := range v.A {
			r[i] = fromJS(v.A[i])
		}
		return r
	}
	if b, ok := jsrt.BytesOf(v); ok {
		return b
	}
	sym.GiveUp("result of another type")
	return nil
}
