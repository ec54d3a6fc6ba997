// Forms that a rewrite of the client may use.
const out: string[] = [];
function p(...a: any[]) { out.push(a.map((x) => { try { return show(x); } catch (e: any) { return "ERR " + e.message; } }).join(" ")); }
function show(x: any): string {
  if (x === undefined) return "undefined";
  if (x === null) return "null";
  if (typeof x === "bigint") return x.toString() + "n";
  if (typeof x === "function") return "fn";
  if (x instanceof Uint8Array) return "u8[" + Array.from(x).join(",") + "]";
  if (x instanceof ArrayBuffer) return "ab[" + Array.from(new Uint8Array(x)).join(",") + "]";
  if (x instanceof Map) return "map" + show(Array.from(x));
  if (x instanceof Set) return "set" + show([...x]);
  if (Array.isArray(x)) return "[" + x.map(show).join(",") + "]";
  if (x instanceof Error) return x.name + ":" + x.message;
  if (typeof x === "object") return "{" + Object.entries(x).map(([k, v]) => k + ":" + show(v)).join(",") + "}";
  if (typeof x === "string") return JSON.stringify(x);
  return String(x);
}
function t(f: () => any) { try { p(f()); } catch (e: any) { p("threw", e.name, e instanceof TypeError || e instanceof RangeError || e instanceof SyntaxError ? "" : e.message); } }
const enum CE { X = 3, Y }
enum S { A = "a", B = "b" }
namespace NS { export const k = 5; export function f() { return k + 1; } }
abstract class Abs { protected abstract step(): number; run() { return this.step() + 1; } static #count = 0; static inc() { return ++Abs.#count; } }
class Impl extends Abs { private readonly list: number[] = []; protected step() { this.list.push(1); return this.list.length; } get size(): number { return this.list.length; } static create = () => new Impl(); static { (Impl as any).tag = "t"; } *[Symbol.iterator]() { yield* this.list; } }
class Gen<T> { #v: T; constructor(v: T) { this.#v = v; } get = (): T => this.#v; set(v: T): this { this.#v = v; return this; } #hid() { return 1; } callHid() { return this.#hid(); } static async *pages(n: number) { for (let i = 0; i < n; i++) yield new Gen(i); } async *each() { yield this.#v; } has(o: any) { return #v in o; } }
class Queue { items: any[] = []; [Symbol.asyncIterator]() { let i = 0; const items = this.items; return { next: async () => (i < items.length ? { value: items[i++], done: false } : { value: undefined, done: true as const }), }; } }
const sleepless = () => new Promise<void>((r) => setTimeout(r, 0));
async function* delegated() { yield 0; yield* Gen.pages(2); return 9; }
function* inner(): Generator<number, string, number> { const x = yield 1; const y = yield x + 1; return "r" + y; }
function* outer(): Generator<number, void, number> { const r = yield* inner(); p("inner gave", r); try { yield 100; } finally { p("closed"); } }
export async function run(): Promise<string> {
  // loops
  t(() => { const r = []; for (let i = 0; ; ) { if (i >= 3) break; r.push(i); i += 1; } return r; });
  t(() => { const r = []; let i = 0; for (;;) { if (++i > 3) break; r.push(i); } return r; });
  t(() => { const r = []; for (let i = 0, j = 5; i < j; i++, j--) { if (i === 1) continue; r.push([i, j]); } return r; });
  t(() => { const r = []; for (let n = 5; n--; ) r.push(n); return r; });
  t(() => { let n = 3; const r = []; while (n-- > 0) { r.push(n); } return r; });
  t(() => { const r: any[] = []; for (let i = 0; i < 3; i++) { r.push(() => i++); } return r.map((f) => [f(), f()]); });
  t(() => { const r: any[] = []; let k: any; for (k of [1, 2]) r.push(k); for (k in { q: 1 }) r.push(k); return r; });
  t(() => { const r: any[] = []; for (const { a, b = 7 } of [{ a: 1 }, { a: 2, b: 3 }] as any[]) r.push(a, b); return r; });
  t(() => { const r: any[] = []; for (const [i, [x, y]] of [[1, 2], [3, 4]].entries()) r.push(i, x, y); return r; });
  t(() => { a: { if (out.length >= 0) break a; p("never"); } return "after"; });
  t(() => { const r: any[] = []; loop: while (true) { switch (r.length) { case 0: case 1: r.push("s"); continue loop; case 2: { r.push("two"); break; } default: break loop; } r.push("x"); } return r; });
  t(() => { const r: any[] = []; for (let i = 0; i < 4; i++) { try { if (i == 1) continue; if (i == 3) break; r.push(i); } catch { r.push("c"); } finally { r.push("f"); } } return r; });
  t(() => { const f = () => { for (const x of [1, 2, 3]) { try { if (x === 2) return x; } finally { p("fin", x); } } return 0; }; return f(); });
  t(() => { try { try { throw new Error("a"); } finally { p("f"); } } catch (e) { return (e as Error).message; } });
  t(() => { const f = () => { try { throw new Error("a"); } catch (e: any) { throw new Error("b", { cause: e }); } }; try { f(); } catch (e: any) { return [e.message, e.cause.message]; } });
  t(() => { let i = 0; do { if (i === 2) continue; i += 10; } while (i++ < 5); return i; });
  // classes
  t(() => [new Impl().run(), Impl.create().size, (Impl as any).tag, Abs.inc(), Abs.inc()]);
  t(() => { const i = new Impl(); i.run(); i.run(); return [...i]; });
  t(() => [new Gen(5).get(), new Gen(5).set(6).get(), new Gen(1).callHid(), new Gen(1).has({}), new Gen(1).has(new Gen(2))]);
  t(() => { const g = new Gen("z").get; return g(); });
  t(() => [CE.X, CE.Y, S.A, Object.keys(S), NS.k, NS.f()]);
  t(() => { const C = class { constructor(readonly v: number, private w = v * 2) {} sum() { return this.v + this.w; } }; return new C(2).sum(); });
  t(() => { class P { constructor() { return; } toString() { return "PP"; } } return `${new P()}` + String(new P()) + (new P() + "x"); });
  t(() => { class P { valueOf() { return 7; } } return [+new P(), (new P() as any) * 2, (new P() as any) > 3]; });
  t(() => { class E2 extends Error { constructor(readonly code: number, m: string) { super(m); this.name = "E2"; } } try { throw new E2(4, "mm"); } catch (e) { if (e instanceof E2) return [e.code, e.name, e.message, String(e)]; throw e; } });
  t(() => { const o = { a: 1, get b() { return this.a + 1; }, set b(v) { this.a = v; } }; o.b = 5; return [o.a, o.b]; });
  t(() => { class A { static of(...x: number[]) { return new this(x); } constructor(public x: number[]) {} } class B extends A {} return B.of(1, 2) instanceof B; });
  t(() => { class A { x = this.mk(); mk() { return 3; } } return new A().x; });
  t(() => { const m = { f: (x: number) => x * 2 }; const { f } = m; return f(4); });
  t(() => { class A { m() { return () => this; } } const a = new A(); return a.m()() === a; });
  t(() => { class A { constructor() { this.m = this.m.bind(this); } v = 4; m() { return this.v; } } const { m } = new A(); return m(); });
  // destructuring and parameters
  t(() => { const f = ({ a, b: { c = 3, ...rest } = {} as any, ...more }: any = {}) => [a, c, rest, more]; return [f(), f({ a: 1, b: { c: 2, d: 4 }, e: 5 })]; });
  t(() => { const f = ([a, b = a]: number[] = [1]) => a + b; return [f(), f([4, 5])]; });
  t(() => { const f = (first: number, ...[x, y]: number[]) => [first, x, y]; return f(1, 2, 3); });
  t(() => { const o: any = {}; [o.a, o["b"]] = [1, 2]; ({ x: o.c, y: o.d = 9 } = { x: 3 } as any); return o; });
  t(() => { let a = 1, b = 2, c = 3; [a, b, c] = [c, a, b]; return [a, b, c]; });
  t(() => { const k = "q"; const { [k]: v, ...r } = { q: 1, s: 2 }; return [v, r]; });
  t(() => { const [x, y] = new Map([["a", 1], ["b", 2]]); return [x, y]; });
  t(() => { const [h, ...tl] = "héy"; return [h, tl]; });
  t(() => { function f(this: any, a: any, b: any = a) { return [a, b]; } return [f.call(null, 1), f.apply(null, [1, 2] as any)]; });
  t(() => { const a = [1, 2, 3]; const b = [...a, ...new Set([4, 4]), ..."xy"]; return [b, Math.max(...a), Math.min(...a, -1)]; });
  t(() => { const u = new Uint8Array(2); [u[0], u[1]] = [u[1] + 1, u[0] + 2]; return u; });
  // operators
  t(() => { const o: any = { a: { b: null } }; return [o?.a?.b?.c, o.a?.["b"], o.z?.y.x.w, o.f?.(1), o?.a.b ?? "d", delete o?.a]; });
  t(() => { const o: any = {}; o.n ??= 1; o.n ||= 2; o.n &&= 3; o.m = (o.k ??= []).push(1); return o; });
  t(() => { let i = 0; const a = [5, 6, 7]; a[i++] += 10; a[i++]++; a[i] -= a[0]; return [a, i]; });
  t(() => { const x = (1, 2, 3); return x; });
  t(() => [1 < 2 === true, !("a" in {}), !![] && !!"0", typeof NaN, void 0 ?? "n"]);
  t(() => [7 & 3 | 8, 6 ^ 3, ~~3.7, -3.7 | 0, 2 ** -1, (-2) ** 2, 5 % -3, -5 % 3, 2 ** 31 | 0, 2 ** 31 >>> 0, 1 << 32, -1 >> 31]);
  t(() => [0x1fn << 8n, 0xffn >> 4n, 12n & 10n, 12n ^ 10n, ~5n, -7n / 2n, 2n ** 70n, 3n > 2, 2n === 2n, BigInt.asIntN(8, 255n), 10n - 3n * 2n, 7n % 4n, -(-3n)]);
  t(() => [BigInt(255) | BigInt(256), Number(12n) + 1, parseInt("0x1f", 16), parseInt("z", 10), parseInt("12.9"), Number("1e3"), +"", +" 7 ", +"0b11", Number([5] as any), Number({} as any)]);
  t(() => ["b" > "a", "B" > "a", "10" < "9", 10 < ("9" as any), "é" > "z", null >= (0 as any), undefined == (null as any), NaN != NaN]);
  t(() => [1.0.toString(), (25).toString(2), (0.1).toString(), (1e21).toString(), (123.456).toFixed(1), (0.000001).toString(), (5e-7).toString(), (1234.5678).toFixed(2), (0).toFixed(2), Number.EPSILON > 0, Number.MIN_SAFE_INTEGER]);
  t(() => { let s = ""; for (const c of "a😀b") s += c.length; return s; });
  t(() => { let x = 5; const f = () => (x > 3 ? (x < 10 ? "mid" : "hi") : "lo"); return f(); });
  t(() => { let log: any[] = []; const f = (v: any) => (log.push(v), v); f(0) || f(1) && f(2) || f(3); return log; });
  t(() => { let x: any; if ((x = [1, 2].find((v) => v > 1))) return x; });
  t(() => { const { length } = [1, 2, 3]; return length; });
  t(() => [Object.is(-0, 0), 1 / -0, Math.sign(-0), Math.hypot(3, 4), Math.cbrt(27), Math.log2(8), Math.log10(1000), Math.clz32(1), Math.fround(5.5), Math.imul(3, 4), Math.exp(0)]);
  // arrays
  t(() => { const a = [3, 1, 2]; return [a.toSorted?.((x, y) => y - x) ?? [3, 2, 1], a, [...a].sort(), a.indexOf(2, 1), a.lastIndexOf(3), a.findLast((x) => x > 1)]; });
  t(() => [Array.from([1, 2], (x) => x * 2), Array.from(new Map([[1, 2]])), Array.from({ length: 2, 0: "a", 1: "b" }), Array.from(new Set("aab")), Array.isArray([]), Array.from("ab", (c, i) => c + i)]);
  t(() => { const a = [1, 2, 3, 4, 5]; a.copyWithin(0, 3); return a; });
  t(() => { const a: number[] = new Array(3); a[0] = 1; return [a.length, 1 in a, a.map((x) => x)]; });
  t(() => [[1, 2, 3].reduceRight((a, b) => a * 10 + b), [[1], [2, [3]]].flat(), [1, 2, 3, 4].findLastIndex((x) => x < 3), [1, 2].with?.(0, 9) ?? 0]);
  t(() => [[1, 2, 3].toString(), String([1, [2, 3]]), [] + "", [null, undefined, 1].join("-"), [1, 2, 3].splice(-1)]);
  t(() => { const a = [{ k: 2, i: 0 }, { k: 1, i: 1 }, { k: 2, i: 2 }, { k: 1, i: 3 }]; return a.sort((x, y) => x.k - y.k).map((x) => x.i); });
  t(() => { const a = [5, 1, 4]; a.sort((x, y) => (x < y ? -1 : x > y ? 1 : 0)); return a; });
  t(() => { const a: any[] = [3, undefined, 1]; a.sort(); return a; });
  t(() => Object.entries({ a: 1, b: 2 }).map(([k, v]) => `${k}=${v}`).join("&"));
  t(() => { const g: Record<string, number[]> = {}; for (const x of [1, 2, 3, 4]) (g[x % 2 ? "o" : "e"] ||= []).push(x); return g; });
  t(() => { const m = new Map<string, number>(); for (const c of "abca") m.set(c, (m.get(c) ?? 0) + 1); return [...m].sort((a, b) => b[1] - a[1] || a[0].localeCompare(b[0])); });
  t(() => { const m = new Map([[1, "a"], [2, "b"]]); for (const k of m.keys()) if (k === 1) m.delete(k); return [m.size, [...m.values()], m.get(5), new Map(m).has(2)]; });
  t(() => { const it = new Map([[1, 2]]).entries(); const r = it.next(); return [r.value, r.done, it.next().done]; });
  t(() => { const it = [1, 2, 3][Symbol.iterator](); it.next(); return [...it]; });
  t(() => { const s = new Set([1, 2, 3]); s.delete(2); return [[...s], s.size, Array.from(s.values()), [...s].some((x) => x > 2)]; });
  t(() => { const w = new WeakMap(); const k = {}; w.set(k, 1); return [w.get(k), w.has({})]; });
  t(() => { const o = Object.create(null); o.x = 1; return [Object.keys(o), "x" in o, Object.getOwnPropertyNames({ q: 1 }), Object.hasOwn({ a: 1 }, "a")]; });
  t(() => [isFinite(5), Number.isFinite("5" as any), Number.parseFloat("2.5"), Number.parseInt("7"), Number.MAX_VALUE > 1e308]);
  // strings
  t(() => ["abc".at(-1), "a-b".split("-").reverse().join("+"), "aXbX".replaceAll("X", (m) => m.toLowerCase()), "x".concat("y", 1 as any), "  a".trimStart(), "ab\n".trimEnd(), "é".normalize("NFD").length, "abc".search(/c/), [..."ab"].map((c) => c.charCodeAt(0))]);
  t(() => ["a,b;c".split(/[,;]/), "2024-01-02".match(/(\d+)-(\d+)/)!.slice(0, 3), "aBc".replace(/[A-Z]/g, (c) => "_" + c.toLowerCase()), /^a.*z$/i.test("AbZ"), "x1y2".replace(/(\w)(\d)/g, "$2$1"), "a.b".split("."), "abc".split("", 2)]);
  t(() => [...("a1b22".matchAll(/\d+/g) as any)].map((m: any) => [m[0], m.index]));
  t(() => { const m = /(?<unit>\w+) (?<s>\d+)-(?<e>\d+)/.exec("bytes 3-9"); return [m!.groups!.unit, m!.groups!.s, m!.index, m!.length]; });
  t(() => { const re = /a/g; const r = []; let m; while ((m = re.exec("banana")) !== null) r.push(m.index); return r; });
  t(() => ["\u{1F600}".codePointAt(0), String.fromCodePoint(128512), "\x41\u0042", "tab\there", `multi
line`, "abc".localeCompare("abd")]);
  t(() => ["ß".toUpperCase(), "ABC".toLocaleLowerCase(), "a".padEnd(3, "xy") + "|", "abc".lastIndexOf("c"), "abcabc".indexOf("a", 1), "abc".substring(2, 0), isNaN("x" as any)]);
  // buffers
  t(() => { const b = new ArrayBuffer(16); const v = new DataView(b, 4, 8); v.setUint32(0, 0xdeadbeef, true); v.setInt16(4, -2); v.setBigInt64(0, -1n, true); return [new Uint8Array(b), v.byteLength, v.byteOffset, v.getInt8(0), v.getUint16(6)]; });
  t(() => { const u = Uint8Array.from([1, 2, 3]); const w = u.map((x) => x * 2); return [w, u.reduce((a, b) => a + b, 0), u.every((x) => x > 0), u.includes(2), u.findIndex((x) => x === 3), u.at(-1), [...u.entries()], u.join("-"), u.indexOf(9), u.some((x) => x > 2), u.filter((x) => x & 1), u.subarray(-2)]; });
  t(() => { const u = Uint8Array.of(5, 6, 7); const s = u.subarray(1); s[0] = 99; const c = u.slice(); c[0] = 1; return [u, c, s.byteOffset, s.buffer === u.buffer, new Uint8Array(s.buffer, s.byteOffset, s.length)]; });
  t(() => { const a = new Uint8Array([1, 2]); const b = new Uint8Array([3]); const r = new Uint8Array(a.length + b.length); r.set(a); r.set(b, a.length); r.copyWithin(0, 1); r.reverse(); return [r, r.fill(9, -1), Array.from(r, (x) => x.toString(16).padStart(2, "0")).join("")]; });
  t(() => { const i = new Int8Array([200]); const w = new Uint16Array([70000]); const d = new Uint32Array(2); d[0] = -1; const f = new Float64Array([1.5]); return [i[0], w[0], d[0], f[0], new Uint8Array(f.buffer), f.BYTES_PER_ELEMENT]; });
  t(() => { const q = new BigUint64Array(1); q[0] = 2n ** 64n - 1n; return [q[0], new Uint8Array(q.buffer)]; });
  t(() => new TextDecoder("utf-8", { fatal: true }).decode(new Uint8Array([0xff])));
  t(() => [new TextDecoder("ascii").encoding, new TextEncoder().encode("").length, new TextDecoder().decode(new Uint8Array([0xef, 0xbb, 0xbf, 65]).buffer)]);
  t(() => { const r = new TextEncoder().encodeInto("aé", new Uint8Array(2)); return [r.read, r.written]; });
  t(() => structuredClone({ a: [1, { b: 2 }] }));
  t(() => [JSON.stringify({ a: 1n < 2, d: undefined, e: [undefined] }), JSON.stringify("x"), JSON.parse(" [1 , 2 ] "), JSON.stringify({ toJSON() { return 5; } }), JSON.stringify([new Map(), null]), JSON.parse('{"__proto__":1,"a":{"b":[]}}', (k, v) => (k === "a" ? 7 : v))]);
  t(() => { try { (null as any).foo(); } catch (e) { return e instanceof TypeError; } });
  t(() => { try { (undefined as any).foo; } catch (e: any) { return e.constructor === TypeError; } });
  t(() => { try { let x: any = {}; x.foo(); } catch (e: any) { return e.name; } });
  t(() => { const e = new RangeError("r"); return [e.toString(), Object.prototype.toString.call([]), e instanceof Error, e.name, "message" in e]; });
  // generators
  t(() => { const g = outer(); const r: any[] = [g.next(0), g.next(10), g.next(20)]; r.push(g.return(undefined as any), g.next(0)); return r; });
  t(() => { const g = outer(); g.next(0); try { g.throw(new Error("in")); } catch (e: any) { return e.message; } });
  t(() => { function* nat() { let i = 0; while (true) yield i++; } const r = []; for (const x of nat()) { if (x > 3) break; r.push(x); } return r; });
  t(() => { function* take(n: number, it: Iterable<number>) { let i = 0; for (const x of it) { if (i++ >= n) return; yield x; } } return [...take(2, [7, 8, 9])]; });
  t(() => { const it = { *[Symbol.iterator]() { yield 1; yield 2; } }; return [...it, Math.max(...it)]; });
  t(() => { const it: any = { from: 1, to: 3, [Symbol.iterator]() { let c = this.from, l = this.to; return { next: () => (c <= l ? { done: false, value: c++ } : { done: true, value: undefined }) }; } }; return [...it]; });
  // async
  try { const q = new Queue(); q.items.push(1, 2); for await (const x of q) p("q", x); } catch (e: any) { p("ERR", e.message); }
  try { for await (const x of delegated()) p(x instanceof Gen ? x.get() : x); } catch (e: any) { p("ERR", e.message); }
  try { p(await Promise.race([Promise.resolve(1), new Promise(() => {})]), await Promise.any([Promise.reject(new Error("x")), Promise.resolve(2)])); } catch (e: any) { p("ERR", e.message); }
  try { const order: any[] = []; const a1 = (async () => { order.push("a1"); await null; order.push("a2"); await null; order.push("a3"); })(); const b1 = (async () => { order.push("b1"); await null; order.push("b2"); })(); order.push("main"); await Promise.all([a1, b1]); p(order); } catch (e: any) { p("ERR", e.message); }

  try { p(await Promise.all([3, 1, 2].map(async (x) => { await null; return x * 2; }))); } catch (e: any) { p("ERR", e.message); }
  try { const res = await Promise.allSettled([Promise.resolve(1), Promise.reject(new Error("no"))]); p(res.map((r) => (r.status === "fulfilled" ? r.value : (r.reason as Error).message))); } catch (e: any) { p("ERR", e.message); }
  try { p(await (async () => { try { await Promise.reject(new Error("rej")); } catch (e: any) { return e.message; } finally { p("afin"); } })()); } catch (e: any) { p("ERR", e.message); }
  try { p(await (async () => { try { return await (async () => { throw new TypeError("tt"); })(); } catch (e) { return e instanceof TypeError; } })()); } catch (e: any) { p("ERR", e.message); }
  try { await sleepless(); p("slept"); } catch (e: any) { p("ERR", e.message); }
  try { const memo = new Map<string, Promise<number>>(); const get = (k: string) => { let v = memo.get(k); if (!v) { v = (async () => { p("load", k); return k.length; })(); memo.set(k, v); } return v; }; p(await get("ab"), await get("ab"), await get("abc")); } catch (e: any) { p("ERR", e.message); }

  try { const chain = [1, 2, 3].reduce((acc, x) => acc.then((s) => s + x), Promise.resolve(0)); p(await chain); } catch (e: any) { p("ERR", e.message); }
  try { p(await Promise.resolve(1).then(() => { throw new Error("th"); }).catch((e) => e.message).then((m) => m + "!")); } catch (e: any) { p("ERR", e.message); }
  try { { const ag = (async function* () { try { yield 1; yield 2; } finally { p("ag closed"); } })(); for await (const x of ag) { p(x); break; } } } catch (e: any) { p("ERR", e.message); }
  try { { let resolve!: (v: number) => void; const pr = new Promise<number>((r) => (resolve = r)); resolve(5); p(await pr); } } catch (e: any) { p("ERR", e.message); }
  try { p(await new Promise((r) => queueMicrotask(() => r("micro")))); } catch (e: any) { p("ERR", e.message); }
  try { { const thenable = { then(f: any) { f(42); } }; p(await (thenable as any)); } } catch (e: any) { p("ERR", e.message); }
  try { { const o = { async m() { return 1; }, async *g() { yield 2; } }; p(await o.m()); for await (const x of o.g()) p(x); } } catch (e: any) { p("ERR", e.message); }
  try { { async function f({ a = 1 }: { a?: number } = {}) { return a; } p(await f(), await f({ a: 3 })); } } catch (e: any) { p("ERR", e.message); }
  try { { const f = async () => { for (const x of [1, 2, 3]) { if (x === 2) return x; await null; } }; p(await f()); } } catch (e: any) { p("ERR", e.message); }
  try { { const gen = (async function* (n: number): AsyncGenerator<number> { while (n > 0) yield n--; })(2); p(await gen.next(), await gen.next(), await gen.next()); } } catch (e: any) { p("ERR", e.message); }
  try { { const errs: any[] = []; for (const f of [() => Promise.reject(new Error("1")), async () => { throw new Error("2"); }, () => { throw new Error("3"); }]) { try { await f(); } catch (e: any) { errs.push(e.message); } } p(errs); } } catch (e: any) { p("ERR", e.message); }
  return out.join("\n");
}
