const out: string[] = [];
function p(...a: any[]) { out.push(a.map((x) => { try { return show(x); } catch (e: any) { return "ERR " + e.message; } }).join(" ")); }
function show(x: any): string {
  if (x === undefined) return "undefined";
  if (x === null) return "null";
  if (typeof x === "bigint") return x.toString() + "n";
  if (typeof x === "function") return "fn";
  if (typeof x === "number" && Object.is(x, -0)) return "-0";
  if (x instanceof Uint8Array) return "u8[" + Array.from(x).join(",") + "]";
  if (x instanceof ArrayBuffer) return "ab[" + Array.from(new Uint8Array(x)).join(",") + "]";
  if (x instanceof Map) return "map" + show(Array.from(x));
  if (x instanceof Set) return "set" + show([...x]);
  if (Array.isArray(x)) return "[" + x.map(show).join(",") + "]";
  if (x instanceof Error) return x.name + ":" + x.message;
  if (typeof x === "object") return "{" + Object.entries(x).map(([k, v]) => k + ":" + show(v)).join(",") + "}";
  if (typeof x === "string") return JSON.stringify(x);
  return String(x);
}
function t(f: () => any) { try { p(f()); } catch (e: any) { p("threw", e.name, e instanceof TypeError || e instanceof RangeError || e instanceof SyntaxError ? "" : e.message); } }
enum E1 { A = 0, B = 1, C }
class Base { x = 1; static s = 5; #priv = 7; constructor(public q: number) {} m() { return this.x + this.q; } get g() { return this.#priv; } set g(v) { this.#priv = v; } static mk() { return new this(3); } }
class Der extends Base { y = 2; constructor() { super(10); } m() { return super.m() * 2; } }
class MyErr extends Error { constructor() { super("mine"); } }
function* gen(n: number) { for (let i = 0; i < n; i++) yield i * i; return 99; }
async function* agen(n: number) { for (let i = 0; i < n; i++) { yield await Promise.resolve(i); } }
async function as1(x: number) { if (x > 2) throw new Error("big " + x); return x; }
export async function run(): Promise<string> {
  t(() => [1, 2, 3].map((x) => x * 2));
  t(() => [3, 1, 2, 10].sort());
  t(() => [3, 1, 2, 10].sort((a, b) => a - b));
  t(() => [1, [2, [3, [4]]]].flat(Infinity as any));
  t(() => [1, 2, 3, 4].reduce((a, b) => a + b));
  t(() => [1, 2, 3, 4].reduce((a, b) => a + b, ""  as any));
  t(() => [1, 2, 3, 4].filter((x) => x % 2));
  t(() => [[1, 2], [3]].flatMap((x) => x));
  t(() => [1, 2, 3].includes(2)); t(() => [1, 2, 3].indexOf(4)); t(() => [1, 2, 3].find((x) => x > 1)); t(() => [1, 2, 3].findIndex((x) => x > 5));
  t(() => [1, 2, 3].some((x) => x > 2)); t(() => [1, 2, 3].every((x) => x > 2)); t(() => [1, 2, 3].at(-1)); t(() => [1, 2, 3].slice(-2)); t(() => { const a = [1, 2, 3, 4]; const r = a.splice(1, 2, 9, 8, 7); return [a, r]; });
  t(() => [1, 2, 3].join("-")); t(() => [1, null, undefined, "x"].join()); t(() => [1, 2].concat([3], 4 as any)); t(() => [1, 2, 3].reverse()); t(() => { const a = [1]; a.push(2, 3); a.unshift(0); return [a.pop(), a.shift(), a, a.length]; });
  t(() => new Array(3).fill(0)); t(() => Array.from({ length: 3 }, (_, i) => i * 2)); t(() => Array(3).length); t(() => Array.of(1, 2)); t(() => [...Array(3).keys()]); t(() => Array.from("héllo😀")); t(() => { const a: any[] = []; a[3] = 1; return a.length; });
  t(() => { const a = [1, 2, 3]; a.length = 1; return a; }); t(() => [1, 2, 3].entries().next()); t(() => { const r = []; for (const [i, x] of ["a", "b"].entries()) r.push(i + x); return r; });
  t(() => "abc".charCodeAt(1)); t(() => "abc"[1]); t(() => "abc"[9]); t(() => "a,b,c".split(",")); t(() => "a,b,c".split(",", 2)); t(() => "abc".split("")); t(() => " x ".trim()); t(() => "abc".toUpperCase()); t(() => "ABC".toLowerCase()); t(() => "İ".toLowerCase().length);
  t(() => "abcdef".slice(1, -1)); t(() => "abcdef".substring(4, 1)); t(() => "abcdef".substr(-3, 2)); t(() => "abc".padStart(5, "*")); t(() => "abc".repeat(2)); t(() => "abcabc".replace("b", "X")); t(() => "abcabc".replaceAll("b", "X")); t(() => "abc".indexOf("c")); t(() => "abc".startsWith("ab")); t(() => "abc".endsWith("bc")); t(() => "abc".includes("d")); t(() => "a1b22".replace(/\d+/g, (m) => "<" + m + ">")); t(() => "a1b22".match(/\d+/g)); t(() => "a-b_c".split(/[-_]/)); t(() => /^\s*$/.test(" \t\n")); t(() => /(\d+)-(\d+)\/(\d+|\*)/.exec("bytes 1-2/33")!.slice(1)); t(() => "x".codePointAt(0)); t(() => "😀".length); t(() => "😀".charCodeAt(0)); t(() => String.fromCharCode(65, 66)); t(() => String.fromCodePoint(0x1f600)); t(() => "a" < "b"); t(() => "a".localeCompare("b"));
  t(() => 5 / 2); t(() => 7 % 3); t(() => -7 % 3); t(() => 2 ** 10); t(() => 1 / 0); t(() => 0 / 0); t(() => -1 >>> 0); t(() => 1 << 31); t(() => 5 >> 1); t(() => (2 ** 32 + 5) | 0); t(() => ~5); t(() => 5 ^ 3); t(() => 0.1 + 0.2); t(() => 1e21); t(() => 123456789012345680000); t(() => 1e-7); t(() => 2 ** 53); t(() => 2 ** 63); t(() => -(2 ** 63)); t(() => (255).toString(16)); t(() => (3.14159).toFixed(2)); t(() => Number("12")); t(() => Number("")); t(() => Number("x")); t(() => Number(" 12 ")); t(() => Number("0x10")); t(() => Number(null)); t(() => Number(undefined)); t(() => Number(true)); t(() => Number(10n)); t(() => parseInt("12px", 10)); t(() => parseFloat("1.5e3x")); t(() => +"3"); t(() => Number.isInteger(3.0)); t(() => Number.isSafeInteger(2 ** 53)); t(() => Number.MAX_SAFE_INTEGER); t(() => isNaN(NaN)); t(() => Number.isNaN("x" as any)); t(() => -0); t(() => Math.floor(-1.5)); t(() => Math.ceil(1.2)); t(() => Math.round(2.5)); t(() => Math.round(-2.5)); t(() => Math.trunc(-1.7)); t(() => Math.min(1, 2, -3)); t(() => Math.max()); t(() => Math.log(Math.E)); t(() => Math.abs(-3)); t(() => Math.sign(-3)); t(() => Math.pow(2, 0.5)); t(() => 9007199254740991 + 2); t(() => 1 + "2"); t(() => "3" * ("4" as any)); t(() => null + 1 as any); t(() => undefined + 1 as any); t(() => [] + {} as any); t(() => true + true as any);
  t(() => 2n ** 64n - 1n); t(() => 5n / 2n); t(() => -5n % 3n); t(() => BigInt(10)); t(() => BigInt("123")); t(() => BigInt(1.5)); t(() => 5n < 6); t(() => 5n == (5 as any)); t(() => (5n as any) === 5); t(() => BigInt.asUintN(8, 257n)); t(() => Number(2n ** 64n - 1n)); t(() => (1n as any) + 1); t(() => 1n << 40n); t(() => (0xffn & 0x0fn) | 0x100n); t(() => `${5n}`); t(() => typeof 5n); t(() => -5n >> 1n); t(() => 0n ? 1 : 2);
  t(() => null == undefined); t(() => (null as any) === undefined); t(() => (0 as any) == ""); t(() => ("1" as any) == 1); t(() => NaN === NaN); t(() => Object.is(NaN, NaN)); t(() => null ?? 5); t(() => 0 ?? 5); t(() => 0 || 5); t(() => ({} as any)?.a?.b); t(() => (null as any)?.x); t(() => (undefined as any).x); t(() => (undefined as any)()); t(() => typeof null); t(() => typeof undefined); t(() => typeof (() => 1)); t(() => typeof "x"); t(() => typeof {}); t(() => void 0); t(() => "a" in { a: 1 }); t(() => "toString" in {}); t(() => 1 in [5, 6]); t(() => 2 in [5, 6]); t(() => "length" in ("x" as any));
  t(() => ({ a: 1, b: { c: 2 }, ...{ d: 4 } })); t(() => { const { a, ...r } = { a: 1, b: 2, c: 3 }; return [a, r]; }); t(() => { const [a, , b = 5, ...c] = [1, 2, undefined, 4, 5]; return [a, b, c]; }); t(() => { let a = 1, b = 2; [a, b] = [b, a]; return [a, b]; }); t(() => Object.keys({ b: 1, a: 2, 1: 3 })); t(() => Object.values({ b: 1, a: 2 })); t(() => Object.entries({ b: 1 })); t(() => Object.fromEntries([["a", 1]])); t(() => Object.assign({}, { a: 1 }, null, { b: 2 })); t(() => { const o: any = { a: 1 }; delete o.a; return o; }); t(() => ({ get x() { return 5; } }).x); t(() => ({ ["k" + 1]: 2 })); t(() => { const o = { f() { return this.v; }, v: 3 }; return o.f(); }); t(() => Object.prototype.hasOwnProperty.call({ a: 1 }, "a")); t(() => ({ a: 1 }).hasOwnProperty("b")); t(() => Object.freeze({ a: 1 }));
  t(() => E1.B); t(() => E1[1]); t(() => Object.values(E1)); t(() => new Base(4).m()); t(() => new Der().m()); t(() => new Der().g); t(() => { const d = new Der(); d.g = 3; return d.g; }); t(() => Base.mk().q); t(() => Base.s); t(() => new Der() instanceof Base); t(() => { throw new MyErr(); }); t(() => { try { throw new MyErr(); } catch (e) { return [e instanceof MyErr, e instanceof Error, `${e}`]; } }); t(() => { try { return 1; } finally { p("fin"); } }); t(() => { for (const x of [1, 2, 3]) { try { if (x === 2) continue; if (x === 3) break; p(x); } finally { p("f" + x); } } return "end"; }); t(() => { outer: for (let i = 0; i < 3; i++) { for (let j = 0; j < 3; j++) { if (j === 1) continue outer; if (i === 2) break outer; p(i, j); } } return 1; });
  t(() => { switch (3 as number) { case 1: return "a"; case 3: p("three"); case 4: return "b"; default: return "c"; } }); t(() => { switch ("q" as string) { default: p("d"); case "z": return 5; } }); t(() => { let i = 0; do { i++; } while (i < 5); return i; }); t(() => { const fs: any[] = []; for (let i = 0; i < 3; i++) fs.push(() => i); return fs.map((f) => f()); }); t(() => { var s = 0; for (const k in { a: 1, b: 2 }) s += k.length; return s; }); t(() => { const r: any[] = []; for (const k in [7, 8]) r.push(k); return r; });
  t(() => [...gen(4)]); t(() => { const g = gen(2); return [g.next(), g.next(), g.next(), g.next()]; }); t(() => { const m = new Map<any, any>([[1, "a"]]); m.set("x", 2).set(NaN, 3); return [m.get(1), m.has("x"), m.size, m.get(NaN), m, m.delete(1), m.size]; }); t(() => { const s = new Set([1, 2, 2]); s.add(3); return [s.size, s.has(2), s]; }); t(() => { const m = new Map([["a", 1], ["b", 2]]); const r: any[] = []; m.forEach((v, k) => r.push(k, v)); for (const [k, v] of m) r.push(k + v); return [r, [...m.keys()], [...m.values()], [...m.entries()]]; });
  t(() => new Uint8Array([1, 2, 300])); t(() => new Uint8Array([1, 2, 3, 4]).subarray(1, 3)); t(() => new Uint8Array([1, 2, 3, 4]).slice(1)); t(() => { const b = new ArrayBuffer(8); const v = new DataView(b); v.setFloat64(0, -1.5); return [b, v.getFloat64(0), v.getUint8(0), v.getUint16(0, true), v.getInt32(0), v.getBigUint64(0, true)]; }); t(() => new DataView(new ArrayBuffer(2)).getUint32(0)); t(() => new Uint8Array([1, 2, 3]).buffer.slice(1)); t(() => { const u = new Uint8Array(4); u.set([1, 2], 1); u[3] = -1; u[9] = 5; return [u, u[9], u.length, u.byteLength]; }); t(() => { const u = new Uint8Array(4); u.set([1, 2, 3], 2); return u; }); t(() => new TextEncoder().encode("hé😀")); t(() => new TextDecoder().decode(new Uint8Array([104, 195, 169, 255, 0xf0, 0x9f, 0x98]))); t(() => new Uint8Array([3, 1, 2]).sort()); t(() => Array.from(new Uint8Array([1, 2]))); t(() => new Uint8Array(new Uint8Array([5, 6]).buffer, 1, 1)); t(() => ArrayBuffer.isView(new Uint8Array(1))); t(() => [...new Uint8Array([9, 8])]); t(() => Buffer1());
  t(() => JSON.parse('{"a":[1,2.5,"x",null,true],"b":{"c":"\\u00e9\\n"}}')); t(() => JSON.parse("{a:1}")); t(() => JSON.parse("")); t(() => JSON.parse("1 2")); t(() => JSON.stringify({ a: [1, undefined, () => 1], b: undefined, c: NaN, d: "q\"\n", e: { f: 1 } })); t(() => JSON.stringify("\u2028é\u0001")); t(() => JSON.stringify([1n].map(String))); t(() => JSON.stringify({ a: 1, b: [1, 2] }, null, 2)); t(() => JSON.parse("-0")); t(() => JSON.parse("1e400")); t(() => JSON.parse("12345678901234567890"));
  t(() => { const f = function (this: any, ...a: number[]) { return [this, a.length, arguments.length]; }; return f.call(5, 1, 2); }); t(() => Math.max.apply(null, [1, 2])); t(() => { const f = (a: number, b = 2) => a + b; return [f(1), f(1, undefined), f(1, 3), f.length]; }); t(() => { const b = (function (this: any, x: number) { return this.k + x; }).bind({ k: 1 }, 2); return b(); }); t(() => { let x = 5; x += 2; x -= 1; x *= 3; x /= 2; x **= 2; x %= 7; x <<= 2; x >>= 1; x |= 8; x &= 12; x ^= 5; return x; }); t(() => { let x: any = null; x ??= 4; x ||= 5; x &&= 6; return x; }); t(() => { let i = 0; const a = [i++, i++, ++i, i--, --i]; return [a, i]; }); t(() => (1, 2)); t(() => `a${1}b${"x"}${null}${[1, 2]}`); 
  try { p(await as1(1)); p(await as1(5)); } catch (e: any) { p("caught", e.message); }
  const r: number[] = []; for await (const x of agen(3)) r.push(x); p(r);
  p(await Promise.all([1, as1(2), Promise.resolve(3)]));
  try { await Promise.all([as1(1), as1(9)]); } catch (e: any) { p("all", e.message); }
  p(await as1(9).catch((e) => "c:" + e.message).finally(() => p("finally")));
  p(await as1(1).then((x) => x + 1).then((x) => as1(x)));
  p((await Promise.allSettled([as1(1), as1(9)])).map((x) => x.status));
  p(await new Promise((res) => res(4)));
  try { await new Promise((_, rej) => rej(new Error("r"))); } catch (e: any) { p(e.message); }
  for await (const x of [Promise.resolve(1), 2]) p(x);
  const it = agen(2); p(await it.next(), await it.next(), await it.next());
  return out.join("\n");
}
function Buffer1() { return new Uint8Array([1, 2, 3, 4]).fill(7, 1, 3).indexOf(7); }
