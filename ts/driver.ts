// What the harnesses call in the client. Buffers stand for the files it reads.
import { BPTree, ReferencedValue } from "@repo/bptree/bptree";
import { BPTreeNode } from "@repo/bptree/node";
import { Database } from "@repo/db/database";
import { handleSelect, processWhere } from "@repo/db/query-lang";
import { validateQuery } from "@repo/db/query-validation";

import { DataFile } from "@repo/file/data-file";
import { IndexFile } from "@repo/file/index-file";
import { readFileMeta, readIndexMeta } from "@repo/file/meta";
import { ReadMultiBPTree } from "@repo/file/multi";
import { init } from "@repo/index";
import { NgramTokenizer } from "@repo/ngram/tokenizer";
import { cache } from "@repo/resolver/cache";
import parseMultipartBody from "@repo/resolver/multipart";
import { requestRanges } from "@repo/resolver/range-request";

import { decodeUvarint } from "@repo/util/uvarint";

const file = (buf: any) => async (ranges: { start: number; end: number }[]) => {
  const out: { data: ArrayBuffer; totalLength: number }[] = [];
  if (Array.isArray(buf)) {
    // what comes first, what comes last, and where that starts; zeros between
    const [head, tail, at] = buf;
    const all = at + tail.byteLength;
    for (const { start, end } of ranges) {
      const to = Math.min(end + 1, all);
      if (start >= at) {
        out.push({ data: tail.slice(start - at, to - at), totalLength: all });
        continue;
      }
      const b = new Uint8Array(to - start);
      if (start < head.byteLength) b.set(new Uint8Array(head.slice(start, to)));
      if (to > at) b.set(new Uint8Array(tail.slice(0, to - at)), at - start);
      out.push({ data: b.buffer, totalLength: all });
    }
    return out;
  }
  for (const { start, end } of ranges) out.push({ data: buf.slice(start, end + 1), totalLength: buf.byteLength });
  return out;
};

export function uvarint(buf: ArrayBuffer) {
  const r = decodeUvarint(buf);
  return [r.value, r.bytesRead];
}

export async function fileMeta(buf: ArrayBuffer) {
  const r = await readFileMeta(buf);
  return [r.version, r.format, r.readOffset, r.entries];
}

export function indexMeta(buf: ArrayBuffer) {
  const r = readIndexMeta(buf);
  return [r.fieldName, r.fieldType, r.width, r.totalFieldValueLength];
}

export async function node(tree: any, at: number, data: ArrayBuffer, format: number, type: number, width: number) {
  const { node: n } = await BPTreeNode.fromMemoryPointer({ offset: BigInt(at), length: 0 }, file(tree), file(data), format, type, width);
  const out: any[] = [];
  for (const k of n.keys) out.push([k.dataPointer.offset, k.dataPointer.length, k.value]);
  const ptrs: any[] = [];
  for (let i = 0; i < n.numPointers(); i++) ptrs.push([n.pointer(i).offset, n.pointer(i).length]);
  return [n.leaf(), out, ptrs];
}

// linked are the pages of a chain: metadata and root of each.
export async function linked(index: any, max: number) {
  let p: any = ReadMultiBPTree(file(index), 0);
  const out: any[] = [];
  for (let i = 0; i < max && p; i++) {
    const r = await p.root();
    out.push([await p.metadata(), r.offset, r.length]);
    p = await p.next();
  }
  return out;
}

export async function open(index: any) {
  const f = await IndexFile.forResolver(file(index));
  const m = await f.metadata();
  const hs: any[] = [];
  for (const h of await f.indexHeaders()) hs.push([h.fieldName, h.fieldTypes]);
  return [m.version, m.format, m.readOffset, m.entries, hs];
}

export async function seek(index: any, name: string, type: number) {
  const f = await IndexFile.forResolver(file(index));
  const out: any[] = [];
  for (const p of await f.seek(name, type)) {
    const r = await p.root();
    out.push([r.offset, await p.metadata()]);
  }
  return out;
}

// query asks the database for records, with the query builder or without.
export async function query(data: ArrayBuffer, index: any, built: boolean, key: string, op: any, value: any, dir: any, select: any) {
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(file(data)), await IndexFile.forResolver(file(index)));
  let it: any;
  if (built) {
    let b = db.where(key, op, value);
    if (dir) b = b.orderBy(key, dir);
    if (select) b = b.select(select);
    it = b.get();
  } else {
    const q: any = { where: [{ key, operation: op, value }] };
    if (dir) q.orderBy = [{ key, direction: dir }];
    if (select) q.select = select;
    it = db.query(q);
  }
  const out: any[] = [];
  for await (const r of it) out.push(JSON.stringify(r));
  return out;
}

// treeQuery is a query on one tree, with the index file around it made up.
export async function treeQuery(data: ArrayBuffer, tree: any, root: number, meta: ArrayBuffer, entries: number, op: any, value: any, dir: any) {
  const { fieldName, fieldType } = readIndexMeta(meta);
  const page: any = { root: async () => ({ offset: BigInt(root), length: 0 }), metadata: async () => meta };
  const f: any = {
    getResolver: () => file(tree),
    metadata: async () => ({ version: 1, format: 0, readOffset: BigInt(data.byteLength), entries }),
    indexHeaders: async () => [{ fieldName, fieldTypes: [fieldType] }],
    seek: async () => [page],
    tree: unmodelled,
    fetchMetaPages: unmodelled,
  };
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(file(data)), f);
  const q: any = { where: [{ key: fieldName, operation: op, value }] };
  if (dir) q.orderBy = [{ key: fieldName, direction: dir }];
  const out: any[] = [];
  for await (const r of db.query(q)) out.push(JSON.stringify(r));
  return out;
}

// search searches, with the given numbers as the random ones.
export async function search(data: ArrayBuffer, index: any, key: string, like: string, gram: any, random: number[]) {
  let i = 0;
  Math.random = () => (i < random.length ? random[i++] : 0);
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(file(data)), await IndexFile.forResolver(file(index)));
  const out: any[] = [];
  for await (const r of gram ? db.search(key, like, { minGram: gram[0], maxGram: gram[1] }) : db.search(key, like)) out.push([(r as any).data, (r as any).score]);
  return out;
}

const treeOf = (tree: any, root: number, data: ArrayBuffer, format: number, type: number, width: number) =>
  new BPTree(file(tree), { root: async () => ({ offset: BigInt(root), length: 0 }) }, file(data), format, type, width, 0);

export async function find(tree: any, root: number, data: ArrayBuffer, format: number, type: number, width: number, key: ArrayBuffer, off: bigint, len: number) {
  const [k, p] = await treeOf(tree, root, data, format, type, width).find(new ReferencedValue({ offset: off, length: len }, key));
  return [k.value, k.dataPointer.offset, k.dataPointer.length, p.offset, p.length];
}

// walk goes from a key, n steps of which the bits of back say which go back.
export async function walk(tree: any, root: number, data: ArrayBuffer, format: number, type: number, width: number, key: ArrayBuffer, off: bigint, len: number, back: boolean, n: number) {
  const it = treeOf(tree, root, data, format, type, width).iter(new ReferencedValue({ offset: off, length: len }, key));
  const out: any[] = [];
  while (out.length < n && (back ? await it.prev() : await it.next())) out.push([it.getKey().value, it.getPointer().offset, it.getPointer().length]);
  return out;
}

export async function ends(tree: any, root: number, data: ArrayBuffer, format: number, type: number, width: number) {
  const t = treeOf(tree, root, data, format, type, width);
  const a = await t.first(), b = await t.last();
  return [a.value, a.dataPointer.offset, b.value, b.dataPointer.offset];
}

export function tokens(s: string, min: number, max: number) {
  const out: any[] = [];
  for (const t of new NgramTokenizer(min, max).tokens(s)) out.push([t.value, t.valueBuf, t.type]);
  return out;
}

export function where(v: any) {
  const r = processWhere<any>(v);
  return r === null ? null : [r.fieldType, r.valueBuf];
}

export function select(data: string, fields: any) {
  return JSON.stringify(handleSelect<any>(data, fields));
}

// ask builds a query of conditions (key, operator, value), orders (key,
// direction), selected fields and a search (key, phrase, gram lengths).
const ask = (where: any, orderBy: any, select: any, search: any) => {
  const q: any = {};
  if (where !== undefined) q.where = where.map(([key, operation, value]: any) => ({ key, operation, value }));
  if (orderBy !== undefined) q.orderBy = orderBy.map(([key, direction]: any) => ({ key, direction }));
  if (select !== undefined) q.select = select;
  if (search !== undefined) {
    q.search = { key: search[0], like: search[1] };
    if (search[2] !== undefined) q.search.config = { minGram: search[2][0], maxGram: search[2][1] };
  }
  return q;
};

// validate validates a query against headers (name, types) and returns the gram
// lengths of its search.
export function validate(headers: any[], where: any, orderBy: any, select: any, search: any) {
  const q = ask(where, orderBy, select, search);
  validateQuery<any>(q, headers.map(([fieldName, fieldTypes]: any) => ({ fieldName, fieldTypes })));
  return q.search ? [q.search.config.minGram, q.search.config.maxGram] : [];
}

// refused asks the database and says whether it failed and how many records came before.
export async function refused(data: ArrayBuffer, index: any, where: any, orderBy: any, select: any, search: any) {
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(file(data)), await IndexFile.forResolver(file(index)));
  let n = 0;
  try {
    for await (const _ of db.query(ask(where, orderBy, select, search))) n++;
  } catch (e) {
    return [true, n];
  }
  return [false, n];
}

// flaky asks one database several things, while some of its requests fail: those
// from the one numbered from up to the one numbered upto. It returns for each
// whether a request failed, whether it failed itself, and what it yielded.
export async function flaky(data: ArrayBuffer, index: any, asks: any[], from: number, upto: number) {
  let n = 0,
    hit = false;
  const net = (buf: ArrayBuffer) => async (ranges: { start: number; end: number }[]) => {
    const k = n++;
    if (k >= from && k < upto) {
      hit = true;
      throw new Error("network");
    }
    return file(buf)(ranges);
  };
  Math.random = () => 0;
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(net(data)), await IndexFile.forResolver(net(index)));
  const out: any[] = [];
  for (const [where, orderBy, select, search] of asks) {
    const got: any[] = [];
    let failed = false;
    hit = false;
    try {
      if (where === undefined && search === undefined) for (const h of await db.fields()) got.push(h.fieldName + " " + h.fieldTypes.length);
      else for await (const r of db.query(ask(where, orderBy, select, search))) got.push(JSON.stringify(r));
    } catch (e) {
      failed = true;
    }
    out.push([hit, failed, got, n]);
  }
  return out;
}

// built takes steps, each from the builder of the number given: a condition, an
// order, a selection or a limit. It returns what each builder asks afterwards.
export function built(steps: any[]) {
  const db = Database.forDataFileAndIndexFile<any>({} as any, {} as any);
  const bs: any[] = [];
  for (const [from, what, a, b, c] of steps) {
    const on: any = bs.length ? bs[from] : db;
    if (what === "where") bs.push(on.where(a, b, c));
    else if (what === "orderBy") bs.push(on.orderBy(a, b));
    else if (what === "select") bs.push(on.select(a));
    else bs.push(on.limit(a));
  }
  const out: any[] = [];
  for (const b of bs) {
    const q = b.toQuery();
    out.push([
      q.where.map(({ key, operation, value }: any) => [key, operation, value]),
      q.orderBy ? q.orderBy.map(({ key, direction }: any) => [key, direction]) : undefined,
      q.select,
      q.limit,
    ]);
  }
  return out;
}

// unmodelled ends a run that needs something the stand-ins below do not have.
declare const __verifUnmodelled: any;
const unmodelled = (): any => __verifUnmodelled;

// Stand-ins for what fetch returns.
class Reader {
  constructor(private s: Stream) {}
  get closed() {
    return unmodelled();
  }
  async read() {
    return this.s.next();
  }
  async cancel() {
    this.s.drop();
  }
  releaseLock() {
    this.s.locked = false;
  }
}

class Stream {
  locked = false;
  private i = 0;
  constructor(private chunks: ArrayBuffer[]) {}
  async next() {
    if (this.i < this.chunks.length) return { done: false, value: new Uint8Array(this.chunks[this.i++].slice(0)) };
    return { done: true, value: undefined };
  }
  drop() {
    this.i = this.chunks.length;
  }
  async cancel() {
    this.drop();
  }
  getReader(how?: any) {
    if (how && how.mode) unmodelled();
    if (this.locked) throw new TypeError("the stream is locked");
    this.locked = true;
    return new Reader(this);
  }
  async *[Symbol.asyncIterator]() {
    for (;;) {
      const { done, value } = await this.next();
      if (done) return;
      yield value;
    }
  }
  values() {
    return this[Symbol.asyncIterator]();
  }
  tee() {
    return unmodelled();
  }
  pipeTo() {
    return unmodelled();
  }
  pipeThrough() {
    return unmodelled();
  }
}

class Heads {
  private hs: string[][] = [];
  constructor(init?: any) {
    if (!init) return;
    if (init instanceof Heads) for (const [k, v] of init.hs) this.append(k, v);
    else if (Array.isArray(init)) for (const [k, v] of init) this.append(k, v);
    else for (const k of Object.keys(init)) this.append(k, init[k]);
  }
  append(k: string, v: any) {
    if (this.has(k)) unmodelled();
    this.hs.push([k.toLowerCase(), String(v).trim()]);
  }
  set(k: string, v: any) {
    this.delete(k);
    this.append(k, v);
  }
  delete(k: string) {
    this.hs = this.hs.filter(([n]) => n !== k.toLowerCase());
  }
  get(k: string): string | null {
    const h = this.hs.find(([n]) => n === k.toLowerCase());
    return h ? h[1] : null;
  }
  has(k: string) {
    return this.hs.some(([n]) => n === k.toLowerCase());
  }
  private sorted() {
    return [...this.hs].sort((a, b) => (a[0] < b[0] ? -1 : 1));
  }
  entries() {
    return this.sorted().values();
  }
  keys() {
    return this.sorted().map(([k]) => k).values();
  }
  values() {
    return this.sorted().map(([, v]) => v).values();
  }
  forEach(f: (v: string, k: string, h: any) => void) {
    for (const [k, v] of this.sorted()) f(v, k, this);
  }
  [Symbol.iterator]() {
    return this.entries();
  }
  getSetCookie() {
    return unmodelled();
  }
}

class Answer {
  readonly headers: Heads;
  readonly body: Stream;
  readonly redirected = false;
  readonly type = "basic";
  bodyUsed = false;
  constructor(readonly status: number, private hs: string[][], private chunks: ArrayBuffer[], readonly url: string) {
    this.headers = new Heads(hs);
    this.body = new Stream(chunks);
  }
  get ok() {
    return this.status >= 200 && this.status < 300;
  }
  get statusText() {
    return unmodelled();
  }
  private async all() {
    if (this.bodyUsed) throw new TypeError("the body was read before");
    this.bodyUsed = true;
    let n = 0;
    for (const c of this.chunks) n += c.byteLength;
    const b = new Uint8Array(n);
    n = 0;
    for await (const c of this.body) {
      b.set(c!, n);
      n += c!.byteLength;
    }
    return b;
  }
  async arrayBuffer() {
    return (await this.all()).buffer;
  }
  async bytes() {
    return this.all();
  }
  async text() {
    return new TextDecoder().decode(await this.all());
  }
  async json() {
    return JSON.parse(await this.text());
  }
  clone() {
    return new Answer(this.status, this.hs, this.chunks, this.url);
  }
  blob() {
    return unmodelled();
  }
  formData() {
    return unmodelled();
  }
}

// multipart are the parts of a body, and whether it ends well.
export async function multipart(type: string, chunks: ArrayBuffer[]) {
  const out: any[] = [];
  let ok = true;
  try {
    for await (const p of parseMultipartBody(type, new Stream(chunks) as any)) out.push(p.data);
  } catch (e) {
    ok = false;
  }
  return [ok, out];
}

// cached asks a caching resolver over a file for the ranges of each request, in
// order. The n-th request that reaches the file fails if fails[n] says so.
export async function cached(buf: ArrayBuffer, requests: number[][][], fails: boolean[]) {
  let n = 0,
    failed = false;
  const r = cache(async (ranges) => {
    failed = n < fails.length && fails[n++];
    if (failed) throw new Error("network");
    return file(buf)(ranges);
  });
  const out: any[] = [];
  for (const ranges of requests) {
    let got: any[] | null = [];
    failed = false;
    try {
      for (const x of await r(ranges.map(([start, end]) => ({ start, end })))) got.push([x.data, x.totalLength]);
    } catch (e) {
      got = null;
    }
    out.push([failed, got]);
  }
  return out;
}

// ranges requests ranges of a server whose response to the request for all of
// them is the given one. It answers requests for single ranges from the file,
// except the odd-th one: not at all (1), with more or other bytes (2, 3), or whole (4).
export async function ranges(file: ArrayBuffer, asked: number[][], multi: boolean, status: number, headers: string[][], chunks: ArrayBuffer[], odd: number, how: number) {
  const log: any[] = [];
  let singles = 0;
  const g = globalThis as any;
  g.Headers = Heads;
  g.fetch = async (url: any, init: any) => {
    if (typeof url !== "string" && !(url instanceof URL)) unmodelled();
    if (init.method && init.method !== "GET") unmodelled();
    const r = new Heads(init.headers).get("Range")!;
    log.push(r);
    if (multi && log.length === 1) return new Answer(status, headers, chunks, String(url));
    let [lo, hi] = r.slice("bytes=".length).split("-").map(Number);
    const n = file.byteLength;
    if (singles++ === odd) {
      if (how === 1) return new Answer(416, [["Content-Range", "bytes */" + n]], [new Uint8Array([110, 111]).buffer], String(url));
      if (how === 2) {
        lo = 0;
        hi = n - 1;
      }
      if (how === 3) lo++;
      if (how === 4) return new Answer(200, [], [file], String(url));
    }
    return new Answer(206, [["Content-Range", "bytes " + lo + "-" + hi + "/" + n]], [file.slice(lo, hi + 1)], String(url));
  };
  const out: any[] = [];
  for (const { data, totalLength } of await requestRanges("http://x/y", asked.map(([start, end]) => ({ start, end })), { useMultipartByteRanges: multi })) out.push([data, totalLength]);
  return [log, out];
}

// net opens a database by the addresses of its files (or, where direct says so,
// with resolvers) and asks it. The server answers requests for several ranges in
// parts (0), in parts in reverse (1), with the whole file (2), with one part that
// spans all of them (3), or refuses them (4), and it refuses the request numbered odd.
export async function net(data: ArrayBuffer, index: any, direct: boolean[], config: number, how: number, odd: number, asks: any[]) {
  const files: any = { "http://x/data": data, "http://x/index": index };
  let n = 0;
  const g = globalThis as any;
  g.Headers = Heads;
  g.fetch = async (url: any, init: any) => {
    if (typeof url !== "string" && !(url instanceof URL)) unmodelled();
    if (init.method && init.method !== "GET") unmodelled();
    const f = files[String(url)];
    if (n++ === odd) return new Answer(503, [], [], String(url));
    if (!f) return new Answer(404, [], [], String(url));
    const size = f.byteLength;
    const r = new Heads(init.headers).get("Range");
    if (!r) return new Answer(200, [], [f], String(url));
    const rs: number[][] = [];
    for (const x of r.slice("bytes=".length).split(",")) {
      const [lo, hi] = x.trim().split("-").map(Number);
      if (lo < size && lo <= hi) rs.push([lo, Math.min(hi, size - 1)]);
    }
    if (rs.length === 0) return new Answer(416, [["Content-Range", "bytes */" + size]], [], String(url));
    const span = (lo: number, hi: number) => "bytes " + lo + "-" + hi + "/" + size;
    if (rs.length > 1 && how === 4) return new Answer(400, [], [], String(url));
    if (rs.length > 1 && how === 2) return new Answer(200, [["Content-Type", "text/plain"]], [f], String(url));
    if (rs.length > 1 && how !== 3) {
      if (how === 1) rs.reverse();
      const body: number[] = [];
      const text = (t: string) => new TextEncoder().encode(t).forEach((b) => body.push(b));
      for (const [lo, hi] of rs) {
        text("\r\n--cut\r\nContent-Type: text/plain\r\nContent-Range: " + span(lo, hi) + "\r\n\r\n");
        new Uint8Array(f.slice(lo, hi + 1)).forEach((b) => body.push(b));
      }
      text("\r\n--cut--\r\n");
      return new Answer(206, [["Content-Type", "multipart/byteranges; boundary=cut"]], [new Uint8Array(body).buffer], String(url));
    }
    let [lo, hi] = rs[0];
    for (const [a, b] of rs) {
      lo = Math.min(lo, a);
      hi = Math.max(hi, b);
    }
    return new Answer(206, [["Content-Type", "text/plain"], ["Content-Range", span(lo, hi)]], [f.slice(lo, hi + 1)], String(url));
  };
  Math.random = () => 0;
  const db = await init(direct[0] ? file(data) : "http://x/data", direct[1] ? file(index) : "http://x/index", [undefined, { useMultipartByteRanges: true }, { useMultipartByteRanges: false }, {}][config]);
  const out: any[] = [];
  for (const [where, orderBy, select, search] of asks) {
    const got: any[] = [];
    let failed = false;
    const before = n;
    try {
      if (where === undefined && search === undefined) for (const h of await db.fields()) got.push(h.fieldName + " " + h.fieldTypes.length);
      else for await (const r of db.query(ask(where, orderBy, select, search))) got.push(JSON.stringify(r));
    } catch (e) {
      failed = true;
    }
    out.push([before <= odd && odd < n, failed, got, n]);
  }
  return out;
}

// together asks one database several things at once. Requests wait until nothing
// else goes on, then one of them is answered: the oldest, or from the turn numbered
// from up to the one numbered upto the newest. The request numbered odd fails. In
// the end the first question is asked once more. It returns for each whether it came
// to an end, whether it failed and what it yielded, and the number of requests.
export async function together(data: ArrayBuffer, index: any, asks: any[], from: number, upto: number, odd: number) {
  let n = 0;
  const queue: (() => void)[] = [];
  const net = (buf: ArrayBuffer) => (ranges: { start: number; end: number }[]) =>
    new Promise<any>((answer, refuse) => {
      queue.push(() => (n++ === odd ? refuse(new Error("network")) : answer(file(buf)(ranges))));
    });
  const idle = () => new Promise<any>((r) => setTimeout(r, 0));
  Math.random = () => 0;
  // serve answers requests until nothing waits for any.
  let turn = 0;
  const serve = async () => {
    for (;;) {
      await idle();
      if (queue.length === 0) return;
      const k = from <= turn && turn < upto ? queue.length - 1 : 0;
      turn++;
      queue.splice(k, 1)[0]();
    }
  };
  const opened = IndexFile.forResolver(net(index));
  await serve();
  const db = Database.forDataFileAndIndexFile<any>(DataFile.forResolver(net(data)), await opened);
  const out: any[] = [];
  const one = async ([where, orderBy, select, search]: any[]) => {
    const r: any[] = [false, false, []];
    out.push(r);
    try {
      if (where === undefined && search === undefined) for (const h of await db.fields()) r[2].push(h.fieldName + " " + h.fieldTypes.length);
      else for await (const x of db.query(ask(where, orderBy, select, search))) r[2].push(JSON.stringify(x));
    } catch (e) {
      r[1] = true;
    }
    r[0] = true;
  };
  for (const a of asks) one(a);
  await serve();
  const all = n;
  one(asks[0]);
  await serve();
  return [out, all];
}

// far asks a database of which the first base bytes of the data file are not there.
export async function far(data: ArrayBuffer, index: any, base: number, asks: any[]) {
  const rest = file(data);
  const db = Database.forDataFileAndIndexFile<any>(
    DataFile.forResolver(async (ranges) => {
      const rs: any[] = [];
      for (const { start, end } of ranges) {
        if (start < base || end < base) throw new Error("a range before the data");
        rs.push({ start: start - base, end: end - base });
      }
      const out: any[] = [];
      for (const { data, totalLength } of await rest(rs)) out.push({ data, totalLength: totalLength + base });
      return out;
    }),
    await IndexFile.forResolver(file(index)),
  );
  Math.random = () => 0;
  const out: any[] = [];
  for (const [where, orderBy, select, search] of asks) {
    const got: any[] = [];
    for await (const r of db.query(ask(where, orderBy, select, search))) got.push(JSON.stringify(r));
    out.push(got);
  }
  return out;
}
