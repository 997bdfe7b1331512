// Data sets for the client: generated JSON Lines files, what is in them, and
// their index files as the repository's indexer writes them.
import * as cp from "child_process";
import { Rand, T, show } from "./h";

export const String_ = 0;
export const Number_ = 3;
export const Object_ = 4;
export const Array_ = 5;
export const Boolean_ = 6;
export const Null_ = 7;
export const Trigram_ = 8;
export const Bigram_ = 9;
export const Unigram_ = 10;

// ------------------------------------------------------------- genindex

let server: cp.ChildProcess | undefined;
let waiting: ((line: string) => void)[] = [];
let partial: Buffer[] = [];

/** call asks the repository's Go side, see harness/go/cmd/genindex. */
export function call(q: any): Promise<any> {
  if (!server) {
    server = cp.spawn(process.env.H_GENINDEX!, [], { stdio: ["pipe", "pipe", "inherit"] });
    server.on("error", (e) => {
      throw e;
    });
    server.on("exit", (code) => {
      // an answer that never comes is the machinery's failure, not the code's
      process.stderr.write(`genindex ended with ${code}\n`);
      process.exit(2);
    });
    server.stdout!.on("data", (b: Buffer) => {
      let i;
      while ((i = b.indexOf(10)) >= 0) {
        const line = Buffer.concat([...partial, b.subarray(0, i)]).toString();
        partial = [];
        b = b.subarray(i + 1);
        waiting.shift()!(line);
      }
      if (b.length) partial.push(b);
    });
  }
  const p = new Promise<any>((resolve) => {
    waiting.push((line) => {
      if (waiting.length === 0) {
        // an idle server does not keep the process alive
        server!.unref();
        (server!.stdout as any).unref();
        (server!.stdin as any).unref();
      }
      resolve(JSON.parse(line));
    });
  });
  server.ref();
  (server.stdout as any).ref();
  (server.stdin as any).ref();
  server.stdin!.write(JSON.stringify(q) + "\n");
  return p;
}

export async function buildIndex(data: Buffer, search: string[] = [], prev?: Buffer): Promise<{ index: Buffer; err: string }> {
  const a = await call({
    Op: "index",
    Data: data.toString("base64"),
    Index: prev ? prev.toString("base64") : null,
    Search: search,
    Format: 0,
  });
  return { index: Buffer.from(a.Index ?? "", "base64"), err: a.Err };
}

/** levels is the number of levels of the tallest tree of the index. */
export async function levels(d: DataSet): Promise<number> {
  const x = await call({ Op: "decode", Data: d.data.toString("base64"), Index: d.index.toString("base64") });
  return Math.max(0, ...(x.Fields ?? []).map((f: any) => f.Depth));
}

// ------------------------------------------------------------- values

export interface Val {
  rec: number;
  path: string;
  type: number;
  value: any;
  key: Buffer;
}

export interface DataSet {
  lines: string[];
  data: Buffer;
  records: any[];
  shown: string[];
  /** start and length of each line in bytes, without the newline */
  spans: [number, number][];
  fields: Map<string, Val[]>;
  search: string[];
  index: Buffer;
}

export function numKey(n: number): Buffer {
  const b = Buffer.alloc(8);
  b.writeDoubleBE(n);
  return b;
}

export function typeOf(v: any): number {
  if (v === null) return Null_;
  switch (typeof v) {
    case "string":
      return String_;
    case "number":
    case "bigint":
      return Number_;
    case "boolean":
      return Boolean_;
  }
  return Array.isArray(v) ? Array_ : Object_;
}

export function keyOf(v: any): Buffer {
  switch (typeOf(v)) {
    case String_:
      return Buffer.from(v, "utf8");
    case Number_:
      return numKey(Number(v));
    case Boolean_:
      return Buffer.from([v ? 1 : 0]);
  }
  return Buffer.alloc(0);
}

export function walk(rec: number, v: any, out: Val[], path: string[] = []) {
  for (const k of Object.keys(v)) {
    const x = v[k];
    const p = [...path, k];
    const type = typeOf(x);
    out.push({ rec, path: p.join("."), type, value: x, key: keyOf(x) });
    if (type === Object_) walk(rec, x, out, p);
  }
}

/** describe works out what is in a data file, from its lines alone. */
export function describe(lines: string[], search: string[] = []): DataSet {
  const records = lines.map((l) => JSON.parse(l));
  const fields = new Map<string, Val[]>();
  const spans: [number, number][] = [];
  let at = 0;
  for (let i = 0; i < lines.length; i++) {
    const n = Buffer.byteLength(lines[i]);
    spans.push([at, n]);
    at += n + 1;
    const vals: Val[] = [];
    walk(i, records[i], vals);
    for (const v of vals) {
      const l = fields.get(v.path);
      if (l) l.push(v);
      else fields.set(v.path, [v]);
    }
  }
  return {
    lines,
    data: Buffer.from(lines.map((l) => l + "\n").join("")),
    records,
    shown: records.map(show),
    spans,
    fields,
    search,
    index: Buffer.alloc(0),
  };
}

export async function make(t: T, lines: string[], search: string[] = []): Promise<DataSet> {
  const d = describe(lines, search);
  const { index, err } = await buildIndex(d.data, search);
  if (err) t.fail(`the indexer refused generated data: ${err}`);
  d.index = index;
  t.log(`data (${lines.length} lines), search ${JSON.stringify(search)}:\n${lines.slice(0, 40).join("\n")}`);
  t.count("records_indexed", lines.length);
  return d;
}

/** sparse is make for an index with tall trees: as the indexer would write it, had a node room for a few keys only. */
export async function sparse(t: T, lines: string[], search: string[] = []): Promise<DataSet> {
  const d = await make(t, lines, search);
  const most = t.r.pick([1, 1, 2, 3, 5, 9]);
  const Fan = Array.from({ length: t.r.range(1, 12) }, () => t.r.range(1, most));
  const a = await call({ Op: "sparse", Data: d.data.toString("base64"), Index: d.index.toString("base64"), Fan });
  if (a.Err) t.fail(`the index of generated data cannot be read: ${a.Err}`);
  d.index = Buffer.from(a.Index, "base64");
  t.log(`${a.Depth} levels, with nodes of ${show(Fan)} keys`);
  t.c.max("most_levels", a.Depth);
  return d;
}

/** gaps are what is left out of buffers: so many zero bytes at a place. */
const gaps = new WeakMap<Buffer, { at: number; size: number }>();

/** sizeOf is how long the file is that the buffer stands for. */
export function sizeOf(b: Buffer): number {
  return b.length + (gaps.get(b)?.size ?? 0);
}

/** decode reads an index apart from the code under test. */
export function decode(data: Buffer, index: Buffer): Promise<any> {
  const d = gaps.get(data);
  const x = gaps.get(index);
  return call({ Op: "decode", Data: data.toString("base64"), Index: index.toString("base64"), Base: d?.size ?? 0, At: d?.at ?? 0, GapAt: x?.at ?? 0, Size: x ? x.at + x.size : 0 });
}

const FAR = [2 ** 31 - 4096, 2 ** 32 - 3 * 4096, 2 ** 32 - 4096, 2 ** 32, 5 * 2 ** 30 + 4096];

/**
 * far is make for files that go on past where 31 or 32 bits reach, both of them.
 * The data may have records on both sides of the gap, and then a record and its
 * like are so far from each other that the low bits of where they are agree.
 */
export async function far(t: T, lines: string[], search: string[] = []): Promise<DataSet> {
  let at = 0;
  let base = t.r.pick([...FAR, 2 ** 31, 2 ** 32 - 300, 2 ** 32 + 7]) - t.r.int(200);
  if (lines.length > 0 && t.r.one(2)) {
    const apart = t.r.pick([2 ** 16, 2 ** 20, 2 ** 24, 2 ** 31, 2 ** 32, 2 ** 32, 2 ** 33]);
    const n = t.r.range(1, lines.length);
    const i = t.r.int(n);
    const j = t.r.range(n, lines.length);
    lines = [...lines.slice(0, j), lines[i], ...lines.slice(j)];
    const from = (a: number, b: number) => lines.slice(a, b).reduce((s, l) => s + Buffer.byteLength(l) + 1, 0);
    if (from(i, j) < apart) {
      at = from(0, n);
      base = apart - from(i, j);
      t.count("records_apart");
    }
  }
  const d = describe(lines, search);
  const size = t.r.pick([...FAR, 2 ** 40, 2 ** 52]);
  const a = await call({ Op: "far", Data: d.data.toString("base64"), Search: search, Base: base, At: at, Size: size });
  if (a.Err) t.fail(`the indexer refused generated data: ${a.Err}`);
  d.index = Buffer.from(a.Index, "base64");
  gaps.set(d.data, { at, size: base });
  gaps.set(d.index, { at: a.GapAt, size: size - a.GapAt });
  for (const s of d.spans) if (s[0] >= at) s[0] += base;
  t.log(`a gap of ${base} at ${at} in the data, the index going on at ${size} (${lines.length} lines), search ${JSON.stringify(search)}:\n${lines.slice(0, 40).join("\n")}`);
  t.count("records_indexed", lines.length);
  t.count("far_files");
  return d;
}

// ------------------------------------------------------------- generation

export interface Conf {
  lines: number;
  names: string[];
  /** how many values a field draws from; few make duplicates */
  pool: number;
  types: number[];
  maxFields: number;
  depth: number;
  spaces: number;
  escapes: number;
  negative: boolean;
  words?: string[];
}

const NAMES = ["id", "name", "a", "b", "tag", "size", "ok", "x y", "née", "日本", "A", "fare", "vendor.id", "", "toString", "constructor", "__proto__", "length", "emoji😀", "\ufeffmark", 'q"uote', "back\\slash"];
export const WORDS = ["alpha", "Beta", "gamma", "New", "York", "café", "naïve", "x", "ab", "z9", "data", "DATA", "日本語", "😀", "ﬁne", "Ⅳ", "co-op", "don't", "e.g.", "a1b2c3", "tab\tsep", "nl\nsep", "½"];

export function conf(r: Rand, lines: number): Conf {
  const names = r.shuffle(NAMES).slice(0, r.range(2, 9));
  return {
    lines,
    names,
    pool: r.pick([1, 2, 3, 8, 30, 200, 5000]),
    types: r.pick([
      [String_],
      [Number_],
      [Boolean_, Null_],
      [String_, Number_],
      [String_, Number_, Boolean_, Null_],
      [String_, Number_, Boolean_, Null_, Object_, Array_],
      [String_, Number_, Boolean_, Null_, Object_, Array_],
    ]),
    maxFields: r.range(1, 6),
    depth: r.range(0, 3),
    spaces: r.int(3),
    escapes: r.int(3),
    negative: r.one(8),
  };
}

export function text(r: Rand, c: { words?: string[] } = {}): string {
  switch (r.int(8)) {
    case 0:
      return "";
    case 1:
      return String.fromCharCode(...Array.from({ length: r.range(1, 4) }, () => r.pick([0, 1, 9, 10, 34, 47, 92, 127, 233, 0x3b1, 0x20ac, 0xffff, 97, 65])));
    case 2:
      return "k" + r.int(1000);
    case 3:
      return "prefix".slice(0, r.range(1, 6)) + "x".repeat(r.pick([0, 1, 2, 7, 100]));
    case 4:
      return r.pick(["0", "1", "true", "null", "12", "é", "e\u0301", "😀", "\u{10ffff}", " ", "{}", "[]", '"', "a:b", "a,b"]);
    default:
      return Array.from({ length: r.range(1, 5) }, () => r.pick(c.words ?? WORDS)).join(" ");
  }
}

export function num(r: Rand, negative: boolean): number {
  let n: number;
  switch (r.int(6)) {
    case 0:
      n = r.int(10);
      break;
    case 1:
      n = r.int(2 ** 31) * 2 ** r.int(22);
      break;
    case 2:
      n = r.pick([0, 1, 0.1, 0.5, 1.5, 1e-300, 5e-324, 1.7976931348623157e308, 2 ** 53, 2 ** 53 - 1, 1e21, 1e-7, 255, 256, 65535, 65536]);
      break;
    case 3:
      n = r.next() * 10 ** r.range(-20, 20);
      break;
    default:
      n = r.int(1000) / r.pick([1, 1, 2, 4, 10, 100]);
  }
  return negative && r.one(3) ? -n : n;
}

/** value draws from pool number i of a field, the same every time. */
function scalar(c: Conf, seed: number, type: number): any {
  const r = new Rand(seed);
  r.next();
  switch (type) {
    case String_:
      return text(r, c);
    case Number_:
      return num(r, c.negative);
    case Boolean_:
      return r.one(2);
  }
  return null;
}

function value(r: Rand, c: Conf, fieldSeed: number, depth: number): any {
  const type = r.pick(c.types);
  if (type === Object_) {
    if (depth >= c.depth) return {};
    return object(r, c, fieldSeed, depth + 1);
  }
  if (type === Array_) return Array.from({ length: r.int(4) }, () => value(r, { ...c, types: [String_, Number_, Null_, Object_] }, fieldSeed + 1, depth + 1));
  return scalar(c, (fieldSeed * 7919 + r.int(c.pool)) >>> 0, type);
}

function object(r: Rand, c: Conf, seed: number, depth: number): any {
  const o: any = {};
  const n = r.range(depth === 0 ? 1 : 0, c.maxFields);
  for (const k of r.shuffle(c.names).slice(0, n)) {
    const i = c.names.indexOf(k);
    Object.defineProperty(o, k, {
      value: value(r, c, seed * 31 + i + 1, depth),
      enumerable: true,
      configurable: true,
      writable: true,
    });
  }
  return o;
}

/** write serializes a value with varied spelling that means the same. */
export function write(r: Rand, v: any, spaces: number, escapes: number): string {
  const sp = () => (spaces === 0 ? "" : spaces === 1 ? (r.one(2) ? " " : "") : r.pick(["", "", " ", "  ", "\t", " \t "]));
  const str = (s: string): string => {
    const q = JSON.stringify(s);
    if (escapes === 0) return q;
    let out = '"';
    for (let i = 0; i < s.length; i++) {
      const ch = s[i];
      const code = s.charCodeAt(i);
      if (r.one(escapes === 1 ? 8 : 2)) out += "\\u" + (r.one(2) ? code.toString(16).padStart(4, "0") : code.toString(16).padStart(4, "0").toUpperCase());
      else if (ch === "/" && r.one(2)) out += "\\/";
      else if (code >= 0xd800 && code < 0xdc00 && i + 1 < s.length) {
        out += ch + s[++i];
      } else out += JSON.stringify(ch).slice(1, -1);
    }
    return out + '"';
  };
  const numb = (n: number): string => {
    const s = Object.is(n, -0) ? "-0" : String(n);
    if (escapes === 0 || !r.one(4)) return s;
    const alts = [s, n.toExponential(), Number.isInteger(n) && Math.abs(n) < 1e15 ? s + ".0" : s, s.replace("e", "E")];
    const pick = r.pick(alts);
    return Object.is(Number(pick), n) ? pick : s;
  };
  const go = (x: any): string => {
    switch (typeOf(x)) {
      case String_:
        return str(x);
      case Number_:
        return numb(x);
      case Boolean_:
        return String(x);
      case Null_:
        return "null";
      case Array_:
        return "[" + sp() + x.map(go).join(sp() + "," + sp()) + sp() + "]";
    }
    return (
      "{" +
      sp() +
      Object.keys(x)
        .map((k) => str(k) + sp() + ":" + sp() + go(x[k]))
        .join(sp() + "," + sp()) +
      sp() +
      "}"
    );
  };
  return go(v);
}

export function genLines(r: Rand, c: Conf): string[] {
  const lines: string[] = [];
  for (let i = 0; i < c.lines; i++) lines.push(write(r, object(r, c, 1, 0), c.spaces, c.escapes));
  return lines;
}

/**
 * extreme makes lines of which something is far larger than is usual: nesting,
 * width, values or the line; which it is depends on n.
 */
export function extreme(r: Rand, n: number): string[] {
  const scal = (i: number) => r.pick([i, "v" + i, "v" + r.int(3), true, false, null, r.int(4)]);
  const around = (x: any): string[] => {
    const l = [JSON.stringify(x)];
    while (r.one(2)) l.splice(r.int(l.length + 1), 0, JSON.stringify({ a: scal(1), f1: scal(2), n: scal(3) }));
    return l;
  };
  switch (n % 6) {
    case 0: {
      const o: any = { x: scal(0) };
      let at = o;
      for (let k = r.pick([30, 64, 100]); k > 0; k--) {
        if (r.one(5)) at.s = scal(k);
        at = at.n = {};
      }
      at.x = scal(1);
      return around(o);
    }
    case 1: {
      const o: any = {};
      for (let i = r.pick([127, 128, 255, 256, 257, 600]); i >= 0; i--) o["f" + i] = scal(i % 7);
      return [...around(o), ...around({ ...o, f3: "other" })];
    }
    case 2: {
      const v = r.pick(["é", "xy", "😀", '"', "a b "]).repeat(r.pick([100, 5000, 33000, 70000]));
      return [v, v + "a", v.slice(0, -1), v + "\0", v + v].flatMap((t, i) => around({ i, t, u: scal(i) }));
    }
    case 3: {
      const list = Array.from({ length: r.pick([300, 5000]) }, (_, i) => r.pick<any>([i, [i], { i }, "]", '"}', null]));
      let deep: any = [];
      for (let k = r.pick([100, 1000]); k > 0; k--) deep = [deep];
      return around({ a: scal(0), list, deep, z: scal(1) });
    }
    case 4: {
      // long values that are alike up to their last characters
      const v = r.pick(["x", "ab", "é", "😀"]).repeat(r.pick([30, 60, 130, 256, 511, 1000, 5000, 40000]));
      return r.shuffle(Array.from({ length: r.range(2, 12) }, (_, i) => ({ t: v + r.pick(["a", "b", "ba", "é", "c" + i, "ab", "zz"]), i }))).flatMap(around);
    }
  }
  const l = JSON.stringify({ a: 5, b: "v" });
  const fill = " ".repeat(r.pick([65500, 1 << 17, 1 << 20]));
  return [...around({ a: 1 }), l.replace(",", fill + "," + fill), l, ...around({ b: "v" })];
}

// ------------------------------------------------------------- resolvers

export interface Range {
  start: number;
  end: number;
  expectedLength?: number;
}
export type Resolved = { data: ArrayBuffer; totalLength: number };
export type Resolver = (ranges: Range[]) => Promise<Resolved[]>;

export interface Source {
  resolve: Resolver;
  requests: Range[][];
}

/** cut is what a file answers for ranges; a range outside of it is an error. */
export function cut(b: Buffer, ranges: Range[]): Resolved[] {
  const size = sizeOf(b);
  const gap = gaps.get(b);
  return ranges.map(({ start, end }) => {
    if (!Number.isInteger(start) || !Number.isInteger(end) || start < 0 || end < start || start >= size)
      throw new Error(`range ${start}-${end} of a file of ${size} bytes`);
    if (!gap) return { data: Uint8Array.from(b.subarray(start, end + 1)).buffer, totalLength: size };
    const n = Math.min(end + 1, size) - start;
    if (n > 2 ** 28) throw new Error(`range ${start}-${end} is more than there is`);
    // before the gap, in it and after it
    const out = new Uint8Array(n);
    if (start < gap.at) out.set(b.subarray(start, Math.min(gap.at, start + n)));
    const after = Math.max(start, gap.at + gap.size);
    if (after < start + n) out.set(b.subarray(after - gap.size, start + n - gap.size), after - start);
    return { data: out.buffer, totalLength: size };
  });
}

/** source serves a file at once. */
export function source(b: Buffer): Source {
  const requests: Range[][] = [];
  return {
    requests,
    resolve: async (ranges) => {
      requests.push(ranges.map((x) => ({ ...x })));
      return cut(b, ranges);
    },
  };
}

export async function collect<V>(it: AsyncIterable<V>): Promise<V[]> {
  const out: V[] = [];
  for await (const x of it) out.push(x);
  return out;
}

// ------------------------------------------------------------- queries

export type Op = "<" | "<=" | "==" | ">=" | ">";
export const OPS: Op[] = ["<", "<=", "==", ">=", ">"];
export interface Cond {
  key: string;
  operation: Op;
  value: any;
}

/** less orders values of one type; bits says to order numbers as the index does. */
export function order(a: Val, b: { type: number; key: Buffer; value: any }, bits: boolean): number {
  if (a.type === Number_ && !bits) {
    const x = a.value;
    const y = Number(b.value);
    return x < y ? -1 : x > y ? 1 : 0;
  }
  return Buffer.compare(a.key, b.key);
}

export function holds(o: number, op: Op): boolean {
  switch (op) {
    case "<":
      return o < 0;
    case "<=":
      return o <= 0;
    case "==":
      return o === 0;
    case ">=":
      return o >= 0;
  }
  return o > 0;
}

/** belowZero: how such numbers are ordered is a known finding (F01). */
export function belowZero(d: DataSet, conds: Cond[]): boolean {
  const neg = (v: any) => typeOf(v) === Number_ && (Number(v) < 0 || Object.is(v, -0));
  return conds.some((c) => neg(c.value) || (d.fields.get(c.key) ?? []).some((v) => neg(v.value)));
}

/** matches returns the values that satisfy every condition, in ascending order. */
export function matches(d: DataSet, conds: Cond[]): Val[] {
  const bits = belowZero(d, conds);
  const want = conds.map((c) => ({ type: typeOf(c.value), key: keyOf(c.value), value: c.value, op: c.operation }));
  const vals = (d.fields.get(conds[0].key) ?? []).filter((v) => want.every((w) => v.type === w.type && holds(order(v, w, bits), w.op)));
  return vals.sort((a, b) => order(a, b, bits) || a.rec - b.rec);
}

/** operand picks a value to compare a field with. */
export function operand(r: Rand, d: DataSet, vals: Val[], type: number, negative: boolean): any {
  const same = vals.filter((v) => v.type === type);
  const v = same.length ? r.pick(same).value : undefined;
  switch (type) {
    case String_: {
      if (v === undefined || r.one(8)) return text(r);
      const s = v as string;
      switch (r.int(8)) {
        case 0:
          return s + "\0";
        case 1:
          return s.slice(0, -1);
        case 2:
          return s + "~";
        case 3:
          return "";
        case 4:
          return "\u{10ffff}".repeat(3);
      }
      return s;
    }
    case Number_: {
      if (v === undefined || r.one(8)) return num(r, negative);
      const n = v as number;
      switch (r.int(9)) {
        case 0:
          return next(n, 1);
        case 1:
          return next(n, -1);
        case 2:
          return 0;
        case 3:
          return 1.7976931348623157e308;
        case 4:
          return Number.isInteger(n) && Number.isSafeInteger(n) && !Object.is(n, -0) ? BigInt(n) : n;
        case 5:
          return n / 2;
      }
      return n;
    }
    case Boolean_:
      return r.one(2);
  }
  return null;
}

function next(n: number, dir: number): number {
  if (n === 0) return dir > 0 ? 5e-324 : 0;
  const b = numKey(n);
  b.writeBigUInt64BE(b.readBigUInt64BE() + BigInt(dir));
  const x = b.readDoubleBE();
  return Number.isFinite(x) ? x : n;
}

/** scalarFields lists fields with a type that can be queried. */
export function scalarFields(d: DataSet): { name: string; type: number; vals: Val[] }[] {
  const out: { name: string; type: number; vals: Val[] }[] = [];
  for (const [name, vals] of d.fields)
    for (const type of new Set(vals.map((v) => v.type)))
      if (type !== Object_ && type !== Array_) out.push({ name, type, vals });
  return out;
}

/** conditions draws one or more conditions on one field. */
export function conditions(r: Rand, d: DataSet): Cond[] {
  const f = r.pick(scalarFields(d));
  const negative = f.vals.some((v) => v.type === Number_ && v.value < 0);
  const n = r.one(3) ? (r.one(8) ? r.range(4, 40) : r.range(2, 3)) : 1;
  const types = [...new Set(f.vals.map((v) => v.type))].filter((t) => t !== Object_ && t !== Array_);
  return Array.from({ length: n }, (_, i) => ({
    key: f.name,
    operation: r.pick(OPS),
    // a later condition may ask for another type: nothing has both
    value: operand(r, d, f.vals, i > 0 && r.one(n > 3 ? 90 : 6) ? r.pick(types) : f.type, negative),
  }));
}
