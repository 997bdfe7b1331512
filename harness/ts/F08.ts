import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { IndexFile } from "appendable/file/index-file";
import { readFileMeta, readIndexMeta } from "appendable/file/meta";
import { BPTree, ReferencedValue } from "appendable/bptree/bptree";
import { maxUint64 } from "appendable/file/multi";
import { decodeUvarint, encodeUvarint } from "appendable/util/uvarint";
import { init } from "appendable/index";
import { FieldType, fieldTypeToString } from "appendable/db/database";

interface Entry {
  V: string;
  KO: number;
  KL: number;
  RO: number;
  RL: number;
}
interface Field {
  Name: string;
  Type: number;
  Width: number;
  Total: number;
  Entries: Entry[] | null;
}
const raw = (b: ArrayBuffer) => Buffer.from(b).toString("base64");

/** TYPES are the types, by number, in pkg/appendable/appendable.go. */
const TYPES = ["String", "Int64", "Uint64", "Float64", "Object", "Array", "Boolean", "Null", "Trigram", "Bigram", "Unigram"];

/** entries lists a tree with the client's iterator, from one end to the other. */
async function entries(t: T, tree: any, back: boolean): Promise<string[]> {
  const out: string[] = [];
  const it = tree.iter(back ? new ReferencedValue({ offset: maxUint64, length: 2 ** 32 - 1 }, new Uint8Array(5000).fill(255).buffer) : new ReferencedValue({ offset: 0n, length: 0 }, new ArrayBuffer(0)));
  while (await (back ? it.prev() : it.next())) {
    const k = it.getKey();
    const p = it.getPointer();
    out.push(`${raw(k.value)} @${k.dataPointer.offset}+${k.dataPointer.length} -> ${p.offset}+${p.length}`);
  }
  return out;
}

const line = (e: Entry) => `${e.V ?? ""} @${e.KO}+${e.KL} -> ${e.RO}+${e.RL}`;

async function compare(t: T, data: Buffer, index: Buffer) {
  const x = await ds.decode(data, index);
  if (x.Err) t.fail(`the index cannot be decoded: ${x.Err}`);
  const fields: Field[] = x.Fields ?? [];
  const di = ds.source(data);
  const ii = ds.source(index);
  const file: any = await IndexFile.forResolver(ii.resolve as any);
  const meta = await file.metadata();
  t.eq({ ...meta }, { version: x.Version, format: x.Format, readOffset: BigInt(x.Offset), entries: x.Entries }, "file metadata");

  // the directory, page after page
  const pages: any[] = [];
  const tree = await file.tree();
  for (let p = await tree.next(); p; p = await p.next()) pages.push(p);
  const metas: any[] = [];
  for (const p of pages) metas.push(readIndexMeta(await p.metadata()));
  t.eq(
    metas.map((m) => ({ ...m })),
    fields.map((f) => ({ fieldName: f.Name, fieldType: f.Type, width: f.Width, totalFieldValueLength: f.Total })),
    "indexes in the directory",
  );
  t.count("indexes_compared", fields.length);

  const want = new Map<string, number[]>();
  for (const f of fields) want.set(f.Name, [...(want.get(f.Name) ?? []), f.Type]);
  const headers = [...want].map(([fieldName, fieldTypes]) => ({ fieldName, fieldTypes }));
  t.eq(await file.indexHeaders(), headers, "headers");
  t.eq(await (await init(di.resolve as any, ii.resolve as any)).fields(), headers, "fields of a client");
  // what the types are called, as the indexer has them
  const called = fields.map((f) => TYPES[f.Type]);
  t.eq(fields.map((f) => fieldTypeToString(f.Type)), called, "names of types");
  t.eq(fields.map((f) => FieldType[f.Type]), called, "types");
  t.eq(fields.map((f) => (globalThis as any).Appendable.fieldTypeToString((globalThis as any).Appendable.FieldType[TYPES[f.Type]])), called, "names of types, for scripts");
  if ((globalThis as any).Appendable.init !== init) t.fail("scripts are given another client");
  t.eq(await file.seek("no such field", 0), [], "what seeking a field that is not there finds");
  if (fields.length === 0) t.count("without_fields");

  for (let i = 0; i < fields.length; i++) {
    const f = fields[i];
    const found = await file.seek(f.Name, f.Type);
    if (found.length !== 1) t.fail(`seeking ${show(f.Name)} of type ${f.Type} finds ${found.length} indexes`);
    t.eq({ ...readIndexMeta(await found[0].metadata()) }, { ...metas[i] }, `what seeking ${show(f.Name)} of type ${f.Type} finds`);
    for (const page of [pages[i], found[0]]) {
      const back = page === found[0];
      const b = new BPTree(ii.resolve as any, page, di.resolve as any, meta.format, metas[i].fieldType, metas[i].width, meta.entries);
      const exp = (f.Entries ?? []).map(line);
      const got = await entries(t, b, back);
      if (back) got.reverse();
      if (got.length !== exp.length || got.some((g, k) => g !== exp[k])) {
        const k = exp.findIndex((e, n) => e !== got[n]);
        t.fail(`${show(f.Name)} of type ${f.Type} read ${back ? "backwards" : "forwards"}: ${got.length} entries and not ${exp.length}, entry ${k} is ${got[k]} and not ${exp[k]}`);
      }
      t.count("entries_compared", got.length);
      if (exp.length > 0) {
        const es = f.Entries!;
        t.eq(raw((await b.first()).value), es[0].V ?? "", `first value of ${show(f.Name)} of type ${f.Type}`);
        t.eq(raw((await b.last()).value), es[es.length - 1].V ?? "", `last value of ${show(f.Name)} of type ${f.Type}`);
        // found from anywhere
        for (let n = 0; n < 6; n++) {
          const at = t.r.int(es.length);
          const e = es[at];
          const [k, p] = await b.find(new ReferencedValue({ offset: BigInt(e.KO), length: e.KL }, Uint8Array.from(Buffer.from(e.V ?? "", "base64")).buffer));
          t.eq(`${raw(k.value)} @${k.dataPointer.offset}+${k.dataPointer.length} -> ${p.offset}+${p.length}`, line(e), `finding entry ${at} of ${show(f.Name)}`);
          t.count("entries_found");
        }
      }
    }
    t.c.distinct(f.Name, f.Type, f.Total, f.Entries?.length ?? 0);
  }
}

/** reference encoding of variable-length numbers */
function uvarint(n: bigint): Buffer {
  const out: number[] = [];
  while (n >= 128n) {
    out.push(Number(n & 127n) | 128);
    n >>= 7n;
  }
  out.push(Number(n));
  return Buffer.from(out);
}

main("F08", async (c: C) => {
  c.rule("an index file of the real indexer read by the client, its metadata, directory and every entry both ways compared with an independent decoding; distinct by index and size; and variable-length numbers");
  await c.each(c.n(350, 9000), "index", async (t) => {
    const cf = ds.conf(t.r, t.r.pick([0, 1, 3, 20, 100]));
    cf.negative = t.r.one(2);
    const lines = ds.genLines(t.r, cf);
    const search = t.r.one(2) ? cf.names.slice(0, 2) : [];
    const d = await ds.make(t, lines, search);
    await compare(t, d.data, d.index);
  });
  // records without fields
  await c.each(c.n(20, 200), "bare", async (t) => {
    const lines = Array.from({ length: t.r.pick([0, 1, 2, 500]) }, () => (t.r.one(3) ? " {  } " : "{}"));
    let d = await ds.make(t, lines);
    await compare(t, d.data, d.index);
    if (t.r.one(2)) return;
    // and then one with
    const data = Buffer.concat([d.data, Buffer.from('{"a":1}\n')]);
    const b = await ds.buildIndex(data, [], d.index);
    if (b.err) t.fail(`indexing a record with a field after ${lines.length} without: ${b.err}`);
    await compare(t, data, b.index);
  });
  // many indexes: several directory pages, long names
  await c.each(c.n(60, 1500), "wide", async (t) => {
    const n = t.r.pick([13, 14, 15, 16, 28, 29, 30, 31, 45, 120, 300]);
    const names = Array.from({ length: n }, (_, i) => (t.r.one(4) ? "n".repeat(t.r.range(1, 200)) : t.r.pick(["f", "é", "日", "a.b"])) + i);
    const lines = Array.from({ length: t.r.range(1, 4) }, () => {
      const o: any = {};
      for (const k of t.r.shuffle(names).slice(0, t.r.range(1, n))) o[k] = t.r.pick([1, "x", true, null, [], { z: 1 }, 2.5]);
      return JSON.stringify(o);
    });
    const d = await ds.make(t, lines);
    await compare(t, d.data, d.index);
  });
  // files that grew over several synchronizations
  await c.each(c.n(60, 1200), "grown", async (t) => {
    const lines = ds.genLines(t.r, ds.conf(t.r, t.r.range(2, 300)));
    let prev: Buffer | undefined;
    let at = 0;
    while (at < lines.length) {
      at = Math.min(lines.length, at + t.r.range(1, Math.ceil(lines.length / 2)));
      const data = Buffer.from(lines.slice(0, at).map((l) => l + "\n").join(""));
      const b = await ds.buildIndex(data, [], prev);
      if (b.err) t.fail(`indexing ${at} of ${lines.length} lines: ${b.err}`);
      prev = b.index;
      if (t.r.one(2) || at === lines.length) await compare(t, data, b.index);
    }
  });
  // several levels
  await c.each(c.n(10, 120), "deep", async (t) => {
    const n = t.r.range(2000, c.thorough ? 40000 : 14000);
    const kind = t.r.int(3);
    const sorted = t.r.one(2);
    const order = sorted ? Array.from({ length: n }, (_, i) => i) : t.r.shuffle(Array.from({ length: n }, (_, i) => i));
    const d = await ds.make(t, order.map((k) => JSON.stringify({ v: kind === 0 ? k : kind === 1 ? "key" + k : k % 3 })));
    await compare(t, d.data, d.index);
    c.max("most_records", n);
  });
  await c.each(c.n(2, 12), "tall", async (t) => {
    const n = t.r.range(37000, 45000);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => `{"v":${i}}`));
    c.max("most_levels", await ds.levels(d));
    await compare(t, d.data, d.index);
    c.max("most_records", n);
  });
  // files past where 31 and 32 bits reach
  await c.each(c.n(60, 1500), "far-files", async (t) => {
    const cf = ds.conf(t.r, t.r.pick([1, 20, 100, 1000]));
    cf.negative = t.r.one(2);
    const d = await ds.far(t, ds.genLines(t.r, cf), t.r.one(2) ? cf.names.slice(0, 2) : []);
    await compare(t, d.data, d.index);
  });
  // pointers as large as exact integers go, which no test data file reaches
  await c.each(c.n(60, 1500), "far", async (t) => {
    const big = () => {
      const x = 2 ** t.r.range(0, 53) + t.r.pick([-2, -1, 0, 1]);
      return Math.max(0, Math.min(2 ** 53 - 1, t.r.one(3) ? t.r.int(2 ** 30) * 2 ** t.r.int(23) : x));
    };
    const len = () => Math.min(2 ** 32 - 1, t.r.pick([0, 1, 127, 128, 255, 16383, 16384, 2 ** 21, 2 ** 28, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]));
    const type = t.r.pick([ds.Number_, ds.Boolean_, ds.Trigram_, ds.Unigram_]);
    const wide = type === ds.Number_ ? 8 : type === ds.Trigram_ ? 3 : 1;
    const seen = new Set<string>();
    const ins: Entry[] = [];
    for (let i = t.r.pick([1, 2, 50, 700]); i > 0; i--) {
      const v = t.r.bytes(wide);
      const e = { V: Buffer.from(v).toString("base64"), KO: big(), KL: len(), RO: big(), RL: len() };
      const key = `${e.V} ${e.KO} ${e.KL}`;
      if (seen.has(key)) continue;
      seen.add(key);
      ins.push(e);
    }
    t.log(ins.slice(0, 100).map(line).join("\n"));
    const a = await ds.call({ Op: "tree", Name: "far", Type: type, Insert: ins });
    if (a.Err) t.fail(`inserting far pointers: ${a.Err}`);
    await compare(t, Buffer.from("\n"), Buffer.from(a.Index, "base64"));
    t.count("far_entries", ins.length);
  });
  // trees far taller than those of a few thousand values are, for the values
  // stored in them are as wide as the format allows
  await c.each(c.n(12, 150), "narrow", async (t) => {
    const width = t.r.pick([200, 400, 500, 700, 900]);
    const n = t.r.pick([300, 1000, 2500]);
    const ins: Entry[] = [];
    const kind = t.r.int(3);
    const few = t.r.pick([3, n, 2 ** 31]);
    for (let i = 0; i < n; i++) {
      const v = Buffer.alloc(width - 1, t.r.one(2) ? 0 : 255);
      v.writeUInt32BE(kind === 0 ? i : kind === 1 ? n - i : t.r.int(few), t.r.one(4) ? 0 : 3);
      ins.push({ V: v.toString("base64"), KO: i, KL: t.r.int(300), RO: i * 7, RL: t.r.int(99) });
    }
    const a = await ds.call({ Op: "tree", Name: "narrow", Type: ds.Number_, Width: width, Insert: ins });
    if (a.Err) t.fail(`inserting wide values: ${a.Err}`);
    const index = Buffer.from(a.Index, "base64");
    const x = await ds.decode(Buffer.from("\n"), index);
    c.max("most_levels", Math.max(...x.Fields.map((f: any) => f.Depth)));
    await compare(t, Buffer.from("\n"), index);
    t.count("wide_entries", n);
  });
  // metadata of files no test can make
  await c.each(c.n(300, 6000), "metadata", async (t) => {
    const big = () => {
      const x = 2 ** t.r.range(0, 53) + t.r.pick([-2, -1, 0, 1]);
      return Math.max(0, Math.min(Number.MAX_SAFE_INTEGER, t.r.one(3) ? Math.floor(t.r.next() * 2 ** t.r.range(1, 53)) : x));
    };
    const q = {
      Version: t.r.int(256),
      Format: t.r.int(2),
      Offset: big(),
      Entries: big(),
      Name: t.r.pick(["", "a", "n".repeat(t.r.int(236)), "日本".repeat(t.r.int(39)), "a.b\u0000\u007f😀", "\ufeff", "\ufeffa", "a\ufeff"]),
      Type: t.r.pick([0, 3, 4, 5, 6, 7, 8, 9, 10, t.r.int(256)]),
      Width: t.r.pick([0, 1, 2, 3, 4, 9, t.r.int(65536)]),
      Total: big(),
    };
    t.log(show(q));
    const a = await ds.call({ Op: "metadata", ...q, Format: q.Format });
    if (a.Err) t.fail(`encoding ${show(q)}: ${a.Err}`);
    const copy = (s: string) => Uint8Array.from(Buffer.from(s, "base64")).buffer;
    t.eq({ ...(await readFileMeta(copy(a.FileMeta))) }, { version: q.Version, format: q.Format, readOffset: BigInt(q.Offset), entries: q.Entries }, `file metadata of ${show(q)}`);
    t.eq({ ...readIndexMeta(copy(a.IndexMeta)) }, { fieldName: q.Name, fieldType: q.Type, width: q.Width, totalFieldValueLength: q.Total }, `index metadata of ${show(q)}`);
    {
      // what no indexer writes: another format, or less than there must be
      const b = Buffer.from(a.FileMeta, "base64");
      const f = t.r.range(2, 255);
      const other = Buffer.from(b);
      other[1] = f;
      const cut = b.subarray(0, t.r.int(11));
      const im = Buffer.from(a.IndexMeta, "base64");
      const least = 6 + Buffer.byteLength(q.Name);
      const short = im.subarray(0, t.r.int(least));
      const ab = (x: Buffer) => Uint8Array.from(x).buffer;
      for (const [what, read] of [
        [`file metadata of format ${f}`, () => readFileMeta(ab(other))],
        [`${cut.length} bytes of file metadata`, () => readFileMeta(ab(cut))],
        [`${short.length} of ${im.length} bytes of index metadata`, async () => readIndexMeta(ab(short))],
      ] as [string, () => Promise<unknown>][]) {
        let got: unknown;
        try {
          got = await read();
        } catch {
          t.count("metadata_refused");
          continue;
        }
        t.fail(`${what} was read as ${show(got)}`);
      }
    }
    t.count("metadata_read");
    t.c.distinct(show(q));
  });
  await c.each(c.n(40, 800), "varint", async (t) => {
    const ints: number[] = [];
    for (let k = 0; k <= 53; k++) for (const dx of [-2, -1, 0, 1, 2]) ints.push(2 ** k + dx);
    for (let k = 0; k < 2000; k++) ints.push(Math.floor(t.r.next() * 2 ** t.r.range(1, 53)));
    const good = ints.filter((n) => n >= 0 && n <= Number.MAX_SAFE_INTEGER);
    const sizes = (await ds.call({ Op: "sizes", Ints: good })).Sizes;
    good.forEach((n, i) => {
      const want = uvarint(BigInt(n));
      const enc = Buffer.from(encodeUvarint(n));
      if (!enc.equals(want)) t.fail(`${n} is encoded as ${enc.toString("hex")}, not ${want.toString("hex")}`);
      if (sizes[i] !== want.length) t.fail(`the indexer makes ${n} ${sizes[i]} bytes long, not ${want.length}`);
      const tail = t.r.bytes(t.r.int(4));
      const dec = decodeUvarint(Uint8Array.from(Buffer.concat([want, tail])).buffer);
      if (dec.value !== n || dec.bytesRead !== want.length) t.fail(`${want.toString("hex")} is read as ${dec.value} in ${dec.bytesRead} bytes, not ${n} in ${want.length}`);
      t.count("varints");
      c.distinct("varint", n);
    });
  });
});
