import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

interface Shape {
  pages: number;
  trees: Map<string, { depth: number; leaves: number[]; most: number; entries: Buffer[] }>;
}

/** shape is what the index looks like, decoded apart from the client. */
async function shape(d: ds.DataSet): Promise<Shape> {
  const a = await ds.call({ Op: "shape", Data: d.data.toString("base64"), Index: d.index.toString("base64") });
  const trees: Shape["trees"] = new Map();
  for (const f of a.Fields ?? []) trees.set(`${f.Type} ${f.Name}`, { depth: f.Depth, leaves: f.Leaves ?? [], most: f.Most, entries: [] });
  return { pages: a.Pages, trees };
}

/** leavesOf is the number of leaves that hold entries number from to to-1. */
function leavesOf(leaves: number[], from: number, to: number): number {
  let at = 0;
  let n = 0;
  for (const l of leaves) {
    if (at < to && from < at + l) n++;
    at += l;
  }
  return n;
}

const weight = (rs: ds.Range[][]) => rs.reduce((a, r) => a + r.reduce((b, { start, end }) => b + end - start + 1, 0), 0);

function inside(t: T, rs: ds.Range[][], size: number, what: string) {
  for (const r of rs) for (const { start, end } of r) if (start < 0 || end < start || end >= size) t.fail(`${what}: asks for ${start}-${end} of a file of ${size} bytes`);
}

let worst = { pages: 0, requests: 0 };

async function run(t: T, d: ds.DataSet, s: Shape, where: ds.Cond[]) {
  const first = where[0];
  const type = ds.typeOf(first.value);
  const tree = s.trees.get(`${type} ${first.key}`);
  if (!tree) return;
  const dir = t.r.pick([undefined, "ASC", "DESC"] as const);
  const orderBy = dir ? [{ key: first.key, direction: dir }] : undefined;
  const limit = t.r.pick([undefined, 1, 1, 2, 5, 20]);
  const what = `query ${show(where)} ${dir ?? ""} limit ${limit}`;
  t.log(what);
  const data = ds.source(d.data);
  const index = ds.source(d.index);
  const db = await init(data.resolve as any, index.resolve as any);
  const fresh = !t.r.one(3);
  if (!fresh) {
    await ds.collect(db.query({ where: [first], limit: 1 } as any));
    data.requests.length = index.requests.length = 0;
  }
  const got = (await ds.collect<any>(db.query({ where, orderBy, limit } as any))).length;

  // what the first condition selects, in the order of the index
  const keys = (d.fields.get(first.key) ?? []).filter((v) => v.type === type).sort((a, b) => Buffer.compare(a.key, b.key));
  const bound = ds.keyOf(first.value);
  const below = keys.filter((v) => Buffer.compare(v.key, bound) < 0).length;
  const upTo = keys.filter((v) => Buffer.compare(v.key, bound) <= 0).length;
  let from = 0;
  let to = keys.length;
  if (first.operation === "<") to = below;
  if (first.operation === "<=") to = upTo;
  if (first.operation === "==") [from, to] = [below, upTo];
  if (first.operation === ">=") from = below;
  if (first.operation === ">") from = upTo;
  const desc = dir === "DESC" && first.operation !== "==";
  const passes = (v: ds.Val) => where.slice(1).every((c) => ds.typeOf(c.value) === type && ds.holds(Buffer.compare(v.key, ds.keyOf(c.value)), c.operation));
  if (limit !== undefined && got === limit) {
    // no further than the values equal to that of the last result
    const order = keys.slice(from, to);
    if (desc) order.reverse();
    let left = limit;
    let n = 0;
    while (left > 0 && n < order.length) if (passes(order[n++])) left--;
    while (n < order.length && Buffer.compare(order[n].key, order[n - 1].key) === 0) n++;
    if (desc) from = to - n;
    else to = from + n;
  }
  // an entry on either side may be looked at
  const leaves = leavesOf(tree.leaves, Math.max(0, from - 1), to + 1);
  const pages = 2 * tree.depth + leaves + Math.ceil(leaves / 20) + 1;
  const directory = 3 * s.pages;
  inside(t, index.requests, d.index.length, what);
  inside(t, data.requests, d.data.length, what);
  const iw = weight(index.requests);
  const limitPages = pages + directory;
  const spent = `${index.requests.length} requests for ${iw} bytes of the index of ${d.index.length}, ${data.requests.length} for ${weight(data.requests)} bytes of the data of ${d.data.length}`;
  const why = `${got} results from ${leaves} leaves of a tree ${tree.depth} deep, ${s.pages} pages of fields`;
  if (index.requests.length > limitPages || iw > 4096 * limitPages) t.fail(`${what}: ${spent} (${why}; at most ${limitPages} pages are called for)`);
  const byReference = type === ds.String_;
  const longest = Math.max(...d.spans.map(([, n]) => n));
  const dataRequests = got + (byReference ? pages : 0);
  const dataBytes = got * longest + (byReference ? pages * tree.most * keys.reduce((a, v) => Math.max(a, 2 + 6 * v.key.length), 0) : 0);
  if (data.requests.length > dataRequests || weight(data.requests) > dataBytes) t.fail(`${what}: ${spent} (${why}; at most ${dataRequests} requests for ${dataBytes} bytes are called for)`);
  worst.pages = Math.max(worst.pages, index.requests.length / limitPages);
  t.c.max("most_percent_of_bound", Math.round(worst.pages * 100));
  t.count("queries");
  t.count("index_requests", index.requests.length);
  t.count("data_requests", data.requests.length);
  t.c.max("most_levels", tree.depth);
  if (d.index.length > 100 * 4096) t.c.max("most_percent_of_a_large_index", limit !== undefined && where.length === 1 ? Math.round((100 * iw) / d.index.length) : 0);
  t.c.distinct(d.data.length, what);
  t.c.sample({ what, results: got, index_requests: index.requests.length, index_bytes: iw, index_size: d.index.length, data_requests: data.requests.length, data_size: d.data.length });
}

function grams(s: string, n: number): string[] {
  const out: string[] = [];
  for (const w of s.toLowerCase().split(" ")) for (let i = 0; i + n <= w.length; i++) out.push(w.slice(i, i + n));
  return out;
}

async function search(t: T, d: ds.DataSet, s: Shape, like: string, min: number, max: number) {
  const data = ds.source(d.data);
  const index = ds.source(d.index);
  const db = await init(data.resolve as any, index.resolve as any);
  const limit = t.r.pick([undefined, 1, 3]);
  const what = `search for ${show(like)} (${min} to ${max}) limit ${limit}`;
  t.log(what);
  const got = (await ds.collect<any>(db.query({ search: { key: "s", like, config: { minGram: min, maxGram: max } }, limit } as any))).length;
  let pages = 2 * s.pages;
  for (let n = min; n <= max; n++) {
    const tree = s.trees.get(`${[0, ds.Unigram_, ds.Bigram_, ds.Trigram_][n]} s`);
    if (!tree) continue;
    const all = d.fields.get("s")!.flatMap((v) => (v.type === ds.String_ ? grams(v.value, n) : [])).sort();
    for (const g of grams(like, n)) {
      const from = all.findIndex((x) => x >= g);
      const a = from < 0 ? all.length : from;
      const b = a + all.filter((x) => x === g).length;
      const leaves = leavesOf(tree.leaves, Math.max(0, a - 1), b + 1);
      pages += tree.depth + leaves + Math.ceil(leaves / 20);
    }
    pages += s.pages; // finding the tree
  }
  inside(t, index.requests, d.index.length, what);
  inside(t, data.requests, d.data.length, what);
  const longest = Math.max(...d.spans.map(([, n]) => n));
  const spent = `${index.requests.length} requests for ${weight(index.requests)} bytes of the index of ${d.index.length}, ${data.requests.length} for ${weight(data.requests)} bytes of the data`;
  if (index.requests.length > pages || weight(index.requests) > 4096 * pages) t.fail(`${what}: ${spent} (at most ${pages} pages are called for)`);
  if (data.requests.length > got || weight(data.requests) > got * longest) t.fail(`${what}: ${spent} for ${got} results`);
  t.c.max("most_percent_of_bound_searching", Math.round((100 * index.requests.length) / pages));
  t.count("searches");
  t.c.distinct(d.data.length, what);
}

main("F14", async (c: C) => {
  c.rule("the ranges a query asks the index and data file for, counted and weighed against bounds in the depth of the tree, the leaves that hold what it selects and the results (from an independent decoding of the index), and against the files' sizes; files from a few records to three levels of tree; distinct by data and query");
  await c.each(c.n(200, 5000), "small", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([1, 3, 20, 60]))));
    if (ds.scalarFields(d).length === 0) return;
    const s = await shape(d);
    for (let i = 0; i < 8; i++) await run(t, d, s, ds.conditions(t.r, d));
  });
  await c.each(c.n(25, 500), "medium", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, ds.conf(t.r, t.r.range(300, 1500))));
    if (ds.scalarFields(d).length === 0) return;
    const s = await shape(d);
    for (let i = 0; i < 25; i++) await run(t, d, s, ds.conditions(t.r, d));
  });
  // records that are long next to what is asked about them
  await c.each(c.n(12, 200), "long", async (t) => {
    const lines = ds.genLines(t.r, ds.conf(t.r, t.r.range(5, 60))).map((l) => {
      const o = JSON.parse(l);
      o.n = t.r.int(20);
      return `${JSON.stringify(o).slice(0, -1)},"long":[${JSON.stringify("x".repeat(t.r.pick([3000, 6000, 20000, 140000])))}]}`;
    });
    const d = await ds.make(t, lines);
    const s = await shape(d);
    for (let i = 0; i < 12; i++) await run(t, d, s, ds.conditions(t.r, d));
  });
  await c.each(c.n(6, 60), "large", async (t) => {
    const n = t.r.range(4000, 12000);
    const kind = t.r.int(2);
    const dup = t.r.pick([1, 1, 5]);
    const order = t.r.one(2) ? t.r.shuffle(Array.from({ length: n }, (_, i) => i)) : Array.from({ length: n }, (_, i) => i);
    const d = await ds.make(
      t,
      order.map((o) => JSON.stringify({ v: kind === 0 ? Math.floor(o / dup) : "k" + String(Math.floor(o / dup)).padStart(6, "0") })),
    );
    const s = await shape(d);
    for (let i = 0; i < 30; i++) await run(t, d, s, ds.conditions(t.r, d));
  });
  await c.each(c.n(2, 10), "tall", async (t) => {
    const n = t.r.range(37000, 45000);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => `{"v":${i}}`));
    const s = await shape(d);
    for (let i = 0; i < 20; i++) await run(t, d, s, [{ key: "v", operation: t.r.pick(ds.OPS), value: t.r.pick([t.r.int(n), t.r.int(50), n - t.r.int(50), n + 5, 0]) }]);
  });
  await c.each(c.n(40, 800), "search", async (t) => {
    const words = t.r.one(2) ? ["ab", "ba", "aab", "abba", "b"] : ["alpha", "beta", "gamma", "delta", "new", "york", "data", "base", "index", "quick"];
    const n = t.r.pick([3, 30, 300, 1000]);
    const lines = Array.from({ length: n }, (_, i) => JSON.stringify({ i, s: Array.from({ length: t.r.int(6) }, () => t.r.pick(words)).join(" ") }));
    lines.push('{"s":"abc abcd"}');
    const d = await ds.make(t, lines, ["s"]);
    const s = await shape(d);
    for (let i = 0; i < 5; i++) {
      const min = t.r.range(1, 3);
      await search(t, d, s, Array.from({ length: t.r.range(1, 3) }, () => t.r.pick(words)).join(" "), min, t.r.range(min, 3));
    }
  });
});
