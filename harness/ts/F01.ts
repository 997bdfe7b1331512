import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

/** multiset compares lists of shown records regardless of order. */
function diff(got: string[], want: string[]): string {
  const n = new Map<string, number>();
  for (const s of want) n.set(s, (n.get(s) ?? 0) + 1);
  for (const s of got) {
    const k = n.get(s) ?? 0;
    if (k === 0) return `returned ${s}, which ${want.includes(s) ? "it should return less often" : "does not satisfy it"} (${got.length} returned, ${want.length} should be)`;
    n.set(s, k - 1);
  }
  for (const [s, k] of n) if (k > 0) return `did not return ${s} (${got.length} returned, ${want.length} should be)`;
  return "";
}

async function queries(t: T, d: ds.DataSet, n: number) {
  const data = ds.source(d.data);
  const index = ds.source(d.index);
  let db = await init(data.resolve as any, index.resolve as any);
  if (ds.scalarFields(d).length === 0) return;
  for (let i = 0; i < n; i++) {
    if (t.r.one(6)) db = await init(data.resolve as any, index.resolve as any);
    const where = ds.conditions(t.r, d);
    const dir = t.r.pick([undefined, "ASC", "DESC"] as const);
    const what = `query ${show(where)} ${dir ?? ""}`;
    t.log(what);
    let it;
    if (t.r.one(2)) {
      let q: any = (db as any).where(where[0].key, where[0].operation, where[0].value);
      for (const c of where.slice(1)) q = q.where(c.key, c.operation, c.value);
      if (dir) q = q.orderBy(where[0].key, dir);
      it = q.get();
    } else {
      it = db.query({ where, orderBy: dir ? [{ key: where[0].key, direction: dir }] : undefined } as any);
    }
    const got = (await ds.collect<any>(it)).map(show);
    const want = ds.matches(d, where).map((v) => d.shown[v.rec]);
    const s = diff(got, want);
    if (s) t.fail(`${what}: ${s}`);
    t.count("queries");
    t.count("records_returned", got.length);
    if (got.length === 0) t.count("empty_results");
    if (where.length > 1) t.count("several_conditions");
    t.c.distinct(d.data.length, what);
    t.c.sample({ what, records: d.lines.length, returned: got.length });
  }
  t.count("range_requests", data.requests.length + index.requests.length);
}

main("F01", async (c: C) => {
  c.rule("a query run by the client on an index file of the real indexer, its records compared as a multiset with the query's evaluation over the parsed lines; distinct by data and query");
  c.assume("numbers below zero are compared by their stored bits (known finding)");
  await c.each(c.n(500, 15000), "small", async (t) => {
    const cf = ds.conf(t.r, t.r.pick([1, 2, 3, 10, 40]));
    await queries(t, await ds.make(t, ds.genLines(t.r, cf)), 25);
  });
  // files past where 31 and 32 bits reach
  await c.each(c.n(60, 1500), "far", async (t) => {
    await queries(t, await ds.far(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([3, 40, 400])))), 12);
  });
  // trees of up to many levels, from nodes of a few keys
  await c.each(c.n(60, 1500), "sparse", async (t) => {
    await queries(t, await ds.sparse(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([3, 10, 40, 150, 400])))), 12);
  });
  await c.each(c.n(36, 500), "extreme", async (t) => {
    await queries(t, await ds.make(t, ds.extreme(t.r, t.index())), 12);
  });
  // many conditions of which the last one matters
  await c.each(c.n(30, 500), "many", async (t) => {
    const vals = Array.from({ length: t.r.range(2, 60) }, () => t.r.int(40));
    const d = await ds.make(t, vals.map((v, i) => JSON.stringify({ v, i })));
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let k = 0; k < 6; k++) {
      const n = t.r.pick([5, 7, 9, 17, 33, 65, 129]);
      const where: any[] = Array.from({ length: n }, () => (t.r.one(2) ? { key: "v", operation: ">=", value: -1 + t.r.int(2) } : { key: "v", operation: "<", value: 40 + t.r.int(5) }));
      where[t.r.one(2) ? n - 1 : t.r.int(n)] = { key: "v", operation: t.r.pick(ds.OPS), value: t.r.pick(vals) };
      for (const w of where) if (w.value < 0) w.value = 0;
      const direction = t.r.pick(["ASC", "DESC"]);
      const got = (await ds.collect<any>(db.query({ where, orderBy: [{ key: "v", direction }] } as any))).map(show);
      const s = diff(got, ds.matches(d, where).map((x) => d.shown[x.rec]));
      if (s) t.fail(`query ${show(where)} ${direction}: ${s}`);
      t.count("queries");
      c.max("most_conditions", n);
      c.distinct("many", show(where), direction);
    }
  });
  await c.each(c.n(48, 1500), "medium", async (t) => {
    const cf = ds.conf(t.r, t.r.range(200, 1500));
    await queries(t, await ds.make(t, ds.genLines(t.r, cf)), 20);
  });
  // two and three levels; sorted, reversed and shuffled insertion
  await c.each(c.n(12, 200), "deep", async (t) => {
    const n = c.thorough ? t.r.range(3000, 30000) : t.r.range(3000, 12000);
    const shape = t.r.int(3);
    const kind = t.r.int(3);
    const dup = t.r.pick([1, 1, 2, 50, 1000]);
    const lines = Array.from({ length: n }, (_, i) => {
      const k = Math.floor((shape === 0 ? i : shape === 1 ? n - i : t.r.int(n)) / dup);
      return JSON.stringify({ v: kind === 0 ? k : kind === 1 ? k / 7 : "key" + String(k).padStart(6, "0"), i });
    });
    const d = await ds.make(t, lines);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let i = 0; i < 8; i++) {
      const vals = d.fields.get("v")!;
      const v = ds.operand(t.r, d, vals, vals[0].type, false);
      const where: ds.Cond[] = [{ key: "v", operation: t.r.pick(ds.OPS), value: v }];
      if (t.r.one(2)) where.push({ key: "v", operation: t.r.pick(ds.OPS), value: t.r.pick(vals).value });
      const dir = t.r.pick(["ASC", "DESC"] as const);
      t.log(show(where) + dir);
      const got = (await ds.collect<any>(db.query({ where, orderBy: [{ key: "v", direction: dir }] } as any))).map(show);
      const s = diff(got, ds.matches(d, where).map((x) => d.shown[x.rec]));
      if (s) t.fail(`query ${show(where)} ${dir} over ${n} records: ${s}`);
      t.count("queries");
      t.count("records_returned", got.length);
      c.distinct("deep", n, show(where), dir);
    }
  });
  // three levels, crossed in both directions
  await c.each(c.n(2, 12), "tall", async (t) => {
    const n = t.r.range(37000, 45000);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => `{"v":${i}}`));
    const index = ds.source(d.index);
    const db = await init(ds.source(d.data).resolve as any, index.resolve as any);
    c.max("most_levels", await ds.levels(d));
    for (const [operation, direction] of t.r.shuffle([[">", "ASC"], ["<", "DESC"], [">=", "DESC"], ["<=", "ASC"]])) {
      const where = [{ key: "v", operation, value: t.r.int(n) }];
      t.log(show(where) + direction);
      const got = (await ds.collect<any>(db.query({ where, orderBy: [{ key: "v", direction }] } as any))).map(show);
      const s = diff(got, ds.matches(d, where).map((x) => d.shown[x.rec]));
      if (s) t.fail(`query ${show(where)} ${direction} over ${n} ascending records: ${s}`);
      t.count("queries");
      t.count("records_returned", got.length);
      c.distinct("tall", n, show(where), direction);
    }
  });
  // nodes of as many keys as there can be
  await c.each(c.n(1, 8), "wide", async (t) => {
    const n = t.r.range(76000, 82000);
    const null_ = t.r.one(2);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => (null_ ? '{"v":null}' : `{"v":"${i % 10}"}`)));
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const where = [{ key: "v", operation: null_ ? "==" : t.r.pick(["<=", ">="]), value: null_ ? null : "4" } as ds.Cond];
    for (const direction of null_ ? ["ASC"] : ["ASC", "DESC"]) {
      const got = await ds.collect<any>(db.query({ where, orderBy: [{ key: "v", direction }] } as any));
      t.eq(got.length, ds.matches(d, where).length, `query ${show(where)} ${direction} over ${n} records: how many it returns`);
      t.count("queries");
      t.count("records_returned", got.length);
      c.distinct("wide", n, show(where), direction);
    }
  });
  // every value and both neighbours of a small set, every operation and order
  await c.each(c.n(60, 600), "exhaustive", async (t) => {
    const vals = t.r.one(2) ? Array.from({ length: t.r.range(1, 7) }, () => t.r.int(6)) : Array.from({ length: t.r.range(1, 7) }, () => t.r.pick(["", "a", "ab", "b", "ba", "c"]));
    const d = await ds.make(t, vals.map((v, i) => JSON.stringify({ v, i })));
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const ops = typeof vals[0] === "number" ? [0, 0.5, 1, 2, 2.5, 3, 4, 5, 6, 7] : ["", "a", "aa", "ab", "b", "ba", "c", "d"];
    for (const value of ops)
      for (const operation of ds.OPS)
        for (const direction of ["ASC", "DESC"]) {
          const where = [{ key: "v", operation, value }];
          const got = (await ds.collect<any>(db.query({ where, orderBy: [{ key: "v", direction }] } as any))).map(show);
          const s = diff(got, ds.matches(d, where).map((x) => d.shown[x.rec]));
          if (s) t.fail(`values ${show(vals)}: query v ${operation} ${show(value)} ${direction}: ${s}`);
          t.count("queries");
          t.count("records_returned", got.length);
          c.distinct("ex", show(vals), operation, show(value), direction);
        }
  });
  await c.finding("negative-numbers", async (t) => {
    const d = await ds.make(t, ['{"v":-2}', '{"v":-1}', '{"v":1}']);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const got = await ds.collect<any>(db.query({ where: [{ key: "v", operation: "<", value: 0 }] } as any));
    return got.length === 2 ? "" : `v < 0 returned ${show(got)} of the records -2, -1 and 1`;
  });
});
