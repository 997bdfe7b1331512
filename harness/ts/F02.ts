import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

const tick = () => new Promise<void>((r) => setImmediate(r));

/** groups of shown records whose field values are equal, in the order asked for. */
function groups(d: ds.DataSet, where: ds.Cond[], desc: boolean): string[][] {
  const vals = ds.matches(d, where);
  const bits = ds.belowZero(d, where);
  const out: string[][] = [];
  vals.forEach((v, i) => {
    if (i > 0 && ds.order(vals[i - 1], v, bits) === 0) out[out.length - 1].push(d.shown[v.rec]);
    else out.push([d.shown[v.rec]]);
  });
  return desc ? out.reverse() : out;
}

function inOrder(got: string[], want: string[][]): string {
  let at = 0;
  for (let g = 0; g < want.length; g++) {
    const part = got.slice(at, at + want[g].length).sort();
    const exp = [...want[g]].sort();
    for (let i = 0; i < exp.length; i++) if (part[i] !== exp[i]) return `results ${at} to ${at + exp.length - 1} should be ${exp.slice(0, 5)} and are ${part.slice(0, 5)}`;
    at += exp.length;
  }
  return got.length > at ? `${got.length - at} more results than the ${at} there should be` : "";
}

async function run(t: T, d: ds.DataSet, where: ds.Cond[]) {
  const data = ds.source(d.data);
  const index = ds.source(d.index);
  const requests = () => data.requests.length + index.requests.length;
  const open = () => init(data.resolve as any, index.resolve as any);
  const dir = t.r.pick([undefined, "ASC", "DESC"] as const);
  // a second clause would only order what the first leaves equal
  const more = dir && t.r.one(4) ? [{ key: where[0].key, direction: dir === "ASC" ? "DESC" : "ASC" }] : [];
  const orderBy = dir ? [{ key: where[0].key, direction: dir }, ...more] : undefined;
  if (more.length) t.count("second_orders");
  const what = `query ${show(where)} ${dir ?? ""}`;
  t.log(what);
  const db = await open();
  const all = (await ds.collect<any>(db.query({ where, orderBy } as any))).map(show);
  const s = inOrder(all, groups(d, where, dir === "DESC"));
  if (s) t.fail(`${what}: ${s}`);
  t.count("queries");
  t.count("ordered_results", all.length);
  t.c.distinct(d.data.length, what);

  const limits = [0, 1, all.length - 1, all.length, all.length + 1, t.r.int(all.length + 1)];
  limits.push(t.r.pick([255, 256, 257, 65535, 65536, 65537, 1e6, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53 - 1]));
  for (const limit of new Set(limits.filter((n) => n >= 0))) {
    if (all.length > 60 && !t.r.one(3)) continue;
    const q = t.r.one(2) ? await open() : db;
    const before = requests();
    const got: string[] = [];
    let atLast = limit === 0 ? before : -1;
    let it: any;
    if (t.r.one(2)) {
      let b: any = (q as any).where(where[0].key, where[0].operation, where[0].value);
      for (const c of where.slice(1)) b = b.where(c.key, c.operation, c.value);
      for (const o of orderBy ?? []) b = b.orderBy(o.key, o.direction);
      it = b.limit(limit).get();
    } else it = q.query({ where, orderBy, limit } as any);
    for await (const x of it) {
      got.push(show(x));
      if (got.length === limit) atLast = requests();
    }
    t.eq(got, all.slice(0, limit), `${what} limit ${limit} of ${all.length} results`);
    await tick();
    if (atLast >= 0 && requests() !== atLast) t.fail(`${what} limit ${limit}: ${requests() - atLast} requests after the last result it may return`);
    t.count("limited_queries");
    if (limit < all.length) t.count("limits_that_cut");
  }

  if (all.length > 0) {
    const stop = t.r.range(1, all.length);
    const got: string[] = [];
    let at = 0;
    for await (const x of db.query({ where, orderBy } as any)) {
      got.push(show(x));
      if (got.length === stop) {
        at = requests();
        break;
      }
    }
    await tick();
    await tick();
    t.eq(got, all.slice(0, stop), `${what} stopped after ${stop}`);
    if (requests() !== at) t.fail(`${what}: ${requests() - at} requests after its consumer stopped`);
    t.count("early_stops");
  }
}

main("F02", async (c: C) => {
  c.rule("a query's results grouped by equal field values against the sorted values of the parsed lines, its limits against its unlimited results, and the requests seen after the last result; distinct by data and query");
  c.assume("numbers below zero are ordered by their stored bits (known finding)");
  await c.each(c.n(500, 15000), "small", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([1, 2, 5, 30]))));
    if (ds.scalarFields(d).length === 0) return;
    for (let i = 0; i < 8; i++) await run(t, d, ds.conditions(t.r, d));
  });
  await c.each(c.n(30, 800), "far", async (t) => {
    const d = await ds.far(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([3, 40, 400]))));
    if (ds.scalarFields(d).length === 0) return;
    for (let i = 0; i < 4; i++) await run(t, d, ds.conditions(t.r, d));
  });
  await c.each(c.n(50, 1000), "sparse", async (t) => {
    const d = await ds.sparse(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([3, 10, 40, 150]))));
    if (ds.scalarFields(d).length === 0) return;
    for (let i = 0; i < 4; i++) await run(t, d, ds.conditions(t.r, d));
  });
  // searches: their order is that of the scores, which F04 judges; the limit is judged here
  await c.each(c.n(60, 1500), "search", async (t) => {
    const words = t.r.pick([["a", "b", "ab", "ba"], ["alpha", "beta", "alphabet", "bet", "tab"]]);
    const phrase = () => Array.from({ length: t.r.range(1, 6) }, () => t.r.pick(words)).join(" ");
    const lines = Array.from({ length: t.r.pick([1, 5, 40, 300]) }, (_, i) => JSON.stringify({ i, s: phrase() }));
    const d = await ds.make(t, lines, ["s"]);
    const data = ds.source(d.data);
    const index = ds.source(d.index);
    const requests = () => data.requests.length + index.requests.length;
    const db = await init(data.resolve as any, index.resolve as any);
    for (let k = 0; k < 3; k++) {
      const like = phrase();
      const config = t.r.pick([undefined, { minGram: 1, maxGram: 3 }, { minGram: 2, maxGram: 2 }]);
      const search: any = config ? { key: "s", like, config } : { key: "s", like };
      const all = await ds.collect<any>(db.query({ search } as any));
      for (const limit of new Set([0, 1, all.length - 1, all.length, all.length + 1, t.r.int(all.length + 1), 2 ** 32 + 1].filter((n) => n >= 0))) {
        const what = `search for ${show(like)} (${show(config)}) limit ${limit} of ${all.length} results`;
        t.log(what);
        const before = requests();
        let atLast = limit === 0 ? before : -1;
        const got: any[] = [];
        for await (const x of db.query({ search, limit } as any)) {
          got.push(x);
          if (got.length === limit) atLast = requests();
        }
        await tick();
        t.eq(got.length, Math.min(limit, all.length), `${what}: number of records`);
        if (new Set(got.map((x) => x.data)).size !== got.length) t.fail(`${what}: a record came twice`);
        // scores may differ by rounding
        got.forEach((x, i) => {
          const a = x.score;
          const b = all[i].score;
          if (!(a === b || Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b)))) t.fail(`${what}: result ${i} has score ${a}, not ${b}`);
        });
        if (atLast >= 0 && requests() !== atLast) t.fail(`${what}: ${requests() - atLast} requests after the last result it may return`);
        t.count("limited_searches");
        if (limit < all.length) t.count("limits_that_cut");
        t.c.distinct(d.data.length, what);
      }
    }
  });
  await c.each(c.n(18, 300), "extreme", async (t) => {
    const d = await ds.make(t, ds.extreme(t.r, t.index()));
    if (ds.scalarFields(d).length === 0) return;
    for (let i = 0; i < 6; i++) await run(t, d, ds.conditions(t.r, d));
  });
  await c.each(c.n(40, 1000), "medium", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, ds.conf(t.r, t.r.range(200, 1200))));
    if (ds.scalarFields(d).length === 0) return;
    for (let i = 0; i < 6; i++) await run(t, d, ds.conditions(t.r, d));
  });
  await c.each(c.n(12, 200), "deep", async (t) => {
    const n = c.thorough ? t.r.range(3000, 30000) : t.r.range(3000, 10000);
    const kind = t.r.int(3);
    const dup = t.r.pick([1, 1, 3, 700]);
    const order = t.r.shuffle(Array.from({ length: n }, (_, i) => i));
    const sorted = t.r.one(2);
    const d = await ds.make(
      t,
      order.map((o, i) => {
        const k = Math.floor((sorted ? i : o) / dup);
        return JSON.stringify({ v: kind === 0 ? k : kind === 1 ? k / 7 : "key" + String(k).padStart(6, "0"), i });
      }),
    );
    const vals = d.fields.get("v")!;
    for (let i = 0; i < 3; i++) await run(t, d, [{ key: "v", operation: t.r.pick(ds.OPS), value: ds.operand(t.r, d, vals, vals[0].type, false) }]);
  });
  // three levels; a limited query reads a few results, an unlimited one all
  await c.each(c.n(2, 12), "tall", async (t) => {
    const n = t.r.range(37000, 45000);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => `{"v":${i}}`));
    c.max("most_levels", await ds.levels(d));
    for (const direction of ["ASC", "DESC"] as const) {
      const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
      const where = [{ key: "v", operation: ">=", value: t.r.int(n / 2) }];
      const orderBy = [{ key: "v", direction }];
      const got = (await ds.collect<any>(db.query({ where, orderBy } as any))).map(show);
      const s = inOrder(got, groups(d, where, direction === "DESC"));
      if (s) t.fail(`query ${show(where)} ${direction} over ${n} ascending records: ${s}`);
      const limit = t.r.int(n / 2);
      t.eq((await ds.collect<any>(db.query({ where, orderBy, limit } as any))).map(show), got.slice(0, limit), `limit ${limit}`);
      t.count("queries", 2);
      t.count("ordered_results", got.length);
    }
  });
  await c.finding("negative-numbers", async (t) => {
    const d = await ds.make(t, ['{"v":-2}', '{"v":-1}', '{"v":1}']);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const got = (await ds.collect<any>(db.query({ where: [{ key: "v", operation: ">=", value: 0 }] } as any))).map((x) => x.v);
    const sorted = [...got].sort((a, b) => a - b);
    return show(got) === show(sorted) ? "" : `values in the order ${show(got)}`;
  });
});
