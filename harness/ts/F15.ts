import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

/** attempt collects what an iteration yields until it ends or throws. */
async function attempt(t: T, make: () => Promise<AsyncIterable<any>>): Promise<{ got: any[]; error?: any }> {
  const got: any[] = [];
  try {
    for await (const x of await make()) {
      got.push(x);
      if (got.length > 100000) t.fail("more than 100000 results");
    }
  } catch (error) {
    return { got, error };
  }
  return { got };
}

interface Ask {
  name: string;
  run: (db: any) => AsyncIterable<any>;
  show: (x: any) => string;
  unordered?: boolean;
}

/** asks draws a query, a search and the list of fields. */
function asks(t: T, d: ds.DataSet): Ask[] {
  const out: Ask[] = [];
  if (ds.scalarFields(d).length > 0) {
    const where = ds.conditions(t.r, d);
    const q: any = { where, orderBy: [{ key: where[0].key, direction: t.r.pick(["ASC", "DESC"]) }] };
    if (t.r.one(4)) q.limit = t.r.range(1, 5);
    out.push({ name: `query ${show(q)}`, show, run: (db) => db.query(q) });
  }
  const [min, max] = t.r.pick([
    [2, 2],
    [1, 3],
    [3, 3],
    [1, 1],
  ]);
  out.push({ name: `search ${min}-${max}`, unordered: true, show: (x) => `${x.data} ${x.score.toFixed(6)}`, run: (db) => db.search("s", "ab c", { minGram: min, maxGram: max }) });
  out.push({
    name: "fields",
    show,
    run: async function* (db) {
      yield* await db.fields();
    },
  });
  return out;
}

async function judge(t: T, what: string, a: Ask, whole: any, open: () => Promise<any>) {
  t.log(`${what}: ${a.name}`);
  const want = (await ds.collect<any>(a.run(whole))).map(a.show);
  const r = await attempt(t, async () => a.run(await open()));
  const got = r.got.map(a.show);
  if (a.unordered) {
    // what is added in another order is rounded differently, and then equal or not
    const left = new Map<string, number>();
    for (const w of want) left.set(w, (left.get(w) ?? 0) + 1);
    for (const g of got) {
      if (!left.get(g)) t.fail(`${what}: ${a.name}: ${g} is none of the results`);
      left.set(g, left.get(g)! - 1);
    }
  }
  const i = a.unordered ? -1 : got.findIndex((g, i) => g !== want[i]);
  if (i >= 0) t.fail(`${what}: ${a.name}: result ${i} is ${got[i]}, not ${want[i]}`);
  if (!r.error && got.length < want.length) t.fail(`${what}: ${a.name}: ends without an error after ${got.length} of ${want.length} results`);
  t.count(r.error ? "refused" : "unharmed");
  if (r.error && got.length) t.count("refused_midway");
  t.c.distinct(what, a.name);
}

async function make(t: T): Promise<ds.DataSet> {
  const lines = ds.genLines(t.r, ds.conf(t.r, t.r.pick([1, 2, 5, 20, 80, 400, 1200]))).map((l) => {
    const o = JSON.parse(l);
    o.s = t.r.pick(["ab c", "cab", "b a", "", "x"]);
    return JSON.stringify(o);
  });
  return await ds.make(t, lines, ["s"]);
}

/** large has records of a length that is seldom tried. */
async function large(t: T): Promise<ds.DataSet> {
  const lines = Array.from({ length: t.r.range(1, 3) }, (_, i) => JSON.stringify({ s: t.r.pick(["ab c", "cab"]), v: i, list: Array.from({ length: t.r.pick([3000, 20000, 40000]) }, () => t.r.int(10)) }) + " ".repeat(t.r.pick([0, 3, 70000])));
  return await ds.make(t, lines, ["s"]);
}

main("F15", async (c: C) => {
  c.rule("queries, searches and field lists with files cut short, or of which one answer or many are cut short, compared with those of the whole files: the same or an error; distinct by cut and query");
  await c.each(c.n(350, 12000), "cut", async (t) => {
    const d = await make(t);
    const whole = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let k = 0; k < 8; k++) {
      let data = d.data;
      let index = d.index;
      const pages = index.length / 4096;
      const which = t.r.pick(["index", "index", "data"]);
      if (which === "index") index = index.subarray(0, t.r.pick([4096 * t.r.int(pages), 4096 * t.r.int(pages) + t.r.int(4096), index.length - 1 - t.r.int(4096)]));
      else data = data.subarray(0, t.r.int(data.length));
      const what = `${which} cut to ${which === "index" ? index.length : data.length} of ${which === "index" ? d.index.length : d.data.length}`;
      for (const a of asks(t, d)) await judge(t, what, a, whole, () => init(ds.source(data).resolve as any, ds.source(index).resolve as any));
    }
  });
  await c.each(c.n(16, 300), "large", async (t) => {
    const d = await large(t);
    const whole = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let k = 0; k < 6; k++) {
      const back = t.r.pick([1, 2, 3, 4, 1000, 65536, t.r.int(70000)]);
      const [start, n] = t.r.pick(d.spans);
      const whats = t.r.one(2);
      const what = whats ? `data cut to ${Math.max(0, start + n - back)} of ${d.data.length}` : `long answers of the data file ${back} bytes short`;
      const shorten = async (ranges: ds.Range[]) => {
        t.count("answers_shortened");
        return ds.cut(d.data, ranges).map((x) => ({ ...x, data: x.data.byteLength > 5000 ? x.data.slice(0, Math.max(0, x.data.byteLength - back)) : x.data }));
      };
      for (const a of asks(t, d)) await judge(t, what, a, whole, () => init((whats ? ds.source(d.data.subarray(0, Math.max(0, start + n - back))).resolve : shorten) as any, ds.source(d.index).resolve as any));
    }
  });
  await c.each(c.n(350, 12000), "short", async (t) => {
    const d = await make(t);
    const whole = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let k = 0; k < 8; k++) {
      const which = t.r.pick(["index", "index", "data"]);
      const nth = t.r.pick([t.r.int(3), t.r.int(12), t.r.int(60)]);
      const back = t.r.pick([1, 2, 8, t.r.range(1, 4096)]);
      const what = `answer ${nth} of the ${which} file ${back} bytes short`;
      for (const a of asks(t, d)) {
        let n = 0;
        const shorten = async (ranges: ds.Range[]) => {
          const out = ds.cut(which === "index" ? d.index : d.data, ranges);
          return out.map((x) => (n++ === nth ? { ...x, data: x.data.slice(0, Math.max(0, x.data.byteLength - back)) } : x));
        };
        const open = () => (which === "index" ? init(ds.source(d.data).resolve as any, shorten as any) : init(shorten as any, ds.source(d.index).resolve as any));
        await judge(t, what, a, whole, open);
        if (n > nth) t.count("answers_shortened");
      }
    }
  });
  await c.each(c.n(350, 12000), "capped", async (t) => {
    const d = await make(t);
    const whole = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let k = 0; k < 8; k++) {
      const which = t.r.pick(["index", "data", "data", "data"]);
      const small = which === "data" && t.r.one(2);
      // answers of at most so many bytes, or a byte less where no more was asked for
      const n = which === "index" ? t.r.pick([4095, 4000, t.r.int(4096)]) : t.r.pick([t.r.range(2, 12), t.r.range(2, 40)]);
      const what = small ? `answers of up to ${n} bytes of the data file a byte short` : `answers of the ${which} file no longer than ${n}`;
      const shorten = async (ranges: ds.Range[]) =>
        ds.cut(which === "index" ? d.index : d.data, ranges).map((x) => {
          const l = x.data.byteLength;
          const keep = small ? (l <= n ? l - 1 : l) : Math.min(l, n);
          if (keep < l) t.count("answers_shortened");
          return { ...x, data: x.data.slice(0, keep) };
        });
      for (const a of asks(t, d)) {
        const open = () => (which === "index" ? init(ds.source(d.data).resolve as any, shorten as any) : init(shorten as any, ds.source(d.index).resolve as any));
        await judge(t, what, a, whole, open);
      }
    }
  });
});
