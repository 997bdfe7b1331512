import { main, T, show, C, Rand } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

/** grams is the model of tokenization: lower-cased runs within words. */
function grams(s: string, min: number, max: number): string[] {
  const ascii = [...s.normalize("NFKD")].filter((ch) => ch.codePointAt(0)! < 128).join("");
  const words = ascii
    .split(/[\t\n\v\f\r ]/)
    .map((w) => w.replace(/[^A-Za-z0-9]/g, "").toLowerCase())
    .filter((w) => w.length >= min);
  const out: string[] = [];
  for (let n = min; n <= max; n++) for (const w of words) for (let i = 0; i + n <= w.length; i++) out.push(w.slice(i, i + n));
  return out;
}

type Hit = { score: number; magnitude: number };

class Model {
  // per n-gram: how often each record's field holds it
  private tf = new Map<string, Map<number, number>>();
  constructor(
    private d: ds.DataSet,
    field: string,
  ) {
    for (const v of d.fields.get(field) ?? []) {
      if (v.type !== ds.String_) continue;
      for (const n of [1, 2, 3])
        for (const g of grams(v.value, n, n)) {
          let m = this.tf.get(g);
          if (!m) this.tf.set(g, (m = new Map()));
          m.set(v.rec, (m.get(v.rec) ?? 0) + 1);
        }
    }
  }
  search(like: string, min: number, max: number): Map<number, Hit> {
    const out = new Map<number, Hit>();
    const n = this.d.lines.length;
    for (const g of grams(like, min, max)) {
      const m = this.tf.get(g);
      if (!m) continue;
      const idf = Math.log((n - m.size + 0.5) / (m.size + 0.5));
      for (const [rec, tf] of m) {
        const s = (idf * tf * 2.2) / (tf + 1.2);
        const h = out.get(rec) ?? { score: 0, magnitude: 0 };
        h.score += s;
        h.magnitude += Math.abs(s);
        out.set(rec, h);
      }
    }
    return out;
  }
}

const close = (a: number, b: number, m: number) => Math.abs(a - b) <= 1e-9 * (1 + m);

async function search(t: T, d: ds.DataSet, field: string, like: string, cfg: { minGram: number; maxGram: number } | undefined, db: any, model: Model) {
  const min = cfg?.minGram ?? 1;
  const max = cfg?.maxGram ?? 2;
  const what = `search ${show(field)} for ${show(like)} (${min} to ${max})`;
  t.log(what);
  const want = model.search(like, min, max);
  let it: any;
  const search: any = { key: field, like };
  if (cfg) search.config = { ...cfg };
  if (t.r.one(2)) it = cfg ? db.search(field, like, cfg) : db.search(field, like);
  else it = db.query({ search });
  const got: any[] = await ds.collect<any>(it);
  // by line; equal lines are told apart by nothing, so their scores are pooled
  const left = new Map<string, Hit[]>();
  for (const [rec, h] of want) {
    const l = d.lines[rec];
    if (!left.has(l)) left.set(l, []);
    left.get(l)!.push(h);
  }
  let prev = Infinity;
  for (const g of got) {
    if (typeof g.score !== "number" || Number.isNaN(g.score)) t.fail(`${what}: the score of ${show(g.data)} is ${show(g.score)}`);
    const hs = left.get(g.data);
    if (!hs) t.fail(`${what}: returned ${show(g.data)}, which ${d.lines.includes(g.data) ? "does not match or came before" : "is no record"}`);
    const i = hs!.findIndex((h) => close(h.score, g.score, h.magnitude));
    if (i < 0) t.fail(`${what}: ${show(g.data)} scored ${g.score}, not ${hs!.map((h) => h.score).join(" or ")}`);
    if (g.score > prev) t.fail(`${what}: a record of score ${g.score} follows one of ${prev}`);
    prev = g.score;
    hs!.splice(i, 1);
    if (hs!.length === 0) left.delete(g.data);
  }
  for (const l of left.keys()) t.fail(`${what}: did not return ${show(l)}`);
  t.count("searches");
  t.count("scores_compared", got.length);
  if (got.length > 1) t.count("rankings");
  t.c.distinct(d.data.length, what);
  t.c.sample({ what, records: d.lines.length, returned: got.length });

  if (t.r.one(4) && got.length > 0) {
    const limit = t.r.range(1, got.length + 1);
    const some: any[] = await ds.collect<any>(db.query({ search: { key: field, like, config: { minGram: min, maxGram: max } }, limit }));
    t.eq(some.length, Math.min(limit, got.length), `${what} limit ${limit}: number of records`);
    some.forEach((s, i) => {
      if (!close(s.score, got[i].score, [...want.values()].reduce((a, h) => Math.max(a, h.magnitude), 0))) t.fail(`${what} limit ${limit}: result ${i} has score ${s.score}, not ${got[i].score}`);
    });
    t.count("limited_searches");
  }
}

function phrase(r: Rand, words: string[], n: number): string {
  return Array.from({ length: r.range(0, n) }, () => r.pick(words)).join(r.pick([" ", " ", "  ", "\t", "\n"]));
}

main("F04", async (c: C) => {
  c.rule("a search's records and scores against a model that tokenizes the parsed lines itself; distinct by data and search");
  c.assume("scores may differ by rounding, which depends on the order of the searched n-grams");
  const run = async (t: T, make: typeof ds.make) => {
    const words = t.r.one(3) ? ["a", "b", "ab", "ba", "aa", "abc", "aab"] : t.r.shuffle(ds.WORDS).slice(0, t.r.range(2, 14));
    const fields = t.r.pick([["s"], ["s", "s2"], ["s", "o.s"], ["née"]]);
    const n = t.r.pick([1, 2, 3, 8, 30, 120]);
    const dup = t.r.one(4);
    const lines = Array.from({ length: n }, (_, i) => {
      const o: any = dup ? {} : { i };
      for (const f of fields) {
        const v = t.r.one(12) ? t.r.pick([null, 3, true, {}, ["a"]]) : phrase(t.r, words, 7);
        if (t.r.one(10)) continue;
        if (f === "o.s") o.o = { s: v };
        else o[f] = v;
      }
      return ds.write(t.r, o, t.r.int(3), t.r.int(3));
    });
    const d = await make(t, lines, fields);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (const f of fields) {
      if (!(d.fields.get(f) ?? []).some((v) => v.type === ds.String_)) continue;
      const model = new Model(d, f);
      for (let k = 0; k < 6; k++) {
        const own = t.r.pick(d.fields.get(f)!.filter((v) => v.type === ds.String_)).value;
        const like = t.r.one(3) ? own : t.r.one(4) ? ds.text(t.r) : phrase(t.r, words, 4);
        const min = t.r.range(1, 3);
        const cfg = t.r.one(4) ? undefined : { minGram: min, maxGram: t.r.range(min, 3) };
        await search(t, d, f, like, cfg, db, model);
      }
    }
  };
  await c.each(c.n(500, 12000), "case", (t) => run(t, ds.make));
  // files past where 31 and 32 bits reach
  await c.each(c.n(40, 1000), "far", (t) => run(t, ds.far));
  await c.each(c.n(50, 1000), "sparse", (t) => run(t, ds.sparse));
  // records by the ten thousand, of which few have the text
  await c.each(c.n(6, 60), "entries", async (t) => {
    const n = [70000, 128, 65536, 16384, 256, 65535, 127, 140000, 16383, 255, 32768][t.index() % 11];
    const lines = Array.from({ length: n - 20 }, () => "{}");
    for (let i = 0; i < 20; i++) lines.splice(t.r.int(lines.length + 1), 0, JSON.stringify({ i, s: phrase(t.r, ["ab", "ba", "aab", "c"], 4) }));
    const d = await ds.make(t, lines, ["s"]);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const model = new Model(d, "s");
    for (const like of ["ab", "aab c", "b"]) await search(t, d, "s", like, t.r.pick([undefined, { minGram: 1, maxGram: 3 }]), db, model);
    c.max("most_records", n);
  });
  // enough text for n-gram trees of several levels
  await c.each(c.n(12, 150), "deep", async (t) => {
    const n = t.r.range(300, c.thorough ? 3000 : 1000);
    const words = Array.from({ length: t.r.pick([5, 50, 500]) }, () => Array.from({ length: t.r.range(1, 9) }, () => t.r.pick([..."abcdefgh0"])).join(""));
    const d = await ds.make(
      t,
      Array.from({ length: n }, (_, i) => JSON.stringify({ i, s: phrase(t.r, words, 12) })),
      ["s"],
    );
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const model = new Model(d, "s");
    for (let k = 0; k < 4; k++) {
      const min = t.r.range(1, 3);
      await search(t, d, "s", phrase(t.r, words, 3), { minGram: min, maxGram: t.r.range(min, 3) }, db, model);
    }
  });
  // very many records found
  await c.each(c.n(2, 30), "many", async (t) => {
    const words = ["ab", "ba", "aab", "cab", "a", "b"];
    const n = t.r.range(3100, 5500);
    const d = await ds.make(t, Array.from({ length: n }, (_, i) => JSON.stringify({ i, s: phrase(t.r, words, 3) + " ab" })), ["s"]);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    await search(t, d, "s", t.r.pick(["ab", "ab cab", "b a"]), t.r.pick([undefined, { minGram: 2, maxGram: 2 }]), db, new Model(d, "s"));
    c.max("most_found", n);
  });
  // very long texts, searched for and searched
  await c.each(c.n(12, 150), "long", async (t) => {
    const words = Array.from({ length: t.r.pick([5, 50, 500]) }, () => Array.from({ length: t.r.range(1, 9) }, () => t.r.pick([..."abcdefgh0"])).join(""));
    const text = (n: number) => Array.from({ length: n }, () => t.r.pick(words)).join(" ");
    const longs = t.r.one(2);
    const lines = Array.from({ length: 20 }, (_, i) => JSON.stringify({ i, s: text(longs && t.r.one(4) ? t.r.pick([600, 2500]) : t.r.range(0, 6)) }));
    // what only the end of the long text finds
    lines.push(JSON.stringify({ i: -1, s: "zyx zzy" }));
    const d = await ds.make(t, lines, ["s"]);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const model = new Model(d, "s");
    for (let k = 0; k < 3; k++) {
      const min = t.r.range(1, 3);
      // one or the other: what is read is the product
      const like = text(t.r.pick(longs ? [1, 2] : [1, 40, 100])) + " " + t.r.pick(["zyx", "", "q".repeat(t.r.pick([70, 300])) + "zyx"]);
      await search(t, d, "s", like, { minGram: min, maxGram: t.r.range(min, 3) }, db, model);
    }
  });
  await c.each(c.n(60, 1000), "refused", async (t) => {
    const d = await ds.make(t, Array.from({ length: 5 }, (_, i) => JSON.stringify({ s: "some text " + i, other: "some text", n: i })), ["s"]);
    const data = ds.source(d.data);
    const db = await init(data.resolve as any, ds.source(d.index).resolve as any);
    const key: any = t.r.pick(["other", "n", "missing", "S", "s "]);
    const min = t.r.range(1, 3);
    const e = await t.rejects(() => ds.collect<any>(t.r.one(2) ? db.search(key, "some", { minGram: min, maxGram: t.r.range(min, 3) }) : db.query({ search: { key, like: "some" } } as any)), `search on ${key}`);
    t.log(String(e));
    t.eq(data.requests.length, 0, "requests of records");
    t.count("refused_searches");
    c.distinct("refused", key, min);
  });
});
