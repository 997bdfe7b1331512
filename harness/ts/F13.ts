import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

/** agrees compares queries of a client that has the data file and an index with a covered prefix. */
async function agrees(t: T, covered: ds.DataSet, data: Buffer, index: Buffer, what: string, n: number) {
  await answers(t, await init(ds.source(data).resolve as any, ds.source(index).resolve as any), covered, data, what, n);
}

async function answers(t: T, db: any, covered: ds.DataSet, data: Buffer, what: string, n: number) {
  const scalars = ds.scalarFields(covered);
  for (let k = 0; k < n && scalars.length > 0; k++) {
    const where = ds.conditions(t.r, covered);
    const dir = t.r.pick(["ASC", "DESC"]);
    const got = (await ds.collect<any>(db.query({ where, orderBy: [{ key: where[0].key, direction: dir }] }))).map(show).sort();
    const want = ds.matches(covered, where).map((v) => covered.shown[v.rec]).sort();
    t.eq(got, want, `${what}: query ${show(where)} ${dir}`);
    t.count("queries");
    t.count("records_returned", got.length);
    t.c.distinct(what, show(where), dir, data.length);
  }
  if ((covered.fields.get("s") ?? []).some((v) => v.type === ds.String_)) {
    const hits = await ds.collect<any>(db.search("s", "ab", { minGram: 2, maxGram: 2 }));
    const found = new Set(hits.map((x) => x.data));
    const want = new Set(covered.lines.filter((l) => /ab/.test(JSON.parse(l).s ?? "")));
    t.eq([...found].sort(), [...want].sort(), `${what}: records found by a search`);
    // scored by the records that were indexed
    const with_ = covered.lines.map((l) => ((JSON.parse(l).s ?? "").match(/ab/g) ?? []).length).filter((x) => x > 0);
    const idf = Math.log((covered.lines.length - with_.length + 0.5) / (with_.length + 0.5));
    const score = (tf: number) => idf * ((tf * 2.2) / (tf + 1.2));
    t.eq(hits.length, with_.length, `${what}: results of a search`);
    for (const h of hits) {
      const expected = score((JSON.parse(h.data).s.match(/ab/g) ?? []).length);
      if (!(Math.abs(h.score - expected) <= 1e-9 * (1 + Math.abs(expected)))) t.fail(`${what}: a search scores ${h.data.slice(0, 200)} ${h.score}, not ${expected}`);
    }
    t.count("searches");
  }
}

main("F13", async (c: C) => {
  c.rule("queries by a client with the whole data file and an index of part of it, against the parsed lines of that part; then with the index caught up; distinct by history and query");
  await c.each(c.n(350, 9000), "lag", async (t) => {
    const total = t.r.one(30) ? 1500 : t.r.pick([1, 2, 5, 20, 80, 400]);
    const pad = t.r.one(8) ? "-".repeat(t.r.pick([900, 9000])) : "";
    const lines = ds.genLines(t.r, ds.conf(t.r, total)).map((l) => {
      const o = JSON.parse(l);
      o.s = t.r.pick(["ab c", "cab", "b a", "", "x", "abab ab"]);
      if (pad && t.r.one(4)) o.s += ` ${pad}`;
      return ds.write(t.r, o, t.r.int(3), t.r.int(2));
    });
    const whole = ds.describe(lines, ["s"]);
    const full = whole.data;
    let index: Buffer | undefined;
    let at = 0; // bytes of the data file that exist
    const snapshots: { index: Buffer; covered: ds.DataSet }[] = [];
    const steps = t.r.range(1, 5);
    for (let step = 0; step <= steps; step++) {
      // the file grows by lines, or to the middle of one
      if (step === steps) at = full.length;
      else {
        const [s, n] = t.r.pick(whole.spans);
        const to = t.r.pick([s + n + 1, s + n, s + t.r.int(n + 1), s]);
        at = Math.max(at, to);
      }
      const b = await ds.buildIndex(full.subarray(0, at), ["s"], index);
      if (b.err) t.fail(`indexing the first ${at} of ${full.length} bytes: ${b.err}`);
      index = b.index;
      // complete lines are the ones with a line feed
      const n = whole.spans.filter(([s, len]) => s + len + 1 <= at).length;
      const covered = ds.describe(lines.slice(0, n), ["s"]);
      snapshots.push({ index, covered });
      t.log(`indexed ${at} of ${full.length} bytes, ${n} of ${lines.length} lines`);
      // with the file as it was indexed, and as it will be
      await agrees(t, covered, full.subarray(0, at), index, `index of ${n} of ${total} records, file of ${at} bytes`, 2);
      await agrees(t, covered, full, index, `index of ${n} of ${total} records, whole file`, 3);
      if (n < lines.length) t.count("lagging_indexes");
    }
    const last = snapshots[snapshots.length - 1];
    t.eq(last.covered.lines.length, lines.length, "records covered in the end");
    // an old snapshot still answers as it did
    const old = t.r.pick(snapshots);
    await agrees(t, old.covered, full, old.index, `old index of ${old.covered.lines.length} records`, 2);
    // a client that stays open, with an index of the past, while the file grows
    const early = t.r.pick(snapshots);
    const least = early.covered.data.length;
    let size = t.r.range(least, full.length);
    const now = async (ranges: any[]) => ds.cut(full.subarray(0, size), ranges);
    const db = await init(now as any, ds.source(early.index).resolve as any);
    for (let k = 0; k < 3; k++) {
      await answers(t, db, early.covered, full, `client of an index of ${early.covered.lines.length} records, file grown to ${size} bytes`, 2);
      const grown = t.r.range(size, full.length);
      if (grown > size) t.count("growths_under_a_client");
      size = grown;
    }
    // or grows in the middle of a query's results
    const scalars = ds.scalarFields(early.covered);
    if (scalars.length > 0) {
      size = least;
      const open: any = await init(now as any, ds.source(early.index).resolve as any);
      const where = ds.conditions(t.r, early.covered);
      const got: string[] = [];
      for await (const x of open.query({ where })) {
        got.push(show(x));
        size = t.r.range(size, full.length);
      }
      t.eq(got.sort(), ds.matches(early.covered, where).map((v) => early.covered.shown[v.rec]).sort(), `query ${show(where)} while the file grows`);
      t.count("queries");
    }
    t.count("histories");
  });
});
