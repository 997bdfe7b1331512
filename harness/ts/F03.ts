import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";

main("F03", async (c: C) => {
  c.rule("a record yielded by a query against the JSON of its line, whole or reduced to the selected fields that are the record's own; distinct by record and selection");
  const run = async (t: T, far: boolean, extreme = false) => {
    const cf = ds.conf(t.r, t.r.pick([1, 3, 20, 80]));
    cf.escapes = t.r.int(3);
    cf.depth = t.r.range(0, 4);
    // every record carries the value it is found by, and the line number
    const base = extreme ? ds.extreme(t.r, t.index()) : ds.genLines(t.r, cf);
    const where = t.r.one(2) ? "find me" : "ñ/find";
    const lines = base.map((l, i) => ds.write(t.r, Object.defineProperty(JSON.parse(l), where, { value: i, enumerable: true, configurable: true, writable: true }), cf.spaces, cf.escapes));
    const d = await (far ? ds.far : ds.make)(t, lines);
    const data = ds.source(d.data);
    const db = await init(data.resolve as any, ds.source(d.index).resolve as any);
    const top = [...new Set(d.records.flatMap((r) => Object.keys(r)))];
    for (let k = 0; k < 10; k++) {
      const select = k === 0 ? undefined : t.r.shuffle(top).slice(0, t.r.range(1, top.length));
      if (select && t.r.one(6)) select.push(t.r.pick(select));
      // long ones, most of them names of nothing
      if (select && t.r.one(8)) select.unshift(...Array.from({ length: t.r.pick([12, 16, 40, 300]) }, (_, i) => "none" + i));
      if (select && t.r.one(6)) select.push("no such field");
      const dir = t.r.pick(["ASC", "DESC"] as const);
      const op = t.r.one(2) ? ">=" : t.r.pick(ds.OPS);
      const at = t.r.one(2) ? (op === ">=" ? 0 : op === "<=" ? lines.length : t.r.int(lines.length)) : t.r.int(lines.length);
      let q: any = (db as any).where(where, op, at).orderBy(where, dir);
      // in a far file, a record may come twice
      const found = d.records.filter((rec) => ds.holds(rec[where] - at, op)).sort((a, b) => a[where] - b[where]);
      if (select) q = q.select(select);
      t.log(`${op} ${at} select ${show(select)} ${dir}`);
      const got = await ds.collect<any>(q.get());
      t.eq(got.length, found.length, "number of records");
      for (let i = 0; i < got.length; i++) {
        const rec = found[dir === "ASC" ? i : got.length - 1 - i];
        let want: any = rec;
        if (select) {
          want = {};
          for (const f of select)
            if (Object.prototype.hasOwnProperty.call(rec, f)) Object.defineProperty(want, f, { value: rec[f], enumerable: true, configurable: true, writable: true });
        }
        if (Object.getPrototypeOf(got[i]) !== Object.prototype) t.fail(`record ${show(rec)} with selection ${show(select)} came with another prototype`);
        t.eq(got[i], want, `record ${show(rec)} with selection ${show(select)}`);
        t.c.distinct(d.data.length, i, show(select));
      }
      t.count("records_compared", got.length);
      if (select) t.count("selections");
    }
  };
  await c.each(c.n(500, 15000), "case", (t) => run(t, false));
  // files past where 31 and 32 bits reach
  await c.each(c.n(40, 1000), "far", (t) => run(t, true));
  await c.each(c.n(30, 500), "extreme", (t) => run(t, false, true));
  // a line of more bytes than three can count
  await c.each(c.n(1, 6), "enormous", async (t) => {
    const size = t.r.pick([2 ** 24 + 100, 2 ** 24 - 3, 2 ** 25 + 7]);
    const lines = ['{"v":0}', `{"v":1,"big":[${t.r.one(2) ? '"' + "x".repeat(size) + '"' : "1,".repeat(size / 2) + "2"}]}`, '{"v":2}'];
    const d = await ds.make(t, lines);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const got = await ds.collect<any>((db as any).where("v", ">=", 0).get());
    t.eq(got.length, 3, "number of records");
    got.forEach((g: any, i: number) => {
      const a = show(g);
      if (a !== d.shown[i]) t.fail(`record ${i} of ${d.shown[i].length} characters came with ${a.length}, or others`);
    });
    t.count("records_compared", 3);
    c.max("longest_record", size);
    c.distinct("enormous", size);
  });
  // long lines: the record is read from the data file in one piece
  await c.each(c.n(20, 200), "long", async (t) => {
    const lines = Array.from({ length: t.r.range(1, 6) }, (_, i) => JSON.stringify({ v: i, big: t.r.pick(["é", "x", "😀", "\\", '"']).repeat(t.r.range(1000, 300000)), list: Array.from({ length: t.r.int(2000) }, (_, k) => ({ k, s: String(k) })) }));
    const d = await ds.make(t, lines);
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const got = await ds.collect<any>((db as any).where("v", ">=", 0).get());
    t.eq(got.length, lines.length, "number of records");
    got.forEach((g: any, i: number) => {
      if (show(g) !== d.shown[i]) t.fail(`record ${i} of ${d.shown[i].length} characters differs`);
      t.c.distinct("long", d.shown[i].length);
    });
    t.count("records_compared", got.length);
  });
});
