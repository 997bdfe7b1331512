import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";
import { Database } from "appendable/db/database";
import { QueryBuilder } from "appendable/db/query-builder";

interface Model {
  where: any[];
  orderBy?: any[];
  select?: any[];
  limit?: number;
}

/** shape leaves out what makes no difference. */
const shape = (q: any) => show({ where: q.where ?? [], orderBy: q.orderBy, select: q.select, limit: q.limit });

main("F11", async (c: C) => {
  c.rule("every query of a tree of builder calls, its clauses read back after each call anywhere in the tree; distinct by query");
  await c.each(c.n(1200, 40000), "tree", async (t) => {
    let asked: any;
    // what a query hands to the database is seen here
    const db: any = {
      query: (q: any) => {
        asked = q;
        return (async function* () {})();
      },
    };
    const nodes: { b: any; m: Model; how: string }[] = [];
    const where = (d: any) => Database.prototype.where.call(d, "a", ">", 1);
    for (let i = t.r.range(1, 2); i > 0; i--) nodes.push(t.r.one(2) ? { b: new QueryBuilder(db), m: { where: [] }, how: "q" } : { b: where(db), m: { where: [{ key: "a", operation: ">", value: 1 }] }, how: "q.where" });
    const given: { list: any[]; was: string }[] = [];
    const steps = t.r.one(25) ? 80 : t.r.range(1, 14);
    for (let i = 0; i < steps; i++) {
      const p = (steps === 80 ? t.r.one(40) : t.r.one(3)) ? t.r.pick(nodes) : nodes[nodes.length - 1];
      const m: Model = { ...p.m, where: [...p.m.where] };
      let b: any;
      let how: string;
      switch (t.r.int(6)) {
        case 0:
        case 1:
        case 2: {
          const w = { key: t.r.pick(["a", "b", "née"]), operation: t.r.pick(ds.OPS), value: t.r.pick([0, "x", null, false, 2n, ""]) };
          b = p.b.where(w.key, w.operation, w.value);
          m.where.push(w);
          how = `where(${show(w)})`;
          break;
        }
        case 3: {
          const o = { key: t.r.pick(["a", "b"]), direction: t.r.pick(["ASC", "DESC"]) };
          b = p.b.orderBy(o.key, o.direction);
          m.orderBy = [...(m.orderBy ?? []), o];
          how = `orderBy(${show(o)})`;
          break;
        }
        case 4: {
          const s = t.r.shuffle(["a", "b", "c"]).slice(0, t.r.range(0, 3));
          given.push({ list: s, was: show(s) });
          b = p.b.select(s);
          m.select = [...s];
          how = `select(${show(s)})`;
          break;
        }
        default: {
          const n = t.r.pick([0, 1, 5, 100]);
          b = p.b.limit(n);
          m.limit = n;
          how = `limit(${n})`;
        }
      }
      if (b === p.b) t.fail(`${p.how}.${how} returned the query it was called on`);
      nodes.push({ b, m, how: `${p.how}.${how}` });
      t.log(`${p.how}.${how}`);
      for (const n of nodes) {
        const want = shape(n.m);
        const q = n.b.toQuery();
        if (shape(q) !== want) t.fail(`after ${p.how}.${how}, ${n.how} is ${shape(q)} and not ${want}`);
        asked = undefined;
        n.b.get();
        if (!asked || shape(asked) !== want) t.fail(`after ${p.how}.${how}, ${n.how} asks for ${asked && shape(asked)} and not ${want}`);
        // what it hands out is a copy
        if (t.r.one(4)) {
          q.where.push({ key: "zzz", operation: "==", value: 0 });
          if (q.orderBy) q.orderBy.length = 0;
          if (q.select) q.select.push("zzz" as any);
          if (shape(n.b.toQuery()) !== want) t.fail(`changing what toQuery returned changes the query ${n.how}`);
        }
        t.count("queries_compared");
        c.distinct(want);
      }
      for (const g of given) if (show(g.list) !== g.was) t.fail(`the selection ${g.was} given to the builder became ${show(g.list)}`);
    }
    t.c.max("largest_tree", nodes.length);
  });
  // shared prefixes run for real
  await c.each(c.n(100, 2500), "run", async (t) => {
    const d = await ds.make(t, Array.from({ length: t.r.range(1, 30) }, (_, i) => JSON.stringify({ v: t.r.int(6), i })));
    const open = () => init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    const db: any = await open();
    const base = db.where("v", ">=", t.r.int(6));
    const list: { b: any; q: any }[] = [{ b: base, q: base.toQuery() }];
    for (let i = 0; i < 5; i++) {
      const p = t.r.pick(list);
      let b: any;
      const q = { ...p.q, where: [...p.q.where] };
      switch (t.r.int(4)) {
        case 0:
          b = p.b.where("v", "<", 4);
          q.where.push({ key: "v", operation: "<", value: 4 });
          break;
        case 1:
          b = p.b.orderBy("v", "DESC");
          q.orderBy = [...(q.orderBy ?? []), { key: "v", direction: "DESC" }];
          break;
        case 2:
          b = p.b.limit(i);
          q.limit = i;
          break;
        default:
          b = p.b.select(["i"]);
          q.select = ["i"];
      }
      list.push({ b, q });
    }
    for (const { b, q } of t.r.shuffle(list)) {
      t.eq(await ds.collect(b.get()), await ds.collect((await open()).query(q)), `results of ${show(q)} built and given`);
      t.count("built_queries_run");
      c.distinct("run", show(q), d.data.length);
    }
  });
});
