import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { Scheduler } from "./sched";
import { init } from "appendable/index";
import { cache } from "appendable/resolver/cache";

type Task = { what: string; run: (db: any, pause: () => Promise<void>) => Promise<any>; search: boolean };

async function pull(it: AsyncIterable<any>, pause: () => Promise<void>, stop: number): Promise<any[]> {
  const out: any[] = [];
  for await (const x of it) {
    out.push(x);
    if (out.length === stop) break;
    await pause();
  }
  return out;
}

function task(t: T, d: ds.DataSet): Task {
  const stop = t.r.one(5) ? t.r.range(1, 5) : -1;
  switch (t.r.int(8)) {
    case 0:
      return { what: "fields", search: false, run: (db) => db.fields() };
    case 1:
    case 2: {
      const f = t.r.pick(d.search);
      const own = (d.fields.get(f) ?? []).filter((v) => v.type === ds.String_);
      const like = own.length ? t.r.pick(own).value.slice(0, 12) : "ab";
      const min = t.r.range(1, 3);
      const cfg = { minGram: min, maxGram: t.r.range(min, 3) };
      return { what: `search ${f} ${show(like)} ${show(cfg)}`, search: true, run: (db, p) => pull(db.search(f, like, { ...cfg }), p, -1) };
    }
    default: {
      const where = ds.conditions(t.r, d);
      const dir = t.r.pick([undefined, "ASC", "DESC"]);
      const limit = t.r.one(3) ? t.r.range(1, 6) : undefined;
      const q = { where, orderBy: dir ? [{ key: where[0].key, direction: dir }] : undefined, limit };
      return { what: `query ${show(q)} stop ${stop}`, search: false, run: (db, p) => pull(db.query(q), p, stop) };
    }
  }
}

const sorted = (a: any[]) => [...a].sort((x, y) => (x.data < y.data ? -1 : x.data > y.data ? 1 : x.score - y.score));

function compare(t: T, task: Task, got: any, want: any, when: string) {
  if (!task.search) {
    t.eq(got, want, `${task.what} ${when}, and alone`);
    return;
  }
  const a = sorted(got);
  const b = sorted(want);
  t.eq(
    a.map((x) => x.data),
    b.map((x) => x.data),
    `records of ${task.what} ${when}, and alone`,
  );
  a.forEach((x, i) => {
    if (Math.abs(x.score - b[i].score) > 1e-9 * (1 + Math.abs(b[i].score))) t.fail(`${task.what} ${when}: score ${x.score} of ${show(x.data)}, and ${b[i].score} alone`);
  });
}

main("F05", async (c: C) => {
  c.rule("what each of several concurrent calls on one client returns against the same call alone on a client of its own; distinct by the order in which requests were answered");
  const run = async (t: T, sizes: number[], calls: number) => {
    const cf = ds.conf(t.r, t.r.pick(sizes));
    const lines = ds.genLines(t.r, cf).map((l) => {
      const o = JSON.parse(l);
      o.s = Array.from({ length: t.r.int(4) }, () => t.r.pick(["ab", "abc", "b", "ca"])).join(" ");
      return JSON.stringify(o);
    });
    const d = await ds.make(t, lines, ["s"]);
    const tasks = Array.from({ length: calls }, () => task(t, d));
    // the same call more than once, too
    if (t.r.one(2)) tasks.push(t.r.pick(tasks));
    t.log(tasks.map((x) => x.what).join("\n"));
    const alone: any[] = [];
    const now = async () => {};
    for (const k of tasks) alone.push(await k.run(await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any), now));
    // long results are not pulled in lockstep with everything else
    if (alone.reduce((n, a) => n + a.length, 0) > (calls > 7 ? 6000 : 1500)) return;
    const wrap = t.r.one(3) ? (cache as any) : (x: any) => x;
    for (let round = 0; round < 2; round++) {
      const s = new Scheduler(t, t.r, t.r.pick(["any", "newest", "oldest", "starve"]));
      const db = await init(wrap(s.serve("d", d.data)) as any, wrap(s.serve("i", d.index)) as any);
      if (round === 1 && t.r.one(2)) {
        // a client that has been used
        const [u] = await s.run([() => tasks[0].run(db, () => s.pause())]);
        if (u.error) throw u.error;
      }
      const slow = t.r.one(2);
      const out = await s.run(tasks.map((k) => () => k.run(db, slow ? () => s.pause() : now)));
      t.log("answered: " + s.order.join(" ").slice(0, 3000));
      out.forEach((o, i) => {
        if (o.error) t.fail(`${tasks[i].what} failed along with others: ${o.error?.stack ?? o.error}`);
        compare(t, tasks[i], o.value, alone[i], "along with others");
      });
      t.count("concurrent_calls", tasks.length);
      t.count("requests_answered", s.requests);
      t.c.max("most_answers_in_a_run", s.order.length);
      c.distinct(d.data.length, s.order.join(" "));
    }
  };
  await c.each(c.n(450, 12000), "case", (t) => run(t, [1, 3, 12, 40, t.r.range(60, 500)], t.r.range(2, 7)));
  await c.each(c.n(12, 200), "many", async (t) => {
    const calls = t.r.range(40, 400);
    await run(t, [1, 3, 12, 40], calls);
    t.c.max("most_calls_at_once", calls);
  });
});
