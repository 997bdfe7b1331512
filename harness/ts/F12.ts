import { main, T, show, C, Rand } from "./h";
import * as ds from "./ds";
import { cache } from "appendable/resolver/cache";
import { init } from "appendable/index";

const tick = () => new Promise<void>((r) => setImmediate(r));

interface Read {
  start: number;
  end: number;
  // a failure is on its way to those that wait for it until the queue of
  // microtasks is empty: only then it is over
  state: "asked" | "read" | "failing" | "failed";
}

function failed(reads: Read[]) {
  for (const x of reads) x.state = "failing";
  setImmediate(() => {
    for (const x of reads) x.state = "failed";
  });
}

function ranges(r: Rand, size: number, past: ds.Range[]): ds.Range[] {
  return Array.from({ length: r.pick([1, 1, 1, 2, 4]) }, () => {
    const edge = () => r.int(size);
    if (past.length && !r.one(3)) {
      // near one that was read: the same, within, around, overlapping, adjacent
      const p = r.pick(past);
      const d = () => r.pick([0, 0, 1, -1, 2]);
      const s = Math.max(0, Math.min(size - 1, p.start + d()));
      const e = Math.max(s, p.end + d());
      switch (r.int(5)) {
        case 0:
          return { start: p.start, end: p.end };
        case 1:
          return { start: s, end: s };
        case 2: {
          const a = Math.min(size - 1, p.start + r.int(Math.max(1, Math.min(p.end, size - 1) - p.start + 1)));
          return { start: a, end: a + r.int(Math.max(1, p.end - a + 1)) };
        }
        case 3:
          return { start: Math.min(size - 1, p.end + 1), end: Math.min(size - 1, p.end + 1) + r.int(4) };
      }
      return { start: s, end: e };
    }
    const start = edge();
    return { start, end: start + r.pick([0, 1, 5, 40, size]) };
  });
}

main("F12", async (c: C) => {
  c.rule("a call through the cache against what its source holds, and the requests that reach the source against the ranges read before; distinct by the history of calls, answers and failures");
  await c.each(c.n(6000, 200000), "history", async (t) => {
    const file = Buffer.from(t.r.bytes(t.r.pick([1, 2, 10, 60, 300])));
    // what is read lies anywhere in something large
    const far = t.r.one(2) ? 0 : t.r.pick([2 ** 31 - 20, 2 ** 31, 2 ** 32 - 20, 2 ** 32 + 5, 2 ** 45, 2 ** 53 - 1000]);
    const reads: Read[] = [];
    const pending: (() => void)[] = [];
    const history: string[] = [];
    const faulty = t.r.one(3);
    const total = () => far + file.length;
    const source: ds.Resolver = (rs) => {
      for (const { start, end } of rs) {
        const within = reads.find((x) => (x.state === "asked" || x.state === "read") && x.start <= start && end <= x.end);
        if (within) t.fail(`${start}-${end} is requested although ${within.start}-${within.end} ${within.state === "read" ? "was read" : "is being read"} (${history.join(", ")})`);
      }
      const mine: Read[] = rs.map(({ start, end }) => ({ start, end, state: "asked" as const }));
      reads.push(...mine);
      t.count("source_requests");
      const fail = faulty && t.r.one(4);
      const name = rs.map((x) => `${x.start}-${x.end}`).join("+");
      history.push(`request ${name}`);
      if (fail && t.r.one(3)) {
        failed(mine);
        history.push(`throws`);
        throw new Error("injected failure");
      }
      return new Promise((resolve, reject) => {
        pending.push(() => {
          if (fail) failed(mine);
          else for (const m of mine) m.state = "read";
          history.push(`${fail ? "failure" : "answer"} ${name}`);
          if (fail) {
            t.count("source_failures");
            reject(new Error("injected failure"));
          } else resolve(rs.map(({ start, end }) => ({ data: Uint8Array.from(file.subarray(start - far, end - far + 1)).buffer, totalLength: total() })));
        });
      });
    };
    const read = cache(source as any);
    const past: ds.Range[] = [];
    let open = 0;
    let bad: any;
    const calls = t.r.range(1, 14);
    const call = async () => {
      const rs = ranges(t.r, file.length, past);
      past.push(...rs.map((x) => ({ ...x })));
      for (const x of rs) {
        x.start += far;
        x.end += far;
      }
      history.push(`call ${rs.map((x) => `${x.start}-${x.end}`).join("+")}`);
      const given = show(rs);
      // a call may share the failure of a read that is on its way
      const before = reads.length;
      const shares = reads.filter((x) => x.state === "asked" || x.state === "failing");
      open++;
      let got: any;
      let error: any;
      try {
        got = await read(rs);
      } catch (e) {
        error = e;
      }
      open--;
      const own = reads.slice(before);
      const injected = [...shares, ...own].some((x) => x.state === "failing" || x.state === "failed");
      if (error && !injected) return t.fail(`reading ${given} failed although no request of it did: ${error?.stack} (${history.join(", ")})`);
      if (error && !/injected failure/.test(String(error))) return t.fail(`reading ${given} failed with ${error?.stack}`);
      if (error) return t.count("failed_calls");
      if (show(rs) !== given) return t.fail(`the ranges ${given} given to the cache became ${show(rs)}`);
      t.eq(got.length, rs.length, `answers to ${given}`);
      rs.forEach(({ start, end }, i) => {
        const want = file.subarray(start - far, end - far + 1);
        if (!Buffer.from(got[i].data).equals(want)) t.fail(`reading ${start}-${end} of ${given} gave ${Buffer.from(got[i].data).toString("hex")}, not ${want.toString("hex")} (${history.join(", ")})`);
        t.eq(got[i].totalLength, total(), `total length with ${start}-${end}`);
        // what the caller does to its bytes is its own business
        if (t.r.one(2)) new Uint8Array(got[i].data).fill(0);
      });
      t.count("ranges_compared", rs.length);
      t.count("ranges_saved", rs.length - own.length > 0 ? rs.length - own.length : 0);
    };
    const running: Promise<void>[] = [];
    for (let made = 0; made < calls || open > 0 || pending.length > 0; ) {
      if (made < calls && (pending.length === 0 || t.r.one(2))) {
        made++;
        running.push(
          call().catch((e) => {
            bad = bad ?? e;
          }),
        );
      } else if (pending.length > 0) {
        pending.splice(t.r.int(pending.length), 1)[0]();
      } else {
        for (let i = 0; i < 30 && open > 0 && pending.length === 0; i++) await tick();
        if (open > 0 && pending.length === 0) {
          t.log(history.join(", "));
          t.fail(`a call does not finish although all requests were answered (${history.join(", ")})`);
        }
      }
      if (!t.r.one(4)) await tick();
      if (bad) {
        t.log(history.join(", "));
        throw bad;
      }
    }
    await Promise.all(running);
    if (bad) throw bad;
    t.count("calls", calls);
    c.distinct(history.join(","));
    c.sample(history.slice(0, 12));
  });
  // a cache that has seen a lot
  await c.each(c.n(12, 200), "long", async (t) => {
    const size = t.r.pick([20_000, 300_000, 6_000_000]);
    const file = Buffer.from(t.r.bytes(size));
    const want = (x: ds.Range) => file.subarray(x.start, x.end + 1);
    let asked: ds.Range[] = [];
    let fail = false;
    const read = cache((async (rs: ds.Range[]) => {
      asked.push(...rs);
      if (fail) throw new Error("injected failure");
      return rs.map((x) => ({ data: Uint8Array.from(want(x)).buffer, totalLength: size }));
    }) as any);
    const call = async (rs: ds.Range[], what: string, misses: ds.Range[]) => {
      asked = [];
      const got = await read(rs as any);
      if (show(asked) !== show(misses)) t.fail(`${what} ${show(rs).slice(0, 300)} requested ${show(asked).slice(0, 300)}, not ${show(misses).slice(0, 300)}`);
      t.eq(got.length, rs.length, `answers to ${what}`);
      rs.forEach((x, i) => {
        if (!want(x).equals(Buffer.from(got[i].data)) || got[i].totalLength !== size) t.fail(`${what} ${x.start}-${x.end} gave ${got[i].data.byteLength} bytes that differ, of ${got[i].totalLength}`);
      });
      t.count("ranges_compared", rs.length);
    };
    const total = t.r.pick([300, 1100, 4200]);
    const step = Math.floor(size / total);
    const all = Array.from({ length: total }, (_, i) => ({ start: i * step, end: i * step + t.r.int(step) }));
    all.splice(0, all.length, ...t.r.shuffle(all));
    for (let i = 0; i < all.length; ) {
      const rs = all.slice(i, i + t.r.pick([1, 1, 3, 90, 1500]));
      if (t.r.one(20)) {
        fail = true;
        const e = await read(rs as any).then(() => t.fail("a failed read went through"), (e: any) => e);
        if (!/injected failure/.test(String(e))) throw e;
        fail = false;
        await tick();
        t.count("failed_calls");
      }
      await call(rs, "reading", rs);
      i += rs.length;
    }
    const within = (x: ds.Range) => {
      const start = x.start + t.r.int(x.end - x.start + 1);
      return { start, end: start + t.r.int(x.end - start + 1) };
    };
    await call(all, "reading all again", []);
    for (let k = 0; k < 300; k++) {
      const x = all[t.r.pick([0, all.length - 1, t.r.int(all.length)])];
      await call(t.r.one(2) ? [x] : [within(x), within(x)], "reading again", []);
    }
    // everything at once, and then whatever is in it
    const whole = { start: 0, end: size - 1 };
    await call([whole], "reading everything", [whole]);
    for (let k = 0; k < 50; k++) await call([within(whole)], "reading in everything", []);
    c.max("most_ranges_held", total);
    c.distinct("long", size, total);
  });
  // queries through the cache are queries
  await c.each(c.n(150, 3000), "queries", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, ds.conf(t.r, t.r.pick([3, 30, 200]))));
    if (ds.scalarFields(d).length === 0) return;
    const di = ds.source(d.data);
    const ii = ds.source(d.index);
    const db = await init(cache(di.resolve as any), cache(ii.resolve as any));
    for (let k = 0; k < 4; k++) {
      const where = ds.conditions(t.r, d);
      const q: any = { where, orderBy: [{ key: where[0].key, direction: t.r.pick(["ASC", "DESC"]) }] };
      const near = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
      t.eq(await ds.collect(db.query(q)), await ds.collect(near.query(q)), `query ${show(q)} through the cache, and without`);
      t.count("cached_queries");
      // again: nothing new is read
      const n = di.requests.length + ii.requests.length;
      await ds.collect(db.query(q));
      const again = di.requests.length + ii.requests.length - n;
      if (again > 0) t.fail(`query ${show(q)} made ${again} requests when repeated through the cache`);
      c.distinct("q", show(q), d.data.length);
    }
  });
});
