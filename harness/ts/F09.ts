import { main, T, show, C } from "./h";
import * as ds from "./ds";
import { Scheduler } from "./sched";
import { init } from "appendable/index";
import { cache } from "appendable/resolver/cache";

type Kind = "now" | "later" | "throw";

const WRONG = ["reject", "cut", 416, 404, 403, 500, 503, 429, 204, 301] as const;

/** Web is what the global fetch sees: both files at a server, and request number at goes wrong. */
class Web {
  n = 0;
  failed = 0;
  at = -1;
  wrong: (typeof WRONG)[number] = "reject";
  constructor(private files: Record<string, Buffer>) {}
  arm(at: number, wrong: (typeof WRONG)[number]) {
    this.n = 0;
    this.failed = 0;
    this.at = at;
    this.wrong = wrong;
  }
  fetch = async (url: any, init?: any): Promise<Response> => {
    const file = this.files[String(url)];
    const asked = String(new Headers(init?.headers).get("Range"))
      .replace("bytes=", "")
      .split(",")
      .map((s) => s.split("-").map(Number));
    let status = 206;
    const headers: Record<string, string> = {};
    let body: Buffer;
    const part = ([s, e]: number[]) => `bytes ${s}-${Math.min(e, file.length - 1)}/${file.length}`;
    if (asked.length === 1) {
      headers["Content-Range"] = part(asked[0]);
      headers["Content-Type"] = "text/plain";
      body = file.subarray(asked[0][0], asked[0][1] + 1);
    } else {
      headers["Content-Type"] = "multipart/byteranges; boundary=BBB";
      body = Buffer.concat([...asked.flatMap((a) => [Buffer.from(`--BBB\r\nContent-Range: ${part(a)}\r\n\r\n`), file.subarray(a[0], a[1] + 1), Buffer.from("\r\n")]), Buffer.from("--BBB--\r\n")]);
    }
    let cut = false;
    if (this.n++ === this.at) {
      this.failed++;
      if (this.wrong === "reject") throw new TypeError("fetch failed");
      if (this.wrong === "cut") cut = true;
      else {
        status = this.wrong;
        body = Buffer.from("<html>no</html>");
        for (const k of Object.keys(headers)) delete headers[k];
        if (status === 416) headers["Content-Range"] = `bytes */${file.length}`;
      }
    }
    await new Promise<void>((r) => setImmediate(r));
    const stream = new ReadableStream({
      start(ctl) {
        // a connection that breaks has delivered some of the answer
        if (body.length > 1) ctl.enqueue(Uint8Array.from(body.subarray(0, body.length >> 1)));
        if (cut) return ctl.error(new TypeError("terminated"));
        ctl.enqueue(Uint8Array.from(body.subarray(body.length > 1 ? body.length >> 1 : 0)));
        ctl.close();
      },
    });
    return new Response(status === 204 ? null : stream, { status, headers });
  };
}

/** Faulty serves both files and fails request number at, counted over both. */
class Faulty {
  n = 0;
  failed = 0;
  at = -1;
  kind: Kind = "now";
  serve(b: Buffer): ds.Resolver {
    return (ranges) => {
      const fail = this.n++ === this.at;
      if (fail) this.failed++;
      const error = new Error("injected failure");
      if (fail && this.kind === "throw") throw error;
      return (async () => {
        if (this.kind === "later") await new Promise<void>((r) => setImmediate(r));
        if (fail) throw error;
        return ds.cut(b, ranges);
      })();
    };
  }
  arm(at: number, kind: Kind) {
    this.n = 0;
    this.failed = 0;
    this.at = at;
    this.kind = kind;
  }
}

type Call = { what: string; search: boolean; run: (db: any) => AsyncIterable<any> };

async function* fields(db: any) {
  yield await db.fields();
}

function calls(t: T, d: ds.DataSet): Call {
  switch (t.r.int(9)) {
    case 0:
      return { what: "fields", search: false, run: fields };
    case 1: {
      const own = (d.fields.get("s") ?? []).filter((v) => v.type === ds.String_);
      const like = own.length ? t.r.pick(own).value.slice(0, 6) : "ab";
      const min = t.r.range(1, 3);
      const cfg = { minGram: min, maxGram: t.r.range(min, 3) };
      return { what: `search ${show(like)} ${show(cfg)}`, search: true, run: (db) => db.search("s", like, { ...cfg }) };
    }
    default: {
      const where = ds.conditions(t.r, d);
      const dir = t.r.pick([undefined, "ASC", "DESC"]);
      const limit = t.r.one(2) ? t.r.range(1, 6) : undefined;
      const select = t.r.one(4) ? [where[0].key] : undefined;
      const q = { where, orderBy: dir ? [{ key: where[0].key, direction: dir }] : undefined, limit, select };
      return { what: `query ${show(q)}`, search: false, run: (db) => db.query(q) };
    }
  }
}

async function pull(it: AsyncIterable<any>): Promise<{ out: any[]; error?: any }> {
  const out: any[] = [];
  try {
    for await (const x of it) out.push(x);
  } catch (error) {
    return { out, error };
  }
  return { out };
}

const sorted = (a: any[]) => [...a].sort((x, y) => (x.data < y.data ? -1 : x.data > y.data ? 1 : x.score - y.score));

function same(t: T, call: Call, got: any[], want: any[], when: string) {
  if (!call.search) return t.eq(got, want, `${call.what} ${when}`);
  const a = sorted(got);
  const b = sorted(want);
  t.eq(a.map((x) => x.data), b.map((x) => x.data), `records of ${call.what} ${when}`);
  a.forEach((x, i) => {
    if (Math.abs(x.score - b[i].score) > 1e-9 * (1 + Math.abs(b[i].score))) t.fail(`${call.what} ${when}: score ${x.score} of ${show(x.data)} and not ${b[i].score}`);
  });
}

async function data(t: T, n: number): Promise<ds.DataSet> {
  const cf = ds.conf(t.r, n);
  const lines = ds.genLines(t.r, cf).map((l) => {
    const o = JSON.parse(l);
    o.s = Array.from({ length: t.r.int(3) }, () => t.r.pick(["ab", "abc", "b"])).join(" ");
    return JSON.stringify(o);
  });
  return ds.make(t, lines, ["s"]);
}

async function each(t: T, d: ds.DataSet, call: Call, used: Call | undefined, cached: boolean) {
  const f = new Faulty();
  const wrap: any = cached ? cache : (x: any) => x;
  const open = async () => init(wrap(f.serve(d.data)) as any, wrap(f.serve(d.index)) as any);
  const prepare = async () => {
    f.arm(-1, "now");
    const db = await open();
    if (used) {
      const u = await pull(used.run(db));
      if (u.error) t.fail(`${used.what}: ${u.error}`);
    }
    return db;
  };
  // how many requests there are, and what should come of them
  let db = await prepare();
  f.arm(-1, "now");
  const right = await pull(call.run(db));
  if (right.error) t.fail(`${call.what} without failures: ${right.error?.stack}`);
  const total = f.n;
  t.c.max("most_requests_in_a_query", total);
  const what = `${call.what}${used ? ` after ${used.what}` : ""}${cached ? " through the cache" : ""}`;
  for (let at = 0; at < total; at++) {
    if (total > 150 && !t.c.thorough && !t.r.one(Math.ceil(total / 100))) continue;
    const kind = t.r.pick(["now", "later", "throw"] as const);
    db = await prepare();
    f.arm(at, kind);
    const got = await pull(call.run(db));
    if (f.failed !== 1) t.fail(`${what}: ${f.n} requests were made where ${total} were before`);
    if (!got.error) t.fail(`${what}: request ${at} of ${total} failed (${kind}) and the call returned ${got.out.length} of ${right.out.length} results without an error`);
    if (!/injected failure/.test(String(got.error?.message ?? got.error))) t.fail(`${what}: request ${at} of ${total} failed (${kind}) and the call reported something else: ${got.error?.stack}`);
    if (!call.search) t.eq(got.out, right.out.slice(0, got.out.length), `${what}: results before request ${at} failed`);
    f.arm(-1, "now");
    const again = await pull(call.run(db));
    if (again.error) t.fail(`${what}: request ${at} of ${total} failed (${kind}), and so does the next attempt: ${again.error?.stack}`);
    same(t, call, again.out, right.out, `again after request ${at} failed (${kind})`);
    t.count("faults");
    t.count("results_of_retries", again.out.length);
    t.c.distinct(d.data.length, what, at);
  }
  t.count("calls");
}

/** overHTTP is like each, for a client that was given addresses. */
async function overHTTP(t: T, d: ds.DataSet, call: Call) {
  const web = new Web({ "http://h/data": d.data, "http://h/index": d.index });
  const before = globalThis.fetch;
  globalThis.fetch = web.fetch as any;
  try {
    const useMultipartByteRanges = t.r.pick([true, false]);
    const open = () => init("http://h/data", "http://h/index", { useMultipartByteRanges });
    const what = `${call.what} ${useMultipartByteRanges ? "in parts" : "one by one"}`;
    web.arm(-1, "reject");
    const right = await pull(call.run(await open()));
    if (right.error) t.fail(`${what} without failures: ${right.error?.stack}`);
    const total = web.n;
    for (let at = 0; at < total; at++) {
      if (total > 40 && !t.r.one(Math.ceil(total / 40))) continue;
      const wrong = t.r.pick([...WRONG]);
      const db = await open();
      web.arm(at, wrong);
      const got = await pull(call.run(db));
      if (web.failed !== 1) t.fail(`${what}: ${web.n} requests were made where ${total} were before`);
      if (!got.error) t.fail(`${what}: request ${at} of ${total} was answered with ${wrong} and the call returned ${got.out.length} of ${right.out.length} results without an error`);
      if (!call.search) t.eq(got.out, right.out.slice(0, got.out.length), `${what}: results before request ${at} was answered with ${wrong}`);
      web.arm(-1, "reject");
      const again = await pull(call.run(db));
      if (again.error) t.fail(`${what}: request ${at} of ${total} was answered with ${wrong}, and the next attempt fails: ${again.error?.stack}`);
      same(t, call, again.out, right.out, `again after request ${at} was answered with ${wrong}`);
      t.count("http_faults");
      t.c.distinct(d.data.length, what, at, wrong);
    }
    t.count("calls");
  } finally {
    globalThis.fetch = before;
  }
}

main("F09", async (c: C) => {
  c.level = "fault_enumeration";
  c.rule("one failed request of one call, the call's error and results, and those of its repetition on the same client; distinct by data, call and request");
  await c.each(c.n(300, 6000), "case", async (t) => {
    const d = await data(t, t.r.pick([2, 6, 20, 60]));
    for (let i = 0; i < 5; i++) await each(t, d, calls(t, d), t.r.one(2) ? calls(t, d) : undefined, t.r.one(3));
  });
  await c.each(c.n(24, 400), "deep", async (t) => {
    const n = t.r.range(1500, 5000);
    const order = t.r.shuffle(Array.from({ length: n }, (_, i) => i));
    const d = await ds.make(t, order.map((k) => JSON.stringify({ k, s: "ab" + (k % 7) })), ["s"]);
    const value = t.r.int(n);
    const operation = t.r.pick(ds.OPS);
    const q = { where: [{ key: "k", operation, value }], orderBy: [{ key: "k", direction: t.r.pick(["ASC", "DESC"]) }], limit: t.r.range(1, 30) };
    await each(t, d, { what: `query ${show(q)}`, search: false, run: (db) => db.query(q) }, undefined, t.r.one(3));
  });
  await c.each(c.n(120, 3000), "http", async (t) => {
    const d = await data(t, t.r.pick([2, 6, 20]));
    for (let i = 0; i < 2; i++) await overHTTP(t, d, calls(t, d));
  });
  // one failure among concurrent calls: who is told may vary, what is returned may not
  await c.each(c.n(150, 4000), "concurrent", async (t) => {
    const d = await data(t, t.r.pick([3, 12, 40]));
    const list = Array.from({ length: t.r.range(2, 5) }, () => calls(t, d));
    const right: any[][] = [];
    for (const k of list) {
      const p = await pull(k.run(await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any)));
      if (p.error) t.fail(`${k.what}: ${p.error}`);
      right.push(p.out);
    }
    const bad = t.r.one(2) ? t.r.int(3) : t.r.int(40);
    let armed = true;
    const s = new Scheduler(t, t.r, t.r.pick(["any", "newest", "oldest"]));
    const fails = (n: number) => armed && n === bad;
    const wrap: any = t.r.one(3) ? cache : (x: any) => x;
    const db = await init(wrap(s.serve("d", d.data, fails)) as any, wrap(s.serve("i", d.index, fails)) as any);
    const out = await s.run(list.map((k) => () => pull(k.run(db))));
    let told = 0;
    out.forEach(({ value, error }, i) => {
      if (error) t.fail(`${list[i].what}: ${error}`);
      if (value!.error) {
        told++;
        if (s.failures === 0) t.fail(`${list[i].what} failed although no request did: ${value!.error?.stack}`);
      } else same(t, list[i], value!.out, right[i], "while another request failed");
    });
    if (s.failures > 0 && told === 0) t.fail(`request ${bad} failed and none of ${list.map((k) => k.what)} reported it`);
    armed = false;
    const again = await s.run(list.map((k) => () => pull(k.run(db))));
    again.forEach(({ value }, i) => {
      if (value!.error) t.fail(`${list[i].what}: fails again although requests succeed: ${value!.error?.stack}`);
      same(t, list[i], value!.out, right[i], "again");
    });
    t.count("concurrent_faults", s.failures);
    c.distinct("conc", d.data.length, s.order.join(" "));
  });
});
