import { main, T, show, C, Rand } from "./h";
import * as http from "http";
import { AddressInfo } from "net";
import * as ds from "./ds";
import { init } from "appendable/index";
import { requestRanges } from "appendable/resolver/range-request";
import { LengthIntegrityError } from "appendable/resolver/resolver";
import { DataFile } from "appendable/file/data-file";

type Span = [number, number]; // both ends included

interface Answer {
  status: number;
  headers: Record<string, string>;
  body: Buffer;
}

/** How a server answers. Honest ones all mean the same. */
interface Manner {
  /** answer several ranges with the whole file, as if it knew none */
  ignoreMany: boolean;
  /** many ranges that come to one as a multipart body of one part */
  wrapOne: boolean;
  order: "same" | "shuffled" | "reversed";
  coalesce: "no" | "overlapping" | "gaps" | "all";
  /** the total as an asterisk */
  star: boolean;
  leading: boolean;
  extra: boolean;
}

function manner(r: Rand): Manner {
  return {
    ignoreMany: r.one(5),
    wrapOne: r.one(4),
    order: r.pick(["same", "same", "shuffled", "reversed"] as const),
    coalesce: r.pick(["no", "no", "overlapping", "gaps", "all"] as const),
    star: r.one(8),
    leading: r.one(2),
    extra: r.one(3),
  };
}

function parse(header: string | null): Span[] | null {
  const m = /^bytes=(\d+-\d+(?:,\s*\d+-\d+)*)$/.exec(header ?? "");
  if (!m) return null;
  return m[1].split(",").map((s) => s.trim().split("-").map(Number) as Span);
}

function coalesce(spans: Span[], gap: number): Span[] {
  const out: Span[] = [];
  for (const [s, e] of [...spans].sort((a, b) => a[0] - b[0] || a[1] - b[1])) {
    const last = out[out.length - 1];
    if (last && s <= last[1] + 1 + gap) last[1] = Math.max(last[1], e);
    else out.push([s, e]);
  }
  return out;
}

function multipart(r: Rand, file: Buffer, spans: Span[], m: Manner, total: string): Answer {
  const token = r.pick(["B0UNDARY", "3d6b6a416f9b5", "--x", "a=b"]);
  const out: Buffer[] = [Buffer.from(m.leading ? "\r\n" : "")];
  for (const [s, e] of spans) {
    const hs = [`Content-Range: bytes ${s}-${e}/${total}`];
    if (m.extra) hs.push("Content-type: application/octet-stream");
    if (r.one(2)) hs.reverse();
    if (r.one(4)) hs[0] = hs[0].toLowerCase();
    out.push(Buffer.from(`--${token}\r\n${hs.join("\r\n")}\r\n\r\n`), file.subarray(s, e + 1), Buffer.from("\r\n"));
  }
  out.push(Buffer.from(`--${token}--\r\n`));
  return { status: 206, headers: { "Content-Type": `multipart/byteranges; boundary=${/[=]/.test(token) ? `"${token}"` : token}` }, body: Buffer.concat(out) };
}

function single(file: Buffer, [s, e]: Span, total: string): Answer {
  return { status: 206, headers: { "Content-Type": "application/octet-stream", "Content-Range": `bytes ${s}-${e}/${total}` }, body: file.subarray(s, e + 1) };
}

/** serve answers a request for file. */
function serve(r: Rand, file: Buffer, range: string | null, m: Manner): Answer {
  const asked = parse(range);
  if (!asked) return { status: 200, headers: { "Content-Type": "text/plain" }, body: file };
  if (asked.length > 1 && m.ignoreMany) return { status: 200, headers: { "Content-Type": "text/plain" }, body: file };
  let spans = asked.filter(([s, e]) => s < file.length && s <= e).map(([s, e]) => [s, Math.min(e, file.length - 1)] as Span);
  if (spans.length === 0) return { status: 416, headers: { "Content-Range": `bytes */${file.length}` }, body: Buffer.alloc(0) };
  const cut = asked.some(([, e]) => e >= file.length);
  const total = m.star && !cut ? "*" : String(file.length);
  if (m.coalesce === "overlapping") spans = coalesce(spans, 0);
  if (m.coalesce === "gaps") spans = coalesce(spans, 80);
  if (m.coalesce === "all") spans = coalesce(spans, Infinity);
  if (m.order === "shuffled") spans = r.shuffle(spans);
  if (m.order === "reversed") spans = spans.reverse();
  // a single range asked for is never answered with a multipart body (RFC 9110)
  if (spans.length === 1 && !(m.wrapOne && asked.length > 1)) return single(file, spans[0], total);
  return multipart(r, file, spans, m, total);
}

function respond(r: Rand, a: Answer): Response {
  const b = Uint8Array.from(a.body);
  const stream = new ReadableStream({
    async start(ctl) {
      for (let i = 0; i < b.length; ) {
        const n = b.length > 3000 ? r.range(500, 9000) : r.range(1, 900);
        ctl.enqueue(b.slice(i, i + n));
        i += n;
      }
      ctl.close();
    },
  });
  return new Response(a.status === 204 || a.status === 304 ? null : stream, { status: a.status, headers: a.headers });
}

function ranges(r: Rand, size: number, beyond: boolean): ds.Range[] {
  const n = r.one(60) ? r.pick([129, 257, 700]) : r.pick([1, 1, 2, 3, 8, 40]);
  const out: ds.Range[] = [];
  for (let i = 0; i < n; i++) {
    if (out.length && r.one(5)) {
      const o = r.pick(out);
      out.push(r.pick([{ ...o }, { start: o.start, end: o.start }, { start: o.end, end: o.end }, { start: Math.max(0, o.start - 3), end: o.end + 1 }]));
      continue;
    }
    const start = r.int(size);
    const len = r.pick([1, 1, 2, 10, 100, 4096]);
    out.push({ start, end: start + len - 1 });
  }
  return beyond ? out.map(({ start, end }) => ({ start: Math.min(start, size - 1), end })) : out.map(({ start, end }) => ({ start: Math.min(start, size - 1), end: Math.min(end, size - 1) }));
}

const bytes = (b: ArrayBuffer) => Buffer.from(b);

function compare(t: T, file: Buffer, rs: ds.Range[], got: { data: ArrayBuffer; totalLength: number }[], what: string, star: boolean) {
  t.eq(got.length, rs.length, `${what}: number of answers`);
  rs.forEach(({ start, end }, i) => {
    const want = file.subarray(start, end + 1);
    if (!bytes(got[i].data).equals(want)) t.fail(`${what}: range ${i} (${start}-${end} of ${file.length}) gave ${got[i].data.byteLength} bytes ${bytes(got[i].data).subarray(0, 30).toString("hex")}, not ${want.length} bytes ${want.subarray(0, 30).toString("hex")}`);
    if (!star) t.eq(got[i].totalLength, file.length, `${what}: length of the file with range ${i}`);
  });
}

main("F07", async (c: C) => {
  c.rule("a list of ranges requested from a server of some manner: its bytes compared with the file, or an error where the answer is not one; distinct by manner, ranges and file");
  const realFetch = globalThis.fetch;

  await c.each(c.n(6000, 200000), "honest", async (t) => {
    const file = Buffer.from(t.r.bytes(t.r.pick([1, 2, 50, 500, 5000, 20000])));
    const m = manner(t.r);
    const rs = ranges(t.r, file.length, true);
    const multi = t.r.pick([true, undefined, false]);
    const right = t.r.one(2);
    const list = rs.map((x) => (right && !m.star ? { ...x, expectedLength: file.length } : { ...x }));
    const seen: string[] = [];
    globalThis.fetch = (async (url: any, opt: any) => {
      const h = new Headers(opt?.headers).get("range");
      seen.push(String(h));
      if (String(url) !== "http://host/file") t.fail(`requested ${url}`);
      // answers to concurrent requests come in any order
      for (let k = t.r.int(3); k > 0; k--) await new Promise<void>((x) => setImmediate(x));
      return respond(t.r, serve(t.r, file, h, m));
    }) as any;
    const what = `ranges ${show(rs)} of ${file.length} bytes, server ${show(m)}, multipart ${multi}`;
    t.log(what);
    const got = await requestRanges("http://host/file", list, multi === undefined ? {} : { useMultipartByteRanges: multi });
    compare(t, file, rs, got as any, what, m.star);
    const wanted = rs.map(({ start, end }) => `${start}-${end}`);
    const norm = (h: string) => h.replace(/^bytes=/, "").replace(/\s/g, "");
    if (multi === false) t.eq(seen.map(norm).sort(), [...wanted].sort(), `${what}: ranges asked for when only one at a time may be`);
    else {
      const first = new Set(norm(seen[0]).split(","));
      for (const w of wanted) if (!first.has(w)) t.fail(`${what}: the first request asks for ${seen[0]} and not for ${w}`);
      if (!(m.ignoreMany && rs.length > 1)) t.eq(seen.length, 1, `${what}: requests`);
    }
    t.count("ranges_compared", rs.length);
    t.count("http_requests", seen.length);
    if (m.coalesce !== "no") t.count("coalesced_answers");
    if (m.ignoreMany && rs.length > 1) t.count("fallbacks");
    t.c.distinct(what);
  });

  // a file so large that positions in it are no 32-bit numbers
  await c.each(c.n(300, 8000), "far", async (t) => {
    const size = t.r.pick([2 ** 31 + 50, 2 ** 32 + 77, 2 ** 40, 2 ** 52]);
    const key = t.r.int(251);
    const at = (i: number) => (i % 251 ^ (i / 65536) % 256 ^ key) & 255;
    const far: any = {
      length: size,
      subarray(s: number, e: number) {
        const b = Buffer.alloc(Math.max(0, Math.min(e, size) - s));
        for (let i = 0; i < b.length; i++) b[i] = at(s + i);
        return b;
      },
    };
    const m = manner(t.r);
    m.ignoreMany = false;
    if (m.coalesce === "all") m.coalesce = "gaps";
    const rs: ds.Range[] = Array.from({ length: t.r.pick([1, 2, 3, 8]) }, () => {
      const start = Math.max(0, Math.min(size - 1, t.r.pick([0, 1000, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 40, 2 ** 52, size]) - t.r.int(30)));
      return { start, end: start + t.r.pick([0, 1, 10, 100]) };
    });
    const multi = t.r.pick([true, false]);
    const list = rs.map((x) => (t.r.one(2) && !m.star ? { ...x, expectedLength: size } : { ...x }));
    globalThis.fetch = (async (_: any, opt: any) => respond(t.r, serve(t.r, far, new Headers(opt?.headers).get("range"), m))) as any;
    const what = `ranges ${show(rs)} of ${size} bytes, server ${show(m)}, multipart ${multi}`;
    t.log(what);
    compare(t, far, rs, (await requestRanges("http://host/file", list, { useMultipartByteRanges: multi })) as any, what, m.star);
    t.count("far_ranges", rs.length);
    t.c.distinct(what);
  });

  await c.each(c.n(4000, 100000), "hostile", async (t) => {
    const file = Buffer.from(t.r.bytes(t.r.pick([50, 500, 5000])));
    const m = manner(t.r);
    m.star = false;
    const rs = ranges(t.r, file.length, false);
    const multi = t.r.one(3) ? false : true;
    const kind = t.r.pick(["status", "network", "short", "missing", "no range", "length", "outside", "reset", "whole", "type", "elsewhere", "empty", "nowhere", "backwards"]);
    const victim = t.r.int(rs.length);
    let list: ds.Range[] = rs.map((x) => ({ ...x }));
    if (kind === "length") list[victim].expectedLength = file.length + t.r.pick([1, -1, 100]);
    if (kind === "outside") list[victim] = { start: file.length + t.r.int(5), end: file.length + 10 };
    if (kind === "backwards") list[victim] = { start: 9, end: 8 - t.r.int(5) };
    // the byte the victim starts with is what a short or partial answer leaves out
    const v = list[victim];
    const status = t.r.pick([204, 304, 400, 401, 403, 404, 410, 416, 429, 500, 502, 503]);
    const nth = multi ? 0 : victim;
    let requests = 0;
    let did = false;
    const handle = async (url: any, opt: any): Promise<Response> => {
      const h = new Headers(opt?.headers).get("range");
      const mine = multi ? true : requests === nth;
      requests++;
      if (!mine && parse(h)?.some(([s, e]) => s === v.start && e === v.end) !== true) return respond(t.r, serve(t.r, file, h, m));
      const asked = parse(h) ?? [];
      const total = String(file.length);
      switch (kind) {
        case "status":
          did = true;
          return respond(t.r, { status, headers: { "Content-Type": "text/html", "Content-Range": `bytes ${v.start}-${v.end}/${total}` }, body: Buffer.from("<h1>no</h1>") });
        case "network":
          did = true;
          throw new TypeError("fetch failed");
        case "short": {
          // ends before the range does
          did = true;
          const spans = asked.map(([s, e]) => [s, e] as Span);
          const hit = spans.filter(([s, e]) => s <= v.start && e >= v.end);
          for (const s of spans) if (s[0] <= v.end && s[1] >= v.end) s[1] = v.end - 1;
          const keep = spans.filter(([s, e]) => s <= e);
          return respond(t.r, keep.length === 1 && t.r.one(2) ? single(file, keep[0], total) : multipart(t.r, file, keep, m, total));
        }
        case "missing": {
          did = true;
          const keep = asked.filter(([s, e]) => !(s <= v.start && e >= v.end));
          return respond(t.r, multipart(t.r, file, keep, m, total));
        }
        case "no range":
          did = true;
          return respond(t.r, { status: 206, headers: { "Content-Type": "application/octet-stream" }, body: file.subarray(v.start, v.end + 1) });
        case "reset": {
          did = true;
          const a = serve(t.r, file, h, { ...m, ignoreMany: false });
          const stop = t.r.int(Math.max(1, a.body.length - 8));
          return new Response(
            new ReadableStream({
              start(ctl) {
                if (stop) ctl.enqueue(Uint8Array.from(a.body.subarray(0, stop)));
                ctl.error(new TypeError("terminated"));
              },
            }),
            { status: a.status, headers: a.headers },
          );
        }
        case "whole":
          did = true;
          return respond(t.r, { status: 200, headers: { "Content-Type": "text/plain" }, body: file });
        case "type":
          did = true;
          return respond(t.r, { status: 206, headers: { "Content-Type": "text/html" }, body: file });
        case "elsewhere": {
          // another place of the file, of the length asked for
          did = true;
          const len = v.end - v.start + 1;
          const spans = asked.map(([s, e]) => {
            if (s > v.end || e < v.start) return [s, e] as Span;
            const at = s + 1 + e - s;
            return [at, at + e - s] as Span;
          });
          const bad = { ...m };
          // the bytes claimed to be there need not exist
          const big = Buffer.concat([file, Buffer.alloc(20000)]);
          return respond(t.r, spans.length === 1 && t.r.one(2) ? single(big, spans[0], String(big.length)) : multipart(t.r, big, spans, bad, String(big.length)));
        }
        case "empty":
          did = true;
          return respond(t.r, { status: 206, headers: { "Content-Type": "application/octet-stream", "Content-Range": `bytes ${v.start}-${v.end}/${total}` }, body: Buffer.alloc(0) });
        case "nowhere":
          did = true;
          return respond(t.r, { status: 206, headers: { "Content-Type": "application/octet-stream", "Content-Range": t.r.pick([`bytes */${total}`, "bytes", "", `bytes x-y/${total}`]) }, body: t.r.one(2) ? Buffer.alloc(0) : file.subarray(v.start, v.end + 1) });
        case "length":
        case "outside":
        case "backwards":
          did = true;
          return respond(t.r, serve(t.r, file, h, m));
      }
      throw new Error("no such kind");
    };
    globalThis.fetch = handle as any;
    const what = `${kind} for range ${victim} of ${show(list)} of ${file.length} bytes, server ${show(m)}, multipart ${multi}, status ${status}`;
    t.log(what);
    let got: any;
    let error: any;
    try {
      got = await requestRanges("http://host/file", list, { useMultipartByteRanges: multi });
    } catch (e) {
      error = e;
    }
    if (kind === "whole" && multi && !error) {
      // the fallback was answered the same way, so this cannot be
      t.fail(`${what}: no error`);
    }
    if (!error) {
      t.fail(`${what}: taken for data: ${show(got.map((x: any) => [x.data.byteLength, x.totalLength])).slice(0, 300)}`);
    }
    if (kind === "length" && !(error instanceof LengthIntegrityError)) t.fail(`${what}: the length differs and the error is ${error?.stack}`);
    t.count("refused_answers");
    t.count(`refused_${kind.replace(/ /g, "_")}`);
    if (!did && kind !== "backwards") t.fail(`${what}: no request was made`);
    t.c.distinct(what);
  });

  // a real server, and queries through it
  await c.each(c.n(60, 1200), "http", async (t) => {
    globalThis.fetch = realFetch;
    const lines = ds.genLines(t.r, ds.conf(t.r, t.r.pick([1, 5, 40])));
    const d = await ds.make(t, lines.map((l, i) => JSON.stringify({ ...JSON.parse(l), s: ["ab", "abc", "b c"][i % 3] })), ["s"]);
    const m = manner(t.r);
    m.star = false;
    let down = false;
    let served = 0;
    const server = http.createServer((req, res) => {
      served++;
      if (down) {
        if (t.r.one(2)) res.destroy();
        else {
          res.writeHead(503, { "Content-Type": "text/plain" });
          res.end("later");
        }
        return;
      }
      const a = serve(t.r, req.url === "/data" ? d.data : d.index, (req.headers.range as string) ?? null, m);
      res.writeHead(a.status, { ...a.headers, "Content-Length": String(a.body.length) });
      if (t.r.one(2)) res.end(a.body);
      else {
        const k = t.r.int(a.body.length + 1);
        res.write(a.body.subarray(0, k));
        setImmediate(() => res.end(a.body.subarray(k)));
      }
    });
    await new Promise<void>((x) => server.listen(0, "127.0.0.1", x));
    try {
      const url = `http://127.0.0.1:${(server.address() as AddressInfo).port}`;
      const cfg = t.r.pick([undefined, { useMultipartByteRanges: true }, { useMultipartByteRanges: false }]);
      const db = await init(`${url}/data`, `${url}/index`, cfg);
      const near = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
      for (let k = 0; k < 3; k++) {
        const where = ds.conditions(t.r, d);
        const q: any = { where, limit: t.r.one(2) ? undefined : t.r.range(1, 5) };
        t.log(show(q) + show(cfg) + show(m));
        if (t.r.one(4)) {
          down = true;
          await t.rejects(() => ds.collect(db.query(q)), `query ${show(q)} with the server down`);
          t.count("server_down");
          down = false;
        }
        t.eq(await ds.collect(db.query(q)), await ds.collect(near.query(q)), `query ${show(q)} over HTTP (${show(cfg)}, server ${show(m)}), and directly`);
        t.count("http_queries");
        c.distinct("http", d.data.length, show(q));
      }
      const file = DataFile.forUrl(`${url}/data`, cfg ?? {});
      const [start, len] = t.r.pick(d.spans);
      t.eq(await file.get(start, start + len - 1), d.lines[d.spans.findIndex((s) => s[0] === start)], "a line of the data file over HTTP");
    } finally {
      server.closeAllConnections();
      await new Promise<void>((x) => server.close(() => x()));
    }
    t.count("http_served", served);
  });
});
