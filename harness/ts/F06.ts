import { main, T, show, C, Rand } from "./h";
import parse from "appendable/resolver/multipart";

interface Part {
  data: Buffer;
  headers: [string, string][]; // as sent
  want: Record<string, string>;
}

const BCHARS = "0123456789abcxyzABCXYZ'()+_,-./:=?";

function boundary(r: Rand): { header: string; token: string } {
  let token: string;
  switch (r.int(4)) {
    case 0:
      token = r.pick(["B", "boundary", "3d6b6a416f9b5", "THIS_STRING_SEPARATES", "----WebKitFormBoundary", "-", "--", "a-", "a=b", "0"]);
      break;
    case 1:
      token = Array.from({ length: 70 }, () => r.pick([...BCHARS])).join("");
      break;
    default:
      token = Array.from({ length: r.range(1, 30) }, () => r.pick([...BCHARS])).join("");
  }
  const plain = /^[0-9A-Za-z'+_.-]+$/.test(token);
  const spelled = plain && r.one(2) ? `boundary=${token}` : `boundary="${token}"`;
  const extra = r.one(4) ? r.pick(["; charset=utf-8", "; x=y"]) : "";
  const sep = r.pick([";", "; ", ";  "]);
  const header = r.one(4) ? `multipart/byteranges${extra}${sep}${spelled}` : `multipart/byteranges${sep}${spelled}${extra}`;
  return { header, token };
}

function spell(r: Rand, s: string): string {
  switch (r.int(4)) {
    case 0:
      return s.toLowerCase();
    case 1:
      return s.toUpperCase();
    case 2:
      return [...s].map((c) => (r.one(2) ? c.toLowerCase() : c.toUpperCase())).join("");
  }
  return s;
}

function parts(r: Rand, token: string, big: boolean, n = r.pick([0, 1, 1, 2, 3, 5, 12]), huge = 0): Part[] {
  const total = r.pick([100, 5000, 10 ** 9, 2 ** 33, 2 ** 53 - 1]);
  return Array.from({ length: n }, () => {
    const start = r.one(4) ? r.pick([2 ** 31 - 20, 2 ** 31, 2 ** 32 - 20, 2 ** 32, 2 ** 40, 2 ** 52]) : r.int(1000);
    let data: Buffer;
    switch (r.int(6)) {
      case 0:
        data = Buffer.from(`\r\n--${token}\r\nContent-Range: bytes 0-1/2\r\n\r\nab\r\n--${token}--\r\n`);
        break;
      case 1:
        data = Buffer.from(r.pick(["\r", "\n", "\r\n", "\r\n\r\n", "-", "--", `--${token}`, `\r\n--${token}`, "\0"]));
        break;
      case 2:
        data = Buffer.from(r.bytes(r.pick([4095, 4096, 4097, 8192, big ? 60000 : 5000])));
        break;
      default:
        data = Buffer.from(r.bytes(r.range(1, 60)));
    }
    if (huge && r.one(2)) data = Buffer.concat([r.bytes(97), Buffer.alloc(huge + r.int(4000), r.bytes(r.pick([61, 251, 1009]))), r.bytes(5)]);
    const own: [string, string][] = [["Content-Range", `bytes ${start}-${start + data.length - 1}/${r.one(5) ? "*" : total}`]];
    if (!r.one(3)) own.push(["Content-Type", r.pick(["application/octet-stream", "text/plain; charset=utf-8", "text/html"])]);
    if (r.one(4)) own.push(["X-Other", r.pick(["", "a:b", "12:34:56", "=;,", "é", "x".repeat(5000)])]);
    if (huge && r.one(6)) own.push(["X-Long", "y".repeat(r.pick([4095, 4096, 66000]))]);
    if (n > 0 && huge && r.one(6)) for (let i = 0; i < 300; i++) own.push([`X-${i}`, String(i)]);
    if (r.one(6)) own.push(["ETag", '"abc"']);
    const headers = r.shuffle(own);
    const want: Record<string, string> = {};
    for (const [k, v] of headers) want[k.toLowerCase()] = v;
    return { data, headers: headers.map(([k, v]) => [spell(r, k), v] as [string, string]), want };
  });
}

function body(r: Rand, token: string, ps: Part[]): { bytes: Buffer; end: number; last: number } {
  const out: Buffer[] = [];
  if (r.one(2)) out.push(Buffer.from("\r\n"));
  for (const p of ps) {
    out.push(Buffer.from(`--${token}\r\n`));
    for (const [k, v] of p.headers) out.push(Buffer.from(`${k}:${r.pick(["", " ", "  ", "\t"])}${v}${r.one(6) ? " " : ""}\r\n`));
    out.push(Buffer.from("\r\n"), p.data, Buffer.from("\r\n"));
  }
  out.push(Buffer.from(`--${token}`));
  const end = out.reduce((n, b) => n + b.length, 0);
  out.push(Buffer.from("--"));
  if (!r.one(4)) out.push(Buffer.from("\r\n"));
  if (r.one(8)) out.push(Buffer.from("epilogue\r\n"));
  return { bytes: Buffer.concat(out), end, last: end - token.length - 2 };
}

/** chunks cuts a body; the sizes are part of what is observed. */
function chunks(r: Rand, b: Buffer): Uint8Array[] {
  const out: Uint8Array[] = [];
  const style = b.length > 20000 && !r.one(10) ? r.pick([1, 2, 5]) : r.int(6);
  for (let i = 0; i < b.length; ) {
    let n: number;
    switch (style) {
      case 0:
        n = 1;
        break;
      case 1:
        n = b.length;
        break;
      case 2:
        n = r.pick([4095, 4096, 4097, 1, 8191, 65536]);
        break;
      case 3:
        n = r.range(1, 5);
        break;
      default:
        n = r.range(1, b.length > 20000 ? 5000 : 200);
    }
    if (r.one(10)) out.push(new Uint8Array(0));
    // some chunks are views into a larger buffer, as a network stack makes them
    const c = b.subarray(i, i + n);
    out.push(r.one(2) ? Uint8Array.from(c) : new Uint8Array(c.buffer, c.byteOffset, c.length));
    i += n;
  }
  return out;
}

function stream(r: Rand, cs: Uint8Array[], fail?: Error): ReadableStream {
  const eager = r.one(2);
  let i = 0;
  return new ReadableStream({
    async start(ctl) {
      if (eager) {
        for (const c of cs) ctl.enqueue(c);
        i = cs.length;
        if (fail) ctl.error(fail);
        else ctl.close();
      }
    },
    async pull(ctl) {
      if (r.one(3)) await new Promise<void>((x) => setImmediate(x));
      if (i < cs.length) ctl.enqueue(cs[i++]);
      else if (fail) ctl.error(fail);
      else ctl.close();
    },
  });
}

type Got = { data: ArrayBuffer; headers: Record<string, string> };

async function decode(header: string, s: ReadableStream): Promise<{ got: Got[]; error?: any }> {
  const got: Got[] = [];
  try {
    for await (const p of parse(header, s)) got.push({ data: p.data, headers: { ...p.headers } });
  } catch (error) {
    return { got, error };
  }
  return { got };
}

function same(t: T, got: Got, want: Part, what: string) {
  const b = Buffer.from(got.data);
  if (!b.equals(want.data)) t.fail(`${what}: the data of a part is ${b.length} bytes (${b.subarray(0, 40).toString("hex")}), not ${want.data.length} (${want.data.subarray(0, 40).toString("hex")})`);
  t.eq(got.headers, want.want, `${what}: headers of a part`);
}

main("F06", async (c: C) => {
  c.rule("a multipart body decoded from a stream, its parts compared byte by byte; or a truncated or damaged body, which must end in an error; distinct by body and chunk sizes");
  await c.each(c.n(4000, 150000), "decode", async (t) => {
    const { header, token } = boundary(t.r);
    const ps = parts(t.r, token, true);
    const b = body(t.r, token, ps);
    for (let k = 0; k < 3; k++) {
      if (b.bytes.length > 20000 && k > 0 && t.r.one(2)) continue;
      const cs = chunks(t.r, b.bytes);
      t.log(`${header}\n${b.bytes.subarray(0, 600).toString("latin1")}\nchunks ${cs.length}`);
      const { got, error } = await decode(header, stream(t.r, cs));
      if (error) t.fail(`a well-formed body of ${ps.length} parts (${header}): ${error?.stack}`);
      t.eq(got.length, ps.length, "number of parts");
      got.forEach((g, i) => same(t, g, ps[i], `part ${i} of ${ps.length} (${header})`));
      t.count("parts_compared", got.length);
      t.count("chunks", cs.length);
      c.distinct(b.bytes.length, header, cs.slice(0, 50).map((x) => x.length).join(","));
    }
  });
  // far more parts, far larger ones
  await c.each(c.n(24, 400), "large", async (t) => {
    const { header, token } = boundary(t.r);
    const many = t.r.one(2);
    const ps = many ? parts(t.r, token, false, t.r.pick([129, 257, 600, 1500]), 1) : parts(t.r, token, true, t.r.range(1, 4), t.r.pick([65536, 131072, 270000, 1100000]));
    const b = body(t.r, token, ps);
    const size = t.r.pick([b.bytes.length, 70000, 65536, 4096, 4093, 16384 + t.r.int(90)]);
    const cs: Uint8Array[] = [];
    for (let i = 0; i < b.bytes.length; i += size) cs.push(Uint8Array.from(b.bytes.subarray(i, i + size)));
    t.log(`${header}, ${ps.length} parts, ${b.bytes.length} bytes in chunks of ${size}`);
    const { got, error } = await decode(header, stream(t.r, cs));
    if (error) t.fail(`a well-formed body of ${ps.length} parts (${header}): ${error?.stack}`);
    t.eq(got.length, ps.length, "number of parts");
    got.forEach((g, i) => same(t, g, ps[i], `part ${i} of ${ps.length} (${header})`));
    t.count("parts_compared", got.length);
    t.count("large_bodies");
    c.max("longest_body", b.bytes.length);
    c.distinct("large", b.bytes.length, header, size);
  });
  await c.each(c.n(250, 6000), "truncate", async (t) => {
    const { header, token } = boundary(t.r);
    let ps = parts(t.r, token, false).slice(0, 3);
    const b = body(t.r, token, ps);
    const step = b.bytes.length > 700 ? Math.ceil(b.bytes.length / (c.thorough ? 700 : 120)) : 1;
    for (let n = b.bytes.length > 700 ? t.r.int(step) : 0; n <= b.end; n += step) {
      const cs = chunks(t.r, b.bytes.subarray(0, n));
      const broken = t.r.one(3) ? new Error("connection lost") : undefined;
      const { got, error } = await decode(header, stream(t.r, cs, broken));
      t.log(`cut at ${n} of ${b.bytes.length}`);
      if (!error) t.fail(`a body cut at byte ${n} of ${b.bytes.length} was taken for complete, with ${got.length} of ${ps.length} parts`);
      if (got.length > ps.length) t.fail(`a body cut at byte ${n} gave ${got.length} parts`);
      got.forEach((g, i) => same(t, g, ps[i], `part ${i} of a body cut at byte ${n}`));
      t.count("truncations");
      c.distinct("cut", header, n, b.bytes.length);
    }
  });
  await c.each(c.n(1500, 40000), "damage", async (t) => {
    const { header, token } = boundary(t.r);
    const ps = parts(t.r, token, false);
    if (ps.length === 0) return;
    const at = t.r.int(ps.length);
    const kinds = ["no range", "unit", "unsatisfied", "no number", "colon", "boundary", "long", "short", "type", "no boundary", "preamble", "line end"];
    const kind = t.r.pick(kinds);
    const p = ps[at];
    const range = p.headers.findIndex(([k]) => k.toLowerCase() === "content-range");
    let h = header;
    let exact = ps.length;
    let hay: Buffer | undefined;
    const [start, end] = p.headers[range][1].slice(6).split("/")[0].split("-").map(Number);
    switch (kind) {
      case "no range":
        p.headers.splice(range, 1);
        exact = at;
        break;
      case "unit":
        p.headers[range][1] = p.headers[range][1].replace("bytes", t.r.pick(["items", "lines", "byte"]));
        exact = at;
        break;
      case "unsatisfied":
        p.headers[range][1] = "bytes */100";
        exact = at;
        break;
      case "no number":
        p.headers[range][1] = t.r.pick(["bytes x-y/z", "bytes", "bytes -/5", "bytes 3/5", "bytes  0-1/2", "bytes 7-/9", "bytes 9-5/9"]);
        exact = at;
        break;
      case "colon":
        p.headers.push(["no colon here", ""]);
        exact = at;
        break;
      case "long":
        // more data than the range says
        p.headers[range][1] = `bytes ${start}-${end}/999`;
        p.data = Buffer.concat([p.data, Buffer.from("!" + "z".repeat(t.r.int(10)))]);
        exact = at;
        break;
      case "short":
        p.headers[range][1] = `bytes ${start}-${end + t.r.range(1, 40)}/999`;
        exact = at;
        break;
      case "type":
        h = t.r.pick(["text/plain", "multipart/mixed; boundary=x", "application/json"]);
        exact = 0;
        break;
      case "no boundary":
        h = t.r.pick(["multipart/byteranges", "multipart/byteranges; x=y", "multipart/byteranges; boundary="]);
        exact = 0;
        break;
    }
    const b = body(t.r, token, ps);
    let bytes = b.bytes;
    if (kind === "colon") bytes = Buffer.from(bytes.toString("latin1").replace(/no colon here:\s?/, "no colon here"), "latin1");
    if (kind === "boundary") {
      // one byte of the last delimiter
      const i = b.last + t.r.int(token.length + 2);
      bytes = Buffer.from(bytes);
      bytes[i] ^= 1 << t.r.int(7);
    }
    if (kind === "preamble") {
      bytes = Buffer.concat([Buffer.from("x"), bytes]);
      exact = 0;
    }
    if (kind === "line end") {
      // the CRLF before the last delimiter
      bytes = Buffer.concat([bytes.subarray(0, b.last - 2), Buffer.from(t.r.pick(["", "\r", "\n", "\n\r", "ab"])), bytes.subarray(b.last)]);
    }
    t.log(`${kind} at part ${at}: ${h}\n${bytes.subarray(0, 800).toString("latin1")}`);
    const { got, error } = await decode(h, stream(t.r, chunks(t.r, bytes)));
    if (!error) t.fail(`a body damaged by ${kind} in part ${at} of ${ps.length} was taken for complete (${h})`);
    got.slice(0, kind === "long" || kind === "short" ? at : exact).forEach((g, i) => same(t, g, ps[i], `part ${i} of a damaged body (${kind})`));
    if (kind !== "long" && kind !== "short" && got.length > exact) t.fail(`a body damaged by ${kind} in part ${at} gave ${got.length} parts`);
    t.count("damaged_bodies");
    t.count(`damage_${kind.replace(/ /g, "_")}`);
    c.distinct("damage", kind, bytes.length, at);
  });
});
