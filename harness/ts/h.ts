// Runs the cases of a check in child processes under a monitor and records
// what was observed, like harness/go/h.
import * as cp from "child_process";
import * as fs from "fs";
import * as path from "path";

const env = process.env;

export class Rand {
  private a: number;
  constructor(seed: number) {
    this.a = seed >>> 0;
  }
  /** next is uniform in [0, 1). */
  next(): number {
    this.a = (this.a + 0x6d2b79f5) >>> 0;
    let t = this.a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  }
  int(n: number): number {
    return Math.floor(this.next() * n);
  }
  /** between lo and hi, both included. */
  range(lo: number, hi: number): number {
    return lo + this.int(hi - lo + 1);
  }
  one(n: number): boolean {
    return this.int(n) === 0;
  }
  pick<T>(a: readonly T[]): T {
    return a[this.int(a.length)];
  }
  shuffle<T>(a: readonly T[]): T[] {
    const b = [...a];
    for (let i = b.length - 1; i > 0; i--) {
      const j = this.int(i + 1);
      [b[i], b[j]] = [b[j], b[i]];
    }
    return b;
  }
  bytes(n: number): Uint8Array {
    return Uint8Array.from({ length: n }, () => this.int(256));
  }
}

export function hash(s: string): number {
  let h = 0x811c9dc5;
  for (let i = 0; i < s.length; i++) {
    h = Math.imul(h ^ (s.charCodeAt(i) & 0xff), 0x01000193);
    h = Math.imul(h ^ (s.charCodeAt(i) >>> 8), 0x01000193);
  }
  return h >>> 0;
}

class Failure extends Error {}

export interface Known {
  property: string;
  key: string;
  what: string;
  status: string;
}

/** T is the context of one case. */
export class T {
  r: Rand;
  lines: string[] = [];
  constructor(
    public c: C,
    public name: string,
  ) {
    this.r = new Rand(hash(`${c.seed}/${name}`));
  }
  fail(msg: string): never {
    throw new Failure(msg.length > 20000 ? `${msg.slice(0, 10000)} ... ${msg.slice(-10000)}` : msg);
  }
  log(msg: string) {
    if (this.lines.length < 2000) this.lines.push(msg.slice(0, 4000));
  }
  /** index is the number at the end of the case's name. */
  index(): number {
    return Number(/\d+$/.exec(this.name)?.[0] ?? 0);
  }
  count(name: string, n = 1) {
    this.c.count(name, n);
  }
  /** eq fails the case if got is not want. */
  eq(got: unknown, want: unknown, what: string) {
    const a = show(got);
    const b = show(want);
    if (a !== b) this.fail(`${what}: got ${clip(a, 700)}, not ${clip(b, 700)}`);
  }
  /** rejects awaits a failure of f, and returns it. */
  async rejects(f: () => Promise<unknown>, what: string): Promise<Error> {
    let v;
    try {
      v = await f();
    } catch (e) {
      if (e instanceof Failure) throw e;
      return e as Error;
    }
    return this.fail(`${what}: no error, but ${clip(show(v), 500)}`);
  }
}

export function clip(s: string, n: number) {
  return s.length > n ? s.slice(0, n) + "..." : s;
}

/** show writes a value so that different values look different. */
export function show(v: any): string {
  const seen = (x: any): any => {
    if (typeof x === "bigint") return `${x}n`;
    if (typeof x === "number" && (Object.is(x, -0) || !Number.isFinite(x))) return `#${Object.is(x, -0) ? "-0" : x}`;
    if (x === undefined) return "#undefined";
    if (x instanceof ArrayBuffer) return "0x" + Buffer.from(x).toString("hex");
    if (ArrayBuffer.isView(x)) return "0x" + Buffer.from(x.buffer, x.byteOffset, x.byteLength).toString("hex");
    if (x instanceof Map) return ["#map", ...[...x].map(seen)];
    if (Array.isArray(x)) return x.map(seen);
    if (x && typeof x === "object") {
      const o: any = {};
      for (const k of Object.keys(x).sort()) Object.defineProperty(o, k, { value: seen(x[k]), enumerable: true });
      return o;
    }
    return x;
  };
  return JSON.stringify(seen(v)) ?? String(v);
}

/** C is the context of a check. */
export class C {
  seed = Number(env.VERIF_SEED ?? "1") || 1;
  tier = env.VERIF_TIER === "thorough" ? "thorough" : "quick";
  thorough = this.tier === "thorough";
  dir = env.H_DIR ?? "/tmp";
  only = env.H_ONLY ?? "";
  shard = Number(env.H_SHARD ?? "0");
  shards = Number(env.H_SHARDS ?? "1");
  evaluations = 0;
  distincts = new Set<number>();
  counters: Record<string, number> = {};
  maxima: Record<string, number> = {};
  samples: unknown[] = [];
  ruleText = "";
  level = "exploration";
  assumptions: string[] = [];
  violations = 0;
  private ordinal = 0;
  current = "";
  private knowns: Known[] = [];
  constructor(public id: string) {
    if (env.H_KNOWN && fs.existsSync(env.H_KNOWN)) this.knowns = JSON.parse(fs.readFileSync(env.H_KNOWN, "utf8"));
  }
  n(quick: number, thorough: number) {
    return this.thorough ? thorough : quick;
  }
  rule(s: string) {
    this.ruleText = s;
  }
  assume(...s: string[]) {
    this.assumptions.push(...s);
  }
  count(name: string, n = 1) {
    this.counters[name] = (this.counters[name] ?? 0) + n;
  }
  max(name: string, n: number) {
    this.maxima[name] = Math.max(this.maxima[name] ?? n, n);
  }
  distinct(...parts: unknown[]) {
    this.distincts.add(hash(parts.map((p) => (typeof p === "string" ? p : show(p))).join("\0")));
  }
  sample(v: unknown) {
    if (this.samples.length < 6) this.samples.push(v);
  }
  beat() {
    process.send?.({ beat: this.current });
  }
  async case(name: string, run: (t: T) => Promise<void> | void) {
    if (this.only ? this.only !== name : this.ordinal++ % this.shards !== this.shard) return;
    if (this.violations >= 3) return;
    this.current = name;
    this.beat();
    const t = new T(this, name);
    this.evaluations++;
    // what the code under test draws is the same in every run of the case
    const draws = new Rand(hash(`${this.seed}/${name}/random`));
    Math.random = () => draws.next();
    try {
      await run(t);
    } catch (e: any) {
      const msg = e instanceof Failure ? e.message : `unexpected error: ${e?.stack ?? e}`;
      this.violation(name, msg, e instanceof Failure ? t.lines : t.lines);
    }
    this.current = "";
  }
  async each(n: number, prefix: string, run: (t: T) => Promise<void> | void) {
    for (let i = 0; i < n; i++) await this.case(`${prefix}/${i}`, run);
  }
  violation(name: string, msg: string, log: string[]) {
    this.violations++;
    const p = writeReplay(this.id, this.seed, this.tier, `${this.shard}-${this.violations}`, name, msg, log);
    console.info(`  case ${name}: ${clip(msg, 1500)}`);
    console.info(`VIOLATION property=${this.id} replay=${p}`);
  }
  /** finding runs the probe of a known finding; fails says what goes wrong, or "". */
  async finding(key: string, fails: (t: T) => Promise<string>) {
    await this.case(`finding/${key}`, async (t) => {
      let msg = "";
      try {
        msg = await fails(t);
      } catch (e: any) {
        msg = String(e?.message ?? e);
      }
      for (const k of this.knowns) {
        if (k.property === this.id && k.key === key && k.status === "known") {
          if (msg) console.info(`KNOWN-FINDING: property=${this.id} ${k.what}`);
          else console.info(`note: the known finding ${key} of ${this.id} no longer shows`);
          return;
        }
      }
      if (msg) t.fail(msg);
    });
  }
}

function writeReplay(id: string, seed: number, tier: string, n: string, name: string, msg: string, log: string[]) {
  const dir = env.H_REPLAYS ?? "/tmp";
  fs.mkdirSync(dir, { recursive: true });
  const p = path.join(dir, `${id}-${seed}-${n}.json`);
  fs.writeFileSync(
    p,
    JSON.stringify(
      {
        property: id,
        seed,
        tier,
        case: name,
        message: msg,
        log,
        rerun: `VERIF_SEED=${seed} VERIF_TIER=${tier} H_ONLY=${JSON.stringify(name)} bin/check ${id}`,
      },
      null,
      1,
    ),
  );
  return p;
}

export function main(id: string, run: (c: C) => Promise<void>) {
  if (env.H_CHILD) void child(id, run);
  else void parent(id);
}

async function child(id: string, run: (c: C) => Promise<void>) {
  // the code under test may print; what the monitor prints goes through info
  const info = console.info.bind(console);
  console.log = console.warn = console.error = console.debug = () => {};
  console.info = info;
  const c = new C(id);
  let finished = false;
  let reported = false;
  const stuck = (why: string) => {
    if (finished || reported) return;
    reported = true;
    c.violation(c.current, why, []);
    process.exit(1);
  };
  // nothing is left that could wake the case up
  process.on("beforeExit", () => stuck("a call never finishes although nothing it could wait for is outstanding"));
  // a failure nobody could have caught, such as one of a promise made and dropped
  process.on("unhandledRejection", (e: any) => stuck(`unhandled rejection: ${e?.stack ?? e}`));
  process.on("uncaughtException", (e: any) => stuck(`uncaught exception: ${e?.stack ?? e}`));
  await run(c);
  finished = true;
  const out = {
    evaluations: c.evaluations,
    distincts: [...c.distincts],
    counters: c.counters,
    maxima: c.maxima,
    samples: c.samples,
    rule: c.ruleText,
    level: c.level,
    assumptions: c.assumptions,
    violations: c.violations,
  };
  fs.writeFileSync(path.join(c.dir, `part-${c.shard}.json`), JSON.stringify(out));
  process.exit(c.violations ? 1 : 0);
}

function cpuOf(pid: number): number {
  try {
    const s = fs.readFileSync(`/proc/${pid}/stat`, "utf8");
    const f = s.slice(s.lastIndexOf(")") + 2).split(" ");
    return (Number(f[11]) + Number(f[12])) / 100;
  } catch {
    return 0;
  }
}

async function parent(id: string) {
  const start = Date.now();
  const c = new C(id);
  const shards = c.only ? 1 : Number(env.H_SHARDS ?? "6");
  const results = await Promise.all(
    Array.from({ length: shards }, (_, shard) => watch(id, c, shard, shards)),
  );
  const parts = [];
  for (let i = 0; i < shards; i++) {
    const p = path.join(c.dir, `part-${i}.json`);
    if (fs.existsSync(p)) parts.push(JSON.parse(fs.readFileSync(p, "utf8")));
  }
  const distincts = new Set<number>();
  const counters: Record<string, number> = {};
  let evaluations = 0;
  const samples: unknown[] = [];
  for (const p of parts) {
    evaluations += p.evaluations;
    for (const d of p.distincts) distincts.add(d);
    for (const k of Object.keys(p.counters)) counters[k] = (counters[k] ?? 0) + p.counters[k];
    for (const k of Object.keys(p.maxima)) counters[k] = Math.max(counters[k] ?? 0, p.maxima[k]);
    for (const s of p.samples) if (samples.length < 6) samples.push(s);
  }
  const violations = results.filter((r) => r === 1).length;
  const wall = (Date.now() - start) / 1000;
  if (parts.length > 0 && env.H_EVIDENCE) {
    fs.writeFileSync(
      env.H_EVIDENCE,
      JSON.stringify(
        {
          property: id,
          tier: c.tier,
          seed: c.seed,
          level: parts[0].level,
          coverage: { evaluations, distinct_nontrivial: distincts.size, rule: parts[0].rule, samples, observed: counters },
          ...(parts[0].assumptions.length ? { assumptions: parts[0].assumptions } : {}),
          wall_s: wall,
          violations,
        },
        null,
        1,
      ) + "\n",
    );
  }
  const shown = Object.keys(counters)
    .sort()
    .map((k) => ` ${k}=${counters[k]}`)
    .join("");
  console.info(`${id} ${c.tier}: ${evaluations} cases, ${distincts.size} distinct,${shown}, ${wall.toFixed(1)}s`);
  if (violations) process.exit(1);
  if (results.some((r) => r !== 0)) process.exit(2);
  if (!c.only && (evaluations === 0 || distincts.size < 2)) {
    console.info("inconclusive: nothing was observed");
    process.exit(2);
  }
  process.exit(0);
}

/** watch runs one child: 0 quiet, 1 violation, 2 no answer. */
function watch(id: string, c: C, shard: number, shards: number): Promise<number> {
  return new Promise((resolve) => {
    const p = cp.fork(process.argv[1], [], {
      env: { ...env, H_CHILD: "1", H_SHARD: String(shard), H_SHARDS: String(shards) },
      execArgv: [...process.execArgv, "--max-old-space-size=3000"],
      stdio: ["ignore", "inherit", "pipe", "ipc"],
    });
    let err = "";
    p.stderr!.on("data", (d) => {
      if (err.length < 100000) err += d;
    });
    let last = "";
    let cpu = 0;
    let wall = Date.now();
    p.on("message", (m: any) => {
      last = m.beat;
      cpu = cpuOf(p.pid!);
      wall = Date.now();
    });
    const give = (msg: string) => {
      const f = writeReplay(id, c.seed, c.tier, `${shard}-hang`, last, msg, err.split("\n").slice(0, 300));
      console.info(`  case ${last}: ${clip(msg, 1500)}`);
      console.info(`VIOLATION property=${id} replay=${f}`);
    };
    let killed = 0;
    const timer = setInterval(() => {
      // CPU time without progress is an endless loop; an idle wait is one for
      // something that will not come. A machine under load is neither.
      const busy = cpuOf(p.pid!) - cpu;
      if (busy > 120) {
        killed = 1;
        give(`no progress in ${busy.toFixed(0)} s of CPU time`);
        p.kill("SIGKILL");
      } else if (Date.now() - wall > 300_000 && busy < 30) {
        killed = 1;
        give(`idle for ${((Date.now() - wall) / 1000).toFixed(0)} s`);
        p.kill("SIGKILL");
      }
      if (killed) clearInterval(timer);
    }, 1000);
    p.on("exit", (code, signal) => {
      clearInterval(timer);
      if (killed) return resolve(1);
      if (code === 0 || code === 1) return resolve(code);
      if (/heap out of memory|FATAL ERROR/.test(err) && last) {
        give(`the process died (${signal ?? code}): ${clip(err, 800)}`);
        return resolve(1);
      }
      console.info(`inconclusive: child ended with ${code} ${signal} at ${last}: ${clip(err, 2000)}`);
      resolve(2);
    });
  });
}
