// A scheduler that answers outstanding requests one at a time, in an order it
// draws, each time everything that could run has run.
import { Rand, T } from "./h";
import * as ds from "./ds";

const tick = () => new Promise<void>((r) => setImmediate(r));

interface Pending {
  what: string;
  go: () => void;
}

export class Scheduler {
  pending: Pending[] = [];
  order: string[] = [];
  requests = 0;
  failures = 0;
  constructor(
    private t: T,
    private r: Rand,
    /** newest: prefer late requests; oldest: prefer early ones; any */
    private style: "any" | "newest" | "oldest" | "starve",
  ) {}

  /** serve is a resolver for b whose answers the scheduler releases. */
  serve(name: string, b: Buffer, fails: (n: number) => boolean = () => false): ds.Resolver {
    return (ranges) => {
      const n = this.requests++;
      return new Promise((resolve, reject) => {
        this.pending.push({
          what: `${name}${n}`,
          go: () => {
            if (fails(n)) {
              this.failures++;
              reject(new Error("injected failure"));
              return;
            }
            try {
              resolve(ds.cut(b, ranges));
            } catch (e) {
              reject(e);
            }
          },
        });
      });
    };
  }

  /** pause resolves when the scheduler feels like it. */
  pause(): Promise<void> {
    return new Promise((resolve) => this.pending.push({ what: "p", go: resolve }));
  }

  private choose(): number {
    const n = this.pending.length;
    switch (this.style) {
      case "newest":
        return this.r.one(4) ? this.r.int(n) : n - 1;
      case "oldest":
        return this.r.one(4) ? this.r.int(n) : 0;
      case "starve":
        // the oldest waits as long as anything else can go
        return n > 1 ? 1 + this.r.int(n - 1) : 0;
    }
    return this.r.int(n);
  }

  /** run answers requests until every task is done. */
  async run<V>(tasks: (() => Promise<V>)[]): Promise<{ value?: V; error?: any }[]> {
    const out: { value?: V; error?: any }[] = tasks.map(() => ({}));
    let open = tasks.length;
    tasks.forEach((f, i) => {
      void (async () => {
        if (this.r.one(2)) await this.pause();
        try {
          out[i].value = await f();
        } catch (error) {
          out[i].error = error;
        }
        open--;
      })();
    });
    let idle = 0;
    while (open > 0) {
      await tick();
      if (this.pending.length === 0) {
        if (++idle > 50) this.t.fail("a call does not finish although all of its requests were answered");
        continue;
      }
      idle = 0;
      const [p] = this.pending.splice(this.choose(), 1);
      this.order.push(p.what);
      p.go();
      // sometimes several at once
      while (this.pending.length && this.r.one(4)) {
        const [q] = this.pending.splice(this.choose(), 1);
        this.order.push(q.what);
        q.go();
      }
    }
    return out;
  }
}
