import { main, T, show, C, Rand } from "./h";
import * as ds from "./ds";
import { init } from "appendable/index";
import { validateQuery, validateSearch } from "appendable/db/query-validation";

type Header = { fieldName: string; fieldTypes: number[] };

const LENGTHS: any[] = [-1, 0, 1, 2, 3, 4, 5, 1.5, 2.5, 0.5, NaN, Infinity, -Infinity, undefined, null, "2"];

const GRAMS = [ds.Unigram_, ds.Bigram_, ds.Trigram_];

/** typed: whether a condition's value is of one of a field's types. */
function typed(types: number[], v: any): boolean {
  if (v === null) return types.includes(7);
  switch (typeof v) {
    case "number":
    case "bigint":
      return types.includes(1) || types.includes(2) || types.includes(3);
    case "string":
      return types.includes(0);
    case "boolean":
      return types.includes(6);
  }
  return false;
}

function goodSearch(s: any, hs: Header[]): boolean {
  const h = hs.find((x) => x.fieldName === s.key);
  if (!h || !GRAMS.every((g) => h.fieldTypes.includes(g))) return false;
  const { minGram, maxGram } = s.config ?? { minGram: 1, maxGram: 2 };
  return [1, 2, 3].includes(minGram) && [1, 2, 3].includes(maxGram) && minGram <= maxGram;
}

/** good is the acceptance rule for whole queries. */
function good(q: any, hs: Header[]): boolean {
  if (q.search && !goodSearch(q.search, hs)) return false;
  if (!q.where) return true;
  if (!Array.isArray(q.where) || q.where.length === 0) return false;
  for (const w of q.where) {
    if (!["<", "<=", "==", ">=", ">"].includes(w.operation)) return false;
    if (typeof w.key !== "string") return false;
    const h = hs.find((x) => x.fieldName === w.key);
    if (!h || !typed(h.fieldTypes, w.value)) return false;
  }
  if (q.orderBy !== undefined) {
    if (q.orderBy.length === 0) return false;
    const o = q.orderBy[0];
    if (o.key !== q.where[0].key || (o.direction !== "ASC" && o.direction !== "DESC")) return false;
  }
  if (q.select !== undefined) {
    if (q.select.length === 0) return false;
    if (!q.select.every((s: any) => hs.some((x) => x.fieldName === s))) return false;
  }
  return true;
}

function value(r: Rand): any {
  return r.pick([0, 1.5, -3, NaN, Infinity, 7n, "", "x", "null", true, false, null, undefined, {}, [], new Date(0), () => 1, Symbol.iterator]);
}

function search(r: Rand, names: string[]): any {
  const s: any = { key: r.pick([...names, "missing"]), like: r.pick(["", "some text", "é"]) };
  if (!r.one(5)) s.config = { minGram: r.one(3) ? r.pick(LENGTHS) : r.range(1, 3), maxGram: r.one(3) ? r.pick(LENGTHS) : r.range(1, 3) };
  return s;
}

function query(r: Rand, hs: Header[]): any {
  const names = hs.map((h) => h.fieldName);
  const q: any = {};
  if (r.one(4)) q.search = search(r, names);
  if (!r.one(8)) {
    // each clause is more often right than wrong, so that all of a query can be right
    const key = r.one(8) ? r.pick(["missing", "", "toString", 5, undefined]) : r.pick(names);
    const types = hs.find((h) => h.fieldName === key)?.fieldTypes ?? [0];
    const right = () => {
      const k = r.pick(types);
      return k === 0 ? r.pick(["", "v"]) : k === 6 ? r.one(2) : k === 7 ? null : k <= 3 ? r.pick([0, 4.5, 3n]) : value(r);
    };
    // a clause of many is wrong in one place or in none
    const long = r.one(6) ? r.pick([8, 17, 33, 65, 150]) : 0;
    const odd = r.one(2) ? -1 : r.one(2) ? long - 1 : r.int(long + 1);
    const may = (i: number, n: number) => (long ? i === odd : r.one(n));
    q.where = Array.from({ length: long || (r.one(20) ? 0 : r.range(1, 3)) }, (_, i) => ({
      key: may(i, 12) ? r.pick([...names, "nope"]) : key,
      operation: may(i, 12) ? r.pick(["=", "!=", "===", "", "<>", ">>", undefined, "like"]) : r.pick(ds.OPS),
      value: may(i, 5) ? value(r) : right(),
    }));
    if (r.one(2)) {
      q.orderBy = Array.from({ length: r.one(8) ? 0 : r.range(1, 2) }, () => ({
        key: r.one(6) ? r.pick([...names, "nope"]) : key,
        direction: r.one(8) ? r.pick(["asc", "desc", "", "UP", undefined]) : r.pick(["ASC", "DESC"]),
      }));
    }
    if (r.one(2)) {
      const many = r.one(5) ? r.pick([9, 33, 65, 200]) : 0;
      const wrong = r.one(2) ? -1 : r.one(2) ? many - 1 : r.int(many + 1);
      q.select = Array.from({ length: many || (r.one(8) ? 0 : r.range(1, 3)) }, (_, i) => ((many ? i === wrong : r.one(8)) ? r.pick(["nope", "", "constructor", "n".repeat(300), r.pick(names) + " ", r.pick(names) + "\0"]) : r.pick(names)));
    }
  }
  return q;
}

const copy = (q: any): any => ({
  ...q,
  ...(q.search ? { search: { ...q.search, ...(q.search.config ? { config: { ...q.search.config } } : {}) } } : {}),
});

function words(q: any): string {
  const say = (v: any): any => (typeof v === "symbol" || typeof v === "function" ? String(v) : v);
  return show({ ...q, where: q.where?.map((w: any) => ({ ...w, value: say(w.value) })) });
}

main("F10", async (c: C) => {
  c.rule("a query given to the client's validation, or to the client itself, accepted or refused as an independently written rule says; distinct by query and catalogue");
  await c.each(c.n(600, 20000), "validate", async (t) => {
    const hs: Header[] = t.r.shuffle(["a", "b", "née", "x.y", "length", "__proto__"]).slice(0, t.r.range(1, 5)).map((fieldName) => {
      const types = [0, 1, 2, 3, 4, 5, 6, 7].filter(() => t.r.one(3));
      if (t.r.one(3)) types.push(...GRAMS);
      else if (t.r.one(3)) types.push(...GRAMS.filter(() => t.r.one(2)));
      return { fieldName, fieldTypes: types.length ? t.r.shuffle(types) : [0] };
    });
    for (let k = 0; k < 60; k++) {
      const q = query(t.r, hs);
      const want = good(q, hs);
      let error: any;
      try {
        validateQuery(copy(q), hs as any);
      } catch (e) {
        error = e;
      }
      if (want && error) t.fail(`a valid query was refused: ${words(q)} over ${show(hs)}: ${error}`);
      if (!want && !error) t.fail(`an invalid query was accepted: ${words(q)} over ${show(hs)}`);
      t.count(want ? "accepted" : "refused");
      c.distinct(words(q), show(hs));
    }
    // every pair of lengths
    for (const minGram of LENGTHS)
      for (const maxGram of LENGTHS) {
        const h = t.r.pick(hs);
        const s = { key: h.fieldName, like: "x", config: { minGram, maxGram } };
        let error: any;
        try {
          validateSearch(copy({ search: s }).search, hs as any);
        } catch (e) {
          error = e;
        }
        if (goodSearch(s, hs) !== !error) t.fail(`the search ${show(s)} over ${show(hs)} was ${error ? `refused: ${error}` : "accepted"}`);
        t.count(error ? "refused" : "accepted");
      }
  });
  await c.each(c.n(300, 8000), "client", async (t) => {
    const d = await ds.make(t, ds.genLines(t.r, { ...ds.conf(t.r, t.r.range(1, 12)), names: ["a", "b", "née"] }).map((l, i) => JSON.stringify({ ...JSON.parse(l), s: "some text " + i })), ["s"]);
    const data = ds.source(d.data);
    const db: any = await init(data.resolve as any, ds.source(d.index).resolve as any);
    const hs: Header[] = await db.fields();
    for (let k = 0; k < 12; k++) {
      const q: any = {};
      let want: string;
      const scalar = t.r.pick(ds.scalarFields(d));
      const fine = () => ({ key: scalar.name, operation: t.r.pick(ds.OPS), value: ds.operand(t.r, d, scalar.vals, scalar.type, false) });
      const kind = t.r.pick(["fine", "field", "type", "value", "fields", "search field", "search length", "later value"]);
      switch (kind) {
        case "fine":
          q.where = [fine()];
          want = "";
          break;
        case "field":
          q.where = [{ ...fine(), key: t.r.pick(["missing", "A", "a ", "constructor"]) }];
          want = "the field does not exist";
          break;
        case "type": {
          const h = t.r.pick(hs);
          const v = t.r.pick(["x", 1, true, null, 3n]);
          if (typed(h.fieldTypes, v)) continue;
          q.where = [{ key: h.fieldName, operation: t.r.pick(ds.OPS), value: v }];
          want = "the field has no such type";
          break;
        }
        case "value":
          q.where = [{ ...fine(), value: t.r.pick([undefined, {}, [], () => 1, Symbol.iterator]) }];
          want = "the value cannot be compared";
          break;
        case "later value":
          q.where = [fine(), ...t.r.shuffle([{ ...fine(), value: t.r.pick([undefined, {}, [], () => 1]) }, ...Array.from({ length: t.r.pick([0, 0, 1, 3, 9]) }, fine)])];
          want = "the value cannot be compared";
          break;
        case "fields": {
          const other = t.r.pick(hs).fieldName;
          if (other === scalar.name) continue;
          // anywhere among any number of them
          q.where = t.r.shuffle([{ key: other, operation: "==", value: t.r.pick<any>(["x", fine().value]) }, ...Array.from({ length: t.r.pick([1, 1, 2, 2, 3, 6, 20]) }, fine)]);
          want = "several fields";
          break;
        }
        case "search field":
          q.search = { key: t.r.pick(["a", "b", "missing", "née"]), like: "some", config: { minGram: 1, maxGram: 2 } };
          want = "the field cannot be searched";
          break;
        default: {
          const [minGram, maxGram] = t.r.pick([[0, 2], [1, 4], [3, 2], [2, 1], [-1, 1], [4, 4], [3, 1], [NaN, 2], [1, NaN], [1.5, 2], [1, 2.5]]);
          q.search = { key: "s", like: "some", config: { minGram, maxGram } };
          want = "the lengths are invalid";
        }
      }
      t.log(`${kind}: ${words(q)}`);
      const before = data.requests.length;
      const out: any[] = [];
      let error: any;
      try {
        const it = q.search && t.r.one(2) ? db.search(q.search.key, q.search.like, q.search.config) : db.query(copy(q));
        for await (const x of it) out.push(x);
      } catch (e) {
        error = e;
      }
      if (want && !error) t.fail(`${words(q)} over ${show(hs)} was accepted although ${want}; it returned ${out.length} records`);
      if (want && out.length) t.fail(`${words(q)} was refused after ${out.length} records`);
      if (!want && error) t.fail(`${words(q)} over ${show(hs)} was refused: ${error?.stack}`);
      t.count(want ? "client_refused" : "client_accepted");
      if (want) t.count("requests_before_refusal", data.requests.length - before);
      c.distinct("client", kind, words(q), show(hs));
    }
  });
});
