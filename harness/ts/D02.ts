import { main, T, show, C, Rand } from "./h";
import * as ds from "./ds";
import { NgramTokenizer } from "appendable/ngram/tokenizer";
import { init } from "appendable/index";

const LENGTH: Record<number, number> = { [ds.Unigram_]: 1, [ds.Bigram_]: 2, [ds.Trigram_]: 3 };

/** client lists the tokens as length:word, sorted; the raw bytes are checked too. */
function client(t: T, s: string, min: number, max: number): string[] {
  return new NgramTokenizer(min, max)
    .tokens(s)
    .map((k) => {
      const b = Buffer.from(k.valueBuf).toString("latin1");
      if (b !== k.value) t.fail(`token ${show(k.value)} of ${show(s)} carries the bytes of ${show(b)}`);
      return `${LENGTH[k.type]}:${k.value}`;
    })
    .sort();
}

/** characters younger than the indexer's Unicode tables (15.0) that stand for ASCII ones */
const YOUNG = /[\ua7f1\u{1ccd6}-\u{1ccf9}]/u;

async function compare(t: T, texts: string[], min: number, max: number) {
  const a = await ds.call({ Op: "tokens", Texts: texts, Min: min, Max: max });
  if (a.Err) t.fail(`the indexer's tokenizer: ${a.Err}`);
  texts.forEach((s, i) => {
    const want = ((a.Tokens?.[i] ?? []) as [number, string][]).map(([n, w]) => `${n}:${w}`).sort();
    // within one length the client leaves out words shorter than its least length, as
    // does the indexer within that length; the windows are the same
    const got = client(t, s, min, max);
    t.eq(got, want, `n-grams of ${show(s)} of length ${min} to ${max}, client and indexer`);
    t.count("tokens_compared", got.length);
    t.c.distinct(s, min, max);
  });
  t.count("texts_compared", texts.length);
}

function any(r: Rand): string {
  const part = () => {
    switch (r.int(7)) {
      case 0: {
        const cp = r.int(0x110000);
        const s = cp >= 0xd800 && cp < 0xe000 ? "?" : String.fromCodePoint(cp);
        return YOUNG.test(s) ? "?" : s;
      }
      case 1:
        return String.fromCharCode(r.int(128));
      case 2:
        return r.pick(["é", "e\u0301", "ﬁ", "ﬀ", "㎏", "½", "①", "Ⅷ", "\u00a0", "\u2003", "\u3000", "\u2028", "ß", "İ", "ı", "K", "Å", "ＡＢ", "１２", "\u0300", "\u200d", "\ufeff", "ſ", "ǅ", "℡", "№", "™", "℀", "…"]);
      case 3:
        return r.pick([" ", "\t", "\n", "\v", "\f", "\r", "\x1c", "\x85", "-", "'", ".", "_", "\0"]);
      default:
        return r.pick(["a", "b", "Z", "q", "0", "9", "the", "New", "YORK"]);
    }
  };
  return Array.from({ length: r.int(14) }, part).join("");
}

main("D02", async (c: C) => {
  c.rule("the n-grams of a text on both sides, with multiplicity and bytes, and those decoded from an index of it; distinct by text and lengths");
  await c.each(c.n(400, 20000), "random", async (t) => {
    const min = t.r.range(1, 3);
    await compare(t, Array.from({ length: 60 }, () => any(t.r)), min, t.r.range(min, 3));
  });
  // every code point, alone in a word and between letters
  for (let base = 0; base < 0x110000; base += 0x1000)
    await c.case(`plane/${base.toString(16)}`, async (t) => {
      const texts: string[] = [];
      for (let cp = base; cp < base + 0x1000; cp++) {
        if (cp >= 0xd800 && cp < 0xe000) continue;
        const s = String.fromCodePoint(cp);
        if (/\p{Cn}/u.test(s) || /\p{Co}/u.test(s) || YOUNG.test(s)) continue;
        texts.push(`a${s}b c`);
        t.count("code_points");
      }
      if (texts.length) await compare(t, texts, 1, 3);
    });
  // texts and words far longer than is usual
  await c.each(c.n(16, 200), "long", async (t) => {
    const n = t.r.pick([300, 4096, 66000, 140000]) + t.r.int(100);
    let s = "";
    while (s.length < n)
      switch (t.r.int(3)) {
        case 0:
          s += any(t.r);
          break;
        case 1:
          s += t.r.pick([" ", "-", "\u00a0", ". "]).repeat(t.r.int(n));
          break;
        default:
          s += t.r.pick(["a", "Zy", "é", "0q"]).repeat(t.r.int(n));
      }
    await compare(t, [s + " end of it"], 1, t.r.range(1, 3));
    t.count("long_texts");
  });
  // very many words, the last of them like no other
  await c.each(c.n(6, 60), "words", async (t) => {
    const n = [5000, 70000, 260][t.index() % 3] + t.r.int(100);
    const words = Array.from({ length: n }, () => t.r.pick(["ab", "c", "Zy0", "é", "-"]));
    await compare(t, [words.join(t.r.pick([" ", "\n", "\t"])) + " qqq"], 1, 3);
    c.max("most_words", n);
    t.count("long_texts");
  });
  // through a real index, and found by its own text
  await c.each(c.n(150, 3000), "index", async (t) => {
    const texts = Array.from({ length: t.r.range(1, 12) }, () => any(t.r));
    const d = await ds.make(t, texts.map((s) => ds.write(t.r, { s, n: 1 }, 2, t.r.int(3))), ["s"]);
    const x = await ds.call({ Op: "decode", Data: d.data.toString("base64"), Index: d.index.toString("base64") });
    if (x.Err) t.fail(`the index cannot be decoded: ${x.Err}`);
    const stored = new Map<string, string[]>();
    for (const f of x.Fields)
      if (LENGTH[f.Type])
        for (const e of f.Entries ?? []) {
          const k = `${e.RO}+${e.RL}`;
          if (!stored.has(k)) stored.set(k, []);
          stored.get(k)!.push(`${LENGTH[f.Type]}:${Buffer.from(e.V, "base64").toString("latin1")}`);
        }
    texts.forEach((s, i) => {
      t.eq((stored.get(d.spans[i].join("+")) ?? []).sort(), client(t, s, 1, 3), `stored n-grams of ${show(s)}, and the client's`);
      t.count("indexed_texts");
    });
    const db = await init(ds.source(d.data).resolve as any, ds.source(d.index).resolve as any);
    for (let i = 0; i < texts.length; i++) {
      const min = t.r.range(1, 3);
      const max = t.r.range(min, 3);
      const found = (await ds.collect<any>(db.search("s" as any, texts[i], { minGram: min, maxGram: max }))).map((y) => y.data);
      const has = client(t, texts[i], min, max).length > 0;
      if (found.includes(d.lines[i]) !== has) t.fail(`searching ${show(texts[i])} (${min} to ${max}) ${has ? "does not find" : "finds"} the record that holds it`);
      t.count("own_searches");
    }
  });
});
