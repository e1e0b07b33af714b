import { main, pick } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { clearTimers, installVirtualTime, nativeOp, settle } from "../lib/vt.ts";
import { type BackendName, makeBackend } from "../lib/backends.ts";
import { TranslationsManager } from "/repo/client/2_translations_manager.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";

const PACK: Record<number, [string, string]> = { 1: ["tdesktop", "fr"], 2: ["tdesktop", "pt-br"], 3: ["ios", "fr"] };
const KEYS = ["lng_a", "lng_b#other", "lng_c"];
let lives = 0;
const FORMS = ["zero", "one", "two", "few", "many"];
// the string that version v gives key k
function str(k: number, c: string, v: number): any {
  const key = KEYS[k - 1];
  if (c === "d") return { _: "langPackStringDeleted", key };
  if (c === "s") return { _: "langPackString", key, value: v % 3 ? `v${v}` : "" };
  const s: any = { _: "langPackStringPluralized", key, other_value: `o${v}` };
  FORMS.forEach((f, i) => { if ((v + i) % 3) s[`${f}_value`] = `${f}${v}`; });
  return s;
}
function said(t: any, k: number): string {
  const strip = (o: any) => JSON.stringify(Object.entries(o).filter(([, x]) => x !== undefined).sort());
  for (let v = 0; v < 30; v++) {
    for (const c of ["s", "p"]) {
      const s = str(k, c, v), e: any = { key: s.key, value: c === "s" ? s.value : s.other_value };
      if (c === "p") for (const f of FORMS) e[f] = s[`${f}_value`];
      if (strip(e) === strip(t)) return (e.value === "" ? "blank" : c + v);
    }
  }
  return JSON.stringify(t);
}
class Driver {
  hist: Record<number, { k: number; c: string }[]> = {};
  ev: any[] = [];
  call: { q: any; r: PromiseWithResolvers<any> } | null = null;
  kept: { what: any; was: string }[] = [];
  ops!: StorageOperations;
  m!: TranslationsManager;
  b!: Awaited<ReturnType<typeof makeBackend>>;
  broken: string | null = null;
  r = rng(++lives * 7919);
  constructor(public o: { packs: number; keys: number; start: number; own: boolean }) {
    for (let p = 1; p <= o.packs; p++) this.hist[p] = Array.from({ length: o.start }, (_, i) => ({ k: i % o.keys + 1, c: i % 2 ? "s" : "p" }));
  }
  static async make(backend: BackendName, o: any) {
    installVirtualTime();
    clearTimers();
    const d = new Driver(o);
    d.b = await nativeOp(makeBackend(backend));
    d.open(d.b.store);
    return d;
  }
  open(store: any) {
    this.ops = new StorageOperations(store);
    (this.ops as any).assertUser = () => {};
    this.m = new TranslationsManager({
      storage: { assertUser: () => {} }, messageStorage: this.ops,
      langPack: this.o.own ? PACK[1][0] : "", langCode: PACK[1][1],
      invoke: (q: any) => {
        if (this.call) this.broken = "a second call while one is with the server";
        const p = Number(Object.entries(PACK).find(([, [a, l]]) => a === q.lang_pack && l === q.lang_code)?.[0]);
        this.call = { q, r: Promise.withResolvers() };
        if (q._ === "langpack.getLangPack") this.ev.push(["call", "pack", p, 0]);
        else if (q._ === "langpack.getDifference") this.ev.push(["call", "diff", p, q.from_version]);
        else this.ev.push(["call", q._]);
        return this.call.r.promise;
      },
    } as any);
  }
  diff(p: number, from: number, to: number) {
    const last = new Map<number, any>();
    for (let v = from + 1; v <= to; v++) { const h = this.hist[p][v - 1]; last.delete(h.k); last.set(h.k, str(h.k, h.c, v)); }
    return [...last.values()].sort(() => this.r.int(2) ? 1 : -1);
  }
  content(ts: any): any {
    if (!Array.isArray(ts)) return `not a list: ${ts}`;
    const o = Array.from({ length: this.o.keys }, () => "-");
    for (const t of ts) {
      const k = KEYS.indexOf(t.key) + 1;
      if (!k || o[k - 1] !== "-") return `several or unknown: ${t.key}`;
      o[k - 1] = said(t, k);
    }
    return o;
  }
  keep(ts: any) { this.kept.push({ what: ts, was: JSON.stringify(ts) }); return this.content(ts); }
  update(u: any) {
    if (!this.m.canHandleUpdate(u)) { this.ev.push(["not taken"]); return; }
    this.m.handleUpdate(u).then((r: any) => {
      if (r === null) this.ev.push(["nothing"]);
      else {
        const p = Number(Object.entries(PACK).find(([, [a, l]]) => a === r.platform && l === r.language)?.[0]);
        this.ev.push(["update", 0, r.type === "translations" ? p : r.type, this.keep(r.translations)]);
      }
    }, () => this.ev.push(["failed", 0]));
  }
  async step(a: any) {
    this.ev = [];
    switch (a.n) {
      case "Change": this.hist[a.p].push({ k: a.k, c: a.c }); break;
      case "Get": {
        const [platform, language] = PACK[a.p];
        // what equals the client's own may be left out
        const params: any = a.p === 1 ? this.r.pick([undefined, {}, { language }, ...this.o.own ? [{ platform }, { platform, language }] : []]) : a.p === 2 ? (this.o.own && this.r.int(2) ? { platform, language } : { language }) : this.r.int(2) ? { platform } : { platform, language };
        this.m.getTranslations(params).then((ts) => this.ev.push(["result", a.id, a.p, this.keep(ts)]), () => this.ev.push(["failed", a.id]));
        break;
      }
      case "Push": this.update({ _: "updateLangPack", difference: { _: "langPackDifference", lang_code: PACK[a.p][1], from_version: a.from, version: a.to, strings: this.diff(a.p, a.from, a.to) } }); break;
      case "TooLong": this.update({ _: "updateLangPackTooLong", lang_code: PACK[a.p][1] }); break;
      case "Answer": {
        const c = this.call;
        if (!c) return "nothing was asked";
        this.call = null;
        const p = Number(Object.entries(PACK).find(([, [x, l]]) => x === c.q.lang_pack && l === c.q.lang_code)?.[0]), v = this.hist[p].length;
        const from = c.q._ === "langpack.getLangPack" ? 0 : c.q.from_version;
        const strings = this.diff(p, from, v).filter((s: any) => from > 0 || c.q._ !== "langpack.getLangPack" || s._ !== "langPackStringDeleted");
        c.r.resolve({ _: "langPackDifference", lang_code: c.q.lang_code, from_version: from, version: v, strings });
        break;
      }
      case "Error": {
        const c = this.call;
        if (!c) return "nothing was asked";
        this.call = null;
        c.r.reject(new Error("the call failed"));
        break;
      }
      case "Reopen": {
        await nativeOp(this.ops.commit(true));
        this.open(await nativeOp(this.b.reopen()));
        break;
      }
    }
    await settle();
    for (const k of this.kept) if (JSON.stringify(k.what) !== k.was) return "translations handed out earlier have changed";
    const st: any[] = [];
    for (let p = 1; p <= this.o.packs; p++) {
      const s: any = await nativeOp(Promise.resolve(this.ops.translations.get(PACK[p])));
      st.push(s === null ? [] : [s.version, this.content(s.translations)]);
    }
    return this.broken ?? { ev: order(this.ev), st };
  }
  async end() { await this.b.close(); clearTimers(); return this.broken; }
}
// blank strings look alike whatever version made them
const blank = (c: any): any => Array.isArray(c) ? c.map((x) => typeof x === "string" && /^s\d+$/.test(x) && Number(x.slice(1)) % 3 === 0 ? "blank" : x) : c;
// what happens in one step has no order
const order = (ev: any[]) => ev.sort((x, y) => JSON.stringify(x) < JSON.stringify(y) ? -1 : 1);
const project = (o: any) => ({ ev: order(o.ev.map((e: any) => e.length === 4 && Array.isArray(e[3]) ? [e[0], e[1], e[2], blank(e[3])] : e)), st: o.st.map((s: any) => s.length ? [s[0], blank(s[1])] : s) });

await main("C06", ["The server answers a request for a difference with the difference from the version asked for.", "Updates are handled one at a time (U01).", "What getTranslations returned is not modified by the program."], async (c) => {
  const base = { Packs: 1, Keys: 2, Kinds: `{"s", "p", "d"}`, Start: 2, Own: "TRUE", MaxChange: 1, MaxReq: 1, MaxPush: 1, MaxErr: 0, MaxReopen: 0 };
  const cfg = (k: any) => ({ module: "Translations", spec: "Spec", constants: { ...base, ...k }, invariants: ["Inv"], properties: ["Forward"] });
  await c.model("every request is served", { ...cfg({ Packs: pick(2, 3), MaxChange: 1, Kinds: `{"s"}`, Keys: 1, MaxReq: 2, MaxPush: 2, MaxErr: 1 }), spec: "FairSpec", properties: ["Forward", "Served"] });
  let n = 0;
  const suite = (name: string, k: any, backends: BackendName[] = ["memory"]) => {
    const x: any = { ...base, ...k };
    return c.conform(name, cfg(k), () => Driver.make(backends[n++ % backends.length], { packs: x.Packs, keys: x.Keys, start: x.Start, own: x.Own === "TRUE" }) as any, { project, heap: "8g", maxLen: 60, budgetMs: pick(8_000, 120_000), randomMs: pick(800, 15_000) });
  };
  await suite("strings", { MaxChange: 2, MaxReq: 1, MaxPush: 2, Keys: 2 });
  await suite("overlapping", { Packs: 1, Kinds: `{"s"}`, Keys: 1, MaxChange: 2, MaxReq: 3, MaxPush: pick(2, 3), MaxErr: 1 });
  await suite("several packs", { Packs: 3, Kinds: `{"p"}`, Keys: 1, Start: 1, MaxChange: 1, MaxReq: 3, MaxPush: pick(1, 2), MaxErr: pick(0, 1) });
  await suite("no platform", { Packs: 3, Own: "FALSE", Kinds: `{"s"}`, Keys: 1, MaxReq: 2, MaxPush: 2 });
  await suite("kept", { Packs: 2, Kinds: `{"p", "d"}`, Keys: 1, Start: 1, MaxReq: 2, MaxPush: 2, MaxReopen: 1 }, ["localstorage", "denokv", "indexeddb"]);
});
