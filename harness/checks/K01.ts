import { main, pick, quick, SEED } from "../lib/check.ts";
import { type Driver, modelGraph, rng } from "../lib/graph.ts";
import { BACKENDS, type BackendName, cleanupBackends, makeBackend } from "../lib/backends.ts";

const part = (p: number[]): any => {
  const [t, ...r] = p;
  if (t === 1) return String.fromCharCode(...r);
  if (t === 2) return r[0];
  return BigInt(r[0]) * BigInt(r.slice(2).map(Math.abs).join("") || "0");
};
const enc = (v: any): number[] => {
  if (typeof v === "string") return [1, ...Array.from({ length: v.length }, (_, i) => v.charCodeAt(i))];
  if (typeof v === "number") return [2, v];
  const sgn = v < 0n ? -1 : 1;
  const d = Array.from((v < 0n ? -v : v).toString(), Number);
  return [3, sgn, sgn * d.length, ...d.map((x) => sgn * x)];
};
const key = (k: number[][]) => k.map(part);

async function collect(it: any): Promise<[any[], any][]> {
  const r: [any[], any][] = [];
  for await (const x of await it) r.push([x[0], x[1]]);
  return r;
}

class KvDriver implements Driver {
  stores: any[] = [];
  close: () => Promise<void> = async () => {};
  static async make(b: BackendName, n: number) {
    const d = new KvDriver();
    const m = await makeBackend(b);
    d.close = m.close;
    d.stores = [m.store];
    if (n > 1) { const br = m.store.branch("2"); await br.initialize(); d.stores.push(br); const c0 = d.close; d.close = async () => { await br.close(); await c0(); }; }
    if (n > 2) { const br = m.store.branch("2_media"); await br.initialize(); d.stores.push(br); const c0 = d.close; d.close = async () => { await br.close(); await c0(); }; }
    if (n > 3) d.stores.push(await m.sibling());
    return d;
  }
  async step(a: any) {
    const s = this.stores[a.s - 1];
    switch (a.n) {
      case "Set": await s.set(key(a.k), a.v); return 0;
      case "Del": await s.set(key(a.k), null); return 0;
      case "Incr": await s.incr(key(a.k), a.v); return 0;
      case "Get": { const v = await s.get(key(a.k)); return v === null ? -1 : v; }
      case "Scan": {
        const p = { limit: a.lim || undefined, reverse: a.rev };
        return (await collect(s.getMany({ prefix: key(a.p) }, p))).map(([k, v]) => [k.map(enc), v]);
      }
      case "Range": {
        const p = { limit: a.lim || undefined, reverse: a.rev };
        try {
          return (await collect(s.getMany({ start: key(a.a), end: key(a.b) }, p))).map(([k, v]) => [k.map(enc), v]);
        } catch (err) {
          if (err instanceof DOMException && err.name === "DataError") return []; // IndexedDB refuses an empty range
          if (err instanceof TypeError && /[Ss]tart key is greater/.test(err.message)) return []; // so does Deno KV
          throw err;
        }
      }
    }
  }
  async end() { await this.close(); }
}

// random histories with rich keys and values, recorded on the real backends
const canonVal = (v: any): string => {
  if (v === null) return "none";
  if (v === undefined) return "undefined!";
  if (v instanceof Date) return `d:${v.getTime()}`;
  if (v instanceof Uint8Array) return `u:${[...v].join(",")}`;
  if (Array.isArray(v)) return `[${v.map(canonVal).join(";")}]`;
  if (typeof v === "bigint") return `b:${v}`;
  if (typeof v === "object") return `{${Object.keys(v).map((k) => JSON.stringify(k) + "=" + canonVal(v[k])).join(";")}}`;
  return `${typeof v}:${v}`;
};

async function record(b: BackendName, seed: number, ops: number) {
  const r = rng(seed);
  const str = ["", "a", "ab", "abc", "b", "6", "61\n2", "peers", "peers.x", "cache.files", "é漢\n1", "__proto__"];
  const num = [0, 1, 2, 3, 9, 10, 11, 99, 100, -1, -2, -10, 2147483647, -2147483647];
  const big = [0n, 1n, 2n, 9n, 10n, 11n, 99n, 100n, -1n, -9n, -10n, 12345678901234567890n, 9223372036854775807n, -9223372036854775808n, 7709914083043275964415n];
  // one type per position after the first part, as the code's own keys have
  const shape: Record<string, ("s" | "n" | "b")[]> = {};
  for (const s of str) shape[s] = Array.from({ length: r.int(4) }, () => r.pick(["s", "n", "b"] as const));
  const mk = (): any[] => {
    const s = r.pick(str);
    return [s, ...shape[s].slice(0, r.int(shape[s].length + 1)).map((t) => t === "s" ? r.pick(str) : t === "n" ? r.pick(num) : r.pick(big))];
  };
  const keys = Array.from({ length: 14 }, mk);
  const values = (): any => r.pick<() => any>([
    () => r.int(1000), () => -1.5, () => 0, () => "", () => "text\nwith lines", () => "1", () => true, () => false, () => 2n ** 70n, () => -5n, () => 0n,
    () => new Date(1_600_000_000_000 + r.int(1e9)), () => Uint8Array.from({ length: r.int(20) }, () => r.int(256)), () => new Uint8Array(),
    () => [], () => [1, "a", 2n, [new Date(5), new Uint8Array([0, 255])]], () => ({}), () => ({ a: 1, b: { c: [true, "x"], d: 10n } }),
    () => ["updateNewMessage", new Uint8Array([1, 2, 3])], () => [[], [[]], {}, [{}]], () => "é漢😀", () => Infinity, () => [{ a: undefined, b: null, c: [null, undefined, 1] }, 5n], () => ({ authKey: null, dc: "2", x: undefined }), () => ({ "k\n1": "v", 2: [0] }),
  ])();
  const m = await makeBackend(b);
  const br = m.store.branch("4-test");
  await br.initialize();
  const sib = await m.sibling();
  const stores: Record<string, any> = { main: m.store, branch: br, sibling: sib };
  const ev: any[] = [];
  for (let i = 0; i < ops; i++) {
    const s = r.pick(["main", "main", "main", "branch", "branch", "sibling"]);
    const st = stores[s];
    const k = r.int(10) ? r.pick(keys) : mk();
    const ek = k.map(enc);
    const x = r.int(100);
    if (x < 34) { const v = values(); await st.set(k, v); ev.push({ n: "Set", s, k: ek, v: canonVal(v) }); }
    else if (x < 42) { await st.set(k, null); ev.push({ n: "Del", s, k: ek }); }
    else if (x < 48) {
      const old = await st.get(k);
      if (old === null || typeof old === "number") {
        const by = r.int(7) - 3;
        if (r.int(2)) await st.incr(k, by);
        else { const n = 2 + r.int(3), parts = Array.from({ length: n - 1 }, () => r.int(7) - 3); parts.push(by - parts.reduce((a, b) => a + b, 0)); await Promise.all(parts.map((x) => st.incr(k, x))); } // at once
        ev.push({ n: "Incr", s, k: ek, old: canonVal(old), v: canonVal((old ?? 0) + by) });
      }
    } else if (x < 66) ev.push({ n: "Get", s, k: ek, v: canonVal(await st.get(k)) });
    else {
      const lim = r.pick([0, 0, 1, 2, 3]);
      const rev = r.int(2) === 1;
      const p = { limit: lim || undefined, reverse: rev };
      const fmt = (rows: [any[], any][]) => rows.map(([kk, v]) => [kk.map(enc), canonVal(v)]);
      if (x < 84) {
        const pre = k.slice(0, 1 + r.int(k.length));
        if (await st.get(pre) !== null) continue; // an entry whose key is the prefix itself: unspecified
        ev.push({ n: "Scan", s, p: pre.map(enc), lim, rev, r: fmt(await collect(st.getMany({ prefix: pre }, p))) });
      } else {
        // a range between two values of the last part of one key
        const a = [...k], z = [...k];
        if (k.length > 1) {
          const pool: any[] = typeof k.at(-1) === "string" ? str : typeof k.at(-1) === "number" ? num : big;
          const [u, v] = [r.pick(pool), r.pick(pool)].sort((p, q) => (p < q ? -1 : p > q ? 1 : 0));
          a[a.length - 1] = u;
          z[z.length - 1] = v;
        }
        ev.push({ n: "Range", s, a: a.map(enc), b: z.map(enc), lim, rev, r: fmt(await collect(st.getMany({ start: a, end: z }, p))) });
      }
    }
    if (b !== "memory" && s === "main" && r.int(40) === 0) stores.main = await m.reopen();
  }
  await br.close();
  await m.close();
  return { events: ev, meta: { backend: b, seed } };
}

await main("K01", [
  "Key parts at one position of keys under one prefix have one type, as in every key the client builds; scan order across types is unspecified.",
  "IndexedDB, localStorage and sessionStorage are in-memory stand-ins with the standard semantics; Deno KV is the real one, in a scratch directory.",
  "The Node.js variant of local storage needs the node-localstorage package, which is absent, and is not run.",
], async (c) => {
  try {
    for (const [ks, n] of [["flat", 1], ["nested", 1], ["deep", 1], ["big", 1], ["pair", 4]] as const) {
      const g = await modelGraph({ module: "OrderedKVGen", constants: { Stores: n, KeySet: `"${ks}"`, Vals: n > 1 ? "{1}" : "{1}", MaxIncr: n > 1 ? 0 : pick(2, 3) }, invariants: ["Inv"] }, { heap: "6g" });
      for (const b of BACKENDS) {
        await c.conform(`${b}/${ks}`, { module: "OrderedKVGen" }, () => KvDriver.make(b, n), { graph: g, maxLen: 400, budgetMs: pick(12_000, 200_000), randomMs: pick(300, 10_000) });
      }
    }
    const traces: any[] = [];
    for (const b of BACKENDS) {
      const count = pick(b === "denokv" ? 12 : 40, b === "denokv" ? 100 : 600);
      for (let i = 0; i < count; i++) {
        try { traces.push(await record(b, SEED * 1000 + i, pick(120, 200))); } catch (err) {
          c.violation(`histories/${b}:throws`, `a storage operation failed: ${err}`, { backend: b, seed: SEED * 1000 + i, error: String((err as any).stack) });
          break;
        }
      }
    }
    await c.validate("histories", { module: "OrderedKVTrace", init: "InitT" }, traces, { batch: 40 });
  } finally { cleanupBackends(); }
});
