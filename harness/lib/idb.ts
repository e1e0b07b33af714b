// A minimal in-memory IndexedDB (one key-value object store per database), implementing the standard key order.
// Deno has no IndexedDB; StorageIndexedDB is run against this stand-in.
type Key = any;
function rank(k: Key): number {
  if (typeof k === "number") return 1;
  if (k instanceof Date) return 2;
  if (typeof k === "string") return 3;
  if (k instanceof Uint8Array || k instanceof ArrayBuffer) return 4;
  if (Array.isArray(k)) return 5;
  throw new DOMException("The data provided is not a valid key.", "DataError");
}
export function cmp(a: Key, b: Key): number {
  const ra = rank(a), rb = rank(b);
  if (ra !== rb) return ra < rb ? -1 : 1;
  if (ra === 5) {
    for (let i = 0; i < Math.min(a.length, b.length); i++) {
      const c = cmp(a[i], b[i]);
      if (c) return c;
    }
    return Math.sign(a.length - b.length);
  }
  const x = ra === 2 ? a.getTime() : a, y = ra === 2 ? b.getTime() : b;
  if (typeof x === "number" && (Number.isNaN(x) || Number.isNaN(y))) throw new DOMException("invalid key", "DataError");
  return x < y ? -1 : x > y ? 1 : 0;
}
class Range {
  constructor(public lo: Key, public hi: Key, public lOpen: boolean, public hOpen: boolean) {}
  has(k: Key) {
    if (this.lo !== undefined) { const c = cmp(k, this.lo); if (c < 0 || (c === 0 && this.lOpen)) return false; }
    if (this.hi !== undefined) { const c = cmp(k, this.hi); if (c > 0 || (c === 0 && this.hOpen)) return false; }
    return true;
  }
}
// Transactions as in the standard: one that writes runs alone, readers run together, each in the order they were opened; one
// ends once nothing is asked of it any more, and can be asked nothing after that.
interface Db { rows: { key: Key; value: any }[]; open: Tx[] }
class Tx {
  waiting: (() => void)[] = [];
  pending = 0;
  done = false;
  constructor(private db: Db, private mode: string) { db.open.push(this); this.settle(); }
  private free() {
    for (const t of this.db.open) {
      if (t === this) return true;
      if (t.mode !== "readonly" || this.mode !== "readonly") return false;
    }
    return true;
  }
  run() { if (this.free()) for (const f of this.waiting.splice(0)) queueMicrotask(f); }
  ask(f: () => void) {
    if (this.done) throw new DOMException("The transaction is not active.", "TransactionInactiveError");
    this.pending++;
    this.waiting.push(() => { try { f(); } finally { this.pending--; this.settle(); } });
    this.run();
  }
  private settle(hops = 40) {
    if (this.pending || this.done) return;
    if (hops) { queueMicrotask(() => this.settle(hops - 1)); return; }
    this.done = true;
    this.db.open.splice(this.db.open.indexOf(this), 1);
    for (const t of [...this.db.open]) t.run();
  }
  objectStore() { return store(this.db.rows, this.mode, (f) => this.ask(f)); }
}
const dbs = new Map<string, Db>();
const clone = (v: any) => structuredClone(v);
type Ask = (f: () => void) => void;
function request(ask: Ask, run: () => any) {
  const r: any = { result: undefined, onsuccess: null, onerror: null };
  ask(() => {
    try { r.result = run(); } catch (err) { r.error = err; r.onerror?.(err); return; }
    r.onsuccess?.();
  });
  return r;
}
function validate(k: Key) { cmp(k, k); if (Array.isArray(k)) k.forEach(validate); }
function store(rows: { key: Key; value: any }[], mode: string, ask: Ask) {
  const writes = () => { if (mode === "readonly") throw new DOMException("The transaction is read-only.", "ReadOnlyError"); };
  const at = (k: Key) => rows.findIndex((r) => cmp(r.key, k) === 0);
  return {
    put(v: any, k: Key) { writes(); validate(k); const val = clone(v), key = clone(k); return request(ask, () => { const i = at(key); if (i >= 0) rows[i].value = val; else { rows.push({ key, value: val }); rows.sort((a, b) => cmp(a.key, b.key)); } }); },
    delete(k: Key) { writes(); validate(k); return request(ask, () => { const i = at(k); if (i >= 0) rows.splice(i, 1); }); },
    get(k: Key) { validate(k); return request(ask, () => { const i = at(k); return i >= 0 ? clone(rows[i].value) : undefined; }); },
    openKeyCursor(range: Range, dir?: string) {
      let keys: Key[] | null = null;
      let i = 0;
      const r: any = { result: null, onsuccess: null, onerror: null };
      const fire = () => ask(() => {
        keys ??= (() => { const k = rows.filter((x) => range.has(x.key)).map((x) => clone(x.key)); return dir === "prev" ? k.reverse() : k; })();
        r.result = i < keys.length ? { key: keys[i], continue: () => { i++; fire(); } } : null;
        r.onsuccess?.();
      });
      fire();
      return r;
    },
  };
}
export function installIndexedDB() {
  (globalThis as any).IDBKeyRange = {
    bound: (a: Key, b: Key, lo = false, hi = false) => { if (cmp(a, b) > 0) throw new DOMException("The lower key is greater than the upper key.", "DataError"); return new Range(a, b, lo, hi); },
    lowerBound: (a: Key, lo = false) => new Range(a, undefined, lo, false),
  };
  (globalThis as any).indexedDB = {
    cmp,
    open(name: string) {
      const fresh = !dbs.has(name);
      if (fresh) dbs.set(name, { rows: [], open: [] });
      const d = dbs.get(name)!;
      const db = { createObjectStore() {}, transaction: (_s: any, mode = "readonly") => new Tx(d, mode), close() {} };
      const r: any = { result: db, onsuccess: null, onupgradeneeded: null };
      queueMicrotask(() => { if (fresh) r.onupgradeneeded?.(); r.onsuccess?.(); });
      return r;
    },
  };
}
export function dropDatabase(name: string) { dbs.delete(name); }
