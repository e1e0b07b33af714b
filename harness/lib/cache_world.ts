// The real StorageOperations over a storage that answers when it is told to.
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/2_storage.ts";
import { sha1 } from "/repo/1_utilities.ts";
import { installVirtualTime, setClock, settle, virtualNow } from "./vt.ts";

interface Op { kind: "get" | "set" | "scan"; cell: string; value?: any; go: (ok: boolean) => void }
const ORDER = ["x", "y", "z", "a"];
const PATH: Record<string, any[]> = { x: ["channelPts", 1n], y: ["channelPts", 2n], z: ["usernames", "z"], a: ["auth"] };
const OLD: Record<string, any> = { x: 1, z: [1, new Date(1)] };
const keyOf = (v: number) => Uint8Array.from({ length: 256 }, (_, i) => i + v & 255);
const enc = (c: string, v: number): any => c === "z" ? [v, new Date(v)] : c === "a" ? { apiId: 1, authKey: keyOf(v), dc: "2", isBot: false, userId: v } : v;
const dec = (c: string, v: any): any => v === null || v === undefined ? 0 : c === "z" ? (v[1]?.getTime?.() === v[0] ? v[0] : "bad") : c === "a" ? (v.authKey[0] === (v.userId & 255) ? v.userId : "bad") : v;

class SlowStorage {
  inner = new StorageMemory();
  life = { dead: false };
  ops: Op[] = [];
  free = true; // answers at once
  get isMemory() { return false; }
  get supportsFiles() { return true; }
  get mustSerialize() { return false; }
  cell(key: readonly any[]) {
    const s = JSON.stringify(key, (_, v) => typeof v === "bigint" ? `${v}n` : v);
    return ORDER.find((c) => JSON.stringify(PATH[c], (_, v) => typeof v === "bigint" ? `${v}n` : v) === s);
  }
  held<T>(kind: Op["kind"], cell: string, value: any, f: () => T | Promise<T>): Promise<T> {
    if (this.free) return Promise.resolve(f());
    return new Promise((ok, no) => {
      const op: Op = { kind, cell, value, go: (good) => { this.ops.splice(this.ops.indexOf(op), 1); good ? ok(f()) : no(new Error("the storage failed")); } };
      this.ops.push(op);
    });
  }
  initialize() { return Promise.resolve(); }
  close() { return Promise.resolve(); }
  branch() { return this; }
  get(key: readonly any[]) {
    const c = this.cell(key);
    const v = this.inner.get(key as any);
    return c ? this.held("get", c, null, () => v) : Promise.resolve(v);
  }
  set(key: readonly any[], value: any) {
    const c = this.cell(key);
    if (this.scanned || !c) return Promise.resolve(this.inner.set(key as any, value));
    const copy = structuredClone(value);
    return this.held("set", c, copy, () => this.inner.set(key as any, copy) as any);
  }
  scanned = false; // a reset deletes what it found
  async getMany(filter: any, params?: any) {
    if (filter.prefix?.length === 0) await this.held("scan", "", null, () => { this.scanned = true; });
    const rows: any[] = [];
    for await (const r of this.inner.getMany(filter, params) as any) rows.push(r);
    return (function* () { yield* rows; })();
  }
  incr(key: readonly any[], by: any) { return this.inner.incr(key as any, by); }
}

export class CacheDriver {
  slow!: SlowStorage;
  ops!: StorageOperations;
  res: any[] = [];
  static async make(cells: string[]) {
    installVirtualTime();
    const d = new CacheDriver(cells);
    const inner = new StorageMemory();
    for (const c of cells) if (OLD[c] !== undefined) inner.set(PATH[c], OLD[c]);
    await d.open(inner);
    return d;
  }
  constructor(public cells: string[]) {}
  async open(inner: StorageMemory) {
    if (this.slow) this.slow.ops.length = 0;
    this.slow = new SlowStorage();
    this.slow.inner = inner;
    this.ops = new StorageOperations(this.slow as any);
    await this.ops.initialize();
    this.slow.free = false;
  }
  set(c: string, v: number) {
    switch (c) {
      case "x": return this.ops.channelPts.set([1n], v);
      case "y": return this.ops.channelPts.set([2n], v);
      case "z": return this.ops.usernames.set(["z"], enc("z", v));
      default: return void this.ops.auth.set(enc("a", v));
    }
  }
  get(c: string): Promise<any> {
    switch (c) {
      case "x": return this.ops.channelPts.get([1n]);
      case "y": return this.ops.channelPts.get([2n]);
      case "z": return this.ops.usernames.get(["z"]);
      default: return this.ops.auth.get();
    }
  }
  track(name: string, p: Promise<unknown>) {
    const on = this.res;
    p.then(() => on.push(`${name}:ok`), () => on.push(`${name}:err`));
  }
  take(kind: string, cell: string) { return this.slow.ops.find((o) => o.kind === kind && o.cell === cell); }
  async step(a: any) {
    const out: any = {};
    this.res = this.res.length ? this.res : this.res;
    switch (a.n) {
      case "Set": this.set(a.c, a.v); break;
      case "Get": {
        const on = this.res;
        this.get(a.c).then((v) => on.push([a.c, dec(a.c, v)]), () => on.push([a.c, "err"]));
        break;
      }
      case "AnswerRead": case "RefuseRead": case "AnswerWrite": {
        const op = this.take(a.n === "AnswerWrite" ? "set" : "get", a.c);
        if (!op) return { missing: a };
        op.go(a.n === "AnswerRead" || a.n === "AnswerWrite" && a.ok);
        break;
      }
      case "Commit": this.track("commit", this.ops.commit(true)); break;
      case "Tick": this.track("commit", this.ops.commit()); break;
      case "Wait": setClock(virtualNow() + 301_000); break;
      case "Reset": this.track("reset", this.ops.reset()); break;
      case "AnswerScan": {
        const op = this.take("scan", "");
        if (!op) return { missing: a };
        op.go(a.ok);
        await settle();
        this.slow.scanned = false;
        break;
      }
      case "Evict": for (let i = 0; i < 20_000; i++) await this.ops.channelPts.get([BigInt(1000 + i)]); break;
      case "Crash": this.res = []; await this.open(this.slow.inner); break;
    }
    await settle();
    const s = this.slow;
    out.res = this.res.splice(0);
    out.now = {
      reads: s.ops.filter((o) => o.kind === "get").map((o) => o.cell).sort(),
      writes: s.ops.filter((o) => o.kind === "set").map((o) => [o.cell, dec(o.cell, o.value)]).sort(),
      scan: s.ops.some((o) => o.kind === "scan"),
      store: ORDER.map((c) => this.cells.includes(c) ? dec(c, s.inner.get(PATH[c] as any)) : 0),
    };
    if (this.cells.includes("a") && !out.now.reads.includes("a") && a.n === "Get" && a.c === "a" && out.res.length && out.res[0][1] !== "err" && !s.ops.some((o) => o.cell === "a" && o.kind === "get")) {
      const v = out.res[0][1];
      let id: any = "held";
      this.ops.getAccountId().then((x) => id = x ?? 0, () => {});
      await settle();
      if (id === "held") { for (const o of s.ops.filter((o) => o.cell === "a" && o.kind === "get")) o.go(true); await settle(); }
      if (id !== v) out.account = id;
      const want = v === 0 ? null : new DataView((await sha1(keyOf(v) as any)).slice(-8).buffer).getBigInt64(0, true);
      if (this.ops.auth.authKeyId !== want) out.authKeyId = String(this.ops.auth.authKeyId);
    }
    return out;
  }
}
export const sortSets = (o: any) => o.now ? { ...o, now: { ...o.now, reads: [...o.now.reads].sort(), writes: [...o.now.writes].sort() } } : o;
