// A real UpdateManager with guaranteed delivery over a real backend whose writes complete only when told.
import type { Driver, Rng } from "./graph.ts";
import { rng } from "./graph.ts";
import { type BackendName, makeBackend } from "./backends.ts";
import { channel, ChannelEvents, DATE, UpdatesWorld, USER, user } from "./updates_world.ts";
import { nativeOp, skewClock } from "./vt.ts";

interface Waiting { kind: string; go: () => void }
// Wraps a backend. While `gated`, writes (and reads of stored updates) wait to be let through; after `die` nothing more happens.
export class Gate {
  gated = false;
  slowRead = false;
  waiting: Waiting[] = [];
  dead = false;
  constructor(public s: any, public classify: (key: readonly any[], value: any) => string | null) {}
  initialize() { return this.s.initialize(); }
  close() {}
  branch(n: string) { return this.s.branch(n); }
  get supportsFiles() { return this.s.supportsFiles; }
  get mustSerialize() { return this.s.mustSerialize; }
  get isMemory() { return this.s.isMemory; }
  get(k: any) { return this.dead ? new Promise(() => {}) : nativeOp(Promise.resolve(this.s.get(k))); }
  incr(k: any, by: number) { return this.s.incr(k, by); }
  hold(kind: string): Promise<void> { return new Promise((go) => { this.waiting.push({ kind, go }); }); }
  async set(k: any, v: any) {
    if (this.dead) return await new Promise<void>(() => {});
    const kind = this.gated ? this.classify(k, v) : null;
    if (kind !== null) await this.hold(kind);
    if (this.dead) return await new Promise<void>(() => {});
    await nativeOp(Promise.resolve(this.s.set(k, v)));
  }
  async *getMany(f: any, o?: any): any {
    if (this.dead) await new Promise(() => {});
    const all = [];
    await nativeOp((async () => { for await (const x of await this.s.getMany(f, o)) all.push(x); })());
    if (this.gated && this.slowRead && f.prefix?.[0] === "updates.updates" && f.prefix.length === 2) await this.hold(`read ${f.prefix[1]}`);
    if (this.dead) await new Promise(() => {});
    for (const x of all) yield x;
  }
}

const QTS = 10;
let seed = 1;
export class DurableDriver implements Driver {
  r: Rng;
  w!: UpdatesWorld;
  e: ChannelEvents;
  gate!: Gate;
  b!: Awaited<ReturnType<typeof makeBackend>>;
  running: ({ name: number; res: PromiseWithResolvers<void> } | null)[] = [null, null];
  calls: number[][] = [[], []];
  extra: any[] = [];
  order: string[] = [];
  base = 400;
  top = [0, 0]; // the last update pushed in this life, per box
  // qts: the account's updates are those of the secondary box
  constructor(public backend: BackendName, public n: number[], public slowRead: boolean, public qts = false, public each = false) {
    this.r = rng(seed++ * 32452843);
    this.e = new ChannelEvents(this.r, [Array.from({ length: 3 }, () => this.r.pick(["m", "o"]))]);
  }
  static async make(backend: BackendName, n: number[], slowRead: boolean, qts = false, each = false) {
    const d = new DurableDriver(backend, n, slowRead, qts, each);
    d.w = new UpdatesWorld(d.r, { guarantee: true, drop: false });
    d.b = await makeBackend(backend);
    d.gate = d.mkGate(d.b.store);
    d.w.o.backend = d.gate;
    d.setHandler();
    await d.w.start();
    d.w.storage.setPeer(user(USER) as any);
    d.w.storage.setPeer(channel(7001) as any);
    d.w.storage.channelPts.set([d.e.id(1)], d.e.pts(1, 0));
    await d.w.storage.setState({ _: "updates.state", pts: d.base, qts: QTS, date: DATE, seq: 5, unread_count: 0 } as any);
    await d.w.storage.commit(true);
    await d.w.quiet();
    d.gate.gated = true;
    d.w.auto = (fn) => {
      const common = { new_messages: [], other_updates: [], chats: [channel(7001)], users: [user(USER)] };
      if (fn._ === "updates.getDifference") {
        const x = d.top[0];
        const ms: any[] = [];
        const es: any[] = [], us: any[] = [];
        const state = { _: "updates.state", pts: d.base, qts: QTS, date: DATE, seq: 5, unread_count: 0 };
        if (qts) {
          for (let i = fn.qts - QTS + 1; i <= x; i++) { if (each) us.push(d.update(0, i, 1)); else es.push(d.enc(i)); }
          return { _: "updates.difference", ...common, new_encrypted_messages: es, other_updates: us, state: { ...state, qts: QTS + x } };
        }
        for (let i = fn.pts - d.base + 1; i <= x; i++) { if (each) us.push(d.update(0, i, 0)); else ms.push(d.message(i)); }
        return { _: "updates.difference", ...common, new_encrypted_messages: [], new_messages: ms, other_updates: us, state: { ...state, pts: d.base + x } };
      }
      if (fn._ === "updates.getChannelDifference") {
        const x = d.top[1];
        const ms = [];
        for (let i = (d.e.index(1, fn.pts) as number) + 1; i <= x; i++) ms.push(d.e.message(1, i));
        return d.r.int(2) ? { _: "updates.channelDifference", ...common, final: true, pts: d.e.pts(1, x), new_messages: ms }
          : { _: "updates.channelDifferenceTooLong", final: true, dialog: { _: "dialog", peer: { _: "peerChannel", channel_id: d.e.id(1) }, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: d.e.pts(1, x) }, messages: ms, chats: common.chats, users: common.users };
      }
      return undefined;
    };
    return d;
  }
  mkGate(s: any) {
    const g = new Gate(s, (k, v) => {
      if (k[0] === "updates.updates") return `${v === null ? "del" : "store"} ${k[1]}`;
      if (k[0] === "updates.state") return "state";
      if (k[0] === "channelPts") return "commit";
      return null;
    });
    g.slowRead = this.slowRead;
    return g;
  }
  name(u: any): [number, number] {
    if (u._ === "updateUserStatus") return [0, 0];
    if (u._ === "updateNewMessage" && u.message.peer_id._ === "peerUser") return [0, u.message.id];
    if (u._ === "updateReadHistoryInbox") return [0, u.max_id];
    if (u._ === "updateNewEncryptedMessage") return [0, u.message.chat_id];
    if (u._ === "updateBotStopped") return [0, Number(u.user_id)];
    const x = this.e.name(u);
    if (!x) throw new Error(`unexpected update ${u._}`);
    return [1, x[1]];
  }
  setHandler() {
    const life = this.gate;
    let nerves = this.r.int(4) === 0 ? this.r.int(30) : 0;
    this.w.handler = (u: any) => {
      if (this.gate !== life) return new Promise(() => {});
      if (u._ !== "updateUserStatus" && nerves-- > 0) return Promise.reject(new Error("not yet"));
      const [b, i] = this.name(u);
      return Promise.resolve(() => {
        if (this.gate !== life) return new Promise(() => {});
        if (this.running[b]) this.extra.push(`the handler of box ${b + 1} runs twice at once`);
        const res = Promise.withResolvers<void>();
        this.running[b] = { name: i, res };
        this.calls[b].push(i);
        return res.promise;
      });
    };
    this.w.um?.setUpdateHandler((u: any) => this.w.handler(u));
  }
  message(i: number): any { return { _: "message", id: i, peer_id: { _: "peerUser", user_id: BigInt(USER) }, from_id: { _: "peerUser", user_id: BigInt(USER) }, date: DATE, message: "t" }; }
  enc(i: number): any { return { _: "encryptedMessage", random_id: BigInt(i), chat_id: i, date: DATE, bytes: new Uint8Array([1, 2, 3]), file: { _: "encryptedFileEmpty" } }; }
  update(b: number, i: number, form = this.r.int(2)): any {
    if (b === 1) return this.e.update(1, i);
    if (this.qts) return form ? { _: "updateBotStopped", user_id: BigInt(i), date: DATE, stopped: true, qts: QTS + i } : { _: "updateNewEncryptedMessage", message: this.enc(i), qts: QTS + i };
    const c = { pts: this.base + i, pts_count: 1 };
    return form ? { _: "updateNewMessage", message: this.message(i), ...c } : { _: "updateReadHistoryInbox", peer: { _: "peerUser", user_id: BigInt(USER) }, max_id: i, still_unread_count: 0, ...c };
  }
  kind(a: any) {
    const box = a.b === 1 ? "0" : String(this.e.id(1));
    return a.w === "state" || a.w === "commit" ? a.w : `${a.w} ${box}`;
  }
  finish(b: number, ok: boolean) {
    const h = this.running[b - 1]!;
    this.running[b - 1] = null;
    if (ok) h.res.resolve();
    else h.res.reject(new Error("handler failed"));
  }
  async step(a: any): Promise<any> {
    const { w } = this;
    switch (a.n) {
      case "Push": this.top[a.b - 1] = Math.max(this.top[a.b - 1], a.i); w.um.processUpdates(this.update(a.b - 1, a.i), true); break;
      case "PushX": w.um.processUpdates({ _: "updateUserStatus", user_id: 900n, status: { _: "userStatusRecently" } } as any, true); break;
      case "Commit": w.storage.commit(true).catch(() => {}); break;
      case "Let": {
        const i = this.gate.waiting.findIndex((x) => x.kind === this.kind(a));
        if (i < 0) throw new Error(`no ${this.kind(a)} waiting`);
        this.gate.waiting.splice(i, 1)[0].go();
        break;
      }
      case "Finish": this.finish(a.b, true); break;
      case "FailH": this.finish(a.b, false); break;
      case "Crash": {
        this.gate.dead = true;
        this.running = [null, null];
        this.top = [0, 0];
        if (this.r.int(2)) skewClock((this.r.int(3) - 1) * this.r.int(3_600_000)); // the clock may be set while the client is down
        this.gate = this.mkGate(await this.b.reopen());
        w.o.backend = this.gate;
        this.setHandler();
        await w.start();
        this.gate.gated = true;
        w.um.replayStoredUpdates().catch((e) => this.extra.push(String(e)));
        break;
      }
      default: throw new Error(a.n);
    }
    await w.quiet();
    return await this.observe();
  }
  async observe() {
    const g = this.gate;
    const has = (k: string) => g.waiting.some((x) => x.kind === k);
    const ch = String(this.e.id(1));
    const o: any = {
      call: this.calls.map((x) => x.splice(0)),
      pend: { store: [has("store 0"), has(`store ${ch}`)], state: has("state"), del: [has("del 0"), has(`del ${ch}`)], read: [has("read 0"), has(`read ${ch}`)], commit: has("commit") },
      st: [[], []], dc: [],
    };
    const known = new Set(["store 0", `store ${ch}`, "state", "del 0", `del ${ch}`, "read 0", `read ${ch}`, "commit"]);
    const more = g.waiting.filter((x, i) => !known.has(x.kind) || g.waiting.findIndex((y) => y.kind === x.kind) !== i).map((x) => x.kind);
    if (more.length) o.moreWrites = more;
    const so = this.w.storage;
    const raw = this.b.store.isMemory ? this.b.store : g.s;
    for (const [b, id] of [[0, 0n], [1, this.e.id(1)]] as const) {
      for await (const [, v] of await raw.getMany({ prefix: ["updates.updates", id] })) o.st[b].push(this.name(await (so as any).getTlObject(Array.isArray(v) ? v[1] : v))[1]);
    }
    const s: any = await so.getState();
    o.dc.push(this.qts ? s.qts - QTS : s.pts - this.base);
    o.dc.push(raw.isMemory ? 0 : this.e.index(1, await raw.get(["channelPts", this.e.id(1)])));
    if (raw.isMemory) o.dc = null; // memory has no second life
    if (this.extra.length) o.extra = this.extra.splice(0);
    return o;
  }
  async end() { await this.b.close(); return null; }
}
