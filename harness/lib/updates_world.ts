// A real UpdateManager over real account storage, against a scripted server.
import { UpdateManager } from "/repo/client/2_update_manager.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
import { PersistentTimestampInvalid } from "/repo/3_errors.ts";
import type { Driver, Rng } from "./graph.ts";
import { rng } from "./graph.ts";
import { advance, installVirtualTime, settle, timerDelays } from "./vt.ts";

export interface Req { fn: any; res: PromiseWithResolvers<any>; n: number }
export const DATE = 1_700_000_000;
export const USER = 500, CHAT = 600;
export const user = (id: number | bigint) => ({ _: "user", id: BigInt(id), access_hash: BigInt(id) + 7n, first_name: `u${id}` });
export const chat = (id: number) => ({ _: "chat", id: BigInt(id), title: "c", photo: { _: "chatPhotoEmpty" }, participants_count: 2, date: DATE, version: 1 });
export const channel = (id: number | bigint) => ({ _: "channel", id: BigInt(id), access_hash: 9n, title: "ch", photo: { _: "chatPhotoEmpty" }, date: DATE, broadcast: true });

export class UpdatesWorld {
  storage!: StorageOperations;
  um!: UpdateManager;
  reqs: Req[] = [];
  asked: any[] = []; // requests made since last taken
  handled: any[] = [];
  handler: (u: any) => Promise<() => Promise<unknown>> = (u) => Promise.resolve(() => { this.handled.push(u); return Promise.resolve(); });
  auto: ((fn: any) => any) | null = null; // answers some requests at once
  disconnected = false;
  dead = false; // the process has crashed
  calls = 0;
  constructor(public r: Rng, public o: { backend?: any; drop?: boolean; guarantee?: boolean; isBot?: boolean; wrap?: (s: any) => any } = {}) {
    installVirtualTime(DATE * 1000 + r.int(1000) * 1000);
  }
  async start() {
    const backend = this.o.backend ?? new StorageMemory();
    this.storage = new StorageOperations(backend);
    await this.storage.initialize();
    await this.storage.auth.update((a: any) => { a.isBot = this.o.isBot ?? false; a.userId = 42; });
    this.make();
  }
  make() {
    const self = this;
    const c: any = {
      id: 1, storage: this.storage, messageStorage: this.storage,
      guaranteeUpdateDelivery: this.o.guarantee ?? false, dropPendingUpdates: this.o.drop,
      setConnectionState() {}, resetConnectionState() {},
      getSelfId: () => Promise.resolve(42),
      inputPeerToPeer: (p: any) => Promise.resolve({ _: "peerUser", user_id: p.user_id }),
      getInputPeer: (id: any) => Promise.resolve({ _: "inputPeerChannel", channel_id: BigInt(-1000000000000 - Number(id)), access_hash: 9n }),
      getInputChannel: (id: any) => Promise.resolve({ _: "inputChannel", channel_id: BigInt(-1000000000000 - Number(id)), access_hash: 9n }),
      isDisconnected: () => this.disconnected,
      invoke: (fn: any) => {
        const w = self;
        if (w.auto) { const a = w.auto(fn); if (a !== undefined) return Promise.resolve(a); }
        const res = Promise.withResolvers<any>();
        const q = { fn, res, n: ++w.calls };
        w.reqs.push(q);
        w.asked.push(fn);
        return res.promise;
      },
    };
    this.um = new UpdateManager(c);
    this.um.setUpdateHandler((u: any) => this.handler(u));
  }
  async quiet() { await settle(); await advance(0); }
  req(name: string): Req {
    const i = this.reqs.findIndex((x) => x.fn._ === name);
    if (i < 0) throw new Error(`no ${name} outstanding`);
    return this.reqs.splice(i, 1)[0];
  }
  takeHandled() { return this.handled.splice(0); }
  takeAsked() { return this.asked.splice(0); }
}

// Account events of UpdatesAccount.tla as updates.
export class AccountEvents {
  base = { pts: 0, qts: 0, seq: 0 };
  pcount: number[] = [];
  pform: number[] = [];
  constructor(public r: Rng, public pkind: string[], public qkind: string[], public box: number[][]) {
    this.base = { pts: 100 + r.int(50), qts: 10 + r.int(50), seq: r.int(3) === 0 ? 0 : 5 + r.int(50) };
    this.pcount = pkind.map((k) => k === "o" ? r.pick([1, 1, 2, 3]) : 1);
    this.pform = pkind.map(() => r.int(100));
  }
  pts(i: number) { return this.base.pts + this.pcount.slice(0, i).reduce((a, b) => a + b, 0); }
  qts(i: number) { return this.base.qts + i; }
  seq(i: number) { return this.base.seq + i; }
  ip(pts: number) { for (let i = 0; i <= this.pkind.length; i++) if (this.pts(i) === pts) return i; return `pts ${pts} (base ${this.base.pts})`; }
  iq(qts: number) { const i = qts - this.base.qts; return i >= 0 && i <= this.qkind.length ? i : `qts ${qts}`; }
  state(x: number[]) { return { _: "updates.state", pts: this.pts(x[0]), qts: this.qts(x[1]), date: DATE + x[0] + x[1] + x[2], seq: this.seq(x[2]), unread_count: 0 }; }
  sender(i: number) { return this.pkind[i - 1] === "u" ? 9000 + i : USER; }
  message(i: number): any {
    const f = this.pform[i - 1] % 3;
    return { _: "message", id: 1000 + i, from_id: { _: "peerUser", user_id: BigInt(this.sender(i)) }, peer_id: f === 2 ? { _: "peerChat", chat_id: BigInt(CHAT) } : { _: "peerUser", user_id: BigInt(this.sender(i)) }, date: DATE, message: `m${i}` };
  }
  p(i: number): any {
    const c = { pts: this.pts(i), pts_count: this.pcount[i - 1] };
    if (this.pkind[i - 1] !== "o") return { _: "updateNewMessage", message: this.message(i), ...c };
    const peer = { _: "peerUser", user_id: BigInt(USER) };
    switch (this.pform[i - 1] % 6) {
      case 0: return { _: "updateReadHistoryInbox", peer, max_id: 1000 + i, still_unread_count: 0, ...c };
      case 1: return { _: "updateDeleteMessages", messages: [1000 + i], ...c };
      case 2: return { _: "updateReadHistoryOutbox", peer, max_id: 1000 + i, ...c };
      case 3: return { _: "updatePinnedMessages", peer, messages: [1000 + i], ...c };
      case 4: return { _: "updateReadMessagesContents", messages: [1000 + i], ...c };
      default: return { _: "updateEditMessage", message: { ...this.message(i) }, ...c };
    }
  }
  enc(i: number): any { return { _: "encryptedMessage", random_id: BigInt(i), chat_id: 2000 + i, date: DATE, bytes: new Uint8Array([1, 2, 3]), file: { _: "encryptedFileEmpty" } }; }
  q(i: number): any {
    return this.qkind[i - 1] === "e" ? { _: "updateNewEncryptedMessage", message: this.enc(i), qts: this.qts(i) } : { _: "updateBotStopped", user_id: BigInt(2000 + i), date: DATE, stopped: true, qts: this.qts(i) };
  }
  // what a handled update stands for
  name(u: any): [string, any] {
    switch (u._) {
      case "updateNewMessage": return ["p", u.message.id - 1000];
      case "updateEditMessage": return ["p", u.message.id - 1000];
      case "updateReadHistoryInbox": case "updateReadHistoryOutbox": return ["p", u.max_id - 1000];
      case "updateDeleteMessages": case "updatePinnedMessages": case "updateReadMessagesContents": return ["p", u.messages[0] - 1000];
      case "updateNewEncryptedMessage": return ["q", u.message.chat_id - 2000];
      case "updateBotStopped": return ["q", Number(u.user_id) - 2000];
      case "updateWebPage": return ["z", Number(u.webpage.id)];
      case "updateUserStatus": return Number(u.user_id) >= 4000 ? ["x", 1] : ["s", Number(u.user_id) - 3000];
      default: return ["?", u._];
    }
  }
  plain(id: number): any { return { _: "updateUserStatus", user_id: BigInt(id), status: { _: "userStatusRecently" } }; }
}

let seed = 1;
export class AccountDriver implements Driver {
  r: Rng;
  w: UpdatesWorld;
  e: AccountEvents;
  resets: any[] = [];
  constructor(pkind: string[], qkind: string[], box: number[][], public o: { drop?: boolean }) {
    this.r = rng(seed++ * 104729);
    this.e = new AccountEvents(this.r, pkind, qkind, box);
    const drop = o.drop ?? false;
    this.w = new UpdatesWorld(this.r, { drop, guarantee: this.r.int(2) === 0, isBot: this.r.int(2) === 0 });
  }
  static async make(pkind: string[], qkind: string[], box: number[][], o: { drop?: boolean }) {
    const d = new AccountDriver(pkind, qkind, box, o);
    await d.w.start();
    d.w.storage.setPeer(user(USER) as any);
    d.w.storage.setPeer(chat(CHAT) as any);
    const s0 = d.e.state([0, 0, 0]);
    if (o.drop || d.r.int(4) === 0) {
      d.w.auto = (fn) => fn._ === "updates.getState" ? { ...s0 } : fn._ === "updates.getDifference" ? d.r.int(2) ? { _: "updates.differenceEmpty", date: s0.date, seq: s0.seq } : { _: "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates: [], chats: [], users: [], state: { ...s0 } } : undefined;
      await d.w.um.fetchState("test");
      d.w.auto = null;
      if (!o.drop) await d.w.storage.setState(s0 as any);
    } else await d.w.storage.setState(s0 as any);
    await d.w.quiet();
    // the state to which the server has reset the counters
    d.w.auto = (fn) => {
      if (fn._ === "updates.getState" && d.resets.length) return d.e.state(d.resets[0]);
      if (fn._ === "updates.getDifference" && d.resets.length && fn.pts === d.e.pts(d.resets[0][0]) && "unread_count" in fn) { const s = d.e.state(d.resets.shift()); return { _: "updates.differenceEmpty", date: s.date, seq: s.seq }; }
      return undefined;
    };
    return d;
  }
  private date() { return DATE + this.r.int(100); }
  private cont(us: any[], seq = 0, from?: number): any {
    const users = us.some((u) => u._ === "updateNewMessage" && this.r.int(2)) ? [user(USER)] : [];
    return from !== undefined || this.r.int(4) === 0
      ? { _: "updatesCombined", updates: us, users, chats: [], date: this.date(), seq_start: from ?? seq, seq }
      : { _: "updates", updates: us, users, chats: [], date: this.date(), seq };
  }
  private push(i: any) {
    const { um } = this.w;
    const e = this.e;
    const go = (u: any, call: any = null) => um.processUpdates(u, true, call);
    switch (i.k) {
      case "p": {
        const u = e.p(i.i);
        if (e.pkind[i.i - 1] === "m" && u.message) {
          const m = u.message;
          const c = { pts: u.pts, pts_count: 1, date: this.date(), id: m.id };
          const f = this.r.int(5);
          if (f === 0 && m.peer_id._ === "peerUser") return go({ _: "updateShortMessage", user_id: m.peer_id.user_id, message: m.message, ...c });
          if (f === 1 && m.peer_id._ === "peerChat") return go({ _: "updateShortChatMessage", chat_id: m.peer_id.chat_id, from_id: BigInt(USER), message: m.message, ...c });
          if (f === 2 && m.peer_id._ === "peerUser") { this.w.storage.setPeer(user(42) as any); return go({ _: "updateShortSentMessage", out: true, ...c }, { _: "messages.sendMessage", peer: { _: "inputPeerUser", user_id: BigInt(USER), access_hash: 1n }, message: m.message, random_id: 1n }); }
        }
        return this.single(u);
      }
      case "q": return this.single(e.q(i.i));
      case "c": return go(this.cont(this.r.int(2) ? [e.p(i.i), e.q(i.j)] : [e.q(i.j), e.p(i.i)]));
      case "z": return this.single({ _: "updateWebPage", webpage: { _: "webPageEmpty", id: BigInt(i.i) }, pts: e.pts(i.i), pts_count: 0 });
      case "x": return this.single(e.plain(4000), true);
      case "t": return go({ _: "updatesTooLong" });
      case "s": {
        const b = e.box[i.i - 1];
        const us = [e.plain(3000 + i.i)];
        if (b[0]) us.splice(this.r.int(2), 0, e.p(b[0]));
        if (b[1]) us.splice(this.r.int(us.length + 1), 0, e.q(b[1]));
        return go(this.cont(us, e.seq(i.i)));
      }
    }
  }
  private single(u: any, plain = false) {
    const f = this.r.int(3);
    this.w.um.processUpdates(f === 0 ? u : f === 1 ? { _: "updateShort", update: u, date: this.date() } : this.cont([u]), true);
    void plain;
  }
  last = [0, 0, 0]; // counters the server last gave or saw
  private diff(from: number[], x: number[], slice: boolean): any {
    const e = this.e;
    const d: any = { _: slice ? "updates.differenceSlice" : "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates: [], chats: [chat(CHAT)], users: [user(USER)] };
    const po: any[] = [], qo: any[] = [];
    for (let i = from[0] + 1; i <= x[0]; i++) e.pkind[i - 1] === "o" ? po.push(e.p(i)) : (d.new_messages.push(e.message(i)), d.users.push(user(e.sender(i))));
    for (let i = from[1] + 1; i <= x[1]; i++) e.qkind[i - 1] === "o" ? qo.push(e.q(i)) : d.new_encrypted_messages.push(e.enc(i));
    while (po.length || qo.length) d.other_updates.push((po.length && (!qo.length || this.r.int(2)) ? po : qo).shift());
    if (!slice && this.r.int(8) === 0) d.other_updates.splice(this.r.int(d.other_updates.length + 1), 0, { _: "updatePtsChanged" });
    d[slice ? "intermediate_state" : "state"] = e.state(x);
    return d;
  }
  async step(a: any): Promise<any> {
    const w = this.w;
    const ask = () => { const q = w.req("updates.getDifference"); return { q, from: [this.e.ip(q.fn.pts) as number, this.e.iq(q.fn.qts) as number] }; };
    switch (a.n) {
      case "Push": for (const i of a.s) this.push(i); break;
      case "Reset": this.resets.push(a.to); w.um.processUpdates(this.r.int(2) ? this.cont([{ _: "updatePtsChanged" }]) : { _: "updateShort", update: { _: "updatePtsChanged" }, date: this.date() }, true); break;
      case "Recover": w.um.recoverUpdateGap("test").catch(() => {}); break;
      case "Final": { const { q, from } = ask(); q.res.resolve(this.diff(from, a.x, false)); break; }
      case "Slice": { const { q, from } = ask(); q.res.resolve(this.diff(from, a.x, true)); break; }
      case "Empty": { const { q } = ask(); this.seqIdx = Math.max(this.seqIdx, a.s); q.res.resolve({ _: "updates.differenceEmpty", date: this.date(), seq: this.e.seq(a.s) }); break; }
      case "Skip": { const { q } = ask(); q.res.resolve({ _: "updates.differenceTooLong", pts: this.e.pts(a.p) }); break; }
      case "Retry": { const { q } = ask(); q.res.reject(new PersistentTimestampInvalid({ error_code: 400, error_message: "PERSISTENT_TIMESTAMP_INVALID", call: q.fn } as any)); await w.quiet(); await advance(61_000); break; }
      case "Fail": { const { q } = ask(); q.res.reject(new Error("failed")); break; }
      default: throw new Error(a.n);
    }
    await w.quiet();
    const o = await this.observe();
    this.seqs = o.seqAfter ?? this.seqs;
    delete o.seqAfter;
    if (a.n === "Final" || a.n === "Slice") this.seqIdx = Math.max(this.seqIdx, a.x[2]);
    if (a.n === "Reset") this.seqIdx = Math.max(this.seqIdx, a.to[2]);
    return o;
  }
  seqs = 0;
  seqIdx = 0;
  async observe() {
    const w = this.w, e = this.e;
    const o: any = { pm: [], po: [], qe: [], qo: [], s: [], x: 0, z: [], rq: [], st: [] };
    for (const u of w.takeHandled()) {
      const [k, i] = e.name(u);
      if (k === "p") (e.pkind[i - 1] === "o" ? o.po : o.pm).push(i);
      else if (k === "q") (e.qkind[i - 1] === "e" ? o.qe : o.qo).push(i);
      else if (k === "s") { o.s.push(i); this.seqIdx = Math.max(this.seqIdx, i); }
      else if (k === "x") o.x++;
      else if (k === "z") o.z.push(i);
      else o.unexpected = [...(o.unexpected ?? []), i];
    }
    for (const f of w.takeAsked()) o.rq.push(f._ === "updates.getDifference" ? [e.ip(f.pts), e.iq(f.qts)] : f._);
    if (this.o.drop) o.st = null;
    else if (!w.reqs.length) {
      { const s: any = await w.storage.getState(); o.st = [e.ip(s.pts), e.iq(s.qts), s.seq - e.base.seq]; }
    }
    return o;
  }
}

// Channel events of UpdatesChannel.tla as updates.
export class ChannelEvents {
  base: number[];
  count: number[][];
  form: number[][];
  constructor(public r: Rng, public kinds: string[][]) {
    this.base = kinds.map(() => 20 + r.int(40));
    this.count = kinds.map((ks) => ks.map((k) => k === "m" ? 1 : r.pick([1, 1, 2, 3])));
    this.form = kinds.map((ks) => ks.map(() => r.int(100)));
  }
  id(k: number) { return BigInt(7000 + k); }
  chatId(k: number) { return -1000000000000 - 7000 - k; }
  pts(k: number, i: number) { return this.base[k - 1] + this.count[k - 1].slice(0, i).reduce((a, b) => a + b, 0); }
  index(k: number, pts: number) { for (let i = 0; i <= this.kinds[k - 1].length; i++) if (this.pts(k, i) === pts) return i; return `pts ${pts}`; }
  message(k: number, i: number): any {
    const common = { id: 1000 + i, from_id: this.form[k - 1][i - 1] % 2 ? { _: "peerUser", user_id: BigInt(USER) } : undefined, peer_id: { _: "peerChannel", channel_id: this.id(k) }, date: DATE };
    return this.form[k - 1][i - 1] % 5 === 4 ? { _: "messageService", ...common, action: { _: "messageActionChatEditTitle", title: "t" } } : { _: "message", ...common, message: `c${i}` };
  }
  update(k: number, i: number): any {
    const c = { pts: this.pts(k, i), pts_count: this.count[k - 1][i - 1] };
    if (this.kinds[k - 1][i - 1] === "m") return { _: "updateNewChannelMessage", message: this.message(k, i), ...c };
    switch (this.form[k - 1][i - 1] % 4) {
      case 0: return { _: "updateEditChannelMessage", message: { ...this.message(k, i) }, ...c };
      case 1: return { _: "updateDeleteChannelMessages", channel_id: this.id(k), messages: [1000 + i], ...c };
      case 2: return { _: "updatePinnedChannelMessages", channel_id: this.id(k), messages: [1000 + i], ...c };
      default: return { _: "updateChannelWebPage", channel_id: this.id(k), webpage: { _: "webPageEmpty", id: BigInt(1000 + i) }, ...c };
    }
  }
  name(u: any): [number, number] | null {
    switch (u._) {
      case "updateNewChannelMessage": case "updateEditChannelMessage": return [Number(u.message.peer_id.channel_id) - 7000, u.message.id - 1000];
      case "updateDeleteChannelMessages": case "updatePinnedChannelMessages": return [Number(u.channel_id) - 7000, u.messages[0] - 1000];
      case "updateChannelWebPage": return [Number(u.channel_id) - 7000, Number(u.webpage.id) - 1000];
      default: return null;
    }
  }
}

const NONE = 9;
export class ChannelDriver implements Driver {
  r: Rng;
  w: UpdatesWorld;
  e: ChannelEvents;
  open: boolean[];
  apts = 300;
  plain = 0; // uncounted updates the server has put into differences
  seenPlain = 0;
  constructor(public kinds: string[][], public o: { drop?: boolean }) {
    this.r = rng(seed++ * 15485863);
    this.e = new ChannelEvents(this.r, kinds);
    this.open = kinds.map(() => false);
    this.w = new UpdatesWorld(this.r, { drop: o.drop ?? false, guarantee: this.r.int(2) === 0, isBot: this.r.int(2) === 0 });
  }
  static async make(kinds: string[][], start: number[], o: { drop?: boolean }) {
    const d = new ChannelDriver(kinds, o);
    await d.w.start();
    for (const p of [user(USER), user(42), ...kinds.map((_, k) => channel(7001 + k))]) d.w.storage.setPeer(p as any);
    start.forEach((s, k) => { if (s !== NONE) d.w.storage.channelPts.set([d.e.id(k + 1)], d.e.pts(k + 1, s)); });
    const st = { _: "updates.state", pts: d.apts, qts: 10, date: DATE, seq: 5, unread_count: 0 };
    d.w.auto = (fn) => fn._ === "updates.getState" ? { ...st } : fn._ === "updates.getDifference" ? { _: "updates.differenceEmpty", date: DATE, seq: 5 } : undefined;
    if (o.drop) await d.w.um.fetchState("test");
    else await d.w.storage.setState(st as any);
    d.w.auto = null;
    await d.w.quiet();
    return d;
  }
  private acc(i: number): any { return { _: "updateDeleteMessages", messages: [i], pts: this.apts + i, pts_count: 1 }; }
  private item(x: any): any {
    if (x.k === "a") return this.acc(x.i);
    if (x.k === "p") return this.e.update(x.c, x.i);
    if (x.k === "z") return { _: "updateChannelWebPage", channel_id: this.e.id(x.c), webpage: { _: "webPageEmpty", id: BigInt(5000 + x.i) }, pts: this.e.pts(x.c, x.i), pts_count: 0 };
    return { _: "updateChannelTooLong", channel_id: this.e.id(x.c), ...(x.i === NONE ? {} : { pts: this.e.pts(x.c, x.i) }) };
  }
  private push(us: any[]) {
    const date = DATE + this.r.int(100);
    if (us.length > 1 && this.r.int(2)) return this.w.um.processUpdates({ _: "updates", updates: us, users: [], chats: [], date, seq: 0 } as any, true);
    for (const u of us) {
      const f = this.r.int(3);
      this.w.um.processUpdates(f === 0 ? u : f === 1 ? { _: "updateShort", update: u, date } : { _: "updates", updates: [u], users: [], chats: [], date, seq: 0 } as any, true);
    }
  }
  private ask(k: number): Req {
    const i = this.w.reqs.findIndex((x) => x.fn._ === "updates.getChannelDifference" && x.fn.channel.channel_id === this.e.id(k));
    if (i < 0) throw new Error(`no difference of channel ${k} asked for`);
    return this.w.reqs.splice(i, 1)[0];
  }
  private from(q: Req, k: number) { return q.fn.pts === 1 ? 0 : this.e.index(k, q.fn.pts) as number; }
  async step(a: any): Promise<any> {
    const w = this.w, e = this.e;
    const timeout = () => ({ timeout: 3000 + this.r.int(4000) });
    switch (a.n) {
      case "Push": this.push(a.s.map((x: any) => this.item(x))); break;
      case "Open": this.open[a.c - 1] = true; await w.um.openChat(e.chatId(a.c), this.r.int(2) ? { timeout: 3000 + this.r.int(5000) } : undefined); break;
      case "Close": this.open[a.c - 1] = false; this.r.int(3) || this.open.some((x) => x) ? await w.um.closeChat(e.chatId(a.c)) : w.um.closeAllChats(); break;
      case "Tick": await advance(timerDelays()[0] ?? 0); break;
      case "Retry": this.ask(a.c).res.reject(new PersistentTimestampInvalid({ error_code: 400, error_message: "PERSISTENT_TIMESTAMP_INVALID", call: {} } as any)); await w.quiet(); await advance(timerDelays()[0] ?? 0); break;
      case "Fail": this.ask(a.c).res.reject(new Error("failed")); break;
      case "Diff": {
        const q = this.ask(a.c), f = this.from(q, a.c);
        const d: any = { _: "updates.channelDifference", final: a.final || undefined, pts: e.pts(a.c, a.x), ...timeout(), new_messages: [], other_updates: [], chats: [channel(7000 + a.c)], users: [user(USER)] };
        for (let i = f + 1; i <= a.x; i++) e.kinds[a.c - 1][i - 1] === "m" ? d.new_messages.push(e.message(a.c, i)) : d.other_updates.push(e.update(a.c, i));
        if (this.r.int(4) === 0) { this.plain++; d.other_updates.splice(this.r.int(d.other_updates.length + 1), 0, { _: "updateUserStatus", user_id: BigInt(USER), status: { _: "userStatusRecently" } }); }
        q.res.resolve(d);
        break;
      }
      case "TooLong": this.ask(a.c).res.resolve({ _: "updates.channelDifferenceTooLong", final: a.final || undefined, ...timeout(), dialog: { _: "dialog", peer: { _: "peerChannel", channel_id: e.id(a.c) }, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: e.pts(a.c, a.x) }, messages: a.m.map((i: number) => e.message(a.c, i)), chats: [channel(7000 + a.c)], users: [user(USER)] }); break;
      case "Empty": this.ask(a.c).res.resolve({ _: "updates.channelDifferenceEmpty", final: a.final || undefined, pts: e.pts(a.c, a.x), ...timeout() }); break;
      case "AFinal": {
        const q = w.req("updates.getDifference");
        const us = [];
        for (let i = q.fn.pts - this.apts + 1; i <= this.na; i++) us.push(this.acc(i));
        for (const x of a.s) us.splice(this.r.int(us.length + 1), 0, this.item(x));
        q.res.resolve({ _: "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates: us, chats: [], users: [], state: { _: "updates.state", pts: this.apts + this.na, qts: 10, date: DATE, seq: 5, unread_count: 0 } });
        break;
      }
      default: throw new Error(a.n);
    }
    await w.quiet();
    return this.observe();
  }
  na = 2;
  async observe() {
    const w = this.w, e = this.e, n = this.kinds.length;
    const o: any = { m: [], o: [], z: [], rq: [], st: [], a: [], ra: 0, open: [...this.open] };
    for (let k = 0; k < n; k++) { o.m.push([]); o.o.push([]); o.z.push([]); o.rq.push([]); }
    const bad: any[] = [];
    for (const u of w.takeHandled()) {
      const x = e.name(u);
      if (u._ === "updateChannelWebPage" && u.webpage.id >= 5000n) o.z[Number(u.channel_id) - 7001].push(Number(u.webpage.id) - 5000);
      else if (x && x[0] >= 1 && x[0] <= n) (e.kinds[x[0] - 1][x[1] - 1] === "m" ? o.m : o.o)[x[0] - 1].push(x[1]);
      else if (u._ === "updateDeleteMessages") o.a.push(u.messages[0]);
      else if (u._ === "updateUserStatus") this.seenPlain++;
      else bad.push(u);
    }
    for (const f of w.takeAsked()) {
      if (f._ === "updates.getDifference") o.ra++;
      else if (f._ === "updates.getChannelDifference") { const k = Number(f.channel.channel_id) - 7000; o.rq[k - 1].push(f.pts === 1 ? NONE : e.index(k, f.pts)); }
      else bad.push(f);
    }
    if (this.seenPlain !== this.plain) bad.push(`uncounted updates of differences: ${this.plain} given, ${this.seenPlain} handled`);
    for (let k = 1; k <= n; k++) {
      if (w.reqs.some((q) => q.fn.channel?.channel_id === e.id(k))) o.st.push(-1);
      else { const p = await w.storage.channelPts.get([e.id(k)]); o.st.push(p === null ? NONE : e.index(k, p)); }
    }
    if (bad.length) o.unexpected = bad;
    return o;
  }
}
