// Two secret-chat managers of the real code and a server between them that delivers what it is told to.
import { concat, equals, ige256Decrypt, ige256Encrypt } from "/repo/0_deps.ts";
import { SecretChatManager } from "/repo/client/3_secret_chat_manager.ts";
import { SecretChats, TLReader, TLWriter, X } from "/repo/2_tl.ts";
import { sha1, sha256 } from "/repo/1_utilities.ts";
import { type Backend, makeBackend } from "./backends.ts";
import { advance, installVirtualTime, setClock, settle, virtualNow } from "./vt.ts";

export type Side = "A" | "B";
export const other = (p: Side): Side => p === "A" ? "B" : "A";
export const USER = { A: 1001, B: 1002 };
export const CHAT = 77;
export const WEEK = 7 * 24 * 3600 * 1000;
export const PRIME = Uint8Array.from(("c71caeb9c6b1c9048e6c522f70f13f73980d40238e3e21c14934d037563d930f48198a0aa7c14058229493d22530f4dbfa336f6e0ac925139543aed44cce7c3720fd51f69458705ac68cd4fe6b6b13abdc9746512969328454f18faf8c595f642477fe96bb2a941d5bcd1d4ac8cc49880708fa9b378e3c4f3a9060bee67cf9a4a4a695811051907e162753b56b0f6b410dba74d8a84b2a14b3144e0ef1284754fd17ed950d5965b4b9dd46582db1178d169c6bc465b0d6ff9ca3928fef5b9ae4e418fc15e83ebea0f87fa9ff5eed70050ded2849f47bf959d956850ce929851f0d8115f635b105ee2e4e15d04b2454bf6f4fadf034b10403119cd8e3b92fcc5b").match(/../g)!.map((x) => parseInt(x, 16)));

// randomness: exponents are short, so that keys cost little, and identifiers come from a chosen range
const realRandom = crypto.getRandomValues.bind(crypto);
const exponents: bigint[] = [];
let idRange = 1;
let idCount = 0;
export const setIdRange = (n: number) => { idRange = n; };
crypto.getRandomValues = function <T extends ArrayBufferView | null>(a: T): T {
  realRandom(a as any);
  const b = a as unknown as Uint8Array;
  if (b.byteLength === 256) {
    for (let i = 0; i < 256; i++) b[i] = i < 2 ? b[i] | 1 : 0;
    exponents.push(BigInt(b[0] + 256 * b[1]), BigInt(b[0]) << 2040n | BigInt(b[1]) << 2032n);
  }
  else if (b.byteLength === 8) {
    const v = new DataView(b.buffer, b.byteOffset, 8);
    v.setUint32(0, ++idCount, true);
    v.setUint32(4, idRange << 16, true);
  }
  return a;
} as any;

export interface Call { side: Side; fn: any; answer: (result: any) => void; fail: (err: unknown) => void; done: boolean }
export interface Wire { i: number; data: Uint8Array; form: string; silent: boolean; file: any; plain?: any; key?: number; random_ids: Set<bigint> }

export class Peer {
  backend!: Backend;
  storage: any;
  mgr!: SecretChatManager;
  calls: Call[] = [];
  updates: any[] = [];
  errors: unknown[] = [];
  dead = false;
  constructor(public side: Side, public world: SecretWorld) {}
  make() {
    const me = { dead: false };
    this.life = me;
    const c: any = {
      storage: { assertUser() {} },
      messageStorage: { storage: this.storage },
      parseMode: null,
      getSelfId: () => Promise.resolve(USER[this.side]),
      getInputUser: (id: any) => Promise.resolve({ _: "inputUser", user_id: BigInt(id), access_hash: 1n }),
      handleUpdate: (u: any) => { if (!me.dead) this.updates.push(u); },
      invoke: (fn: any) => {
        if (me.dead) return new Promise(() => {});
        return new Promise((answer, fail) => {
          const call: Call = { side: this.side, fn, done: false, answer: (x) => { call.done = true; answer(x); }, fail: (e) => { call.done = true; fail(e); } };
          this.calls.push(call);
          this.world.onCall(call);
        });
      },
      fileManager: {
        upload: (contents: any) => Promise.resolve({ inputEncryptedFile: { _: "inputEncryptedFileUploaded", id: BigInt(++idCount), parts: 1, md5_checksum: "", key_fingerprint: 1 }, fileSize: 3, contents }),
      },
    };
    this.mgr = new SecretChatManager(c);
  }
  life: { dead: boolean } = { dead: false };
  async restart() {
    this.life.dead = true;
    this.calls = [];
    if (this.backend) this.storage = await this.backend.reopen();
    this.make();
    await this.mgr.loadSecretChats();
  }
  async stored() {
    return await this.storage.get(["secretChats", CHAT]);
  }
}

const snapshots = new Map<string, any[]>();

export class SecretWorld {
  peers: Record<Side, Peer> = {} as any;
  wires: Record<Side, Wire[]> = { A: [], B: [] };
  byData: Record<Side, Map<string, Wire>> = { A: new Map(), B: new Map() };
  keys: { label: number; key: Uint8Array; id: Uint8Array }[] = [];
  log: { side: Side; fn: any; wire?: Wire; first: boolean; ok: boolean }[] = [];
  discards: Side[] = [];
  outcome: "ok" | "fail" | "hold" | ((c: Call) => void) = "ok";
  stored: Record<string, any> = {};

  onCall(c: Call) {
    if (typeof this.outcome === "function") return this.outcome(c);
    if (this.outcome === "hold") return;
    this.respond(c, this.outcome === "ok");
  }
  // what the server does with a call
  respond(c: Call, ok: boolean) {
    const e = this.record(c);
    if (e) e.ok = ok;
    if (!ok) return c.fail(new Error("the request failed"));
    c.answer(this.result(c, e?.wire));
  }
  record(c: Call) {
    const fn = c.fn;
    if (!/^messages\.sendEncrypted/.test(fn._)) {
      if (fn._ === "messages.discardEncryption") this.discards.push(c.side);
      return;
    }
    const hex = [...fn.data as Uint8Array].map((x) => x.toString(16).padStart(2, "0")).join("");
    let wire = this.byData[c.side].get(hex);
    const first = !wire;
    const form = fn._.slice("messages.sendEncrypted".length);
    if (!wire) {
      wire = { i: this.wires[c.side].length, data: fn.data.slice(), form, silent: !!fn.silent, file: fn.file, random_ids: new Set() };
      this.wires[c.side].push(wire);
      this.byData[c.side].set(hex, wire);
    }
    const e = { side: c.side, fn, wire, first, ok: true };
    this.log.push(e);
    return e;
  }
  result(c: Call, wire?: Wire): any {
    const fn = c.fn;
    switch (fn._) {
      case "messages.getDhConfig":
        return { _: "messages.dhConfig", g: 3, p: PRIME, version: 1, random: new Uint8Array(256) };
      case "messages.sendEncrypted":
      case "messages.sendEncryptedService":
        return { _: "messages.sentEncryptedMessage", date: 1 };
      case "messages.sendEncryptedFile": {
        const id = wire ? 500n + BigInt(wire.i) : 999n;
        return { _: "messages.sentEncryptedFile", date: 1, file: { _: "encryptedFile", id, access_hash: id * 7n, size: 3n, dc_id: 2, key_fingerprint: 1 } };
      }
      case "messages.discardEncryption":
        return true;
      default:
        throw new Error("unexpected call " + fn._);
    }
  }
  update(from: Side, wire: Wire) {
    const base = { random_id: wire.random_ids.values().next().value ?? 5n, chat_id: CHAT, date: 1, bytes: wire.data.slice() };
    const id = 500n + BigInt(wire.i);
    return { _: "updateNewEncryptedMessage", qts: 1, message: wire.form === "Service" ? { _: "encryptedMessageService", ...base } : { _: "encryptedMessage", ...base, file: wire.form === "File" ? { _: "encryptedFile", id, access_hash: id * 7n, size: 3n, dc_id: 2, key_fingerprint: 1 } : { _: "encryptedFileEmpty" } } };
  }

  static async ready(backend = "memory", worn = false): Promise<SecretWorld> {
    installVirtualTime();
    const w = new SecretWorld();
    idCount = 0;
    for (const p of ["A", "B"] as Side[]) {
      const peer = w.peers[p] = new Peer(p, w);
      peer.backend = await makeBackend(backend);
      peer.storage = peer.backend.store;
      peer.make();
    }
    const key = worn ? "worn" : "new";
    let snap = snapshots.get(key);
    if (!snap) {
      await w.handshake();
      snap = [];
      for (const p of ["A", "B"] as Side[]) {
        const s = await w.peers[p].stored();
        snap.push(structuredClone(s));
      }
      if (worn) for (const s of snap) s.authKeyUseCount = 101;
      snapshots.set(key, snap);
    }
    for (const [k, p] of (["A", "B"] as Side[]).entries()) {
      const s = structuredClone(snap[k]);
      s.authKeyCreatedAt = virtualNow();
      await w.peers[p].storage.set(["secretChats", CHAT], s);
      await w.peers[p].restart();
    }
    await w.harvest();
    w.log = [];
    return w;
  }
  // creates the chat as a user would
  async handshake() {
    const { A, B } = this.peers;
    let gA!: Uint8Array;
    const chat = { id: CHAT, access_hash: 42n, date: 1, admin_id: BigInt(USER.A), participant_id: BigInt(USER.B) };
    this.outcome = (c) => {
      if (c.fn._ === "messages.requestEncryption") { gA = c.fn.g_a; c.answer({ _: "encryptedChatWaiting", ...chat }); }
      else if (c.fn._ === "messages.acceptEncryption") c.answer({ _: "encryptedChat", ...chat, g_a_or_b: gA, key_fingerprint: c.fn.key_fingerprint, g_b: c.fn.g_b });
      else this.respond(c, true);
    };
    await A.mgr.requestSecretChat(USER.B);
    await B.mgr.handleUpdate({ _: "updateEncryption", chat: { _: "encryptedChatRequested", ...chat, g_a: gA }, date: 1 } as any);
    let gB!: Uint8Array, fp!: bigint;
    const on = this.outcome;
    this.outcome = (c) => {
      if (c.fn._ === "messages.acceptEncryption") { gB = c.fn.g_b; fp = c.fn.key_fingerprint; }
      on(c);
    };
    await B.mgr.acceptSecretChat(CHAT);
    await A.mgr.handleUpdate({ _: "updateEncryption", chat: { _: "encryptedChat", ...chat, g_a_or_b: gB, key_fingerprint: fp }, date: 1 } as any);
    this.outcome = "ok";
  }

  // the keys both sides hold; a new one belongs to the exchange whose accepting message names its fingerprint
  async harvest() {
    for (const p of ["A", "B"] as Side[]) {
      const s = await this.peers[p].stored();
      this.stored[p] = s;
      if (!s) continue;
      for (const k of [s.authKey, s.previousAuthKey, s.toCommitAuthKey]) {
        if (!k || k.byteLength === 0 || this.keys.some((x) => equals(x.key, k))) continue;
        this.keys.push({ label: this.keys.length ? -2 : 0, key: k.slice(), id: (await sha1(k)).subarray(-8) });
      }
    }
  }
  labels = new Map<bigint, number>();
  exchange(id: bigint): number { return this.labels.get(id) ?? -7; }
  nextLabel: (side: Side) => number = () => 0;
  async read(side: Side, wire: Wire) {
    if (wire.plain) return;
    for (const k of this.keys) {
      const plain = await open(side === "A", k.key, wire.data);
      if (!plain) continue;
      wire.plain = plain;
      wire.key = k.label;
      const action = (plain.message as any).action;
      if (action?._ === "decryptedMessageActionRequestKey") this.labels.set(action.exchange_id, this.nextLabel(side));
      if (action?._ === "decryptedMessageActionAcceptKey") {
        const id = action.key_fingerprint;
        const k = this.keys.find((x) => new DataView(x.id.buffer, x.id.byteOffset, 8).getBigInt64(0, true) === id || new DataView(x.id.buffer, x.id.byteOffset, 8).getBigUint64(0, true) === id);
        if (k && k.label === -2) k.label = this.exchange(action.exchange_id);
      }
      return;
    }
  }
}

async function aes(creator: boolean, key: Uint8Array, msgKey: Uint8Array) {
  const x = creator ? 0 : 8;
  const a = await sha256(concat([msgKey as any, key.subarray(x, x + 36) as any]));
  const b = await sha256(concat([key.subarray(40 + x, 76 + x) as any, msgKey as any]));
  return [concat([a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)]), concat([b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32)])] as const;
}
// decrypts a message written by the chat's creator (or by the other side)
export async function open(creator: boolean, key: Uint8Array, data: Uint8Array): Promise<any> {
  const id = (await sha1(key as any)).subarray(-8);
  if (!equals(id, data.subarray(0, 8) as any)) return null;
  const msgKey = data.subarray(8, 24);
  const [k, iv] = await aes(creator, key, msgKey);
  const text = ige256Decrypt(data.slice(24) as any, k, iv);
  const x = creator ? 0 : 8;
  if (!equals((await sha256(concat([key.subarray(88 + x, 120 + x) as any, text]))).subarray(8, 24), msgKey as any)) return null;
  const r = new TLReader(text);
  return SecretChats.deserializeType(X, r.read(r.readInt32(false)));
}
export async function seal(creator: boolean, key: Uint8Array, layer: any): Promise<Uint8Array> {
  const body = SecretChats.serializeObject(layer);
  const w = new TLWriter();
  w.writeInt32(body.byteLength, false);
  w.write(body);
  let pad = (16 - (4 + body.byteLength) % 16) % 16;
  if (pad < 12) pad += 16;
  w.write(new Uint8Array(pad));
  const x = creator ? 0 : 8;
  const msgKey = (await sha256(concat([key.subarray(88 + x, 120 + x) as any, w.buffer]))).subarray(8, 24);
  const [k, iv] = await aes(creator, key, msgKey);
  return concat([(await sha1(key as any)).subarray(-8), msgKey, ige256Encrypt(w.buffer, k, iv)]);
}

const KIND: Record<string, string> = { decryptedMessageActionResend: "r", decryptedMessageActionRequestKey: "req", decryptedMessageActionAcceptKey: "acc", decryptedMessageActionCommitKey: "com", decryptedMessageActionAbortKey: "abort", decryptedMessageActionNoop: "noop" };

// Executes SecretChat's transitions; every request to the server is answered at once.
export class SecretDriver {
  users: Record<Side, number> = { A: 0, B: 0 };
  constructor(public w: SecretWorld, public hi: Side) {
    const n: Record<Side, number> = { A: 0, B: 0 };
    w.nextLabel = (p) => (p === hi ? 100 : 0) + ++n[p];
  }
  static async make(hi: Side, o: { backend?: string; worn?: boolean } = {}) { return new SecretDriver(await SecretWorld.ready(o.backend, o.worn), hi); }

  async observe(p: Side, before: number) {
    const w = this.w;
    await settle();
    // a message may be encrypted with a key that is stored only now, and tells the label of another
    for (let k = 0; k < 2; k++) {
      await w.harvest();
      for (const s of ["A", "B"] as Side[]) for (const x of w.wires[s]) await w.read(s, x);
    }
    for (const x of w.wires[p]) if (x.key === -2) x.key = w.keys.find((k) => equals(k.id, x.data.subarray(0, 8) as any))!.label;
    const entries = w.log.slice(before);
    const foreign = entries.filter((e) => e.side !== p).length;
    const c = p === "A" ? 1 : 0;
    const out: any = { new: [], again: [], got: [], ended: false };
    for (const e of entries) {
      const x = e.wire!;
      if (!e.first) {
        // sent again: everything as it was, except that a file is named by what the server called it
        const want = x.form === "File" && x.file._ === "inputEncryptedFile" ? x.file : undefined;
        const same = e.fn._ === "messages.sendEncrypted" + x.form && !!e.fn.silent === x.silent && !x.random_ids.has(e.fn.random_id) && (!want || (e.fn.file?.id === want.id && e.fn.file?.access_hash === want.access_hash));
        if (e.ok) out.again.push(same ? x.i : { changed: x.i });
      } else {
        if (!x.plain) { out.new.push({ i: x.i, unreadable: true }); continue; }
        const m = x.plain.message, a = m.action;
        const q = p === "A" ? 0 : 1; // parity of what p receives
        const k = a ? KIND[a._] ?? a._ : "m";
        const o: any = { i: (x.plain.out_seq_no - c) / 2, k, x: 0, y: 0, key: x.key, in: (x.plain.in_seq_no - q) / 2 };
        if (x.i !== o.i) o.order = x.i;
        if (k === "r") { o.x = (a.start_seq_no - q) / 2; o.y = (a.end_seq_no - q) / 2; }
        else if (a && k !== "noop") o.x = w.exchange(a.exchange_id);
        if (k === "m" && m.message !== this.text(p, o.i)) o.text = m.message;
        if ((k === "m") !== (x.form !== "Service")) o.form = x.form;
        out.new.push(o);
      }
      x.random_ids.add(e.fn.random_id);
      if (e.ok && x.form === "File") x.file = { _: "inputEncryptedFile", id: 500n + BigInt(x.i), access_hash: (500n + BigInt(x.i)) * 7n };
    }
    const peer = w.peers[p];
    for (const u of peer.updates.splice(0)) {
      if (u.type !== "secretMessage") { out.got.push(u.type); continue; }
      const text = u.secretMessage.text ?? u.secretMessage.caption;
      const from = other(p);
      const x = w.wires[from].find((v) => v.plain?.message.message === text);
      out.got.push(x && u.secretMessage.chatId === CHAT ? (x.plain.out_seq_no - (from === "A" ? 1 : 0)) / 2 : { unknown: text });
    }
    out.ended = w.discards.length > 0 || w.peers[other(p)].updates.length > 0 || foreign > 0 || !w.stored.A || !w.stored.B;
    return out;
  }
  sentText: Record<Side, Map<number, string>> = { A: new Map(), B: new Map() };
  text(p: Side, i: number) { return this.sentText[p].get(i); }

  async step(a: any) {
    const w = this.w, p = a.p as Side;
    const before = w.log.length;
    w.outcome = a.f ? "fail" : "ok";
    if (p) setIdRange(p === this.hi ? 2 : 1);
    switch (a.n) {
      case "Send": {
        const n = ++this.users[p];
        const text = `${p}${n}`;
        this.sentText[p].set(w.wires[p].length, text);
        const m = w.peers[p].mgr;
        let failed = false;
        const call = n % 3 === 2 ? m.sendSecretDocument(CHAT, new Uint8Array(3), { caption: text, isSilent: n % 2 === 1 }) : m.sendSecretMessage(CHAT, text, { isSilent: n % 3 === 0 });
        call.catch(() => { failed = true; });
        const o = await this.observe(p, before);
        if (failed !== a.f) o.failed = failed;
        return o;
      }
      case "Deliver": {
        const x = w.wires[other(p)][a.i];
        if (!x) return { missing: a.i };
        const r = w.peers[p].mgr.handleUpdate(w.update(other(p), x) as any).then(() => null, (e: unknown) => e);
        void r;
        return await this.observe(p, before);
      }
      case "Age":
        setClock(virtualNow() + WEEK);
        return { n: 0 };
      case "Restart":
        await w.peers[p].restart();
        await settle();
        return { n: 0 };
      case "Lose":
        return { n: 0 };
    }
  }
}
void advance;

// Executes SecretSeq's transitions: the real side p faces a peer whose frames are made here.
export class SeqDriver {
  key!: Uint8Array;
  n = 0;
  users = 0;
  sent = new Map<string, any>();
  texts = new Map<string, number>();
  constructor(public w: SecretWorld, public p: Side) {}
  static async make(p: Side, backend?: string) {
    const w = await SecretWorld.ready(backend);
    const d = new SeqDriver(w, p);
    d.key = w.keys[0].key;
    return d;
  }
  async step(a: any) {
    const w = this.w, p = this.p, q = other(p), peer = w.peers[p];
    const before = w.log.length;
    let ok = true;
    if (a.n === "Restart") { await peer.restart(); await settle(); return { n: 0 }; }
    if (a.n === "Send") {
      const n = ++this.users;
      peer.mgr.sendSecretMessage(CHAT, `s${n}`).catch(() => { ok = false; });
    } else {
      const idx = Math.floor(a.o / 2);
      const text = `t${++this.n}`;
      const message = a.n === "Say" ? { _: "decryptedMessage", message: text, random_id: BigInt(this.n), ttl: 0 } : { _: "decryptedMessageService", random_id: BigInt(this.n), action: { _: "decryptedMessageActionResend", start_seq_no: a.s, end_seq_no: a.e } };
      this.texts.set(text, idx);
      const bytes = await seal(q === "A", this.key, { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, in_seq_no: a.i, out_seq_no: a.o, message });
      peer.mgr.handleUpdate({ _: "updateNewEncryptedMessage", qts: 1, message: { _: a.n === "Say" ? "encryptedMessage" : "encryptedMessageService", random_id: 5n, chat_id: CHAT, date: 1, bytes, file: { _: "encryptedFileEmpty" } } } as any).catch(() => {});
    }
    await settle();
    const out: any = { new: [], again: [], got: [], ended: false, ok };
    for (const e of w.log.slice(before)) {
      const x = e.wire!;
      if (!e.first) { out.again.push(e.fn._ === "messages.sendEncrypted" + x.form ? x.i : { changed: x.i }); continue; }
      await w.read(p, x);
      const m = x.plain?.message, mine = p === "A" ? 1 : 0, theirs = 1 - mine;
      const k = m?.action ? KIND[m.action._] ?? m.action._ : "m";
      out.new.push([(x.plain.out_seq_no - mine) / 2, k, k === "r" ? (m.action.start_seq_no - theirs) / 2 : 0, k === "r" ? (m.action.end_seq_no - theirs) / 2 : 0, (x.plain.in_seq_no - theirs) / 2]);
    }
    for (const u of peer.updates.splice(0)) if (u.type === "secretMessage") out.got.push(this.texts.get(u.secretMessage.text) ?? u.secretMessage.text);
    out.ended = !(await peer.stored()) && w.discards.length > 0;
    return out;
  }
}

const P_INT = BigInt("0x" + [...PRIME].map((x) => x.toString(16).padStart(2, "0")).join(""));
const powers = new Map<string, bigint>();
function power(base: bigint, e: bigint): bigint {
  const k = `${base},${e}`;
  if (!powers.has(k)) { if (powers.size > 5000) powers.clear(); powers.set(k, power_(base, e)); }
  return powers.get(k)!;
}
function power_(base: bigint, e: bigint): bigint {
  let r = 1n;
  for (let b = base % P_INT; e > 0n; e >>= 1n, b = b * b % P_INT) if (e & 1n) r = r * b % P_INT;
  return r;
}
const bytes256 = (x: bigint) => Uint8Array.from(x.toString(16).padStart(512, "0").match(/../g)!.map((h) => parseInt(h, 16)));
const toInt = (x: Uint8Array) => BigInt("0x" + [...x].map((h) => h.toString(16).padStart(2, "0")).join(""));
const fingerprint = async (key: Uint8Array) => { const id = (await sha1(key as any)).slice(-8); return new DataView(id.buffer, id.byteOffset, 8).getBigInt64(0, true); };
const EXP = 0x1234567_89abcdefn;
const SAID: Record<string, string> = { pending: "waiting", requested: "requested", active: "ready", discarded: "ended" };
const KEPT: Record<string, string> = { encryptedChatWaiting: "waiting", encryptedChatRequested: "requested", encryptedChat: "ready" };

// Executes SecretLife's transitions on one side; the other side and the server are made here.
export class LifeDriver {
  key: Uint8Array = new Uint8Array(256);
  gA = new Uint8Array();
  held: Call[] = [];
  calls: string[] = [];
  res: string[] = [];
  pin = 0;
  texts = 0;
  dh = "good";
  own: boolean | null = null; // how a discard of the client's own is answered
  now = false; // sends are answered at once
  wired = new Map<string, number>();
  kept = "none";
  sends = 0;
  constructor(public w: SecretWorld, public p: Side) {}
  static async make(role: Side, backend = "memory") {
    installVirtualTime();
    idCount = 0;
    const w = new SecretWorld();
    const d = new LifeDriver(w, role);
    const peer = w.peers[role] = new Peer(role, w);
    peer.backend = await makeBackend(backend);
    peer.storage = peer.backend.store;
    peer.make();
    w.outcome = (c) => d.call(c);
    return d;
  }
  get chat() { return { id: CHAT, access_hash: 42n, date: 1, admin_id: BigInt(USER.A), participant_id: BigInt(USER.B) }; }
  bad: string[] = [];
  call(c: Call) {
    const fn = c.fn;
    switch (fn._) {
      case "messages.getDhConfig":
        return c.answer({ _: "messages.dhConfig", g: 3, p: this.dh === "good" ? PRIME : (() => { const p = PRIME.slice(); p[255] ^= 4; return p; })(), version: 1, random: new Uint8Array(256) });
      case "messages.requestEncryption":
        this.calls.push("request");
        return void this.held.push(c);
      case "messages.acceptEncryption":
        this.calls.push("accept");
        return void this.held.push(c);
      case "messages.discardEncryption":
        this.calls.push("discard");
        if (fn.chat_id !== CHAT) this.bad.push("discards another chat");
        if (this.own !== null) return this.own ? c.answer(true) : c.fail(new Error("the request failed"));
        return void this.held.push(c);
      default: {
        const hex = String(fn.data);
        const again = this.wired.has(hex);
        if (!again) this.wired.set(hex, this.wired.size);
        (c as any).again = again;
        this.pending.push(c);
        if (this.now) { c.answer({ _: "messages.sentEncryptedMessage", date: 1 }); return; }
        return void this.held.push(c);
      }
    }
  }
  pending: Call[] = [];
  take(re: RegExp): Call | undefined {
    const i = this.held.findIndex((c) => re.test(c.fn._));
    return i < 0 ? undefined : this.held.splice(i, 1)[0];
  }
  track(name: string, p: Promise<any>) {
    p.then((r) => { this.res.push(`${name}:ok`); if (r && r.type !== undefined && name !== "send") this.returned = r.type; }, () => this.res.push(`${name}:err`));
  }
  returned: string | null = null;
  async observe() {
    await settle();
    for (const c of this.pending.splice(0)) {
      const plain = await open(this.p === "A", this.key, c.fn.data);
      if (!plain) { this.calls.push("unreadable"); continue; }
      const a = plain.message.action;
      this.calls.push((c as any).again ? "again" : a ? (KIND[a._] === "r" ? "ask" : KIND[a._] ?? a._) : "send");
    }
    const peer = this.w.peers[this.p];
    const s = await peer.stored();
    const kept = s ? KEPT[s.encryptedChat._] ?? s.encryptedChat._ : "none";
    let got = 0;
    const announced: string[] = [];
    for (const u of peer.updates.splice(0)) {
      if (u.type === "secretMessage") got++;
      else if (u.type === "secretChat") announced.push(SAID[u.secretChat.type]);
    }
    const out: any = { calls: this.calls.splice(0), res: this.res.splice(0), got, kept, said: "" };
    for (const n of this.notices.splice(0)) announced.push(n);
    // a state announced again is nothing new; nothing but the state the chat is in may be announced
    const news = announced.filter((x) => x !== this.known);
    if (news.length) { out.said = news.join(","); this.known = news.at(-1)!; }
    if (this.bad.length) out.bad = this.bad.splice(0);
    return out;
  }
  notices: string[] = [];
  known = "none";
  async update(u: any) {
    await Promise.resolve();
    this.w.peers[this.p].mgr.handleUpdate(u).then((r: any) => { if (r?.type === "secretChat") this.notices.push(SAID[r.secretChat.type]); }, () => {});
  }
  async message(i: number, body: any) {
    const creator = this.p === "B"; // the peer's role
    const bytes = await seal(creator, this.key, { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, in_seq_no: creator ? 0 : 1, out_seq_no: 2 * i + (creator ? 1 : 0), message: body });
    await this.update({ _: "updateNewEncryptedMessage", qts: 1, message: { _: body.action ? "encryptedMessageService" : "encryptedMessage", random_id: 5n, chat_id: CHAT, date: 1, bytes, file: { _: "encryptedFileEmpty" } } });
  }
  text() { return { _: "decryptedMessage", message: `t${++this.texts}`, random_id: 9n, ttl: 0 }; }
  async step(a: any) {
    const peer = this.w.peers[this.p], m = peer.mgr;
    this.dh = a.dh ?? "good";
    this.own = null;
    this.now = false;
    switch (a.n) {
      case "Request": this.track("request", m.requestSecretChat(USER.B)); break;
      case "AnswerRequest": {
        const c = this.take(/requestEncryption/)!;
        if (!a.ok) { c.fail(new Error("refused")); break; }
        this.gA = c.fn.g_a;
        this.key = bytes256(power(toInt(this.gA), EXP));
        this.known = "waiting";
        c.answer({ _: "encryptedChatWaiting", ...this.chat });
        break;
      }
      case "Accept":
        this.own = !a.f;
        this.track("accept", m.acceptSecretChat(CHAT));
        await settle();
        if (this.res.includes("accept:err") && this.calls.includes("discard")) this.known = "ended";
        break;
      case "AnswerAccept": {
        const c = this.take(/acceptEncryption/);
        if (!c) return { missing: "accept" };
        if (!a.ok) { c.fail(new Error("refused")); break; }
        this.key = bytes256(power(toInt(c.fn.g_b), EXP));
        if (await fingerprint(this.key) !== c.fn.key_fingerprint) this.bad.push("fingerprint");
        if (this.known === "requested") this.known = "ready";
        c.answer({ _: "encryptedChat", ...this.chat, g_a_or_b: this.gA, key_fingerprint: c.fn.key_fingerprint });
        break;
      }
      case "End": this.track("end", m.endSecretChat(CHAT)); break;
      case "AnswerEnd": {
        const c = this.take(/discardEncryption/);
        if (!c) return { missing: "end" };
        if (!a.ok) { c.fail(new Error("refused")); break; }
        this.known = "ended";
        c.answer(true);
        break;
      }
      case "Notice": {
        this.own = !a.f;
        let chat: any;
        if (a.k === "waiting") chat = { _: "encryptedChatWaiting", ...this.chat };
        else if (a.k === "requested") {
          // a request announced again is the same request
          if (!this.gA.length) this.gA = a.v === "good" ? bytes256(power(3n, EXP)) : bytes256(1n);
          chat = { _: "encryptedChatRequested", ...this.chat, g_a: this.gA };
        } else if (a.k === "ready") {
          const g = this.p === "B" ? (this.gA.length ? this.gA : bytes256(power(3n, EXP))) : a.v === "g" ? bytes256(1n) : a.v === "one" ? bytes256(P_INT - 1n) : bytes256(power(3n, EXP));
          chat = { _: "encryptedChat", ...this.chat, g_a_or_b: g, key_fingerprint: (await fingerprint(this.key)) + (a.v === "print" ? 1n : 0n) };
        } else chat = { _: "encryptedChatDiscarded", id: CHAT };
        if (a.v !== "good" && a.k === "ready") this.known = "ended";
        await this.update({ _: "updateEncryption", chat, date: 1 });
        break;
      }
      case "Send": this.track("send", m.sendSecretMessage(CHAT, `s${++this.sends}`)); break;
      case "AnswerSend": {
        const c = this.take(/sendEncrypted/);
        if (!c) return { missing: "send" };
        if (a.ok) c.answer({ _: "messages.sentEncryptedMessage", date: 1 });
        else c.fail(new Error("the request failed"));
        break;
      }
      case "Msg": await this.message(this.pin, this.text()); break;
      case "Early": this.now = true; await this.message(this.pin + 1, this.text()); break;
      case "Fill": await this.message(this.pin, { _: "decryptedMessageService", random_id: 8n, action: { _: "decryptedMessageActionRequestKey", exchange_id: 77n, g_a: bytes256(power(3n, EXP + 5n)) } }); break;
      case "Again": await this.message(this.pin, { _: "decryptedMessageService", random_id: 8n, action: { _: "decryptedMessageActionResend", start_seq_no: this.p === "A" ? 1 : 0, end_seq_no: this.p === "A" ? 3 : 2 } }); break;
      case "AnswerAgain": {
        const c = this.take(/sendEncrypted/);
        if (!c) return { missing: "again" };
        c.answer({ _: "messages.sentEncryptedMessage", date: 1 });
        break;
      }
      case "Restart":
        await peer.restart();
        break;
    }
    const out = await this.observe();
    this.pin += out.got;
    if (a.n === "Fill") this.filled = true;
    if (this.filled && out.got) { this.pin += 1; this.filled = false; }
    if (a.n === "AnswerAgain" && !out.calls.includes("again")) this.pin += 1;
    return out;
  }
  filled = false;
}

// Executes SecretKeys' transitions: what a side sends waits until the server answers what it sent before.
export class KeysDriver {
  held: Record<Side, Call[]> = { A: [], B: [] };
  fresh: Record<Side, Wire[]> = { A: [], B: [] };
  labels = new Map<bigint, number>();
  n: Record<Side, number> = { A: 0, B: 0 };
  bad: string[] = [];
  constructor(public w: SecretWorld, public hi: Side) {}
  static async make(hi: Side, backend?: string) {
    const w = await SecretWorld.ready(backend);
    exponents.length = 0;
    const d = new KeysDriver(w, hi);
    w.outcome = (c) => {
      if (!/sendEncrypted/.test(c.fn._)) { d.bad.push(c.fn._); return; }
      const e = w.record(c)!;
      if (!e.first) d.bad.push("again");
      d.held[c.side].push(c);
      d.fresh[c.side].push(e.wire!);
    };
    return d;
  }
  async step(a: any) {
    const w = this.w, p = a.p as Side;
    if (a.n === "Age") { setClock(virtualNow() + WEEK); return { n: 0 }; }
    for (const s of ["A", "B"] as Side[]) w.peers[s].updates.length = 0;
    setIdRange(p === this.hi ? 2 : 1);
    if (a.n === "Send") {
      const text = `${p}${++this.n[p]}`;
      w.peers[p].mgr.sendSecretMessage(CHAT, text).catch(() => this.bad.push("send failed"));
    } else if (a.n === "Answer") {
      const c = this.held[p].shift();
      if (!c) return { missing: "answer" };
      c.answer(w.result(c));
    } else {
      const x = w.wires[other(p)][a.i];
      if (!x) return { missing: a.i };
      w.peers[p].mgr.handleUpdate(w.update(other(p), x) as any).catch(() => {});
    }
    await settle();
    const out: any = { new: [], got: [] };
    if (this.fresh[other(p)].length) this.bad.push("the other side sent");
    for (const x of this.fresh[p].splice(0)) {
      let plain: any = null, key = -9;
      for (const k of w.keys) if ((plain = await open(p === "A", k.key, x.data))) { key = k.label; break; }
      if (!plain) { out.new.push("unreadable"); continue; }
      x.plain = plain;
      const mine = p === "A" ? 1 : 0, m = plain.message, act = m.action;
      const k = act ? KIND[act._] ?? act._ : "m";
      let ex = 0;
      if (k === "req") this.labels.set(act.exchange_id, ex = (p === this.hi ? 100 : 0) + ++this.rq[p]);
      else if (act && k !== "noop") ex = this.labels.get(act.exchange_id) ?? -7;
      if (k === "acc") {
        // the accepted key, from its maker's side
        for (const e of exponents) {
          const key = bytes256(power(toInt(act.g_b), e));
          if (await fingerprint(key) === act.key_fingerprint) { w.keys.push({ label: ex, key, id: (await sha1(key as any)).slice(-8) }); break; }
        }
      }
      if ((plain.out_seq_no - mine) / 2 !== x.i) this.bad.push("number");
      out.new.push([k, ex, key, (plain.in_seq_no - (1 - mine)) / 2]);
    }
    for (const u of w.peers[p].updates.splice(0)) {
      const t = u.type === "secretMessage" ? u.secretMessage.text : u.type;
      const x = w.wires[other(p)].find((v) => v.plain?.message.message === t);
      out.got.push(x ? x.i : t);
    }
    if (this.bad.length) out.bad = this.bad.splice(0);
    return out;
  }
  rq: Record<Side, number> = { A: 0, B: 0 };
}

// Executes SecretExchange's transitions: the real side p exchanges keys with a peer that is made here.
export class ExchangeDriver {
  keys = new Map<number, Uint8Array>();
  ids = new Map<number, bigint>([[0, 0x7700n]]);
  hi = new Map<number, boolean>();
  gOf = new Map<number, Uint8Array>(); // the client's g_a of an exchange of its own
  labels = new Map<bigint, number>();
  nx = 0;
  n = 0;
  users = 0;
  pin = 0;
  sent = 0;
  constructor(public w: SecretWorld, public p: Side) {}
  static async make(p: Side, backend?: string) {
    const w = await SecretWorld.ready(backend);
    const d = new ExchangeDriver(w, p);
    d.keys.set(0, w.keys[0].key);
    setIdRange(1);
    return d;
  }
  private label(id: bigint) { return this.labels.get(id) ?? -7; }
  private bind(x: number, id: bigint) { this.ids.set(x, id); this.labels.set(id, x); this.nx = Math.max(this.nx, x); }
  private async action(m: any): Promise<any> {
    const good = bytes256(power(3n, EXP + BigInt(m.x))), bad = [bytes256(1n), bytes256(P_INT - 1n), bytes256(0n), bytes256(5n)][this.n % 4];
    switch (m.k) {
      case "req":
        if (m.v !== "same" && !this.ids.has(m.x)) this.bind(m.x, (m.v === "hi" ? 1n << 60n : 1000n) + BigInt(m.x));
        return { _: "decryptedMessageActionRequestKey", exchange_id: this.ids.get(m.x), g_a: m.good ? good : bad };
      case "acc": {
        const g = this.gOf.get(m.x);
        let print = 5n;
        if (g && m.v !== "value") {
          const key = bytes256(power(toInt(g), EXP + BigInt(m.x)));
          this.keys.set(m.x, key);
          print = await fingerprint(key);
        } else if (g) { // the fingerprint fits the value, which is no good
          print = await fingerprint(bytes256(1n));
        }
        return { _: "decryptedMessageActionAcceptKey", exchange_id: this.ids.get(m.x), g_b: m.v === "value" ? bad : good, key_fingerprint: m.v === "print" ? (this.n % 2 ? 0n : print ^ 1n) : print };
      }
      case "com": {
        const key = this.keys.get(m.x);
        const print = key ? await fingerprint(key) : 5n;
        return { _: "decryptedMessageActionCommitKey", exchange_id: this.ids.get(m.x), key_fingerprint: m.v === "zero" ? 0n : m.v === "other" ? (this.n % 2 ? print ^ (1n << 40n) : await fingerprint(this.keys.get(0)!)) : print };
      }
      case "abort": return { _: "decryptedMessageActionAbortKey", exchange_id: this.ids.get(m.x) };
      default: return { _: "decryptedMessageActionNoop" };
    }
  }
  async step(a: any) {
    const w = this.w, p = this.p, q = other(p), peer = w.peers[p];
    const before = w.log.length;
    if (a.n === "Age") { setClock(virtualNow() + WEEK); return { new: [], got: 0, ended: await this.ended() }; }
    if (a.n === "Restart") await peer.restart();
    else if (a.n === "Send") peer.mgr.sendSecretMessage(CHAT, `s${++this.users}`).catch(() => {});
    else {
      const m = a.m;
      ++this.n;
      const message = m.k === "m" ? { _: "decryptedMessage", message: `t${this.n}`, random_id: BigInt(this.n), ttl: 0 } : { _: "decryptedMessageService", random_id: BigInt(this.n), action: await this.action(m) };
      const key = this.keys.get(m.key);
      if (!key) return { missing: `key ${m.key}` };
      const creator = q === "A";
      const bytes = await seal(creator, key, { _: "decryptedMessageLayer", random_bytes: new Uint8Array(15), layer: 144, in_seq_no: 2 * this.sent + (creator ? 0 : 1), out_seq_no: 2 * this.pin + (creator ? 1 : 0), message });
      peer.mgr.handleUpdate({ _: "updateNewEncryptedMessage", qts: 1, message: { _: m.k === "m" ? "encryptedMessage" : "encryptedMessageService", random_id: 5n, chat_id: CHAT, date: 1, bytes, file: { _: "encryptedFileEmpty" } } } as any).catch(() => {});
    }
    await settle();
    const out: any = { new: [], got: 0, ended: await this.ended() };
    for (const e of w.log.slice(before)) {
      const x = e.wire!;
      let plain: any = null, used = -9;
      const tryAll = async () => { for (const [l, k] of this.keys) if ((plain = await open(p === "A", k, x.data))) { used = l; return; } };
      await tryAll();
      if (!plain) { out.new.push("unreadable"); continue; }
      const mine = p === "A" ? 1 : 0, act = plain.message.action, k = act ? KIND[act._] ?? act._ : "m";
      let ex = 0;
      if (k === "req") { this.bind(this.nx + 1, act.exchange_id); ex = this.nx; this.gOf.set(ex, act.g_a); }
      else if (act && k !== "noop") ex = this.label(act.exchange_id);
      if (k === "acc") {
        const key = bytes256(power(toInt(act.g_b), EXP + BigInt(ex)));
        if (await fingerprint(key) !== act.key_fingerprint) ex = -8;
        this.keys.set(ex, key);
      }
      if (k === "com" && act.key_fingerprint !== await fingerprint(this.keys.get(ex) ?? new Uint8Array(256))) ex = -8;
      if ((plain.out_seq_no - mine) / 2 !== this.sent) ex = -6;
      if (!e.first) ex = -5;
      this.sent++;
      out.new.push([k, ex, used, (plain.in_seq_no - (1 - mine)) / 2]);
    }
    for (const u of peer.updates.splice(0)) { if (u.type !== "secretMessage") continue; if (u.secretMessage.text === `t${this.n}`) out.got++; else out.got = -1; }
    // what was read took a number
    if (a.n === "Say" && !out.ended) { const s: any = await peer.stored(); this.pin = s.inSeqNo; }
    return out;
  }
  async ended() { return !(await this.w.peers[this.p].stored()); }
}
