// Servers for the creation of authorization keys, written from the protocol's description, and the networks between.
import { createDiffieHellmanGroup, createHash } from "node:crypto";
import { ClientPlain } from "/repo/client/1_client_plain.ts";
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";
import { ConnectionError } from "/repo/0_errors.ts";
import { Api } from "/repo/2_tl.ts";
import { AuthKey, cat, i32, i64, ige, open, rand, rdBytes, rdI32, rdI64, rdU32, S, seal, sha1, sha256, text, tlBytes, ungz } from "./mtproto.ts";
import { advance, clearTimers, installVirtualTime, nativeOp, settle, virtualNow } from "./vt.ts";
import { type Rng, rng } from "./graph.ts";
void nativeOp;

const big = (b: Uint8Array) => b.length ? BigInt("0x" + [...b].map((x) => x.toString(16).padStart(2, "0")).join("")) : 0n;
const bytes = (v: bigint, n: number) => { const o = new Uint8Array(n); for (let i = n - 1; i >= 0; i--) { o[i] = Number(v & 255n); v >>= 8n; } return o; };
const modexp = (a: bigint, b: bigint, m: bigint) => { let r = 1n; a %= m; while (b) { if (b & 1n) r = r * a % m; a = a * a % m; b >>= 1n; } return r; };
const b64 = (s: string) => big(Uint8Array.from(atob(s.replace(/-/g, "+").replace(/_/g, "/")), (c) => c.charCodeAt(0)));
const expand = (tag: string) => { const out = new Uint8Array(256); for (let i = 0; i < 8; i++) out.set(createHash("sha256").update(tag + ":" + i).digest(), i * 32); return out; };
const same = (a: Uint8Array, b: Uint8Array) => a.length === b.length && a.every((v, i) => v === b[i]);

// the modulus begins with 0xf1, so that the client's padding fits at once nearly always
const N = b64("8XXLUQacGyIQEwfLZi9CAqX9J9j3ADFV3ZnK4RMPtxVYVDDCIzW1AA-jZJNcynGCCLeIb9Re41e1o7xJT-RqLS17oNs6ojFhm94HJbdPCJQdxwAUXXDuzUrTsPK3t2e6QPNVr1oi1Q4jb4yswlDe3Nn55KLJ-WoFjcCslwadfXVh243nJPQavvsa1k9NXJJk5X7vNmtjA-fiMZqfPGojp_lbZ1UmHokyJiaAYQqS1v6ro7EGvr9jdx-ontZSTIuWkif5sZ1ntMBApQM7leS1Ct0uoBURJSQzcWsDQDoL6EQnHMHk2Qd51S5S0qVD2iInSSNBD5iVS2VOwaOjC_byQw");
const RP = b64("-OCbUpKAhZNupcxknPQhS2qnKxPPLeQNIt2RqSGiiWvBoSVmO6nY24uTvYLcjLbQafc_ayPvEzeGS96E6d1f60hKhgfMx9FdQYeLyLTCIuuWmP6SvxPRTYeeBYORFccVhlPNZoCdnbjKD0ynvPbV85rMSL3CCGYpMDn31gP50eU");
const RQ = b64("-F7YZU7kyZhYTfUIvH7tQ01TY3P26FiEwHYMky9L-Ovk9F3bSUcied3Gw0EKuRMiDeoiBdC2vLC5FXKyi_nzxJytKtgTcmKCC_ifS_qyQ-Ic7NCQ3tYTiF1Rv9ehSyNSqDnk1bfNLQETMJFy7o_WVPUf20lwpFQGNcJv3SlKEQc");
const DP = b64("J5i8vZ93eUkisphZbatd3LzkSfNF5DxDZsev1CP40zpkvTnRES8NxKhpYh5-7phrgmCHI4m9EOalpE6MARVqnGmNCdQV3bjOyI1DTTSNKrcm58KhIGuLwnUQTDpJjBh3sT6GEIfoC98JrvN4QJVZJv_6_pvKUkHGzdh7OP668Y0");
const DQ = b64("msc4YYHVz8-xj_tYk2ch4qQoiDy3LLolGG84jOyXkqsmxiZLRpIe6QUNHZbF4OoMedFjnG4hwtr6rGQK4nJEuEzPGXkIPWsoEd_BHa9AMk-RqP6cmVGdYIiPLldpO5Lqqs1RTuI46YfW9phdoE9gyRbs4FIW8UEvkYb3AUL-1jc");
const QI = b64("UDSKbj6N7hvaLB3oxY5Eps_x49zBaak2hjdN0rOibFfbHY7FlKyVzB05a7lSkkcQ1r6la2yiZPFIHK0RdpAdVcNz0tKvDKC9c1XKe2zFbCMcQfw_zMLhOeR_LDyRwiZVTc03Mv8xRfK3hJXfP-4VTaRxgCo_y-8Q43IY3CnAlxM");
export const FINGERPRINT = -0x1234567890abcdefn;
export const PUBLIC: any = [[5n, [N - 2n, 65537n]], [FINGERPRINT, [N, 65537n]]];
function rsaPrivate(c: bigint): bigint {
  const mp = modexp(c % RP, DP, RP), mq = modexp(c % RQ, DQ, RQ);
  return mq + RQ * ((((mp - mq) * QI) % RP + RP) % RP);
}
const group = createDiffieHellmanGroup("modp14");
const PRIME = new Uint8Array(group.getPrime() as any), P = big(PRIME), G = 2n;
const EXPS = [big(expand("a")), ...[1, 2, 3].map((i) => big(expand("s" + i).subarray(0, 32)))];
const GA: bigint[] = [];
const ga = (i: number) => GA[i] ??= modexp(G, EXPS[i], P);
const ZERO_KEY = [58, 78], ZERO_GB = [305, 538]; // with the first exponent these give a key, or a g_b, that begins with a zero byte
const PRIMES = [4294967291n, 4294967279n, 2147483647n, 2147483659n, 1229739323n, 1402015859n, 65537n, 3n, 3999999979n];

// -- random values that sit at the edges of their encodings
let bias: { r: Rng; special: boolean } | null = null;
const realRandom = crypto.getRandomValues.bind(crypto);
(crypto as any).getRandomValues = (a: any) => {
  const v = realRandom(a);
  if (!bias || !(v instanceof Uint8Array)) return v;
  const r = bias.r;
  if (v.length === 16 || v.length === 32) {
    const k = r.int(8);
    if (k === 0) v[0] = 0;
    else if (k === 1) v[v.length - 1] = 0;
    else if (k === 2) v[v.length - 1] |= 0x80;
    else if (k === 3) { v.fill(0, 0, 4); v[7] = 0x80; }
    else if (k === 4) v.fill(0xff, v.length - 9);
  } else if (v.length === 256) {
    const k = r.int(32);
    if (k < 26 || !bias.special) v.fill(0, 16);
    else if (k === 26 && bias.special) v.set(expand("b" + r.pick(ZERO_KEY)));
    else if (k === 27 && bias.special) v.set(expand("b" + r.pick(ZERO_GB)));
  }
  return v;
};

export function smallRandom(on: boolean) { bias = on ? { r: rng(7), special: false } : null; }
export interface Ses { dc: number; s: number; nonce: Uint8Array; id: number; sn: Uint8Array; p: bigint; q: bigint; pq: Uint8Array; a: number; nn: Uint8Array | null; x: number; key: Uint8Array | null; keySym: number[]; att: number; keys: Map<string, number>; said: any[]; hashes: Uint8Array[]; temp: boolean; salt: bigint; done: boolean }

export type PlanStep = string; // what the next answer of that stage is to be
export interface Plan { pq: PlanStep[]; dh: PlanStep[]; gen: PlanStep[] }
export const PQ = ["ok", "nonce", "unknown", "junk", "error", "lost"], DH = ["ok", "nonce", "snonce", "foreign", "whole", "inonce", "inner", "refused", "junk", "error", "stale", "lost"], GEN = ["ok", "nonce", "snonce", "hash", "number", "foreign", "retry", "refused", "retry?", "refused?", "junk", "error", "stale", "lost"];

// One connection per exchange.  The server answers what it is asked as its plan says; the frames wait until released.
export class KeyWorld {
  ev: any[] = [];
  ses: Ses[] = [];
  nonces: Uint8Array[] = []; // by number
  conns: KeConn[] = [];
  exchanges = 0;
  problems: string[] = [];
  plans: Plan[] = [];
  perm: Ses[] = [];
  auto = true;
  encrypted: { frame(c: KeConn, f: Uint8Array): void } | null = null;
  constructor(public r: Rng) {}
  nonceId(b: Uint8Array): number {
    const i = this.nonces.findIndex((x) => same(x, b));
    if (i >= 0) return i + 1;
    this.nonces.push(b.slice());
    return this.nonces.length;
  }
  knownNonce(b: Uint8Array) { return this.nonces.findIndex((x) => same(x, b)) + 1; }
  sessionOf(b: Uint8Array) { return this.ses.findIndex((x) => same(x.sn, b)) + 1; }
  provider = () => {
    const c = new KeConn(this);
    this.conns.push(c);
    return { connection: c as any, transport: c.transport as any, dcId: 2 };
  };
}

export class KeConn {
  isConnected = false;
  stateChangeHandler?: (c: boolean) => void;
  callback?: unknown;
  x = 0;
  plan: Plan = { pq: [], dh: [], gen: [] };
  queue: { bytes: Uint8Array; m: any }[] = []; // ready to be taken
  held: { bytes: Uint8Array; m: any }[] = []; // in flight
  waiter: PromiseWithResolvers<Uint8Array> | null = null;
  last: { bytes: Uint8Array; m: any } | null = null;
  lost = false;
  cur: Ses | null = null;
  encrypted = false;
  lastRole = "";
  constructor(public w: KeyWorld) {}
  wantDc() { return 2; }
  open(): Promise<void> {
    if (this.isConnected) return Promise.resolve();
    this.isConnected = true;
    this.lost = false;
    this.queue = []; this.held = []; this.last = null; this.cur = null; this.x = 0;
    this.stateChangeHandler?.(true);
    return Promise.resolve();
  }
  #end() { this.isConnected = false; const v = this.waiter; this.waiter = null; v?.reject(new ConnectionError("The connection was closed.")); this.stateChangeHandler?.(false); }
  lose() { this.lost = true; if (this.x) { this.w.ev.push({ n: "Lose", x: this.x }); if (this.w.encrypted) this.w.ev.push({ n: "End", x: this.x }); } this.#end(); }
  close() {
    if (!this.isConnected) throw new ConnectionError("The connection is not open.");
    if (this.x && !this.encrypted) this.w.ev.push({ n: "End", x: this.x });
    this.#end();
  }
  read() { throw new Error("unused"); }
  write() { throw new Error("unused"); }
  #take(): Uint8Array { const m = this.queue.shift()!; if (m.m) this.w.ev.push({ n: "Take", x: this.x, m: m.m }); return m.bytes; }
  put(bytes: Uint8Array, m: any, held: boolean) { (held ? this.held : this.queue).push({ bytes, m }); this.pump(); }
  release() { this.queue.push(...this.held.splice(0, 1)); this.pump(); }
  pump() { if (this.waiter && this.queue.length) { const v = this.waiter; this.waiter = null; v.resolve(this.#take()); } }
  transport = {
    initialize: () => {},
    receive: async (): Promise<Uint8Array> => {
      if (!this.isConnected) throw new ConnectionError("The connection is not open.");
      if (this.queue.length) return this.#take();
      this.waiter = Promise.withResolvers();
      return await this.waiter.promise;
    },
    send: async (b: Uint8Array) => {
      if (!this.isConnected) throw new ConnectionError("The connection is not open.");
      if (rdI64(b, 0) !== 0n) { this.encrypted = true; this.w.encrypted?.frame(this, b.slice()); return; }
      const n = rdI32(b, 16);
      if (n !== b.length - 20) { this.w.problems.push(`length ${n} of a plain message of ${b.length - 20} bytes`); return; }
      serve(this.w, this, b.slice(20));
    },
  };
}

const plain = (body: Uint8Array) => cat(i64(0n), i64((BigInt(Math.floor(virtualNow() / 1000)) << 32n) | 1n), i32(body.length), body);
const flip = (r: Rng, b: Uint8Array) => { const o = b.slice(); o[r.int(o.length)] ^= 1 << r.int(8); return o; };
const tmpKey = (nn: Uint8Array, sn: Uint8Array): [Uint8Array, Uint8Array] => {
  const a = sha1(nn, sn), b = sha1(sn, nn), c = sha1(nn, nn);
  return [cat(a, b.subarray(0, 12)), cat(b.subarray(12, 20), c, nn.subarray(0, 4))];
};

function serve(w: KeyWorld, c: KeConn, q: Uint8Array) {
  const r = w.r, id = rdU32(q, 0);
  const send = (m: any, body: Uint8Array) => {
    const f = { bytes: plain(body), m };
    c.last = f;
    c.put(f.bytes, m, !w.auto);
  };
  const odd = (kind: string): boolean => {
    if (kind === "junk") c.put(plain(cat(i32(r.pick([0x347773c5, 0x12345678, 0x79cb045d])), rand(48))), { t: "junk" }, !w.auto);
    else if (kind === "error") c.put(i32(r.pick([-404, -429, -444])), { t: "junk" }, !w.auto);
    else if (kind === "stale" && c.last) c.put(c.last.bytes, c.last.m, !w.auto);
    else if (kind === "lost") { c.lose(); return true; }
    else return false;
    return true;
  };
  if (id === 0xbe7e8ef1 && q.length === 20) {
    const nonce = q.slice(4, 20);
    if (!c.x) { c.x = ++w.exchanges; c.plan = w.plans.shift() ?? { pq: [], dh: [], gen: [] }; w.ev.push({ n: "Open", x: c.x }); }
    w.ev.push({ n: "ReqPq", x: c.x, nonce: w.nonceId(nonce) });
    let p = r.pick(PRIMES), v = r.pick(PRIMES);
    if (p === v && r.int(4)) v = 2147483647n;
    if (p > v) [p, v] = [v, p];
    let pq = bytes(p * v, 8);
    if (r.int(3) === 0) while (pq[0] === 0) pq = pq.slice(1);
    const s: Ses = { dc: 0, s: w.ses.length + 1, nonce, id: w.knownNonce(nonce), sn: rand(16), p, q: v, pq, a: r.int(3) ? r.int(EXPS.length) : 0, nn: null, x: 0, key: null, keySym: [0, 0, 0], att: 0, keys: new Map(), said: [], hashes: [], temp: false, salt: 0n, done: false };
    if (r.int(4) === 0) s.sn[15] |= 0x80;
    if (r.int(6) === 0) s.sn[0] = 0;
    w.ses.push(s);
    c.cur = s;
    const kind = c.plan.pq.shift() ?? "ok";
    if (odd(kind)) return;
    const n = kind === "nonce" ? (w.nonces.length > 1 && r.int(2) ? r.pick(w.nonces.filter((x) => !same(x, nonce))) : flip(r, nonce)) : nonce;
    const known = kind !== "unknown";
    const prints = [r.pick([1n, 77n]), ...(known ? [FINGERPRINT] : []), ...(r.int(2) ? [99n] : [])].slice(r.int(2) && known ? 1 : 0);
    send({ t: "resPQ", nonce: w.knownNonce(n), s: s.s, known }, cat(i32(0x05162463), n, s.sn, tlBytes(pq), i32(0x1cb5c415), i32(prints.length), ...prints.map(i64)));
  } else if (id === 0xd712e4be) {
    const nonce = q.slice(4, 20), sn = q.slice(20, 36);
    let o = 36, p: Uint8Array, v: Uint8Array, enc: Uint8Array;
    [p, o] = rdBytes(q, o); [v, o] = rdBytes(q, o);
    const fp = rdI64(q, o); o += 8;
    [enc, o] = rdBytes(q, o);
    const si = w.sessionOf(sn), s = w.ses[si - 1];
    const e: any = { n: "ReqDh", x: c.x, nonce: w.knownNonce(nonce), s: si, inonce: 0, is: 0, pq: false, role: "?" };
    w.ev.push(e);
    // the client's protected part
    const m = bytes(rsaPrivate(big(enc)), 256);
    const aes = m.slice(32), h = sha256(aes), tk = m.slice(0, 32).map((b, i) => b ^ h[i]);
    const dec = ige(aes, tk, new Uint8Array(32), false);
    const data = dec.slice(0, 192).reverse();
    if (!same(sha256(tk, data), dec.slice(192)) || fp !== FINGERPRINT || enc.length !== 256 || o !== q.length) { e.role = "undecipherable"; c.put(plain(cat(i32(0x79cb045d), nonce, sn, rand(16))), { t: "fail" }, !w.auto); return; }
    let k = 4, ipq: Uint8Array, ip: Uint8Array, iq: Uint8Array;
    [ipq, k] = rdBytes(data, k); [ip, k] = rdBytes(data, k); [iq, k] = rdBytes(data, k);
    const inonce = data.slice(k, k + 16), isn = data.slice(k + 16, k + 32), nn = data.slice(k + 32, k + 64);
    const dc = rdI32(data, k + 64), ctor = rdU32(data, 0);
    e.inonce = w.knownNonce(inonce); e.is = w.sessionOf(isn);
    e.pq = !!s && same(ipq, s.pq) && big(p) === s.p && big(v) === s.q && same(ip, p) && same(iq, v);
    e.role = dc !== c.wantDc() ? `dc ${dc}` : ctor === 0xa9f55f95 ? "perm" : ctor === 0x56fddf88 && rdI32(data, k + 68) === 86400 ? "temp" : "?";
    const kind = c.plan.dh.shift() ?? "ok";
    if (odd(kind)) return;
    if (!s || !same(inonce, s.nonce) || kind === "refused") { c.put(plain(cat(i32(0x79cb045d), nonce, sn, sha1(nn).subarray(4))), { t: "fail", nonce: e.nonce, s: si }, !w.auto); return; }
    s.nn = nn; s.x = c.x; s.temp = e.role === "temp"; s.dc = dc; c.lastRole = e.role;
    const other = w.ses.find((y) => y !== s && y.nn);
    const from = kind === "foreign" && other ? other : s;
    const whole = kind !== "whole" && !(kind === "foreign" && !other);
    const bn = kind === "inonce" ? flip(r, nonce) : from.nonce, bs = kind === "inner" ? flip(r, sn) : from.sn;
    const inner = cat(i32(0xb5890dba), bn, bs, i32(2), tlBytes(PRIME), tlBytes(bytes(ga(from.a), 256)), i32(Math.floor(virtualNow() / 1000)));
    let answer = cat(sha1(inner), inner);
    answer = cat(answer, rand((16 - answer.length % 16) % 16));
    const [ak, iv] = tmpKey(from.nn!, from.sn);
    if (!whole) {
      if (r.int(2)) answer[r.int(20)] ^= 1 + r.int(255); // the hash
      else answer[20 + 4 + 32 + 12 + 256 + 8 + r.int(200)] ^= 1 + r.int(255); // g_a
    }
    const encd = ige(answer, ak, iv, true);
    const pn = kind === "nonce" ? flip(r, nonce) : nonce, ps = kind === "snonce" ? (w.ses.length > 1 && r.int(2) ? r.pick(w.ses.filter((y) => y !== s)).sn : flip(r, sn)) : sn;
    send({ t: "ok", nonce: w.knownNonce(pn), s: w.sessionOf(ps), b: { nn: from.x, s: from.s, whole, inonce: w.knownNonce(bn), is: w.sessionOf(bs) } }, cat(i32(0xd0e8075c), pn, ps, tlBytes(encd)));
  } else if (id === 0xf5045f1f) {
    const nonce = q.slice(4, 20), sn = q.slice(20, 36), [enc, o] = rdBytes(q, 36);
    const si = w.sessionOf(sn), s = w.ses[si - 1];
    const e: any = { n: "Set", x: c.x, nonce: w.knownNonce(nonce), s: si, inonce: 0, is: 0, whole: false, rid: -1 };
    w.ev.push(e);
    const refuse = () => c.put(plain(cat(i32(0xa69dae02), nonce, sn, rand(16))), { t: "fail", nonce: e.nonce, s: si, h: { nn: 0, key: [0, 0, 0], n: 3 } }, !w.auto);
    if (!s?.nn || o !== q.length || enc.length % 16) { refuse(); return; }
    const [ak, iv] = tmpKey(s.nn, s.sn);
    const dec = ige(enc, ak, iv, false), h = dec.slice(0, 20), d = dec.slice(20);
    const rid = rdI64(d, 36);
    const [gb, end] = rdBytes(d, 44);
    e.whole = rdU32(d, 0) === 0x6643b654 && same(sha1(d.slice(0, end)), h) && d.length - end < 16 && gb.length <= 256;
    e.inonce = w.knownNonce(d.slice(4, 20)); e.is = w.sessionOf(d.slice(20, 36));
    e.rid = rid === 0n ? 0 : s.keys.get(String(rid)) ?? -1;
    if (!e.whole) { refuse(); return; }
    s.att++;
    s.key = bytes(modexp(big(gb), EXPS[s.a], P), 256);
    s.keySym = [s.s, c.x, s.att];
    const aux = sha1(s.key).subarray(0, 8);
    s.keys.set(String(rdI64(aux, 0)), s.att);
    s.salt = rdI64(s.nn.subarray(0, 8).map((b, i) => b ^ s.sn[i]), 0);
    const hash = (n: number) => sha1(s.nn!, new Uint8Array([n]), aux).subarray(4);
    const kind = c.plan.gen.shift() ?? "ok";
    if (odd(kind)) return;
    const other = w.ses.find((y) => y !== s && y.hashes.length);
    const t = kind.startsWith("retry") ? "retry" : kind.startsWith("refused") ? "fail" : "ok";
    const n = { ok: 1, retry: 2, fail: 3 }[t];
    let hs = hash(n), sym: any = { nn: s.x, key: s.keySym, n };
    if (kind === "hash" || kind.endsWith("?") || (kind === "foreign" && !other)) { hs = flip(r, hs); sym = { nn: 0, key: [0, 0, 0], n }; }
    else if (kind === "foreign") { hs = other!.hashes.at(-1)!; sym = other!.said.at(-1); }
    else if (kind === "number") { const k = r.pick([2, 3]); hs = hash(k); sym = { ...sym, n: k }; }
    else { s.hashes.push(hs); s.said.push(sym); }
    const pn = kind === "nonce" ? flip(r, nonce) : nonce, ps = kind === "snonce" ? flip(r, sn) : sn;
    send({ t, nonce: w.knownNonce(pn), s: w.sessionOf(ps), h: sym }, cat(i32({ ok: 0x3bcbf734, retry: 0x46dc1fb9, fail: 0xa69dae02 }[t]), pn, ps, hs));
  } else w.ev.push({ n: `unknown request ${id.toString(16)}`, x: c.x });
}

// One exchange through ClientPlain.createAuthKey, or several at once
export async function runExchanges(plans: Plan[], temps: boolean[], r: Rng, o: { together: boolean }) {
  installVirtualTime(1_700_000_000_000 + r.int(1_000_000) * 1000);
  clearTimers();
  bias = { r, special: true };
  const w = new KeyWorld(r);
  w.auto = !o.together;
  w.plans = plans.map((p) => structuredClone(p));
  const runs: Promise<void>[] = [];
  let left = 0;
  const one = async (temp: boolean) => {
    const c = new ClientPlain("2" as any, { transportProvider: w.provider as any, publicKeys: PUBLIC });
    await c.connect();
    const conn = w.conns.at(-1)!;
    left++;
    let key: Uint8Array, salt: bigint;
    try { [key, salt] = await c.createAuthKey(temp); } catch (err) { w.ev.push({ n: "Failed", x: conn.x, why: String(err).split("\n")[0].slice(0, 80) }); left--; return; }
    const s = conn.cur!;
    const owner = s?.key && same(s.key, key) ? s : w.ses.find((y) => y.key && same(y.key, key));
    w.ev.push({ n: "Done", x: conn.x, key: owner?.keySym ?? [0, 0, 0], salt: owner?.salt === salt, role: temp ? "temp" : "perm" });
    left--;
    conn.x = 0;
    c.disconnect();
  };
  const roles: string[] = [];
  for (const t of temps) {
    const p = one(t);
    roles.push(t ? "temp" : "perm");
    if (!o.together) { runs.push(p); await drive(w, () => left > 0, p); } else { runs.push(p); await settle(1); }
  }
  if (o.together) await drive(w, () => left > 0, Promise.all(runs));
  bias = null;
  for (const e of w.ev) if (e.n === "Open") e.role = roles[e.x - 1] ?? "?";
  for (const e of w.problems) w.ev.push({ n: e });
  const stuck = left > 0;
  w.ev.push({ n: "Quiet", stuck });
  return { events: w.ev.filter((e) => e.n !== "End"), meta: { plans, temps, together: o.together } };
}
async function drive(w: KeyWorld, busy: () => boolean, p: Promise<unknown>) {
  let over = false;
  p.then(() => over = true, () => over = true);
  for (let i = 0; i < 300 && !over; i++) {
    await settle(1);
    await advance(0);
    const held = w.conns.filter((c) => c.held.length);
    if (held.length) w.r.pick(held).release();
    else if (!busy()) break;
    else if (!over && i > 5 && !w.conns.some((c) => c.queue.length)) { await settle(2); if (!w.conns.some((c) => c.held.length) && !over && i > 60) break; }
  }
  await settle(2);
}

// --- whole connections: what a ClientEncrypted does with the keys
export class EncServer {
  keys: AuthKey[] = [];
  bound = new Map<bigint, bigint>();
  refuseBind: string[] = [];
  constructor(public w: KeyWorld) {}
  find(id: bigint): Ses | undefined { return this.w.ses.findLast((s) => s.key && new AuthKey(s.key).id === id); }
  frame(c: KeConn, f: Uint8Array) {
    const w = this.w, id = rdI64(f, 0), s = this.find(id);
    if (!s) { w.ev.push({ n: "Use", key: [0, 0, 0], salt: false, call: "unknown key" }); return; }
    const k = new AuthKey(s.key!);
    let o;
    try { o = open([k], f); } catch (err) { w.ev.push({ n: "Use", key: s.keySym, salt: false, call: String(err) }); return; }
    for (const m of o.messages) {
      const body = ungz(m.body), ctor = rdU32(body, 0);
      if (ctor === 0x62d6b459) continue; // acknowledgements
      const e: any = { n: "Use", key: s.keySym, salt: o.salt === s.salt, call: "call" };
      let reply: Uint8Array | null = null;
      if (ctor === 0xf3427b8c) { e.call = "ping"; reply = S.pong(m.id, rdI64(body, 4)); }
      else if (ctor === 0xcdd42a05) { // auth.bindTempAuthKey perm_auth_key_id:long nonce:long expires_at:int encrypted_message:bytes
        e.call = "bind";
        const pid = rdI64(body, 4), nonce = rdI64(body, 12), exp = rdI32(body, 20), [em] = rdBytes(body, 24);
        const ps = this.find(pid);
        e.perm = ps?.keySym ?? [0, 0, 0];
        e.right = !!ps && ps !== s && s.temp && !ps.temp && this.#right(ps.key!, em, nonce, exp, pid, id, o.session, m.id);
        const bad = this.refuseBind.shift();
        e.ok = !bad;
        reply = S.rpcResult(m.id, bad ? S.rpcError(400, bad) : i32(0x997275b5 | 0));
        if (!bad && e.right) this.bound.set(id, pid);
      } else {
        const x = /call:(\d+)/.exec(text(body));
        e.init = rdU32(body, 0) === 0xc1cd5ea9;
        reply = S.rpcResult(m.id, Api.serializeObject({ _: "help.deepLinkInfo", message: `answer:${x?.[1]}` } as any));
      }
      w.ev.push(e);
      if (reply) c.put(seal(k, s.salt, o.session, (BigInt(Math.floor(virtualNow() / 1000)) << 32n) | BigInt(1 + 4 * ++this.n), this.n * 2 + 1, reply), null, false);
    }
  }
  n = 0;
  // the message inside, encrypted with the permanent key in the older way
  #right(key: Uint8Array, em: Uint8Array, nonce: bigint, exp: number, pid: bigint, tid: bigint, session: bigint, msgId: bigint): boolean {
    if (rdI64(em, 0) !== pid) return false;
    const mk = em.slice(8, 24);
    const a = sha1(mk, key.subarray(0, 32)), b = sha1(key.subarray(32, 48), mk, key.subarray(48, 64)), c = sha1(key.subarray(64, 96), mk), d = sha1(mk, key.subarray(96, 128));
    const p = ige(em.slice(24), cat(a.subarray(0, 8), b.subarray(8, 20), c.subarray(4, 16)), cat(a.subarray(8, 20), b.subarray(0, 8), c.subarray(16, 20), d.subarray(0, 8)), false);
    const len = rdI32(p, 28), data = p.slice(32, 32 + len);
    return same(sha1(p.slice(0, 32 + len)).subarray(4, 20), mk) && len === 40 && p.length - 32 - len < 16 && rdI64(p, 16) === msgId && rdI32(p, 24) === 0 &&
      rdU32(data, 0) === 0x75a3f765 && rdI64(data, 4) === nonce && rdI64(data, 12) === tid && rdI64(data, 20) === pid && rdI64(data, 28) === session && rdI32(data, 36) === exp;
  }
}

export async function runClient(plans: Plan[], r: Rng, o: { pfs: boolean; calls: number; reconnect: number; bind: string[] }) {
  installVirtualTime(1_700_000_000_000 + r.int(1_000_000) * 1000);
  clearTimers();
  bias = { r, special: false };
  const w = new KeyWorld(r);
  w.plans = plans.map((p) => structuredClone(p));
  const enc = new EncServer(w);
  enc.refuseBind = [...o.bind];
  w.encrypted = enc;
  w.auto = !o.pfs;
  const c = new ClientEncrypted("2" as any, 1, { transportProvider: w.provider as any, publicKeys: PUBLIC, isPerfectForwardSecrecyEnabled: o.pfs });
  let stuck = false;
  for (let k = 0; k <= o.reconnect && !stuck; k++) {
    let st = "", why = "";
    w.ev.push({ n: "Connect" });
    const p = c.connect();
    p.then(() => st = "up", (e) => { st = "down"; why = String(e).slice(0, 80); });
    for (let i = 0; i < 600 && !st; i++) {
      await settle(1);
      await advance(0);
      const held = w.conns.filter((x) => x.held.length);
      if (held.length) r.pick(held).release();
      else if (i > 400) await advance(1000);
    }
    if (!st) { stuck = true; break; }
    const owner = (key: Uint8Array) => key.length ? w.ses.findLast((y) => y.key && same(y.key, key))?.keySym ?? [0, 0, 0] : [-1, 0, 0];
    if (st === "up") w.ev.push({ n: "Up", key: owner((c.session as any).authKey), perm: owner(c.authKey), role: o.pfs ? "temp" : "perm" });
    else { w.ev.push({ n: "Down", why }); break; }
    for (let i = 0; i < o.calls; i++) {
      let got = "";
      c.invoke({ _: "help.getDeepLinkInfo", path: `call:${k * 10 + i}` } as any).then((v: any) => got = v.message, (e) => got = String(e));
      for (let j = 0; j < 20 && !got; j++) { await settle(1); await advance(0); }
      w.ev.push({ n: "Answer", ok: got === `answer:${k * 10 + i}` });
    }
    if (k < o.reconnect) { c.disconnect(); await settle(1); await advance(0); w.ev.push({ n: "Disconnect" }); }
  }
  try { c.disconnect(); } catch { /* already */ }
  await settle(1);
  clearTimers();
  bias = null;
  for (const e of w.problems) w.ev.push({ n: e });
  w.ev.push({ n: "Quiet", stuck });
  return { events: w.ev, meta: { plans, ...o } };
}
