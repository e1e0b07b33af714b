// A real ClientEncrypted/SessionEncrypted against a scripted server, at the level of decrypted MTProto messages.
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";
import { Api } from "/repo/2_tl.ts";
import { ConnectionError } from "/repo/0_errors.ts";
import { AuthKey, cat, gz, i32, i64, type Msg, open, rand, rdI32, rdI64, rdU32, rdBytes, S, seal, type Sealed, text, ungz } from "./mtproto.ts";
import { advance, installVirtualTime, settle, virtualNow, wallNow } from "./vt.ts";
import type { Rng } from "./graph.ts";

const NOT_PING = (delay: number) => delay > 40_000; // long timers (ping loop) only fire when asked to

export class FakeConn {
  isConnected = false;
  stateChangeHandler?: (c: boolean) => void;
  callback?: unknown;
  inbox: Uint8Array[] = [];
  waiter: PromiseWithResolvers<Uint8Array> | null = null;
  opening: PromiseWithResolvers<void> | null = null; // an open() awaiting the script's decision
  holdOpen = false;
  failOpen = false;
  hold = false; // transmissions stay in flight
  inflight: PromiseWithResolvers<void>[] = [];
  rejectInflightOnClose = true;
  frames: Uint8Array[] = [];
  times: number[] = []; // the wall clock when each was transmitted
  opens = 0;
  sentWhileClosed = 0;
  async open() {
    if (this.isConnected) return;
    if (this.failOpen) throw new ConnectionError("Failed to connect.");
    if (this.holdOpen) { this.opening = Promise.withResolvers(); await this.opening.promise; }
    this.opens++;
    this.inbox = [];
    this.isConnected = true;
    this.stateChangeHandler?.(true);
  }
  lose(notify = true) {
    this.isConnected = false;
    const w = this.waiter;
    this.waiter = null;
    w?.reject(new ConnectionError("The connection was closed."));
    if (this.rejectInflightOnClose) { this.hold = false; for (const f of this.inflight.splice(0)) f.reject(new ConnectionError("The connection was closed.")); }
    if (notify) this.stateChangeHandler?.(false);
  }
  close() {
    if (!this.isConnected) throw new ConnectionError("The connection is not open.");
    this.lose();
  }
  read() { throw new Error("unused"); }
  write() { throw new Error("unused"); }
  deliver(f: Uint8Array) {
    if (this.waiter) { const w = this.waiter; this.waiter = null; w.resolve(f); }
    else this.inbox.push(f);
  }
  transport = {
    initialize: () => {},
    receive: async (): Promise<Uint8Array> => {
      if (!this.isConnected) throw new ConnectionError("The connection is not open.");
      if (this.inbox.length) return this.inbox.shift()!;
      this.waiter = Promise.withResolvers();
      return await this.waiter.promise;
    },
    send: async (b: Uint8Array) => {
      if (!this.isConnected) { this.sentWhileClosed++; throw new ConnectionError("The connection is not open."); }
      this.frames.push(b.slice());
      this.times.push(wallNow());
      if (this.hold) {
        const p = Promise.withResolvers<void>();
        this.inflight.push(p);
        await p.promise;
      }
    },
  };
}

export const CALL = /call:(\d+):(\d+);/;
export interface Wire { session: bigint; salt: bigint; container: bigint | null; msgs: (Msg & { kind: "call" | "ping" | "ack" | "?"; call?: number; nonce?: number; ping?: bigint; acks?: bigint[] })[]; at: number }

export class SessionWorld {
  conn = new FakeConn();
  key = new AuthKey(rand(256));
  client: ClientEncrypted;
  wires: Wire[] = []; // frames not yet taken
  all: Wire[] = [];
  salts: bigint[] = [];
  updates: number[] = [];
  settled: [number, string][] = [];
  states: boolean[] = [];
  errors: string[] = [];
  serverClock = 0; // server time minus the real local time, seconds
  #lastServerId = 0n;
  nonce = 0;
  constructor(public r: Rng, o: { params?: any } = {}) {
    installVirtualTime(1_700_000_000_000 + r.int(1_000_000) * 1000);
    this.client = new ClientEncrypted("2" as any, 1, { transportProvider: () => ({ connection: this.conn as any, transport: this.conn.transport as any, dcId: 2 }), ...o.params });
    this.client.handlers.onNewServerSalt = (s: bigint) => { this.salts.push(s); };
    this.client.handlers.onUpdate = (u: any) => { this.updates.push(u.date ?? -1); };
    this.client.onConnectionStateChange = (c: boolean) => { this.states.push(c); };
  }
  async start() { await this.client.setAuthKey(this.key.key as any); await this.client.connect(); await this.quiet(); }
  async quiet() { await settle(); await advance(0, { except: NOT_PING }); }
  async tick(ms: number) { await advance(ms, { except: NOT_PING }); }
  async firePing() { await advance(0, { fire: NOT_PING }); await this.quiet(); }

  call(slot: number, pad = ""): void {
    const nonce = ++this.nonce;
    let p: Promise<any>;
    try { p = this.client.invoke({ _: "help.getDeepLinkInfo", path: `call:${slot}:${nonce};${pad}` } as any) as any; } catch (err) { p = Promise.reject(err); }
    p.then((v: any) => this.settled.push([slot, v?._ === "help.deepLinkInfo" ? (v.message === `answer:${slot}:${nonce}` || v.message.startsWith(`answer:${slot}:${nonce};`) ? "ok" : `foreign answer ${v.message}`) : `unexpected ${JSON.stringify(v)}`]), (e: any) => this.settled.push([slot, e?.errorMessage === "TEST_ERROR" || e?.message?.includes?.("TEST_ERROR") ? "rpc" : e?.constructor?.name === "TypeError" ? `TypeError ${e.message}` : "fail"]));
    this.lastNonce.set(slot, nonce);
  }
  lastNonce = new Map<number, number>();

  // decode everything transmitted since the last call
  take(): Wire[] {
    for (const f of this.conn.frames.splice(0)) {
      const at = this.conn.times.shift()!;
      let s: Sealed;
      try { s = open([this.key], f); } catch (err) { this.errors.push(String(err)); continue; }
      const w: Wire = { session: s.session, salt: s.salt, container: s.container, at, msgs: s.messages.map((m) => this.#classify(m)) };
      (w as any).outerSeq = s.outer.seqno;
      this.wires.push(w);
      this.all.push(w);
    }
    return this.wires.splice(0);
  }
  #classify(m: Msg): Wire["msgs"][number] {
    const c = rdU32(m.body, 0);
    if (c === 0x62d6b459) { const n = rdI32(m.body, 8); return { ...m, kind: "ack", acks: Array.from({ length: n }, (_, i) => rdI64(m.body, 12 + 8 * i)) }; }
    if (c === 0xf3427b8c) return { ...m, kind: "ping", ping: rdI64(m.body, 4) };
    const x = CALL.exec(text(ungz(m.body)));
    if (x) return { ...m, kind: "call", call: Number(x[1]), nonce: Number(x[2]) };
    return { ...m, kind: "?" };
  }

  // server messages
  serverId(rem: 1 | 3 = 1): bigint {
    const sec = Math.floor(virtualNow() / 1000) + this.serverClock;
    let id = (BigInt(sec) << 32n) | BigInt(rem);
    if (id <= this.#lastServerId) id = ((this.#lastServerId >> 2n) + 1n << 2n) | BigInt(rem);
    return this.#lastServerId = id;
  }
  seq = 0;
  frame(ms: Msg[], o: { session?: bigint; key?: AuthKey; badMsgKey?: boolean; forceContainer?: boolean } = {}): Uint8Array {
    const session = o.session ?? this.session();
    const key = o.key ?? this.key;
    const f = ms.length === 1 && !o.forceContainer ? seal(key, 0n, session, ms[0].id, ms[0].seqno, ms[0].body, o) : seal(key, 0n, session, this.serverId(), this.seq * 2, S.container(ms), o);
    return this.r.int(4) ? f : cat(f, rand(1 + this.r.int(15))); // a padded transport leaves its padding
  }
  session(): bigint { return (this.client.session as any).id; }
  msg(body: Uint8Array, rem: 1 | 3 = 1): Msg { return { id: this.serverId(rem), seqno: this.seq++ * 2 + 1, body: this.r.int(4) === 0 ? gz(body) : body }; }
  answer(id: bigint, slot: number, nonce: number): Uint8Array {
    const pad = this.r.int(3) === 0 ? ";" + "x".repeat(2000) : "";
    const b = Api.serializeObject({ _: "help.deepLinkInfo", message: `answer:${slot}:${nonce}${pad}` } as any);
    return S.rpcResult(id, this.r.int(3) === 0 ? gz(b) : b);
  }
  error(id: bigint, text = "TEST_ERROR"): Uint8Array {
    const b = S.rpcError(400, text);
    return S.rpcResult(id, this.r.int(3) === 0 ? gz(b) : b);
  }
  update(n: number): Uint8Array { return Api.serializeObject({ _: "updateShort", update: { _: "updateContactsReset" }, date: n } as any); }
  async deliver(f: Uint8Array) { this.conn.deliver(f); await this.quiet(); }
  dispose() { try { this.client.disconnect(); } catch { /* already */ } for (const f of this.conn.inflight.splice(0)) f.reject(new ConnectionError("end")); }
}
void cat; void i32; void i64; void rdBytes;
