// Telegram, as far as a whole Client notices: data centers with their own keys, salts, authorizations, and calls that wait for the script.
import { Api } from "/repo/2_tl.ts";
import { TLReader } from "/repo/tl/1_tl_reader.ts";
import { AuthKey, i32, i64, type Msg, open, rand, rdI32, rdI64, rdU32, S, seal, ungz } from "./mtproto.ts";
import { KeConn, KeyWorld, PUBLIC, smallRandom } from "./ke_world.ts";
import { advance, settle, virtualNow, wallNow } from "./vt.ts";
import type { Rng } from "./graph.ts";
import { ConnectionError } from "/repo/0_errors.ts";

const schema: any = (() => {
  const s: any = Api.schema, definitions: any = {}, identifierToName: any = { ...s.identifierToName };
  for (const [name, d] of Object.entries<any>(s.definitions)) {
    definitions[name] = [d[0], d[1].map(([n, t]: any) => [n, t === "!X" ? "X" : t]), d[2]];
    identifierToName[d[0]] ??= name;
  }
  return { definitions, identifierToName };
})();
export function decodeCall(body: Uint8Array): any { return new TLReader(body as any).readType("X", schema); }

export interface Key { key: AuthKey; dc: number; salt: bigint; user: number; temp: boolean; inited: boolean }
export interface Call { conn: DcConn; id: bigint; key: Key; session: bigint; q: any; wrap: string[]; init: any; done: boolean; at: number; no: number }

export class DcConn extends KeConn {
  closed = 0;
  session = 0n;
  opened = 0;
  failOpen = false;
  holdOpen = false;
  opening: PromiseWithResolvers<void> | null = null;
  constructor(public net: Net, public dc: string, public media: boolean, public no: number) { super(net.kw); }
  override async open() {
    if (this.isConnected) return;
    if (this.failOpen || this.net.down || this.net.hook.refuseOpen?.(this)) throw new ConnectionError("Failed to connect.");
    if (this.holdOpen || this.net.hook.holdOpen?.(this)) { this.opening = Promise.withResolvers(); await this.opening.promise; }
    this.opened++;
    await super.open();
    this.net.hook.opened?.(this);
  }
  override wantDc() { const n = parseInt(this.dc) + (this.dc.endsWith("-test") ? 10000 : 0); return this.media ? -n : n; }
  override close() { if (this.isConnected) { this.closed++; if (this.used) this.net.hook.closed?.(this); this.used = false; } super.close(); }
  override lose() { this.used = false; super.lose(); }
  used = false; // an encrypted frame has come
}

export class Net {
  kw: KeyWorld;
  conns: DcConn[] = [];
  keys = new Map<bigint, Key>();
  calls: Call[] = []; // unanswered
  all: Call[] = [];
  problems: string[] = [];
  down = false;
  checkSalt = true;
  badSalts = 0;
  seq = 0;
  hook: { opened?(c: DcConn): void; closed?(c: DcConn): void; refuseOpen?(c: DcConn): boolean; holdOpen?(c: DcConn): boolean; frame?(c: DcConn, k: Key): void; badSalt?(c: DcConn, k: Key): void } = {};
  auto: ((c: Call) => boolean) | null = null; // answers at once what the script does not care about
  constructor(public r: Rng) {
    this.kw = new KeyWorld(r);
    this.kw.encrypted = { frame: (c: KeConn, f: Uint8Array) => this.#frame(c as DcConn, f) } as any;
    smallRandom(true);
  }
  provider = ({ dc, isMedia }: any) => {
    const c = new DcConn(this, dc, isMedia, this.conns.length + 1);
    this.conns.push(c);
    return { connection: c as any, transport: c.transport as any, dcId: 0 };
  };
  params(): any { return { apiId: 1, apiHash: "h", transportProvider: this.provider, publicKeys: PUBLIC }; }
  addKey(dc: string, user = 0): Key {
    const key: Key = { key: new AuthKey(rand(256)), dc: parseInt(dc) + (dc.endsWith("-test") ? 10000 : 0), salt: rdI64(rand(8), 0), user, temp: false, inited: false };
    this.keys.set(key.key.id, key);
    return key;
  }
  forgotten = new Set<bigint>(); // keys the server once had
  adopt(id: bigint) { return this.#key(id); }
  #key(id: bigint): Key | undefined {
    const k = this.keys.get(id);
    if (k) return k;
    for (const s of this.kw.ses) {
      if (!s.key) continue;
      const a = new AuthKey(s.key);
      if (a.id === id) {
        const n: Key = { key: a, dc: Math.abs(s.dc), salt: s.salt, user: 0, temp: s.temp, inited: false };
        this.keys.set(id, n);
        return n;
      }
    }
  }
  dcNumber(c: DcConn) { return parseInt(c.dc) + (c.dc.endsWith("-test") ? 10000 : 0); }
  #frame(c: DcConn, f: Uint8Array) {
    const k = this.#key(rdI64(f, 0));
    if (!k || k.dc !== this.dcNumber(c)) {
      if (!this.forgotten.has(rdI64(f, 0))) this.problems.push(`a frame under ${k ? `DC${k.dc}'s key` : "an unknown key"} on a connection to DC${c.dc}`);
      c.put(i32(-404), null, false);
      return;
    }
    let o;
    try { o = open([k.key], f); } catch (err) { this.problems.push(String(err)); return; }
    c.session = o.session;
    this.hook.frame?.(c, k);
    c.used = true;
    for (const m of o.messages) this.#message(c, k, o.session, o.salt, m);
  }
  #message(c: DcConn, k: Key, session: bigint, salt: bigint, m: Msg) {
    const body = ungz(m.body), ctor = rdU32(body, 0);
    if (ctor === 0x62d6b459) return;
    if (this.checkSalt && salt !== k.salt) { this.badSalts++; this.hook.badSalt?.(c, k); this.#send(c, k, session, S.badSalt(m.id, m.seqno, k.salt)); return; }
    if (ctor === 0xf3427b8c) { this.#send(c, k, session, S.pong(m.id, rdI64(body, 4)), m.id); return; }
    let q: any;
    try { q = decodeCall(body); } catch (err) { this.problems.push(`a call that does not parse: ${err}`); return; }
    const wrap: string[] = [];
    let init: any = null;
    while (q && ["initConnection", "invokeWithLayer", "invokeWithoutUpdates"].includes(q._)) {
      if (q._ === "initConnection") init = q;
      wrap.push(q._);
      q = q.query;
    }
    if (!k.inited && !init && q._ !== "auth.bindTempAuthKey") { this.problems.push(`a call on a key without initConnection: ${q._}`); this.#send(c, k, session, S.rpcResult(m.id, S.rpcError(400, "CONNECTION_NOT_INITED"))); return; }
    if (q._ !== "auth.bindTempAuthKey") k.inited = true;
    const call: Call = { conn: c, id: m.id, key: k, session, q, wrap, init, done: false, at: wallNow(), no: this.all.length + 1 };
    this.all.push(call);
    if (this.auto?.(call)) return;
    this.calls.push(call);
  }
  #n = 0n;
  #send(c: DcConn, k: Key, session: bigint, body: Uint8Array, _about?: bigint) {
    if (!c.isConnected) return;
    const id = (BigInt(Math.floor(virtualNow() / 1000)) << 32n) + (++this.#n * 4n) + 1n;
    c.put(seal(k.key, k.salt, session, id, this.seq++ * 2 + 1, body), null, false);
  }
  #settle(c: Call) { c.done = true; const i = this.calls.indexOf(c); if (i >= 0) this.calls.splice(i, 1); }
  answer(c: Call, v: any) { this.#settle(c); this.#send(c.conn, c.key, c.session, S.rpcResult(c.id, typeof v === "boolean" ? i32(v ? 0x997275b5 : 0xbc799737) : v instanceof Uint8Array ? v : Array.isArray(v) ? vector(v) : Api.serializeObject(v))); }
  error(c: Call, code: number, text: string) { this.#settle(c); this.#send(c.conn, c.key, c.session, S.rpcResult(c.id, S.rpcError(code, text))); }
  push(c: DcConn, k: Key, v: any) { this.#send(c, k, c.session, v instanceof Uint8Array ? v : Api.serializeObject(v)); }
}
function vector(v: any[]) { const parts = v.map((x) => Api.serializeObject(x)); const n = parts.reduce((a, b) => a + b.length, 8); const o = new Uint8Array(n); o.set(i32(0x1cb5c415)); o.set(i32(v.length), 4); let p = 8; for (const x of parts) { o.set(x, p); p += x.length; } return o; }
void i64; void rdI32;

const LONG = (d: number) => d > 40_000 || d === 5_000; // pings, idle and storage loops
export async function quiet() { await settle(); await advance(0, { except: LONG }); }
export async function tick(ms: number) { await advance(ms, { except: LONG }); }
