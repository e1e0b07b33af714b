// The server's side of MTProto: encryption, framing and parsing, written independently of the code under test.
import { createCipheriv, createDecipheriv, createHash, randomBytes } from "node:crypto";
import { Buffer } from "node:buffer";
import { gunzipSync, gzipSync } from "node:zlib";

export const sha1 = (...b: Uint8Array[]) => { const h = createHash("sha1"); for (const x of b) h.update(x); return new Uint8Array(h.digest()); };
export const sha256 = (...b: Uint8Array[]) => { const h = createHash("sha256"); for (const x of b) h.update(x); return new Uint8Array(h.digest()); };
export const rand = (n: number) => new Uint8Array(randomBytes(n));
export const cat = (...b: Uint8Array[]) => new Uint8Array(Buffer.concat(b));
export const i64 = (v: bigint) => { const b = new Uint8Array(8); new DataView(b.buffer).setBigUint64(0, BigInt.asUintN(64, v), true); return b; };
export const i32 = (v: number) => { const b = new Uint8Array(4); new DataView(b.buffer).setInt32(0, v | 0, true); return b; };
export const rdI64 = (b: Uint8Array, o: number) => new DataView(b.buffer, b.byteOffset).getBigInt64(o, true);
export const rdI32 = (b: Uint8Array, o: number) => new DataView(b.buffer, b.byteOffset).getInt32(o, true);
export const rdU32 = (b: Uint8Array, o: number) => new DataView(b.buffer, b.byteOffset).getUint32(o, true);

export function ige(data: Uint8Array, key: Uint8Array, iv: Uint8Array, encrypt: boolean) {
  const c = encrypt ? createCipheriv("aes-256-ecb", key, null) : createDecipheriv("aes-256-ecb", key, null);
  c.setAutoPadding(false);
  const out = new Uint8Array(data.length);
  let x = iv.subarray(0, 16), y = iv.subarray(16, 32);
  if (!encrypt) [x, y] = [y, x];
  for (let i = 0; i < data.length; i += 16) {
    const blk = data.subarray(i, i + 16);
    const t = new Uint8Array(16);
    for (let k = 0; k < 16; k++) t[k] = blk[k] ^ x[k];
    const r = new Uint8Array(c.update(t));
    for (let k = 0; k < 16; k++) r[k] ^= y[k];
    out.set(r, i);
    x = r;
    y = blk;
  }
  return out;
}

export class AuthKey {
  id: bigint;
  constructor(public key: Uint8Array) { this.id = rdI64(sha1(key), 12); }
}

function aes(key: Uint8Array, msgKey: Uint8Array, x: number): [Uint8Array, Uint8Array] {
  const a = sha256(msgKey, key.subarray(x, x + 36));
  const b = sha256(key.subarray(40 + x, 76 + x), msgKey);
  return [cat(a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)), cat(b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32))];
}

// server -> client
export function seal(k: AuthKey, salt: bigint, session: bigint, msgId: bigint, seqno: number, body: Uint8Array, o: { badMsgKey?: boolean } = {}): Uint8Array {
  let plain = cat(i64(salt), i64(session), i64(msgId), i32(seqno), i32(body.length), body);
  plain = cat(plain, rand(12 + ((16 - ((plain.length + 12) % 16)) % 16)));
  let mk = sha256(k.key.subarray(96, 128), plain).subarray(8, 24);
  if (o.badMsgKey) { mk = mk.slice(); mk[Math.floor(Math.random() * 16)] ^= 1 + Math.floor(Math.random() * 255); }
  const [ak, iv] = aes(k.key, mk, 8);
  return cat(i64(k.id), mk, ige(plain, ak, iv, true));
}

export interface Msg { id: bigint; seqno: number; body: Uint8Array }
export interface Sealed { keyId: bigint; salt: bigint; session: bigint; outer: Msg; container: bigint | null; messages: Msg[]; padding: number }
// client -> server
export function open(keys: AuthKey[], frame: Uint8Array): Sealed {
  const keyId = rdI64(frame, 0);
  const k = keys.find((x) => x.id === keyId);
  if (!k) throw new Error(`frame under unknown key ${keyId}`);
  const mk = frame.subarray(8, 24);
  const [ak, iv] = aes(k.key, mk, 0);
  const plain = ige(frame.subarray(24), ak, iv, false);
  const want = sha256(k.key.subarray(88, 120), plain).subarray(8, 24);
  if (!want.every((v, i) => v === mk[i])) throw new Error("message key mismatch");
  const len = rdI32(plain, 28);
  const outer = { id: rdI64(plain, 16), seqno: rdI32(plain, 24), body: plain.slice(32, 32 + len) };
  const padding = plain.length - 32 - len;
  if (padding < 12 || padding > 1024) throw new Error(`bad padding ${padding}`);
  const r: Sealed = { keyId, salt: rdI64(plain, 0), session: rdI64(plain, 8), outer, container: null, messages: [outer], padding };
  if (rdU32(outer.body, 0) === 0x73f1f8dc) {
    r.container = outer.id;
    r.messages = [];
    let o = 8;
    for (let i = rdI32(outer.body, 4); i > 0; i--) {
      const l = rdI32(outer.body, o + 12);
      r.messages.push({ id: rdI64(outer.body, o), seqno: rdI32(outer.body, o + 8), body: outer.body.slice(o + 16, o + 16 + l) });
      o += 16 + l;
    }
    if (o !== outer.body.length) throw new Error("container length mismatch");
  }
  return r;
}

export function tlBytes(b: Uint8Array): Uint8Array {
  const head = b.length < 254 ? new Uint8Array([b.length]) : new Uint8Array([254, b.length & 255, (b.length >> 8) & 255, (b.length >> 16) & 255]);
  const n = head.length + b.length;
  return cat(head, b, new Uint8Array((4 - (n % 4)) % 4));
}
export function rdBytes(b: Uint8Array, o: number): [Uint8Array, number] {
  let n = b[o], h = 1;
  if (n === 254) { n = b[o + 1] | (b[o + 2] << 8) | (b[o + 3] << 16); h = 4; }
  const end = o + h + n;
  return [b.slice(o + h, end), end + ((4 - ((h + n) % 4)) % 4)];
}
export const gz = (b: Uint8Array) => cat(i32(0x3072cfa1), tlBytes(new Uint8Array(gzipSync(b))));
export function ungz(b: Uint8Array): Uint8Array {
  if (rdU32(b, 0) !== 0x3072cfa1) return b;
  return new Uint8Array(gunzipSync(rdBytes(b, 4)[0]));
}
export const S = {
  rpcResult: (id: bigint, body: Uint8Array) => cat(i32(0xf35c6d01), i64(id), body),
  rpcError: (code: number, text: string) => cat(i32(0x2144ca19), i32(code), tlBytes(new TextEncoder().encode(text))),
  pong: (id: bigint, ping: bigint) => cat(i32(0x347773c5), i64(id), i64(ping)),
  newSession: (first: bigint, unique: bigint, salt: bigint) => cat(i32(0x9ec20908), i64(first), i64(unique), i64(salt)),
  badSalt: (id: bigint, seqno: number, salt: bigint) => cat(i32(0xedab447b), i64(id), i32(seqno), i32(48), i64(salt)),
  badMsg: (id: bigint, seqno: number, code: number) => cat(i32(0xa7eff811), i64(id), i32(seqno), i32(code)),
  detailed: (id: bigint, answer: bigint) => cat(i32(0x276d3ec6), i64(id), i64(answer), i32(100), i32(0)),
  newDetailed: (answer: bigint) => cat(i32(0x809db6df), i64(answer), i32(100), i32(0)),
  container: (ms: Msg[]) => cat(i32(0x73f1f8dc), i32(ms.length), ...ms.map((m) => cat(i64(m.id), i32(m.seqno), i32(m.body.length), m.body))),
};
export const text = (b: Uint8Array) => new TextDecoder("latin1").decode(b);
