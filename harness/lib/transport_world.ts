// The other end of a connection: sockets that hand bytes over when told, and servers that read and write every framing on their own.
import { createCipheriv, createDecipheriv, createHash, createHmac } from "node:crypto";
import { Socket } from "node:net";
import { setImmediate as later } from "node:timers";
import type { Rng } from "./graph.ts";
import { nativeOp, wallNow } from "./vt.ts";

export const cat = (...p: Uint8Array[]) => { const o = new Uint8Array(p.reduce((a, b) => a + b.length, 0)); let i = 0; for (const x of p) { o.set(x, i); i += x.length; } return o; };
export const same = (a: Uint8Array, b: Uint8Array) => a.length === b.length && a.every((x, i) => x === b[i]);
export const bytes = (n: number) => { const o = new Uint8Array(n); for (let i = 0; i < n; i += 65536) realRandom.call(crypto, o.subarray(i, i + 65536)); return o; };
const sha256 = (x: Uint8Array) => new Uint8Array(createHash("sha256").update(x).digest());
const hmac = (k: Uint8Array, x: Uint8Array) => new Uint8Array(createHmac("sha256", k).update(x).digest());
const u32 = (b: Uint8Array, i = 0) => (b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24) >>> 0;

// What must not begin an obfuscated stream, offered now and then.
const FORBIDDEN = [[0xef], [...new TextEncoder().encode("HEAD")], [...new TextEncoder().encode("POST")], [...new TextEncoder().encode("GET ")], [...new TextEncoder().encode("OPTI")], [0xdd, 0xdd, 0xdd, 0xdd], [0xee, 0xee, 0xee, 0xee], [0x16, 0x03, 0x01, 0x02]];
const realRandom = crypto.getRandomValues;
let draws = 0;
(crypto as any).getRandomValues = function (a: any) {
  const o = realRandom.call(crypto, a);
  if (o instanceof Uint8Array && o.length === 56) {
    const k = draws++ % 23;
    if (k < FORBIDDEN.length) o.set(FORBIDDEN[k]);
    else if (k === 9) o.fill(0, 4, 8);
  }
  return o;
};

export interface Shape { proto: "abridged" | "intermediate" | "padded"; obf: boolean; secret?: Uint8Array; dcId?: number; outer?: "tls" | "socks"; domain?: string; user?: [string, string]; target?: string; targetPort?: number }

// One connection as the server sees it.
export class Peer {
  packets: Uint8Array[] = [];
  problems: string[] = [];
  raw = new Uint8Array();
  app = new Uint8Array();
  state = "outer";
  enc: any = null;
  dec: any = null;
  ready = false;
  ccs = false;
  outbox: Uint8Array[] = []; // handshake bytes to the client
  constructor(public s: Shape, public r: Rng, public bad: boolean) { if (!s.outer) { this.state = "prefix"; this.ready = true; } }
  // bytes of the handshake, or of frames, from the client
  feed(b: Uint8Array) {
    this.raw = cat(this.raw, b);
    try {
      if (this.s.outer === "tls") this.#tls();
      else if (this.s.outer === "socks" && this.state !== "prefix" && this.state !== "frames") this.#socks();
      else { this.app = cat(this.app, this.raw); this.raw = new Uint8Array(); }
      this.#stream();
    } catch (err) { this.problems.push(String((err as any)?.message ?? err)); }
  }
  #take(n: number): Uint8Array | null { if (this.raw.length < n) return null; const x = this.raw.slice(0, n); this.raw = this.raw.slice(n); return x; }
  #tls() {
    if (this.state === "outer") {
      const h = this.#take(517);
      if (!h) return;
      if (!same(h.slice(0, 11), new Uint8Array([0x16, 3, 1, 2, 0, 1, 0, 1, 0xfc, 3, 3]))) throw new Error("not a client hello");
      const rnd = h.slice(11, 43), z = h.slice();
      z.fill(0, 11, 43);
      const mac = hmac(this.s.secret!.slice(1, 17), z), x = mac.map((v, i) => v ^ rnd[i]);
      if (x.slice(0, 28).some((v) => v)) throw new Error("the client hello is not signed with the secret");
      if (Math.abs(u32(x, 28) - Math.floor(wallNow() / 1000)) > 3) throw new Error("the client hello has another time");
      const name = new TextEncoder().encode(this.s.domain!);
      let found = false;
      for (let i = 0; i + name.length < z.length; i++) if (same(z.subarray(i, i + name.length), name) && z[i - 2] * 256 + z[i - 1] === name.length) found = true;
      if (!found) throw new Error("the client hello does not name the domain");
      const body = bytes(20 + this.r.int(200)), tail = bytes(1 + this.r.int(6000));
      const hello = cat(new Uint8Array([0x16, 3, 3, 0, 0, 2, 0, 0, 0, 3, 3]), new Uint8Array(32), body);
      hello[3] = (hello.length - 5) >> 8; hello[4] = (hello.length - 5) & 255;
      const res = cat(hello, new Uint8Array([0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, tail.length >> 8, tail.length & 255]), tail);
      res.set(hmac(this.s.secret!.slice(1, 17), cat(rnd, res)), 11);
      if (this.bad) res[11 + this.r.int(32)] ^= 1 << this.r.int(8);
      this.outbox.push(res);
      this.state = "prefix";
      this.ready = true;
    }
    for (;;) {
      if (this.raw.length < 5) return;
      const n = this.raw[3] * 256 + this.raw[4];
      if (!this.ccs) {
        if (this.raw.length < 6) return;
        if (!same(this.raw.slice(0, 6), new Uint8Array([0x14, 3, 3, 0, 1, 1]))) throw new Error("the cipher was not changed");
        this.ccs = true;
        this.raw = this.raw.slice(6);
        continue;
      }
      if (this.raw[0] !== 0x17 || this.raw[1] !== 3 || this.raw[2] !== 3) throw new Error(`a record of another type: ${this.raw.slice(0, 5)}`);
      if (n > 16384 || n === 0) throw new Error(`a record of ${n} bytes`);
      if (this.raw.length < 5 + n) return;
      this.app = cat(this.app, this.raw.slice(5, 5 + n));
      this.raw = this.raw.slice(5 + n);
    }
  }
  #socks() {
    for (;;) {
      if (this.state === "outer") {
        if (this.raw.length < 2 || this.raw.length < 2 + this.raw[1]) return;
        const h = this.#take(2 + this.raw[1])!;
        if (h[0] !== 5) throw new Error("not SOCKS5");
        const want = this.s.user ? 2 : 0;
        if (!h.slice(2).includes(want)) throw new Error("the method was not offered");
        if (this.bad && !this.s.user) { this.outbox.push(new Uint8Array([5, 255])); this.state = "dead"; return; }
        this.outbox.push(new Uint8Array([5, want]));
        this.state = want ? "user" : "connect";
      } else if (this.state === "user") {
        if (this.raw.length < 2) return;
        const n = this.raw[1];
        if (this.raw.length < 3 + n || this.raw.length < 3 + n + this.raw[2 + n]) return;
        const h = this.#take(3 + n + this.raw[2 + n])!, t = new TextDecoder();
        const ok = h[0] === 1 && t.decode(h.slice(2, 2 + n)) === this.s.user![0] && t.decode(h.slice(3 + n)) === this.s.user![1];
        if (!ok) this.problems.push("other credentials");
        this.outbox.push(new Uint8Array([1, this.bad ? 1 : 0]));
        this.state = this.bad ? "dead" : "connect";
      } else if (this.state === "connect") {
        if (this.raw.length < 5) return;
        const n = this.raw[3] === 1 ? 4 : this.raw[3] === 4 ? 16 : this.raw[4] + 1;
        if (this.raw.length < 6 + n) return;
        const h = this.#take(6 + n)!;
        const a = h.slice(4, 4 + n), host = h[3] === 1 ? [...a].join(".") : h[3] === 4 ? v6(a) : new TextDecoder().decode(a.slice(1));
        if (h[0] !== 5 || h[1] !== 1 || h[2] !== 0 || host !== this.s.target || h[4 + n] * 256 + h[5 + n] !== this.s.targetPort) throw new Error(`connect to ${host}`);
        const bound = this.r.pick([[1, 1, 2, 3, 4], [4, ...bytes(16)], [3, 3, 97, 98, 99], [3, 0]]);
        this.outbox.push(new Uint8Array([5, 0, 0, ...bound, 0x1f, 0x90]));
        this.state = "prefix";
        this.ready = true;
        this.app = cat(this.app, this.raw);
        this.raw = new Uint8Array();
        return;
      } else return;
    }
  }
  #stream() {
    if (this.state === "prefix") {
      if (this.s.obf) {
        if (this.app.length < 64) return;
        const init = this.app.slice(0, 64);
        this.app = this.app.slice(64);
        if (FORBIDDEN.some((f) => f.every((x, i) => x === init[i]))) throw new Error(`the stream begins like another protocol: ${init.slice(0, 4)}`);
        if (u32(init, 4) === 0) throw new Error("the second word is zero");
        const key = (k: Uint8Array) => this.s.secret ? sha256(cat(k, this.s.secret.length === 16 ? this.s.secret : this.s.secret.slice(1, 17))) : k;
        const rev = init.slice().reverse();
        this.dec = createDecipheriv("aes-256-ctr", key(init.slice(8, 40)), init.slice(40, 56));
        this.enc = createCipheriv("aes-256-ctr", key(rev.slice(8, 40)), rev.slice(40, 56));
        const plain = new Uint8Array(this.dec.update(init));
        const tag = this.s.proto === "abridged" ? 0xefefefef : this.s.proto === "padded" ? 0xdddddddd : 0xeeeeeeee;
        if (u32(plain, 56) !== tag) throw new Error(`the stream is of another protocol: ${plain.slice(56, 60)}`);
        if (this.s.dcId !== undefined && (plain[60] | plain[61] << 8) !== (this.s.dcId & 0xffff)) throw new Error(`the stream is for another data center: ${plain.slice(60, 62)}`);
        if (this.app.length) this.app = new Uint8Array(this.dec.update(this.app));
      } else {
        const p = this.s.proto === "abridged" ? [0xef] : this.s.proto === "padded" ? [0xdd, 0xdd, 0xdd, 0xdd] : [0xee, 0xee, 0xee, 0xee];
        if (this.app.length < p.length) return;
        if (p.some((x, i) => this.app[i] !== x)) throw new Error(`the stream begins with ${this.app.slice(0, p.length)}`);
        this.app = this.app.slice(p.length);
      }
      this.plainFrom = this.app.length;
      this.state = "frames";
    }
    if (this.state !== "frames") return;
    if (this.dec && this.app.length > this.plainFrom) this.app = cat(this.app.slice(0, this.plainFrom), new Uint8Array(this.dec.update(this.app.slice(this.plainFrom))));
    this.plainFrom = this.app.length;
    for (;;) {
      let h: number, n: number;
      const a = this.app;
      if (this.s.proto === "abridged") {
        if (a.length < 1 || (a[0] === 0x7f && a.length < 4)) break;
        if (a[0] > 0x7f) throw new Error(`a frame beginning with ${a[0]}`);
        h = a[0] === 0x7f ? 4 : 1;
        n = 4 * (a[0] === 0x7f ? a[1] | a[2] << 8 | a[3] << 16 : a[0]);
        if (a[0] === 0x7f && n < 4 * 0x7f) throw new Error("a long header for a short frame");
      } else {
        if (a.length < 4) break;
        h = 4;
        n = u32(a);
      }
      if (n > 1 << 24) throw new Error(`a frame of ${n} bytes`);
      if (a.length < h + n) break;
      this.packets.push(a.slice(h, h + n));
      this.app = a.slice(h + n);
      this.plainFrom = this.app.length;
    }
  }
  plainFrom = 0;
  // A frame for the client: the stream's bytes and where its header ends.
  frame(p: Uint8Array): { b: Uint8Array; head: number; packet: Uint8Array } {
    let head: Uint8Array, body = p;
    if (this.s.proto === "abridged") {
      const w = p.length / 4;
      head = w < 0x7f ? new Uint8Array([w]) : new Uint8Array([0x7f, w & 255, w >> 8 & 255, w >> 16]);
    } else {
      if (this.s.proto === "padded") body = cat(p, bytes(this.r.int(16)));
      const n = body.length;
      head = new Uint8Array([n & 255, n >> 8 & 255, n >> 16 & 255, n >>> 24]);
    }
    const f = cat(head, body);
    return { b: this.enc ? new Uint8Array(this.enc.update(f)) : f, head: head.length, packet: body };
  }
  // The stream's bytes as the outer layer carries them, in records of any size.
  wrap(b: Uint8Array): Uint8Array {
    if (this.s.outer !== "tls") return b;
    const parts: Uint8Array[] = [];
    for (let i = 0; i < b.length;) {
      const n = Math.min(b.length - i, this.r.pick([1, 2, 5, 100, 2878, 16384, 16384]));
      parts.push(new Uint8Array([0x17, 3, 3, n >> 8, n & 255]), b.slice(i, i + n));
      i += n;
    }
    return cat(...parts);
  }
}
function v6(a: Uint8Array) { // the addresses used here have one run of zeros
  const w = Array.from({ length: 8 }, (_, i) => (a[2 * i] << 8 | a[2 * i + 1]).toString(16));
  return w.join(":").replace(/(^|:)0(:0)+(:|$)/, "::");
}

// One socket, whatever kind the client uses.
export abstract class Link {
  peer: Peer;
  auto = true; // takes everything written at once, in pieces
  gone = false;
  constructor(public w: LinkWorld) { this.peer = w.newPeer(this); }
  abstract give(b: Uint8Array): void; // bytes to the client
  abstract lose(): void;
  abstract pendingWrite(): number; // bytes of the write in progress, -1 if there is none
  abstract accept(n: number): void;
  abstract failWrite(): void;
  flush() {
    const all = cat(...this.peer.outbox);
    if (all.length < 6000 && this.w.r.int(3) === 0) { // drop by drop, regardless of where packets end
      this.peer.outbox.length = 0;
      const n = 1 + this.w.r.int(6);
      for (let i = 0; i < all.length; i += n) this.give(all.slice(i, i + n));
    }
    while (this.peer.outbox.length) this.pieces(this.peer.outbox.shift()!);
  }
  // in pieces of any size
  pieces(b: Uint8Array) {
    const r = this.w.r;
    for (let i = 0; i < b.length;) {
      const n = r.int(3) ? Math.min(b.length - i, b.length < 40 ? 1 + r.int(4) : r.pick([1, 3, 17, 1000, 5000])) : b.length - i;
      this.give(b.slice(i, i + n));
      i += n;
    }
  }
}
export class LinkWorld {
  links: Link[] = [];
  refuse = false;
  bad = false;
  where: any[] = [];
  constructor(public shape: Shape, public r: Rng) {}
  newPeer(l: Link) { this.links.push(l); return new Peer(this.shape, this.r, this.bad); }
  get link() { return this.links.at(-1)!; }
}
let world: LinkWorld | null = null;
export function useWorld(w: LinkWorld) { world = w; }

class ConnLink extends Link {
  queue: Uint8Array[] = [];
  eof = false;
  closed = false;
  reader: { p: Uint8Array; r: PromiseWithResolvers<number | null> } | null = null;
  writer: { p: Uint8Array; r: PromiseWithResolvers<number> } | null = null;
  overlapped = "";
  conn = {
    setNoDelay() {}, setKeepAlive() {},
    read: (p: Uint8Array) => {
      if (this.closed) return Promise.reject(new Error("Bad resource ID"));
      if (this.reader) { this.overlapped = "two reads at once"; return Promise.reject(new Error("busy")); }
      this.reader = { p, r: Promise.withResolvers() };
      const q = this.reader.r.promise;
      this.#serve();
      return q;
    },
    write: (p: Uint8Array) => {
      if (this.closed) return Promise.reject(new Error("Bad resource ID"));
      if (this.writer) { this.overlapped = "two writes at once"; return Promise.reject(new Error("busy")); }
      this.writer = { p: p.slice(), r: Promise.withResolvers() };
      const q = this.writer.r.promise;
      if (this.auto) this.accept(this.w.r.int(2) ? this.writer.p.length : 1 + this.w.r.int(this.writer.p.length));
      return q;
    },
    close: () => {
      if (this.closed) throw new Error("Bad resource ID");
      this.closed = true;
      this.reader?.r.reject(new Error("operation canceled"));
      this.writer?.r.reject(new Error("operation canceled"));
      this.reader = this.writer = null;
    },
  };
  #serve() {
    const x = this.reader;
    if (!x) return;
    if (x.p.length === 0) { this.reader = null; x.r.resolve(0); return; }
    const c = this.queue[0];
    if (c) {
      const n = Math.min(c.length, x.p.length);
      x.p.set(c.subarray(0, n));
      if (n === c.length) this.queue.shift(); else this.queue[0] = c.subarray(n);
      this.reader = null;
      x.r.resolve(n);
    } else if (this.eof) { this.reader = null; this.w.r.int(2) ? x.r.resolve(null) : x.r.reject(new Error("Connection reset by peer")); }
  }
  give(b: Uint8Array) { if (b.length) this.queue.push(b); this.#serve(); }
  lose() { this.eof = true; this.gone = true; this.#serve(); }
  pendingWrite() { return this.writer ? this.writer.p.length : -1; }
  accept(n: number) {
    const x = this.writer!;
    this.writer = null;
    if (!this.gone) this.peer.feed(x.p.slice(0, n));
    this.flush();
    x.r.resolve(n);
  }
  failWrite() { const x = this.writer; this.writer = null; x?.r.reject(new Error("Broken pipe")); }
}
(Deno as any).connect = (o: any) => {
  const w = world!;
  w.where.push([o.hostname, o.port]);
  return nativeOp(new Promise((r, no) => later(() => w.refuse ? no(new Error("Connection refused")) : r(new ConnLink(w).conn))));
};

// sockets of node:net
const links = new WeakMap<any, NodeLink>();
class NodeLink extends Link {
  state = "open";
  writes: { p: Uint8Array; cb: (e?: any) => void }[] = [];
  constructor(w: LinkWorld, public s: any) { super(w); }
  give(b: Uint8Array) { if (this.state === "open") this.s.emit("data", b); }
  lose() { this.gone = true; if (this.w.r.int(2)) this.s.emit("error", new Error("ECONNRESET")); this.end(); }
  // the socket reports its end later, as real ones do
  end() {
    if (this.state === "closed") return;
    this.state = "closed";
    nativeOp(new Promise<void>((r) => later(() => {
      const ws = this.writes.splice(0);
      for (const x of ws) x.cb(new Error("the socket was destroyed"));
      this.s.emit("close");
      r();
    })));
  }
  pendingWrite() { return this.writes.length ? this.writes[0].p.length : -1; }
  accept(_n: number) {
    const x = this.writes.shift()!;
    if (!this.gone) this.peer.feed(x.p);
    this.flush();
    x.cb();
  }
  failWrite() {}
}
const P = Socket.prototype as any;
P.connect = function (port: number, host: string) {
  const w = world!, s = this;
  Object.defineProperty(s, "readyState", { configurable: true, get: () => links.get(s)?.state ?? "closed" });
  w.where.push([host, port]);
  nativeOp(new Promise<void>((r) => later(() => {
    if (w.refuse) { s.emit("error", new Error("ECONNREFUSED")); s.emit("close"); }
    else { links.set(s, new NodeLink(w, s)); s.emit("connect"); }
    r();
  })));
  return s;
};
P.write = function (p: Uint8Array, cb: any) {
  const l = links.get(this);
  if (!l || l.state !== "open") { later(() => cb(new Error("not open"))); return false; }
  l.writes.push({ p: p.slice(), cb });
  if (l.auto) nativeOp(new Promise<void>((r) => later(() => { if (l.writes.length) l.accept(0); r(); })));
  return true;
};
P.destroy = function () { links.get(this)?.end(); return this; };

// WebSockets
class FakeWebSocket extends EventTarget {
  static CONNECTING = 0; static OPEN = 1; static CLOSING = 2; static CLOSED = 3;
  readyState = 0;
  binaryType = "blob";
  link: WsLink | null = null;
  constructor(url: string, proto: any) {
    super();
    const w = world!;
    w.where.push([url, proto]);
    nativeOp(new Promise<void>((r) => later(() => {
      if (w.refuse) { this.readyState = 3; this.dispatchEvent(new ErrorEvent("error", { message: "refused" })); this.dispatchEvent(new Event("close")); }
      else if (this.readyState === 0) { this.readyState = 1; this.link = new WsLink(w, this); this.dispatchEvent(new Event("open")); }
      r();
    })));
  }
  send(p: Uint8Array) { if (this.readyState === 0) throw new Error("InvalidStateError"); if (this.readyState === 1) { this.link!.peer.feed(p.slice()); this.link!.flush(); } }
  close(_code?: number) {
    if (this.readyState >= 2) return;
    this.readyState = 2;
    nativeOp(new Promise<void>((r) => later(() => { this.readyState = 3; this.dispatchEvent(new Event("close")); r(); })));
  }
}
(globalThis as any).WebSocket = FakeWebSocket;
class WsLink extends Link {
  constructor(w: LinkWorld, public s: FakeWebSocket) { super(w); }
  give(b: Uint8Array) {
    if (this.s.readyState !== 1) return;
    if (this.w.r.int(6) === 0) this.s.dispatchEvent(Object.assign(new Event("message"), { data: "text" }));
    const data = this.s.binaryType === "arraybuffer" ? (this.w.r.int(3) ? b.slice().buffer : b.slice()) : new Blob([b as any]);
    this.s.dispatchEvent(Object.assign(new Event("message"), { data }));
  }
  lose() { this.gone = true; this.s.readyState = 3; if (this.w.r.int(2)) this.s.dispatchEvent(new ErrorEvent("error", { message: "lost" })); this.s.dispatchEvent(new Event("close")); }
  pendingWrite() { return -1; }
  accept() {}
  failWrite() {}
}
