import { main, pick, SEED } from "../lib/check.ts";
import { rng, type Rng } from "../lib/graph.ts";
import { clearTimers, installVirtualTime, settle } from "../lib/vt.ts";
import { bytes, cat, type Link, LinkWorld, same, type Shape, useWorld } from "../lib/transport_world.ts";
import { ConnectionTCP } from "/repo/connection/1_connection_tcp.ts";
import { ConnectionTCP as NodeTCP } from "/repo/connection/1_connection_tcp.node.ts";
import { ConnectionSocks5 } from "/repo/connection/1_connection_socks5.ts";
import { ConnectionSocks5 as NodeSocks5 } from "/repo/connection/1_connection_socks5.node.ts";
import { ConnectionTLS as NodeTLS } from "/repo/connection/1_connection_tls.node.ts";
import { TransportAbridged } from "/repo/transport/1_transport_abridged.ts";
import { TransportIntermediate } from "/repo/transport/1_transport_intermediate.ts";
import { transportProviderTcp } from "/repo/transport/2_transport_provider_tcp.ts";
import { transportProviderMtproxy } from "/repo/transport/2_transport_provider_mtproxy.ts";
import { transportProviderSocks5 } from "/repo/transport/2_transport_provider_socks5.ts";
import { transportProviderWebSocket } from "/repo/transport/2_transport_provider_web_socket.ts";

const hex = (b: Uint8Array) => [...b].map((x) => x.toString(16).padStart(2, "0")).join("");
const HOST = "proxy.example.org";
const DCS: [string, string, string, string][] = [["1", "149.154.175.50", "2001:b28:f23d:f001::a", "pluto"], ["2", "149.154.167.51", "2001:67c:4e8:f002::a", "venus"], ["3", "149.154.175.100", "2001:b28:f23d:f003::a", "aurora"], ["4", "149.154.167.91", "2001:67c:4e8:f004::a", "vesta"], ["5", "149.154.171.5", "2001:b28:f23f:f005::a", "flora"], ["1-test", "149.154.175.10", "2001:b28:f23d:f001::e", "pluto"], ["2-test", "149.154.167.40", "2001:67c:4e8:f002::e", "venus"], ["3-test", "149.154.175.117", "2001:b28:f23d:f003::e", "aurora"]];

interface Kind { shape: Shape; where: [any, any]; connection: any; transport: any; dcId?: number; wantDc: number; sizes: (r: Rng) => number }
const words = (r: Rng) => 4 * r.pick([1, 5, 10, 0x7e, 0x7f, 0x80, 300, 0xffff, 0x10000, 0x10001]);
const any = (r: Rng) => r.pick([4, 24, 40, 41, 127, 2869, 2873, 2874, 2878, 5746, 16384, 16385, 70_001, 262_144]);
const small = (r: Rng) => r.int(12) ? 4 * r.pick([1, 6, 10, 0x7e, 0x7f, 0x80]) : words(r);
const KINDS: Record<string, (r: Rng) => Kind> = {};
function kind(name: string, f: (r: Rng, dc: typeof DCS[0], media: boolean) => Omit<Kind, "wantDc">) {
  KINDS[name] = (r) => { const dc = r.pick(DCS), media = !!r.int(2); return { ...f(r, dc, media), wantDc: (parseInt(dc[0]) + (dc[0].endsWith("-test") ? 10000 : 0)) * (media ? -1 : 1) }; };
}
const dcId = (dc: typeof DCS[0], media: boolean) => (parseInt(dc[0]) + (dc[0].endsWith("-test") ? 10000 : 0)) * (media ? -1 : 1);
for (const obf of [false, true]) {
  kind(`tcp${obf ? " obfuscated" : ""}`, (r, dc, media) => {
    const ipv6 = !!r.int(2), p = (transportProviderTcp as any)(obf || ipv6 || r.int(2) ? { ipv6, obfuscated: obf } : undefined)({ dc: dc[0], isMedia: media });
    return { ...p, shape: { proto: "abridged", obf }, where: [dc[ipv6 ? 2 : 1], 80], sizes: small };
  });
  kind(`node tcp${obf ? " obfuscated" : ""}`, () => { const connection = new NodeTCP("1.2.3.4", 443); return { connection, transport: new TransportAbridged(connection, obf), shape: { proto: "abridged", obf }, where: ["1.2.3.4", 443], sizes: small }; });
  for (const padded of [false, true]) {
    kind(`intermediate${padded ? " padded" : ""}${obf ? " obfuscated" : ""}`, (r, dc, media) => {
      const connection = new ConnectionTCP("1.2.3.4", 443);
      const id = dcId(dc, media), secret = obf ? bytes(16) : undefined;
      return { connection, transport: new TransportIntermediate(connection as any, { isObfuscated: obf, isPadded: padded, dcId: obf ? id : undefined, secret }), shape: { proto: padded ? "padded" : "intermediate", obf, secret, dcId: obf ? id : undefined }, where: ["1.2.3.4", 443], sizes: any };
    });
  }
}
function proxied(secret: Uint8Array, r: Rng, dc: typeof DCS[0], media: boolean) {
  const p: any = r.int(2) ? (transportProviderMtproxy as any)(HOST, 8443, secret) : (transportProviderMtproxy as any)(`tg://proxy?server=${HOST}&port=8443&secret=${hex(secret)}`);
  return { ...p({ dc: dc[0], isMedia: media }), where: [HOST, 8443] as [any, any], sizes: any };
}
kind("proxy", (r, dc, media) => { const secret = r.int(2) ? bytes(16) : cat(new Uint8Array([0xdd]), bytes(16)); return { ...proxied(secret, r, dc, media), shape: { proto: "padded", obf: true, secret, dcId: dcId(dc, media) } }; });
const tls = () => { const domain = "www.example.com"; return { domain, secret: cat(new Uint8Array([0xee]), bytes(16), new TextEncoder().encode(domain)) }; };
kind("proxy tls", (r, dc, media) => { const { domain, secret } = tls(); return { ...proxied(secret, r, dc, media), shape: { proto: "padded", obf: true, secret, dcId: dcId(dc, media), outer: "tls", domain } }; });
kind("node proxy tls", (_r, dc, media) => {
  const { domain, secret } = tls(), connection = new NodeTLS(HOST, 8443, secret as any);
  return { connection, transport: new TransportIntermediate(connection as any, { isPadded: true, isObfuscated: true, secret, dcId: dcId(dc, media) }), shape: { proto: "padded", obf: true, secret, dcId: dcId(dc, media), outer: "tls", domain }, where: [HOST, 8443], sizes: any };
});
const users: ([string, string] | undefined)[] = [undefined, ["me", "p@ss:w/rd"]];
kind("socks", (r, dc) => {
  const user = r.pick(users), host = r.pick([HOST, "10.0.0.1", "2001:db8::1"]), target = r.pick([dc[1], dc[2], "a.example.net"]), connection = new ConnectionSocks5(target, 5222, host, 1080, user && { username: user[0], password: user[1] });
  return { connection, transport: new TransportAbridged(connection as any, false), shape: { proto: "abridged", obf: false, outer: "socks", user, target, targetPort: 5222 }, where: [host, 1080], sizes: small };
});
kind("node socks", (r, dc, media) => {
  const user = r.pick(users), host = r.pick([HOST, "10.0.0.1", "2001:db8::1"]), six = host.includes("::");
  if (r.int(2)) {
    const target = r.pick([dc[1], dc[2], "a.example.net"]), connection = new NodeSocks5(target, 5222, host, 1080, user && { username: user[0], password: user[1] });
    return { connection, transport: new TransportAbridged(connection as any, false), shape: { proto: "abridged", obf: false, outer: "socks", user, target, targetPort: 5222 }, where: [host, 1080], sizes: small };
  }
  // the provider uses this one in every runtime
  const url = `socks5://${user ? user.map(encodeURIComponent).join(":") + "@" : ""}${six ? `[${host}]` : host}${r.int(2) ? ":1081" : ""}`;
  const byUrl = !!r.int(2), port = byUrl && !url.endsWith(":1081") ? 1080 : 1081;
  const p: any = byUrl ? (transportProviderSocks5 as any)(url) : (transportProviderSocks5 as any)(host, port, user && { username: user[0], password: user[1] });
  return { ...p({ dc: dc[0], isMedia: media }), shape: { proto: "abridged", obf: false, outer: "socks", user, target: dc[six ? 2 : 1], targetPort: 80 }, where: [host, port], sizes: small };
});
kind("web socket", (r, dc, media) => {
  const wss = r.pick([undefined, true, false]), p: any = (transportProviderWebSocket as any)(wss === undefined ? undefined : { wss })({ dc: dc[0], isMedia: media });
  return { ...p, shape: { proto: "intermediate", obf: true, dcId: dcId(dc, media) }, where: [`${wss === false ? "ws" : "wss"}://${dc[3]}${media ? "-1" : ""}.web.telegram.org/${dc[0].endsWith("test") ? "apiws_test" : "apiws"}`, "binary"], sizes: any };
});

let lives = 0;
class Driver {
  r = rng(SEED * 7717 + ++lives);
  k: Kind;
  w: LinkWorld;
  ev: any[] = [];
  sent = new Map<number, Uint8Array>();
  arrived = 0;
  order: number[] = []; // ids in the order they were handed over on this connection
  come: { packet: Uint8Array; marks: number[] }[] = [];
  app = new Uint8Array(); // what the server has written on this connection
  given = 0; // how much of it the client has been given
  tail = new Uint8Array(); // begun record not given yet
  got = 0;
  mark = 0;
  broken: string | null = null;
  announced = false;
  constructor(public name: string) {
    this.k = KINDS[name](this.r);
    this.k.connection.stateChangeHandler = (x: boolean) => this.announced = x;
    this.w = new LinkWorld(this.k.shape, this.r);
  }
  static make(name: string) { installVirtualTime(); clearTimers(); const d = new Driver(name); useWorld(d.w); return d; }
  get link(): Link { return this.w.link; }
  async open() {
    const n = this.w.links.length;
    await this.k.connection.open();
    try { await this.k.transport.initialize(); } catch (err) { if (this.k.connection.isConnected) this.k.connection.close(); throw err; }
    if (this.w.links.length !== n + 1) this.broken = "no new connection was made";
    this.link.auto = false;
    this.come = []; this.app = new Uint8Array(); this.given = 0; this.tail = new Uint8Array(); this.got = 0; this.mark = 0; this.arrived = 0; this.order = [];
  }
  async step(a: any) {
    this.ev = [];
    const c = this.k.connection, t = this.k.transport;
    let opened: string | null = null;
    const open = () => { opened = "waiting"; this.open().then(() => opened = "open", (e) => opened = `refused: ${e?.message ?? e}`); };
    switch (a.n) {
      case "Open": open(); break;
      case "OpenBad": {
        const shake = !!this.k.shape.outer && this.r.int(3) > 0;
        if (shake) this.w.bad = true; else this.w.refuse = true;
        open();
        await settle();
        this.w.bad = this.w.refuse = false;
        break;
      }
      case "Push": {
        const p = bytes(this.k.sizes(this.r)), f = this.link.peer.frame(p), at = this.app.length;
        this.app = cat(this.app, f.b);
        const some = (x: number, y: number) => y - x <= 1 ? x : x + 1 + this.r.int(Math.min(y - x - 1, this.r.int(2) ? 8 : 1e9));
        this.come.push({ packet: f.packet, marks: [some(at, at + f.head), at + f.head, some(at + f.head, at + f.b.length), at + f.b.length] });
        break;
      }
      case "Deliver": {
        const m = this.come[Math.ceil(a.m / 4) - 1].marks[(a.m - 1) % 4];
        let b = cat(this.tail, this.link.peer.wrap(this.app.slice(this.given, m)));
        this.given = m;
        const sameFrame = Math.floor(this.mark / 4) === Math.floor(a.m / 4);
        this.mark = a.m;
        this.tail = new Uint8Array();
        // of an unfinished frame the last record may still be on its way
        if (a.m % 4 && sameFrame && b.length > 1 && this.k.shape.outer === "tls" && this.r.int(2) && this.records(b) === 1) { const n = this.r.int(b.length); this.tail = b.slice(n); b = b.slice(0, n); }
        this.link.pieces(b);
        break;
      }
      case "Receive": {
        Promise.resolve().then(() => t.receive()).then((p: Uint8Array) => {
          const i = this.got++;
          this.ev.push(["got", this.come[i] && same(p, this.come[i].packet) ? i + 1 : `another packet: ${p.length} bytes for ${this.come[i]?.packet.length}`]);
        }, () => this.ev.push(["failed", 0]));
        break;
      }
      case "Send": {
        const p = bytes(this.k.sizes(this.r)), was = p.slice();
        this.sent.set(a.id, was);
        this.order.push(a.id);
        Promise.resolve().then(() => t.send(p)).then(() => { this.ev.push(["sent", a.id]); if (!same(p, was)) this.broken = "the packet was modified"; }, () => this.ev.push(["failed", a.id]));
        break;
      }
      case "Accept": {
        const l = this.link, n = l.pendingWrite();
        if (n < 0) return "nothing is being written";
        if (a.a === 1) { if (n > 1) l.accept(1); }
        else if (a.a === 2) { if (n > 1) l.accept(n >> 1); }
        else {
          const before = this.ev.length;
          for (let i = 0; i < 10_000 && this.ev.length === before && l.pendingWrite() >= 0; i++) { l.accept(this.r.int(3) ? l.pendingWrite() : 1 + this.r.int(l.pendingWrite())); await settle(); }
        }
        break;
      }
      case "Lose": this.link.lose(); break;
      case "StaleFail": this.link.failWrite(); break;
      case "Close": c.close(); break;
      case "Restart": c.close(); open(); break;
    }
    await settle();
    if (opened !== null) {
      if (opened === "open") this.ev.push(["open", JSON.stringify(this.w.where.at(-1)) === JSON.stringify(this.k.where) && (this.k.dcId === undefined || this.k.dcId === this.k.wantDc) ? 1 : `to ${this.w.where.at(-1)}, data center ${this.k.dcId}`]);
      else if (opened === "waiting") this.ev.push(["opening"]);
      else this.ev.push(["refused", 1]);
    }
    if (this.w.links.length) {
      const peer = this.link.peer;
      if (peer.problems.length) this.broken ??= peer.problems[0];
      if ((this.link as any).overlapped) this.broken ??= (this.link as any).overlapped;
      for (; this.arrived < peer.packets.length; this.arrived++) {
        const id = this.order[this.arrived], p = peer.packets[this.arrived], want = id && this.sent.get(id);
        const extra = want ? p.length - want.length : 0;
        this.ev.push(["arrived", want && same(p.slice(0, want.length), want) && extra >= 0 && extra < (this.k.shape.proto === "padded" ? 16 : 1) ? id : `another packet: ${p.length} bytes for ${want ? want.length : "none"}`]);
      }
    }
    if (c.isConnected && !this.announced || a.n === "Lose" && this.announced) this.broken ??= `announced as ${this.announced ? "connected" : "lost"}`;
    return this.broken ?? { ev: sorted(this.ev), up: c.isConnected };
  }
  records(b: Uint8Array) { let n = 0; for (let i = 0; i + 5 <= b.length; i += 5 + b[i + 3] * 256 + b[i + 4]) n++; return n; }
  end() { clearTimers(); return this.broken; }
}
const sorted = (ev: any[]) => ev.sort((x, y) => JSON.stringify(x) < JSON.stringify(y) ? -1 : 1);
const project = (o: any) => ({ ev: sorted(o.ev), up: o.up });

await main("T01", ["One packet is awaited at a time.", "A connection is lost while a packet is awaited (the session's receive loop always awaits one)."], async (c) => {
  const base = { MaxIn: 2, MaxOut: 2, MaxGen: 2, Pend: 2, Parts: "FALSE", Late: "FALSE", Instant: "FALSE", Bad: 0 };
  const cfg = (k: any) => ({ module: "Transport", spec: "Spec", constants: { ...base, ...k }, invariants: ["Inv"], properties: ["InOrder", "Settled"] });
  await c.model("longer histories", cfg({ MaxIn: 3, MaxOut: pick(3, 4), MaxGen: 3, Parts: "TRUE", Late: "TRUE", Bad: 1 }));
  const graphs = new Map<string, any>();
  for (const name of Object.keys(KINDS)) {
    const deno = /^(tcp|intermediate|proxy|socks)/.test(name), ws = name === "web socket", mixed = name.startsWith("intermediate");
    const k = { ...(deno ? { Parts: "TRUE", Late: "TRUE" } : ws ? { Instant: "TRUE" } : {}), MaxGen: mixed ? 1 : 2, Bad: mixed ? 0 : 1 };
    const key = JSON.stringify(k), graph = graphs.get(key);
    const g = await c.conform(name, cfg(k), () => Driver.make(name) as any, { graph, project: graph ? undefined : project, maxLen: 60, budgetMs: pick(4_000, 60_000), randomMs: pick(700, 15_000) });
    graphs.set(key, g);
  }
});
