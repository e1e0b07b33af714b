// Drives a SessionWorld through the actions of Session.tla.
import type { Driver, Rng } from "./graph.ts";
import { rng } from "./graph.ts";
import { SessionWorld } from "./session_world.ts";
import { cat, i32, AuthKey, rand, S } from "./mtproto.ts";
import { TransportError } from "/repo/0_errors.ts";
void TransportError;

let seed = 1;
export class SessionDriver implements Driver {
  w: SessionWorld;
  r: Rng;
  cur = new Map<number, { id: bigint; nonce: number; ping?: bigint; seqno: number }>(); // last transmission per slot
  hist = new Map<number, { id: bigint; nonce: number; ping?: bigint; seqno: number; ses: bigint }[]>(); // all transmissions per slot
  box: bigint | null = null;
  ack: bigint | null = null;
  names = new Map<bigint, number>(); // received message id -> model name
  lastSession: bigint | null = null;
  prevSession: bigint | null = null;
  salts = new Map<bigint, number>([[0n, 0]]);
  saltVal: bigint[] = [0n, 0x1122334455667788n, -0x7122334455667788n, 0x0102030405060708n];
  constructor(public aspects: (o: any) => any) {
    this.r = rng(seed++ * 7919);
    this.w = new SessionWorld(this.r);
    this.saltVal.forEach((s, i) => this.salts.set(s, i));
  }
  static async make(aspects: (o: any) => any) {
    const d = new SessionDriver(aspects);
    await d.w.start();
    return d;
  }
  private tracked(slot: number) { const t = this.cur.get(slot); if (!t) throw new Error(`no transmission of ${slot}`); return t; }
  private past(a: any) {
    const h = (this.hist.get(a.c) ?? []).filter((x) => x.ses === this.lastSession);
    const o = a.cur ? h.slice(0, -1) : h;
    if (!o.length) throw new Error(`no earlier transmission of ${a.c}`);
    return this.r.int(2) ? o.at(-1)! : this.r.pick(o);
  }
  private name(id: bigint, n: number) { this.names.set(id, n); }
  private ackable(body: Uint8Array, n: number) { const m = this.w.msg(body); this.name(m.id, n); return m; }
  private reply(c: number, o: string, t: { id: bigint; nonce: number; ping?: bigint }) {
    return c === 0 ? S.pong(t.id, t.ping ?? 0n) : o === "ok" ? this.w.answer(t.id, c, t.nonce) : this.w.error(t.id);
  }
  async step(a: any): Promise<any> {
    const w = this.w;
    switch (a.n) {
      case "Invoke": if (a.c === 0) await w.firePing(); else { w.call(a.c, this.r.int(3) === 0 ? "p".repeat(this.r.pick([1100, 1500, 20000])) : ""); await w.quiet(); } break;
      case "Result": await w.deliver(w.frame([this.ackable(this.reply(a.c, a.o, this.tracked(a.c)), a.m)], { forceContainer: this.r.int(3) === 0 })); break;
      case "NotInited": await w.deliver(w.frame([this.ackable(w.error(this.tracked(a.c).id, "CONNECTION_NOT_INITED"), a.m)])); break;
      case "Batch": await w.deliver(w.frame(this.shuffle([this.ackable(this.reply(a.c, "ok", this.tracked(a.c)), a.m[0]), this.ackable(this.reply(a.d, "rpc", this.tracked(a.d)), a.m[1]), this.ackable(w.update(7), a.m[2])]))); break;
      case "ResultOld": { const t = this.past(a); await w.deliver(w.frame([this.ackable(this.reply(a.c, "ok", t), a.m)])); break; }
      case "ResultUnknown": await w.deliver(w.frame([this.ackable(w.answer(0x1234567800000000n + BigInt(this.r.int(1000)) * 4n, 9, 9), a.m)])); break;
      case "Update": await w.deliver(w.frame([this.ackable(w.update(7), a.m)], { forceContainer: this.r.int(3) === 0 })); break;
      case "Detailed": {
        const id = w.serverId(3);
        this.name(id, a.m);
        await w.deliver(w.frame([w.msg(a.k === 1 ? S.detailed(0x1234567800000004n, id) : S.newDetailed(id))]));
        break;
      }
      case "NewSession": await w.deliver(w.frame([this.ackable(S.newSession(4n, 5n, this.saltVal[a.s]), a.m)])); break;
      case "BadSalt": case "BadSaltOld": { const t = a.n === "BadSalt" ? this.tracked(a.c) : this.past(a); await w.deliver(w.frame([w.msg(S.badSalt(t.id, t.seqno, this.saltVal[a.s]))])); break; }
      case "BadBox": await w.deliver(w.frame([w.msg(S.badSalt(this.box!, 1, this.saltVal[a.s]))])); break;
      case "BoxLow": await w.deliver(w.frame([w.msg(S.badMsg(this.box!, this.r.int(1000) * 2, this.r.pick([16, 48])))])); break;
      case "BadAck": await w.deliver(w.frame([w.msg(S.badSalt(this.ack!, 1, this.saltVal[a.s]))])); break;
      case "BadMsg": await w.deliver(w.frame([w.msg(S.badMsg(this.tracked(a.c).id, this.tracked(a.c).seqno, this.r.pick([16, 48])))])); break;
      case "Ignored": {
        // each would settle a call, change the salt or be acknowledged if it were believed
        const t = [...this.cur.entries()].find(([s]) => s > 0);
        const m = w.msg(this.r.int(3) === 0 || !t ? this.r.int(2) ? S.newSession(1n, 2n, 77n) : w.update(13) : w.answer(t[1].id, t[0], t[1].nonce));
        if (a.k === "msgkey") await w.deliver(w.frame([m], { badMsgKey: true }));
        else if (a.k === "session") await w.deliver(w.frame([m], { session: w.session() ^ (1n << BigInt(this.r.int(62))) }));
        else if (a.k === "oldsession") await w.deliver(w.frame([m], { session: this.prevSession ?? 12345n }));
        else await w.deliver(i32(this.r.pick([-404, -429, -444])));
        break;
      }
      case "Invalidate":
        if (a.k === "key") { const k = new AuthKey(rand(256)); await w.deliver(w.frame([w.msg(w.update(13))], { key: k })); }
        else if (a.k === "short") await w.deliver(cat(rand(this.r.pick([5, 8, 12, 23, 24]))));
        else { const t = [...this.cur.values()][0]; await w.deliver(w.frame([w.msg(S.badMsg(t?.id ?? 4n, 1, this.r.pick([18, 19, 20, 32, 33, 34, 35, 64, 17])))])); }
        break;
      case "InvalidateSlow": w.conn.holdOpen = true; await w.deliver(w.frame([w.msg(w.update(13))], { key: new AuthKey(rand(256)) })); break;
      case "OpenFailed": { const o = w.conn.opening; if (!o) return { harness: "no reconnection attempt" }; w.conn.opening = null; w.conn.holdOpen = false; o.reject(new Error("refused")); await w.quiet(); break; }
      case "InvalidateFail": w.conn.failOpen = true; await w.deliver(w.frame([w.msg(w.update(13))], { key: new AuthKey(rand(256)) })); w.conn.failOpen = false; break;
      case "Again": w.conn.failOpen = !a.ok; await w.tick(3000); w.conn.failOpen = false; break;
      case "Disconnect":
        w.client.disconnect();
        await w.quiet();
        await w.tick(3000);
        if (w.conn.opening) { const o = w.conn.opening; w.conn.opening = null; w.conn.holdOpen = false; o.resolve(); await w.quiet(); await w.tick(3000); }
        break;
      case "Connect": await w.client.connect(); await w.quiet(); break;
      case "Drop": w.conn.holdOpen = true; w.conn.lose(); await w.quiet(); await w.tick(3000); break;
      case "OpenOk": { const o = w.conn.opening; if (!o) return { harness: "no reconnection attempt" }; w.conn.opening = null; w.conn.holdOpen = false; o.resolve(); await w.quiet(); break; }
      case "OpenFail": { const o = w.conn.opening; if (!o) return { harness: "no reconnection attempt" }; w.conn.opening = null; o.reject(new Error("refused")); await w.quiet(); await w.tick(3000); break; }
      case "Hold": w.conn.hold = true; break;
      case "Release": {
        w.conn.hold = false;
        const ps = w.conn.inflight.splice(0);
        for (const p of ps) a.ok ? p.resolve() : p.reject(new Error("transmission failed"));
        await w.quiet();
        break;
      }
      default: throw new Error(`unknown action ${a.n}`);
    }
    return this.aspects(this.observe());
  }
  shuffle<T>(x: T[]) { for (let i = x.length - 1; i > 0; i--) { const j = this.r.int(i + 1); [x[i], x[j]] = [x[j], x[i]]; } return x; }
  observe() {
    const w = this.w;
    const wires = w.take();
    const o: any = { tx: [], ak: [], s: [], sl: [], txs: [], u: 0, ns: false };
    const ak = new Set<number>();
    wires.forEach((f, i) => {
      if (f.session !== this.lastSession) { o.ns = true; this.prevSession = this.lastSession; this.lastSession = f.session; }
      o.txs.push(this.salts.get(f.salt) ?? -1);
      for (const m of f.msgs) {
        if (m.kind === "ack") {
          this.ack = m.id;
          this.box = f.container;
          for (const x of m.acks!) { const n = this.names.get(x) ?? -1; ak.add(n); }
          if (i > 0) ak.add(-2); // acknowledgements due must go with the first message
        } else if (m.kind === "call" || m.kind === "ping") {
          const slot = m.call ?? 0;
          if (slot > 0 && m.nonce !== w.lastNonce.get(slot)) { o.tx.push(-slot); continue; } // a call that was already settled
          o.tx.push(slot);
          const t = { id: m.id, nonce: m.nonce ?? 0, ping: m.ping, seqno: m.seqno, ses: f.session };
          this.cur.set(slot, t);
          if (!this.hist.has(slot)) this.hist.set(slot, []);
          this.hist.get(slot)!.push(t);
        } else o.tx.push(-99);
      }
    });
    for (const s of w.settled.splice(0)) o.s.push(s);
    for (const s of w.salts.splice(0)) o.sl.push(this.salts.get(s) ?? -1);
    for (const u of w.updates.splice(0)) o.u = u === 7 ? o.u + 1 : -1;
    if (w.errors.length) o.err = w.errors.splice(0);
    o.tx.sort((a: number, b: number) => a - b);
    o.ak = [...ak].sort((a, b) => a - b);
    o.s.sort((a: any, b: any) => a[0] - b[0]);
    o.sl = [...new Set(o.sl)];
    o.txs = [...new Set(o.txs)];
    return o;
  }
  end() {
    this.w.dispose();
    return null;
  }
}
