// Records what a session puts on the wire while clocks move and the server corrects them, for MessageIdsTrace.tla.
import { rng, type Rng } from "./graph.ts";
import { SessionWorld, type Wire } from "./session_world.ts";
import { AuthKey, rand, S } from "./mtproto.ts";
import { skewClock, virtualNow, wallNow } from "./vt.ts";

class Recorder {
  w: SessionWorld;
  ev: any[] = [];
  ses = new Map<bigint, number>();
  base: number;
  last: { id: bigint; slot: number; nonce: number }[] = [];
  slot = 0;
  constructor(public r: Rng) { this.w = new SessionWorld(r); this.base = Math.floor(virtualNow() / 1000); }
  flush() {
    for (const f of this.w.take()) this.frame(f);
    if (this.w.errors.length) throw new Error(this.w.errors.join());
  }
  frame(f: Wire & { outerSeq?: number }) {
    if (!this.ses.has(f.session)) this.ses.set(f.session, this.ses.size + 1);
    const m = (id: bigint, q: number, c: boolean) => ({ id: [Number(id >> 32n) - this.base, Number((id & 0xffffffffn) >> 2n)], r: Number(id & 3n), q, c });
    this.ev.push({
      n: "Frame", ses: this.ses.get(f.session), clk: Math.floor(f.at / 1000) - this.base,
      f: { msgs: f.msgs.map((x) => m(x.id, x.seqno, x.kind !== "ack")), box: f.container === null ? [] : [m(f.container, f.outerSeq!, false)] },
    });
    for (const x of f.msgs) if (x.kind === "call") this.last.push({ id: x.id, slot: x.call!, nonce: x.nonce! });
  }
  async op(o: string) {
    const w = this.w, r = this.r;
    const t = this.last.at(-1);
    switch (o) {
      case "call": w.call(++this.slot, r.int(4) === 0 ? "p".repeat(1500) : ""); await w.quiet(); break;
      case "two": w.call(++this.slot); w.call(++this.slot); await w.quiet(); break;
      case "update": await w.deliver(w.frame([w.msg(w.update(1))])); break;
      case "answer": if (t) { this.last = this.last.filter((x) => x.slot !== t.slot); await w.deliver(w.frame([w.msg(w.answer(t.id, t.slot, t.nonce))])); } break;
      case "refuse": if (t) await w.deliver(w.frame([w.msg(S.badSalt(t.id, 1, BigInt(r.int(1000))))])); break;
      case "low": { // the server's clock is ahead of the local one
        w.serverClock = Math.max(Math.floor(wallNow() / 1000) - Math.floor(virtualNow() / 1000) + r.pick([0, 1, 5, 400, 100_000]), w.serverClock);
        const d = Math.floor(virtualNow() / 1000) + w.serverClock - Math.floor(wallNow() / 1000);
        const f = w.frame([w.msg(S.badMsg(t?.id ?? 4n, 1, 16))]);
        this.ev.push({ n: "Correct", d });
        await w.deliver(f);
        break;
      }
      case "high": { // the local clock is ahead of the server's
        skewClock(r.pick([1, 30, 90_000]) * 1000 + w.serverClock * 1000 - (wallNow() - virtualNow()));
        const d = Math.floor(virtualNow() / 1000) + w.serverClock - Math.floor(wallNow() / 1000);
        const f = w.frame([w.msg(S.badMsg(t?.id ?? 4n, 1, 17))]);
        this.ev.push({ n: "Correct", d }, { n: "Renew" });
        await w.deliver(f);
        break;
      }
      case "forward": skewClock(r.pick([1, 1, 2, 3600]) * 1000); break;
      case "back": skewClock(-r.pick([1, 1, 2, 3600]) * 1000); break;
      case "millis": skewClock(r.int(1999) - 999); break;
      case "ping": await w.firePing(); break;
      case "lose": this.ev.push({ n: "Renew" }); await w.deliver(w.frame([w.msg(w.update(1))], { key: new AuthKey(rand(256)) })); break;
      case "drop": w.conn.lose(); await w.quiet(); await w.tick(3000); break;
      case "restart": this.flush(); this.ev.push({ n: "Renew" }); w.client.disconnect(); this.last = []; await w.client.connect(); await w.quiet(); break;
    }
    this.flush();
  }
}
export async function recordIds(seed: number, ops: string[]) {
  const c = new Recorder(rng(seed));
  await c.w.start();
  try { for (const o of ops) await c.op(o); } finally { c.w.dispose(); }
  return { events: c.ev, meta: { seed, ops: ops.join(" ") } };
}
export const ID_OPS = ["call", "two", "update", "answer", "refuse", "low", "high", "forward", "back", "millis", "ping", "lose", "drop", "restart"];
export const MESSAGE_IDS_TRACE = { module: "MessageIdsTrace", init: "InitT", next: "NextT", constants: { Secs: "{0}", Diffs: "{0}", MaxFrames: 0 } };
