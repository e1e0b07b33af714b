// A whole client on connections that are lost, refused, slow, or cut off; its server keeps the messages it has produced.
import { Client } from "/repo/client/6_client.ts";
import { StorageMemory } from "/repo/2_storage.ts";
import { SEED } from "./check.ts";
import { rng } from "./graph.ts";
import { type Call, type DcConn, Net } from "./client_world.ts";
import { AuthKey, i32, rand } from "./mtproto.ts";
import { advance, clearTimers, installVirtualTime, settle, wallNow } from "./vt.ts";

const SELF = 1000n;
let lives = 0;
export class StayingDriver {
  net!: Net;
  client: any;
  shown = "";
  msgs: number[] = [];
  failed = new Set<number>();
  sent = new Set<number>();
  done = new Set<number>();
  settled = new Set<number>();
  at = new Map<number, Call>();
  made = 0;
  calls = 0;
  plan: string[] = []; // what happens to the next connections
  n = 0;
  broken: string | null = null;
  temps = new Set<bigint>();
  static async make(o: { pfs: boolean }) {
    installVirtualTime(1_700_000_000_000 + ++lives * 3600_000);
    clearTimers();
    const d = new StayingDriver(), net = d.net = new Net(rng(SEED * 57 + lives));
    net.auto = (c) => d.auto(c);
    net.hook = {
      refuseOpen: () => { if (d.plan[0] === "refused") { d.plan.shift(); return true; } return false; },
      holdOpen: (c) => {
        if (d.plan[0] !== "slow") return false;
        d.plan.shift();
        setTimeout(() => net.down ? c.opening?.reject(new Error("unreachable")) : c.opening?.resolve(), 20_000);
        return true;
      },
      opened: (c) => { if (d.plan[0] === "opened") { d.plan.shift(); c.lose(); } else if (d.plan[0] === "soon") { d.plan.shift(); setTimeout(() => { if (c.isConnected) c.lose(); }, 1); } },
      frame: (c) => { if (d.plan[0] === "frame") { d.plan.shift(); c.lose(); } },
    };
    const key = net.addKey("2", Number(SELF));
    const storage = new StorageMemory();
    d.client = new Client({ ...net.params(), storage, defaultHandlers: false, isPerfectForwardSecrecyEnabled: o.pfs, dropPendingUpdates: false } as any);
    await d.client.storage.initialize();
    await d.client.storage.auth.update((v: any) => { v.authKey = key.key.key; v.dc = "2"; v.userId = Number(SELF); v.isBot = false; });
    await d.client.storage.setServerSalt(key.salt);
    d.client.use((ctx: any, next: any) => {
      if (ctx.update.type === "connectionState") d.shown = ctx.update.connectionState;
      if (ctx.message) d.msgs.push(Number(String(ctx.message.text).slice(4)));
      return next();
    });
    let st = "";
    d.client.start().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
    for (let i = 0; i < 60 && !st; i++) await advance(10);
    if (st !== "up") throw new Error(`no connection: ${st}`);
    await advance(1000);
    return d;
  }
  message(k: number) { return { _: "message", id: 100 + k, peer_id: { _: "peerUser", user_id: SELF }, from_id: { _: "peerUser", user_id: SELF }, date: 1, message: `msg ${k}` }; }
  me = { _: "user", id: SELF, access_hash: 5n, first_name: "me", self: true };
  state() { return { _: "updates.state", pts: 1 + this.made, qts: 0, date: 1, seq: 0, unread_count: 0 }; }
  auto(c: Call): boolean {
    const q = c.q;
    switch (q._) {
      case "auth.bindTempAuthKey":
        if (this.plan[0] === "unknown") { this.plan.shift(); this.temps.add(c.key.key.id); this.forget(c.key.key.id); c.conn.put(i32(-404), null, false); return true; }
        this.temps.add(c.key.key.id); setTimeout(() => this.forget(c.key.key.id), q.expires_at * 1000 - wallNow()); c.key.user = Number(SELF); this.net.answer(c, true); return true;
      case "updates.getState": this.net.answer(c, this.state()); return true;
      case "updates.getDifference": {
        if (this.plan[0] === "difference") { this.plan.shift(); c.conn.lose(); return true; }
        const from = q.pts - 1;
        if (from >= this.made) this.net.answer(c, { _: "updates.differenceEmpty", date: 1, seq: 0 });
        else this.net.answer(c, { _: "updates.difference", new_messages: Array.from({ length: this.made - from }, (_, i) => this.message(from + i + 1)), new_encrypted_messages: [], other_updates: [], users: [this.me], chats: [], state: this.state() });
        return true;
      }
      case "users.getUsers": this.net.answer(c, [this.me]); return true;
      case "help.getDeepLinkInfo": {
        const k = Number(q.path);
        if (this.sent.has(k)) this.broken = "a call was sent twice";
        this.sent.add(k);
        this.at.set(k, c);
        return true;
      }
      default: this.net.error(c, 400, "METHOD_INVALID"); return true;
    }
  }
  conn(): DcConn | undefined { return this.net.conns.filter((c) => c.isConnected && c.used).at(-1); }
  push(v: any) { const c = this.conn(); if (c) this.net.push(c, [...this.net.keys.values()].find((k) => k.key.id === this.keyId)!, v); }
  get keyId() { return this.client.storage && (this.net.all.at(-1)!.key.key.id); }
  async step(a: any) {
    this.msgs = []; this.failed.clear(); this.sent.clear(); this.done.clear();
    this.n++;
    let result = "";
    let ms = 5_000;
    this.plan = [...(a.st ?? [])];
    ms += 5_000 * this.plan.length + 25_000 * this.plan.filter((x) => x === "slow").length;
    switch (a.n) {
      case "Connect": this.client.connect().then(() => result = "ok", () => result = "fail"); break;
      case "Disconnect": this.client.disconnect().then(() => result = "ok", (e: any) => this.broken = `disconnect() failed: ${e}`); break;
      case "Lose": this.lose(); break;
      case "Cut": this.net.down = true; this.lose(); ms = a.long ? [61_000, 200_000][this.n % 2] : [4_000, 7_000][this.n % 2]; break;
      case "Corrupt": this.conn()?.put(rand(80), null, false); break;
      case "Back": this.net.down = false; break;
      case "Forget": {
        for (const id of this.temps) this.forget(id);
        this.conn()?.put(i32(-404), null, false);
        ms += 30_000;
        break;
      }
      case "Push": this.made++; this.push({ _: "updates", updates: [{ _: "updateNewMessage", message: this.message(this.made), pts: 1 + this.made, pts_count: 1 }], users: [this.me], chats: [], date: 1, seq: 0 }); break;
      case "Miss": this.made++; break;
      case "Garbage": this.push(new Uint8Array([0x44, 0x33, 0x22, 0x11, 1, 2, 3, 4])); break;
      case "Quiet": ms = 1_020_000; break;
      case "Day": ms = 90_000_000; break;
      case "Age": ms = 150_000; break;
      case "Call": {
        const k = ++this.calls;
        this.client.invoke({ _: "help.getDeepLinkInfo", path: String(k) }).then((v: any) => { if (v.message !== `m${k}`) this.broken = "another call's answer"; this.over(k); this.done.add(k); }, (e: any) => { this.over(k); this.failed.add(k); void e; });
        ms = 100;
        break;
      }
      case "Reply": this.net.answer(this.at.get(a.k)!, { _: "help.deepLinkInfo", message: `m${a.k}` }); break;
    }
    await settle();
    await advance(ms);
    if (a.n === "Connect" && result !== (this.net.down ? "fail" : "ok")) this.broken = `connect(): ${result || "never ended"}`;
    if (a.n === "Disconnect" && !result) this.broken = "disconnect() never ended";
    if (this.plan.some((x) => x !== "unknown") && !a.st.includes("slow")) this.broken = `a connection was not attempted: ${this.plan}`;
    if (this.net.problems.length) this.broken = this.net.problems[0];
    if (this.broken) throw new Error(this.broken);
    const l = (s: Set<number>, w: string) => [...s].sort((x, y) => x - y).map((k) => [w, k]);
    return [...this.msgs.map((k) => ["msg", k]), ...l(this.failed, "failed"), ...l(this.sent, "sent"), ...l(this.done, "done"), ["shown", this.shown]];
  }
  over(k: number) { if (this.settled.has(k)) this.broken = "a call was settled twice"; this.settled.add(k); }
  forget(id: bigint) {
    const k = this.net.keys.get(id);
    if (!k || !this.temps.delete(id)) return;
    this.net.keys.delete(id);
    this.net.forgotten.add(id);
    for (const s of this.net.kw.ses) if (s.key && new AuthKey(s.key).id === id) s.key = null;
  }
  lose() { for (const c of this.net.conns) if (c.isConnected) c.lose(); }
  async end() { this.plan = []; this.client.disconnect().catch(() => {}); await settle(); await advance(100); }
}
