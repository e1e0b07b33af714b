// A whole client whose server tells it about users and channels by every way it has: pushed batches, answers to calls, differences.
import { Client } from "/repo/client/6_client.ts";
import { Api } from "/repo/2_tl.ts";
import { StorageLocalStorage, StorageMemory } from "/repo/2_storage.ts";
import { SEED } from "./check.ts";
import { rng } from "./graph.ts";
import { type Call, Net, quiet, tick } from "./client_world.ts";
import { clearTimers, installVirtualTime, setClock, virtualNow, wallNow } from "./vt.ts";

const SPELL: Record<string, string[]> = { n1: ["alice_1", "Alice_1", "ALICE_1"], n2: ["bob22x", "Bob22X", "bOB22x"] };
const PHONE: Record<string, string> = { t1: "15550001" };
const FORMS = [(s: string) => s, (s: string) => "@" + s, (s: string) => `https://t.me/${s}`, (s: string) => `t.me/${s}`, (s: string) => `${s}.t.me`, (s: string) => ` @${s} `, (s: string) => `http://telegram.me/${s}`];
const ID: Record<string, bigint> = { u1: 777001n, u2: 5_000_000_321n, c1: 1_234_567n, c2: 2_000_000_011n };
const SELF = 1000n;
let lives = 0;
const nameOf = (s: string) => Object.keys(SPELL).find((n) => SPELL[n].includes(s)) ?? s;
const hashOf = (p: string, v: number) => BigInt(Object.keys(ID).indexOf(p) + 1) * 1000n * (v % 2 ? 1n : -1n) + BigInt(v);

export class PeersDriver {
  net!: Net;
  client: any;
  ev: any[] = [];
  n = 0; // varies what the specification leaves open
  pts = 10;
  cpts: Record<string, number> = {};
  told: any[] = [];
  asked: Call | null = null;
  pending: Call | null = null; // a call of ours
  broken: string | null = null;
  shapes: Record<string, any> = {};
  static async make(o: { bot?: boolean; persist?: boolean }) {
    installVirtualTime(1_700_000_000_000 + ++lives * 3600_000);
    clearTimers();
    localStorage.clear();
    const d = new PeersDriver();
    d.net = new Net(rng(SEED * 91 + lives));
    d.net.auto = (c) => d.auto(c, !!o.bot);
    const key = d.net.addKey("2", Number(SELF));
    key.inited = false;
    const storage = o.persist ? new StorageLocalStorage("p") : new StorageMemory();
    d.client = new Client({ ...d.net.params(), storage, persistCache: !!o.persist, defaultHandlers: false, isPerfectForwardSecrecyEnabled: false, dropPendingUpdates: false } as any);
    await d.client.storage.initialize();
    await d.client.storage.auth.update((v: any) => { v.authKey = key.key.key; v.dc = "2"; v.userId = Number(SELF); v.isBot = !!o.bot; });
    await d.client.storage.setServerSalt(key.salt);
    d.client.use((ctx: any, next: any) => {
      if (ctx.message) d.heard(ctx.message);
      return next();
    });
    await d.up();
    return d;
  }
  async up() {
    let st = "";
    this.client.start().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
    for (let i = 0; i < 60 && !st; i++) await quiet();
    if (st !== "up") throw new Error(`no connection: ${st}`);
  }
  auto(c: Call, bot: boolean): boolean {
    const q = c.q;
    switch (q._) {
      case "updates.getState": this.net.answer(c, { _: "updates.state", pts: this.pts, qts: 0, date: 1, seq: 0, unread_count: 0 }); return true;
      case "updates.getDifference": {
        const o = this.told.splice(0);
        if (!o.length) { this.net.answer(c, { _: "updates.differenceEmpty", date: 1, seq: 0 }); return true; }
        const { users, chats } = this.split(o);
        this.net.answer(c, { _: "updates.difference", new_messages: [], new_encrypted_messages: [], other_updates: [], users, chats, state: { _: "updates.state", pts: this.pts, qts: 0, date: 1, seq: 0, unread_count: 0 } });
        return true;
      }
      case "users.getUsers":
        if (q.id[0]._ === "inputUserSelf") { this.net.answer(c, [{ _: "user", id: SELF, access_hash: 5n, first_name: "me", self: true, ...(bot ? { bot: true, bot_info_version: 1 } : {}) }]); return true; }
        if (this.pending === c || this.ours.has("users.getUsers")) { this.ours.delete("users.getUsers"); const { users } = this.split(this.told.splice(0)); this.net.answer(c, users); return true; }
        if (q.id.length !== 1 || q.id[0].access_hash !== 0n) this.broken = "a strange question about a user";
        this.asked = c;
        this.ev.push(["ask", this.peerOf("u", q.id[0].user_id)]);
        return true;
      case "channels.getChannels":
        if (q.id.length !== 1 || q.id[0].access_hash !== 0n) this.broken = "a strange question about a channel";
        this.asked = c;
        this.ev.push(["ask", this.peerOf("c", q.id[0].channel_id)]);
        return true;
      case "contacts.search": { const { users, chats } = this.split(this.told.splice(0)); this.net.answer(c, { _: "contacts.found", my_results: [], results: [], users, chats }); return true; }
      case "contacts.resolveUsername": this.asked = c; this.ev.push(["ask", nameOf(q.username)]); return true;
      case "contacts.resolvePhone": this.asked = c; this.ev.push(["ask", Object.keys(PHONE).find((k) => PHONE[k] === q.phone) ?? q.phone]); return true;
      case "messages.getHistory": this.net.answer(c, this.history!); return true;
      default: this.net.error(c, 400, "METHOD_INVALID"); return true;
    }
  }
  ours = new Set<string>();
  history: any = null;
  peerOf(kind: string, id: bigint) { return Object.keys(ID).find((p) => p[0] === kind && ID[p] === id) ?? `${kind}${id}`; }
  // together with others nobody asks about
  split(o: any[]) {
    const u: any = { _: "user", id: 990n, first_name: "another", access_hash: 5n }, c: any = { _: "channel", id: 991n, title: "another", access_hash: 5n, photo: { _: "chatPhotoEmpty" }, date: 1, broadcast: true };
    const mix = (x: any[], other: any) => !x.length || this.n % 4 === 0 ? x : this.n % 4 === 1 ? [other, ...x] : this.n % 4 === 2 ? [...x, other] : [other, ...x, { ...other, id: 992n }];
    return { users: mix(o.filter((x) => x._ === "user"), u), chats: mix(o.filter((x) => x._ === "channel"), c) };
  }
  object(p: string, v: number, names: string[], min = false): any {
    const k = this.n % 3, spelt = names.map((n, i) => SPELL[n][(this.n + i) % 3]);
    const user: any = {};
    if (spelt.length === 1 && k) user.username = spelt[0];
    else if (spelt.length) user.usernames = spelt.map((username, i) => ({ _: "username", username, active: true, ...(i ? {} : { editable: true }) }));
    if (p[0] === "u") return { _: "user", id: ID[p], first_name: min ? "partly" : `${p} ${v}`, ...(min ? { min: true } : {}), access_hash: min ? 66n : hashOf(p, v), ...user };
    return { _: "channel", id: ID[p], title: min ? "partly" : `${p} ${v}`, ...(min ? { min: true } : {}), access_hash: min ? 66n : hashOf(p, v), photo: { _: "chatPhotoEmpty" }, date: 1, megagroup: this.n % 2 ? true : undefined, broadcast: this.n % 2 ? undefined : true, ...user };
  }
  conn() { return this.net.conns.filter((c) => c.isConnected).at(-1)!; }
  push(v: any) { const c = this.conn(); this.net.push(c, [...this.net.keys.values()][0], v); }
  batch(updates: any[], o: any[]) { this.push({ _: "updates", updates, ...this.split(o), date: 1, seq: 0 }); }
  // tells o by one of the ways the server has
  async tell(o: any[]) {
    const way = this.n % 5;
    if (way === 0) this.batch([{ _: "updateConfig" }], o);
    else if (way === 1) { this.told = o; this.push({ _: "updatesTooLong" }); }
    else if (way === 2 && o.every((x) => x._ === "user")) { this.told = o; this.ours.add("users.getUsers"); this.run(this.client.invoke({ _: "users.getUsers", id: o.map((x) => ({ _: "inputUser", user_id: x.id, access_hash: 1n })) })); }
    else if (way === 3) this.push({ _: "updatesCombined", updates: [{ _: "updateConfig" }], ...this.split(o), date: 1, seq: 0, seq_start: 0 });
    else { this.told = o; this.run(this.client.invoke({ _: "contacts.search", q: "q", limit: 10 })); }
    await quiet();
    if (this.told.length) this.broken = "what the server had to tell was not fetched";
  }
  run(p: Promise<any>) { p.catch((e: any) => this.broken = `a call failed: ${e}`); }
  input(x: any): any {
    switch (x._) {
      case "inputPeerSelf": return ["me"];
      case "inputPeerChat": return x.chat_id === 42n ? ["group"] : ["group", String(x.chat_id)];
      case "inputPeerUser": case "inputPeerChannel": {
        const p = this.peerOf(x._ === "inputPeerUser" ? "u" : "c", x.user_id ?? x.channel_id);
        return ["is", p, this.version(p, x.access_hash)];
      }
      case "inputPeerUserFromMessage": case "inputPeerChannelFromMessage": {
        const p = this.peerOf(x._ === "inputPeerUserFromMessage" ? "u" : "c", x.user_id ?? x.channel_id), i = this.input(x.peer);
        return ["via", p, i[1], i[2], x.msg_id - 100];
      }
    }
    return [x._];
  }
  version(p: string, h: bigint): any { for (const v of [1, 2, 3]) if (ID[p] !== undefined && hashOf(p, v) === h) return v; return String(h); }
  ask(id: any) {
    this.client.getInputPeer(id).then((x: any) => this.ev.push(this.input(x)), (e: any) => this.ev.push(e?.name === "AccessError" || e?.constructor?.name === "AccessError" ? ["none"] : e?.errorMessage === "USERNAME_NOT_OCCUPIED" || e?.errorMessage === "PHONE_NOT_OCCUPIED" ? ["fail"] : [String(e)]));
  }
  chatId(p: string) { return Api.peerToChatId(p[0] === "u" ? { _: "peerUser", user_id: ID[p] } as any : { _: "peerChannel", channel_id: ID[p] } as any); }
  heard(m: any) {
    if (!String(m.text).startsWith("tell")) return;
    const f = m.from?.id > 0 ? m.from : m.chat, p = this.peerOf(f.id > 0 ? "u" : "c", Api.chatIdToPeerId(f.id));
    const t = f.id > 0 ? f.firstName : f.title;
    const title = t === "renamed" && f.lastName === "too" ? 9 : t?.startsWith(p + " ") && f.lastName === undefined ? Number(t.slice(p.length + 1)) : `${t} ${f.lastName}`;
    this.ev.push(["from", p, title, [f.username, ...(f.also ?? [])].filter((x) => x !== undefined).map(nameOf).sort()]);
  }
  async step(a: any) {
    this.ev = [];
    this.n++;
    switch (a.n) {
      case "Seen": await this.tell([this.object(a.p, a.v, a.names)]); break;
      case "Part": await this.tell([this.object(a.p, 0, [], true)]); break;
      case "Talk": {
        const msg = { _: "message", id: 100 + a.m, peer_id: { _: "peerChannel", channel_id: ID[a.c] }, from_id: a.p[0] === "u" ? { _: "peerUser", user_id: ID[a.p] } : { _: "peerChannel", channel_id: ID[a.p] }, date: 1, message: "talk" };
        const min = this.object(a.p, 0, [], true);
        if (this.n % 3 === 0) {
          this.history = { _: "messages.channelMessages", pts: 1, count: 1, messages: [msg], topics: [], ...this.split([min]) };
          this.run(this.client.invoke({ _: "messages.getHistory", peer: { _: "inputPeerEmpty" }, offset_id: 0, offset_date: 0, add_offset: 0, limit: 1, max_id: 0, min_id: 0, hash: 0n }));
        } else {
          this.cpts[a.c] = (this.cpts[a.c] ?? 5) + 1;
          const u = { _: this.n % 3 === 1 ? "updateNewChannelMessage" : "updateEditChannelMessage", message: msg, pts: this.cpts[a.c], pts_count: 1 };
          this.batch([u], [min]);
        }
        await quiet();
        await tick(10);
        break;
      }
      case "Rename": this.batch([{ _: "updateUserName", user_id: ID[a.p], first_name: "renamed", last_name: "too", usernames: a.names.map((n: string, i: number) => ({ _: "username", username: SPELL[n][(this.n + i) % 3], active: true })) }], []); break;
      case "Tell": case "TellNew": {
        const o = a.n === "Tell" ? [] : [this.object(a.p, a.v, [])];
        if (a.p[0] === "u") this.batch([{ _: "updateNewMessage", message: { _: "message", id: 200 + this.n, peer_id: { _: "peerUser", user_id: ID[a.p] }, from_id: { _: "peerUser", user_id: ID[a.p] }, date: 1, message: `tell ${this.n}` }, pts: ++this.pts, pts_count: 1 }], o);
        else { this.cpts[a.p] = (this.cpts[a.p] ?? 5) + 1; this.batch([{ _: "updateNewChannelMessage", message: { _: "message", id: 200 + this.n, peer_id: { _: "peerChannel", channel_id: ID[a.p] }, date: 1, message: `tell ${this.n}`, post: true }, pts: this.cpts[a.p], pts_count: 1 }], o); }
        break;
      }
      case "Age": setClock(virtualNow() + 86_400_000 + 1000 * (this.n % 3600)); break;
      case "Get": this.ask(this.chatId(a.p)); break;
      case "Me": this.ask(this.n % 2 ? "me" : Number(SELF)); break;
      case "Group": this.ask(-42); break;
      case "Name": this.ask(PHONE[a.k] ? (this.n % 2 ? "+" : "") + PHONE[a.k] : FORMS[this.n % FORMS.length](SPELL[a.k][this.n % 3])); break;
      case "Answer": {
        const c = this.asked!, name = c.q._.startsWith("contacts.");
        this.asked = null;
        const o = this.object(a.p, a.v, c.q._ === "contacts.resolveUsername" ? [nameOf(c.q.username)] : []);
        if (name) this.net.answer(c, { _: "contacts.resolvedPeer", peer: a.p[0] === "u" ? { _: "peerUser", user_id: ID[a.p] } : { _: "peerChannel", channel_id: ID[a.p] }, ...this.split([o]) });
        else this.net.answer(c, c.q._ === "users.getUsers" ? [o] : { _: "messages.chats", chats: [o] });
        break;
      }
      case "Nobody": {
        const c = this.asked!;
        this.asked = null;
        if (c.q._.startsWith("contacts.")) this.net.error(c, 400, c.q._ === "contacts.resolvePhone" ? "PHONE_NOT_OCCUPIED" : "USERNAME_NOT_OCCUPIED");
        else this.net.answer(c, c.q._ === "users.getUsers" ? [{ _: "userEmpty", id: c.q.id[0].user_id }] : { _: "messages.chats", chats: [] });
        break;
      }
      case "Restart": this.run(this.client.disconnect()); await quiet(); await this.up(); break;
    }
    await quiet();
    void wallNow;
    if (this.net.problems.length) this.broken = this.net.problems[0];
    if (this.broken) throw new Error(this.broken);
    return this.ev;
  }
  async end() { this.run(this.client.disconnect()); await quiet(); }
}
