// A whole client which asks for things that change, and for them again.
import { Client } from "/repo/client/6_client.ts";
import { StorageLocalStorage, StorageMemory } from "/repo/2_storage.ts";
import { SEED } from "./check.ts";
import { rng } from "./graph.ts";
import { type Call, Net, quiet, tick } from "./client_world.ts";
import { clearTimers, installVirtualTime } from "./vt.ts";

const SELF = 1000n, BOTS: Record<string, bigint> = { i1: 777_001n, i5: 777_002n }, U: Record<string, bigint> = { u1: 777_003n, u2: 777_004n }, G = 42n, C = 1_234_567n, CALL = 500n;
const BOT = BOTS.i1, CC = -1_000_000_000_000 - Number(C);
const Q: Record<string, [number, any]> = { q1: [10, { type: "button", data: "A" }], q2: [10, { type: "button", data: "B" }], q3: [11, { type: "button", data: "A" }], q4: [10, { type: "game" }] };
const I: Record<string, [bigint, number, string, string]> = { i1: [BOT, Number(BOT), "x", ""], i2: [BOT, Number(BOT), "x", "o"], i3: [BOT, Number(BOT), "y", ""], i4: [BOT, -Number(G), "x", ""], i5: [BOTS.i5, Number(BOT), "x", ""] };
const E: Record<string, bigint> = { e1: 8001n, e2: 8002n, e3: 8003n };
const T: Record<string, [any, number, number]> = { t1: [{ _: "peerUser", user_id: U.u1 }, Number(U.u1), 20], t2: [{ _: "peerChannel", channel_id: C }, CC, 20] };
const DISABLED = 3, ENDED = 9;
let lives = 0;

export class RememberedDriver {
  net!: Net;
  client: any;
  storage: any;
  ev: any[] = [];
  results: any[] = [];
  asked = 0;
  refuse = false;
  hold = false;
  n = 0;
  pts = 10;
  cpts = 5;
  truth: Record<string, number> = {};
  done: Record<string, boolean> = {};
  broken: string | null = null;
  constructor(public o: { items: string[]; brief: string[]; wait: number; bot?: boolean; persist?: boolean }) {}
  static async make(o: RememberedDriver["o"]) {
    installVirtualTime(1_700_000_000_000 + ++lives * 7200_000);
    clearTimers();
    localStorage.clear();
    const d = new RememberedDriver(o);
    for (const k of o.items) d.truth[k] = k[0] === "v" ? 0 : 1;
    d.net = new Net(rng(SEED * 89 + lives));
    d.net.auto = (c) => d.auto(c);
    const key = d.net.addKey("2", Number(SELF));
    key.inited = false;
    d.storage = o.persist ? new StorageLocalStorage("m") : new StorageMemory();
    d.open();
    await d.client.storage.initialize();
    await d.client.storage.auth.update((v: any) => { v.authKey = key.key.key; v.dc = "2"; v.userId = Number(SELF); v.isBot = !!o.bot; });
    await d.client.storage.setServerSalt(key.salt);
    await d.up();
    d.batch([{ _: "updateConfig" }, ...o.items.filter((k) => k[0] === "t").map((k) => ({ _: k === "t2" ? "updateNewChannelMessage" : "updateNewMessage", message: d.voice(k), pts: k === "t2" ? ++d.cpts : ++d.pts, pts_count: 1 }))]);
    await quiet();
    await quiet();
    return d;
  }
  open() {
    const o = this.o;
    this.client = new Client({ ...this.net.params(), storage: this.storage, persistCache: !!o.persist, defaultHandlers: false, isPerfectForwardSecrecyEnabled: false, dropPendingUpdates: false } as any);
    const of = this.client;
    this.client.use((ctx: any, next: any) => {
      if (of === this.client) this.hear(ctx.update);
      return next();
    });
  }
  async up() {
    let st = "";
    this.client.start().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
    for (let i = 0; i < 60 && !st; i++) await quiet();
    if (st !== "up") throw new Error(`no connection: ${st}`);
  }
  about() {
    const user = (id: bigint, more = {}) => ({ _: "user", id, access_hash: 7n, first_name: `n${id}`, ...more });
    return {
      users: [user(SELF, { self: true, ...(this.o.bot ? { bot: true, bot_info_version: 1 } : {}) }), user(BOT, { bot: true, bot_info_version: 1 }), user(BOTS.i5, { bot: true, bot_info_version: 1 }), user(U.u1), user(U.u2)],
      chats: [{ _: "chat", id: G, title: "group", photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 }, { _: "channel", id: C, title: "channel", access_hash: 9n, photo: { _: "chatPhotoEmpty" }, date: 1, broadcast: true }],
    };
  }
  voice(k: string): any {
    const v = this.truth[k];
    return {
      _: "message", id: T[k][2], peer_id: T[k][0], ...(k === "t2" ? { post: true } : { from_id: T[k][0] }), date: 1000, message: "", ...(v > 1 ? { edit_date: 2000 + v } : {}),
      media: { _: "messageMediaDocument", voice: true, document: { _: "document", id: 6000n + BigInt(v), access_hash: 1n, file_reference: new Uint8Array([1]), date: 1, mime_type: "audio/ogg", size: 10n, dc_id: 2, attributes: [{ _: "documentAttributeAudio", voice: true, duration: 3 }] } },
    };
  }
  transcription(k: string) { return { transcription_id: 700n + 10n * BigInt(k[1]) + BigInt(this.truth[k]), text: this.done[k] ? `${k} ${this.truth[k]}` : "", ...(this.done[k] ? {} : { pending: true }) }; }
  participants(): any {
    const v = this.truth.g1, common = { inviter_id: SELF, date: 1 };
    return { _: "chatParticipants", chat_id: G, version: v, participants: [{ _: "chatParticipantCreator", user_id: SELF }, { _: v === 2 ? "chatParticipantAdmin" : "chatParticipant", user_id: U.u1, ...common }, ...(v === 2 ? [{ _: "chatParticipant", user_id: U.u2, ...common }] : [])] };
  }
  call(w = this.truth.v1): any { return w === ENDED ? { _: "groupCallDiscarded", id: CALL, access_hash: 3n, duration: 1 } : { _: "groupCall", id: CALL, access_hash: 3n, participants_count: w, title: `v1 ${w}`, unmuted_video_limit: 1, version: w }; }
  live() { return this.truth.v1 > 0 && this.truth.v1 !== ENDED; }
  connection(k: string): any { const w = this.truth[k]; return { _: "updateBotBusinessConnect", qts: 0, connection: { _: "botBusinessConnection", connection_id: k, user_id: U.u1, dc_id: 2, date: 5, ...(w === DISABLED ? { disabled: true } : {}), ...(w === 1 ? { rights: { _: "businessBotRights", reply: true } } : {}) } }; }
  lent(k: string) { return this.o.brief.includes(k) ? 0 : this.o.wait * 1.5 / 1000; }
  // what the client asks for, as the server answers
  reply(q: any): any {
    const full = { notify_settings: { _: "peerNotifySettings" }, about: "" };
    switch (q._) {
      case "messages.getBotCallbackAnswer": {
        const k = Object.keys(Q).find((x) => Q[x][0] === q.msg_id && (Q[x][1].type === "game" ? !!q.game && !q.data : !q.game && q.data && new TextDecoder().decode(q.data) === Q[x][1].data));
        if (!k || q.peer.user_id !== BOT) return null;
        return { _: "messages.botCallbackAnswer", message: `${k} ${this.truth[k]}`, cache_time: this.lent(k) };
      }
      case "messages.getInlineBotResults": {
        const chat = q.peer._ === "inputPeerChat" ? -Number(q.peer.chat_id) : Number(q.peer.user_id);
        const k = Object.keys(I).find((x) => I[x][0] === q.bot.user_id && I[x][1] === chat && I[x][2] === q.query && I[x][3] === q.offset);
        if (!k) return null;
        return { _: "messages.botResults", query_id: 99n, next_offset: k, results: [{ _: "botInlineResult", id: String(this.truth[k]), type: "article", title: k, send_message: { _: "botInlineMessageText", message: "m" } }], cache_time: this.lent(k), users: this.about().users };
      }
      case "messages.getCustomEmojiDocuments": // only those there are, in an order of its own
        return Object.keys(E).filter((k) => q.document_id.includes(E[k]) && this.truth[k]).reverse().map((k) => ({ _: "document", id: E[k], access_hash: 1n, file_reference: new Uint8Array([1]), date: 1, mime_type: "image/webp", size: 10n, dc_id: 2, attributes: [{ _: "documentAttributeImageSize", w: 1, h: 1 }, { _: "documentAttributeCustomEmoji", alt: `${k} ${this.truth[k]}`, stickerset: { _: "inputStickerSetEmpty" } }] }));
      case "users.getFullUser": {
        const k = Object.keys(U).find((x) => U[x] === q.id.user_id);
        return k ? { _: "users.userFull", full_user: { _: "userFull", id: U[k], settings: { _: "peerSettings" }, ...full, common_chats_count: 0, birthday: { _: "birthday", day: this.truth[k], month: Number(k[1]) } }, ...this.about() } : null;
      }
      case "messages.getFullChat": return { _: "messages.chatFull", full_chat: { _: "chatFull", id: G, ...full, participants: this.participants() }, ...this.about() };
      case "channels.getFullChannel": return { _: "messages.chatFull", full_chat: { _: "channelFull", id: C, ...full, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, bot_info: [], pts: this.cpts, chat_photo: { _: "photo", id: 5n, access_hash: 1n, file_reference: new Uint8Array([1]), date: 1, dc_id: 2, sizes: [{ _: "photoSize", type: "x", w: 100 + this.truth.c1, h: 1, size: 1 }] }, ...(this.live() ? { call: { _: "inputGroupCall", id: CALL, access_hash: 3n } } : {}) }, ...this.about() };
      case "phone.getGroupCall": return q.call.id === CALL && q.call.access_hash === 3n && this.live() ? { _: "phone.groupCall", call: this.call(), participants: [], participants_next_offset: "", ...this.about() } : null;
      case "account.getBotBusinessConnection": return this.updates([this.connection(q.connection_id)]);
      case "messages.transcribeAudio": {
        const k = Object.keys(T).find((x) => (x === "t2") === (q.peer._ === "inputPeerChannel"));
        return { _: "messages.transcribedAudio", ...this.transcription(k!) };
      }
    }
    return undefined;
  }
  held: [Call, any][] = [];
  auto(c: Call): boolean {
    const q = c.q;
    switch (q._) {
      case "updates.getState": this.net.answer(c, { _: "updates.state", pts: this.pts, qts: 0, date: 1, seq: 0, unread_count: 0 }); return true;
      case "updates.getDifference": this.net.answer(c, { _: "updates.differenceEmpty", date: 1, seq: 0 }); return true;
      case "updates.getChannelDifference": this.net.answer(c, { _: "updates.channelDifferenceEmpty", final: true, pts: this.cpts }); return true;
      case "users.getUsers": this.net.answer(c, [this.about().users[0]]); return true;
      case "help.getConfig": this.net.error(c, 500, "LATER"); return true;
    }
    const x = this.reply(q);
    if (x === undefined) { this.broken = `an unexpected call: ${q._}`; this.net.error(c, 400, "METHOD_INVALID"); return true; }
    this.asked++;
    if (this.hold) this.held.push([c, x]);
    else if (this.refuse || x === null) this.net.error(c, 400, "REFUSED");
    else this.net.answer(c, x);
    return true;
  }
  updates(updates: any[]): any { return { _: "updates", updates, ...this.about(), date: 1, seq: 0 }; }
  push(v: any) { this.net.push(this.net.conns.filter((c) => c.isConnected).at(-1)!, [...this.net.keys.values()][0], v); }
  batch(updates: any[]) { this.push(this.updates(updates)); }
  tell(update: any) { this.n % 3 === 0 ? this.push({ _: "updateShort", update, date: 1 }) : this.batch([update]); }
  hear(u: any) {
    if (u.videoChat) {
      const x = u.videoChat;
      this.ev.push(x.id !== String(CALL) ? ["call?", JSON.stringify(x)] : ["call", x.type === "ended" ? ENDED : this.number(x.title, "v1")]);
    } else if (u.businessConnection) this.ev.push(["connection", ...this.connected(u.businessConnection)]);
    else if (u.voiceTranscription) {
      const x = u.voiceTranscription, k = String(x.text).split(" ")[0];
      this.ev.push(x.isCompleted && T[k] && Number(x.id) === 700 + 10 * Number(k[1]) + this.number(x.text, k) ? ["transcribed", k, this.number(x.text, k)] : ["transcribed?", JSON.stringify(x)]);
    }
  }
  number(s: any, k: string): any { const [a, b] = String(s).split(" "); return a === k ? Number(b) : `${s} for ${k}`; }
  connected(x: any) { return [x.id, x.user.id !== Number(U.u1) ? JSON.stringify(x) : !x.isEnabled ? DISABLED : x.canReply ? 1 : 2]; }
  ask(k: string): Promise<any> {
    const c = this.client;
    switch (k[0]) {
      case "q": return c.sendCallbackQuery(Number(BOT), ...Q[k]).then((x: any) => ["is", k, this.number(x.text, k), false]);
      case "i": return c.sendInlineQuery(Number(I[k][0]), I[k][1], { query: I[k][2], offset: I[k][3] }).then((x: any) => ["is", k, x.nextOffset === k && x.results.length === 1 && x.results[0].title === k ? Number(x.results[0].id) : JSON.stringify(x), false]);
      case "u": return c.getChat(Number(U[k])).then((x: any) => ["is", k, x.birthday?.month === Number(k[1]) && x.id === Number(U[k]) ? x.birthday.day : JSON.stringify(x), false]);
      case "g": return this.n % 2 ? c.getChatAdministrators(-Number(G)).then((x: any) => ["is", k, x.length, false]) : c.getChatMembers(-Number(G)).then((x: any) => ["is", k, x.length - 1, false]);
      case "c": return c.getChat(CC).then((x: any) => ["is", k, x.photo.width - 100, x.videoChatId === String(CALL)]);
      case "b": return c.getBusinessConnection(k).then((x: any) => { const [id, w] = this.connected(x); return id === k ? ["is", k, w, false] : ["another", id]; });
      case "t": return c.transcribeVoice(T[k][1], T[k][2]).then((x: any) => { const v = Number(x.id) - 700 - 10 * Number(k[1]); return ["is", k, x.text === (x.isCompleted ? `${k} ${v}` : "") ? v : JSON.stringify(x), x.isCompleted]; });
    }
    throw new Error(k);
  }
  run(p: Promise<any>) { p.then((v) => this.results.push(v), (e: any) => this.results.push(/REFUSED|not found/.test(String(e)) ? ["failed"] : ["failed", String(e?.stack ?? e)])); }
  news(k: string, how: string): any {
    const user_id = k[0] === "u" ? U[k] : U.u1;
    switch (how) {
      case "user": return { _: "updateUser", user_id };
      case "name": return { _: "updateUserName", user_id, first_name: `n${user_id}`, last_name: "", usernames: [] };
      case "chat": return { _: "updateChat", chat_id: G };
      case "members": return { _: "updateChatParticipants", participants: this.participants() };
      case "joined": return { _: "updateChatParticipantAdd", chat_id: G, user_id: U.u2, inviter_id: SELF, date: 1, version: this.truth[k] };
      case "left": return { _: "updateChatParticipantDelete", chat_id: G, user_id: U.u2, version: this.truth[k] };
      case "admin": return { _: "updateChatParticipantAdmin", chat_id: G, user_id, is_admin: this.truth[k] === 2, version: this.truth[k] };
      case "channel": return { _: "updateChannel", channel_id: C };
      case "b": return this.connection(k);
    }
  }
  async step(a: any) {
    this.ev = [];
    this.results = [];
    this.asked = 0;
    this.n++;
    this.refuse = a.ok === false;
    const k: string = a.k;
    switch (a.n) {
      case "Change": this.truth[k] = a.w; break;
      case "Tell": this.truth[k] = a.w; this.tell(this.news(k, a.how)); break;
      case "Connect": this.truth[k] = a.w; this.tell(this.news(k, "b")); break;
      case "Ask": this.run(this.ask(k)); break;
      case "AskAll": {
        const ids = a.s.map((x: string) => String(E[x]));
        this.run(this.client.getCustomEmojiStickers(ids.length === 1 && this.n % 2 ? ids[0] : ids).then((s: any[]) => s.map((x) => { const e = Object.keys(E).find((y) => String(E[y]) === x.customEmojiId) ?? "?"; return [e, this.number(x.emoji, e)]; }).sort()));
        break;
      }
      case "Race": {
        this.hold = true;
        this.run(this.ask(k));
        await quiet();
        this.hold = false;
        const h = this.held.splice(0);
        if (h.length !== 1) throw new Error(`${h.length} calls`);
        this.net.answer(...h[0]);
        this.truth[k] = a.w;
        this.tell(this.news(k, a.how));
        break;
      }
      case "Call":
        this.truth.v1 = a.w;
        if (a.how !== "lost") this.tell({ _: "updateGroupCall", ...(a.how === "named" ? { peer: { _: "peerChannel", channel_id: C } } : {}), call: this.call() });
        break;
      case "AskCall": this.run(this.client.getVideoChat(String(CALL)).then((x: any) => ["is", "v1", this.number(x.title, "v1"), false])); break;
      case "Voice": this.truth[k]++; this.done[k] = false; this.tell({ _: k === "t2" ? "updateEditChannelMessage" : "updateEditMessage", message: this.voice(k), pts: k === "t2" ? ++this.cpts : ++this.pts, pts_count: 1 }); break;
      case "Ready": {
        this.done[k] = true;
        // the server tells those who asked
        if (!a.lost && this.known[k] === this.truth[k]) this.tell({ _: "updateTranscribedAudio", peer: T[k][0], msg_id: T[k][2], ...this.transcription(k) });
        break;
      }
      case "Wait": await tick(this.o.wait); break;
      case "Restart":
        this.client.disconnect().catch((e: any) => this.broken = String(e));
        await quiet();
        this.open();
        await this.up();
        break;
    }
    await quiet();
    if (!a.n.startsWith("Ask")) await tick(10); // one may be asked twice at the same moment
    if (a.n === "Ask" && k[0] === "t" && this.results[0]?.[0] === "is") this.known[k] = this.truth[k];
    if (this.net.problems.length) this.broken = this.net.problems[0];
    const asking = ["Ask", "AskAll", "Race", "AskCall"].includes(a.n);
    if (asking ? this.results.length !== 1 : this.asked) this.broken ??= `${this.results.length} answers, ${this.asked} calls`;
    if (this.broken) throw new Error(this.broken);
    return [...this.ev, ...this.results, ...(asking ? [this.asked] : [])];
  }
  known: Record<string, number> = {};
  async end() { this.client.disconnect().catch(() => {}); await quiet(); }
}
