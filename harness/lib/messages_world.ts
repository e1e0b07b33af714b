// A whole client in a private chat, a group and a channel whose messages come, change and go.
import { Client } from "/repo/client/6_client.ts";
import { StorageLocalStorage, StorageMemory } from "/repo/2_storage.ts";
import { SEED } from "./check.ts";
import { rng } from "./graph.ts";
import { type Call, Net, quiet, tick } from "./client_world.ts";
import { clearTimers, installVirtualTime } from "./vt.ts";

const SELF = 1000n, U = 777001n, G = 42n, C = 1_234_567n;
const ID: Record<string, number> = { a1: 10, a2: 11, b1: 12, b2: 13, b3: 14, c1: 10, c2: 11, c3: 12 };
const CHAT: Record<string, number> = { a: Number(U), b: -Number(G), c: -1_000_000_000_000 - Number(C) };
const EMOJI = "\u{1F44D}";
const POLL: Record<string, bigint> = Object.fromEntries(Object.keys(ID).map((m, i) => [m, 90_000_000_000n + BigInt(i)]));
const OPTION = [48, 49, 50].map((x) => new Uint8Array([x])), TAKEN = 1; // the option all votes are for
let lives = 0;
type T = [number, number, boolean, number];

export class MessagesDriver {
  net!: Net;
  client: any;
  storage: any;
  ev: any[] = [];
  results: any[] = [];
  n = 0;
  pts = 10;
  cpts = 5;
  truth: Record<string, T | null> = {};
  missed: Record<string, [string, string][]> = { m: [], c: [] };
  how: Record<string, string> = {};
  broken: string | null = null;
  fail = 0;
  constructor(public o: { polls: string[]; out: string[]; reply: Record<string, string>; persist?: boolean; sure?: boolean; outToo?: boolean }) {}
  static async make(o: MessagesDriver["o"]) {
    installVirtualTime(1_700_000_000_000 + ++lives * 3600_000);
    clearTimers();
    localStorage.clear();
    const d = new MessagesDriver(o);
    d.net = new Net(rng(SEED * 97 + lives));
    d.net.auto = (c) => d.auto(c);
    const key = d.net.addKey("2", Number(SELF));
    key.inited = false;
    d.storage = o.persist ? new StorageLocalStorage("m") : new StorageMemory();
    d.open();
    await d.client.storage.initialize();
    await d.client.storage.auth.update((v: any) => { v.authKey = key.key.key; v.dc = "2"; v.userId = Number(SELF); v.isBot = false; });
    await d.client.storage.setServerSalt(key.salt);
    await d.up();
    d.batch([{ _: "updateConfig" }]);
    await quiet();
    await quiet();
    d.ev = [];
    return d;
  }
  open() {
    const o = this.o;
    this.client = new Client({ ...this.net.params(), storage: this.storage, persistCache: !!o.persist, guaranteeUpdateDelivery: !!o.sure, outgoingMessages: !!o.outToo, defaultHandlers: false, isPerfectForwardSecrecyEnabled: false, dropPendingUpdates: false } as any);
    const of = this.client;
    this.client.use(async (ctx: any, next: any) => {
      if (of !== this.client) return;
      await this.hear(ctx);
      return next();
    });
  }
  async up() {
    let st = "";
    this.client.start().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
    for (let i = 0; i < 60 && !st; i++) await quiet();
    if (st !== "up") throw new Error(`no connection: ${st}`);
  }
  about() {
    return {
      users: [{ _: "user", id: U, access_hash: 7n, first_name: "someone" }, { _: "user", id: SELF, access_hash: 5n, first_name: "me", self: true }],
      chats: [{ _: "chat", id: G, title: "group", photo: { _: "chatPhotoEmpty" }, participants_count: 3, date: 1, version: 1 }, { _: "channel", id: C, title: "channel", access_hash: 9n, photo: { _: "chatPhotoEmpty" }, date: 1, broadcast: true }],
    };
  }
  peer(m: string): any { return m[0] === "a" ? { _: "peerUser", user_id: U } : m[0] === "b" ? { _: "peerChat", chat_id: G } : { _: "peerChannel", channel_id: C }; }
  reactions(t: T, min = false): any {
    const results = t[1] > 0 ? [{ _: "reactionCount", reaction: { _: "reactionEmoji", emoticon: EMOJI }, count: t[1], ...(t[2] && !min ? { chosen_order: 0 } : {}) }] : [];
    return { _: "messageReactions", results, ...(min ? { min: true } : {}) };
  }
  poll(m: string, t: T): any { return { _: "poll", id: POLL[m], hash: 0n, ...(t[0] > 1 ? { closed: true } : {}), question: { _: "textWithEntities", text: m, entities: [] }, answers: OPTION.map((option, i) => ({ _: "pollAnswer", text: { _: "textWithEntities", text: `o${i}`, entities: [] }, option })) }; }
  votes(t: T, min = false): any {
    return { _: "pollResults", ...(min ? { min: true } : {}), total_voters: t[1], results: OPTION.map((option, i) => ({ _: "pollAnswerVoters", option, voters: i !== TAKEN ? 0 : t[1], recent_voters: [], ...(i === TAKEN && t[2] && !min ? { chosen: true } : {}) })) };
  }
  from(m: string): any { return this.o.out.includes(m) ? { _: "peerUser", user_id: SELF } : m[0] === "c" ? undefined : { _: "peerUser", user_id: U }; }
  // the message as the server has it
  message(m: string, t = this.truth[m]!): any {
    const out = this.o.out.includes(m), re = this.o.reply[m];
    return {
      _: "message", id: ID[m], peer_id: this.peer(m), ...(m[0] === "c" ? { post: true, views: t[3], forwards: 0 } : { from_id: this.from(m) }), ...(out ? { out: true } : {}), date: 1000 + ID[m],
      message: this.o.polls.includes(m) ? "" : `${m} ${t[0]}`, ...(this.o.polls.includes(m) ? {} : { entities: [{ _: "messageEntityBold", offset: 0, length: 2 }] }), ...(t[0] > 1 ? { edit_date: 2000 + t[0] } : {}),
      ...(re ? { reply_to: { _: "messageReplyHeader", reply_to_msg_id: ID[re] } } : {}),
      ...(this.o.polls.includes(m) ? { media: { _: "messageMediaPoll", poll: this.poll(m, t), results: this.votes(t) } } : t[1] ? { reactions: this.reactions(t) } : {}),
    };
  }
  chatOf(peer: any): string { return peer._ === "inputPeerUser" ? "a" : peer._ === "inputPeerChat" ? "b" : "c"; }
  named(chat: string, id: number): string { return Object.keys(ID).find((m) => (chat === "c" ? m[0] === "c" : m[0] !== "c") && ID[m] === id) ?? `${chat}?${id}`; }
  auto(c: Call): boolean {
    const q = c.q;
    switch (q._) {
      case "updates.getState": this.net.answer(c, { _: "updates.state", pts: this.pts, qts: 0, date: 1, seq: 0, unread_count: 0 }); return true;
      case "updates.getDifference": {
        const state = { _: "updates.state", pts: this.pts, qts: 0, date: 1, seq: 0, unread_count: 0 };
        const s = this.missed.m.splice(0);
        if (!s.length || q.pts === this.pts) this.net.answer(c, { _: "updates.differenceEmpty", date: 1, seq: 0 });
        else if (this.how.m === "too") this.net.answer(c, { _: "updates.differenceTooLong", pts: this.pts });
        else this.net.answer(c, { _: "updates.difference", new_messages: s.filter((x) => x[0] === "new").map((x) => this.message(x[1])), new_encrypted_messages: [], other_updates: this.others(s, this.pts), ...this.about(), state });
        return true;
      }
      case "updates.getChannelDifference": {
        const s = this.missed.c.splice(0);
        if (!s.length) this.net.answer(c, { _: "updates.channelDifferenceEmpty", final: true, pts: this.cpts });
        else if (this.how.c === "too") this.net.answer(c, { _: "updates.channelDifferenceTooLong", final: true, dialog: { _: "dialog", peer: this.peer("c"), top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: this.cpts }, messages: [], ...this.about() });
        else this.net.answer(c, { _: "updates.channelDifference", final: true, pts: this.cpts, new_messages: s.filter((x) => x[0] === "new").map((x) => this.message(x[1])), other_updates: this.others(s, this.cpts), ...this.about() });
        return true;
      }
      case "users.getUsers": this.net.answer(c, [this.about().users[1]]); return true;
      case "channels.getMessages": case "messages.getMessages": {
        const messages = q.id.map((x: any) => {
          const m = this.named(q._ === "channels.getMessages" ? "c" : "a", x.id);
          return this.truth[m] ? this.message(m) : { _: "messageEmpty", id: x.id };
        });
        this.net.answer(c, q._ === "channels.getMessages" ? { _: "messages.channelMessages", pts: this.cpts, count: messages.length, messages, topics: [], ...this.about() } : { _: "messages.messages", messages, topics: [], ...this.about() });
        return true;
      }
      case "messages.getHistory": {
        const chat = this.chatOf(q.peer), messages = Object.keys(ID).filter((m) => m[0] === chat && this.truth[m]).map((m) => this.message(m)).reverse();
        this.net.answer(c, chat === "c" ? { _: "messages.channelMessages", pts: this.cpts, count: messages.length, messages, topics: [], ...this.about() } : { _: "messages.messages", messages, topics: [], ...this.about() });
        return true;
      }
      case "messages.sendMessage": {
        const m = String(q.message).split(" ")[0];
        this.truth[m] = [1, 0, false, 0];
        if (m[0] !== "c" && !this.o.reply[m] && this.n % 2) {
          this.net.answer(c, { _: "updateShortSentMessage", out: true, id: ID[m], date: 1000 + ID[m], pts: ++this.pts, pts_count: 1, entities: this.message(m).entities });
        } else this.net.answer(c, this.updates([{ _: "updateMessageID", id: ID[m], random_id: q.random_id }, this.change("New", m)]));
        return true;
      }
      case "messages.editMessage": {
        const m = this.named(this.chatOf(q.peer), q.id);
        this.truth[m]![0]++;
        this.net.answer(c, this.updates([this.change("Edit", m)]));
        return true;
      }
      case "messages.deleteMessages": case "channels.deleteMessages": {
        for (const id of q.id) this.gone(this.named(q._[0] === "c" ? "c" : "a", id));
        this.net.answer(c, { _: "messages.affectedMessages", pts: q._[0] === "c" ? this.cpts : this.pts, pts_count: q.id.length });
        return true;
      }
      case "messages.sendReaction": {
        const m = this.named(this.chatOf(q.peer), q.msg_id), t = this.truth[m]!, mine = !!q.reaction?.length;
        t[1] += mine === t[2] ? 0 : mine ? 1 : -1;
        t[2] = mine;
        this.net.answer(c, this.updates([{ _: "updateMessageReactions", peer: this.peer(m), msg_id: ID[m], reactions: this.reactions(t) }]));
        return true;
      }
      case "messages.sendVote": {
        const m = this.named(this.chatOf(q.peer), q.msg_id), t = this.truth[m]!, mine = !!q.options.length;
        if (mine && (q.options.length !== 1 || q.options[0][0] !== OPTION[TAKEN][0])) this.broken = `a vote for ${q.options}`;
        t[1] += mine === t[2] ? 0 : mine ? 1 : -1;
        t[2] = mine;
        this.net.answer(c, this.updates([{ _: "updateMessagePoll", poll_id: POLL[m], results: this.votes(t), ...(this.n % 2 ? { poll: this.poll(m, t) } : {}) }]));
        return true;
      }
      default: this.broken = `an unexpected call: ${q._}`; this.net.error(c, 400, "METHOD_INVALID"); return true;
    }
  }
  others(s: [string, string][], pts: number): any[] {
    return s.filter((x) => x[0] !== "new").map(([k, m]) => k === "edit" ? { _: m[0] === "c" ? "updateEditChannelMessage" : "updateEditMessage", message: this.message(m), pts, pts_count: 0 } : { ...(m[0] === "c" ? { _: "updateDeleteChannelMessages", channel_id: C } : { _: "updateDeleteMessages" }), messages: [ID[m]], pts, pts_count: 0 });
  }
  gone(m: string) { this.truth[m] = null; this.next(m); this.missed[m[0] === "c" ? "c" : "m"].push(["del", m]); }
  next(m: string, n = 1) { return m[0] === "c" ? this.cpts += n : this.pts += n; }
  change(k: "New" | "Edit", m: string): any { return { _: `update${k}${m[0] === "c" ? "Channel" : ""}Message`, message: this.message(m), pts: this.next(m), pts_count: 1 }; }
  updates(updates: any[]): any { return { _: "updates", updates, ...this.about(), date: 1, seq: 0 }; }
  conn() { return this.net.conns.filter((c) => c.isConnected).at(-1)!; }
  push(v: any) { this.net.push(this.conn(), [...this.net.keys.values()][0], v); }
  batch(updates: any[]) { this.push(this.updates(updates)); }
  tell(update: any) { this.n % 3 === 0 ? this.push({ _: "updateShort", update, date: 1 }) : this.batch([update]); }
  // what a message shows
  view(x: any): [string, ...T] | any[] {
    const chat = Object.keys(CHAT).find((k) => CHAT[k] === x.chat?.id);
    if (!chat) return [`in chat ${x.chat?.id}`];
    const m = this.named(chat, x.id);
    const from = this.from(m);
    if (x.isOutgoing !== this.o.out.includes(m) || x.date !== 1000 + ID[m] || (m[0] !== "c" && x.from?.id !== Number(from.user_id))) return [m, `out ${x.isOutgoing} date ${x.date} from ${x.from?.id}`];
    const re = this.o.reply[m];
    if (x.replyToMessageId !== (re ? ID[re] : undefined)) return [m, `replies to ${x.replyToMessageId}`];
    if (x.poll) {
      const o = x.poll.options[TAKEN], p = x.poll.options[0];
      if (x.poll.question !== m || x.poll.totalVoterCount !== o.voterCount || p.voterCount || p.isChosen) return [m, JSON.stringify(x.poll)];
      return [m, x.poll.isClosed ? 2 : 1, o.voterCount, o.isChosen, x.views ?? 0];
    }
    const [w, v] = String(x.text).split(" ");
    if (w !== m || x.entities?.length !== 1 || x.entities[0].type !== "bold" || x.entities[0].length !== 2 || (x.editDate ?? 2000) !== (Number(v) > 1 ? 2000 + Number(v) : 2000)) return [m, `${x.text} ${x.editDate} ${JSON.stringify(x.entities)}`];
    return [m, Number(v), x.reactions?.[0]?.count ?? 0, x.reactions?.[0]?.isChosen ?? false, x.views ?? 0];
  }
  heard(kind: string, x: any) {
    this.ev.push([kind, ...this.view(x), this.o.reply[this.view(x)[0]] ? (x.replyToMessage ? this.view(x.replyToMessage)[1] : 0) : 9]);
  }
  async hear(ctx: any) {
    const u = ctx.update;
    if (u.type === "update" && this.fail === 3 && String(u.update._).startsWith("updateDelete")) { this.fail = 0; throw new Error("a handler's failure"); }
    if (u.message) this.heard("new", u.message);
    else if (u.editedMessage) this.heard("edited", u.editedMessage);
    else if (u.poll) {
      const o = u.poll.options[TAKEN], p = u.poll.options[0], m = u.poll.question;
      this.ev.push(u.poll.totalVoterCount !== o.voterCount || p.voterCount || u.poll.id !== String(POLL[m]) ? ["poll?", JSON.stringify(u.poll)] : ["poll", m, o.voterCount, o.isChosen, 0]);
    } else if (u.messageInteractions) {
      const x = u.messageInteractions, chat = Object.keys(CHAT).find((k) => CHAT[k] === x.chatId)!;
      this.ev.push(["marks", this.named(chat, x.messageId), x.reactions[0]?.count ?? 0, x.reactions[0]?.isChosen ?? false, x.views]);
    } else if (u.deletedMessages) {
      const kind = u.isScheduled ? "scheduled" : u.businessConnectionId ? "business" : u.isEphemeral ? "ephemeral" : null;
      const s: any[] = [];
      for (const { chatId, messageId } of u.deletedMessages) {
        const m = this.named(Object.keys(CHAT).find((k) => CHAT[k] === chatId)!, messageId);
        if (kind) { this.ev.push(["elsewhere", kind, m]); continue; }
        const x = await this.client.getMessage(chatId, messageId);
        s.push([m, x === null ? 0 : this.view(x)[1]]);
      }
      if (!kind) this.ev.push(["gone", s]);
      if (this.fail) { this.fail--; throw new Error("a handler's failure"); }
    }
  }
  run(p: Promise<any>, f: (v: any) => any) { p.then((v) => this.results.push(f(v)), (e: any) => this.results.push(["failed", String(e)])); }
  answer(x: any, m: string) { if (!x) return ["none"]; const v = this.view(x); return v[0] === m ? ["is", ...v.slice(1)] : ["another", ...v]; }
  async step(a: any) {
    this.ev = [];
    this.results = [];
    this.n++;
    const m: string = a.m, chat = m ? CHAT[m[0]] : 0;
    switch (a.n) {
      case "New": {
        this.truth[m] = [1, 0, false, 0];
        const x = this.message(m), common = { id: x.id, message: x.message, date: x.date, entities: x.entities, reply_to: x.reply_to, ...(x.out ? { out: true } : {}), pts_count: 1 };
        if (x.media || this.n % 3 || m[0] === "c") this.tell(this.change("New", m));
        else if (m[0] === "a") this.push({ _: "updateShortMessage", user_id: U, pts: this.next(m), ...common });
        else this.push({ _: "updateShortChatMessage", from_id: x.from_id.user_id, chat_id: G, pts: this.next(m), ...common });
        break;
      }
      case "Edit": this.truth[m]![0]++; this.tell(this.change("Edit", m)); break;
      case "Marks": {
        const t = this.truth[m]!;
        t[1] = a.c; t[2] = a.mine;
        if (a.how === "lost") break;
        if (this.o.polls.includes(m)) this.tell({ _: "updateMessagePoll", poll_id: POLL[m], results: this.votes(t, a.how === "min") });
        else this.tell({ _: "updateMessageReactions", peer: this.peer(m), msg_id: ID[m], reactions: this.reactions(t, a.how === "min") });
        break;
      }
      case "Views": this.tell({ _: "updateChannelMessageViews", channel_id: C, id: ID[m], views: ++this.truth[m]![3] }); break;
      case "Delete": {
        for (const x of a.s) this.truth[x] = null;
        this.fail = a.fail;
        this.tell({ ...(a.s[0][0] === "c" ? { _: "updateDeleteChannelMessages", channel_id: C } : { _: "updateDeleteMessages" }), messages: a.s.map((x: string) => ID[x]), pts: this.next(a.s[0], a.s.length), pts_count: a.s.length });
        break;
      }
      case "Elsewhere":
        if (a.kind === "scheduled") this.tell({ _: "updateDeleteScheduledMessages", peer: this.peer(m), messages: [ID[m]] });
        else if (a.kind === "business") this.batch([{ _: "updateBotDeleteBusinessMessage", connection_id: "k", peer: this.peer(m), messages: [ID[m]], qts: 0 }]);
        else this.tell({ _: "updateDeleteEphemeralMessages", peer: this.peer(m), receiver_id: SELF, ids: [ID[m]] });
        break;
      case "Get": this.run(this.client.getMessage(chat, ID[m]), (x) => this.answer(x, m)); break;
      case "Astray": this.run(this.client.getMessage(CHAT[m[0] === "a" ? "b" : "a"], ID[m]), (x) => this.answer(x, m)); break;
      case "Both": this.run(this.client.getMessages(chat, [ID[m], ID[a.k]]), (x) => { for (const k of [m, a.k]) this.results.push(this.answer(x.find((y: any) => y.id === ID[k]), k)); return null; }); break;
      case "History": this.run(this.client.getHistory(CHAT[a.c]), (x) => ["history", x.map((y: any) => this.view(y)).reverse()]); break;
      case "Send": this.run(this.client.sendMessage(chat, `${m} 1`, { entities: [{ type: "bold", offset: 0, length: 2 }], ...(this.o.reply[m] ? { replyTo: { type: "message", messageId: ID[this.o.reply[m]] } } : {}) }), (x) => this.answer(x, m)); break;
      case "EditOurs": this.run(this.client.editMessageText(chat, ID[m], `${m} ${this.truth[m]![0] + 1}`, { entities: [{ type: "bold", offset: 0, length: 2 }] }), (x) => this.answer(x, m)); break;
      case "DeleteOurs": this.run(this.client.deleteMessages(chat, [ID[m]]), () => ["done"]); break;
      case "MarkOurs": {
        const c = this.client, r = { type: "emoji", emoji: EMOJI };
        this.run(this.o.polls.includes(m) ? (a.mine ? c.vote(chat, ID[m], [TAKEN]) : c.retractVote(chat, ID[m])) : a.mine ? c.addReaction(chat, ID[m], r) : c.removeReaction(chat, ID[m], r), () => ["done"]);
        break;
      }
      case "Miss":
        if (a.k === "del") this.gone(m);
        else { if (a.k === "new") this.truth[m] = [1, 0, false, 0]; else this.truth[m]![0]++; this.next(m); this.missed[m[0] === "c" ? "c" : "m"].push([a.k, m]); }
        break;
      case "Catch":
        this.how[a.b] = a.way;
        if (a.b === "m") this.push({ _: "updatesTooLong" });
        else this.batch([{ _: "updateChannelTooLong", channel_id: C, ...(this.n % 2 ? { pts: this.cpts } : {}) }]);
        break;
      case "Restart":
        this.client.disconnect().catch((e: any) => this.broken = String(e));
        await quiet();
        if (this.o.persist && this.n % 2) this.open();
        await this.up();
        break;
    }
    await quiet();
    await tick(10);
    if (this.net.problems.length) this.broken = this.net.problems[0];
    if (this.broken) throw new Error(this.broken);
    return [...this.ev, ...this.results.filter((x) => x !== null)];
  }
  async end() { this.client.disconnect().catch(() => {}); await quiet(); }
}
