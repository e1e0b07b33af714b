import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { advance, clearTimers, installVirtualTime, setClock, settle, virtualNow } from "../lib/vt.ts";
import { type BackendName, BACKENDS, makeBackend } from "../lib/backends.ts";
import { equalTl, Gen, genBytes } from "../lib/tl_gen.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { StorageMemory } from "/repo/2_storage.ts";
import { Api } from "/repo/2_tl.ts";

type Ops = any;
interface Kind { id: (d: Driver, i: number) => any; gen: (d: Driver, i: number, x: number) => any; put: (o: Ops, id: any, v: any) => any; get: (o: Ops, id: any) => any; rm?: (o: Ops, id: any) => any; clear?: (o: Ops) => any; dated?: boolean; files?: boolean; single?: boolean }
const chat = (d: Driver, i: number) => d.chats[i];
const num = (d: Driver, i: number) => d.nums[i];
const tl = (...names: string[]) => (d: Driver) => d.gen.object(d.r.pick(names));
const K: Record<string, Kind> = {
  fullChat: { id: chat, gen: tl("userFull", "channelFull", "chatFull"), put: (o, i, v) => o.setFullChat(i, v), get: (o, i) => o.getFullChat(i), rm: (o, i) => o.setFullChat(i, null), clear: (o) => o.deleteFullChats() },
  groupCall: { id: num, gen: tl("groupCall"), put: (o, i, v) => o.setGroupCall(i, v), get: (o, i) => o.getGroupCall(i), rm: (o, i) => o.setGroupCall(i, null), clear: (o) => o.deleteGroupCalls() },
  groupCallAccessHash: { id: num, gen: (d) => d.gen.primitive("long"), put: (o, i, v) => o.setGroupCallAccessHash(i, v), get: (o, i) => o.getGroupCallAccessHash(i), rm: (o, i) => o.setGroupCallAccessHash(i, null) },
  poll: { id: num, gen: tl("poll"), put: (o, i, v) => o.setPoll(i, v), get: (o, i) => o.getPoll(i), clear: (o) => o.deletePolls() },
  pollResults: { id: num, gen: tl("pollResults"), put: (o, i, v) => o.setPollResults(i, v), get: (o, i) => o.getPollResults(i), clear: (o) => o.deletePollResults() },
  customEmoji: { id: num, gen: tl("document"), put: (o, i, v) => o.setCustomEmojiDocument(i, v), get: (o, i) => o.getCustomEmojiDocument(i), clear: (o) => o.deleteCustomEmojiDocuments(), dated: true },
  businessConnection: { id: (d, i) => d.strings[i], gen: tl("botBusinessConnection"), put: (o, i, v) => o.setBusinessConnection(i, v), get: (o, i) => o.getBusinessConnection(i), rm: (o, i) => o.setBusinessConnection(i, null), clear: (o) => o.deleteBusinessConnections() },
  inlineQueryAnswer: { id: (d, i) => d.queries[i], gen: (d) => [d.gen.object("messages.botResults"), new Date(d.r.int(2_000_000_000) * 1000)], put: (o, i, v) => o.setInlineQueryAnswer(...i, ...v), get: (o, i) => o.getInlineQueryAnswer(...i), clear: (o) => o.deleteInlineQueryAnswers() },
  callbackQueryAnswer: { id: (d, i) => d.callbacks[i], gen: tl("messages.botCallbackAnswer"), put: (o, i, v) => o.setCallbackQueryAnswer(...i, v), get: (o, i) => o.getCallbackQueryAnswer(...i), clear: (o) => o.deleteCallbackQueryAnswers(), dated: true },
  stickerSetName: { id: (d, i) => [d.nums[d.r0 ? i : 0], d.nums[d.r0 ? 0 : i]], gen: (d) => d.gen.primitive("string"), put: (o, i, v) => o.updateStickerSetName(...i, v), get: (o, i) => o.getStickerSetName(...i), clear: (o) => o.deleteStickerSetNames(), dated: true },
  voiceTranscription: { id: num, gen: (d, i) => ({ id: String(d.nums[i]), isCompleted: !!d.r.int(2), text: d.gen.primitive("string") }), put: (o, _i, v) => o.setVoiceTranscription(v), get: (o, i) => o.getVoiceTranscription(i), clear: (o) => o.deleteVoiceTranscriptions() },
  voiceTranscriptionReference: { id: (d, i) => d.voices[i], gen: (d) => d.gen.primitive("long"), put: (o, i, v) => o.setVoiceTranscriptionReference(...i, v), get: (o, i) => o.getVoiceTranscriptionReference(...i), clear: (o) => o.deleteVoiceTranscriptionReferences() },
  file: {
    id: num, gen: (d) => [d.r.pick([1, 512 * 1024, 1 << 20]), Array.from({ length: 1 + d.r.int(12) }, () => genBytes(d.r))],
    put: async (o, i, [size, parts]) => { for (const [n, p] of parts.entries()) await o.saveFilePart(i, n, p); await o.setFilePartCount(i, parts.length, size); },
    get: async (o, i) => { const f = await o.getFile(i); if (!f) return null; const parts = []; for await (const p of o.iterFileParts(i, f[0], 0)) parts.push(p); return [f[1], parts]; },
    clear: (o) => o.deleteFiles(), files: true,
  },
  serverSalt: { id: () => 0, gen: (d) => d.gen.primitive("long"), put: (o, _i, v) => o.setServerSalt(v), get: (o) => o.getServerSalt(), single: true },
  isPremium: { id: () => 0, gen: (_d, _i, x) => x === 1, put: (o, _i, v) => o.setIsPremium(v), get: (o) => o.getIsPremium(), single: true },
  state: { id: () => 0, gen: tl("updates.state"), put: (o, _i, v) => o.setState(v), get: (o) => o.getState(), single: true },
  authString: {
    id: () => 0, gen: (d) => ({ apiId: 1 + d.r.int(1e9), authKey: d.key(), dc: d.r.pick(["1", "2", "5", "2-test"]), isBot: !!d.r.int(2), userId: d.r.pick([1, 777000, 2 ** 31, 2 ** 40 + 1, 5_000_000_000]) }),
    put: async (o, _i, v) => { const s = new StorageOperations(new StorageMemory()); await s.initialize(); const { apiId, ...rest } = v; await s.auth.set({ ...rest, apiId: 0 }); await o.importAuthString(await s.exportAuthString(apiId)); },
    get: async (o) => {
      if (!(await o.auth.get())) return null;
      const s = new StorageOperations(new StorageMemory());
      await s.initialize();
      await s.importAuthString(await o.exportAuthString());
      const a = await o.auth.get(), b = await s.auth.get();
      if (!equalTl(a, b)) throw new Error("an exported string names another account");
      if (o.auth.authKeyId !== s.auth.authKeyId || o.auth.authKeyId === null) throw new Error("another key");
      return a;
    },
    single: true,
  },
};

const LONG = "long ".repeat(60);
// an identity of the same form as another, of which there are many
const another = (id: any, j: number): any => typeof id === "bigint" ? 900_000n + BigInt(j) : typeof id === "number" ? 900_000 + j : typeof id === "string" ? `one of many ${j}` : [another(id[0], j), ...id.slice(1)];
const MANY = 130;
let lives = 0;
class Driver {
  r = rng(SEED * 6151 + ++lives);
  gen = new Gen(this.r, Api.schema);
  r0 = this.r.int(2);
  b: any;
  o!: Ops;
  objs = new Map<string, { v: any; at: number }>();
  broken: string | null = null;
  chats = this.two([1, 2, 777000, 2 ** 40, -1, -2, -100, -1000000000001, -1000000000002, -1999999999999]);
  nums = this.two([0n, 1n, -1n, 2n, 255n, 256n, 1n << 32n, (1n << 63n) - 1n, -(1n << 63n), 10n, 100n]);
  strings = this.two([LONG + "1", LONG + "2", "", "a", "A", "ab", "a.b", "a b", "1", "é", "[1]", "\"", "\\", "n1", "__b"]);
  queries = this.near([this.r.pick([1, 5_000_000_000]), this.chats[0], this.r.pick(["", "q", "a.b", LONG + "1"]), this.r.pick(["", "10", LONG + "1"])], [[1, 2, 5_000_000_000], this.chats, ["", "q", "a.b", "10", "qq", LONG + "2"], ["", "10", "q", "1", LONG + "2"]]);
  callbacks = this.near([this.chats[0], this.r.pick([1, 2, 10, 2 ** 31 - 1]), this.r.pick(["", "q", "x.y", LONG + "1"])], [this.chats, [1, 2, 10, 11, 2 ** 31 - 1], ["", "q", "x.y", "Q", LONG + "2"]]);
  voices = this.near([this.chats[0], 5, new Date(1_700_000_000_000)], [this.chats, [5, 6, 51], [new Date(1_700_000_000_000), new Date(1_700_000_001_000)]]);
  boxes: bigint[] = this.two([-1n, 0n, 1n, 2n, 1000000001n, 5n, (1n << 63n) - 1n]);
  msgs = this.two([1, 2, 10, 11, 100, 2 ** 31 - 1]);
  mchats: number[];
  places: [number, number][];
  constructor(public backend: BackendName, public kinds: string[], public nc: number) {
    const basic = this.r.pick([[5, 6], [-5, 7], [-1, 1], [777000, -42]]);
    this.mchats = [...basic.slice(0, nc - 1), this.r.pick([-1000000000001, -1002222222222])];
    this.places = [[this.chats[0], 7], [this.chats[1], 7], [this.chats[0], 8]];
  }
  two<T>(xs: T[]): T[] { const a = this.r.pick(xs); let b = a; while (b === a) b = this.r.pick(xs); return [a, b]; }
  near(a: any[], alt: any[][]): any[][] { const b = [...a]; while (b.every((x, i) => equalTl(x, a[i]))) { const k = this.r.int(b.length); b[k] = this.r.pick(alt[k]); } return [a, b]; }
  key() { const k = new Uint8Array(256); for (let i = 0; i < 256; i++) k[i] = this.r.int(9) ? this.r.int(256) : 0; if (this.r.int(3) === 0) k.fill(0, 0, 200); return k; }
  static async make(b: BackendName, kinds: string[], nc: number) {
    installVirtualTime();
    clearTimers();
    setClock(1_700_000_000_000);
    const d = new Driver(b, kinds, nc);
    d.b = await makeBackend(b);
    await d.open(d.b.store);
    return d;
  }
  async open(store: any) { this.o = new StorageOperations(store); await this.o.initialize(); }
  // an object that is not yet any version of the same identity
  fresh(k: string, i: number, x: number) {
    for (let t = 0; t < 50; t++) { const v = K[k].gen(this, i, x); if (![...this.objs].some(([n, q]) => n.startsWith(`${k} ${i} `) && n !== `${k} ${i} ${x}` && equalTl(q.v, v))) return v; }
    throw new Error(`no other ${k}`);
  }
  async step(a: any) {
    advance(1 + this.r.int(5000));
    await settle();
    const o = this.o;
    switch (a.n) {
      case "Put": {
        const k = this.kinds[a.k - 1], v = this.fresh(k, a.i - 1, a.x);
        await K[k].put(o, K[k].id(this, a.i - 1), v);
        this.objs.set(`${k} ${a.i - 1} ${a.x}`, { v: structuredClone(v), at: virtualNow() });
        if (!this.many.has(k) && !K[k].single && !K[k].files && k !== "voiceTranscription" && this.r.int(12) === 0) { // and many others besides
          const v = this.fresh(k, a.i - 1, 0);
          for (let j = 0; j < MANY; j++) await K[k].put(o, another(K[k].id(this, 0), j), v);
          this.many.set(k, v);
        }
        break;
      }
      case "Remove": { const k = K[this.kinds[a.k - 1]]; await k.rm!(o, k.id(this, a.i - 1)); break; }
      case "Clear": this.lost(this.kinds[a.k - 1]); await K[this.kinds[a.k - 1]].clear!(o); break;
      case "PutMessage": {
        const c = this.mchats[a.c - 1], id = this.msgs[a.m - 1];
        const v = { ...this.gen.object(this.r.pick(["message", "messageService"])), id };
        this.objs.set(`msg ${a.c} ${a.m} ${a.x}`, { v: structuredClone(v), at: 0 });
        await o.setMessage(this.ch(a.c, c), id, v);
        if (!this.many.has("msg") && this.r.int(12) === 0) {
          for (let j = 0; j < MANY; j++) await o.setMessage(c, 900_000 + j, { ...v, id: 900_000 + j });
          this.many.set("msg", v);
          this.manyChat = c;
        }
        break;
      }
      case "RemoveMessage": await o.setMessage(this.ch(a.c, this.mchats[a.c - 1]), this.msgs[a.m - 1], null); break;
      case "ClearMessages": this.lost("msg"); await o.deleteMessages(); break;
      case "See": await o.addMinPeerReference(this.places[a.p - 1][0], this.chats[a.s - 1], this.places[a.p - 1][1]); break;
      case "Forget": await o.deleteMinPeerReferences(); break;
      case "Queue": {
        const v = this.gen.object(this.r.pick(["updateNewMessage", "updateUserTyping", "updateNewEncryptedMessage", "updateNewChannelMessage", "updateConfig", "updateDeleteMessages"]));
        for (const f of ["pts", "qts"]) if (f in v) v[f] = this.r.pick([0, 1, 5, 2 ** 31 - 1]);
        if (a.back) setClock(virtualNow() - this.r.int(100_000));
        this.queued[a.b - 1].push([a.x, structuredClone(v)]);
        await o.setUpdate(this.boxes[a.b - 1], v);
        break;
      }
      case "Take": { const f = await o.getFirstUpdate(this.boxes[a.b - 1]); this.queued[a.b - 1].shift(); if (f) await o.set(f[0], null); break; }
      case "Drop": await o.deleteUpdates(); this.queued = [[], []]; break;
      case "Reopen": if (this.backend === "memory") break; await o.commit(true); await this.open(await this.b.reopen()); break;
      case "Reset": for (const k of [...this.many.keys()]) this.lost(k); await o.reset(); this.queued = [[], []]; break;
    }
    await settle();
    this.broken ??= await this.others();
    return this.broken ?? await this.seen();
  }
  queued: [number, any][][] = [[], []];
  many = new Map<string, any>();
  none = new Set<string>();
  manyChat = 0;
  lost(k: string) { if (this.many.delete(k)) this.none.add(k); }
  // one of the many others is as it was stored; of those cleared, none is left
  async others(): Promise<string | null> {
    const get = async (k: string, j: number) => {
      if (k === "msg") return await this.o.getMessage(this.manyChat, 900_000 + j);
      const g = await K[k].get(this.o, another(K[k].id(this, 0), j));
      return g && K[k].dated ? g[0] : g;
    };
    for (const [k, v] of this.many) { const j = this.r.int(MANY), g = await get(k, j); if (!equalTl(g, k === "msg" ? { ...v, id: 900_000 + j } : v)) return `another ${k} changed`; }
    for (const k of this.none) {
      if (this.many.has(k)) continue;
      for (let j = 0; j < MANY; j++) { const g = await get(k, j); if (g !== null && g !== undefined) return `another ${k} is left`; }
    }
    this.none.clear();
    return null;
  }
  ch(_i: number, c: number) { return c; }
  async seen() {
    const o = this.o, v: any[] = [], m: any[] = [], ref: any[] = [], last: any[] = [], q: any[] = [];
    for (const k of this.kinds) {
      const row: any[] = [];
      for (let i = 0; i < (K[k].single ? 1 : 2); i++) {
        let g = await K[k].get(o, K[k].id(this, i)), at: any = null;
        if (g === null || g === undefined) { row.push(0); continue; }
        if (K[k].dated) { at = g[1]; g = g[0]; }
        const hit = [...this.objs].find(([n, x]) => n.startsWith(`${k} ${i} `) && equalTl(x.v, g));
        if (!hit) row.push(`another object: ${JSON.stringify(g, (_, x) => typeof x === "bigint" ? `${x}n` : x instanceof Uint8Array ? [...x] : x)?.slice(0, 200)}`);
        else if (K[k].dated && at?.getTime?.() !== hit[1].at) row.push(`stored at ${at}`);
        else row.push(Number(hit[0].split(" ")[2]));
      }
      v.push(row);
    }
    for (let c = 1; c <= this.nc; c++) {
      const row: any[] = [];
      for (let i = 1; i <= 2; i++) {
        const g = await o.getMessage(this.mchats[c - 1], this.msgs[i - 1]);
        const hit = g && [...this.objs].find(([n, x]) => n.startsWith(`msg ${c} ${i} `) && equalTl(x.v, g));
        row.push(g === null ? 0 : hit ? Number(hit[0].split(" ")[3]) : "another message");
      }
      m.push(row);
    }
    if (this.nc) for (let i = 0; i < 2; i++) { const c = await o.getMessageChat(this.msgs[i]); ref.push(c === null ? 0 : this.mchats.indexOf(c) + 1); }
    if (this.spots) for (let i = 0; i < 2; i++) { const p = await o.getLastMinPeerReference(this.chats[i]); last.push(p === null ? 0 : this.places.findIndex((x) => x[0] === p.chatId && x[1] === p.messageId) + 1 || "another place"); }
    if (this.boxed) {
      const ids = await o.getUpdateBoxIds();
      for (let i = 0; i < 2; i++) {
        const f = await o.getFirstUpdate(this.boxes[i]), w = this.queued[i][0];
        q.push(f === null ? 0 : w && equalTl(f[1], w[1]) ? w[0] : "another update");
        if (ids.has(this.boxes[i]) !== this.queued[i].length > 0) this.broken = "the boxes are listed wrong";
      }
      if ([...ids].some((x) => !this.boxes.includes(x))) this.broken = "a box nothing was stored in";
    }
    return this.broken ?? { v, m, ref, last, q };
  }
  spots = false;
  boxed = false;
  async end() { clearTimers(); await this.b.close(); return this.broken; }
}

await main("K03", ["Operations on one storage are awaited one after another (the backends' own concurrency is K01's, the caches' is K02's).", "Outside channels a message number belongs to one chat at a time.", "IndexedDB is a stand-in written for these checks; it alone keeps files."], async (c) => {
  const base = { NK: 0, NI: 1, MaxV: 2, Rm: "{}", Cl: "{}", NC: 0, NM: 0, NS: 0, NB: 0, MaxQ: 0, MaxLife: 1 };
  const cfg = (k: any) => ({ module: "TypedStore", spec: "Spec", constants: { ...base, ...k }, invariants: ["RefInv", "Other"], properties: ["Local", "Order"] });
  await c.model("everything at once", cfg({ NK: 2, NI: 1, Rm: "{1}", Cl: "{2}", NC: 2, NM: 1, NS: 1, NB: 1, MaxQ: 2, MaxLife: 2 }));
  const names = Object.keys(K).filter((k) => !K[k].single && !K[k].files);
  const r = rng(SEED * 31 + 5);
  const graphs = new Map<string, any>();
  const suite = async (name: string, b: BackendName, kinds: string[], k: any, o: { spots?: boolean; boxed?: boolean } = {}) => {
    const flags = { NK: kinds.length, Rm: `{${kinds.flatMap((x, i) => K[x].rm ? [i + 1] : [])}}`, Cl: `{${kinds.flatMap((x, i) => K[x].clear ? [i + 1] : [])}}` };
    const all = { ...flags, ...k }, key = JSON.stringify(all);
    const g = await c.conform(`${b} ${name}`, cfg(all), async () => { const d = await Driver.make(b, kinds, all.NC ?? 0); d.spots = !!o.spots; d.boxed = !!o.boxed; return d as any; }, { graph: graphs.get(key), maxLen: 60, budgetMs: pick(900, 20_000), randomMs: pick(200, 4_000) });
    graphs.set(key, g);
  };
  for (const b of BACKENDS) {
    // kinds that come together here are shuffled by the seed
    const left = [...names];
    left.sort((x, y) => (K[x].rm ? 0 : 1) - (K[y].rm ? 0 : 1) || 0);
    const withRm = left.filter((x) => K[x].rm && K[x].clear), other = left.filter((x) => !(K[x].rm && K[x].clear));
    for (const xs of [withRm, other]) for (let i = xs.length - 1; i > 0; i--) { const j = r.int(i + 1); [xs[i], xs[j]] = [xs[j], xs[i]]; }
    const plain = other.filter((x) => K[x].clear);
    await suite(`${withRm[0]}, groupCallAccessHash, ${plain[0]}`, b, [withRm[0], "groupCallAccessHash", plain[0]], { NI: 2 });
    for (let i = 0; i < 2; i++) await suite(`${withRm[i + 1]}, ${plain[3 * i + 1]}, ${plain[3 * i + 2]}`, b, [withRm[i + 1], plain[3 * i + 1], plain[3 * i + 2]], { NI: 2 });
    const tail = [plain[3], plain[6], plain[7]].filter(Boolean);
    await suite(tail.join(", "), b, tail, { NI: 2 });
    await suite("salt, premium, state, account", b, ["serverSalt", "isPremium", "state", "authString"], { NI: 1 });
    await suite("messages", b, [], { NC: 3, NM: 2 });
    await suite("places", b, [], { NS: 2, MaxLife: 1 }, { spots: true });
    await suite("waiting updates", b, [], { NB: 2, MaxQ: 2, MaxLife: 1 }, { boxed: true });
    if (b === "indexeddb") await suite("files", b, ["file", "fullChat"], { NI: 2 });
  }
});
