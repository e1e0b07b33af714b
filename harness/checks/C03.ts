import "../lib/backends.ts";
import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { clearTimers, installVirtualTime } from "../lib/vt.ts";
import { type Call, Net, quiet, tick } from "../lib/client_world.ts";
import { PasswordServer } from "../lib/srp.ts";
import { Client } from "/repo/client/6_client.ts";
import { restartAuth } from "/repo/client/2_sign_in.ts";
import { StorageLocalStorage } from "/repo/2_storage.ts";

const WORDS: Record<string, string> = { w0: "constant password", w1: "p", w2: "pässwörd ✓ 长" };
const PHONES = ["p0", "p1", "p2"];
const userOf = (p: string) => p === "b0" ? 2000 : 1000 + PHONES.indexOf(p);
let lives = 0;

class SignInDriver {
  net!: Net;
  client: any;
  ev: any[] = [];
  gen = 0;
  dead = new Set<any>();
  refusal = "AUTH_KEY_UNREGISTERED";
  call: Call | null = null;
  moved = 0;
  sent = { phone: "", par: 0, hash: "", dc: "" };
  dead_hashes = new Set<string>();
  phone = "";
  last: any = null;
  broken: string | null = null;
  asking: { answer(v: any): void; fail(e: any): void } | null = null;
  srp = new PasswordServer(SEED * 1000 + lives);
  word = "w0";
  checked: { good: boolean } | null = null;
  signedUp: string | null = null;
  static async make() {
    installVirtualTime(1_700_000_000_000 + ++lives * 3600_000);
    clearTimers();
    localStorage.clear();
    const d = new SignInDriver();
    d.net = new Net(rng(SEED * 77 + lives));
    d.net.auto = (c) => d.auto(c);
    await d.birth();
    return d;
  }
  async birth() {
    this.gen++;
    this.client = new Client({ ...this.net.params(), storage: new StorageLocalStorage("s"), defaultHandlers: false } as any);
    let st = "";
    this.client.connect().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
    for (let i = 0; i < 60 && !st; i++) await quiet();
    if (st !== "up") throw new Error(`no connection: ${st}`);
  }
  user(id: number) { return { _: "user", id: BigInt(id), access_hash: 5n, first_name: "U", self: true, ...(id === 2000 ? { bot: true, bot_info_version: 1 } : {}) }; }
  auto(c: Call): boolean {
    const q = c.q;
    if (this.dead.has(c.conn)) return true;
    switch (q._) {
      case "updates.getState":
        if (c.key.user) this.net.answer(c, { _: "updates.state", pts: 1, qts: 0, date: 1, seq: 1, unread_count: 0 }); else this.net.error(c, 401, this.refusal);
        return true;
      case "updates.getDifference": this.net.answer(c, { _: "updates.differenceEmpty", date: 1, seq: 1 }); return true;
      case "users.getUsers": if (c.key.user) this.net.answer(c, [this.user(c.key.user)]); else this.net.error(c, 401, this.refusal); return true;
      case "account.getPassword": {
        const hint = this.sent.phone === "p1" ? "h1" : this.sent.phone === "p2" ? "h2" : undefined;
        this.net.answer(c, { ...this.srp.fresh(WORDS[this.word]), ...(hint ? { hint } : {}) });
        return true;
      }
      case "help.getConfig": case "help.getCdnConfig": this.net.error(c, 400, "METHOD_INVALID"); return true;
    }
    if (this.call) this.broken = `${q._} while ${this.call.q._} is outstanding`;
    this.call = c;
    switch (q._) {
      case "auth.sendCode":
        if (q.api_id !== 1 || q.api_hash !== "h") this.broken = "wrong API credentials";
        this.phone = q.phone_number;
        this.ev.push(["send", q.phone_number, this.moved ? Number(c.conn.dc) : 0]);
        break;
      case "auth.signIn":
        if (c.conn.dc !== this.sent.dc) this.broken = "signing in at another data center than the code was sent from";
        this.ev.push(["signIn", q.phone_number, q.phone_code_hash === this.sent.hash && q.phone_number === this.sent.phone ? this.sent.par : "stale", q.phone_code]);
        break;
      case "auth.signUp": this.ev.push(["signUp", q.phone_number, q.phone_code_hash === this.sent.hash ? this.sent.par : "stale", q.first_name, q.last_name]); break;
      case "auth.checkPassword": {
        const w = Object.keys(WORDS).find((w) => w === this.word);
        const ok = this.srp.verify(q.password);
        this.ev.push(["check", this.sent.phone, ok ? w : "a wrong proof"]);
        break;
      }
      case "auth.importBotAuthorization":
        if (q.api_id !== 1 || q.api_hash !== "h") this.broken = "wrong API credentials";
        this.ev.push(["bot", q.bot_auth_token, this.moved ? Number(c.conn.dc) : 0]);
        break;
      case "auth.logOut": this.ev.push(["logOut"]); break;
      default: this.ev.push(["unexpected", q._]);
    }
    this.moved = 0;
    return true;
  }
  prompt(what: string) {
    return (hint?: any) => {
      const gen = this.gen;
      if (this.asking) this.broken = "two questions at once";
      this.ev.push(what === "password" ? ["ask", what, hint ?? "none"] : ["ask", what]);
      return new Promise((answer, fail) => this.asking = { answer: (v) => { if (gen === this.gen) answer(v); }, fail });
    };
  }
  params(a: any): any {
    if (a.bot) return { botToken: "t0" };
    const [phone, code, password, first, last] = a.p;
    const of = (how: string, name: string, c: string) => how === "c" ? c : how === "ask" ? this.prompt(name) : undefined;
    const p: any = { phone: of(phone, "phone", "p0"), code: of(code, "code", "c0"), password: of(password, "password", WORDS.w0) };
    if (first !== "no") p.firstName = of(first, "first", "F0");
    if (last !== "no") p.lastName = of(last, "last", "L0"); else if (lives % 3 === 1) p.lastName = null;
    if (password === "c") this.word = "w0";
    return p;
  }
  take() { const c = this.call; this.call = null; if (!c) throw new Error("no call is outstanding"); return c; }
  watch(p: Promise<any>, end: string, gen = this.gen) {
    p.then(async () => {
      if (gen !== this.gen) return;
      let who = "";
      if (end === "ok") {
        const me = await this.client.getMe();
        const acc = [...PHONES, "b0"].find((x) => userOf(x) === me.id);
        who = acc ?? `user ${me.id}`;
        const id = await this.client.storage.getAccountId();
        if (id !== me.id) who += `, remembered as ${id}`;
        if (this.client.storage.isBot !== (acc === "b0")) who += ", taken for the other kind of account";
      }
      this.ev.push(["done", end, who]);
    }, (e: any) => {
      if (gen === this.gen) this.ev.push(["done", e?.errorMessage ?? e?.message ?? String(e), ""]);
    });
  }
  authorize(c: Call) { return userOf(c.q._ === "auth.importBotAuthorization" ? "b0" : this.sent.phone); }
  async step(a: any) {
    this.ev = [];
    switch (a.n) {
      case "Start": if (a.e) this.refusal = a.e; this.watch(this.client.signIn(this.params(a)), "ok"); break;
      case "Say": {
        const x = this.asking;
        if (!x) return "nothing was asked";
        this.asking = null;
        if (WORDS[a.v]) this.word = a.v;
        x.answer(WORDS[a.v] ?? a.v);
        break;
      }
      case "Restart": { const x = this.asking; if (!x) return "nothing was asked"; this.asking = null; x.fail(restartAuth); break; }
      case "Throw": { const x = this.asking; if (!x) return "nothing was asked"; this.asking = null; x.fail(new Error("thrown")); break; }
      case "Accept": {
        const c = this.take();
        if (c.q._ === "auth.sendCode") {
          this.sent = { phone: c.q.phone_number, par: 1 - this.sent.par, hash: `hash${c.no}`, dc: c.conn.dc };
          this.net.answer(c, { _: "auth.sentCode", type: { _: "auth.sentCodeTypeApp", length: 5 }, phone_code_hash: this.sent.hash });
        } else {
          c.key.user = this.authorize(c);
          this.net.answer(c, { _: "auth.authorization", user: this.user(c.key.user) });
        }
        break;
      }
      case "Refuse": {
        const c = this.take();
        this.net.error(c, 400, ({ "auth.sendCode": "PHONE_NUMBER_INVALID", "auth.signIn": "PHONE_CODE_INVALID", "auth.checkPassword": "PASSWORD_HASH_INVALID" } as any)[c.q._]);
        break;
      }
      case "NeedPassword": this.net.error(this.take(), 401, "SESSION_PASSWORD_NEEDED"); break;
      case "NeedSignUp": this.net.answer(this.take(), { _: "auth.authorizationSignUpRequired" }); break;
      case "Other": this.net.error(this.take(), 400, a.e); break;
      case "Migrate": this.moved = 1; this.net.error(this.take(), 303, a.kind + a.dc); break;
      case "Crash": {
        if (a.how === "lost") { const c = this.take(); c.key.user = this.authorize(c); }
        if (a.how === "revoked") for (const k of this.net.keys.values()) k.user = 0;
        this.call = null;
        this.asking = null;
        this.moved = 0;
        this.sent = { phone: "", par: 0, hash: "", dc: "" };
        for (const c of this.net.conns) this.dead.add(c);
        clearTimers();
        await this.birth();
        break;
      }
      case "SignOut": this.watch(this.client.signOut(), "out"); break;
      case "SignedOut": {
        const c = this.take();
        this.sent = { phone: "", par: 0, hash: "", dc: "" };
        if (a.e) this.net.error(c, 400, a.e); else { c.key.user = 0; this.net.answer(c, { _: "auth.loggedOut" }); }
        break;
      }
    }
    await quiet();
    for (let i = 0; i < 40 && !this.ev.length && a.n !== "Crash"; i++) { await quiet(); if (i > 20) await tick(500); }
    await quiet();
    if (this.ev.some((e) => e[0] === "done")) { this.sent = { phone: "", par: 0, hash: "", dc: "" }; this.asking = null; }
    if (this.net.problems.length) this.broken = this.net.problems[0];
    return this.broken ?? this.ev;
  }
  async end() {
    let done = false;
    this.client.disconnect().then(() => done = true, () => done = true);
    for (let i = 0; i < 20 && !done; i++) await quiet();
    clearTimers();
    return this.broken;
  }
}

const OTHERS = `{"PHONE_CODE_EXPIRED", "PHONE_NUMBER_INVALID", "PHONE_CODE_INVALID", "SESSION_PASSWORD_NEEDED", "PASSWORD_HASH_INVALID", "PHONE_NUMBER_BANNED"}`;
const S = (x: string) => `{${x.split(" ").filter(Boolean).map((x) => `"${x}"`).join(", ")}}`;
const P = (phone: string, code: string, password: string, first: string, last: string) => ({ PhoneP: S(phone), CodeP: S(code), PasswordP: S(password), FirstP: S(first), LastP: S(last) });
await main("C03", ["The server redirects the sending of a code at most once; accounts are not removed while the client is signed in."], async (c) => {
  const base = { ...P("ask", "ask", "ask", "ask", "ask"), Bot: "FALSE", Others: `{"PHONE_CODE_EXPIRED"}`, Phones: `{"p1", "p2"}`, Codes: `{"c1"}`, Words: `{"w1", "w2"}`, Firsts: `{"Ann"}`, Lasts: `{"", "Lee "}`, Refusals: `{"AUTH_KEY_UNREGISTERED"}`, On: `{"SignOut"}` };
  const cfg = (k: any) => ({ module: "SignIn", spec: "Spec", constants: { ...base, ...k }, invariants: ["Success", "Asks"], properties: ["Authorized", "Order"] });
  await c.model("every mix", cfg({ ...P("c ask", "c ask", "c ask", "no c ask", "no c ask"), Bot: "TRUE", Others: OTHERS, Codes: `{"c1", "c2"}`, Firsts: `{"Ann", " ", " Bob "}`, Lasts: `{"", "Lee ", " "}`, Refusals: `{"AUTH_KEY_UNREGISTERED", "SESSION_REVOKED", "USER_DEACTIVATED"}`, On: `{"SignOut", "Crash", "Migrate", "Throw"}` }));
  const suite = (name: string, k: any, s = 1) => c.conform(name, cfg(k), () => SignInDriver.make(), { maxLen: 60, budgetMs: pick(8_000, 100_000) * s, randomMs: pick(800, 20_000) });
  await suite("asked for everything", {}, 1.5);
  await suite("constants", { ...P("c ask", "c", "c ask", "no c ask", "no c ask"), Phones: `{"p1"}`, Words: `{"w1"}`, Lasts: `{"Lee "}`, On: `{}` });
  await suite("other errors", { ...P("ask", "ask", "ask", "ask", "no"), Others: OTHERS, Phones: `{"p1"}`, Words: `{"w2"}`, On: `{"Throw"}`, Firsts: `{"Ann", " ", " Bob "}`, Refusals: `{"SESSION_REVOKED", "USER_DEACTIVATED"}` });
  await suite("redirected", { ...P("ask c", "ask", "ask", "no c", "no"), Bot: "TRUE", Phones: `{"p1"}`, Words: `{"w1"}`, On: `{"Migrate", "SignOut"}`, Refusals: `{"AUTH_KEY_UNREGISTERED", "SESSION_REVOKED", "USER_DEACTIVATED"}` });
  await suite("killed", { ...P("c", "ask", "ask", "ask", "no"), Bot: "TRUE", Phones: `{"p1"}`, Words: `{"w1"}`, Others: "{}", On: `{"Crash", "Migrate", "SignOut"}` });
});
