import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { clearTimers, installVirtualTime } from "../lib/vt.ts";
import { type Call, Net, quiet } from "../lib/client_world.ts";
import { Client } from "/repo/client/6_client.ts";
import { ClientWorker } from "/repo/client/7_client_worker.ts";
import * as E from "/repo/4_errors.ts";
import * as E0 from "/repo/0_errors.ts";

// The worker's side of worker.ts runs here too: what it listens to and what it posts to are replaced by queues.
const listeners: Record<string, ((e: any) => void)[]> = {};
const g = globalThis as any;
const realAdd = g.addEventListener;
g.addEventListener = (t: string, f: any) => { (listeners[t] ??= []).push(f); };
await import("/repo/worker.ts");
g.addEventListener = realAdd;

let world: WorkerDriver | null = null;
const captured: any[] = [];
const use = (Client.prototype as any).use;
(Client.prototype as any).use = function (this: any, ...a: any[]) { if (this instanceof Client && !captured.includes(this)) captured.push(this); return use.apply(this, a); };

const ERRORS: Record<string, () => any> = {
  Telegram: () => (E as any).constructTelegramError({ _: "rpc_error", error_code: 400, error_message: "PEER_ID_INVALID" }, { _: "help.getConfig" }),
  Flood: () => (E as any).constructTelegramError({ _: "rpc_error", error_code: 420, error_message: "FLOOD_WAIT_7" }, { _: "help.getDeepLinkInfo", path: "x" }),
  Connection: () => new E0.ConnectionError("Not connected."),
  Access: () => new E0.AccessError("No access."),
  Input: () => new E0.InputError("Invalid input."),
  Transport: () => new E0.TransportError(404),
  TL: () => new E0.TLError("Missing required field", ["[a]b", "[c]d"]),
  Retry: () => new E0.RetryError("Failed after 10 tries."),
  PublicKey: () => new E0.PublicKeyError("No public key."),
  Type: () => new TypeError("not a function"),
  Custom: () => Object.assign(new Error("something else"), { name: "SomethingError" }),
};
function same(a: any, b: any): boolean {
  if (!(a instanceof Error) || a.name !== b.name || a.message !== b.message) return false;
  for (const k of ["errorCode", "errorMessage", "code", "seconds", "originalMessage"]) if (a[k] !== b[k]) return false;
  if (JSON.stringify(a.path) !== JSON.stringify(b.path) || Deno.inspect(a.cause) !== Deno.inspect(b.cause)) return false;
  return !(b instanceof E0.MtkrutoError) || a.constructor === b.constructor;
}
const nameOf = (e: any): string => {
  for (const [n, f] of Object.entries(ERRORS)) if (same(e, f())) return n;
  if (e instanceof E0.InputError) return e.message;
  if (e?.message === "the worker failed" || e?.message === "thrown by the handler") return e.message;
  if (e?.errorMessage && (e.errorMessage !== "FLOOD_WAIT_20" || e instanceof E.FloodWait && e.seconds === 20)) return e.errorMessage;
  return `${e?.name}: ${e?.message}`;
};
const VALUES = (k: number) => [{ a: [k, null, "x"], b: new Uint8Array([1, 2, k]), d: new Date(k * 1000), n: 10n ** 20n + BigInt(k) }, k, undefined, `r${k}`, [], true][k % 6];
const ARGS = (k: number) => [[k, "text", { deep: { list: [1, 2n, new Uint8Array([k])], date: new Date(5) } }], [], [undefined, k], [new Uint8Array(70_000).fill(k)]][k % 4];
const show = (x: any) => Deno.inspect(x, { depth: 10, iterableLimit: 100 });
const METHODS = ["sendMessage", "getChat", "setLocation", "getHistory", "deleteMessages"];
let lives = 0;

class WorkerDriver {
  qW: any[] = [];
  qP: any[] = [];
  ev: any[] = [];
  worker = new EventTarget() as any;
  pages: Map<number, any> = new Map();
  page: ClientWorker;
  live = ++lives;
  reqs: { c: number; kind: string; args?: any[]; r?: PromiseWithResolvers<any>; call?: Call | null; settled: number; err?: any; f?: any }[] = [];
  held = new Map<number, PromiseWithResolvers<boolean>>();
  nets: Net[] = [];
  insts: { c: number; client: any; disconnect: any }[] = [];
  broken: string | null = null;
  muted = false;
  errSeen = new Map<number, any>();
  constructor(public o: { shared?: boolean; handlers: number; net: boolean }) {
    world = this;
    const toWorker = (m: any, transfer?: any) => { this.qW.push(structuredClone(m, { transfer: transfer ?? [] })); };
    const toPage = (m: any) => { const x = structuredClone(m); if (this.muted && x.id === "") return; if (world === this) this.qP.push(x); };
    this.worker.postMessage = toWorker;
    if (o.shared) {
      delete g.postMessage;
      const port = new EventTarget() as any;
      port.postMessage = toPage;
      port.start = () => {};
      this.port = port;
      for (const f of listeners.connect) f({ ports: [port] });
    } else g.postMessage = toPage;
    this.page = new ClientWorker(this.worker);
  }
  port: any = null;
  id(c: number) { return `life${this.live}-${c}`; }
  static async make(o: any, ready: number[]) {
    installVirtualTime();
    clearTimers();
    const d = new WorkerDriver(o);
    for (const c of ready) {
      const p = d.page.createClient(d.id(c), { apiId: 1, apiHash: "h" } as any);
      await d.toWorker();
      await quiet();
      await d.toPage();
      d.take(c, await p);
      d.qP.length = 0;
    }
    d.ev = [];
    return d;
  }
  async toWorker() {
    const m = this.qW.shift();
    if (!m) return "no message to the worker";
    this.current = this.byId.get(m.id) ?? 0;
    const born = m.method === "initClient" ? captured.length : -1;
    if (born >= 0) {
      const net = new Net(rng(SEED * 31 + this.live));
      net.auto = (c) => this.auto(c);
      m.args[0] = { ...m.args[0], ...net.params(), defaultHandlers: false };
      this.nets.push(net);
      this.muted = true;
    }
    const e = { data: m };
    if (this.port) this.port.dispatchEvent(Object.assign(new Event("message"), e)); else for (const f of listeners.message) f(e);
    if (born >= 0 && captured.length > born) {
      const client = captured[born], c = Number(m.clientId.split("-")[1]);
      const disconnect = client.disconnect.bind(client), connect = client.connect.bind(client);
      client.getMe = () => Promise.resolve({ id: c });
      for (const name of METHODS) client[name] = (...args: any[]) => this.begun(c, name, args);
      client.disconnect = (...args: any[]) => this.begun(c, "disconnect", args);
      this.insts.push({ c, client, disconnect });
      if (this.o.net) {
        let st = "";
        connect().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
        for (let i = 0; i < 60 && !st; i++) await quiet();
        if (st !== "up") throw new Error(`no connection: ${st}`);
      }
    }
    await quiet();
    this.muted = false;
    return null;
  }
  async toPage() {
    const m = this.qP.shift();
    if (!m) return "no message to the page";
    this.worker.dispatchEvent(Object.assign(new Event("message"), { data: m }));
    await quiet();
    return null;
  }
  auto(c: Call): boolean {
    if (c.q._ !== "help.getDeepLinkInfo") { this.ev.push(["unexpected", c.q._]); return true; }
    const k = Number(c.q.path), r = this.reqs[k - 1];
    if (!r || r.kind !== "inv" || r.call) this.broken = `call ${k} was not asked for`;
    else { r.call = c; this.ev.push(["sent", k]); }
    return true;
  }
  begun(c: number, name: string, args: any[]) {
    const k = this.current, r = this.reqs[k - 1];
    if (!r || r.r) { this.broken = `${name} was called but not asked for`; return Promise.resolve(); }
    if (r.c !== c || (r.kind === "dis" ? name !== "disconnect" : name !== r.f || show(args) !== show(r.args))) this.broken = `request ${k} became ${name}(${show(args)}) of client ${c}`;
    r.r = Promise.withResolvers();
    this.ev.push(["begun", k]);
    return r.r.promise;
  }
  current = 0;
  byId = new Map<string, number>();
  take(c: number, client: any) {
    this.pages.set(c, client);
    client.use((ctx: any) => {
      const u = ctx.update, i = u.type === "connectionState" ? u.i : u.userId;
      if (ctx.client !== client) this.broken = "an update's client is another one";
      if (u.type !== "connectionState" && ctx.me?.id !== c) this.broken = "an update's identity is another one";
      this.ev.push(["update", c, i]);
    });
    if (this.o.handlers) {
      client.invoke.use((ctx: any) => {
        const k = Number(ctx.function.path);
        if (ctx.client !== client) this.broken = "the context's client is another one";
        if (this.reqs[k - 1]?.c !== c) this.broken = "asked about another client's call";
        this.ev.push(["ask", c, k, nameOf(ctx.error), ctx.n]);
        const p = Promise.withResolvers<boolean>();
        this.held.set(k, p);
        return p.promise;
      });
    }
  }
  watch(k: number, p: Promise<any>) {
    const r = this.reqs[k - 1];
    p.then((v) => {
      if (r && r.settled++) this.broken = `request ${k} was answered twice`;
      let how = "ok";
      if (r?.kind === "call" && show(v) !== show(VALUES(k))) how = `another result: ${show(v)}`;
      if (r?.kind === "inv" && v?.message !== `m${k}`) how = `another result: ${show(v)}`;
      this.ev.push(["done", k, how]);
    }, (e) => {
      if (r && r.settled++) this.broken = `request ${k} was answered twice`;
      this.ev.push(["done", k, nameOf(e)]);
    });
  }
  async step(a: any) {
    this.ev = [];
    let bad: string | null = null;
    switch (a.n) {
      case "Create": {
        const p = this.page.createClient(this.id(a.c), { apiId: 1, apiHash: "h" } as any);
        p.then((client) => this.take(a.c, client), () => {});
        if (this.qW.at(-1)?.method === "initClient" && !this.reqs.some((r) => r.kind === "init" && r.f === this.qW.at(-1))) {
          this.reqs.push({ c: a.c, kind: "init", settled: 0, f: this.qW.at(-1) });
          this.watch(this.reqs.length, p);
        } else this.watch(0, p);
        break;
      }
      case "Get": this.take(a.c, this.page.getClient(this.id(a.c))); break;
      case "InitAgain": {
        const n = this.qW.length, p = this.pages.get(a.c).init({ apiId: 1, apiHash: "h" });
        if (this.qW.length > n) { this.reqs.push({ c: a.c, kind: "init", settled: 0, f: this.qW.at(-1) }); this.watch(this.reqs.length, p); } else this.watch(0, p);
        break;
      }
      case "Request": {
        const k = this.reqs.length + 1, client = this.pages.get(a.c);
        const r: any = { c: a.c, kind: a.kind, settled: 0 };
        this.reqs.push(r);
        if (a.kind === "inv") this.watch(k, client.invoke(r.f = { _: "help.getDeepLinkInfo", path: String(k) }));
        else if (a.kind === "dis") this.watch(k, client.disconnect());
        else { const m = r.f = METHODS[(k + this.live) % METHODS.length]; r.args = fit(m, ARGS(k)); this.watch(k, client[m](...r.args)); }
        if (this.qW.length) this.byId.set(this.qW.at(-1).id, k);
        break;
      }
      case "Say": {
        const p = this.held.get(a.k);
        if (!p) return "nobody was asked";
        this.held.delete(a.k);
        if (a.d === "throw") p.reject(new Error("thrown by the handler")); else p.resolve(a.d === "yes");
        break;
      }
      case "Fail": this.worker.dispatchEvent(this.live % 2 ? new ErrorEvent("error", { message: "the worker failed", error: new Error("the worker failed") }) : new ErrorEvent("error", { message: "the worker failed" })); break;
      case "ToWorker": bad = await this.toWorker(); break;
      case "ToPage": bad = await this.toPage(); break;
      case "Finish": { const r = this.reqs[a.k - 1].r!; if (a.r === "ok") r.resolve(VALUES(a.k)); else r.reject(ERRORS[a.r]()); break; }
      case "Gone": { const r = this.reqs[a.k - 1].r!; if (a.r === "ok") r.resolve(undefined); else r.reject(ERRORS[a.r]()); break; }
      case "Answer": { const r = this.reqs[a.k - 1], c = r.call!; r.call = null; this.netOf(c).answer(c, { _: "help.deepLinkInfo", message: `m${a.k}` }); break; }
      case "Bad": { const r = this.reqs[a.k - 1], c = r.call!; r.call = null; this.netOf(c).error(c, a.e === "BAD" ? 400 : 420, a.e); break; }
      case "Update": {
        const inst = this.insts.findLast((x) => x.c === a.c)!.client;
        inst.handleUpdate(inst, a.u === "conn" ? { type: "connectionState", connectionState: "ready", i: a.i } : { type: "emojiStatusRemoved", userId: a.i });
        break;
      }
    }
    await quiet();
    for (const net of this.nets) if (net.problems.length) this.broken = net.problems[0];
    if (a.n === "Fail") this.ev.sort((x, y) => x[1] - y[1]);
    return bad ?? this.broken ?? this.ev;
  }
  netOf(c: Call) { return c.conn.net; }
  async end() {
    for (const x of this.insts) {
      let done = false;
      if (this.o.net) { x.disconnect().then(() => done = true, () => done = true); for (let i = 0; i < 10 && !done; i++) await quiet(); }
    }
    captured.length = 0;
    clearTimers();
    return this.broken;
  }
}
// as many arguments as the method takes
function fit(m: string, args: any[]) { const n = ({ sendMessage: 3, getChat: 1, setLocation: 1, getHistory: 2, deleteMessages: 3 } as any)[m]; return Array.from({ length: n }, (_, i) => args[i]); }

await main("C04", ["The worker is a message channel: messages arrive in the order they were posted, as copies.", "The worker does not fail while it waits for the page to decide on an error."], async (c) => {
  const base = { Clients: 2, Ready: "{1, 2}", Kinds: `{"call"}`, MaxReq: 2, MaxUpd: 0, MaxErr: 1, Errs: `{"Telegram"}`, Handlers: 1, On: "{}" };
  const cfg = (k: any) => ({ module: "Worker", spec: "Spec", constants: { ...base, ...k }, properties: ["Once", "Ordered", "NotAhead"] });
  await c.model("every request is answered", { ...cfg({ Clients: 1, Ready: "{1}", Kinds: `{"call", "inv", "dis"}`, MaxReq: pick(2, 3), On: `{"Throw"}` }), spec: "FairSpec", properties: ["Answered", "Once"] });
  const suite = (name: string, k: any, o: any = {}) => {
    const constants = { ...base, ...k };
    return c.conform(name, cfg(k), () => WorkerDriver.make({ handlers: constants.Handlers, net: constants.Kinds.includes("inv"), ...o }, JSON.parse(constants.Ready.replace("{", "[").replace("}", "]"))),
      { heap: "8g", maxLen: 120, budgetMs: pick(9_000, 150_000), randomMs: pick(800, 15_000) });
  };
  await suite("calls of two clients", { MaxReq: pick(3, 4), Errs: `{"Telegram"}`, On: `{"Fail"}` });
  await suite("errors", { Clients: 1, Ready: "{1}", MaxReq: 2, Errs: `{${Object.keys(ERRORS).map((x) => `"${x}"`).join(", ")}}` });
  await suite("coming and going", { Clients: 1, Ready: "{}", Kinds: `{"call", "dis"}`, MaxReq: pick(3, 4), Errs: "{}", On: `{"Create", "Get", "Init", "Fail"}` });
  await suite("invocations", { Kinds: `{"inv"}`, MaxReq: 2, MaxErr: pick(1, 2), On: `{"Throw"}` });
  await suite("invocations of a client that disconnects", { Clients: 1, Ready: "{1}", Kinds: `{"inv", "dis"}`, MaxReq: pick(2, 3), MaxErr: 2, On: `{"Init"}` });
  await suite("without handlers", { Clients: 1, Ready: "{1}", Kinds: `{"inv"}`, MaxReq: 2, MaxErr: 1, Handlers: 0 });
  await suite("updates", { Kinds: `{"dis"}`, MaxReq: 1, MaxUpd: 3, Errs: "{}" });
  await suite("a shared worker", { Ready: "{1}", Kinds: `{"call"}`, MaxReq: 2, MaxUpd: 1, Errs: `{"Input"}`, On: `{"Create"}` }, { shared: true });
});
