import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { installVirtualTime } from "../lib/vt.ts";
import { type Call, Net, quiet, tick } from "../lib/client_world.ts";
import { Client } from "/repo/client/6_client.ts";

// Clients of one process, each on its own network. Making one is slow, so those whose calls are all over are used again
// only as long as nobody registered handlers on them.
class InvokeDriver {
  nets: Net[] = [];
  clients: any[] = [];
  ev: any[] = [];
  nh = 0;
  calls: { c: number; f: any; settled: number; at: Call | null; attempts: number; err: any }[] = [];
  held = new Map<string, (d: string) => void>();
  broken: string | null = null;
  static async make(n: number, dflt: number[]) {
    installVirtualTime();
    const d = new InvokeDriver();
    for (let c = 1; c <= n; c++) {
      const net = new Net(rng(SEED * 7 + c));
      const client = new Client({ ...net.params(), defaultHandlers: dflt.includes(c) }) as any;
      d.nets.push(net);
      d.clients.push(client);
    }
    for (const [i, client] of d.clients.entries()) {
      await ready(client, d.nets[i]);
    }
    return d;
  }
  arrivals() {
    for (const [i, net] of this.nets.entries()) {
      if (net.problems.length) this.broken = net.problems[0];
      for (const x of [...net.calls]) {
        if (x.q._ !== "help.getDeepLinkInfo") { this.broken = `unexpected call ${x.q._}`; continue; }
        const k = Number(x.q.path), call = this.calls[k - 1];
        if (!call) { this.broken = "a call nobody made"; continue; }
        if (call.at === x) continue;
        if (call.at) this.broken = `call ${k} arrived again while outstanding`;
        call.at = x;
        this.ev.push(["sent", k, i + 1, Number(x.conn.dc)]);
      }
    }
    this.ev.sort((a, b) => a[0] === "sent" && b[0] === "sent" ? a[1] - b[1] : 0);
  }
  take(k: number) { const c = this.calls[k - 1], x = c.at!; c.at = null; return { net: this.nets[c.c - 1], x }; }
  async step(a: any) {
    this.ev = [];
    switch (a.n) {
      case "Use": {
        const c = a.c, h = ++this.nh;
        this.clients[c - 1].invoke.use(async (ctx: any, next: any) => {
          const k = Number(ctx.function.path), e = ctx.error?.errorMessage ?? String(ctx.error);
          if (ctx.client !== this.clients[c - 1]) this.broken = "the context's client is another one";
          if (ctx.function !== this.calls[k - 1]?.f) this.broken = "the context's function is another one";
          this.calls[k - 1].err = ctx.error;
          this.ev.push(["ask", c, h, k, e, ctx.n]);
          const d = await new Promise<string>((r) => this.held.set(`${k}:${h}`, r));
          return d === "yes" ? true : d === "no" ? false : d === "next" ? next() : !(await next());
        });
        break;
      }
      case "Invoke": {
        const k = this.calls.length + 1, f = { _: "help.getDeepLinkInfo", path: String(k) };
        const call = { c: a.c, f, settled: 0, at: null, attempts: 0, err: undefined as any };
        this.calls.push(call);
        this.clients[a.c - 1].invoke(f, a.dc === 2 ? undefined : { dc: String(a.dc) }).then((v: any) => {
          this.ev.push(["done", k, v?._ === "help.deepLinkInfo" && v.message === `m${k}` ? "ok" : "other"]);
          if (call.settled++) this.broken = "settled twice";
        }, (e: any) => {
          this.ev.push(["done", k, e?.errorMessage ?? String(e)]);
          if (call.err !== undefined && call.err !== e) this.broken = "it failed with another error than the one the handlers saw";
          if (call.settled++) this.broken = "settled twice";
        });
        break;
      }
      case "Answer": { const { net, x } = this.take(a.k); net.answer(x, { _: "help.deepLinkInfo", message: `m${a.k}` }); break; }
      case "Fail": { const { net, x } = this.take(a.k); this.calls[a.k - 1].err = undefined; net.error(x, a.e.startsWith("FLOOD") ? 420 : a.e === "INTERNAL" ? 500 : 400, a.e); break; }
      case "Say": {
        const r = this.held.get(`${a.k}:${a.h}`);
        if (!r) return "this handler was not asked";
        this.held.delete(`${a.k}:${a.h}`);
        r(a.d);
        break;
      }
      case "Tick":
        await tick(a.w * 1000 - 20);
        this.arrivals();
        if (this.ev.length) return ["early", ...this.ev];
        await tick(20);
        break;
    }
    await quiet();
    this.arrivals();
    return this.broken ?? this.ev;
  }
  async end() {
    await Promise.allSettled(this.clients.map((c) => c.disconnect()));
    return this.broken;
  }
}
async function ready(client: any, net: Net) {
  let st = "";
  client.connect().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
  for (let i = 0; i < 60 && !st; i++) await quiet();
  if (st !== "up") throw new Error(`no connection: ${st}`);
  // a connection to the other data center
  const warm = async (dc?: string) => {
    let r = "";
    client.invoke({ _: "help.getDeepLinkInfo", path: "0" }, dc && { dc }).then(() => r = "ok", (e: any) => r = String(e));
    for (let i = 0; i < 60 && !r; i++) { await quiet(); for (const x of [...net.calls]) net.answer(x, { _: "help.deepLinkInfo", message: "" }); }
    if (r !== "ok") throw new Error(`no first call: ${r}`);
  };
  await warm();
  return warm;
}

await main("C01", ["No handler is registered on a client while one of its handlers is being asked; handlers ask the next one at most once and do not throw."], async (c) => {
  const suite = (name: string, k: any) => {
    const constants = { Clients: 2, Default: "{1}", MaxH: 2, MaxCalls: 2, MaxErr: 2, Dcs: "{2}", Calls0: "TRUE", ...k };
    return c.conform(name, { module: "Invoke", spec: "Spec", constants, invariants: ["Own", "Waits"], properties: ["Consent"] },
      () => InvokeDriver.make(constants.Clients, JSON.parse(constants.Default.replace("{", "[").replace("}", "]"))),
      { heap: "8g", maxLen: 200, budgetMs: pick(12_000, 200_000), randomMs: pick(1_500, 20_000) });
  };
  await c.model("waits end", { module: "Invoke", spec: "Spec", constants: { Clients: 2, Default: "{1}", MaxH: 2, MaxCalls: 2, MaxErr: pick(1, 2), Dcs: "{2}", Calls0: "TRUE", Errors: `{"BAD", "FLOOD_WAIT_3", "FLOOD_WAIT_10"}` }, invariants: ["Own", "Waits"], properties: ["Consent", "Released"] });
  await suite("two clients", { MaxCalls: 2, MaxErr: 1, MaxH: 2, Errors: `{"BAD"}` });
  await suite("default waits", { Clients: 1, Default: "{1}", MaxH: 1, MaxCalls: 2, MaxErr: 2, Errors: `{"FLOOD_WAIT_3", "FLOOD_WAIT_10", "FLOOD_WAIT_11"}` });
  await suite("another data center", { Clients: 1, Default: "{}", MaxH: 1, MaxCalls: 2, MaxErr: 2, Dcs: "{2, 4}", Errors: `{"INTERNAL", "FLOOD_WAIT_86400"}` });
  await suite("floods among other errors", { Clients: 2, Default: "{1, 2}", MaxH: 1, MaxCalls: 2, MaxErr: 1, Errors: `{"BAD", "FLOOD_WAIT_1"}` });
  await suite("chain of handlers", { Clients: 1, Default: "{}", MaxH: 3, MaxCalls: 1, MaxErr: 3, Errors: `{"BAD", "FLOOD_WAIT_3"}` });
  await suite("many attempts", { Clients: 1, Default: "{1}", MaxH: 1, MaxCalls: 1, MaxErr: 40, Errors: `{"BAD", "FLOOD_WAIT_1"}` });
});
