import { main, pick, quick } from "../lib/check.ts";
import { settle } from "../lib/vt.ts";
import { ConditionDriver } from "../lib/conditions.ts";
import { Composer } from "/repo/client/5_composer.ts";

class Open extends Composer<any> { forget(c: any) { this.resetLastGetMe(c); } }
interface Held { go: (v: any) => void; no: (e: unknown) => void; wake: ((what: any) => void) | null }

class ComposerDriver {
  root = new Open();
  composers: Composer<any>[] = [this.root];
  nh = 0;
  np = 0;
  upd = 0;
  ev: any[] = [];
  held = new Map<string, any>();
  identity = { type: "user" };
  client: any = { getMe: () => new Promise((go, no) => { this.ev.push(["me", this.current]); this.held.set(`me${this.current}`, { go, no }); }) };
  current = 0;
  broken: string | null = null;
  handler(kind = 0) {
    const h = ++this.nh;
    // a handler does what it is told to until it is told to end
    const fn = async (ctx: any, next: () => Promise<void>) => {
      const u = ctx.update.u;
      const box: any = { told: [], wake: null, first: null };
      const key = `${u}:${h}`;
      if (this.held.has(key)) this.broken = `handler ${h} entered again for update ${u}`;
      this.held.set(key, box);
      this.ev.push(["enter", u, h, ctx.me === undefined ? false : ctx.me === this.identity]);
      if (ctx.client !== this.client) this.broken = "wrong client";
      for (;;) {
        while (!box.told.length) await new Promise<void>((r) => box.wake = r);
        const t = box.told.shift();
        if (t.n === "Return") return;
        if (t.n === "Throw") throw new Error(`thrown by ${h}`);
        let p: Promise<void>;
        if (t.n === "Join") p = box.first;
        else {
          p = next();
          box.first ??= p;
          p.catch(() => {});
        }
        if (t.n === "Ask" && !t.wait) continue;
        try {
          await p;
          this.ev.push(["resume", u, h, "ok"]);
        } catch {
          this.ev.push(["resume", u, h, "err"]);
        }
      }
    };
    return kind % 2 ? { middleware: () => fn } : fn; // both forms of middleware
  }
  pred() {
    const x = ++this.np;
    return (ctx: any) => new Promise<boolean>((go, no) => {
      const u = ctx.update.u;
      this.ev.push(["ask", u, x]);
      this.held.set(`${u}?${x}`, { go, no });
    });
  }
  tell(a: any) {
    const box = this.held.get(`${a.u}:${a.h}`);
    if (!box) { this.ev.push(["missing handler"]); return; }
    box.told.push(a);
    box.wake?.();
  }
  async step(a: any) {
    this.ev = [];
    switch (a.n) {
      case "Register": {
        const on = this.composers[a.c - 1];
        if (a.k === "b") {
          const p = this.pred();
          const l = new Composer<any>(this.handler() as any), r = new Composer<any>(this.handler(1) as any);
          on.branch(p as any, l, r);
          this.composers.push(l, r);
        } else {
          const p = a.k[0] === "f" ? this.pred() : null;
          const hs = Array.from({ length: Number(a.k[1]) }, (_, i) => this.handler(i)) as any[];
          this.composers.push(p ? on.filter(p as any, ...hs) : on.use(...hs));
        }
        break;
      }
      case "Update": {
        const u = this.current = ++this.upd;
        const update: any = a.plain ? (u % 2 ? { type: "connectionState", connectionState: "ready", u } : { type: "authorizationState", authorizationState: { isAuthorized: false }, u })
          : (u % 2 ? { type: "deletedMessages", deletedMessages: [], u } : { type: "authorizationState", authorizationState: { isAuthorized: true }, u });
        this.root.handleUpdate(this.client, update).then(() => this.ev.push(["end", u, "ok"]), () => this.ev.push(["end", u, "err"]));
        break;
      }
      case "AnswerMe": { const p = this.held.get(`me${a.u}`); a.ok ? p.go(this.identity) : p.no(new Error("no identity")); break; }
      case "Forget": this.root.forget(this.client); break;
      case "Answer": {
        const p = this.held.get(`${a.u}?${a.x}`);
        if (!p) return "missing condition";
        a.v === "throw" ? p.no(new Error("condition failed")) : p.go(a.v === "yes");
        break;
      }
      default: this.tell(a);
    }
    await settle(1);
    return this.broken ?? this.ev;
  }
}

await main("C05", ["Handlers and conditions do nothing but ask, wait, return or throw; no handler is registered while an update is being handled."], async (c) => {
  const suite = (name: string, k: { Regs: string; MaxReg: number; MaxUpd?: number; Together?: number; MaxAsk?: number; On?: string }, budgetMs = pick(9_000, 200_000)) =>
    c.conform(name, {
      module: "Composer", invariants: ["Inv"],
      constants: { MaxReg: k.MaxReg, MaxUpd: k.MaxUpd ?? 1, Together: k.Together ?? 1, MaxAsk: k.MaxAsk ?? 1, Regs: `{${k.Regs.split(" ").map((x) => `"${x}"`).join(", ")}}`, On: `{${(k.On ?? "").split(" ").filter(Boolean).map((x) => `"${x}"`).join(", ")}}` },
    }, () => new ComposerDriver(), { heap: "8g", maxLen: 60, budgetMs, randomMs: pick(1_000, 20_000) });
  await suite("trees", { Regs: "u1 f0 f1", MaxReg: 3 });
  await suite("errors", { Regs: "u2 f1", MaxReg: 2, On: "Throw PredThrow" });
  await suite("branches", { Regs: "b u1", MaxReg: 2, On: "Throw" });
  await suite("asking twice, not waiting", { Regs: "u0 u2 u1", MaxReg: 2, MaxAsk: 2, On: "NoWait Throw" });
  await suite("two updates", { Regs: "u1 f1", MaxReg: 2, MaxUpd: 2, Together: 2 });
  await suite("identity", { Regs: "u1", MaxReg: 1, MaxUpd: 3, Together: 2, On: "Me Throw" });
  for (const w of ["query", "command", "data", "chat"]) {
    await c.conform(`conditions: ${w}`, { module: "Conditions", constants: { Which: `"${w}"` } }, () => new ConditionDriver(), { maxLen: 3000, budgetMs: pick(10_000, 60_000), randomMs: 0 });
  }
  if (!quick) {
    await suite("larger trees", { Regs: "u1 f1 b", MaxReg: 3 });
    await suite("four registrations", { Regs: "u1 f0", MaxReg: 4 });
    await suite("errors in trees", { Regs: "u1 f1 b", MaxReg: 2, MaxAsk: 2, On: "Throw NoWait PredThrow" });
    await suite("two updates, errors", { Regs: "u2 f1", MaxReg: 2, MaxUpd: 2, Together: 2, On: "Throw" });
  }
});
