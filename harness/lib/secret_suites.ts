// The suites of the secret-chat properties.
import { type Check, pick } from "./check.ts";
import { ExchangeDriver, KeysDriver, LifeDriver, SecretDriver, SeqDriver, type Side } from "./secret_world.ts";

const set = (s: string) => `{${s.split(" ").filter(Boolean).map((x) => `"${x}"`).join(", ")}}`;
interface O { sent?: number; age?: number; fail?: number; lose?: number; hi?: Side; backend?: string; budgetMs?: number; randomMs?: number }
const budget = (o: O) => ({ heap: "8g", maxLen: 60, budgetMs: o.budgetMs ?? pick(30_000, 400_000), randomMs: o.randomMs ?? pick(1_500, 30_000) });
const chatCfg = (users: string, on: string, o: O) => ({
  module: "SecretChat", invariants: ["Inv"], properties: ["Forward"],
  constants: { MaxUser: `<- ${users}`, MaxSent: o.sent ?? 5, MaxAge: o.age ?? 0, MaxFail: o.fail ?? 0, MaxLose: o.lose ?? 0, Hi: `"${o.hi ?? "A"}"`, On: set(on) },
});
// both sides are real; anything may be delayed, repeated, reordered
export async function chat(c: Check, name: string, users: string, on: string, o: O = {}) {
  await c.conform(name, chatCfg(users, on, o), () => SecretDriver.make(o.hi ?? "A", { backend: o.backend }), budget(o));
}
// the same specification alone, with more of everything
export async function chatModel(c: Check, name: string, users: string, on: string, o: O = {}) {
  await c.model(name, chatCfg(users, on, o), { heap: "8g" } as any);
}
// one real side and a peer that puts any numbers on its messages
export async function numbers(c: Check, name: string, p: Side, on: string, o: O & { out?: number; in?: number } = {}) {
  await c.conform(name, {
    module: "SecretSeq", invariants: ["Inv"], properties: ["Dead"],
    constants: { Creator: p === "A" ? "TRUE" : "FALSE", Lo: "<- M1", Up: 5, MaxOut: o.out ?? 3, MaxIn: o.in ?? 2, On: set(on) },
  }, () => SeqDriver.make(p, o.backend), budget(o));
}
// both sides are real; what they send takes its time
export async function keys(c: Check, name: string, users: string, o: O = {}) {
  await c.conform(name, { module: "SecretKeys", invariants: ["Inv"], constants: { MaxUser: `<- ${users}`, MaxSent: o.sent ?? 6, MaxAge: o.age ?? 1, Hi: `"${o.hi ?? "A"}"` } }, () => KeysDriver.make(o.hi ?? "A", o.backend), budget(o));
}
export async function life(c: Check, name: string, role: Side, on: string, o: O = {}) {
  await c.conform(name, {
    module: "SecretLife", invariants: ["Inv"], properties: ["OneWay", "Silent"],
    constants: { Role: `"${role}"`, MaxSend: 2, MaxMsg: 1, On: set(on) },
  }, () => LifeDriver.make(role, o.backend), budget(o));
}
// one real side and a peer that does anything with key exchanges
export async function exchange(c: Check, name: string, p: Side, on: string, o: O & { in?: number; users?: number; ex?: number } = {}) {
  await c.conform(name, { module: "SecretExchange", invariants: ["Inv"], properties: ["Changes", "Quiet"], constants: { MaxIn: o.in ?? 4, MaxUser: o.users ?? 1, MaxAge: o.age ?? 1, MaxEx: o.ex ?? 2, On: set(on) } }, () => ExchangeDriver.make(p, o.backend), budget(o));
}
