import "../lib/backends.ts";
import { type Check, main, pick, TIER } from "../lib/check.ts";
import { RememberedDriver } from "../lib/remembered_world.ts";

const words = (s = "") => s.split(" ").filter(Boolean);
const set = (s?: string) => `{${words(s).map((x) => `"${x}"`).join(", ")}}`;
async function remembered(c: Check, name: string, o: { items: string; brief?: string; v?: number; on: string; wait?: number; bot?: boolean; budgetMs?: number }) {
  const on = words(o.on);
  await c.conform(name, {
    module: "Remembered", invariants: ["Inv", "Lent"],
    constants: { Items: set(o.items), Brief: set(o.brief), MaxV: o.v ?? 2, On: set(o.on) },
  }, () => RememberedDriver.make({ items: words(o.items), brief: words(o.brief), wait: o.wait ?? 40_000, bot: o.bot, persist: on.includes("Restart") }), { maxLen: 80, budgetMs: o.budgetMs ?? pick(20_000, 300_000), randomMs: pick(1_000, 10_000) });
}
const MINUTES = 60_000;

await main("K04", [
  "The server answers and tells in one order: what it answered before a change arrives before the news of that change.",
  "Which of several things one asked for were remembered is not seen when any of them has to be asked for: all are.",
], async (c) => {
  const thorough = TIER === "thorough";
  await remembered(c, "callback answers", { items: thorough ? "q1 q2 q3 q4" : "q1 q2 q3", brief: "q2", on: "Wait Refuse" });
  await remembered(c, "a game's answer", { items: "q1 q4", on: "Wait" });
  await remembered(c, "inline answers", { items: "i1 i2 i5", brief: "i2", on: "Wait Refuse" });
  await remembered(c, "inline answers apart", { items: "i1 i3 i4", on: "Wait" });
  await remembered(c, "custom emoji", { items: "e1 e2", on: "Wait Many Refuse", wait: 20 * MINUTES });
  await remembered(c, "many custom emoji", { items: "e1 e2 e3", v: 1, on: "Wait Many", wait: 20 * MINUTES });
  await remembered(c, "full chats", { items: "u1 g1 c1", on: "Refuse Race" });
  await remembered(c, "unseen changes", { items: "u1 u2 c1", on: "Lose Race" });
  await remembered(c, "video chats", { items: "c1 v1", on: "Apart Refuse Race" });
  await remembered(c, "video chats, lost news", { items: "c1 v1", on: "Apart Lose" });
  await remembered(c, "business connections", { items: "b1 b2", on: "Refuse Race Lose", bot: true });
  await remembered(c, "transcriptions", { items: "t1 t2", v: thorough ? 3 : 2, on: "Refuse Lose" });
  await remembered(c, "restarts", { items: "q1 e1", on: "Wait Restart", wait: 20 * MINUTES });
  await remembered(c, "restarts, inline answers", { items: "i1", on: "Wait Restart" });
  await remembered(c, "restarts with chats", { items: "u1 c1 v1 t1", on: "Restart" });
  if (thorough) await remembered(c, "restarts of bots", { items: "b1 e1 e2 g1", on: "Restart Wait Many Lose", bot: true, wait: 20 * MINUTES });
});
