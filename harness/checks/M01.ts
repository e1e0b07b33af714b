import "../lib/backends.ts";
import { type Check, main, pick, TIER } from "../lib/check.ts";
import { MessagesDriver } from "../lib/messages_world.ts";

const words = (s = "") => s.split(" ").filter(Boolean);
const set = (s?: string) => `{${words(s).map((x) => `"${x}"`).join(", ")}}`;
async function messages(c: Check, name: string, o: { order: string; polls?: string; out?: string; reply?: Record<string, string>; v?: number; marks?: number; on: string; persist?: boolean; budgetMs?: number }) {
  const on = words(o.on), reply = o.reply ?? {};
  await c.conform(name, {
    module: "Messages", invariants: ["Inv"], properties: ["Forward"],
    constants: {
      Msgs: set(o.order), Polls: set(o.polls), Out: set(o.out), Repliers: set(Object.keys(reply).join(" ")), MaxV: o.v ?? 2, MaxN: o.marks ?? 1, On: set(o.on),
    },
  }, () => MessagesDriver.make({ polls: words(o.polls), out: words(o.out), reply, persist: o.persist, sure: on.includes("Sure"), outToo: on.includes("OutToo") }), { maxLen: 80, budgetMs: o.budgetMs ?? pick(25_000, 300_000), randomMs: pick(1_000, 10_000) });
}

await main("M01", [
  "Edits and deletions come with the counters the client recovers by; reactions, votes and views are told as they come, and may be lost.",
], async (c) => {
  await messages(c, "coming and going", { order: "a1 b1 b2 c1", out: "b1", on: "Edit Delete Both" });
  await messages(c, "several at once", { order: TIER === "thorough" ? "b1 b2 c1 c2" : "b1 b2 c1", v: 1, on: "Delete Both Miss Astray" });
  await messages(c, "numbered apart", { order: "a1 b1 c1", on: "Delete Elsewhere" });
  await messages(c, "marks", { order: "a1 c1", on: "Marks Lose Views History" });
  await messages(c, "polls", { order: "b1 b2", polls: "b1", on: "Marks Lose History Edit Delete" });
  await messages(c, "replies", { order: "b1 b2 c1 c2", reply: { b2: "b1", c2: "c1" }, on: "Edit Delete" });
  await messages(c, "outages", { order: "a1 b1 c1", out: "b1", on: "Edit Delete Miss" });
  await messages(c, "own doing", { order: "a1 b1 c1", out: "a1 c1", polls: "b1", on: "Edit Delete Ours Marks OutToo" });
  await messages(c, "restarts", { order: "a1 b1 c1", on: "Edit Delete Marks Views Restart", persist: true });
  await messages(c, "failing handlers", { order: "a1 b1 c1", on: "Delete Fail" });
  await messages(c, "failing handlers, sure delivery", { order: "a1 b1 c1", on: "Delete Fail Sure Restart", persist: true });
  if (TIER === "thorough") {
    await messages(c, "polls of more", { order: "b1 b2 c1", polls: "b1 c1", marks: 2, on: "Marks Lose History Edit Delete" });
    await messages(c, "everything", { order: "a1 b1 b2 c1", polls: "b1", out: "b2 c1", marks: 2, v: 2, on: "Edit Delete Marks Views Lose Astray Elsewhere Miss History Both Ours Restart", persist: true });
  }
});
