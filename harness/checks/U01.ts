import { type Check, main, pick, quick } from "../lib/check.ts";
import { AccountDriver } from "../lib/updates_world.ts";

const SEQS: Record<string, any> = {
  Pm: ["m", "o", "m"], Pm4: ["m", "o", "m", "o"], Pu: ["m", "u", "o"], P2: ["m", "o"], Q0: [], Q1: ["o"], Q2: ["e", "o"], Q3: ["e", "o", "e"],
  B0: [], B2: [[0, 0], [0, 0]], Bpq: [[2, 0], [0, 1]], B3: [[0, 0], [2, 1], [0, 0]],
};
async function account(c: Check, name: string, p: string, q: string, b: string, on: string, maxD: number, maxB: number, o: { drop?: boolean; budgetMs?: number } = {}) {
  const project = (x: any) => x.harnessException ? x : o.drop ? { ...x, st: null } : x;
  await c.conform(name, {
    module: "UpdatesAccount", invariants: ["Inv"], properties: ["Handled"],
    constants: { PKind: `<- ${p}`, QKind: `<- ${q}`, Box: `<- ${b}`, MaxD: maxD, MaxB: maxB, On: `{${on.split(" ").map((x) => `"${x}"`).join(", ")}}` },
  }, () => AccountDriver.make(SEQS[p], SEQS[q], SEQS[b], { drop: o.drop }), { project, heap: "6g", maxLen: 40, budgetMs: o.budgetMs ?? pick(40_000, 600_000), randomMs: pick(1_500, 30_000) });
}
await main("U01", [
  "A difference holds everything the server pushed before it was asked for; a batch's own uncounted update is not part of differences.",
  "The messages of a difference are handled before its other updates, each group in counter order.",
], async (c) => {
  await account(c, "box", "Pm4", "Q0", "B0", "Slice Fail", 2, 2);
  await account(c, "peers", "Pu", "Q0", "B0", "TooLong Slice Retry Fail", 2, 1);
  await account(c, "both", "P2", "Q2", "B0", "Both Fail", 2, 2);
  await account(c, "batches", "P2", "Q1", "Bpq", "TooLong Plain Fail", 2, 2);
  await account(c, "empty batches", "P2", "Q0", "B2", "TooLong Slice Fail", 2, 1);
  await account(c, "uncounted", "P2", "Q0", "B0", "Zero Slice Fail", 2, 2);
  await account(c, "skips", "Pm", "Q1", "B0", "Skip Retry Recover TooLong Reset", 2, 1);
  await account(c, "dropping", "Pm", "Q1", "B0", "TooLong Slice Fail", 2, 1, { drop: true });
  await account(c, "mixed", "Pm", "Q1", "Bpq", "TooLong Slice Skip Fail Recover", 2, 1);
  await account(c, "crowded", "P2", "Q1", "Bpq", "TooLong Slice Fail", 3, 2);
  if (!quick) await account(c, "all", "Pm", "Q2", "B3", "Zero Both TooLong Plain Slice Skip Retry Fail Recover Reset", 2, 1);
});
