import { type Check, main, pick, quick } from "../lib/check.ts";
import { ChannelDriver } from "../lib/updates_world.ts";

const KINDS: Record<string, string[][]> = { K1: [["m", "o", "m", "o"]], K2: [["m", "o", "m"], ["o", "m"]], K1u: [["m", "o", "m"]], Kmo: [["m", "o"], ["m", "o"]] };
const STARTS: Record<string, number[]> = { S0: [0], S9: [9], S1: [1], S00: [0, 0], S09: [0, 9] };
async function channels(c: Check, name: string, k: string, s: string, na: number, on: string, maxD: number, maxB: number, o: { drop?: boolean } = {}) {
  await c.conform(name, {
    module: "UpdatesChannel", invariants: ["Inv"], properties: ["Handled"],
    constants: { Kinds: `<- ${k}`, Start: `<- ${s}`, NA: na, MaxD: maxD, MaxB: maxB, Drop: o.drop ? "TRUE" : "FALSE", On: `{${on.split(" ").map((x) => `"${x}"`).join(", ")}}` },
  }, () => ChannelDriver.make(KINDS[k], STARTS[s], o), { heap: "6g", maxLen: 40, budgetMs: pick(40_000, 600_000), randomMs: pick(1_500, 30_000) });
}
await main("U02", [
  "A channel difference holds everything the server pushed before it was asked for; a too long one gives only messages not handled yet.",
  "The messages of a difference are handled before its other updates, each group in counter order.",
], async (c) => {
  await channels(c, "one", "K1", "S0", 0, "Slice Fail", 2, 2);
  await channels(c, "too-long", "K1u", "S0", 0, "TooMuch TooLong Slice Retry Fail", 2, 1);
  await channels(c, "unknown", "K1u", "S9", 0, "TooMuch TooLong Slice Fail", 2, 2);
  await channels(c, "uncounted", "K1u", "S9", 0, "Zero Slice Fail TooMuch", 2, 2);
  await channels(c, "open", "K1u", "S0", 0, "Open TooMuch Slice Fail", 2, 1);
  await channels(c, "two", "Kmo", "S00", 0, "Fail TooMuch", 1, 1);
  await channels(c, "account", "K1u", "S0", 2, "Within Fail", 2, 1);
  await channels(c, "dropping", "K1u", "S9", 0, "TooMuch Slice Fail", 2, 1, { drop: true });
  await channels(c, "dropping-old", "K1u", "S1", 0, "TooMuch Slice Fail Open", 2, 1, { drop: true });
  if (!quick) {
    await channels(c, "all", "K1", "S0", 2, "Zero Open TooMuch TooLong Slice Fail Retry Within", 3, 2);
    await channels(c, "two-all", "K2", "S09", 2, "Open TooMuch TooLong Slice Fail Within", 1, 1);
  }
});
