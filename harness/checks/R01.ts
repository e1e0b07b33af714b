import { type Check, main, pick, TIER } from "../lib/check.ts";
import { StayingDriver } from "../lib/staying_world.ts";

const set = (s: string) => `{${s.split(" ").filter(Boolean).map((x) => `"${x}"`).join(", ")}}`;
async function staying(c: Check, name: string, o: { made?: number; calls?: number; stages?: string; ns?: number; on?: string; pfs?: boolean }) {
  await c.conform(name, {
    module: "Staying", invariants: ["Inv"],
    constants: { MaxMade: o.made ?? 1, MaxCalls: o.calls ?? 0, Stages: set(o.stages ?? ""), MaxStages: o.ns ?? 0, On: set(o.on ?? "") },
  }, () => StayingDriver.make({ pfs: !!o.pfs }), { maxLen: 60, budgetMs: pick(25_000, 300_000), randomMs: pick(1_000, 10_000) });
}
void TIER;

await main("R01", [
  "After a loss, the network allowing, the connection is back within seconds; how often it is tried is left open.",
], async (c) => {
  await staying(c, "losses", { made: 2, stages: "refused slow opened soon frame difference", ns: 2 });
  await staying(c, "calls", { made: 0, calls: 2, on: "Call Age", stages: "refused opened", ns: 1 });
  await staying(c, "lost updates", { made: 2, on: "Miss Long" });
  await staying(c, "corrupt", { made: 1, calls: 1, on: "Corrupt Call", stages: "refused slow opened difference", ns: 1 });
  await staying(c, "forgotten keys", { made: 1, calls: 1, on: "Forget Call", stages: "refused slow opened frame unknown", ns: 1, pfs: true });
  await staying(c, "days", { made: 1, on: "Day Forget", stages: "refused frame", ns: 1, pfs: true });
});
