import { type Check, main, pick, quick } from "../lib/check.ts";
import { DurableDriver } from "../lib/durable_world.ts";
import type { BackendName } from "../lib/backends.ts";

const NS: Record<string, number[]> = { N3: [3, 0], N03: [0, 3], N22: [2, 2], N2: [2, 0], N02: [0, 2], N11: [1, 1] };
async function durable(c: Check, name: string, b: BackendName, n: string, on: string, k: { crash: number; fail: number; x: number; st: number }, qts = false) {
  await c.conform(name, {
    module: "UpdatesDurable", invariants: ["Inv"],
    constants: { N: `<- ${n}`, MaxCrash: k.crash, MaxFail: k.fail, MaxX: k.x, MaxSt: k.st, On: `{${on.split(" ").filter((x) => x).map((x) => `"${x}"`).join(", ")}}` },
  }, () => DurableDriver.make(b, NS[n], on.includes("SlowRead"), qts, on.includes("Each")), { project: (o: any) => b === "memory" && o.dc ? { ...o, dc: null } : o, heap: "6g", maxLen: 60, budgetMs: pick(12_000, 300_000), randomMs: pick(500, 20_000) });
}
await main("U03", [
  "Single writes of a backend are atomic and durable once completed.",
  "After a crash the server gives the updates after the durable counter again (U01, U02).",
], async (c) => {
  await durable(c, "account", "localstorage", "N3", "Again", { crash: 2, fail: 0, x: 0, st: 3 });
  await durable(c, "account-failing", "indexeddb", "N2", "", { crash: 1, fail: 3, x: 1, st: 3 });
  await durable(c, "secondary", "sessionstorage", "N3", "Gap", { crash: 1, fail: 0, x: 0, st: 3 }, true);
  await durable(c, "secondary-each", "localstorage", "N3", "Gap Each", { crash: 1, fail: 0, x: 0, st: 3 }, true);
  await durable(c, "channel", "sessionstorage", "N03", "Again", { crash: pick(1, 2), fail: 0, x: 0, st: 3 });
  await durable(c, "channel-failing", "denokv", "N02", "", { crash: 1, fail: 1, x: 0, st: 3 });
  await durable(c, "account-gap", "localstorage", "N3", "Gap", { crash: 1, fail: 0, x: 0, st: 3 });
  await durable(c, "account-each", "denokv", "N3", "Gap Each", { crash: 1, fail: 0, x: 0, st: 3 });
  await durable(c, "channel-gap", "indexeddb", "N03", "Gap", { crash: 1, fail: 0, x: 0, st: 3 });
  await durable(c, "slow-reads", "localstorage", "N2", "SlowRead", { crash: 1, fail: 0, x: 1, st: 2 });
  await durable(c, "slow-channel", "indexeddb", "N02", "SlowRead", { crash: 1, fail: 0, x: 0, st: 2 });
  await durable(c, "independent", "indexeddb", "N11", "", { crash: 1, fail: pick(1, 2), x: 0, st: 2 });
  await durable(c, "memory", "memory", "N2", "", { crash: 0, fail: 2, x: 1, st: 2 });
  if (!quick) {
    for (const b of ["localstorage", "sessionstorage", "indexeddb", "denokv"] as const) await durable(c, `both-${b}`, b, "N22", "Again SlowRead Gap", { crash: 1, fail: 2, x: 1, st: 3 });
  }
});
