import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { type Plan, runLife } from "../lib/dc_world.ts";

const RD = Date;
await main("C02", [
  "A data center refuses a call that needs the account with AUTH_KEY_UNREGISTERED when it does not know the account under the key; authorizations are imported when that happens.",
  "A salt may be forgotten by a connection closed for being idle; connections for files may use several keys per data center.",
], async (c) => {
  const constants = { DCs: "{2, 4}", First: 2, Pool: 1, MaxCalls: pick(1, 2), MaxKeys: 3, MaxTickets: pick(2, 1), MaxTrouble: pick(2, 1) };
  await c.model("places, keys and calls", { module: "DataCenters", spec: "Spec", constants, invariants: ["Right", "OneKey", "OwnDc"], properties: ["NoFalseSuccess", "Tickets", "Kept"] });
  const plans: [string, Plan][] = [
    ["calls", { steps: 40, odds: { revoke: 1, err: 0.1, hold: 0.3 } }],
    ["losses", { steps: 50, odds: { loss: 2, revoke: 0.5, hold: 0.2, tick: 3 } }],
    ["openings refused", { steps: 40, odds: { openFail: 0.2, hold: 0.2, tick: 2, loss: 0.5 } }],
    ["restarts", { steps: 40, odds: { reconnect: 0.6, restart: 0.6, salt: 2, hold: 0.1 } }],
    ["idle", { steps: 40, odds: { idle: 2, revoke: 1, salt: 0.5 } }],
    ["files", { steps: 40, odds: { media: 4, call: 2, revoke: 1, hold: 0.2, salt: 0.5, restart: 0.3 } }],
    ["migration", { steps: 20, migrate: true, signed: false, odds: { restart: 0.5, revoke: 0.5 } }],
    ["everything", { steps: 60, odds: { loss: 1, revoke: 1, salt: 1, idle: 0.3, reconnect: 0.5, restart: 0.5, err: 0.1, hold: 0.2, openFail: 0.05, tick: 2 } }],
  ];
  const all = new Map(plans.map(([n]) => [n, [] as any[]]));
  const r = rng(SEED * 77);
  const t0 = RD.now();
  while (RD.now() - t0 < pick(40_000, 500_000)) for (const [n, p] of plans) { const seed = r.int(1 << 30); await c.record(n, all.get(n)!, () => runLife(rng(seed), p)); }
  const traceConstants = { DCs: "{1, 2, 4, 5}", First: 2, Pool: 8, MaxCalls: 0, MaxKeys: 0, MaxTickets: 0, MaxTrouble: 0 };
  for (const [n, traces] of all) await c.validate(n, { module: "DataCentersTrace", init: "InitT", next: "NextT", constants: traceConstants }, traces);
});
