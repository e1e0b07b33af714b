import { main, pick, SEED } from "../lib/check.ts";
import { DH, GEN, type Plan, PQ, runClient, runExchanges } from "../lib/ke_world.ts";
import { rng } from "../lib/graph.ts";

await main("S06", [
  "An exchange in which any answer was not the genuine one may be given up; one in which all were genuine may not.",
  "RSA, Diffie-Hellman, AES and SHA are taken as sound; the server's own values are a standard 2048-bit group and RSA key.",
], async (c) => {
  await c.model("exchanges", { module: "KeyExchange", constants: { Exch: "{1,2}", MaxS: 3, MaxBad: pick(1, 2), MaxAtt: 2, Checked: "TRUE" }, invariants: ["Agreement", "Own", "Possible"] });
  const traces: any[] = [], whole: any[] = [];
  const r = rng(SEED);
  const RD = Date;
  // every answer at every stage, alone
  const single: Plan[] = [...PQ.map((k) => ({ pq: [k], dh: [], gen: [] })), ...DH.map((k) => ({ pq: [], dh: [k], gen: [] })), ...GEN.map((k) => ({ pq: [], dh: [], gen: [k] }))];
  for (let k = 0; k < pick(4, 20); k++) {
    for (const [i, p] of single.entries()) {
      // after another exchange, whose values the network may hand out again, and at the same time as one
      await c.record("exchanges of the real code", traces, () => runExchanges([{ pq: [], dh: [], gen: [] }, p], [r.int(2) === 0, r.int(2) === 0], rng(SEED * 1000 + i * 31 + k), { together: k % 2 === 1 }));
    }
  }
  const some = (list: string[], odds: number) => Array.from({ length: 3 }, () => r.int(odds) ? "ok" : r.pick(list));
  const plan = (odds: number): Plan => ({ pq: some(PQ, odds), dh: some(DH, odds), gen: some(GEN, odds) });
  let t0 = RD.now();
  while (RD.now() - t0 < pick(12_000, 240_000)) {
    const n = 1 + r.int(3);
    await c.record("exchanges of the real code", traces, () => runExchanges(Array.from({ length: n }, () => plan(3)), Array.from({ length: n }, () => r.int(2) === 0), rng(r.int(1 << 30)), { together: r.int(2) === 0 }));
  }
  t0 = RD.now();
  const refusals = ["ENCRYPTED_MESSAGE_INVALID", "TEMP_AUTH_KEY_ALREADY_BOUND", "NONCE"];
  void refusals;
  while (RD.now() - t0 < pick(12_000, 240_000)) {
    const odds = r.pick([2, 4, 8, 1000]);
    await c.record("connections of the real code", whole, () => runClient(Array.from({ length: 30 }, (_, i) => i > 6 && odds > 2 ? { pq: [], dh: [], gen: [] } : plan(odds)), rng(r.int(1 << 30)), { pfs: r.int(2) === 0, calls: r.int(3), reconnect: r.int(3), bind: [] }));
  }
  const constants = { Exch: "{1}", MaxS: 1, MaxBad: 0, MaxAtt: 1, Checked: "TRUE" };
  await c.validate("exchanges of the real code", { module: "KeyExchangeTrace", init: "InitT", next: "NextT", constants }, traces);
  await c.validate("connections of the real code", { module: "KeyExchangeTrace", init: "InitT", next: "NextT", constants }, whole);
});
