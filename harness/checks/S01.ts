import { main, pick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { ID_OPS, MESSAGE_IDS_TRACE, recordIds } from "../lib/session_ids.ts";

await main("S01", ["The server's own identifiers follow its clock, as the protocol requires of it.", "Identifier carries into the next second (2^30 messages within one second) are not explored."], async (c) => {
  await c.model("design", { module: "MessageIds", constants: { Secs: pick("0..2", "0..3"), Diffs: "0..2", MaxFrames: pick(3, 4) }, invariants: ["Increasing"] });
  const traces: any[] = [];
  // every schedule of a few stimuli with clock moves between transmissions
  const short = ["call", "update", "refuse", "low", "high", "forward", "back", "lose"];
  const depth = pick(3, 4);
  const rec = (p: string[]): string[][] => p.length === depth ? [p] : short.flatMap((o) => rec([...p, o]));
  for (const p of rec([])) await c.record("wire", traces, () => recordIds(SEED, ["call", ...p, "two"]));
  for (let i = 0; i < pick(700, 6000); i++) {
    const r = rng(SEED * 7907 + i);
    const n = pick(40, 80);
    await c.record("wire", traces, () => recordIds(SEED * 31 + i, Array.from({ length: n }, () => r.pick(ID_OPS))));
  }
  await c.validate("wire", MESSAGE_IDS_TRACE, traces, { batch: 150 });
});
