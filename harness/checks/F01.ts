import { main, pick, SEED } from "../lib/check.ts";
import { runUpload, type UploadCfg } from "../lib/files_world.ts";
import { rng } from "../lib/graph.ts";

await main("F01", [
  "The source is given as bytes, a stream or an iterator; paths and URLs are fetched by the platform.",
  "Giving up on a part that failed at least five times is allowed; when to retry is left open.",
], async (c) => {
  await c.model("uploads", { module: "Upload", constants: { Sizes: "{0, 1, 3, 4, 7, 8}", Chunk: 4, MaxFail: 2 }, invariants: ["Whole", "OneForm"] });
  const r = rng(SEED);
  const traces: any[] = [];
  const kinds: UploadCfg["kind"][] = ["buffer", "stream", "iterator", "async iterator"];
  const t0 = performance.now();
  const RD = Date, start = RD.now();
  const n = pick(5000, 60_000), ms = pick(20_000, 600_000);
  void t0;
  for (let i = 0; i < n && RD.now() - start < ms; i++) {
    const chunk = r.pick([1024, 1024, 2048, 4096]);
    const base = r.int(12) * chunk;
    const size = i % 97 === 5 ? 0 : Math.max(1, r.pick([1, 15, 16, 17, base, base + 1, base - 1, base + 8, base + 16, base + r.int(chunk)]));
    const doomed = i % 37 === 3;
    await c.record("uploads of the real code", traces, () => runUpload({
      size, chunk, enc: r.int(3) === 0, kind: kinds[i % 4], pool: 1 + r.int(3), progress: r.int(2) === 0,
      failRate: r.pick([0, 0, 0.15, 0.4]), fatalRate: r.pick([0, 0, 0.1]), abortAt: r.int(5) === 0 ? r.int(12) : -1, breakAt: r.int(8) === 0 ? r.int(8) : -1, doom: doomed ? r.int(3) : -1,
    }, rng(SEED * 1000 + i), c.unhandled));
  }
  // files too large for the small form, and streams of as many parts
  const mb = 1024 * 1024;
  const large: [UploadCfg["kind"], number, number][] = [["buffer", 10 * mb, 512 * 1024], ["buffer", 10 * mb + 1, 512 * 1024], ["buffer", 10 * mb + 600_000, 256 * 1024], ["stream", 10 * mb + 5, 512 * 1024]];
  for (const [k, [kind, size, chunk]] of large.entries()) {
    await c.record("uploads of the real code", traces, () => runUpload({ size, chunk, enc: false, kind, pool: 2, progress: true, failRate: 0.1, fatalRate: 0, abortAt: -1, breakAt: -1, doom: -1 }, rng(SEED * 77 + k), c.unhandled));
  }
  // parts of such files that fail for good, or are given up, while others are still to be sent
  for (let k = 0; k < pick(12, 60); k++) {
    await c.record("uploads of the real code", traces, () => runUpload({ size: 10 * mb + 1 + r.int(mb), chunk: 512 * 1024, enc: false, kind: k % 4 === 3 ? "stream" : "buffer", pool: 2, progress: false, failRate: 0.25, fatalRate: k % 3 ? 0.5 : 0, abortAt: k % 3 ? -1 : 3 + r.int(20), breakAt: -1, doom: -1 }, rng(SEED * 79 + k), c.unhandled));
  }
  await c.validate("uploads of the real code", { module: "UploadTrace", init: "InitT", next: "NextT", constants: { Sizes: "{1}", Chunk: 1, MaxFail: 1 } }, traces);
});
