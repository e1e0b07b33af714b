import { main, pick, SEED } from "../lib/check.ts";
import { type DownloadCfg, runDownloads } from "../lib/files_world.ts";
import { rng } from "../lib/graph.ts";

await main("F02", [
  "Of the storage backends that run here only the IndexedDB one keeps files; it runs on a stand-in for the browser's IndexedDB.",
  "Giving up on a request that failed at least five times is allowed; when to retry is left open.",
], async (c) => {
  await c.model("shared cache", { module: "Download", constants: { Size: 7, Chunks: "{2, 3}", N: 3, Exclusive: "TRUE" }, invariants: ["Inv"] });
  const r = rng(SEED);
  const traces: any[] = [];
  const RD = Date, start = RD.now();
  const n = pick(6000, 60_000), ms = pick(25_000, 600_000);
  for (let i = 0; i < n && RD.now() - start < ms; i++) {
    const k = 1024;
    const size = () => r.pick([0, 1, 15, 16, 17, k - 1, k, k + 1, 2 * k, 3 * k + 5, 4 * k, 5 * k, 8 * k, 8 * k + 1, r.int(20 * k)]);
    const sets: DownloadCfg["files"][] = [
      [{ kind: "document", id: 1, size: size() }],
      [{ kind: "document", id: 1, size: size() }, { kind: "thumbnail", id: 1, size: size() }],
      [{ kind: "big", id: 2, size: size() }, { kind: "small", id: 2, size: size() }],
      [{ kind: "encrypted", id: 3, size: 1 + size() }],
      [{ kind: "photo", id: 4, size: size() }, { kind: "document", id: 1, size: size() }, { kind: "encrypted", id: 3, size: 1 + size() }],
    ];
    await c.record("downloads of the real code", traces, () => runDownloads({
      files: sets[i % sets.length], downloads: 2 + r.int(4), together: 1 + r.int(3), chunks: r.pick([[k], [k, 2 * k], [k, 2 * k, 4 * k], [3 * k, 4 * k]]), offsets: r.pick([[0], [0, 0, 1, 2, 3], [0, 1, 5, 21]]),
      failRate: r.pick([0, 0, 0.2]), fatalRate: r.pick([0, 0.3]), abortRate: r.pick([0, 0, 0.03]), leaveRate: r.pick([0, 0, 0.05]), scribble: r.int(3) === 0,
      backend: r.int(6) ? "indexeddb" : "memory", storageFails: r.int(8) ? -1 : r.int(6), chunked: false,
    }, rng(SEED * 1000 + i), c.unhandled));
  }
  await c.validate("downloads of the real code", { module: "DownloadTrace", init: "InitT", next: "NextT", constants: { Size: 1, Chunks: "{1}", N: 0, Exclusive: "TRUE" } }, traces);
});
