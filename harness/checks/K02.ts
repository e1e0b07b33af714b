import { type Check, main, pick, quick } from "../lib/check.ts";
import { CacheDriver, sortSets } from "../lib/cache_world.ts";

async function cells(c: Check, name: string, cells: string[], on: string, n: { sets: number; gets: number; commits: number; budgetMs?: number }) {
  const set = (xs: string[]) => `{${xs.filter(Boolean).map((x) => `"${x}"`).join(", ")}}`;
  await c.conform(name, {
    module: "CachedStore", invariants: ["Inv"], properties: ["Complete"],
    constants: { Cells: set(cells), MaxSet: n.sets, MaxGet: n.gets, MaxCommit: n.commits, On: set(on.split(" ")) },
  }, () => CacheDriver.make(cells), { project: sortSets, heap: "8g", maxLen: 60, budgetMs: n.budgetMs ?? pick(20_000, 300_000), randomMs: pick(1_500, 30_000) });
}
await main("K02", [
  "The storage is modelled with writes that count when they are answered and reads that return what was stored when they were asked for.",
  "On the memory backend the cache is the store (up to 20000 entries of a kind) and commits do nothing.",
], async (c) => {
  await cells(c, "one map", ["x", "y"], "Fail", { sets: 3, gets: 1, commits: 2 });
  await cells(c, "record", ["a"], "Fail Reset Wait Crash", { sets: 2, gets: 2, commits: 3 });
  await cells(c, "map and record", ["x", "a"], "Reset Crash Wait", { sets: 2, gets: 2, commits: 2 });
  await cells(c, "two maps", ["x", "y", "z"], "Fail Crash", { sets: 3, gets: 0, commits: 2 });
  await cells(c, "full cache", ["x"], "Fail Evict", { sets: 2, gets: 1, commits: 2 });
  if (!quick) {
    await cells(c, "full cache, resets", ["x"], "Fail Reset Evict", { sets: 2, gets: 2, commits: 2 });
    await cells(c, "map and record, failures", ["x", "y", "a"], "Fail", { sets: 3, gets: 1, commits: 2 });
    await cells(c, "resets and failures", ["x", "a"], "Fail Reset Wait Crash", { sets: 3, gets: 2, commits: 3 });
    await cells(c, "three commits", ["x", "y"], "Fail", { sets: 3, gets: 2, commits: 3 });
  }
});
