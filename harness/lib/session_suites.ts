// The suites of Session.tla used by the checks about encrypted sessions.
import { type Check, pick } from "./check.ts";
import { SessionDriver } from "./session_driver.ts";

export async function session(c: Check, name: string, on: string, n: number, k: number, project: (o: any) => any, o: { nsalt?: number; budgetMs?: number; randomMs?: number; maxLen?: number } = {}) {
  // harness exceptions and undecodable transmissions are always part of what is observed
  const proj = (x: any) => x.harnessException || x.harness || x.err ? x : project(x);
  await c.conform(name, {
    module: "Session", invariants: ["Inv"], properties: ["TxOk"],
    constants: { N: n, K: k, NSalt: o.nsalt ?? 1, MaxQ: 2, On: `{${on.split(" ").map((x) => `"${x}"`).join(", ")}}` },
  }, () => SessionDriver.make(proj), { project: proj, heap: "6g", maxLen: o.maxLen ?? 60, budgetMs: o.budgetMs ?? pick(60_000, 900_000), randomMs: o.randomMs ?? pick(2_000, 60_000) });
}
export const ASSUMPTIONS = [
  "One stimulus is followed to quiescence before the next; overlap is represented by transmissions held in flight and connections opening slowly.",
  "Closing a connection ends a transmission in flight, with success or failure; a transport whose write never returns is not considered.",
];
