import { main, pick, quick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { MESSAGE_IDS_TRACE, recordIds } from "../lib/session_ids.ts";
import { ASSUMPTIONS, session } from "../lib/session_suites.ts";
const wire = (o: any) => ({ tx: o.tx, sl: o.sl, txs: o.txs });
await main("S04", [...ASSUMPTIONS, "A correction says the server's clock at the moment it is made (in its own message id)."], async (c) => {
  await session(c, "salts", "Invoke Result BadSalt NewSession Old BadMsg", 2, 1, wire, { nsalt: 2 });
  await session(c, "boxes", "Invoke Result Update BadBox BadMsg BadSalt NotInited", 2, 1, wire, { nsalt: 2 });
  await session(c, "in-flight", "Invoke Result Hold BadMsg BadSalt Invalidate", 2, 1, wire);
  await session(c, "replacement", "Invoke Ping Result Invalidate InvalidateSlow BadSalt Drop Disconnect", 2, 1, wire);
  await session(c, "three calls", "Invoke Result BadSalt BadMsg", 3, 1, wire);
  // clock corrections: identifiers after them follow the corrected clock, wherever it was before
  const traces: any[] = [];
  const kinds = ["call", "low", "high", "forward", "back"];
  const depth = pick(4, 5);
  const rec = (p: string[]): string[][] => p.length === depth ? [p] : kinds.flatMap((o) => rec([...p, o]));
  for (const p of rec([])) if (p.includes("low") || p.includes("high")) await c.record("clock corrections", traces, () => recordIds(SEED, ["call", ...p, "forward", "two"]));
  for (let i = 0; i < pick(150, 2000); i++) {
    const r = rng(SEED * 6007 + i);
    await c.record("clock corrections", traces, () => recordIds(SEED * 37 + i, Array.from({ length: 40 }, () => r.pick([...kinds, "answer", "refuse", "two", "lose", "restart"]))));
  }
  await c.validate("clock corrections", MESSAGE_IDS_TRACE, traces, { batch: 150 });
  if (!quick) {
    await session(c, "salts-3", "Invoke Result BadSalt NewSession Old BadMsg BadBox", 3, 2, wire, { nsalt: 2 });
    await session(c, "in-flight-3", "Invoke Result Hold BadMsg BadSalt Invalidate", 3, 1, wire);
    await session(c, "in-flight-ping", "Invoke Ping Result Hold BadMsg BadSalt Invalidate Drop", 3, 1, wire);
  }
});
