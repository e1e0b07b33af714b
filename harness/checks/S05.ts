import { main, quick } from "../lib/check.ts";
import { ASSUMPTIONS, session } from "../lib/session_suites.ts";
const all = (o: any) => o;
await main("S05", ASSUMPTIONS, async (c) => {
  await session(c, "foreign", "Invoke Result Update Ignored Invalidate Disconnect", 2, 2, all);
  await session(c, "replacement", "Invoke Result Update Invalidate InvalidateSlow InvalidateFail Ignored Disconnect", 2, 1, all);
  await session(c, "connection", "Invoke Ping Result Drop Disconnect Ignored Invalidate", 2, 1, all);
  await session(c, "off", "Invoke Result Drop Disconnect Hold Invalidate", 2, 1, all);
  if (!quick) await session(c, "all", "Invoke Result Update Invalidate InvalidateSlow InvalidateFail Ignored Disconnect Drop Hold", 3, 1, all);
});
