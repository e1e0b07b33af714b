import { main, quick } from "../lib/check.ts";
import { ASSUMPTIONS, session } from "../lib/session_suites.ts";
const settled = (o: any) => ({ s: o.s });
await main("S02", ASSUMPTIONS, async (c) => {
  await session(c, "answers", "Invoke Result Old Batch", 3, 3, settled);
  await session(c, "refusals", "Invoke Result Old BadSalt BadMsg BadBox NotInited Update", 2, 1, settled, { nsalt: 1 });
  await session(c, "in-flight", "Invoke Result Update Hold Invalidate Drop Disconnect BadMsg", 2, 1, settled);
  await session(c, "replacement", "Invoke Result Old InvalidateSlow InvalidateFail Drop Disconnect", 2, 1, settled);
  await session(c, "pings", "Invoke Ping Result Invalidate InvalidateFail Disconnect Drop BadMsg", 2, 1, settled);
  if (!quick) {
    await session(c, "answers-4", "Invoke Result Old Batch", 4, 3, settled);
    await session(c, "refusals-3", "Invoke Result Old BadSalt BadMsg BadBox NotInited", 3, 2, settled);
    await session(c, "in-flight-3", "Invoke Result Hold Invalidate Drop Disconnect BadMsg InvalidateSlow", 3, 1, settled);
  }
});
