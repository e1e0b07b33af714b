import { main, quick } from "../lib/check.ts";
import { ASSUMPTIONS, session } from "../lib/session_suites.ts";
const acks = (o: any) => ({ ak: o.ak });
await main("S03", [...ASSUMPTIONS, "Acknowledgements due when a session is replaced may be sent in the new session or dropped."], async (c) => {
  await session(c, "kinds", "Invoke Ping Result Update Detailed NewSession Batch", 2, 3, acks);
  await session(c, "refused", "Invoke Result Update Detailed BadBox BadMsg", 2, 3, acks);
  await session(c, "repeats", "Invoke Ping Result Old Update", 1, 3, acks);
  await session(c, "transport", "Invoke Result Update Hold Drop BadBox", 2, 2, acks);
  await session(c, "session loss", "Invoke Result Update Invalidate Disconnect Ignored BadMsg", 2, 2, acks);
  if (!quick) {
    await session(c, "refused-4", "Invoke Result Update Detailed BadBox BadMsg", 2, 4, acks);
    await session(c, "transport-3", "Invoke Result Update Hold Drop BadBox Invalidate Disconnect", 2, 3, acks);
  }
});
