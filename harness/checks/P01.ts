import "../lib/backends.ts";
import { type Check, main, pick, TIER } from "../lib/check.ts";
import { PeersDriver } from "../lib/peers_world.ts";

const set = (s: string) => `{${s.split(" ").filter(Boolean).map((x) => `"${x}"`).join(", ")}}`;
async function peers(c: Check, name: string, o: { users: string; channels?: string; names?: string; phones?: string; v?: number; on: string; persist?: boolean; budgetMs?: number }) {
  await c.conform(name, {
    module: "Peers", invariants: ["Inv"], properties: ["Known"],
    constants: { Users: set(o.users), Channels: set(o.channels ?? ""), Names: set(o.names ?? ""), Phones: set(o.phones ?? ""), MaxV: o.v ?? 1, On: set(o.on) },
  }, () => PeersDriver.make({ bot: o.on.includes("Bot"), persist: o.persist }), { maxLen: 150, budgetMs: o.budgetMs ?? pick(25_000, 300_000), randomMs: pick(1_000, 10_000) });
}

await main("P01", [
  "Messages of senders not known in full come in channels that are.",
  "A name is learnt again within the second or after more than a day: between a minute and a day the client may ask again.",
], async (c) => {
  await peers(c, "known", { users: "u1 u2", channels: "c1", v: 2, on: "" });
  await peers(c, "seen in messages", { users: "u1", channels: "c1 c2", v: 1, on: "Talk" });
  await peers(c, "names", { users: "u1 u2", channels: "c1", names: "n1", v: 1, on: "Name Age" });
  await peers(c, "changed names", { users: "u1", names: "n1 n2", v: 2, on: "Rename Tell Name" });
  await peers(c, "names of channels", { users: "u1", channels: "c1", names: "n1", v: 2, on: "Tell Name Rename" });
  await peers(c, "a bot", { users: "u1", channels: "c1", names: "n1", v: 1, on: "Bot Name Age Talk" });
  await peers(c, "phones", { users: "u1 u2", names: "n1", phones: "t1", v: 1, on: "Name Age" });
  await peers(c, "restarts", { users: "u1", channels: "c1", names: "n1", v: 2, on: "Restart Name Tell Talk", persist: true });
  if (TIER === "thorough") {
    await peers(c, "more of everything", { users: "u1 u2", channels: "c1 c2", names: "n1", v: 2, on: "Name Talk Tell" });
    await peers(c, "a bot and more", { users: "u1 u2", channels: "c1", names: "n1 n2", phones: "t1", v: 2, on: "Bot Name Age Talk Rename" });
    await peers(c, "restarts of a bot", { users: "u1", channels: "c1 c2", names: "n1 n2", v: 2, on: "Bot Restart Name Tell Talk Age", persist: true });
  }
});
