import { main, pick, quick } from "../lib/check.ts";
import { chat, chatModel, exchange, keys, life } from "../lib/secret_suites.ts";

await main("X02", [
  "The answer to requestEncryption comes before notices about the chat.",
  "Updates of a chat are handed to the manager one after the other (UpdateManager's queue; U01, Q01).",
], async (c) => {
  await chat(c, "exchange", "UD", "", { sent: 5, age: 1, budgetMs: pick(20_000, 300_000) });
  await chat(c, "exchange, other winner", "UD", "", { sent: 5, age: 1, hi: "B", budgetMs: pick(20_000, 300_000) });
  await keys(c, "slow sends", "UA", { age: 2, hi: "A" });
  await keys(c, "slow sends of both", "UB", { hi: "B", budgetMs: pick(12_000, 300_000) });
  await keys(c, "slow sends of B", "UC", { hi: "A", budgetMs: pick(12_000, 300_000) });
  await life(c, "created by A", "A", "Early", { randomMs: 500 });
  await life(c, "created by B", "B", "Early", { randomMs: 500 });
  await exchange(c, "any peer", "A", "", { in: 3, budgetMs: pick(25_000, 200_000), randomMs: pick(500, 5_000) });
  await exchange(c, "any peer, any key", "B", "AnyKey", { in: 3, users: pick(1, 2), ex: pick(2, 3), budgetMs: pick(25_000, 200_000), randomMs: pick(500, 5_000) });
  if (!quick) {
    await exchange(c, "any peer, longer", "A", "", { in: 4, budgetMs: 300_000 });
    await exchange(c, "any peer, restarts", "B", "Restart", { in: 3, backend: "indexeddb", budgetMs: 200_000 });
    await chat(c, "exchange, failed requests", "UD", "Fail", { sent: 5, age: 1, fail: 1 });
    await chat(c, "exchange, repeated", "UD", "Repeat", { sent: 5, age: 1 });
    await chat(c, "exchange among messages", "UC", "", { sent: 5, age: 1, hi: "B" });
    await keys(c, "slow sends, two each", "UD", { hi: "B", sent: 7 });
    await chatModel(c, "model two exchanges", "UD", "", { sent: 6, age: 2 });
    await chatModel(c, "model among messages", "UB", "", { sent: 5, age: 1, hi: "B" });
  } else {
    await chat(c, "exchange, failed requests", "UD", "Fail", { sent: 5, age: 1, fail: 1, budgetMs: 12_000 });
    await chatModel(c, "model among messages", "UC", "", { sent: 5, age: 1, hi: "B" });
  }
});
