import { main, pick, quick } from "../lib/check.ts";
import { chat, life, numbers } from "../lib/secret_suites.ts";

await main("X03", [
  "The answer to requestEncryption comes before notices about the chat; a request announced again is the same request.",
  "Of chats that ended before a restart the server announces only that they are ready or have ended.",
  "A restart happens between two operations: none is under way.",
], async (c) => {
  await life(c, "requested", "A", "Early Again Restart");
  await life(c, "accepted", "B", "Early Again Restart");
  await life(c, "requested, IndexedDB", "A", "Again Restart", { backend: "indexeddb", budgetMs: pick(8_000, 120_000) });
  await chat(c, "gaps", "UE", "Restart", { sent: 4, budgetMs: pick(15_000, 200_000) });
  await chat(c, "exchange", "UD", "Restart", { sent: 5, age: 1, budgetMs: pick(20_000, 300_000) });
  await numbers(c, "numbers", "A", "AskFor Restart", { budgetMs: pick(14_000, 300_000) });
  if (!quick) {
    await numbers(c, "numbers to B", "B", "AskFor Restart");
    await chat(c, "exchange, IndexedDB", "UD", "Restart", { sent: 5, age: 1, backend: "indexeddb" });
  }
});
