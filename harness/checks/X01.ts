import { main, pick, quick } from "../lib/check.ts";
import { chat, chatModel, numbers } from "../lib/secret_suites.ts";

await main("X01", [
  "Updates of a chat are handed to the manager one after the other (UpdateManager's queue; U01, Q01).",
  "A lost resend request, or a lost answer to it, is not asked for again before the peer's next message.",
], async (c) => {
  await chat(c, "gaps", "UA", "Repeat", { sent: 5 });
  await chat(c, "gaps back", "UF", "Repeat", { sent: 5 });
  await chat(c, "both ways", "UE", "", { sent: 5, budgetMs: pick(15_000, 300_000) });
  await chat(c, "losses", "UA", "", { sent: 5, lose: 1 });
  await chat(c, "failed requests", "UE", "Fail", { sent: 5, fail: 1, budgetMs: pick(15_000, 300_000) });
  await numbers(c, "numbers to A", "A", "AskFor", { budgetMs: pick(14_000, 300_000) });
  await numbers(c, "numbers to B", "B", "AskFor", { budgetMs: pick(14_000, 300_000) });
  await chatModel(c, "model both ways", "UB", "Repeat", { sent: 5 });
  if (!quick) {
    await chat(c, "both ways, repeated", "UB", "Repeat", { sent: 5 });
    await chatModel(c, "model losses", "UB", "", { sent: 5, lose: 1, age: 1 });
    await chatModel(c, "model repeats", "UB", "Repeat", { sent: 6 });
  }
});
