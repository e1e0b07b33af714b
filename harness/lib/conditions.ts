// Handlers behind the predefined conditions, one update at a time.
import { Composer } from "/repo/client/5_composer.ts";

const chat = (type: string) => ({ id: 1, type });
const msg = (s: string, extra: any = {}) => ({ id: 1, type: s, chat: chat("private"), from: { id: 1 }, [s]: "x", ...extra });
function updateOf(u: any): any {
  switch (u.t) {
    case "message": case "editedMessage": case "scheduledMessage": return { type: u.t, [u.t]: msg(u.s) };
    case "secretMessage": return { type: u.t, [u.t]: { id: 1, type: u.s, [u.s]: "x" } };
    case "callbackQuery": return { type: u.t, [u.t]: { id: "1", from: { id: 1 }, [u.s]: u.s === "message" ? msg("text") : "x" } };
    case "chosenInlineResult": return { type: u.t, [u.t]: { from: { id: 1 }, query: "q", resultId: "1", ...(u.s ? { [u.s]: "x" } : {}) } };
    case "update": return { type: "update", update: { _: u.s } };
    case "inlineQuery": return { type: u.t, [u.t]: { id: "1", from: { id: 1 }, query: "q", offset: "" } };
    case "connectionState": return { type: u.t, [u.t]: "ready" };
    default: return { type: u.t, [u.t]: [] };
  }
}
const one = (xs: any[]) => xs.length === 1 && typeof xs[0] === "string" ? xs[0] : xs;

export class ConditionDriver {
  async step(a: any) {
    const c = new Composer<any>();
    let hit = 0, past = 0;
    const h = () => { hit++; };
    let user: any = { id: 1, isBot: true, username: "me" };
    let u: any;
    switch (a.n) {
      case "Query": c.on(a.q.join(":"), h); u = updateOf(a.u); break;
      case "Command": {
        const { s, t } = a;
        user = { id: 1, isBot: s.bot, ...(s.name ? { username: "Me" } : {}) };
        if (s.fallback.length) c.prefixes = s.fallback;
        const names = s.cmd === "re" ? /^(he|sta)/ : s.cmd === "both" ? ["start", /^help$/] : s.cmd;
        c.command(s.own.length ? { names, prefixes: one(s.own) } : names as any, h);
        u = { type: s.in, [s.in]: msg("text", { text: t.p + t.c + (t.at ? `@${t.at}` : "") + t.r }) };
        break;
      }
      case "Data": {
        const w = a.w.map(([k, v]: string[]) => k === "=" ? v : new RegExp(v, k === "~g" ? "g" : ""));
        (c as any)[a.k](w.length === 1 ? w[0] : w, h);
        u = { type: a.in, [a.in]: { id: "1", from: { id: 1 }, query: a.d, data: a.d, resultId: "1" } };
        if (a.in === "game") u = { type: "callbackQuery", callbackQuery: { id: "1", from: { id: 1 }, gameShortName: a.d } };
        break;
      }
      case "Chat": {
        c.chatType(a.cs.length === 1 ? a.cs[0] : a.cs, h);
        const m = msg("text", { chat: chat(a.c) });
        u = a.in === "callbackQuery" ? { type: a.in, callbackQuery: { id: "1", from: { id: 1 }, message: m } } : a.in === "callbackInline" ? { type: "callbackQuery", callbackQuery: { id: "1", from: { id: 1 }, inlineMessageId: "x" } }
          : a.in === "inlineQuery" ? updateOf({ t: "inlineQuery" }) : { type: a.in, [a.in]: a.in.includes("essage") && a.in !== "messageReactions" ? m : { chat: chat(a.c), user: { id: 1 }, from: { id: 1 } } };
        break;
      }
    }
    c.use(() => { past++; });
    for (let i = 1; i <= 2; i++) { // the same condition must say the same again
      await c.handleUpdate({ getMe: () => Promise.resolve(user) } as any, u);
      if (hit + past !== i || hit * past) return { hit, past };
    }
    return hit > 0;
  }
}
