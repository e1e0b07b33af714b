// Lives of a Client at several data centers: random calls, refusals, losses, restarts and migrations, recorded for DataCentersTrace.
import "./backends.ts";
import { Client } from "/repo/client/6_client.ts";
import { StorageLocalStorage } from "/repo/2_storage.ts";
import { AuthKey } from "./mtproto.ts";
import { type Call, type DcConn, type Key, Net, quiet, tick } from "./client_world.ts";
import { advance, clearTimers, installVirtualTime } from "./vt.ts";
import type { Rng } from "./graph.ts";

export interface Plan { steps: number; odds: Record<string, number>; migrate?: boolean; signed?: boolean }
export async function runLife(r: Rng, plan: Plan) {
  installVirtualTime(1_700_000_000_000 + r.int(1_000_000) * 1000);
  clearTimers();
  localStorage.clear();
  const ev: any[] = [], net = new Net(r), keys: bigint[] = [], place = (c: DcConn) => ({ dc: Number(c.dc), media: c.media });
  const keyNo = (id: bigint) => keys.indexOf(id) + 1;
  let seen = 0;
  const flush = () => {
    const fresh = [];
    for (const s of net.kw.ses) {
      if (!s.key) continue;
      const id = new AuthKey(s.key).id;
      if (!keys.includes(id)) { keys.push(id); fresh.push({ n: "Exch", dc: Math.abs(s.dc), media: s.dc < 0, key: keys.length }); }
    }
    seen = keys.length;
    ev.push(...fresh);
  };
  void seen;
  let leaving = false; // a client is not disconnected while it sets up a connection
  let trouble = true; // no more troubles at the end
  net.hook = {
    frame: (c, k) => { flush(); if (!c.used) ev.push({ n: "Up", ...place(c), key: keyNo(k.key.id) }); },
    closed: (c) => { flush(); net.calls = net.calls.filter((x) => x.conn !== c); ev.push({ n: "Closed", ...place(c) }); },
    badSalt: (c, k) => ev.push({ n: "BadSalt", key: keyNo(k.key.id), media: c.media }),
    refuseOpen: (c) => { if (trouble && r() < (plan.odds.openFail ?? 0)) { flush(); ev.push({ n: "OpenFail", ...place(c) }); return true; } return false; },
    holdOpen: () => trouble && !leaving && r() < (plan.odds.hold ?? 0),
  };
  const calls: { need: boolean; settled: boolean; dc: number }[] = [];
  let tickets = 0;
  const bots = new Map<string, number>();
  const account = (key: Key) => key.user !== 0;
  const exportOf = new Map<Call, number>(), importOf = new Map<Call, number>();
  // what comes by itself, and what is recorded when it comes
  net.auto = (x) => {
    const q = x.q, key = keyNo(x.key.key.id);
    switch (q._) {
      case "help.getDeepLinkInfo": ev.push({ n: "Arrive", k: Number(q.path), ...place(x.conn), key }); return false;
      case "auth.importBotAuthorization": ev.push({ n: "Arrive", k: bots.get(q.bot_auth_token), ...place(x.conn), key }); return false;
      case "auth.exportAuthorization": ev.push({ n: "Export", t: ++tickets, dc: q.dc_id, on: Number(x.conn.dc), key }); exportOf.set(x, tickets); return false;
      case "auth.importAuthorization": { const t = q.bytes[0] | q.bytes[1] << 8; ev.push({ n: "Import", t, ...place(x.conn), key }); importOf.set(x, t); return false; }
      case "updates.getState": net.error(x, 401, "AUTH_KEY_UNREGISTERED"); return true;
      default: net.error(x, 400, "METHOD_INVALID"); return true;
    }
  };
  const serve = (x: Call, kind: string) => {
    const why = (w: string) => w;
    if (exportOf.has(x)) {
      const t = exportOf.get(x)!;
      const bad = kind === "err" ? "DC_ID_INVALID" : "";
      ev.push({ n: "Exported", t, why: bad });
      if (bad) net.error(x, 400, bad); else net.answer(x, { _: "auth.exportedAuthorization", id: 1n, bytes: new Uint8Array([t & 255, t >> 8, 0]) });
    } else if (importOf.has(x)) {
      const t = importOf.get(x)!;
      const bad = kind === "err" ? "AUTH_BYTES_INVALID" : "";
      ev.push({ n: "Imported", t, key: keyNo(x.key.key.id), why: bad });
      if (bad) net.error(x, 400, bad); else { x.key.user = 1; net.answer(x, { _: "auth.authorization", user: { _: "userEmpty", id: 1n } }); }
    } else {
      const k = x.q._ === "help.getDeepLinkInfo" ? Number(x.q.path) : bots.get(x.q.bot_auth_token)!;
      const call = calls[k - 1];
      if (call.need && !account(x.key)) { ev.push({ n: "Server", k, what: "unreg", why: "" }); net.error(x, 401, "AUTH_KEY_UNREGISTERED"); }
      else if (x.q._ !== "help.getDeepLinkInfo") {
        if (kind === "migrate" && !migrated) {
          migrated = true;
          const dc = r.pick([1, 4, 5]);
          ev.push({ n: "Migrate", k, dc });
          net.error(x, 303, `USER_MIGRATE_${dc}`);
        } else { ev.push({ n: "Server", k, what: "err", why: "ACCESS_TOKEN_INVALID" }); net.error(x, 400, "ACCESS_TOKEN_INVALID"); }
      } else if (kind === "err") { const w = why("BAD"); ev.push({ n: "Server", k, what: "err", why: w }); net.error(x, 400, w); }
      else { ev.push({ n: "Server", k, what: "ok", why: "" }); net.answer(x, { _: "help.deepLinkInfo", message: `m${k}` }); }
    }
  };
  let migrated = false;
  let client: any;
  const make = () => client = new Client({ ...net.params(), storage: new StorageLocalStorage("x"), defaultHandlers: false } as any);
  const connect = async () => {
    for (let i = 0; i < 20; i++) {
      let st = "";
      client.connect().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
      for (let j = 0; j < 80 && !st; j++) { await quiet(); release(); if (j > 40) await tick(1000); }
      if (st === "up") return;
      if (!/ConnectionError|Failed/.test(st)) throw new Error(`connecting: ${st}`);
      await tick(2000);
    }
    throw new Error("no connection");
  };
  const release = () => { const h = net.conns.filter((c) => c.opening); if (h.length) { const c = r.pick(h); c.opening!.resolve(); c.opening = null; } };
  const settled = (k: number, p: Promise<any>) => p.then((v) => {
    calls[k - 1].settled = true;
    ev.push({ n: "Settle", k, r: v?.message === `m${k}` ? "ok" : "wrong", why: "" });
  }, (e) => {
    calls[k - 1].settled = true;
    const name = e?.constructor?.name, text = e?.errorMessage;
    ev.push({ n: "Settle", k, r: text ? "err" : name === "ConnectionError" || name === "RetryError" ? "conn" : `${e}`.slice(0, 60), why: text ?? "" });
  });
  const sign = () => {
    const c = net.conns.find((c) => c.used && !c.media && c.dc === client.storage?.auth.mustGet().dc);
    void c;
    const id = new AuthKey(client.storage.auth.mustGet().authKey).id;
    flush();
    const k = net.keys.get(id) ?? net.adopt(id);
    if (k) { k.user = 1; ev.push({ n: "Signed", key: keyNo(id) }); }
  };
  const disconnect = async () => {
    leaving = true;
    for (let i = 0; i < 60 && (i < 2 || net.conns.some((c) => c.opening)); i++) { release(); await quiet(); }
    ev.push({ n: "Disconnect" });
    let st = "";
    client.disconnect().then(() => st = "down", (e: any) => st = String(e));
    for (let i = 0; i < 20 && !st; i++) { await quiet(); release(); }
    for (let i = 0; i < 40 && calls.some((c) => !c.settled); i++) { await quiet(); release(); if (i > 10) await tick(1000); }
    flush();
    leaving = false;
    if (st !== "down") throw new Error(`disconnecting: ${st}`);
    net.calls.length = 0;
  };
  const weights: Record<string, number> = { call: 6, serve: 10, media: 0, release: 3, tick: 1, revoke: 0, loss: 0, salt: 0, idle: 0, reconnect: 0, restart: 0, ...plan.odds };
  const total = Object.entries(weights).filter(([k]) => !["openFail", "hold", "err"].includes(k));
  const choose = () => { let x = r() * total.reduce((a, [, w]) => a + w, 0); for (const [k, w] of total) if ((x -= w) < 0) return k; return "serve"; };
  let fault: string | null = null;
  try {
    make();
    await connect();
    if (plan.signed !== false) sign();
    const call = (dc: number, media: boolean, need: boolean) => {
      const k = calls.length + 1;
      calls.push({ need, settled: false, dc });
      ev.push({ n: "Call", k, dc: media && !dc ? mainDc() : dc, media, need });
      const p: any = media ? { type: "download", ...(dc ? { dc: String(dc) } : {}) } : dc ? { dc: String(dc) } : undefined;
      settled(k, client.invoke({ _: "help.getDeepLinkInfo", path: String(k) }, p));
    };
    const mainDc = () => Number(client.storage.auth.mustGet().dc);
    if (plan.migrate) {
      const n = r.int(3);
      for (let i = 0; i < n; i++) { call(r.pick([0, 2, 4]), false, false); await quiet(); while (net.calls.length) { serve(net.calls[0], "ok"); await quiet(); } }
      const k = calls.length + 1;
      calls.push({ need: false, settled: false, dc: 0 });
      ev.push({ n: "Call", k, dc: 0, media: false, need: false });
      bots.set(`token${k}`, k);
      settled(k, client.checkBotToken(`token${k}`));
      if (r.int(2)) call(0, false, false);
      for (let i = 0; i < 60 && !calls[k - 1].settled; i++) { await quiet(); release(); if (net.calls.length) serve(r.pick(net.calls), "migrate"); if (i > 30) await tick(1000); }
      await quiet();
      sign();
    }
    for (let s = 0; s < plan.steps; s++) {
      switch (choose()) {
        case "call": if (calls.filter((c) => !c.settled).length < 4) call(r.pick([0, 2, 4, 4, 5]), false, r.int(3) > 0); break;
        case "media": if (calls.filter((c) => !c.settled).length < 4) call(r.pick([0, 4]), true, r.int(2) > 0); break;
        case "serve": if (net.calls.length) serve(r.pick(net.calls), r() < (plan.odds.err ?? 0) ? "err" : "ok"); break;
        case "release": release(); break;
        case "tick": await tick(r.pick([300, 3000, 20_000])); break;
        case "revoke": {
          const known = [...net.keys.values()].filter((k) => k.user && k.dc !== mainDc());
          if (known.length) { const k = r.pick(known); k.user = 0; ev.push({ n: "Revoked", key: keyNo(k.key.id) }); }
          break;
        }
        case "loss": {
          const open = net.conns.filter((c) => c.isConnected);
          if (open.length) { const c = r.pick(open); flush(); ev.push({ n: "Loss", ...place(c) }); net.calls = net.calls.filter((x) => x.conn !== c); c.lose(); }
          break;
        }
        case "salt": {
          const used = [...net.keys.values()];
          if (used.length) { const k = r.pick(used); k.salt += 1n + BigInt(r.int(1000)); ev.push({ n: "Salt", key: keyNo(k.key.id) }); }
          break;
        }
        case "idle": {
          for (let i = 0; i < 30 && (net.calls.length || net.conns.some((c) => c.opening)); i++) { release(); if (net.calls.length) serve(net.calls[0], "ok"); await quiet(); }
          ev.push({ n: "Idle" });
          await advance(7 * 60_000);
          break;
        }
        case "reconnect": await disconnect(); if (r.int(2)) await connect(); else { make(); ev.push({ n: "Restart" }); await connect(); } break;
        case "restart": await disconnect(); make(); ev.push({ n: "Restart" }); await connect(); break;
      }
      await quiet();
      flush();
    }
    trouble = false;
    for (let i = 0; i < 300 && calls.some((c) => !c.settled); i++) {
      await quiet();
      release();
      if (net.calls.length) serve(r.pick(net.calls), "ok"); else if (i > 20) await tick(2000);
    }
    flush();
    ev.push({ n: "Quiet" });
    await disconnect();
  } catch (err) { fault = String((err as any)?.stack ?? err); }
  for (const p of net.problems) ev.push({ n: p });
  if (fault) ev.push({ n: fault });
  clearTimers();
  return { events: ev, meta: { plan, calls: calls.length } };
}
