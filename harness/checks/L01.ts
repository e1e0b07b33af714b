import { main, pick, quick, SEED } from "../lib/check.ts";
import { rng } from "../lib/graph.ts";
import { ctors, Gen, genBytes } from "../lib/tl_gen.ts";
import { fromSpec, idBytes, parseType, printType, schemaFromSpec, schemaToSpec, toSpec, used } from "../lib/tl_codec.ts";
import { Api, Mtproto, SecretChats } from "/repo/2_tl.ts";
import { TLReader } from "/repo/tl/1_tl_reader.ts";
import { TLWriter } from "/repo/tl/1_tl_writer.ts";
import { Net, quiet } from "../lib/client_world.ts";
import { installVirtualTime } from "../lib/vt.ts";
import { Client } from "/repo/client/6_client.ts";
import { deserializeMessage, writeMessage } from "/repo/tl/2_message.ts";

const NO = { ok: false };
const tryIt = (f: () => any) => { try { return f(); } catch { return NO; } };
// reads a type of a schema from a reader the way the client does: fields and results bare or not as declared, types boxed
const read = (r: any, t: any, schema: any) => {
  if (t.k === "ctor") return r.readResult(t.name, schema);
  return r.readType(printType(t), schema);
};
class Driver {
  schema: any;
  w: any;
  r: any;
  step(a: any): any {
    if (a.n === "Open") { this.schema = schemaFromSpec(a.schema); this.w = new TLWriter(); return NO; }
    if (a.n === "Write") return tryIt(() => { this.w.writeObject(fromSpec(a.v), this.schema); return { ok: true, b: [...this.w.buffer] }; });
    // what is read lies inside of a larger buffer
    if (a.n === "Lose") { const b = this.w.buffer, n = b.length - a.k, o = new Uint8Array(n + 24).fill(0xEE); o.set(b.subarray(0, n), 8); this.r = new TLReader(o.subarray(8, 8 + n)); return NO; }
    const t = a.t;
    return tryIt(() => { const v = read(this.r, t, this.schema); return { ok: true, v: toSpec(v, t.k === "just" ? { k: "kind" } : t, this.schema.definitions), left: this.r.buffer.length }; });
  }
  end() { return null; }
}

await main("L01", ["Strings are well-formed Unicode.", "Leniencies of the writer (null numbers, values of other types where text is expected) are not considered; lengths of 2^24 and more are refused.", "The numbers a maintainer of the protocol assigned by hand are listed in the specification."], async (c) => {
  const r = rng(SEED * 997 + 3);
  const N = 15, some = (n: number) => { const s = new Set<number>(); while (s.size < n) s.add(1 + r.int(N)); return `{${[...s]}}`; };
  const cfg = (k: any) => ({ module: "TLStream", spec: "Spec", constants: { FX: "{1}", FY: "{6}", Modes: "{1,2,3,4,5,6}", MaxItems: 1, Lost: "{0}", RT: "1..11", ...k }, invariants: ["Back", "Whole", "Words"], properties: ["Refuses"] });
  const o = () => ({ budgetMs: pick(Number(Deno.env.get("B") ?? 6_000), 200_000), randomMs: pick(500, 5_000), heap: "6g", project: same });
  const mk = () => new Driver() as any;
  // bytes that are no text are read as text with replacement characters; no fields print as an empty list
  const same = (x: any): any => Array.isArray(x) ? x.map(same) : !x || typeof x !== "object" ? x : x.k === "string" ? { ...x, b: [...new TextEncoder().encode(new TextDecoder("utf-8", { ignoreBOM: true }).decode(new Uint8Array(x.b)))] } : Object.fromEntries(Object.entries(x).map(([k, y]) => [k, k === "f" && Array.isArray(y) ? {} : same(y)]));
  const wide = quick ? [[some(2), some(1)], [some(2), some(1)], [some(2), some(1)]] : Array.from({ length: 15 }, (_, i) => [`{${i + 1}}`, some(5)]);
  const jobs = wide.map(([FX, FY], i) => () => c.conform(`one object ${i + 1}`, cfg({ FX, FY, Lost: "{0,1,4,9}" }), mk, o()));
  jobs.push(() => c.conform("two objects", cfg({ FX: some(1), FY: some(1), Modes: pick("{3}", "{1,3,5}"), MaxItems: 2, Lost: "{0,4}", RT: "{1,2,7,10}" }), mk, o()));
  await Promise.all([0, 1, 2, 3].map(async () => { for (let j; (j = jobs.shift());) await j(); }));

  // whole schemas
  const traces: any[] = [];
  const utf8 = (s: string) => [...new TextEncoder().encode(s)];
  for (const [which, S] of Object.entries({ Api, Mtproto, SecretChats } as Record<string, any>)) {
    const schema = S.schema, defs = schema.definitions, all = Object.keys(defs), events: any[] = [];
    // the schema itself: its numbers are its constructors'
    events.push({ n: "Schema", s: schemaToSpec(schema, []) });
    const strip = (t: string) => t.replace(/(^|\?)bytes$/, "$1string").replace(/</g, " ").replace(/>/g, "");
    for (const n of all) {
      const [id, fields, kind] = defs[n];
      events.push({
        n: "Def", text: n, id: idBytes(id), name: utf8(which === "SecretChats" ? n.replace(/(?<=[a-z])\d+$/, "") : n), generic: utf8(fields.some((f: any) => f[1] === "!X") ? " X:Type" : ""),
        f: fields.map(([f, t]: any) => ({ bare: /\?true$/.test(t), b: utf8(`${f}:${strip(t)}`) })), kind: utf8(strip(kind)),
      });
    }
    traces.push({ events });
    // the constructors of each number, both ways
    traces.push({ events: [{ n: "Schema", s: schemaToSpec(schema, all) }] });
    if (Object.entries<string>(schema.identifierToName).some(([id, n]) => !(n in defs) || defs[n][0] !== Number(id))) c.violation("numbers", `${which}: a number leads to another constructor`, {});
    const gen = new Gen(r, schema, 1);
    const isFn = (n: string) => schema.identifierToName[defs[n][0]] !== n;
    const take = quick ? 1 : 12;
    let batch: { e: any; names: Set<string> }[] = [];
    const flush = () => {
      if (!batch.length) return;
      const names = new Set(batch.flatMap((b) => [...b.names]).filter((n) => n in defs));
      traces.push({ events: [{ n: "Schema", s: schemaToSpec(schema, names) }, ...batch.map((b) => b.e)] });
      batch = [];
    };
    const add = (e: any, names: Set<string>) => { batch.push({ e, names }); if (batch.length >= 120) flush(); };
    const skip = new Set(["true", "boolTrue", "boolFalse", "vector", "null"]);
    for (let round = 0; round < take; round++) {
      for (const n of all) {
        if (skip.has(n)) continue;
        const v = gen.object(n, quick ? 2 : r.int(3));
        const fn = isFn(n), t = parseType(fn ? n : r.pick(["X", defs[n][2], n]), defs), names = used(v);
        const spec = toSpec(v, { k: "any" }, defs);
        const b: Uint8Array = S.serializeObject(v);
        const boxed = t.k === "ctor" ? { k: "just", name: n } : t;
        const rd = fn ? null : new TLReader(b);
        const back = rd && tryIt(() => toSpec(S.deserializeType(printType(boxed), rd), { k: "any" }, defs));
        add({ n: "Object", t: fn ? { k: "any" } : { k: "kind", name: defs[n][2] }, v: spec, b: [...b], read: !fn, back: back ?? NO, left: rd?.buffer.length ?? 0 }, names);
        // the answer to a function, as the type it declares
        if (fn && which !== "SecretChats" && defs[n][2] !== "X" && r.int(quick ? 4 : 2) === 0) {
          const rt = parseType(S.mustGetReturnType(n), defs), value = gen.type(defs[n][2], 2);
          const w = new TLWriter();
          // written by putting it in a field of a schema of its own
          w.writeObject({ _: "verif.holder", x: value }, { definitions: { ...defs, "verif.holder": [0, [["x", defs[n][2]]], "Verif"] }, identifierToName: schema.identifierToName } as any);
          const bytes = w.buffer.slice(4), rr = new TLReader(bytes);
          const got = tryIt(() => toSpec(S.deserializeType(S.mustGetReturnType(n), rr, true), rt, defs));
          add({ n: "Answer", t: rt, v: toSpec(value, rt, defs), b: [...bytes], back: got, left: rr.buffer.length }, used(value));
        }
        // a part of the bytes, or bytes changed: only where the schema of this trace knows all there is
        if (!fn && r.int(3) === 0 && b.length > 4) {
          const cut = b.slice(0, b.length - 1 - r.int(b.length - 4)), r2 = new TLReader(cut);
          const g = tryIt(() => ({ ok: true, v: toSpec(S.deserializeType("X", r2), { k: "any" }, defs) }));
          add({ n: "Bytes", t: { k: "any" }, b: [...cut], refused: !g.ok, back: g.v ?? NO, left: r2.buffer.length }, names);
        }
        // something that does not fit
        if (r.int(3) === 0) {
          const bad = misfit(v, r, schema);
          if (bad) { const ok = tryIt(() => { S.serializeObject(bad); return true; }); add({ n: "Misfit", t: { k: "any" }, v: toSpec(bad, { k: "any" }, defs), refused: ok !== true }, used(bad)); }
        }
      }
      flush();
    }
  }
  // messages and containers of them
  const messages: any[] = [{ n: "Schema", s: { d: {}, ids: {} } }];
  const gen = new Gen(r, Mtproto.schema, 1);
  const body = () => { const b = genBytes(r); return b.length < 4 || (b[0] === 0xdc && b[1] === 0xf8) ? new Uint8Array([1, 2, 3, 4]) : b; };
  const message = (d: number): any => ({ _: "message", msg_id: gen.primitive("long"), seqno: r.pick([0, 1, 2, 255, 2 ** 31 - 1]), body: d > 0 && r.int(2) ? { _: "msg_container", messages: Array.from({ length: r.int(4) }, () => message(d - 1)) } : body() });
  const M = (m: any): any => ({ id: toSpec(m.msg_id, { k: "long" }, {}).b, seq: toSpec(m.seqno, { k: "int" }, {}).b, container: !(m.body instanceof Uint8Array), b: m.body instanceof Uint8Array ? [...m.body] : [], m: m.body instanceof Uint8Array ? [] : m.body.messages.map(M) });
  for (let i = 0; i < pick(300, 3000); i++) {
    const m = message(2), w = new TLWriter();
    writeMessage(w, m);
    const b = w.buffer, rd = new TLReader(b), back = tryIt(() => M(deserializeMessage(rd)));
    messages.push({ n: "Message", v: M(m), b: [...b], back, left: rd.buffer.length });
  }
  for (let i = 1; i < messages.length; i += 100) traces.push({ events: [messages[0], ...messages.slice(i, i + 100)] });
  traces.push({ events: await called(r, pick(120, 2_000)) });
  await c.validate("whole schemas", { module: "TLTrace", init: "InitT" }, traces, { batch: 4 });
});

// an object with one thing wrong somewhere
function misfit(v: any, r: any, schema: any): any {
  const spots: { o: any; n: string; t: string }[] = [];
  const copy = structuredClone(v);
  const walk = (o: any) => {
    for (const [n, t] of schema.definitions[o._][1]) {
      if (t === "#" || o[n] === undefined) continue;
      spots.push({ o, n, t });
      for (const x of [o[n]].flat(4)) if (x && typeof x === "object" && typeof x._ === "string") walk(x);
    }
  };
  walk(copy);
  if (!spots.length) return null;
  const { o, n, t } = r.pick(spots);
  const inner = t.slice(t.indexOf("?") + 1);
  if (t.includes("?")) {
    if (inner === "true") { o[n] = false; return copy; }
  } else if (r.int(2)) { delete o[n]; return copy; }
  if (inner === "int") o[n] = r.pick([2 ** 31, -(2 ** 31) - 1, 2 ** 40, 1n]);
  else if (inner === "long") o[n] = r.pick([1n << 63n, -(1n << 63n) - 1n, 5]);
  else if (inner === "int128" || inner === "int256") o[n] = 1n << 255n;
  else if (inner === "string" || inner === "double") return null;
  else if (inner === "bytes") o[n] = "text";
  else if (inner === "Bool") o[n] = 1;
  else if (/^[Vv]ector</.test(inner)) o[n] = r.pick([...(/<(string|Bool)>/.test(inner) ? [] : [[{ _: "no.such" }]]), { _: "vector" }, "x"]);
  else if (inner === "!X") o[n] = { _: "no.such" };
  else {
    const kinds = [...ctors(schema).keys()].filter((k) => k !== inner && k !== schema.definitions[inner]?.[2] && !["True", "Bool", "Vector t", "Null"].includes(k));
    const k = r.pick(kinds);
    o[n] = new Gen(r, schema, 1).object(ctors(schema).get(k)![0], 5);
  }
  return copy;
}

// a client calls functions, some through others that pass them on, and the server answers each
async function called(r: any, n: number) {
  installVirtualTime();
  const schema: any = Api.schema, defs = schema.definitions, gen = new Gen(r, schema, 1), events: any[] = [], names = new Set<string>();
  const net = new Net(r);
  net.auto = (c) => { if (c.q._ === "help.getConfig" || c.q._ === "updates.getState") { net.error(c, 400, "NO"); return true; } return false; };
  const client = new Client({ ...net.params(), defaultHandlers: false }) as any;
  let st = "";
  client.connect().then(() => st = "up", (e: any) => st = String(e?.stack ?? e));
  for (let i = 0; i < 60 && !st; i++) await quiet();
  if (st !== "up") throw new Error(`no connection: ${st}`);
  const fns = Object.keys(defs).filter((f) => schema.identifierToName[defs[f][0]] !== f && defs[f][2] !== "X" && !/^(auth|account|upload)\./.test(f) && f !== "ping");
  const vec = fns.filter((f) => /^Vector/.test(defs[f][2])), bool = fns.filter((f) => defs[f][2] === "Bool");
  const wrappers: ((q: any) => any)[] = [
    (query) => ({ _: "invokeWithTakeout", takeout_id: 5n, query }), (query) => ({ _: "invokeWithMessagesRange", range: { _: "messageRange", min_id: 1, max_id: 2 }, query }),
    (query) => ({ _: "invokeWithoutUpdates", query }), (query) => ({ _: "invokeAfterMsg", msg_id: 7n, query }), (query) => ({ _: "invokeWithBusinessConnection", connection_id: "c", query }),
  ];
  for (let i = 0; i < n; i++) {
    const f = r.pick(r.pick([fns, vec, bool])), inner = gen.object(f, 4), k = r.int(3);
    let q = inner;
    for (let j = 0; j < k; j++) q = r.pick(wrappers)(q);
    const type = parseType(defs[f][2], defs), value = gen.type(defs[f][2], 2), chain: string[] = [];
    for (let x = q; x; x = x.query && typeof x.query === "object" ? x.query : null) { chain.push(x._); if (x === inner) break; }
    let back: any = NO, done = false;
    client.invoke(q).then((v: any) => { done = true; back = toSpec(v, type, defs); }, () => done = true);
    for (let j = 0; j < 20 && !net.calls.length && !done; j++) await quiet();
    const call = net.calls[0];
    if (!call) throw new Error(`no call of ${f} came`);
    const w = new TLWriter();
    w.writeObject({ _: "verif.holder", x: value }, { definitions: { ...defs, "verif.holder": [0, [["x", defs[f][2]]], "Verif"] }, identifierToName: schema.identifierToName } as any);
    const b = w.buffer.slice(4);
    net.answer(call, b);
    for (let j = 0; j < 20 && !done; j++) await quiet();
    chain.forEach((x) => names.add(x));
    used(value).forEach((x) => names.add(x));
    events.push({ n: "Called", call: chain, b: [...b], v: toSpec(value, type, defs), back });
  }
  if (net.problems.length) throw new Error(net.problems[0]);
  return [{ n: "Schema", s: schemaToSpec(schema, [...names].filter((x) => x in defs)) }, ...events];
}
