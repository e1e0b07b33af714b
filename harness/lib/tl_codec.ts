// Objects of the real code as values of the specification and back. Numbers are the bytes they are written as.
import { equalTl } from "./tl_gen.ts";

export const WIDTH: Record<string, number> = { int: 4, long: 8, double: 8, int128: 16, int256: 32 };
export type Bytes = number[];
const le = (v: bigint, n: number): Bytes => { const o: Bytes = []; let x = BigInt.asUintN(n * 8, v); for (let i = 0; i < n; i++) { o.push(Number(x & 255n)); x >>= 8n; } return o; };
const signed = (b: Bytes, n: number) => { const v = b.reduceRight((a, x) => a << 8n | BigInt(x), 0n); return b.length === n ? BigInt.asIntN(8 * n, v) : v; };
export const idBytes = (id: number): Bytes => le(BigInt(id >>> 0), 4);
export const idOf = (b: Bytes) => Number(b.reduceRight((a, x) => a << 8n | BigInt(x), 0n));

// "flags.3?Vector<int>" and the like, as the specification says it
export function parseType(text: string, defs: Record<string, any>): any {
  const o = /^(\w+)\.(\d+)\?(.*)$/.exec(text);
  if (o) return { k: "opt", flag: o[1], bit: Number(o[2]), of: parseType(o[3], defs) };
  const v = /^([Vv])ector<(.*)>$/.exec(text);
  if (v) return { k: "vec", boxed: v[1] === "V", of: parseType(v[2], defs) };
  if (text === "#") return { k: "flags" };
  if (text === "X" || text === "!X") return { k: "any" };
  if (WIDTH[text] || ["string", "bytes", "Bool", "true"].includes(text)) return { k: text };
  return text in defs ? { k: "ctor", name: text } : { k: "kind", name: text };
}
export function printType(t: any): string {
  switch (t.k) {
    case "opt": return `${t.flag}.${t.bit}?${printType(t.of)}`;
    case "vec": return `${t.boxed ? "V" : "v"}ector<${printType(t.of)}>`;
    case "flags": return "#";
    case "any": return "X";
    case "ctor": case "kind": case "just": return t.name;
    default: return t.k;
  }
}
export function schemaToSpec(schema: any, names: Iterable<string>): any {
  const d: any = {}, ids: any = {};
  for (const n of names) {
    const [id, fields, kind] = schema.definitions[n];
    const fn = schema.identifierToName[id] !== n;
    d[n] = { id: idBytes(id), f: fields.map(([f, t]: any) => ({ n: f, t: parseType(t, schema.definitions) })), kind, fn, answer: parseType(kind, schema.definitions) };
    if (!fn) ids[`<<${idBytes(id).join(", ")}>>`] = n;
  }
  return { d, ids };
}
export function schemaFromSpec(s: any): any {
  const definitions: any = {}, identifierToName: any = {};
  for (const [n, d] of Object.entries<any>(s.d)) {
    definitions[n] = [idOf(d.id), d.f.map((f: any) => [f.n, f.t.k === "any" ? "!X" : printType(f.t)]), d.kind];
    if (!d.fn) identifierToName[idOf(d.id)] = n;
  }
  return { definitions, identifierToName };
}
const text = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
export function fromSpec(v: any): any {
  switch (v.k) {
    case "int": return Number(signed(v.b, 4));
    case "long": return signed(v.b, 8);
    case "int128": return signed(v.b, 16);
    case "int256": return signed(v.b, 32);
    case "double": return new DataView(new Uint8Array(v.b).buffer).getFloat64(0, true);
    case "string": return text.decode(new Uint8Array(v.b));
    case "bytes": return new Uint8Array(v.b);
    case "Bool": return v.v;
    case "true": return true;
    case "vec": return v.i.map(fromSpec);
    case "obj": return { _: v.c, ...Object.fromEntries(Object.entries(v.f).map(([n, x]) => [n, fromSpec(x)])) };
  }
  throw new Error(`what is ${JSON.stringify(v)}`);
}
const enc = new TextEncoder();
// what a value of the real code is, where `t` is expected; what is of no such type is said to be "other"
export function toSpec(x: any, t: any, defs: Record<string, any>): any {
  if (t.k === "opt") t = t.of;
  if (WIDTH[t.k] && t.k !== "double") {
    const n = WIDTH[t.k];
    if (t.k === "int" ? !Number.isInteger(x) : typeof x !== "bigint") return { k: "other" };
    const v = BigInt(x), lim = 1n << BigInt(8 * n - 1);
    return { k: t.k, b: v >= -lim && v < lim ? le(v, n) : [...le(v, n), Number(v > 0n)] };
  }
  switch (t.k) {
    case "double": return typeof x === "number" ? { k: "double", b: [...new Uint8Array(new Float64Array([x]).buffer)] } : { k: "other" };
    case "string": return typeof x === "string" ? { k: "string", b: [...enc.encode(x)] } : { k: "other" };
    case "bytes": return x instanceof Uint8Array ? { k: "bytes", b: [...x] } : { k: "other" };
    case "Bool": return typeof x === "boolean" ? { k: "Bool", v: x } : { k: "other" };
    case "true": return x === true ? { k: "true" } : { k: "other" };
    case "vec": return Array.isArray(x) ? { k: "vec", i: Array.from(x, (y) => toSpec(y, t.of, defs)) } : { k: "other" };
  }
  if (t.k === "any" && typeof x === "boolean") return { k: "Bool", v: x };
  if (typeof x !== "object" || x === null || typeof x._ !== "string" || !Object.hasOwn(defs, x._)) return { k: "other" };
  const f: any = {};
  const types = new Map(defs[x._][1].map(([n, ty]: any) => [n, ty]));
  for (const [n, y] of Object.entries(x)) {
    if (n === "_" || y === undefined) continue;
    if (!types.has(n)) return { k: "other" };
    f[n] = toSpec(y, parseType(types.get(n) as string, defs), defs);
  }
  return { k: "obj", c: x._, f };
}
// constructors an object is made of
export function used(x: any, out = new Set<string>()): Set<string> {
  if (Array.isArray(x)) x.forEach((y) => used(y, out));
  else if (x && typeof x === "object" && !(x instanceof Uint8Array)) { if (typeof x._ === "string") out.add(x._); Object.values(x).forEach((y) => used(y, out)); }
  return out;
}
export { equalTl };
