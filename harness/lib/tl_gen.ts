// Random objects of a schema, and a comparison that knows what "equal" means for them.
import type { Rng } from "./graph.ts";

const STRINGS = ["", "a", "abc", "abcd", "héllo", "日本語テキスト", "👍🏽 ok", "\0\u0001", "x".repeat(250), "y".repeat(253), "z".repeat(254), "w".repeat(255), "v".repeat(300), "a\u0000b", "\u202Ertl"];
const LONGS = [0n, 1n, -1n, 255n, 256n, (1n << 31n) - 1n, 1n << 32n, (1n << 63n) - 1n, -(1n << 63n), -1234567890123456789n];
const INTS = [0, 1, -1, 127, 128, 255, 256, 65535, 0x7fffffff, -0x80000000, 1_700_000_000];
const DOUBLES = [0, 1, -1.5, 0.1, 1e300, 5e-324, Infinity, -Infinity];
// long runs of zeros matter to the run-length coding of what is stored
export function genBytes(r: Rng): Uint8Array {
  const n = r.pick([0, 1, 2, 3, 4, 16, 32, 253, 254, 255, 256, 257, 600]), o = new Uint8Array(n), k = r.int(4);
  if (k === 1) for (let i = 0; i < n; i++) o[i] = r.int(256);
  else if (k === 2) o.fill(255);
  else if (k === 3) for (let i = 0; i < n; i++) o[i] = r.int(3) ? 0 : r.int(256);
  return o;
}
const byKind = new WeakMap<any, Map<string, string[]>>();
export function ctors(schema: any): Map<string, string[]> {
  let m = byKind.get(schema);
  if (!m) {
    byKind.set(schema, m = new Map());
    const d = schema.definitions;
    for (const n of new Set(Object.values(schema.identifierToName) as string[])) m.set(d[n][2], [...m.get(d[n][2]) ?? [], n]);
  }
  return m;
}
export class Gen {
  // how often optional fields are present
  constructor(public r: Rng, public schema: any, public dense = 2) {}
  primitive(t: string): any {
    const r = this.r;
    switch (t) {
      case "int": return r.int(4) ? r.pick(INTS) : r.int(1 << 30);
      case "long": return r.int(3) ? r.pick(LONGS) : BigInt(r.int(1 << 30)) * BigInt(r.int(1 << 30));
      case "double": return r.pick(DOUBLES);
      case "string": return r.pick(STRINGS);
      case "bytes": return genBytes(r);
      case "Bool": return !!r.int(2);
      case "true": return true;
      case "int128": case "int256": { const bits = t === "int128" ? 128n : 256n; const k = r.int(5); if (k === 0) return 0n; if (k === 1) return -(1n << (bits - 1n)); if (k === 2) return (1n << (bits - 1n)) - 1n; let v = 0n; for (let i = 0n; i < bits; i += 16n) v = v << 16n | BigInt(r.int(65536)); return BigInt.asIntN(Number(bits), v); }
    }
    return undefined;
  }
  // the least nested constructor of a kind, for objects that are deep already
  simplest(kind: string): string {
    const c = ctors(this.schema).get(kind)!;
    const cost = (n: string) => this.schema.definitions[n][1].filter(([, t]: any) => !t.includes("?") && t !== "#" && this.primitive(t) === undefined && !/^[Vv]ector/.test(t)).length;
    return [...c].sort((a, b) => cost(a) - cost(b))[0];
  }
  type(t: string, depth: number): any {
    const p = this.primitive(t);
    if (p !== undefined) return p;
    const vec = /^[Vv]ector<(.*)>$/.exec(t);
    if (vec) { const n = depth > 3 ? 0 : this.r.pick([0, 0, 1, 1, 2, 3]); return Array.from({ length: n }, () => this.type(vec[1].replace(/^%/, ""), depth + 1)); }
    if (t === "X" || t === "!X") return this.object(this.r.pick([...ctors(this.schema).values()].flat().filter((x) => !["true", "boolTrue", "boolFalse", "vector", "null"].includes(x))), depth + 1);
    if (this.schema.definitions[t]) return this.object(t, depth + 1);
    const c = ctors(this.schema).get(t);
    if (!c) throw new Error(`unknown type ${t}`);
    return this.object(depth > 4 ? this.simplest(t) : this.r.pick(c), depth + 1);
  }
  object(name: string, depth = 0): any {
    const o: any = { _: name };
    const present = new Map<string, boolean>(); // fields that share a flag are there together
    for (const [f, t] of this.schema.definitions[name][1]) {
      if (t === "#") continue;
      const opt = t.indexOf("?");
      if (opt >= 0) { const flag = t.slice(0, opt); if (!present.has(flag)) present.set(flag, depth <= 4 && this.r.int(this.dense + 1) < this.dense); if (!present.get(flag)) continue; o[f] = this.type(t.slice(opt + 1), depth); }
      else o[f] = this.type(t, depth);
    }
    return o;
  }
}
export function equalTl(a: any, b: any): boolean {
  if (a === b) return true;
  if (typeof a !== typeof b || a === null || b === null || typeof a !== "object") return false;
  if (a instanceof Uint8Array || b instanceof Uint8Array) return a instanceof Uint8Array && b instanceof Uint8Array && a.length === b.length && a.every((x, i) => x === b[i]);
  if (a instanceof Date || b instanceof Date) return a instanceof Date && b instanceof Date && a.getTime() === b.getTime();
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  return ka.length === kb.length && ka.every((k) => equalTl(a[k], b[k]));
}
