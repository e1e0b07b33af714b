// The labelled state graph of a specification, as TLC explored it, and its replay into the real code.
import { type Cfg, runTlc, type TlcResult } from "./tlc.ts";

export interface Edge { id: number; s: number; t: number; a: any; o: any; ak: string }
export interface Graph { edges: Edge[]; out: Edge[][]; init: number[]; tlc: TlcResult; states: number }

export function rng(seed: number) {
  let x = (seed * 2654435761 + 12345) >>> 0 || 1;
  const next = () => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x / 4294967296; };
  for (let i = 0; i < 8; i++) next();
  return Object.assign(next, { int: (n: number) => Math.floor(next() * n), pick: <T>(a: readonly T[]): T => a[Math.floor(next() * a.length)] });
}
export type Rng = ReturnType<typeof rng>;

// Specs emit, per transition, << level, source view, action label, target view, observation >> as JSON.
export async function modelGraph(c: Cfg, opts: Parameters<typeof runTlc>[1] = {}): Promise<Graph> {
  const ids = new Map<string, number>();
  const raw = new Map<string, number>();
  const edges: Edge[] = [];
  const out: Edge[][] = [];
  const init = new Set<number>();
  const seen = new Set<string>();
  const id = (k: string) => {
    let i = raw.get(k);
    if (i !== undefined) return i;
    const ck = sortFields(k);
    i = ids.get(ck);
    if (i === undefined) { i = ids.size; ids.set(ck, i); out.push([]); }
    raw.set(k, i);
    return i;
  };
  const tlc = await runTlc({ actionConstraint: "Emit", view: "View", ...c }, {
    ...opts, workers: 1, onLine: (l) => {
      const [lvl, s, a, t, o] = JSON.parse(l);
      const si = id(s), ti = id(t);
      if (lvl === 1) init.add(si);
      const ak = canon(a);
      const key = `${si}|${ak}|${ti}|${canon(o)}`;
      if (seen.has(key)) return;
      seen.add(key);
      const e: Edge = { id: edges.length, s: si, t: ti, a, o, ak };
      edges.push(e);
      out[si].push(e);
    },
  });
  // a state must print the same way as the target and as the source of a transition
  const reached = new Set<number>(init);
  for (const e of edges) reached.add(e.t);
  if (edges.some((e) => !reached.has(e.s))) throw new Error(`the states of ${c.module} do not print uniformly (a fault of the machinery)`);
  return { edges, out, init: [...init], tlc, states: ids.size };
}

// TLC prints the fields of a record in the order they were written in or in one of its own
export function sortFields(s: string): string {
  let i = 0;
  const items = (close: string): string[] => {
    const r: string[] = [];
    let cur = "";
    for (;;) {
      const c = s[i];
      if (c === undefined) throw new Error("unbalanced value: " + s);
      if (s.startsWith(close, i)) { i += close.length; if (cur.trim()) r.push(cur.trim()); return r; }
      if (c === ",") { r.push(cur.trim()); cur = ""; i++; } else cur += value();
    }
  };
  const value = (): string => {
    const c = s[i];
    if (c === '"') { let j = i + 1; while (s[j] !== '"') j += s[j] === "\\" ? 2 : 1; const v = s.slice(i, j + 1); i = j + 1; return v; }
    if (c === "[") { i++; return "[" + items("]").sort().join(",") + "]"; }
    if (s.startsWith("<<", i)) { i += 2; return "<<" + items(">>").join(",") + ">>"; }
    if (c === "{") { i++; return "{" + items("}").sort().join(",") + "}"; }
    if (c === "(") { i++; return "(" + items(")").join(",") + ")"; }
    i++;
    return c;
  };
  let r = "";
  while (i < s.length) r += value();
  return r;
}

export function canon(x: any): string {
  if (x === undefined) return "undefined";
  if (x === null || typeof x !== "object") return JSON.stringify(x, (_, v) => typeof v === "bigint" ? `${v}n` : v);
  if (Array.isArray(x)) return "[" + x.map(canon).join(",") + "]";
  return "{" + Object.keys(x).sort().map((k) => JSON.stringify(k) + ":" + canon(x[k])).join(",") + "}";
}

export interface Driver { step(a: any): Promise<any>; end?(): Promise<any> | any }
export interface Mismatch { suite: string; path: { a: any; o: any }[]; step: number; action: any; expected: any[]; actual: any }
export interface ReplayStats { paths: number; steps: number; edgesCovered: number; edgesTotal: number; statesCovered: number; samples: any[]; complete: boolean }

// Walks the graph on the real code until every transition was taken (or the budget is spent), then walks randomly.
export async function replay(suite: string, g: Graph, mk: () => Promise<Driver> | Driver, o: { seed: number; maxLen?: number; budgetMs: number; randomMs?: number; maxPaths?: number; choose?: (a: any) => number }): Promise<{ stats: ReplayStats; mismatch: Mismatch | null }> {
  const r = rng(o.seed);
  const maxLen = o.maxLen ?? 60;
  const uncovered = new Set(g.edges.map((e) => e.id));
  const unreachableTries = new Map<number, number>();
  const statesCovered = new Set<number>();
  const stats: ReplayStats = { paths: 0, steps: 0, edgesCovered: 0, edgesTotal: g.edges.length, statesCovered: 0, samples: [], complete: false };
  const t0 = RealNow();
  const nearest = (from: number): Edge[] | null => {
    const prev = new Map<number, Edge | null>([[from, null]]);
    const q = [from];
    for (let h = 0; h < q.length; h++) {
      const es = g.out[q[h]];
      const off = es.length ? r.int(es.length) : 0;
      for (let k = 0; k < es.length; k++) {
        const e = es[(k + off) % es.length];
        if (uncovered.has(e.id) && !((unreachableTries.get(e.id) ?? 0) >= 3)) {
          const path = [e];
          let p = prev.get(q[h])!;
          while (p) { path.unshift(p); p = prev.get(p.s)!; }
          return path;
        }
        if (!prev.has(e.t) && !((unreachableTries.get(e.id) ?? 0) >= 3)) { prev.set(e.t, e); q.push(e.t); }
      }
    }
    return null;
  };
  let phase: "cover" | "random" = "cover";
  let tRandom = 0;
  for (;;) {
    if (o.maxPaths && stats.paths >= o.maxPaths) break;
    if (phase === "cover") {
      if (uncovered.size === 0 || g.init.every((i) => !nearest(i))) { phase = "random"; tRandom = RealNow(); stats.complete = true; }
      else if (RealNow() - t0 > o.budgetMs) break;
    }
    if (phase === "random" && RealNow() - tRandom > (o.randomMs ?? 0)) break;
    let d: Driver;
    try { d = await mk(); } catch (err) {
      return { stats: fin(), mismatch: { suite, path: [], step: 0, action: { n: "construct" }, expected: ["a running system"], actual: String((err as any)?.stack ?? err) } };
    }
    let cur: number[] = [g.init[stats.paths % g.init.length]];
    statesCovered.add(cur[0]);
    const path: { a: any; o: any }[] = [];
    let plan: Edge[] = [];
    stats.paths++;
    let target: Edge | null = null;
    let lossy = false;
    try {
      while (path.length < maxLen) {
        let e: Edge | undefined;
        if (phase === "cover") {
          if (!plan.length || plan[0].s !== cur[0]) {
            plan = nearest(cur[0]) ?? [];
            target = plan.at(-1) ?? null;
            if (!plan.length) break;
            if (plan.length + path.length > maxLen && path.length > 0) break;
          }
          e = plan.shift();
        } else {
          const es = g.out[cur[0]];
          if (!es.length) break;
          e = r.pick(es);
        }
        if (!e) break;
        if (cur.some((s) => !g.out[s].some((x) => x.ak === e!.ak))) lossy = true;
        const cand = cur.flatMap((s) => g.out[s].filter((x) => x.ak === e!.ak));
        let actual: any;
        try { actual = await d.step(e.a); } catch (err) { actual = { harnessException: String((err as any)?.stack ?? err) }; }
        stats.steps++;
        const ok = canon(actual);
        path.push({ a: e.a, o: actual });
        const next = cand.filter((x) => canon(x.o) === ok);
        if (!next.length) {
          // a bound of the specification disabled an action in one of the states the code may be in: nothing can be said
          if (lossy) { unreachableTries.set(e.id, (unreachableTries.get(e.id) ?? 0) + 1); break; }
          return { stats: fin(), mismatch: { suite, path, step: path.length, action: e.a, expected: cand.map((x) => x.o), actual } };
        }
        for (const x of next) { if (cur[0] === x.s) { uncovered.delete(x.id); unreachableTries.delete(x.id); } statesCovered.add(x.t); }
        if (!next.includes(e)) {
          // the implementation resolved a choice differently; do not chase this edge for ever
          const n = (unreachableTries.get(e.id) ?? 0) + 1;
          unreachableTries.set(e.id, n);
          plan = [];
        }
        cur = [...new Set(next.map((x) => x.t))];
        if (next.includes(e)) cur.sort((a, b) => (a === e!.t ? -1 : b === e!.t ? 1 : 0));
      }
      if (d.end) {
        const err = await d.end();
        if (err) return { stats: fin(), mismatch: { suite, path, step: path.length, action: "end", expected: ["clean end"], actual: err } };
      }
    } finally { /* drivers hold only memory */ }
    if (stats.samples.length < 3 && (stats.paths % 7 === 1)) stats.samples.push({ suite, trace: path.slice(0, 12) });
    void target;
  }
  return { stats: fin(), mismatch: null };
  function fin() {
    stats.edgesCovered = g.edges.length - uncovered.size;
    stats.statesCovered = statesCovered.size;
    return stats;
  }
}
const RD = Date;
const RealNow = () => RD.now();
