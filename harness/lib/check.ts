// One property check: runs its suites, writes evidence, reports violations and known findings.
import { type Cfg, runTlc } from "./tlc.ts";
import { type Driver, type Graph, type Mismatch, modelGraph, replay } from "./graph.ts";

const RD = Date;
const ROOT = new URL("../../", import.meta.url).pathname;
export const SEED = Number(Deno.env.get("VERIF_SEED") ?? "1") || 1;
export const TIER = (Deno.env.get("VERIF_TIER") ?? "quick") === "thorough" ? "thorough" : "quick";
export const quick = TIER === "quick";
export const pick = <T>(q: T, t: T): T => quick ? q : t;

export interface Finding { property: string; key: string; text: string }
function knownFindings(): Finding[] {
  const out: Finding[] = [];
  let t = "";
  try { t = Deno.readTextFileSync(ROOT + "KNOWN_FINDINGS.txt"); } catch { return out; }
  for (const l of t.split("\n")) {
    const m = /^finding: property=(\w+) key=(\S+) (.*)$/.exec(l);
    if (m) out.push({ property: m[1], key: m[2], text: m[3] });
  }
  return out;
}

export class Check {
  t0 = RD.now();
  states = 0;
  transitions = 0;
  traces = 0;
  steps = 0;
  samples: any[] = [];
  suites: Record<string, any> = {};
  violations: { key: string; text: string; detail: any }[] = [];
  notes: string[] = [];
  unhandled: string[] = []; // promise rejections nobody handled; drivers may look at them
  constructor(public id: string, public assumptions: string[] = []) {}
  elapsed() { return (RD.now() - this.t0) / 1000; }

  log(...a: unknown[]) { console.log(`[${this.id} ${this.elapsed().toFixed(1)}s]`, ...a); }

  violation(key: string, text: string, detail: any) {
    this.violations.push({ key, text, detail });
    this.log("violation", key, text);
  }

  // Model checking only: the invariants and properties of the specification hold.
  async model(name: string, c: Cfg, opts: Parameters<typeof runTlc>[1] = {}) {
    const r = await runTlc(c, { workers: 4, ...opts });
    this.states += r.distinct;
    this.transitions += r.generated;
    this.suites[name] = { kind: "model", distinct_states: r.distinct, generated: r.generated, depth: r.depth };
    this.log(`model ${name}: ${r.distinct} states, ${r.generated} generated, depth ${r.depth}, code ${r.code}`);
    if (!r.ok) throw new Error(`specification check ${name} failed (a fault of the machinery, not of the code):\n${r.out.slice(-6000)}`);
    return r;
  }

  // Model plus binding: every transition of the specification's graph is executed on the real code.
  async conform(name: string, c: Cfg, mk: () => Promise<Driver> | Driver, o: { maxLen?: number; budgetMs?: number; randomMs?: number; heap?: string; maxPaths?: number; graph?: Graph; project?: (o: any) => any } = {}) {
    const g = o.graph ?? await modelGraph(c, { heap: o.heap });
    if (!g.tlc.ok) throw new Error(`specification check ${name} failed (a fault of the machinery, not of the code):\n${g.tlc.out.slice(-6000)}`);
    if (o.project) for (const e of g.edges) e.o = o.project(e.o);
    if (!g.edges.length) throw new Error(`specification ${name} has no transitions`);
    this.states += g.states;
    this.transitions += g.edges.length;
    const { stats, mismatch } = await replay(name, g, mk, { seed: SEED, budgetMs: o.budgetMs ?? pick(60_000, 600_000), randomMs: o.randomMs ?? pick(1_500, 30_000), maxLen: o.maxLen, maxPaths: o.maxPaths });
    this.traces += stats.paths;
    this.steps += stats.steps;
    this.samples.push(...stats.samples.slice(0, 2));
    const actions: Record<string, number> = {};
    for (const e of g.edges) { const n = e.a?.n ?? "?"; actions[n] = (actions[n] ?? 0) + 1; }
    this.suites[name] = { kind: "conformance", model_states: g.states, model_transitions: g.edges.length, transitions_replayed: stats.edgesCovered, all_transitions_replayed: stats.complete, paths: stats.paths, steps: stats.steps, actions };
    this.log(`conform ${name}: ${g.states} states, ${g.edges.length} transitions, replayed ${stats.edgesCovered} (${stats.complete ? "all" : "budget"}), ${stats.paths} paths, ${stats.steps} steps`);
    if (mismatch) this.mismatch(name, mismatch);
    if (mismatch && String(JSON.stringify(mismatch, (_, v) => typeof v === "bigint" ? `${v}` : v)).includes(RUNAWAY)) this.finish();
    return g;
  }

  mismatch(name: string, m: Mismatch) {
    this.violation(`${name}:${m.action?.n ?? m.action}`, `real code diverges from the specification at step ${m.step}`, m);
  }

  // Records one behaviour of the real code; one that cannot be driven to its end (an exception, or no quiescence) is reported as it is.
  #broken = 0;
  async record<T>(name: string, traces: T[], run: () => Promise<T>) {
    if (this.#broken >= 3) return;
    try {
      traces.push(await run());
    } catch (err) {
      ++this.#broken;
      this.violation(`${name}:exception`, `the real code could not be driven to the end of the recording: ${err}`, { error: String((err as any)?.stack ?? err) });
      if (String(err).includes(RUNAWAY)) this.finish();
    }
  }

  // Trace validation: TLC decides whether recorded behaviours of the real code are behaviours of the specification.
  async validate(name: string, c: Cfg, traces: { events: any[]; meta?: any }[], o: { timeoutS?: number; batch?: number } = {}) {
    if (!traces.length && this.violations.length) return;
    if (!traces.length) throw new Error(`no traces recorded for ${name}`);
    let ev = 0, gen = 0, dist = 0, rejected = 0;
    const batch = o.batch ?? 400;
    const jobs: number[] = [];
    for (let i = 0; i < traces.length; i += batch) jobs.push(i);
    const work = async () => {
      for (;;) {
        const i = jobs.shift();
        if (i === undefined) return;
        const part = traces.slice(i, i + batch);
        const r = await runTlc({ postcondition: "Report", constraint: "Track", ...c }, { workers: 1, timeoutS: o.timeoutS, files: { "traces.json": JSON.stringify(part.map((t) => t.events), (_, v) => typeof v === "bigint" ? String(v) : v) } });
        const rep = r.lines.at(-1);
        if (!rep) throw new Error(`trace validation ${name} gave no report (a fault of the machinery):\n${r.out.slice(-6000)}`);
        const reached: number[] = JSON.parse(rep);
        gen += r.generated;
        dist += r.distinct;
        part.forEach((t, k) => {
          ev += t.events.length;
          if (reached[k] !== t.events.length) {
            rejected++;
            const at = reached[k];
            if (rejected <= 5) this.violation(`${name}:${t.events[at]?.n ?? "?"}`, `recorded behaviour is not one of the specification: event ${at + 1} of ${t.events.length} has no matching step`, { trace: t.events.slice(0, at + 1), meta: t.meta, rejectedEvent: t.events[at] });
          }
        });
        if (!r.ok && !reached.some((x, k) => x !== part[k].events.length)) throw new Error(`trace validation ${name} ended badly (a fault of the machinery):\n${r.out.slice(-6000)}`);
      }
    };
    await Promise.all([0, 1, 2, 3].map(work));
    this.states += dist;
    this.transitions += gen;
    this.traces += traces.length;
    this.steps += ev;
    this.samples.push({ suite: name, meta: traces[0].meta, trace: traces[0].events.slice(0, 10) });
    this.suites[name] = { kind: "trace validation", traces: traces.length, events: ev, states: dist, rejected };
    this.log(`validate ${name}: ${traces.length} traces, ${ev} events, ${dist} states, ${rejected} rejected`);
  }

  finish(): never {
    const known = knownFindings().filter((f) => f.property === this.id);
    const hit = new Set<string>();
    const fresh = this.violations.filter((v) => {
      const k = known.find((f) => f.key === v.key);
      if (k) hit.add(k.key);
      return !k;
    });
    for (const f of known) if (hit.has(f.key)) console.log(`KNOWN-FINDING: property=${this.id} ${f.text}`);
    Deno.mkdirSync(ROOT + "evidence", { recursive: true });
    const ev = {
      property: this.id, tier: TIER, seed: SEED, level: "model_checking",
      coverage: {
        states: this.states, transitions: this.transitions, traces_validated_against_impl: this.traces, steps_on_real_code: this.steps,
        samples: this.samples.slice(0, 6), suites: this.suites,
      },
      assumptions: this.assumptions,
      violations: fresh.length,
      known_findings_observed: [...hit],
      wall_s: this.elapsed(),
    };
    Deno.writeTextFileSync(`${ROOT}evidence/${this.id}.json`, JSON.stringify(ev, (_, v) => typeof v === "bigint" ? `${v}` : v instanceof Uint8Array ? `bytes[${v.length}]` : v, 1));
    if (fresh.length) {
      const path = `evidence/replay-${this.id}.json`;
      Deno.writeTextFileSync(ROOT + path, JSON.stringify({ property: this.id, seed: SEED, tier: TIER, violations: fresh.slice(0, 10) }, (_, v) => typeof v === "bigint" ? `${v}` : v, 1));
      for (const v of fresh.slice(0, 5)) console.log(`  ${v.key}: ${v.text}\n    ${JSON.stringify(v.detail, (_, x) => typeof x === "bigint" ? `${x}` : x).slice(0, 1800)}`);
      console.log(`VIOLATION property=${this.id} replay=${path}`);
      Deno.exit(1);
    }
    this.log(`held: ${this.states} states, ${this.transitions} transitions, ${this.traces} traces on the real code, ${this.steps} steps`);
    Deno.exit(0);
  }
}

// what is still running then would disturb whatever follows
const RUNAWAY = "native operations never finished";
export async function main(id: string, assumptions: string[], body: (c: Check) => Promise<void>) {
  const c = new Check(id, assumptions);
  globalThis.addEventListener("unhandledrejection", (e) => {
    e.preventDefault();
    if (c.unhandled.length < 50) c.unhandled.push(String((e.reason as any)?.stack ?? e.reason));
  });
  try {
    await body(c);
  } catch (err) {
    if (c.violations.length) { c.log("stopped early:", err); c.finish(); }
    console.error(err);
    console.log(`ERROR property=${id} the check itself failed`);
    Deno.exit(2);
  }
  c.finish();
}
