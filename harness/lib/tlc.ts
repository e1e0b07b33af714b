// Running TLC and reading back what it explored.
const JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar";
export const SPEC_DIR = new URL("../../spec/", import.meta.url).pathname;

export interface Cfg {
  module: string;
  spec?: string; // SPECIFICATION
  init?: string;
  next?: string;
  constants?: Record<string, string | number>;
  invariants?: string[];
  properties?: string[];
  constraint?: string;
  actionConstraint?: string;
  view?: string;
  postcondition?: string;
  symmetry?: string;
  deadlock?: boolean;
}
export interface TlcResult {
  ok: boolean;
  generated: number;
  distinct: number;
  depth: number;
  out: string;
  lines: string[]; // payloads printed with PrintT("@@" ...)
  code: number;
  coverage: Record<string, [number, number]>;
}

export function cfgText(c: Cfg): string {
  const L: string[] = [];
  if (c.spec) L.push(`SPECIFICATION ${c.spec}`);
  else L.push(`INIT ${c.init ?? "Init"}`, `NEXT ${c.next ?? "Next"}`);
  for (const [k, v] of Object.entries(c.constants ?? {})) {
    const range = /^(\d+)\.\.(\d+)$/.exec(String(v)); // configuration files know no ranges
    if (range) L.push(`CONSTANT ${k} = {${Array.from({ length: Number(range[2]) - Number(range[1]) + 1 }, (_, i) => Number(range[1]) + i)}}`);
    else if (typeof v === "string" && v.startsWith("<-")) L.push(`CONSTANT ${k} <- ${v.slice(2).trim()}`);
    else L.push(`CONSTANT ${k} = ${v}`);
  }
  for (const i of c.invariants ?? []) L.push(`INVARIANT ${i}`);
  for (const i of c.properties ?? []) L.push(`PROPERTY ${i}`);
  if (c.constraint) L.push(`CONSTRAINT ${c.constraint}`);
  if (c.actionConstraint) L.push(`ACTION_CONSTRAINT ${c.actionConstraint}`);
  if (c.view) L.push(`VIEW ${c.view}`);
  if (c.postcondition) L.push(`POSTCONDITION ${c.postcondition}`);
  if (c.symmetry) L.push(`SYMMETRY ${c.symmetry}`);
  L.push(`CHECK_DEADLOCK ${c.deadlock ? "TRUE" : "FALSE"}`);
  return L.join("\n") + "\n";
}

export async function runTlc(c: Cfg, opts: { workers?: number | string; args?: string[]; env?: Record<string, string>; heap?: string; timeoutS?: number; files?: Record<string, string>; onLine?: (payload: string) => void } = {}): Promise<TlcResult> {
  const dir = await Deno.makeTempDir({ prefix: "verif-tlc-" });
  try {
    for (const e of Deno.readDirSync(SPEC_DIR)) {
      if (e.isFile && e.name.endsWith(".tla")) Deno.copyFileSync(SPEC_DIR + e.name, `${dir}/${e.name}`);
    }
    for (const [n, t] of Object.entries(opts.files ?? {})) Deno.writeTextFileSync(`${dir}/${n}`, t);
    Deno.writeTextFileSync(`${dir}/run.cfg`, cfgText(c));
    const cmd = new Deno.Command("timeout", {
      args: ["-k", "5", String(opts.timeoutS ?? 800), "java", `-Xmx${opts.heap ?? "4g"}`, "-XX:+UseParallelGC", "-Xss64m", "-Djava.io.tmpdir=" + dir, "-cp", JAR, "tlc2.TLC", "-config", "run.cfg", "-metadir", `${dir}/states`, "-noGenerateSpecTE", "-workers", String(opts.workers ?? 1), ...(opts.args ?? []), `${c.module}.tla`],
      cwd: dir, stdout: "piped", stderr: "piped", env: opts.env ?? {},
    });
    const p = cmd.spawn();
    const lines: string[] = [];
    const other: string[] = [];
    const errP = new Response(p.stderr).text();
    let buf = "";
    const take = (l: string) => {
      if (l.startsWith('"@@')) {
        const payload = JSON.parse(l).slice(2);
        if (opts.onLine) opts.onLine(payload);
        else lines.push(payload);
      } else if (other.length < 20000 && !/^(Parsing file|Semantic processing)/.test(l)) other.push(l);
    };
    for await (const chunk of p.stdout.pipeThrough(new TextDecoderStream())) {
      buf += chunk;
      let i;
      let from = 0;
      while ((i = buf.indexOf("\n", from)) >= 0) { take(buf.slice(from, i)); from = i + 1; }
      buf = buf.slice(from);
    }
    if (buf) take(buf);
    const st = await p.status;
    const out = other.join("\n") + "\n" + await errP;
    const m = [...out.matchAll(/([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found/g)].pop();
    const d = /depth of the complete state graph search is (\d+)/.exec(out);
    const sim = /(?:Progress|states checked|traces generated)[^\n]*?([\d,]+) states/.exec(out);
    const num = (s: string | undefined) => s ? Number(s.replaceAll(",", "")) : 0;
    const coverage: Record<string, [number, number]> = {};
    for (const x of out.matchAll(/^<(\w+) line [^>]*>: (\d+):(\d+)/gm)) coverage[x[1]] = [Number(x[2]), Number(x[3])];
    return { ok: st.code === 0, generated: num(m?.[1] ?? sim?.[1]), distinct: num(m?.[2]), depth: num(d?.[1]), out, lines, code: st.code, coverage };
  } finally {
    await Deno.remove(dir, { recursive: true });
  }
}
