// Virtual time and quiescence.
//
// install() replaces the timers and the clock with virtual ones. Virtual timers fire only from advance().
// settle() waits until the program under test is quiescent: no runnable promise job and no native
// asynchronous operation (WebCrypto, streams, storage) outstanding.
import { setImmediate as realSetImmediate } from "node:timers";

const RealDate = Date;
const realSetTimeout = globalThis.setTimeout;
const realClearTimeout = globalThis.clearTimeout;
export const realNow = () => RealDate.now();

interface Timer { id: number; at: number; fn: () => void; every: number | null; seq: number; delay: number }
let now = 1_700_000_000_000;
let skew = 0; // what the wall clock shows beyond the passage of time
let nextId = 1;
let seq = 0;
let timers = new Map<number, Timer>();
let installed = false;
let native = 0;

export function nativeOp<T>(p: Promise<T>): Promise<T> {
  native++;
  const done = () => { native--; };
  p.then(done, done);
  return p;
}

function wrapAsync(obj: any, names: string[]) {
  for (const n of names) {
    const orig = obj[n];
    if (typeof orig !== "function") continue;
    obj[n] = function (...args: unknown[]) {
      return nativeOp(orig.apply(this, args));
    };
  }
}

export function trackNative() {
  wrapAsync(crypto.subtle, ["encrypt", "decrypt", "sign", "verify", "digest", "generateKey", "deriveKey", "deriveBits", "importKey", "exportKey", "wrapKey", "unwrapKey"]);
}
trackNative();

export function installVirtualTime(start = 1_700_000_000_000) {
  now = start;
  skew = 0;
  timers = new Map();
  if (installed) return;
  installed = true;
  const FakeDate: any = class Date extends RealDate {
    constructor(...args: any[]) {
      if (args.length === 0) super(now + skew);
      else super(...(args as [any]));
    }
    static override now() { return now + skew; }
    static [Symbol.hasInstance](x: unknown) { return x instanceof RealDate; }
  };
  globalThis.Date = FakeDate;
  (globalThis as any).setTimeout = (fn: any, ms = 0, ...args: any[]) => {
    const id = nextId++;
    timers.set(id, { id, at: now + Math.max(0, Number(ms) || 0), fn: () => fn(...args), every: null, seq: seq++, delay: Number(ms) || 0 });
    return id;
  };
  (globalThis as any).setInterval = (fn: any, ms = 0, ...args: any[]) => {
    const id = nextId++;
    timers.set(id, { id, at: now + Math.max(1, Number(ms) || 1), fn: () => fn(...args), every: Math.max(1, Number(ms) || 1), seq: seq++, delay: Number(ms) || 0 });
    return id;
  };
  const clear = (id: number) => { timers.delete(id); };
  (globalThis as any).clearTimeout = clear;
  (globalThis as any).clearInterval = clear;
  (globalThis as any).performance.now = () => now - start;
}
export const virtualNow = () => now;
export const wallNow = () => now + skew;
export function skewClock(ms: number) { skew += ms; }
export function setClock(t: number) { now = t; } // moves the wall clock without firing timers
export const timerCount = () => timers.size;
export const timerDelays = () => [...timers.values()].map((t) => t.at - now).sort((a, b) => a - b);
export function clearTimers() { timers = new Map(); }

export function macrotask(): Promise<void> {
  return new Promise((r) => realSetImmediate(r as () => void));
}

export async function settle(rounds = 2) {
  let quiet = 0;
  const t0 = performance_now();
  while (quiet < rounds) {
    await macrotask();
    if (native > 0) {
      quiet = 0;
      if (performance_now() - t0 > 20_000) throw new Error("settle: native operations never finished");
    } else quiet++;
  }
}
function performance_now() { return RealDate.now(); }

export const realDelay = (ms: number) => new Promise<void>((r) => realSetTimeout(r, ms));

// Advance virtual time, firing due timers one by one and settling after each.
// except: timers set with such a delay are postponed along; fire: timers set with such a delay fire first, wherever they stand.
export async function advance(ms: number, o: { except?: (delay: number) => boolean; fire?: (delay: number) => boolean } = {}) {
  if (o.fire) {
    for (const t of [...timers.values()].sort((a, b) => a.at - b.at)) {
      if (!o.fire(t.delay) || !timers.delete(t.id)) continue;
      if (t.at > now) now = t.at;
      t.fn();
      await settle();
    }
  }
  if (o.except) for (const t of timers.values()) if (o.except(t.delay)) t.at += ms;
  const target = now + ms;
  for (;;) {
    let next: Timer | null = null;
    for (const t of timers.values()) {
      if (t.at <= target && (!next || t.at < next.at || (t.at === next.at && t.seq < next.seq))) next = t;
    }
    if (!next) break;
    if (next.at > now) now = next.at;
    if (next.every !== null) { next.at = now + next.every; next.seq = seq++; }
    else timers.delete(next.id);
    next.fn();
    await settle();
  }
  now = target;
  await settle();
}

export async function withTimeout<T>(p: Promise<T>, ms: number, what: string): Promise<T> {
  let id: number;
  const t = new Promise<never>((_, rej) => { id = realSetTimeout(() => rej(new Error(`timeout: ${what}`)), ms) as unknown as number; });
  try { return await Promise.race([p, t]); } finally { realClearTimeout(id!); }
}
