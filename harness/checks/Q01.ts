import { main, pick } from "../lib/check.ts";
import { macrotask, settle } from "../lib/vt.ts";
import type { Driver } from "../lib/graph.ts";
import { Mutex } from "/repo/utilities/0_mutex.ts";
import { Queue } from "/repo/utilities/2_queue.ts";
import { AbortableLoop } from "/repo/client/0_abortable_loop.ts";

class MutexDriver implements Driver {
  m = new Mutex();
  unlock = new Map<number, () => void>();
  old = new Map<number, () => void>();
  granted: number[] = [];
  async step(a: any) {
    this.granted = [];
    if (a.n === "Request") {
      this.m.lock().then((u) => { this.unlock.set(a.c, u); this.granted.push(a.c); });
    } else if (a.n === "Release") {
      const u = this.unlock.get(a.c)!;
      this.unlock.delete(a.c);
      this.old.set(a.c, u);
      u();
    } else this.old.get(a.c)!();
    await settle(1);
    return [...this.granted];
  }
}

class QueueDriver implements Driver {
  q = new Queue("verif");
  n = 0;
  started: number[] = [];
  current: PromiseWithResolvers<void>[] = [];
  active = 0;
  overlap = false;
  add() {
    const k = ++this.n;
    this.q.add(async () => {
      this.started.push(k);
      if (this.active++) this.overlap = true;
      const p = Promise.withResolvers<void>();
      this.current.push(p);
      try { await p.promise; } finally { this.active--; }
    });
  }
  async step(a: any) {
    this.started = [];
    const cur = this.current.at(-1);
    if (a.n === "Add") this.add();
    else {
      if (a.n.startsWith("Add")) this.add();
      if (a.n.endsWith("Succeed")) cur!.resolve();
      else cur!.reject(new Error("task failed"));
    }
    await settle(1);
    if (this.overlap) return "two tasks ran at once";
    return [...this.started];
  }
}

class LoopDriver implements Driver {
  iters = 0;
  errs = 0;
  active = 0;
  overlap = false;
  cur: PromiseWithResolvers<void> | null = null;
  signal: AbortSignal | null = null;
  handlerAborts = false;
  loop = new AbortableLoop(async (_l, signal) => {
    this.iters++;
    if (this.active++) this.overlap = true;
    this.signal = signal;
    this.cur = Promise.withResolvers<void>();
    try { await this.cur.promise; } finally { this.active--; }
  }, (l) => {
    this.errs++;
    if (this.handlerAborts) l.abort();
  });
  async step(a: any) {
    this.iters = this.errs = 0;
    if (a.n === "Start") this.loop.start();
    else if (a.n === "Abort") this.loop.abort();
    else {
      this.handlerAborts = !!a.h;
      const c = this.cur!;
      this.cur = null;
      if (a.n === "IterThrow") c.reject(new Error("iteration failed"));
      else c.resolve();
    }
    await settle(1);
    if (this.overlap) return "two iterations ran at once";
    const live = this.active > 0;
    return [this.iters, this.errs, live && this.signal!.aborted];
  }
}

await main("Q01", ["Tasks are asynchronous functions; the JavaScript job queue is run to quiescence between steps."], async (c) => {
  globalThis.console.error = () => {};
  const K = { Clients: 1, MaxTasks: 1, MaxOps: 1 };
  await c.model("lock, larger", { module: "Primitives", constants: { Which: '"mutex"', ...K, Clients: 5 }, invariants: ["Inv"], view: "View" });
  await c.model("queue, larger", { module: "Primitives", constants: { Which: '"queue"', ...K, MaxTasks: 40 }, invariants: ["Inv"], view: "View" });
  await c.conform("lock", { module: "Primitives", constants: { Which: '"mutex"', ...K, Clients: pick(4, 5) }, invariants: ["Inv"] }, () => new MutexDriver(), { maxLen: 80 });
  await c.conform("queue", { module: "Primitives", constants: { Which: '"queue"', ...K, MaxTasks: pick(9, 20) }, invariants: ["Inv"] }, () => new QueueDriver(), { maxLen: 80 });
  await c.conform("loop", { module: "Primitives", constants: { Which: '"loop"', ...K, MaxOps: pick(9, 14) }, invariants: ["Inv"] }, () => new LoopDriver(), { maxLen: 80 });
  await macrotask();
});
