// Every storage backend of the repository that can run here, behind one constructor.
import { installIndexedDB } from "./idb.ts";
installIndexedDB();
import { StorageIndexedDB, StorageLocalStorage, StorageMemory, StorageSessionStorage } from "/repo/2_storage.ts";
import { StorageDenoKV } from "/repo/storage/1_storage_deno_kv.ts";
import { realNow } from "./vt.ts";

// Deno.localStorage needs an origin; the harness gives every run a plain Storage-like object instead.
class FakeWebStorage {
  constructor() {
    return new Proxy(this, {
      get: (t, p) => typeof p === "string" && p in FakeWebStorage.prototype ? (t as any)[p].bind(t) : (typeof p === "string" && Object.hasOwn(t, p) ? (t as any)[p] : undefined),
    });
  }
  getItem(k: string) { return Object.hasOwn(this, k) ? (this as any)[k] : null; }
  setItem(k: string, v: string) { (this as any)[k] = String(v); }
  removeItem(k: string) { delete (this as any)[k]; }
  clear() { for (const k of Object.keys(this)) delete (this as any)[k]; }
  get length() { return Object.keys(this).length; }
  key(i: number) { return Object.keys(this)[i] ?? null; }
}
Object.defineProperty(globalThis, "localStorage", { value: new FakeWebStorage(), configurable: true });
Object.defineProperty(globalThis, "sessionStorage", { value: new FakeWebStorage(), configurable: true });

let n = 0;
let dir: string | null = null;
export function scratchDir() { return dir ??= Deno.makeTempDirSync({ prefix: "verif-kv-" }); }
export function cleanupBackends() { if (dir) { try { Deno.removeSync(dir, { recursive: true }); } catch { /* leave */ } dir = null; } }
globalThis.addEventListener("unload", cleanupBackends);

export type BackendName = "memory" | "localstorage" | "sessionstorage" | "denokv" | "indexeddb";
export const BACKENDS: BackendName[] = ["memory", "localstorage", "sessionstorage", "denokv", "indexeddb"];

let lastKv: any = null;
// A fresh, empty store; the second value reopens the same contents as a new process would see them.
export async function makeBackend(b: BackendName): Promise<{ store: any; reopen: () => Promise<any>; sibling: () => Promise<any>; close: () => Promise<void> }> {
  const name = `v${++n}x`;
  const ctor = (nm: string): any => {
    switch (b) {
      case "memory": return new StorageMemory();
      case "localstorage": return new StorageLocalStorage(nm);
      case "sessionstorage": return new StorageSessionStorage(nm);
      case "denokv": return new StorageDenoKV(`${scratchDir()}/${nm}.db`);
      case "indexeddb": return new StorageIndexedDB(nm);
    }
  };
  localStorage.clear();
  sessionStorage.clear();
  const store = ctor(name);
  await store.initialize();
  const opened = [store];
  return {
    store,
    reopen: async () => {
      if (b === "memory") return store; // memory has no second life
      const s = ctor(name);
      await s.initialize();
      opened.push(s);
      return s;
    },
    // a store whose name extends this one's
    sibling: async () => { const s = ctor(name + "y"); await s.initialize(); opened.push(s); return s; },
    close: async () => {
      for (const s of opened) await s.close();
      if (b === "denokv") for (const suffix of ["", "y"]) for (const ext of ["", "-wal", "-shm"]) { try { Deno.removeSync(`${scratchDir()}/${name}${suffix}.db${ext}`); } catch { /* absent */ } }
    },
  };
}
void lastKv; void realNow;
