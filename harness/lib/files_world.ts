// Uploads and downloads of the real FileManager against a server that keeps files, recorded for TLC.
import { createHash } from "node:crypto";
import { FileManager } from "/repo/client/2_file_manager.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";
import { FileType, PhotoSourceType, serializeFileId } from "/repo/3_types.ts";
import { FloodWait } from "/repo/4_errors.ts";
import { TimeTooBig } from "/repo/3_errors.ts";
import { advance, clearTimers, installVirtualTime, settle, timerDelays } from "./vt.ts";
import { ige, rand } from "./mtproto.ts";
import type { Rng } from "./graph.ts";
import { makeBackend } from "./backends.ts";

// Every 16 bytes of a file name the file and the place, so a piece of it can be located.
export function content(f: number, size: number): Uint8Array<ArrayBuffer> {
  const b = new Uint8Array(Math.ceil(size / 16) * 16);
  const w = new Uint32Array(b.buffer);
  for (let i = 0; i < w.length; i += 4) {
    w[i] = i * 4;
    w[i + 1] = Math.imul(i + f * 7919, 0x9e3779b1);
    w[i + 2] = f;
    w[i + 3] = Math.imul(i ^ (f * 104729), 0x85ebca6b);
  }
  return b.slice(0, size);
}
const eq = (a: Uint8Array, b: Uint8Array) => a.length === b.length && a.every((v, i) => v === b[i]);
// [file, from, to) of a piece, or nothing that is in any file
export function locate(files: Uint8Array[], expectedAt: [number, number], piece: Uint8Array): [number, number, number] {
  if (!piece.length) return [expectedAt[0], expectedAt[1], expectedAt[1]];
  const at = (f: number, from: number) => files[f] && from + piece.length <= files[f].length && eq(files[f].subarray(from, from + piece.length), piece);
  if (at(...expectedAt)) return [...expectedAt, expectedAt[1] + piece.length];
  if (piece.length >= 16) {
    const v = new DataView(piece.buffer, piece.byteOffset);
    const from = v.getUint32(0, true), f = v.getUint32(8, true);
    if (at(f, from)) return [f, from, from + piece.length];
  }
  return [-1, -1, -1];
}

const fail = (r: Rng, fatal: boolean) => fatal ? new TimeTooBig({ _: "x" } as any) : r.int(4) === 0 ? new FloodWait({ error_code: 420, error_message: "FLOOD_WAIT_7" } as any, {} as any) : new Error("connection lost");

export interface UploadCfg { size: number; chunk: number; enc: boolean; kind: "buffer" | "stream" | "iterator" | "async iterator"; pool: number; progress: boolean; failRate: number; fatalRate: number; abortAt: number; breakAt: number; doom: number }
export async function runUpload(cfg: UploadCfg, r: Rng, unhandled: string[]) {
  installVirtualTime();
  clearTimers();
  const ev: any[] = [{ n: "Start", cfg: { size: cfg.size, chunk: cfg.chunk, enc: cfg.enc } }];
  const src = content(1, cfg.size);
  const key = rand(32) as Uint8Array<ArrayBuffer>, iv = rand(32) as Uint8Array<ArrayBuffer>;
  const key0 = key.slice(), iv0 = iv.slice();
  const cipher = cfg.enc ? ige(new Uint8Array([...src.subarray(0, src.length & ~15)]), key0, iv0, true) : null;
  const fly: { p: number; ok: () => void; no: (e: unknown) => void }[] = [];
  let id: bigint | null = null, sameId = true;
  const plain = (p: number, bytes: Uint8Array): Uint8Array => {
    if (!cipher) return bytes;
    const from = p * cfg.chunk, whole = Math.max(0, Math.min(bytes.length, cipher.length - from));
    if (bytes.length % 16 || !eq(bytes.subarray(0, whole), cipher.subarray(from, from + whole))) return new Uint8Array([1, 2, 3]);
    if (whole === bytes.length) return src.subarray(from, from + whole);
    const at = from + whole; // the last, padded block
    const dec = ige(bytes.slice(whole), key0, at ? new Uint8Array([...cipher.subarray(at - 16, at), ...src.subarray(at - 16, at)]) : iv0, false);
    return new Uint8Array([...src.subarray(from, from + whole), ...dec.subarray(0, src.length - at)]);
  };
  const calls: any[] = [];
  const C: any = {
    id: 0, getUploadPoolSize: () => Promise.resolve(cfg.pool), storage: { supportsFiles: false },
    handleUpdate: (u: any) => { ev.push({ n: "Progress", up: u.uploadProgress.uploaded, done: u.uploadProgress.isUploaded }); },
    invoke: (q: any) => {
      const [f, from, to] = locate([new Uint8Array(0), src], [1, q.file_part * cfg.chunk], plain(q.file_part, q.bytes));
      const form = q._ === "upload.saveBigFilePart" ? "big" : q._ === "upload.saveFilePart" ? "small" : "?";
      if (id === null) id = q.file_id;
      else if (id !== q.file_id) sameId = false;
      const e = { n: "Call", p: q.file_part, from: f < 0 ? -1 : from, to, form, total: form === "big" ? q.file_total_parts : 0 };
      ev.push(e);
      calls.push(e);
      return new Promise<boolean>((ok, no) => fly.push({ p: q.file_part, ok: () => ok(true), no }));
    },
  };
  const m = new FileManager(C);
  // the source, given out piece by piece
  let fed = 0, closed = cfg.kind === "buffer", broken = false;
  let ctl: ReadableStreamDefaultController<Uint8Array> | null = null;
  let wanted: PromiseWithResolvers<IteratorResult<Uint8Array>> | null = null;
  const piece = () => {
    const sizes = [0, 1, 7, 512, cfg.chunk - 1, cfg.chunk, cfg.chunk + 1, cfg.chunk * 3, r.int(cfg.chunk * 2) + 1];
    const n = Math.min(r.pick(sizes), cfg.size - fed);
    const b = src.slice(fed, fed + n);
    fed += n;
    return b;
  };
  let source: any = src;
  if (cfg.kind === "stream") source = new ReadableStream<Uint8Array>({ start: (c) => { ctl = c; } });
  else if (cfg.kind === "async iterator") source = { [Symbol.asyncIterator]: () => ({ next: () => (wanted = Promise.withResolvers()).promise }) };
  else if (cfg.kind === "iterator") {
    source = { *[Symbol.iterator]() { while (fed < cfg.size) yield piece(); closed = true; } };
  }
  const abort = new AbortController();
  let settled = false, causeGiven = false;
  const before = unhandled.length;
  const params: any = { chunkSize: cfg.chunk, signal: abort.signal, fileName: "name" };
  if (cfg.progress) params.progressId = await m.getProgressId();
  const reject = () => { settled = true; ev.push({ n: "Reject" }); };
  m.upload(source, params, null, true, cfg.enc ? { key, iv } : undefined as any).then((res: any) => {
    settled = true;
    const f = cfg.enc ? res.inputEncryptedFile : res;
    let same = sameId && f.id === id && (cfg.enc || f.name === "name") && (!cfg.progress || String(f.id) === params.progressId);
    if (cfg.enc) {
      const d = createHash("md5").update(key0).update(iv0).digest();
      const fp = new DataView(d.buffer, d.byteOffset);
      same &&= f.key_fingerprint === (fp.getInt32(0, true) ^ fp.getInt32(4, true));
    }
    const form = f._ === (cfg.enc ? "inputEncryptedFileUploaded" : "inputFile") ? "small" : f._ === (cfg.enc ? "inputEncryptedFileBigUploaded" : "inputFileBig") ? "big" : "?";
    ev.push({ n: "Resolve", parts: f.parts, form, same, size: cfg.enc ? res.fileSize : 0 });
  }, reject);
  const cause = () => { if (!causeGiven) { causeGiven = true; ev.push({ n: "Cause" }); } };
  const doomed = cfg.doom >= 0 ? cfg.doom : -1;
  for (let step = 0; step < 4000; step++) {
    await settle(1);
    await advance(1);
    if (step === cfg.abortAt) { cause(); abort.abort(); await settle(1); continue; }
    if (step === cfg.breakAt && !closed) {
      if (ctl || wanted) { cause(); broken = closed = true; if (ctl) (ctl as any).error(new Error("source failed")); else wanted!.reject(new Error("source failed")); await settle(1); continue; }
    }
    const canFeed = !closed && !broken && (ctl !== null || wanted !== null);
    if (fly.length && (!canFeed || r.int(2))) {
      const [f] = fly.splice(r.int(3) ? 0 : r.int(fly.length), 1);
      if (f.p === doomed || r() < cfg.failRate) {
        const fatal = r() < cfg.fatalRate;
        ev.push({ n: "Fail", p: f.p, fatal });
        f.no(fail(r, fatal));
      } else {
        ev.push({ n: "Accept", p: f.p });
        f.ok();
      }
    } else if (canFeed) {
      if (fed >= cfg.size) {
        closed = true;
        if (ctl) (ctl as any).close(); else wanted!.resolve({ done: true, value: undefined });
      } else if (ctl) (ctl as any).enqueue(piece());
      else { const w = wanted!; wanted = null; w.resolve({ done: false, value: piece() }); }
    } else if (timerDelays().length) await advance(timerDelays()[0] + 1);
    else if (settled || step > (cfg.abortAt >= 0 ? cfg.abortAt : 0) + 3) break;
  }
  await settle(2);
  await new Promise((ok) => setTimeoutReal(ok, 0));
  if (unhandled.length > before) ev.push({ n: "Unhandled", why: unhandled.at(-1)!.split("\n")[0] });
  ev.push({ n: "Quiet" });
  return { events: ev, meta: { ...cfg } };
}
const setTimeoutReal = globalThis.setTimeout;

// ---------------------------------------------------------------------------------------------------------------
export interface FileSpec { kind: "document" | "photo" | "big" | "small" | "encrypted" | "thumbnail"; id: number; size: number }
const KEY = content(99, 32), IV = content(98, 32);
function fileIdOf(s: FileSpec): string {
  const location: any = { id: BigInt(1000 + s.id), accessHash: 5n };
  const photo = (source: any, type: any) => ({ type, dcId: 2, fileReference: new Uint8Array([1]), location: { type: "photo", ...location, source } });
  switch (s.kind) {
    case "photo": return serializeFileId(photo({ type: PhotoSourceType.Thumbnail, fileType: FileType.Photo, thumbnailType: "y".charCodeAt(0) }, FileType.Photo) as any);
    case "thumbnail": return serializeFileId(photo({ type: PhotoSourceType.Thumbnail, fileType: FileType.Thumbnail, thumbnailType: "m".charCodeAt(0) }, FileType.Thumbnail) as any);
    case "big": case "small": return serializeFileId(photo({ type: s.kind === "big" ? PhotoSourceType.ChatPhotoBig : PhotoSourceType.ChatPhotoSmall, chatId: 77n, chatAccessHash: 3n }, FileType.ProfilePhoto) as any);
    default: return serializeFileId({ type: s.kind === "encrypted" ? FileType.Encrypted : FileType.Document, dcId: 2, fileReference: new Uint8Array([1]), location: { type: "common", ...location } } as any);
  }
}
const nameOf = (l: any): string => l._ === "inputPeerPhotoFileLocation" ? `${l.big ? "big" : "small"}${l.photo_id}` : l._ === "inputPhotoFileLocation" ? `photo${l.id}` : l._ === "inputEncryptedFileLocation" ? `encrypted${l.id}` : `${l.thumb_size ? "thumbnail" : "document"}${l.id}`;

export interface DownloadCfg { files: FileSpec[]; downloads: number; together: number; chunks: number[]; offsets: number[]; failRate: number; fatalRate: number; abortRate: number; leaveRate: number; scribble: boolean; backend: "indexeddb" | "memory"; storageFails: number; chunked: boolean }
export async function runDownloads(cfg: DownloadCfg, r: Rng, unhandled: string[]) {
  installVirtualTime();
  clearTimers();
  const b = await makeBackend(cfg.backend);
  const ops = new StorageOperations(b.store);
  await ops.initialize();
  const files = cfg.files.map((f, i) => content(i + 1, f.size));
  const stored = cfg.files.map((f, i) => f.kind === "encrypted" ? ige(new Uint8Array([...files[i], ...content(50, (16 - files[i].length % 16) % 16)]), KEY, IV, true) : files[i]);
  const byName = new Map(cfg.files.map((f, i) => [f.kind + (1000 + f.id), i]));
  const ev: any[] = [];
  const before = unhandled.length;
  interface D { n: number; f: number; pos: number; it: AsyncGenerator<Uint8Array>; abort: AbortController; pending: boolean; over: boolean; caused: boolean; fails: Map<string, number> }
  const ds: D[] = [];
  const fly: { d: D; q: any; ok: (v: any) => void; no: (e: unknown) => void }[] = [];
  const cause = (d: D) => { if (!d.caused && !d.over) { d.caused = true; ev.push({ n: "Cause", d: d.n }); } };
  let current: D | null = null;
  let writes = 0;
  const realSet = b.store.set.bind(b.store);
  if (cfg.storageFails >= 0) {
    b.store.set = (k: any, v: any) => {
      if (writes++ === cfg.storageFails) { for (const d of ds) cause(d); return Promise.reject(new Error("storage full")); }
      return realSet(k, v);
    };
  }
  const manager = (d: D): FileManager => new FileManager({
    id: 0, storage: ops, messageStorage: ops, handleUpdate: () => {},
    invoke: (q: any) => new Promise((ok, no) => fly.push({ d, q, ok, no })),
  } as any);
  // one manager serves all downloads; calls are matched to downloads by the file and the asking order
  const shared = new FileManager({
    id: 0, storage: ops, messageStorage: ops, handleUpdate: () => {},
    invoke: (q: any) => {
      const f = byName.get(nameOf(q.location)) ?? -1;
      return new Promise((ok, no) => fly.push({ d: { f } as D, q, ok, no }));
    },
  } as any);
  void manager; void current;
  const begin = () => {
    const f = r.int(files.length);
    const off = r.pick(cfg.offsets) * 1024;
    const d: D = { n: ds.length + 1, f, pos: Math.min(off, files[f].length), it: null!, abort: new AbortController(), pending: false, over: false, caused: false, fails: new Map() };
    const params: any = { chunkSize: r.pick(cfg.chunks), signal: d.abort.signal, ...(off ? { offset: off } : {}) };
    if (cfg.files[f].kind === "encrypted") params.fileInformation = "0" + hex(KEY) + hex(IV) + files[f].length;
    ev.push({ n: "Begin", d: d.n, f: f + 1, size: files[f].length, off: d.pos, chunk: params.chunkSize });
    d.it = shared.download(fileIdOf(cfg.files[f]), params) as any;
    ds.push(d);
  };
  const next = (d: D) => {
    d.pending = true;
    d.it.next().then((x) => {
      d.pending = false;
      if (d.over) return;
      if (x.done) { d.over = true; ev.push({ n: "End", d: d.n }); return; }
      const [f, from, to] = locate([new Uint8Array(0), ...files], [d.f + 1, d.pos], x.value);
      ev.push({ n: "Yield", d: d.n, f, from, to });
      d.pos = to;
      if (cfg.scribble) x.value.fill(0xee);
    }, () => { d.pending = false; if (!d.over) { d.over = true; ev.push({ n: "Error", d: d.n }); } });
  };
  for (let step = 0; step < 3000; step++) {
    await settle(1);
    const live = ds.filter((d) => !d.over);
    const idle = live.filter((d) => !d.pending);
    if (ds.length < cfg.downloads && live.length < cfg.together && (!live.length || r.int(3) === 0)) { begin(); continue; }
    if (live.length && r() < cfg.abortRate) { const d = r.pick(live); cause(d); d.abort.abort(); if (idle.includes(d)) next(d); continue; }
    if (idle.length && r() < cfg.leaveRate) { const d = r.pick(idle); d.over = true; ev.push({ n: "Leave", d: d.n }); d.it.return(undefined as any).catch(() => {}); continue; }
    if (idle.length && (!fly.length || r.int(2))) { next(r.pick(idle)); continue; }
    if (fly.length) {
      const [c] = fly.splice(r.int(3) ? 0 : r.int(fly.length), 1);
      const asking = ds.filter((d) => d.f === c.d.f);
      if (c.d.f >= 0 && r() < cfg.failRate) {
        const fatal = r() < cfg.fatalRate;
        // which of the downloads of this file asked is not known
        for (const d of asking) { const k = `${c.q.offset}`; d.fails.set(k, (d.fails.get(k) ?? 0) + 1); if (fatal || d.fails.get(k)! >= 5) cause(d); }
        c.no(fail(r, fatal));
      } else if (c.d.f < 0) c.no(new TimeTooBig({ _: "x" } as any));
      else {
        const o = Number(c.q.offset);
        c.ok({ _: "upload.file", type: { _: "storage.filePartial" }, mtime: 0, bytes: stored[c.d.f].slice(o, o + c.q.limit) });
      }
      continue;
    }
    if (timerDelays().length) { await advance(timerDelays()[0] + 1); continue; }
    if (!live.length && ds.length >= cfg.downloads) break;
  }
  await settle(2);
  if (unhandled.length > before) ev.push({ n: "Unhandled", why: unhandled.at(-1)!.split("\n")[0] });
  ev.push({ n: "Quiet" });
  await b.close();
  return { events: ev, meta: { ...cfg } };
}
const hex = (b: Uint8Array) => [...b].map((x) => x.toString(16).padStart(2, "0")).join("");
