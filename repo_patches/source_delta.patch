From 55f3b0dbf29e91d37eb7bbc762830c9a2c95977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 01/68] fix: ignore entries of branches and longer prefixes
 when listing a web storage

---
 storage/2_storage_local_storage.node.ts | 4 ++--
 storage/2_storage_local_storage.ts      | 4 ++--
 storage/2_storage_session_storage.ts    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 5ced7f1..6320dbf 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -20,7 +20,7 @@
 
 import { LocalStorage } from "node-localstorage";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(this.#storage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 1908bc2..727b758 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageLocalStorage implements Storage {
   readonly #prefix: string;
@@ -72,7 +72,7 @@ export class StorageLocalStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(localStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index eea0c55..94b802c 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { compareKeys, fromString, isInRange, toString } from "./1_utilities.ts";
+import { compareKeys, fromString, isInRange, toString, ValueType } from "./1_utilities.ts";
 
 export class StorageSessionStorage implements Storage {
   readonly #prefix: string;
@@ -73,7 +73,7 @@ export class StorageSessionStorage implements Storage {
 
   *getMany<T>(filter: GetManyFilter, params?: { limit?: number; reverse?: boolean }): Generator<[readonly StorageKeyPart[], T]> {
     const entries = Object.entries(sessionStorage)
-      .filter(([key]) => key.startsWith(this.prefix))
+      .filter(([key]) => key.startsWith(this.prefix + ValueType.Array))
       .sort(([a], [b]) =>
         compareKeys(
           fromString<StorageKeyPart[]>(a.slice(this.prefix.length)),
-- 
2.43.0


From 610f0d21ca91904f7f4ca925f1b91da854a6f40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 02/68] fix: limit IndexedDB prefix scans to keys under the
 prefix

---
 storage/1_utilities.ts | 60 +++---------------------------------------
 1 file changed, 3 insertions(+), 57 deletions(-)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 3a5ab42..cc57dd8 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -128,66 +128,12 @@ export function restoreKey(key: readonly IDBValidKey[]): StorageKeyPart[] {
   });
 }
 
-// Source: https://gist.github.com/inexorabletash/5462871
-// deno-lint-ignore no-explicit-any
-export function getPrefixKeyRange(prefix: any): IDBKeyRange {
+export function getPrefixKeyRange(prefix: IDBValidKey[]): IDBKeyRange {
   // Ensure prefix is a valid key itself:
   if (indexedDB.cmp(prefix, prefix) !== 0) throw new TypeError();
 
-  const upperKey = successor(prefix);
-  if (upperKey === undefined) return IDBKeyRange.lowerBound(prefix);
-  return IDBKeyRange.bound(prefix, upperKey, false, true);
-}
-const MAX_DATE_VALUE = 8640000000000000;
-const UPPER_BOUND = {
-  NUMBER: new Date(-MAX_DATE_VALUE),
-  DATE: "",
-  STRING: [],
-  ARRAY: undefined,
-};
-// deno-lint-ignore no-explicit-any
-function successor(key: any) {
-  if (typeof key === "number") {
-    if (key === Infinity) return UPPER_BOUND.NUMBER;
-    if (key === -Infinity) return -Number.MAX_VALUE;
-    if (key === 0) return Number.MIN_VALUE;
-    let epsilon = Math.abs(key);
-    while (key + epsilon / 2 !== key) epsilon = epsilon / 2;
-    return key + epsilon;
-  }
-
-  if (key instanceof Date) {
-    if (key.valueOf() + 1 > MAX_DATE_VALUE) return UPPER_BOUND.DATE;
-    return new Date(key.valueOf() + 1);
-  }
-
-  if (typeof key === "string") {
-    let len = key.length;
-    while (len > 0) {
-      const head = key.substring(0, len - 1),
-        tail = key.charCodeAt(len - 1);
-      if (tail !== 0xffff) return head + String.fromCharCode(tail + 1);
-      key = head;
-      --len;
-    }
-    return UPPER_BOUND.STRING;
-  }
-
-  if (Array.isArray(key)) {
-    key = key.slice(); // Operate on a copy.
-    let len = key.length;
-    while (len > 0) {
-      const tail = successor(key.pop());
-      if (tail !== undefined) {
-        key.push(tail);
-        return key;
-      }
-      --len;
-    }
-    return UPPER_BOUND.ARRAY;
-  }
-
-  throw new TypeError();
+  // No key part is an array containing an array, so this sorts after every key under the prefix.
+  return IDBKeyRange.bound(prefix, [...prefix, [[]]], false, true);
 }
 
 export function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]): number {
-- 
2.43.0


From 0288e6a789e45e1c78b90db81f6a4812378314f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 03/68] fix: keep entries of branches out of scans of the
 storage they branch from

---
 storage/1_storage_deno_kv.ts    | 12 +++++++++++-
 storage/1_utilities.ts          |  5 +++++
 storage/2_storage_indexed_db.ts |  7 +++++--
 storage/2_storage_memory.ts     |  4 +++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/storage/1_storage_deno_kv.ts b/storage/1_storage_deno_kv.ts
index 5b17228..76cb964 100644
--- a/storage/1_storage_deno_kv.ts
+++ b/storage/1_storage_deno_kv.ts
@@ -20,6 +20,7 @@
 
 import { getLogger, type Logger } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
+import { isBranchKey } from "./1_utilities.ts";
 
 function assertInitialized(kv: Deno.Kv | null | undefined) {
   if (!kv) {
@@ -104,10 +105,19 @@ export class StorageDenoKV implements Storage {
     };
     const kv = assertInitialized(this.kv);
 
-    for await (const i of kv.list(selector, { limit: params?.limit, reverse: params?.reverse })) {
+    // Entries of branches are skipped, so they must not count towards the limit.
+    const mayIncludeBranches = this.#id === null && ("prefix" in filter ? filter.prefix.length === 0 : filter.start[0] !== filter.end[0]);
+    let yielded = 0;
+    for await (const i of kv.list(selector, { limit: mayIncludeBranches ? undefined : params?.limit, reverse: params?.reverse })) {
       if (i.key === null) { // just in case
         continue;
       }
+      if (this.#id === null && isBranchKey(i.key as StorageKeyPart[])) {
+        continue;
+      }
+      if (params?.limit !== undefined && yielded++ >= params.limit) {
+        return;
+      }
       const key = this.#id !== null ? i.key.slice(1) : i.key;
       yield [key, i.value] as [readonly StorageKeyPart[], T];
     }
diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index cc57dd8..55f3492 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -151,6 +151,11 @@ export function compareKeys(left: readonly StorageKeyPart[], right: readonly Sto
   return left.length === right.length ? 0 : left.length < right.length ? -1 : 1;
 }
 
+/** Whether a key belongs to a branch, for storages that keep the entries of branches along with their own. */
+export function isBranchKey(key: readonly StorageKeyPart[]): boolean {
+  return typeof key[0] === "string" && key[0].startsWith("__S");
+}
+
 export function isInRange(key: StorageKeyPart[], start: readonly StorageKeyPart[], end: readonly StorageKeyPart[]): boolean {
   return compareKeys(key, start) >= 0 && compareKeys(key, end) <= 0;
 }
diff --git a/storage/2_storage_indexed_db.ts b/storage/2_storage_indexed_db.ts
index ad77764..0bcbe60 100644
--- a/storage/2_storage_indexed_db.ts
+++ b/storage/2_storage_indexed_db.ts
@@ -19,7 +19,7 @@
  */
 
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { fixKey, getPrefixKeyRange, restoreKey } from "./1_utilities.ts";
+import { fixKey, getPrefixKeyRange, isBranchKey, restoreKey } from "./1_utilities.ts";
 
 const VERSION = 1;
 const KV_OBJECT_STORE = "kv";
@@ -177,7 +177,10 @@ export class StorageIndexedDB implements Storage {
           res(items);
           return;
         }
-        items.push(restoreKey(cursor.key as readonly IDBValidKey[]));
+        const key = restoreKey(cursor.key as readonly IDBValidKey[]);
+        if (this.#id !== null || !isBranchKey(key)) {
+          items.push(key);
+        }
         if (params?.limit !== undefined && items.length >= params.limit) {
           res(items);
         } else {
diff --git a/storage/2_storage_memory.ts b/storage/2_storage_memory.ts
index 7cb2bd6..6632f5d 100644
--- a/storage/2_storage_memory.ts
+++ b/storage/2_storage_memory.ts
@@ -20,7 +20,7 @@
 
 import type { MaybePromise } from "../1_utilities.ts";
 import type { GetManyFilter, Storage, StorageKeyPart } from "./0_storage.ts";
-import { fromString, isInRange, toString } from "./1_utilities.ts";
+import { fromString, isBranchKey, isInRange, toString } from "./1_utilities.ts";
 
 function compareKeys(left: readonly StorageKeyPart[], right: readonly StorageKeyPart[]) {
   const length = Math.min(left.length, right.length);
@@ -110,6 +110,8 @@ export class StorageMemory implements Storage {
           continue;
         }
         parts = parts.slice(1);
+      } else if (isBranchKey(parts)) {
+        continue;
       }
       if ("prefix" in filter) {
         for (const [i, p] of filter.prefix.entries()) {
-- 
2.43.0


From 4330e78ab9775126deb47493e23323fe457bc652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 04/68] fix: skip keys shorter than the prefix when listing a
 web storage

---
 storage/2_storage_local_storage.node.ts | 2 +-
 storage/2_storage_local_storage.ts      | 2 +-
 storage/2_storage_session_storage.ts    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/storage/2_storage_local_storage.node.ts b/storage/2_storage_local_storage.node.ts
index 6320dbf..f6dbd05 100644
--- a/storage/2_storage_local_storage.node.ts
+++ b/storage/2_storage_local_storage.node.ts
@@ -93,7 +93,7 @@ export class StorageLocalStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
diff --git a/storage/2_storage_local_storage.ts b/storage/2_storage_local_storage.ts
index 727b758..40a0f87 100644
--- a/storage/2_storage_local_storage.ts
+++ b/storage/2_storage_local_storage.ts
@@ -93,7 +93,7 @@ export class StorageLocalStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
diff --git a/storage/2_storage_session_storage.ts b/storage/2_storage_session_storage.ts
index 94b802c..5dc4c78 100644
--- a/storage/2_storage_session_storage.ts
+++ b/storage/2_storage_session_storage.ts
@@ -94,7 +94,7 @@ export class StorageSessionStorage implements Storage {
       if (Array.isArray(parts)) {
         if ("prefix" in filter) {
           for (const [i, p] of filter.prefix.entries()) {
-            if (toString(p) !== toString(parts[i])) {
+            if (i >= parts.length || toString(p) !== toString(parts[i])) {
               continue entries;
             }
           }
-- 
2.43.0


From 7611d93667ae0c797f9593fa59b709f20fb54eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:31 +0000
Subject: [PATCH 05/68] fix: a disconnect cancels a connection attempt in
 progress

---
 client/2_client_encrypted.ts | 10 +++++++++-
 session/1_session.ts         |  7 +++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index cfa0480..9878ff0 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -135,7 +135,14 @@ export class ClientEncrypted extends ClientAbstract {
 
   #connectPromise?: Promise<void>;
   override connect(): Promise<void> {
-    return this.#connectPromise ??= this.#connect().finally(() => this.#connectPromise = undefined);
+    if (!this.#connectPromise) {
+      const connectPromise = this.#connectPromise = this.#connect().finally(() => {
+        if (this.#connectPromise === connectPromise) {
+          this.#connectPromise = undefined;
+        }
+      });
+    }
+    return this.#connectPromise;
   }
 
   async #connect() {
@@ -206,6 +213,7 @@ export class ClientEncrypted extends ClientAbstract {
 
   override disconnect() {
     super.disconnect();
+    this.#connectPromise = undefined;
     this.#temporaryAuthKeyRefreshLoop.abort();
     this.lastRequest = undefined;
     const error = new ConnectionError("The connection was closed.");
diff --git a/session/1_session.ts b/session/1_session.ts
index 9381bac..b621c84 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -19,6 +19,7 @@
  */
 
 import { delay, SECOND } from "../0_deps.ts";
+import { ConnectionError } from "../0_errors.ts";
 import { drop, getLogger, type Logger, Mutex } from "../1_utilities.ts";
 import type { Connection, ConnectionCallback } from "../2_connection.ts";
 import { type DC, type TransportProvider, transportProviderTcp, transportProviderWebSocket } from "../3_transport.ts";
@@ -44,6 +45,7 @@ export abstract class Session {
   protected transport: ReturnType<TransportProvider>;
   #lastConnect?: Date;
   #isDisconnected = true;
+  #disconnectCount = 0;
   #L: Logger;
   #onConnectionStateChange: Connection["stateChangeHandler"];
 
@@ -137,6 +139,7 @@ export abstract class Session {
 
   #connectMutex = new Mutex();
   async connect() {
+    const disconnectCount = this.#disconnectCount;
     const unlock = await this.#connectMutex.lock();
     try {
       if (this.isConnected) {
@@ -146,6 +149,9 @@ export abstract class Session {
       await this.transport.connection.open();
       try {
         await this.transport.transport.initialize();
+        if (this.#disconnectCount !== disconnectCount) {
+          throw new ConnectionError("The connection was disconnected.");
+        }
       } catch (err) {
         if (this.transport.connection.isConnected) {
           try {
@@ -183,6 +189,7 @@ export abstract class Session {
 
   disconnect() {
     this.#isDisconnected = true;
+    this.#disconnectCount++;
     if (this.transport.connection.isConnected) {
       drop(this.transport.connection.close());
     }
-- 
2.43.0


From c54615b196329d1ef96ea0fdfa684c3e2ba09057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 06/68] fix: only fail what belonged to the lost session when
 it is replaced

---
 session/2_session_encrypted.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index bb479c0..1c1a136 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -108,6 +108,10 @@ export class SessionEncrypted extends Session implements Session {
       await initTgCrypto();
       SessionEncrypted.#IS_TGCRYPTO_INITIALIZED = true;
     }
+    if (this.#isInvalidating) {
+      // Done before anything is sent in the new session, so that only what belonged to the old one fails.
+      this.#rejectAllPending(new SessionError("The session was invalidated."));
+    }
     this.#receiveLoop.start();
     this.#sendLoop.start();
     this.#pingLoop.start();
@@ -147,7 +151,6 @@ export class SessionEncrypted extends Session implements Session {
     } finally {
       this.#isInvalidating = false;
     }
-    this.#rejectAllPending(new SessionError("The session was invalidated."));
   }
 
   #rejectAllPending(reason: unknown) {
-- 
2.43.0


From 8ca579f434b725f4feb2d7536fb10ee9310c6a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 07/68] fix: forget unsettled acknowledgements of a session
 along with it

---
 session/2_session_encrypted.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index 1c1a136..e7ff62d 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -122,6 +122,7 @@ export class SessionEncrypted extends Session implements Session {
     super.disconnect();
     this.state.reset();
     this.#id = getRandomId();
+    this.#pendingAcks.clear();
     this.#receiveLoop.abort();
     this.#sendLoop.abort();
     this.#pingLoop.abort();
-- 
2.43.0


From da2bf1234bb05d4f7b3e62d304c74558076c35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:37 +0000
Subject: [PATCH 08/68] fix: track messages and acknowledgements from before
 their transmission

---
 session/2_session_encrypted.ts | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index e7ff62d..ef47b62 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -355,6 +355,8 @@ export class SessionEncrypted extends Session implements Session {
     let msg_id: bigint;
     let message: message;
     let unregister: (() => void) | undefined;
+    let sentId: bigint | undefined;
+    let ackId: bigint | undefined;
 
     try {
       msg_id = this.state.nextMessageId();
@@ -406,7 +408,7 @@ export class SessionEncrypted extends Session implements Session {
           body: Mtproto.serializeObject({ _: "msgs_ack", msg_ids }),
         };
         this.#LsendLoop.debug("msgs_ack msg_id =", ack.msg_id, "seqno =", seqno);
-        this.#pendingAcks.set(ack.msg_id, msg_ids);
+        this.#pendingAcks.set(ackId = ack.msg_id, msg_ids);
         message = {
           _: "message",
           msg_id: this.state.nextMessageId(),
@@ -419,20 +421,32 @@ export class SessionEncrypted extends Session implements Session {
         this.#LsendLoop.debug("container msg_id =", message.msg_id, "seqno =", message.seqno);
       }
 
+      // The message is registered before it is transmitted, so that it fails along with the session if that is lost in the meantime.
+      this.#sentMessages.add(sentId = msg_id);
+      if (!(message.body instanceof Uint8Array)) {
+        this.#containers.set(message.msg_id, message.body.messages.map((v) => v.msg_id));
+      }
+
       const payload = await this.#encryptMessage(message);
       await this.transport.transport.send(payload);
     } catch (err) {
+      if (ackId !== undefined) {
+        this.#toAcknowledge.push(...this.#pendingAcks.get(ackId) ?? []);
+        this.#pendingAcks.delete(ackId);
+      }
+      if (sentId !== undefined && !this.#sentMessages.delete(sentId)) {
+        // It was already answered or failed.
+        pendingMessage.promiseWithResolvers.resolve();
+        return;
+      }
       pendingMessage.promiseWithResolvers.reject(err);
       unregister?.();
       return;
     }
 
     this.#LsendLoop.out(message);
-    this.#sentMessages.add(msg_id);
     if (!(message.body instanceof Uint8Array)) {
-      const msg_ids = message.body.messages.map((v) => v.msg_id);
-      this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...msg_ids);
-      this.#containers.set(message.msg_id, msg_ids);
+      this.#LsendLoop.debug("sent container", message.msg_id, "with messages", ...message.body.messages.map((v) => v.msg_id));
     } else {
       this.#LsendLoop.debug("sent message", message.msg_id);
     }
-- 
2.43.0


From 1f92ae974eb36bef8a6a17aca2091316ca79f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:04 +0000
Subject: [PATCH 09/68] fix: apply no account-wide update next to a difference
 being fetched

---
 client/2_update_manager.ts | 123 ++++++++++++++++++++++---------------
 1 file changed, 75 insertions(+), 48 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 73f6aae..110586b 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -162,7 +162,7 @@ export class UpdateManager {
       return this.#state;
     }
     const state = await this.#c.storage.getState();
-    return this.#state = state;
+    return this.#state ??= state; // it may have been loaded, or set, in the meantime
   }
 
   async #setState(state: Api.updates_State) {
@@ -172,7 +172,22 @@ export class UpdateManager {
     }
   }
 
+  // Held while the account's counters are compared or changed, which includes the whole of a gap recovery, so that no update is applied next to a difference which may include it.
+  #stateMutex = new Mutex();
+  async #withStateLocked<T>(fn: () => Promise<T>): Promise<T> {
+    const unlock = await this.#stateMutex.lock();
+    try {
+      return await fn();
+    } finally {
+      unlock();
+    }
+  }
+
   async fetchState(source: string) {
+    await this.#withStateLocked(() => this.#fetchState(source));
+  }
+
+  async #fetchState(source: string) {
     let state = await this.#c.invoke({ _: "updates.getState" });
     const difference = await this.#c.invoke({ ...state, _: "updates.getDifference" });
     if (Api.is("updates.difference", difference)) {
@@ -358,13 +373,13 @@ export class UpdateManager {
   async #checkGap(pts: number, ptsCount: number) {
     const localState = await this.#getLocalState();
     if (localState.pts < pts && localState.pts + ptsCount !== pts) {
-      await this.recoverUpdateGap("processUpdates[pts]");
+      await this.#recoverUpdateGap("processUpdates[pts]");
     }
   }
   async #checkGapQts(qts: number) {
     const localState = await this.#getLocalState();
     if (localState.qts + UpdateManager.QTS_COUNT < qts) {
-      await this.recoverUpdateGap("processUpdates[qts]");
+      await this.#recoverUpdateGap("processUpdates[qts]");
     }
   }
   async #checkChannelGap(channelId: bigint, pts: number, ptsCount: number) {
@@ -438,7 +453,7 @@ export class UpdateManager {
     if (update.pts !== 0 && checkGap) {
       await this.#checkGap(update.pts, update.pts_count);
       if (await this.#needsGetDifference(update)) {
-        await this.recoverUpdateGap("needsGetDifference");
+        await this.#recoverUpdateGap("needsGetDifference");
       }
     }
 
@@ -459,7 +474,7 @@ export class UpdateManager {
   #ptsUpdateQueue = new Queue("ptsUpdate");
   #processPtsUpdate(update: PtsUpdate, checkGap: boolean) {
     this.#ptsUpdateQueue.add(async () => {
-      await this.#processPtsUpdateInner(update, checkGap);
+      await this.#withStateLocked(() => this.#processPtsUpdateInner(update, checkGap));
     });
   }
 
@@ -487,7 +502,7 @@ export class UpdateManager {
   #qtsUpdateQueue = new Queue("qtsUpdate");
   #processQtsUpdate(update: QtsUpdate, checkGap: boolean) {
     this.#qtsUpdateQueue.add(async () => {
-      await this.#processQtsUpdateInner(update, checkGap);
+      await this.#withStateLocked(() => this.#processQtsUpdateInner(update, checkGap));
     });
   }
 
@@ -512,29 +527,8 @@ export class UpdateManager {
       if (checkGap) {
         if (seqStart === 0) {
           this.#L$processUpdates.debug("seqStart=0");
-        } else {
-          let localState = await this.#getLocalState();
-
-          if (localState.seq + 1 < seqStart) {
-            // There's an update gap that must be filled.
-            await this.recoverUpdateGap("localSeq + 1 < seqStart");
-            localState = await this.#getLocalState();
-          }
-
-          if (localState.seq + 1 === seqStart) {
-            // The update sequence can be applied.
-            localState.seq = seq;
-            localState.date = updates_.date;
-            await this.#setUpdateStateDate(updates_.date);
-            await this.#setState(localState);
-          } else if (localState.seq + 1 > seqStart) {
-            // The update sequence was already applied, and must be ignored.
-            this.#L$processUpdates.debug("localSeq + 1 > seqStart");
-            return;
-          } else {
-            this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
-            return;
-          }
+        } else if (!await this.#withStateLocked(() => this.#processSeq(seqStart, seq, updates_.date))) {
+          return;
         }
       }
     } else if (Api.is("updateShort", updates_)) {
@@ -651,21 +645,52 @@ export class UpdateManager {
         this.#queueUpdate(update, 0n, false);
       }
     }
-    if (updatePtsChanged) {
+    if (updatePtsChanged && checkGap) { // the state which comes with a difference is already the new one
       await Promise.all([this.#ptsUpdateQueue, this.#qtsUpdateQueue].map((queue) => new Promise<void>((resolve) => queue.add(() => Promise.resolve().then(resolve)))));
-      await this.fetchState("updatePtsChanged");
-      if (this.#updateState) {
-        await this.#setState(this.#updateState);
-      } else {
-        unreachable();
-      }
+      await this.#withStateLocked(async () => {
+        await this.#fetchState("updatePtsChanged");
+        if (this.#updateState) {
+          await this.#setState(this.#updateState);
+        } else {
+          unreachable();
+        }
+      });
+    }
+  }
+
+  /** Returns whether the updates of the batch should be processed. */
+  async #processSeq(seqStart: number, seq: number, date: number): Promise<boolean> {
+    let localState = await this.#getLocalState();
+
+    if (localState.seq + 1 < seqStart) {
+      // There's an update gap that must be filled.
+      await this.#recoverUpdateGap("localSeq + 1 < seqStart");
+      localState = await this.#getLocalState();
+    }
+
+    if (localState.seq + 1 === seqStart) {
+      // The update sequence can be applied.
+      localState.seq = seq;
+      localState.date = date;
+      await this.#setState(localState);
+      return true;
+    } else if (localState.seq + 1 > seqStart) {
+      // The update sequence was already applied, and must be ignored.
+      this.#L$processUpdates.debug("localSeq + 1 > seqStart");
+      return false;
+    } else {
+      this.#L$processUpdates.warning("localSeq + 1 < seqStart after update gap recovery");
+      return false;
     }
   }
 
   async #setUpdateStateDate(date: number) {
-    const localState = await this.#getLocalState();
-    localState.date = date;
-    await this.#setState(localState);
+    const loadedState = await this.#getState();
+    const state = this.#state ?? loadedState;
+    if (state !== null) {
+      state.date = date;
+      await this.#setState(state);
+    }
   }
 
   async #setUpdatePts(pts: number) {
@@ -686,7 +711,7 @@ export class UpdateManager {
         localState = this.#updateState;
         await this.#setState(localState);
       } else {
-        await this.fetchState("getLocalState");
+        await this.#fetchState("getLocalState");
         if (this.#updateState) {
           localState = this.#updateState;
           await this.#setState(localState);
@@ -699,15 +724,18 @@ export class UpdateManager {
   }
 
   #updateGapRecoveryCount = 0;
-  #recoverUpdateGapMutex = new Mutex();
   async recoverUpdateGap(source: string) {
     const updateGapRecoveryCount = this.#updateGapRecoveryCount;
-    const unlock = await this.#recoverUpdateGapMutex.lock();
-    if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
-      this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
-      unlock();
-      return;
-    }
+    await this.#withStateLocked(async () => {
+      if (updateGapRecoveryCount !== this.#updateGapRecoveryCount) {
+        this.#LrecoverUpdateGap.debug(`update gap was just recovered [${source}]`);
+        return;
+      }
+      await this.#recoverUpdateGap(source);
+    });
+  }
+
+  async #recoverUpdateGap(source: string) {
     this.#LrecoverUpdateGap.debug(`recovering from update gap [${source}]`);
 
     this.#c.setConnectionState("updating");
@@ -785,7 +813,6 @@ export class UpdateManager {
       if (wasRecovered) {
         ++this.#updateGapRecoveryCount;
       }
-      unlock();
       this.#c.resetConnectionState();
     }
   }
-- 
2.43.0


From ea61fdc8832c3197e87612367bb81b3c5e9b3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 10/68] fix: run the recoveries of open chats in the channel's
 update queue

---
 client/2_update_manager.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 110586b..12caaf4 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -437,14 +437,18 @@ export class UpdateManager {
     });
   }
 
-  #processChannelPtsUpdate(update: ChannelPtsUpdate, checkGap: boolean) {
-    const channelId = Api.is("updateNewChannelMessage", update) || Api.is("updateEditChannelMessage", update) ? Api.as("peerChannel", (update.message as Api.message | Api.messageService).peer_id).channel_id : update.channel_id;
+  #getChannelUpdateQueue(channelId: bigint): Queue {
     let queue = this.#channelUpdateQueues.get(channelId);
     if (queue === undefined) {
       queue = new Queue(`channelUpdates-${channelId}`);
       this.#channelUpdateQueues.set(channelId, queue);
     }
-    queue.add(async () => {
+    return queue;
+  }
+
+  #processChannelPtsUpdate(update: ChannelPtsUpdate, checkGap: boolean) {
+    const channelId = Api.is("updateNewChannelMessage", update) || Api.is("updateEditChannelMessage", update) ? Api.as("peerChannel", (update.message as Api.message | Api.messageService).peer_id).channel_id : update.channel_id;
+    this.#getChannelUpdateQueue(channelId).add(async () => {
       await this.#processChannelPtsUpdateInner(update, checkGap);
     });
   }
@@ -1157,7 +1161,10 @@ export class UpdateManager {
         }
         try {
           const Ti = Date.now();
-          const otherTimeout = await this.#recoverChannelUpdateGap(channelId, "openChat");
+          // runs in the channel's queue so that no update is applied next to a difference which may include it
+          const otherTimeout = await new Promise<number>((resolve, reject) => {
+            this.#getChannelUpdateQueue(channelId).add(() => this.#recoverChannelUpdateGap(channelId, "openChat").then(resolve, reject));
+          });
           const timeout = params?.timeout ?? otherTimeout;
           const dT = Date.now() - Ti;
           const delayMs = Math.max(timeout * SECOND - dT, 0);
-- 
2.43.0


From 6fb7164117efc570098cbf28a6a09c04b90080fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 11/68] fix: handle the messages of a too long channel
 difference before setting its pts

---
 client/2_update_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 12caaf4..ca322c6 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -892,7 +892,7 @@ export class UpdateManager {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-          await this.#processUpdates({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
+          await this.#processChannelPtsUpdateInner({ _: "updateNewChannelMessage", message, pts: 0, pts_count: 0 }, false);
         }
         const pts_ = Api.as("dialog", difference.dialog).pts;
         if (pts_ !== undefined) {
-- 
2.43.0


From 5284209fc2b2d32fd6230c26b517829a656962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 12/68] fix: check channel gaps after a recovery when dropping
 pending updates

---
 client/2_update_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index ca322c6..c0816e6 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -866,6 +866,7 @@ export class UpdateManager {
           throw err;
         }
       }
+      this.#nonFirst.add(channelId);
       if (Api.is("updates.channelDifference", difference)) {
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
-- 
2.43.0


From 5847394767305333035d20718148d618a4c7f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 13/68] fix: check the gaps of channel updates received in the
 account's difference

---
 client/2_update_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index c0816e6..56f9204 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -780,7 +780,7 @@ export class UpdateManager {
             } else if (UpdateManager.isQtsUpdate(update)) {
               await this.#processQtsUpdateInner(update, false);
             } else {
-              await this.#processUpdates(update, false);
+              await this.#processUpdates(update, UpdateManager.isChannelPtsUpdate(update)); // the difference fills no gaps of channels
             }
           }
           if (Api.is("updates.difference", difference)) {
-- 
2.43.0


From 3b08b117c04ca988863d0ef3d3e10553c785d042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 14/68] fix: support null and undefined in values kept in a web
 storage

---
 storage/1_utilities.ts | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/storage/1_utilities.ts b/storage/1_utilities.ts
index 55f3492..6601da2 100644
--- a/storage/1_utilities.ts
+++ b/storage/1_utilities.ts
@@ -31,6 +31,8 @@ const ValueType_ = {
   Uint8Array: 5,
   Array: 6,
   Map: 7,
+  Null: 8,
+  Undefined: 9,
 } as const;
 export const ValueType: Readonly<typeof ValueType_> = Object.freeze(ValueType_);
 
@@ -57,6 +59,10 @@ export function toString(value: unknown): string {
     return `${ValueType.Array}${items.join("")}`;
   } else if (typeof value === "object" && value !== null && Object.getPrototypeOf(value) === Object.prototype) {
     return `${ValueType.Map}${toString(Object.entries(value)).slice(1)}`;
+  } else if (value === null) {
+    return `${ValueType.Null}`;
+  } else if (value === undefined) {
+    return `${ValueType.Undefined}`;
   } else {
     unreachable();
   }
@@ -94,6 +100,10 @@ export function fromString<T>(string: string): T {
     case ValueType.Map:
       // deno-lint-ignore no-explicit-any
       return Object.fromEntries(fromString(`${ValueType.Array}${value}`) as [string, any]) as T;
+    case ValueType.Null:
+      return null as T;
+    case ValueType.Undefined:
+      return undefined as T;
   }
 }
 
-- 
2.43.0


From 0131f719d1c782fad6f3baa37a60e85ac3a5512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 15/68] fix: read back stored updates and message history on
 serializing storages

---
 client/0_storage_operations.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 556ca19..5df7a83 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -260,9 +260,10 @@ export class StorageOperations {
     }
   }
 
-  async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
+  async getTlObject(keyOrBuffer: Api.AnyType | Uint8Array | readonly [string, Uint8Array] | readonly StorageKeyPart[]): Promise<Api.DeserializedType | null> {
+    const isStoredPair = Array.isArray(keyOrBuffer) && keyOrBuffer[1] instanceof Uint8Array; // as written by setTlObject
     // @ts-ignore: TBD
-    const buffer = (keyOrBuffer instanceof Uint8Array || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
+    const buffer = (keyOrBuffer instanceof Uint8Array || isStoredPair || Api.isValidObject(keyOrBuffer)) ? keyOrBuffer : await this.#storage.get<[string, Uint8Array]>(keyOrBuffer);
     if (buffer !== null) {
       if (buffer instanceof Uint8Array) {
         return Api.deserializeType(X, rleDecode(buffer));
-- 
2.43.0


From 2ec29b6fda2a8366c8f36a88b27f4900aa7f6213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 16/68] fix: keep stored updates in order when the clock is set
 back across a restart

---
 client/0_storage_operations.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 5df7a83..280a153 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -147,6 +147,12 @@ export class StorageOperations {
   async initialize() {
     await this.#storage.initialize();
     await this.auth.get();
+    for await (const [key] of await this.#storage.getMany({ prefix: K.updates.all() })) {
+      const id = key[2] as bigint;
+      if (id > this.#lastUpdateId) {
+        this.#lastUpdateId = id; // the clock may have been set back since
+      }
+    }
   }
 
   async close() {
-- 
2.43.0


From ac7c63266846e82ccf94305c9173692a8858e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 17/68] fix: replay stored updates in the queue of their box

---
 client/2_update_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 56f9204..c3749c6 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -919,7 +919,7 @@ export class UpdateManager {
   #handleUpdatesSet = new Set<bigint>();
   async replayStoredUpdates() {
     for (const boxId of await this.#c.storage.getUpdateBoxIds()) {
-      await this.#handleStoredUpdates(boxId);
+      this.getHandleUpdateQueue(boxId).add(() => this.#handleStoredUpdates(boxId));
     }
   }
 
-- 
2.43.0


From d008af95e07052bdcd647cbb2461933cf8e3ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:23 +0000
Subject: [PATCH 18/68] fix: keep a secret-chat key exchange whose message
 could not be sent

---
 client/3_secret_chat_manager.ts | 53 ++++++++++++++-------------------
 1 file changed, 22 insertions(+), 31 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 351a9ca..7ea5aa3 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1108,9 +1108,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id: state.rekeyId,
       key_fingerprint: authKeyId,
     };
-    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
-    this.#clearInitiatedRekey(state);
+    try {
+      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
+    } finally {
+      // the commitment takes a sequence number even if sending it fails, and may still be delivered by a resend
+      this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
+      this.#clearInitiatedRekey(state);
+    }
   }
 
   async #processDecryptedMessageActionRequestKey(chatId: number, action_: SecretChats.decryptedMessageActionRequestKey) {
@@ -1168,16 +1172,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.toCommitAuthKey = authKey;
     state.toCommitAuthKeyId = authKeyId;
     state.toCommitAuthKeyId_ = authKeyId_;
-    try {
-      await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
-    } catch (err) {
-      state.toCommitId = 0n;
-      state.toCommitAuthKey = new Uint8Array();
-      state.toCommitAuthKeyId = 0n;
-      state.toCommitAuthKeyId_ = new Uint8Array();
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // the answer takes a sequence number even if sending it fails, and may still be delivered by a resend
+    await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
 
   async #processDecryptedMessageActionCommitKey(chatId: number, action: SecretChats.decryptedMessageActionCommitKey) {
@@ -1377,24 +1373,19 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       exchange_id,
       g_a,
     };
-    try {
-      await this.#sendMessage(
-        {
-          _: "decryptedMessageService",
-          random_id,
-          action,
-        },
-        encryptedChat,
-        authKey,
-        authKeyId,
-        undefined,
-        true,
-      );
-    } catch (err) {
-      this.#clearInitiatedRekey(state);
-      await state.commit(this.#c.messageStorage.storage);
-      throw err;
-    }
+    // the request takes a sequence number even if sending it fails, and may still be delivered by a resend
+    await this.#sendMessage(
+      {
+        _: "decryptedMessageService",
+        random_id,
+        action,
+      },
+      encryptedChat,
+      authKey,
+      authKeyId,
+      undefined,
+      true,
+    );
   }
 
   async #maybeStartRekey(state: SecretChatState) {
-- 
2.43.0


From 19031ae28fd187219ebd19a4d748cc5571a71769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:04 +0000
Subject: [PATCH 19/68] fix: handle the secret messages waiting behind one
 whose handling failed

---
 client/3_secret_chat_manager.ts | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 7ea5aa3..64b9b1a 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -978,8 +978,17 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
       ++state.inSeqNo;
-      await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      try {
+        await this.#handleDecryptedMessageLayer(chatId, message, encryptedMessage);
+      } catch (err) {
+        // the messages waiting for this one must not wait forever
+        if (!Api.is("encryptedChat", state.encryptedChat)) {
+          throw err;
+        }
+        errors.push(err);
+      }
     };
+    const errors = new Array<unknown>();
     await handle(message, encryptedMessage);
     while (true) {
       const index = state.pendingMessages.findIndex((v) => (v[0].out_seq_no - x) / 2 === state.inSeqNo);
@@ -997,6 +1006,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       const next = state.pendingMessages.reduce((a, b) => a[0].out_seq_no < b[0].out_seq_no ? a : b);
       await this.#checkGap(chatId, next[0], next[1]);
     }
+    if (errors.length > 0) {
+      throw errors[0];
+    }
   }
 
   async #resendMessages(state: SecretChatState, action: SecretChats.decryptedMessageActionResend, isCreator: boolean) {
-- 
2.43.0


From e2bbffaca9ad2a70c32323aeeb75a6c6a34a58f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 20/68] fix: drop an accepted secret-chat key exchange when the
 peer aborts it

---
 client/3_secret_chat_manager.ts | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 64b9b1a..5465f8f 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1093,6 +1093,13 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     state.rekeyA = 0n;
   }
 
+  #clearAcceptedRekey(state: SecretChatState) {
+    state.toCommitId = 0n;
+    state.toCommitAuthKey = new Uint8Array();
+    state.toCommitAuthKeyId = 0n;
+    state.toCommitAuthKeyId_ = new Uint8Array();
+  }
+
   async #processDecryptedMessageActionAcceptKey(chatId: number, action_: SecretChats.decryptedMessageActionAcceptKey) {
     const state = this.#getSecretChatState(chatId);
     if (state.rekeyId !== action_.exchange_id || !Api.is("encryptedChat", state.encryptedChat)) {
@@ -1199,10 +1206,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       throw new TypeError("Secret chat re-key fingerprint mismatch.");
     }
     this.#installNewKey(state, state.toCommitAuthKey, state.toCommitAuthKeyId, state.toCommitAuthKeyId_, false);
-    state.toCommitId = 0n;
-    state.toCommitAuthKey = new Uint8Array();
-    state.toCommitAuthKeyId = 0n;
-    state.toCommitAuthKeyId_ = new Uint8Array();
+    this.#clearAcceptedRekey(state);
     const noop: SecretChats.decryptedMessageActionNoop = { _: "decryptedMessageActionNoop" };
     await this.#sendMessage({ _: "decryptedMessageService", random_id: getRandomId(), action: noop }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
   }
@@ -1233,6 +1237,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
         if (state.rekeyId === message.action.exchange_id) {
           this.#clearInitiatedRekey(state);
         }
+        if (state.toCommitId === message.action.exchange_id) {
+          this.#clearAcceptedRekey(state);
+        }
         break;
       }
     }
@@ -1274,10 +1281,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       if (pendingKey) {
         this.#installNewKey(state, state.toCommitAuthKey, state.toCommitAuthKeyId, state.toCommitAuthKeyId_, false, rawOutSeqNo);
         ++state.authKeyUseCount;
-        state.toCommitId = 0n;
-        state.toCommitAuthKey = new Uint8Array();
-        state.toCommitAuthKeyId = 0n;
-        state.toCommitAuthKeyId_ = new Uint8Array();
+        this.#clearAcceptedRekey(state);
       } else if (equals(authKeyId, state.authKeyId_)) {
         ++state.authKeyUseCount;
         if (state.previousAuthKey.byteLength !== 0) {
-- 
2.43.0


From 786122e570c74f14790dbcfbbf7d63aa6b1ca61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:17 +0000
Subject: [PATCH 21/68] fix: refuse a decreasing in_seq_no in a secret chat
 loaded from storage too

---
 client/0_secret_chat_state.ts   | 2 --
 client/3_secret_chat_manager.ts | 5 +----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index 0e59e08..23143ea 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -68,7 +68,6 @@ export interface OutgoingMessage {
 }
 
 export class SecretChatState {
-  isJustLoaded = false;
   encryptedChat: Api.EncryptedChat = { _: "encryptedChatEmpty", id: 0 };
 
   authKey = new Uint8Array();
@@ -160,7 +159,6 @@ export class SecretChatState {
 
   static load(result: SerializedSecretChatState) {
     const state = new SecretChatState();
-    state.isJustLoaded = true;
     state.encryptedChat = result.encryptedChat;
 
     state.authKey = result.authKey;
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 5465f8f..34feda3 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -311,7 +311,6 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   }
 
   async #postSendMessage(state: SecretChatState) {
-    state.isJustLoaded = false;
     try {
       await this.#maybeStartRekey(state);
     } catch (err) {
@@ -969,13 +968,11 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     const handle = async (message: SecretChats.decryptedMessageLayer, encryptedMessage: Api.EncryptedMessage) => {
       const inSeqNo = (message.in_seq_no - inX) / 2;
-      const isJustLoaded = state.isJustLoaded;
-      if (inSeqNo < state.remoteInSeqNo && !isJustLoaded) {
+      if (inSeqNo < state.remoteInSeqNo) {
         this.#L.debug("discarding secret chat", chatId, "because of decreasing in_seq_no");
         await this.#discardSecretChat(state, chatId);
         throw new TypeError("Received decreasing secret chat in_seq_no.");
       }
-      state.isJustLoaded = false;
       state.remoteInSeqNo = Math.max(state.remoteInSeqNo, inSeqNo);
       ++state.inSeqNo;
       try {
-- 
2.43.0


From 05f9e6dc464b5d944a09dd3673ba7d318bd2bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:21 +0000
Subject: [PATCH 22/68] fix: keep the key of a secret message that waits for
 its turn

---
 client/3_secret_chat_manager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 34feda3..76cd0c3 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -760,7 +760,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
   #sendTails = new Map<number, Promise<void>>();
   async #sendMessage(message: SecretChats.DecryptedMessage, encryptedChat: Api.encryptedChat, authKey: Uint8Array<ArrayBuffer>, authKeyId: Uint8Array<ArrayBuffer>, file?: Api.InputEncryptedFile, isService = false) {
     try {
-      await this.#sendMessageInner(message, encryptedChat, authKey, authKeyId, file, isService);
+      // the key may be cleared while the message waits for its turn
+      await this.#sendMessageInner(message, encryptedChat, authKey.slice(), authKeyId, file, isService);
     } finally {
       await this.#getSecretChatState(encryptedChat.id).commit(this.#c.messageStorage.storage);
     }
-- 
2.43.0


From cb5b67672184eb08fbee0b72fd01f1f9692a5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 23/68] fix: end a secret chat at once and for good, and forget
 its keys

---
 client/0_secret_chat_state.ts   | 21 +++++++++++++++++
 client/3_secret_chat_manager.ts | 40 ++++++++++++++++++++++++---------
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/client/0_secret_chat_state.ts b/client/0_secret_chat_state.ts
index 23143ea..822a195 100644
--- a/client/0_secret_chat_state.ts
+++ b/client/0_secret_chat_state.ts
@@ -104,6 +104,27 @@ export class SecretChatState {
   pendingMessages = new Array<[SecretChats.decryptedMessageLayer, Api.EncryptedMessage]>();
   outgoingMessages = new LruCache<number, OutgoingMessage>(1_000);
 
+  /** Forgets everything secret about the chat. */
+  release() {
+    this.authKey = new Uint8Array();
+    this.authKeyId = 0n;
+    this.authKeyId_ = new Uint8Array();
+    this.previousAuthKey = new Uint8Array();
+    this.previousAuthKeyId_ = new Uint8Array();
+    this.previousAuthKeyDiscardAfterSeqNo = -1;
+    this.isAwaitingNewAuthKeyConfirmation = false;
+    this.a = 0n;
+    this.pendingExponent = 0n;
+    this.rekeyId = 0n;
+    this.rekeyA = 0n;
+    this.toCommitId = 0n;
+    this.toCommitAuthKey = new Uint8Array();
+    this.toCommitAuthKeyId = 0n;
+    this.toCommitAuthKeyId_ = new Uint8Array();
+    this.pendingMessages = [];
+    this.outgoingMessages.clear();
+  }
+
   async commit(storage: Storage) {
     const key = ["secretChats", this.encryptedChat.id];
     if (Api.is("encryptedChatDiscarded", this.encryptedChat) || Api.is("encryptedChatEmpty", this.encryptedChat)) {
diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 76cd0c3..1f940f1 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -278,17 +278,25 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
 
     await this.#c.invoke({ _: "messages.discardEncryption", chat_id: state.encryptedChat.id, delete_history: params?.isHistoryDeleted || undefined });
-    state.encryptedChat = { _: "encryptedChatDiscarded", id: state.encryptedChat.id, history_deleted: params?.isHistoryDeleted || undefined };
-    await state.commit(this.#c.messageStorage.storage);
+    await this.#markAsEnded(state, { _: "encryptedChatDiscarded", id: state.encryptedChat.id, history_deleted: params?.isHistoryDeleted || undefined });
     return constructSecretChat(state.encryptedChat, await this.#c.getSelfId());
   }
 
   async #discardSecretChat(state: SecretChatState, chatId: number) {
+    await this.#markAsEnded(state, { _: "encryptedChatDiscarded", id: chatId });
     await this.#c.invoke({ _: "messages.discardEncryption", chat_id: chatId });
-    state.encryptedChat = { _: "encryptedChatDiscarded", id: chatId };
+  }
+
+  async #markAsEnded(state: SecretChatState, encryptedChat: Api.encryptedChatDiscarded) {
+    state.encryptedChat = encryptedChat;
+    state.release();
     await state.commit(this.#c.messageStorage.storage);
   }
 
+  #isReady(state: SecretChatState) {
+    return Api.is("encryptedChat", state.encryptedChat);
+  }
+
   #getNextOutSeqNo(id: number, isCreator: boolean) {
     const state = this.#getSecretChatState(id);
     const rawOutSeqNo = state.outSeqNo;
@@ -795,6 +803,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const isSilent = !!(SecretChats.is("decryptedMessage", message) && message.silent);
     const key = (out_seq_no - (isCreator ? 1 : 0)) / 2;
     const state = this.#getSecretChatState(encryptedChat.id);
+    if (!this.#isReady(state)) {
+      throw new InputError("The secret chat has already ended.");
+    }
     state.outgoingMessages.set(key, { data, file, isService, isSilent });
     if (file) {
       const result = await this.#c.invoke({
@@ -918,6 +929,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       return;
     }
     const isCreator = Number(state.encryptedChat.admin_id) === await this.#c.getSelfId();
+    if (!this.#isReady(state)) {
+      return;
+    }
     const x = isCreator ? 0 : 1;
     const inX = isCreator ? 1 : 0;
     if (message.out_seq_no < 0 || message.out_seq_no % 2 !== x) {
@@ -938,6 +952,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     const alreadyPending = state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no);
     if (!alreadyPending && SecretChats.is("decryptedMessageService", message.message) && SecretChats.is("decryptedMessageActionResend", message.message.action)) {
       await this.#resendMessages(state, message.message.action, isCreator);
+      if (!this.#isReady(state)) {
+        return;
+      }
     }
     if (outSeqNo > state.inSeqNo) { // gap
       if (!state.pendingMessages.some((v) => v[0].out_seq_no === message.out_seq_no)) {
@@ -988,7 +1005,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     };
     const errors = new Array<unknown>();
     await handle(message, encryptedMessage);
-    while (true) {
+    while (this.#isReady(state)) {
       const index = state.pendingMessages.findIndex((v) => (v[0].out_seq_no - x) / 2 === state.inSeqNo);
       if (index === -1) {
         break;
@@ -1022,7 +1039,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       throw new TypeError("Received invalid secret chat resend range.");
     }
     const peer: Api.inputEncryptedChat = { _: "inputEncryptedChat", chat_id: state.encryptedChat.id, access_hash: state.encryptedChat.access_hash };
-    for (let seqNo = start; seqNo <= end; ++seqNo) {
+    for (let seqNo = start; seqNo <= end && this.#isReady(state); ++seqNo) {
       const message = state.outgoingMessages.get(seqNo);
       if (!message) {
         this.#L.debug("discarding secret chat", state.encryptedChat.id, "because the message could not be resent");
@@ -1129,8 +1146,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       await this.#sendMessage({ _: "decryptedMessageService", random_id, action }, state.encryptedChat, state.authKey, state.authKeyId_, undefined, true);
     } finally {
       // the commitment takes a sequence number even if sending it fails, and may still be delivered by a resend
-      this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
-      this.#clearInitiatedRekey(state);
+      if (this.#isReady(state)) {
+        this.#installNewKey(state, authKey, authKeyId, authKeyId_, true);
+        this.#clearInitiatedRekey(state);
+      }
     }
   }
 
@@ -1272,6 +1291,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       authKeyId = state.previousAuthKeyId_;
     }
     const decryptedMessage = await this.#decryptMessage(authKeyId, authKey, isCreator, update.message.bytes);
+    if (!this.#isReady(state)) {
+      return null;
+    }
     this.#L.debug("received", repr(decryptedMessage));
     if (SecretChats.is("decryptedMessageLayer", decryptedMessage)) {
       const x = isCreator ? 0 : 1;
@@ -1316,9 +1338,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (Api.is("encryptedChatDiscarded", update.chat)) {
       const state = this.#states.get(update.chat.id);
       if (state !== undefined) {
-        this.#states.delete(update.chat.id);
-        state.encryptedChat = update.chat;
-        await state.commit(this.#c.messageStorage.storage);
+        await this.#markAsEnded(state, update.chat);
       }
     } else {
       const state = this.#getSecretChatState(update.chat.id);
-- 
2.43.0


From 40c7c113dea99bcb8a91e085700337892adabb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 24/68] fix: ignore late notices on a secret chat and ready
 notices without a key

---
 client/3_secret_chat_manager.ts | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 1f940f1..c9df18f 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1326,6 +1326,22 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     return Api.isOneOf(secretChatManagerUpdates, update);
   }
 
+  static #getStage(encryptedChat: Api.EncryptedChat) {
+    switch (encryptedChat._) {
+      case "encryptedChatEmpty":
+        return 0;
+      case "encryptedChatWaiting":
+      case "encryptedChatRequested":
+        return 1;
+      case "encryptedChat":
+        return 2;
+      case "encryptedChatDiscarded":
+        return 3;
+      default:
+        unreachable();
+    }
+  }
+
   async handleUpdate(update: SecretChatManagerUpdate): Promise<Update | null> {
     if (Api.is("updateEncryptedChatTyping", update)) {
       return { type: "secretTyping", chatId: update.chat_id };
@@ -1342,8 +1358,16 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       }
     } else {
       const state = this.#getSecretChatState(update.chat.id);
+      if (SecretChatManager.#getStage(update.chat) < SecretChatManager.#getStage(state.encryptedChat)) {
+        this.#L.debug("ignoring late secret chat update");
+        return null;
+      }
       if (Api.is("encryptedChat", update.chat)) {
         const pending = state.pendingExponent;
+        if (pending === 0n && !this.#isReady(state)) {
+          this.#L.debug("ignoring update on a secret chat without a key");
+          return null;
+        }
         if (pending !== 0n) {
           const gB = intFromBytes(update.chat.g_a_or_b, { byteOrder: "big", isSigned: false });
           if (!isGoodModExpFirst(gB, state.prime)) {
@@ -1362,6 +1386,10 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
             await this.#discardSecretChat(state, update.chat.id);
             throw new TypeError("Secret chat key fingerprint mismatch.");
           }
+          if (state.pendingExponent !== pending) {
+            this.#L.debug("ignoring update on a secret chat that has ended");
+            return null;
+          }
 
           state.authKey = authKey;
           state.authKeyId = authKeyId;
-- 
2.43.0


From b3cb39e1acd4bfea39a627b786a8ce7653f541f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:37 +0000
Subject: [PATCH 25/68] fix: install the key of an accepted secret chat only
 when the acceptance succeeded

---
 client/3_secret_chat_manager.ts | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index c9df18f..435e168 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -221,8 +221,9 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
 
     const dhConfig = await this.#getDhConfig();
     const prime = intFromBytes(dhConfig.p, { byteOrder: "big", isSigned: false });
-    state.g = dhConfig.g;
-    state.prime = prime;
+    if (!Api.is("encryptedChatRequested", state.encryptedChat)) {
+      throw new InputError("Invalid secret chat identifier received.");
+    }
 
     let b: bigint;
     let gB: bigint;
@@ -242,15 +243,8 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     if (authKey.byteLength < 256) {
       authKey = concat([new Uint8Array(256 - authKey.byteLength), authKey]);
     }
-    state.authKey = authKey;
-    state.authKeyCreatedAt = Date.now();
-    state.authKeyUseCount = 0;
-    state.isAuthKeyUsed = false;
-
     const authKeyId = (await sha1(authKey)).subarray(-8);
-    state.authKeyId_ = authKeyId;
     const key_fingerprint = intFromBytes(authKeyId);
-    state.authKeyId = key_fingerprint;
 
     // g_b := pow(g, b) mod dh_prime
     const g_b = intToBytes(gB, 256, { byteOrder: "big", isSigned: false });
@@ -263,6 +257,17 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
       g_b,
       key_fingerprint,
     });
+    if (!Api.is("encryptedChatRequested", state.encryptedChat)) {
+      throw new InputError("The secret chat is no longer requested.");
+    }
+    state.g = dhConfig.g;
+    state.prime = prime;
+    state.authKey = authKey;
+    state.authKeyCreatedAt = Date.now();
+    state.authKeyUseCount = 0;
+    state.isAuthKeyUsed = false;
+    state.authKeyId_ = authKeyId;
+    state.authKeyId = key_fingerprint;
     state.encryptedChat = result;
     await state.commit(this.#c.messageStorage.storage);
     return constructSecretChat(result, await this.#c.getSelfId());
-- 
2.43.0


From 4669b7464dd8c4a1cf5557f92e468a8cba04e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 26/68] fix: do not open a secret chat that is known to have
 ended

---
 client/3_secret_chat_manager.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/client/3_secret_chat_manager.ts b/client/3_secret_chat_manager.ts
index 435e168..21d6caf 100644
--- a/client/3_secret_chat_manager.ts
+++ b/client/3_secret_chat_manager.ts
@@ -1357,10 +1357,7 @@ export class SecretChatManager implements UpdateProcessor<SecretChatManagerUpdat
     }
 
     if (Api.is("encryptedChatDiscarded", update.chat)) {
-      const state = this.#states.get(update.chat.id);
-      if (state !== undefined) {
-        await this.#markAsEnded(state, update.chat);
-      }
+      await this.#markAsEnded(this.#getSecretChatState(update.chat.id), update.chat);
     } else {
       const state = this.#getSecretChatState(update.chat.id);
       if (SecretChatManager.#getStage(update.chat) < SecretChatManager.#getStage(state.encryptedChat)) {
-- 
2.43.0


From 0442b38444ad2a1b999e445fd37886c787e61e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 27/68] fix: keep late reads and uncommitted writes of cached
 maps current

---
 client/0_storage_operations.ts | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 280a153..b3cbfbf 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -730,9 +730,12 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   #pendingUpdates = new Map<string, V>();
+  #committing = new Map<string, V>();
+  #revision = 0n;
   #cache = new LruCache<string, V | null>(20_000);
   set(key: K, value: V) {
     const key_ = toString(key);
+    ++this.#revision;
     this.#cache.set(key_, value);
     if (!this.#storage.isMemory) {
       this.#pendingUpdates.set(key_, value);
@@ -744,12 +747,24 @@ class StorageMap<K extends StorageKeyPart[], V> {
   }
 
   reset() {
+    ++this.#revision;
     this.#pendingUpdates.clear();
     this.#cache.clear();
   }
 
+  // the cache may let go of what is not committed yet
+  #getKnown(key: string): V | null | undefined {
+    for (const values of [this.#cache, this.#pendingUpdates, this.#committing]) {
+      const value = values.get(key);
+      if (value !== undefined) {
+        return value;
+      }
+    }
+    return undefined;
+  }
+
   getSync(key: K): V | null {
-    const value = this.#cache.get(toString(key));
+    const value = this.#getKnown(toString(key));
     if (value === undefined) {
       return null;
     } else {
@@ -763,9 +778,17 @@ class StorageMap<K extends StorageKeyPart[], V> {
 
   async get(key: K): Promise<V | null> {
     const key_ = toString(key);
-    let value = this.#cache.get(key_);
-    if (value === undefined) {
-      value = await this.#storage.get<V>([this.#path, ...key]);
+    const known = this.#getKnown(key_);
+    if (known !== undefined) {
+      return known;
+    }
+    const revision = this.#revision;
+    const value = await this.#storage.get<V>([this.#path, ...key]);
+    const written = this.#getKnown(key_);
+    if (written !== undefined) {
+      return written;
+    }
+    if (revision === this.#revision) {
       this.#cache.set(key_, value);
     }
     return value;
@@ -777,6 +800,7 @@ class StorageMap<K extends StorageKeyPart[], V> {
     }
     const pendingUpdates = this.#pendingUpdates;
     this.#pendingUpdates = new Map();
+    this.#committing = pendingUpdates;
     try {
       await awaitablePooledMap(2, pendingUpdates, async ([key, value]) => await this.#storage.set([this.#path, ...fromString(key) as StorageKeyPart[]], value));
     } catch (err) {
@@ -786,6 +810,8 @@ class StorageMap<K extends StorageKeyPart[], V> {
         }
       }
       throw err;
+    } finally {
+      this.#committing = new Map();
     }
   }
 }
-- 
2.43.0


From e03790eb6a8bf67af2024c644976c3d24841854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 28/68] fix: do not replace a value set while it was being read

---
 client/0_storage_operations.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index b3cbfbf..9b1b1c3 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -851,10 +851,18 @@ class StorageValue<T> {
   }
 
   async get(): Promise<T | null> {
-    if (this.#value === undefined) {
-      this.#value = await this.#storage.get(this.#key);
+    if (this.#value !== undefined) {
+      return this.#value;
     }
-    return this.#value;
+    const revision = this.#revision;
+    const value = await this.#storage.get<T>(this.#key);
+    if (this.#value !== undefined) {
+      return this.#value; // set meanwhile
+    }
+    if (revision === this.#revision) {
+      this.#value = value;
+    }
+    return value;
   }
 
   async commit() {
-- 
2.43.0


From b0b2001c53a362042c4312b74bc7946917a75bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:53 +0000
Subject: [PATCH 29/68] fix: return the current account's identifier after
 signing in

---
 client/0_storage_operations.ts | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 9b1b1c3..640c232 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -204,7 +204,6 @@ export class StorageOperations {
       isBot,
       userId,
     });
-    this.#accountId = userId;
   }
 
   #lastCommit: Date | null = null;
@@ -328,13 +327,8 @@ export class StorageOperations {
     this.peers.set([chatP.id], [chatP, accessHash]);
   }
 
-  #accountId: number | null = null;
   async getAccountId(): Promise<number | null> {
-    if (this.#accountId !== null) {
-      return this.#accountId;
-    } else {
-      return this.#accountId = (await this.auth.get())?.userId ?? null;
-    }
+    return (await this.auth.get())?.userId ?? null;
   }
 
   async setIsPremium(isPremium: boolean) {
@@ -646,7 +640,6 @@ export class StorageOperations {
       for (const value of this.#values) {
         value.reset();
       }
-      this.#accountId = null;
       this.#lastCommit = null;
       unlock();
     }
-- 
2.43.0


From 22147230675695f09ceb2298b8ca74f6fe7d9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 30/68] fix: do not leave a failed part of a streamed upload
 unhandled

---
 client/2_file_manager.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 39ec677..19f19fd 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -172,6 +172,7 @@ export class FileManager {
           }
         }),
       );
+      promises.at(-1)!.catch(() => {});
       if (promises.length === poolSize * UPLOAD_REQUEST_PER_CONNECTION) {
         await Promise.all(promises);
         promises = [];
-- 
2.43.0


From 31eda19d282050cb0309ea37d7a83932175a9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 31/68] fix: do not mix the small and the big chat photo in the
 file cache

---
 client/2_file_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 19f19fd..fcdefab 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -398,7 +398,7 @@ export class FileManager {
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location ? location.photo_id : null;
+    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
-- 
2.43.0


From f929cbbebdd0db5a6493ee02044915a9e7bb6147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 32/68] fix: cache a downloaded part before handing it out

---
 client/2_file_manager.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index fcdefab..8f44c49 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -490,7 +490,10 @@ export class FileManager {
 
             decryptionInformation.iv = concat([left, right]);
           }
-          const bytesToCache = result.bytes;
+          if (cacheId !== null) {
+            await this.#c.storage.saveFilePart(cacheId, part, result.bytes);
+            signal?.throwIfAborted();
+          }
           if (bytesToSkip > 0) {
             const skipped = Math.min(bytesToSkip, result.bytes.byteLength);
             bytesToSkip -= skipped;
@@ -499,10 +502,6 @@ export class FileManager {
           if (result.bytes.byteLength) {
             yield result.bytes;
           }
-          if (cacheId !== null) {
-            await this.#c.storage.saveFilePart(cacheId, part, bytesToCache);
-            signal?.throwIfAborted();
-          }
           ++part;
           if (finished) {
             if (cacheId !== null) {
-- 
2.43.0


From 64482470b6d455e61f7664647fbf0fc0faf00ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 33/68] fix: let only one download of a file fill its cache at
 a time

---
 client/2_file_manager.ts | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index 8f44c49..dbe8cbb 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -393,12 +393,29 @@ export class FileManager {
 
   // deno-lint-ignore no-explicit-any
   async *downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
+    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
+    // parts from downloads with different chunk sizes must not be mixed in the cache
+    const mayCache = id !== null && !this.#cachingIds.has(id);
+    if (mayCache) {
+      this.#cachingIds.add(id);
+    }
+    try {
+      yield* this.#downloadInner(location, dcId, params, id, mayCache);
+    } finally {
+      if (mayCache) {
+        this.#cachingIds.delete(id);
+      }
+    }
+  }
+
+  #cachingIds = new Set<bigint>();
+  // deno-lint-ignore no-explicit-any
+  async *#downloadInner(location: Api.InputFileLocation, dcId: number, params: DownloadParams | undefined, id: bigint | null, mayCache: boolean): AsyncGenerator<Uint8Array<ArrayBuffer>, void, any> {
     const signal = params?.signal;
     signal?.throwIfAborted();
     if (params?.offset !== undefined) {
       FileManager.validateOffset(params.offset);
     }
-    const id = "thumb_size" in location && location.thumb_size ? null : "id" in location ? location.id : "photo_id" in location && location.big ? location.photo_id : null;
     if (id !== null && this.#c.storage.supportsFiles) {
       const file = await this.#c.storage.getFile(id);
       if (file !== null && file[0] > 0) {
@@ -441,7 +458,7 @@ export class FileManager {
     const limit = chunkSize;
     const requestedOffset = params?.offset ?? 0;
     let offset = decryptionInformation ? 0n : BigInt(requestedOffset);
-    const cacheId = offset === 0n ? id : null;
+    const cacheId = offset === 0n && mayCache ? id : null;
     let bytesToSkip = decryptionInformation ? requestedOffset : 0;
     let part = 0;
 
-- 
2.43.0


From 90f4c008a151e3d79c5ce4a0689ef5c90e319cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 34/68] fix: reject answers of other exchanges when creating
 authorization keys

---
 client/1_client_plain.ts | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/client/1_client_plain.ts b/client/1_client_plain.ts
index 919b23a..818a19c 100644
--- a/client/1_client_plain.ts
+++ b/client/1_client_plain.ts
@@ -60,10 +60,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     for (let i = 0; i < 10; i++) {
       try {
         LcreateAuthKey.debug(`req_pq_multi [${i + 1}]`);
-        resPq = await this.invoke({ _: "req_pq_multi", nonce });
+        const result = await this.invoke({ _: "req_pq_multi", nonce });
 
-        assert(Mtproto.is("resPQ", resPq));
-        assertEquals(resPq.nonce, nonce);
+        assert(Mtproto.is("resPQ", result));
+        assertEquals(result.nonce, nonce);
+        resPq = result;
         LcreateAuthKey.debug("got res_pq");
         break;
       } catch (err) {
@@ -141,6 +142,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     });
 
     assert(Mtproto.is("server_DH_params_ok", dhParams));
+    assertEquals(dhParams.nonce, nonce);
+    assertEquals(dhParams.server_nonce, serverNonce);
     LcreateAuthKey.debug("got server_DH_params_ok");
 
     const newNonce_ = intToBytes(newNonce, 32);
@@ -154,7 +157,12 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const tmpAesIv = concat([sha1ServerNonceNewNonce.subarray(12, 20), sha1NewNonce, newNonce_.subarray(0, 4)]);
     const answerWithHash = ige256Decrypt(dhParams.encrypted_answer, tmpAesKey, tmpAesIv);
 
-    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answerWithHash.slice(20));
+    const answer = answerWithHash.slice(20);
+    const dhInnerData = Mtproto.deserializeType("server_DH_inner_data", answer);
+    // the answer is followed by up to 15 bytes of padding
+    assertEquals(await sha1(answer.slice(0, Mtproto.serializeObject(dhInnerData).byteLength)), answerWithHash.slice(0, 20));
+    assertEquals(dhInnerData.nonce, nonce);
+    assertEquals(dhInnerData.server_nonce, serverNonce);
     const { g, g_a: gA_, dh_prime: dhPrime_ } = dhInnerData;
     const gA = intFromBytes(gA_, { byteOrder: "big", isSigned: false });
     const dhPrime = intFromBytes(dhPrime_, { byteOrder: "big", isSigned: false });
@@ -185,7 +193,8 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
       encrypted_data: encryptedData,
     });
     assert(Mtproto.is("dh_gen_ok", dhGenOk));
-    LcreateAuthKey.debug("got dh_gen_ok");
+    assertEquals(dhGenOk.nonce, nonce);
+    assertEquals(dhGenOk.server_nonce, serverNonce);
 
     const serverNonceSlice = serverNonce_.subarray(0, 8);
     const salt = newNonce_.subarray(0, 0 + 8).map((v, i) => v ^ serverNonceSlice[i]);
@@ -193,6 +202,11 @@ export class ClientPlain extends ClientAbstract implements ClientAbstract {
     const authKey_ = modExp(gA, b, dhPrime);
     const authKey = intToBytes(authKey_, 256, { byteOrder: "big", isSigned: false });
 
+    const authKeyAuxHash = (await sha1(authKey)).subarray(0, 8);
+    const newNonceHash1 = (await sha1(concat([newNonce_, new Uint8Array([1]), authKeyAuxHash]))).subarray(4, 20);
+    assertEquals(dhGenOk.new_nonce_hash1, intFromBytes(newNonceHash1));
+    LcreateAuthKey.debug("got dh_gen_ok");
+
     LcreateAuthKey.debug("auth key created");
 
     return [authKey, intFromBytes(salt)];
-- 
2.43.0


From 649c7b629920aab43ffbd30d901fdcb03acec920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 35/68] fix: register invoke error handlers on their own client
 only

---
 client/6_client.ts            | 2 +-
 client/6_client_dispatcher.ts | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index ac7871a..21047ca 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1433,7 +1433,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<Client<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    this.#invoke.bind(this),
     {
       use: (handler: InvokeErrorHandler<Client<C>>) => {
         const handle = this.#handleInvokeError;
diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index a50455e..53098c3 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -359,7 +359,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
     <T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R>;
     use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => void;
   } = Object.assign(
-    this.#invoke,
+    this.#invoke.bind(this),
     {
       use: (handler: InvokeErrorHandler<ClientDispatcher<C>>) => {
         const handle = this.#handleInvokeError;
-- 
2.43.0


From e6be7cd81eb4a33cbdc859004f7d37838f63d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:27 +0000
Subject: [PATCH 36/68] fix: set connections to other data centers up anew
 after disconnecting

---
 client/6_client.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 21047ca..644fc85 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -1187,6 +1187,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
    */
   async disconnect() {
     this.#disconnectAllClients();
+    this.#clients = this.#clients.slice(0, 1); // the storages of the others are closed below
+    this.#downloadPools = {};
+    this.#uploadPools = {};
     this.#clientDisconnectionLoop.abort();
     this.#updateGapRecoveryLoop.abort();
     this.#storageWriteLoop.abort();
-- 
2.43.0


From 52828aef8274d28e360265ddf654c6e7acd20fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 37/68] fix: ask for the password hint of the account that is
 signing in

---
 client/3_account_manager.ts | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/client/3_account_manager.ts b/client/3_account_manager.ts
index c0c3366..d1f971a 100644
--- a/client/3_account_manager.ts
+++ b/client/3_account_manager.ts
@@ -369,17 +369,13 @@ export class AccountManager implements UpdateProcessor<AccountManagerUpdate, fal
     return await this.#c.invoke({ _: "account.getPassword" });
   }
 
-  #ap?: Api.account_password;
   async getPasswordHint(): Promise<string | null> {
-    if (!this.#ap) {
-      this.#ap = await this.#getAccountPassword();
-    }
-
-    return this.#ap.hint ?? null;
+    const ap = await this.#getAccountPassword();
+    return ap.hint ?? null;
   }
 
   async checkPassword(password: string): Promise<PasswordCheckResult> {
-    const ap = this.#ap = await this.#getAccountPassword();
+    const ap = await this.#getAccountPassword();
 
     try {
       const input = await checkPassword(password, ap);
-- 
2.43.0


From 6acca29504e501ddbd0ccb3eb3fc5c207e206bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:03 +0000
Subject: [PATCH 38/68] fix: remember the account of a session found to be
 authorized

---
 client/6_client.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 644fc85..885ae31 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -586,6 +586,14 @@ export class Client<C extends Context = Context> extends Composer<C> implements
     try {
       await this.#updateManager.fetchState("#checkAuthorization");
       const me = await this.#getMe();
+      const auth = this.storage.auth.mustGet();
+      if (auth.userId !== me.id || auth.isBot !== me.isBot) {
+        await this.storage.auth.update((v) => {
+          v.userId = me.id;
+          v.isBot = me.isBot;
+        });
+        await this.storage.commit(true);
+      }
       await this.#propagateAuthorizationState(true);
       drop(this.#updateManager.recoverUpdateGap("#checkAuthorization"));
       return me;
-- 
2.43.0


From abbc7aee27be825e0afaa5786884abcfd7d91522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 39/68] fix: consult invoke error handlers of worker clients
 once per attempt

---
 client/6_client_dispatcher.ts | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index 53098c3..c955be0 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -181,18 +181,8 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   }
 
   async #invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T, params?: InvokeParams): Promise<R> {
-    let n = 1;
-    while (true) {
-      try {
-        return await this.#dispatch("invoke", function_, params);
-      } catch (err) {
-        if (await this.#handleInvokeError(Object.freeze({ client: this, error: err, function: function_, n: n++ }), () => Promise.resolve(false))) {
-          continue;
-        } else {
-          throw err;
-        }
-      }
-    }
+    // the worker consults the error handlers through handleInvokeError
+    return await this.#dispatch("invoke", function_, params);
   }
 
   #handleInvokeError = skipInvoke<ClientDispatcher<C>>();
-- 
2.43.0


From bd5db60dc6a2a1d6153ffb6cb5a8622d8640980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 40/68] fix: keep the name and message of errors that come from
 a worker

---
 client/0_worker_error.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/client/0_worker_error.ts b/client/0_worker_error.ts
index 45b9043..024ac14 100644
--- a/client/0_worker_error.ts
+++ b/client/0_worker_error.ts
@@ -18,13 +18,13 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { AccessError, ConnectionError, InputError, TLError, TransportError } from "../0_errors.ts";
+import { AccessError, ConnectionError, InputError, PublicKeyError, RetryError, TLError, TransportError } from "../0_errors.ts";
 import { getLogger } from "../1_utilities.ts";
 import { TelegramError, type TelegramErrorParams } from "../3_errors.ts";
 import { constructTelegramError } from "../4_errors.ts";
 
 export interface WorkerError {
-  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError";
+  name: "TelegramError" | "ConnectionError" | "AccessError" | "InputError" | "TransportError" | "TLError" | "RetryError" | "PublicKeyError";
   // deno-lint-ignore no-explicit-any
   args: any;
 }
@@ -85,7 +85,14 @@ export function deserializeWorkerError(error: WorkerError) {
       return new TransportError(error.args[0]);
     case "TLError":
       return new TLError(error.args[0], error.args[1]);
-    default:
-      return new TypeError("Unknown error");
+    case "RetryError":
+      return new RetryError(error.args[0]);
+    case "PublicKeyError":
+      return new PublicKeyError(error.args[0]);
+    default: {
+      const err = error.name === "TypeError" ? new TypeError(error.args[0]) : new Error(error.args[0]);
+      err.name = error.name;
+      return err;
+    }
   }
 }
-- 
2.43.0


From 3dd4dc78023c348ff0a72774fe1c12d4556974f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 41/68] fix: handle the updates of worker clients in the order
 they were sent

---
 client/6_client_dispatcher.ts | 17 ++++++++++-------
 client/7_client_worker.ts     |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/client/6_client_dispatcher.ts b/client/6_client_dispatcher.ts
index c955be0..739fbc1 100644
--- a/client/6_client_dispatcher.ts
+++ b/client/6_client_dispatcher.ts
@@ -18,7 +18,7 @@
  * along with this program.  If not, see <https://www.gnu.org/licenses/>.
  */
 
-import { getLogger, type Logger } from "../1_utilities.ts";
+import { getLogger, type Logger, Queue } from "../1_utilities.ts";
 import type { Api, Mtproto } from "../2_tl.ts";
 import type { DC } from "../3_transport.ts";
 import type { AlbumStoryList, Animation, AppSupport, Audio, AuthorizationSession, AvailableReactions, Birthday, BlockedUserList, BotAccessSettings, BotCommand, BotTokenCheckResult, BusinessAwayMessageSchedule, BusinessConnection, CallbackQueryAnswer, CallbackQueryQuestion, Chat, ChatActionType, ChatJoinResult, ChatListItem, ChatMember, ChatP, ChatPChannel, ChatPGroup, ChatPPrivate, ChatPSupergroup, ChatSettings, ClaimedGifts, CodeCheckResult, Community, CommunityP, ConnectedWebsite, Country, EmojiStatus, FailedInvitation, FileSource, Gift, GiftCollection, GiftPrivacy, ID, InactiveChat, InlineQueryAnswer, InlineQueryResult, InputBusinessRecipients, InputChecklistItem, InputEmojiStatus, InputGift, InputMedia, InputPollOption, InputPrivacyRule, InputRichText, InputSticker, InputStoryContent, InviteLink, JoinRequest, LeftChannelList, LinkPreview, LiveStreamChannel, Message, MessageAnimation, MessageAudio, MessageChecklist, MessageContact, MessageCounters, MessageDice, MessageDocument, MessageInvoice, MessageList, MessageLivePhoto, MessageLocation, MessagePhoto, MessagePoll, MessageReactionList, MessageRichText, MessageSticker, MessageText, MessageVenue, MessageVideo, MessageVideoNote, MessageViewer, MessageVoice, MiniAppInfo, NetworkStatistics, NewChatPrivacy, NotificationSettings, ParseMode, PasswordCheckResult, Poll, PollVoterList, PremiumSubscriptionDuration, PriceTag, PrivacyRule, PrivacySettingKey, ProfilePhotoList, Reaction, RecentActionsEntry, ReportReason, ReportResult, ResolvedInviteLink, RichText, SavedChats, SavedNotificationSound, SecretChat, SlowModeDuration, StarAmount, StarTransactionList, Sticker, StickerSet, StickerSetP, Story, StoryAlbum, SummarizedText, TextToTranslate, Timezone, TonTransactionList, Topic, TopicList, TopicListItem, TranslatedText, Translation, Update, User, VideoChat, VideoChatActive, VideoChatScheduled, VoiceTranscription } from "../3_types.ts";
@@ -91,6 +91,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
 
   // deno-lint-ignore no-explicit-any
   #pendingRequests = new Map<string, PromiseWithResolvers<any>>();
+  #updateQueue = new Queue("ClientDispatcher/updates");
 
   constructor(worker: Worker | MessagePort, id: string) {
     super();
@@ -102,7 +103,7 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
   }
 
   /** @internal */
-  async handleResponse(response: WorkerResponse) {
+  handleResponse(response: WorkerResponse) {
     if (response.clientId !== this.#id) {
       return;
     }
@@ -114,11 +115,13 @@ export class ClientDispatcher<C extends Context = Context> extends Composer<C> i
       this.#pendingRequests.delete(response.id);
     } else {
       if (response.id === "") {
-        try {
-          await this.handleUpdate(this, response.data as Update);
-        } catch (err) {
-          this.#L.error("Error handling update:", err);
-        }
+        this.#updateQueue.add(async () => {
+          try {
+            await this.handleUpdate(this, response.data as Update);
+          } catch (err) {
+            this.#L.error("Error handling update:", err);
+          }
+        });
       } else {
         this.#pendingRequests.get(response.id)?.resolve(response.data);
         this.#pendingRequests.delete(response.id);
diff --git a/client/7_client_worker.ts b/client/7_client_worker.ts
index 6aac77b..3344bf5 100644
--- a/client/7_client_worker.ts
+++ b/client/7_client_worker.ts
@@ -47,7 +47,7 @@ export class ClientWorker {
         this.#L.debug("received message from worker", message);
 
         if (message.type === "response") {
-          await this.#clients.get(message.clientId)?.handleResponse(message);
+          this.#clients.get(message.clientId)?.handleResponse(message);
         } else if (message.type === "request") {
           if (message.method === "handleInvokeError") {
             const client = this.#clients.get(message.clientId);
-- 
2.43.0


From 9cdf28a991c8a5ca84186a18aed6636a079c1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:39 +0000
Subject: [PATCH 42/68] fix: settle the calls of a worker client that
 disconnects while their errors are handled

---
 client/7_client_receiver.ts | 8 ++++++++
 worker.ts                   | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/client/7_client_receiver.ts b/client/7_client_receiver.ts
index 468ff94..9b4cc61 100644
--- a/client/7_client_receiver.ts
+++ b/client/7_client_receiver.ts
@@ -92,6 +92,14 @@ export class ClientReceiver {
     }
   }
 
+  /** @internal */
+  cancelRequests() {
+    for (const { resolve } of this.#pendingRequests.values()) {
+      resolve(false);
+    }
+    this.#pendingRequests.clear();
+  }
+
   async #dispatch(method: string, ...args: unknown[]) {
     // deno-lint-ignore no-explicit-any
     const promiseWithResolvers = Promise.withResolvers<any>();
diff --git a/worker.ts b/worker.ts
index d15e645..3aa65bb 100644
--- a/worker.ts
+++ b/worker.ts
@@ -79,7 +79,10 @@ async function handleMessage(message: WorkerRequest | WorkerResponse) {
       // @ts-ignore: it works
       const data = await clientReceiver.client[message.method](...message.args);
       if (message.method === "disconnect") {
-        clientReceivers.delete(message.clientId);
+        clientReceiver.cancelRequests();
+        if (clientReceivers.get(message.clientId) === clientReceiver) {
+          clientReceivers.delete(message.clientId);
+        }
       }
       response = {
         type: "response",
-- 
2.43.0


From cf22e1618e2a354051e0bf3c7bbcdd7832ba717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 43/68] fix: do not modify translations in place when they
 change

---
 client/2_translations_manager.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/client/2_translations_manager.ts b/client/2_translations_manager.ts
index dc43c35..ea179c4 100644
--- a/client/2_translations_manager.ts
+++ b/client/2_translations_manager.ts
@@ -126,15 +126,16 @@ export class TranslationsManager implements UpdateProcessor<TranslationsManagerU
     }
   }
 
-  #applyLangPackDifference(translations: Translation[], strings: Api.LangPackString[]) {
+  #applyLangPackDifference(current: Translation[], strings: Api.LangPackString[]) {
+    let translations = [...current];
     for (const string of strings) {
       if (Api.is("langPackStringDeleted", string)) {
         translations = translations.filter((v) => v.key !== string.key);
       } else {
         const newTranslation = constructTranslation(string);
-        const currentTranslation = translations.find((v) => v.key === string.key);
-        if (currentTranslation) {
-          Object.assign(currentTranslation, newTranslation);
+        const index = translations.findIndex((v) => v.key === string.key);
+        if (index !== -1) {
+          translations[index] = newTranslation;
         } else {
           translations.push(newTranslation);
         }
-- 
2.43.0


From 4397e68c1727ec04c0d7c354a87161c0466bcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 44/68] fix: close a lost connection before opening another one

---
 connection/1_connection_socks5.ts | 7 +++++++
 connection/1_connection_tcp.ts    | 7 +++++++
 connection/1_connection_tls.ts    | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/connection/1_connection_socks5.ts b/connection/1_connection_socks5.ts
index 8ed0de0..4ba80db 100644
--- a/connection/1_connection_socks5.ts
+++ b/connection/1_connection_socks5.ts
@@ -112,6 +112,13 @@ export class ConnectionSocks5 implements Connection {
       return;
     }
 
+    try {
+      this.#connection?.close();
+    } catch {
+      // ignore close errors of a lost connection
+    }
+    this.#connection = undefined;
+
     const connection = await Deno.connect({
       hostname: this.#socks5Hostname,
       port: this.#socks5Port,
diff --git a/connection/1_connection_tcp.ts b/connection/1_connection_tcp.ts
index 33c2316..f6b31b2 100644
--- a/connection/1_connection_tcp.ts
+++ b/connection/1_connection_tcp.ts
@@ -56,6 +56,13 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    try {
+      this.#connection?.close();
+    } catch {
+      // ignore close errors of a lost connection
+    }
+    this.#connection = undefined;
+
     const connection = await this.connect({
       hostname: this.#hostname,
       port: this.#port,
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index fd66714..2e493da 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -89,6 +89,13 @@ export class ConnectionTLS implements Connection {
       return;
     }
 
+    try {
+      this.#connection?.close();
+    } catch {
+      // ignore close errors of a lost connection
+    }
+    this.#connection = undefined;
+
     const connection = await this.connect({
       hostname: this.#hostname,
       port: this.#port,
-- 
2.43.0


From a6217c62d52af7bc0668846d837f013c6044bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 45/68] fix: forget the previous stream when a node connection
 is opened again

---
 connection/1_connection_socks5.node.ts | 2 +-
 connection/1_connection_tcp.node.ts    | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection/1_connection_socks5.node.ts b/connection/1_connection_socks5.node.ts
index ad58be9..7e13e10 100644
--- a/connection/1_connection_socks5.node.ts
+++ b/connection/1_connection_socks5.node.ts
@@ -125,7 +125,7 @@ export class ConnectionSocks5 implements Connection {
       return;
     }
 
-    this.#isReady = false;
+    this.#cleanupSocket();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
diff --git a/connection/1_connection_tcp.node.ts b/connection/1_connection_tcp.node.ts
index 40dd876..23f9c1a 100644
--- a/connection/1_connection_tcp.node.ts
+++ b/connection/1_connection_tcp.node.ts
@@ -58,6 +58,8 @@ export class ConnectionTCP implements Connection {
       return;
     }
 
+    this.#rejectRead();
+    this.#buffer.clear();
     const socket = this.#socket = new Socket();
     socket.on("error", () => {
       if (this.#socket !== socket) {
-- 
2.43.0


From e36ac11d62bb9197525b0cd6a86ecaaa29a76378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 46/68] fix: do not write a waiting packet to a lost TLS
 connection

---
 connection/1_connection_tls.node.ts | 2 ++
 connection/1_connection_tls.ts      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/connection/1_connection_tls.node.ts b/connection/1_connection_tls.node.ts
index 4d2062b..37c7369 100644
--- a/connection/1_connection_tls.node.ts
+++ b/connection/1_connection_tls.node.ts
@@ -255,6 +255,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected();
       while (this.#packetBuffer.length < p.byteLength) {
         await this.#readPacket();
       }
@@ -268,6 +269,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
     try {
+      this.#assertConnected();
       let offset = 0;
       while (true) {
         const packet = p.subarray(offset, offset + MAX_PACKET_LENGTH - HEADER_LENGTH);
diff --git a/connection/1_connection_tls.ts b/connection/1_connection_tls.ts
index 2e493da..91fc098 100644
--- a/connection/1_connection_tls.ts
+++ b/connection/1_connection_tls.ts
@@ -212,6 +212,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#rMutex.lock();
     try {
+      this.#assertConnected();
       while (this.#buffer.length < p.byteLength) {
         await this.#readPacket();
       }
@@ -225,6 +226,7 @@ export class ConnectionTLS implements Connection {
     this.#assertConnected();
     const unlock = await this.#wMutex.lock();
     try {
+      this.#assertConnected();
       let offset = 0;
       while (true) {
         const packet = p.subarray(offset, offset + MAX_PACKET_LENGTH - HEADER_LENGTH);
-- 
2.43.0


From 552513714c443924fe94a74ffbf403d73bcdc108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 47/68] fix: decode the result of a generic function as that of
 its query

---
 client/2_client_encrypted.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index 9878ff0..c3c6082 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -427,7 +427,12 @@ export class ClientEncrypted extends ClientAbstract {
     if (sentRequest) {
       let type: Api.DeserializedType;
       try {
-        type = Api.deserializeType(Api.mustGetReturnType(sentRequest.call._), body, true);
+        let function_: typeof sentRequest.call = sentRequest.call;
+        while (Api.isGenericFunction(function_)) {
+          // the result of a generic function is that of its query
+          function_ = function_.query;
+        }
+        type = Api.deserializeType(Api.mustGetReturnType(function_._), body, true);
         this.#L.in(type);
         this.#L.debug("received rpc_result", repr(type));
         sentRequest.promiseWithResolvers.resolve(type);
-- 
2.43.0


From 61223ca562f9b36323f4982ab81dd8efb840d09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:13 +0000
Subject: [PATCH 48/68] fix: remember the holders of usernames regardless of
 the case they are spelt in

---
 client/2_update_manager.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index c3749c6..2fc2c8c 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -262,12 +262,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(chat);
 
     if ("username" in chat && chat.username) {
-      this.#c.messageStorage.usernames.set([chat.username], [Api.peerToChatId(chat), new Date()]);
+      this.#c.messageStorage.usernames.set([chat.username.toLowerCase()], [Api.peerToChatId(chat), new Date()]);
     }
     if ("usernames" in chat && chat.usernames) {
       const value: [number, Date] = [Api.peerToChatId(chat), new Date()];
       for (const username of chat.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
@@ -336,12 +336,12 @@ export class UpdateManager {
     this.#c.messageStorage.setPeer(user);
 
     if (user.username) {
-      this.#c.messageStorage.usernames.set([user.username], [Api.peerToChatId(user), new Date()]);
+      this.#c.messageStorage.usernames.set([user.username.toLowerCase()], [Api.peerToChatId(user), new Date()]);
     }
     if (user.usernames) {
       const value: [number, Date] = [Api.peerToChatId(user), new Date()];
       for (const username of user.usernames) {
-        this.#c.messageStorage.usernames.set([username.username], value);
+        this.#c.messageStorage.usernames.set([username.username.toLowerCase()], value);
       }
     }
   }
-- 
2.43.0


From 77fca51b5c9eb6410432931f07cde25efed0b136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 49/68] fix: do not take a username with leading whitespace for
 a phone number

---
 client/6_client.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 885ae31..7057854 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -615,6 +615,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   async #getInputPeerInner(id: ID) {
     let peer: Api.InputPeer;
     if (typeof id === "string") {
+      id = id.trim();
       let resolvedId = 0;
       if (id[0] === "+" || !isNaN(Number(id[0]))) {
         if (id[0] === "+") {
-- 
2.43.0


From e1cbfcf3f833cd363f6ae0c43b6b505dd96bbe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:27 +0000
Subject: [PATCH 50/68] fix: apply every part of a change of name

---
 client/6_client.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/client/6_client.ts b/client/6_client.ts
index 7057854..5c7cbf7 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -775,6 +775,15 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           }
         } else {
           delete peer_[0].username;
+          delete peer_[0].also;
+        }
+        if (peer_[0].type === "private") {
+          peer_[0].firstName = update.first_name;
+          if (update.last_name) {
+            peer_[0].lastName = update.last_name;
+          } else {
+            delete peer_[0].lastName;
+          }
         }
         this.messageStorage.setPeer2(peer_[0], peer_[1]);
       }
-- 
2.43.0


From 4592813630e65779549b8eb195b207ed9e37278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:08 +0000
Subject: [PATCH 51/68] fix: do not block receiving while recovering from an
 update which could not be deserialized

---
 client/2_client_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index c3c6082..a45b4a7 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -374,7 +374,7 @@ export class ClientEncrypted extends ClientAbstract {
       this.#L.debug("received update", repr(type));
     } catch (err) {
       this.#L.error("failed to deserialize update:", err);
-      await this.handlers.onDeserializationError?.();
+      drop(this.handlers.onDeserializationError?.()); // not awaited as it invokes, and answers are received by the same loop
       return;
     }
     if (Api.isOfEnum("Update", type) || Api.isOfEnum("Updates", type)) {
-- 
2.43.0


From 325ad7f74d647c305286f89626269374c4b81f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 52/68] fix: do not block receiving while recovering from a
 result which could not be deserialized

---
 client/2_client_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index a45b4a7..c8e1d2c 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -439,7 +439,7 @@ export class ClientEncrypted extends ClientAbstract {
       } catch (err) {
         sentRequest.promiseWithResolvers.reject(err);
         this.#L.error("failed to deserialize rpc_result body:", err);
-        await this.handlers.onDeserializationError?.();
+        drop(this.handlers.onDeserializationError?.()); // not awaited as it invokes, and answers are received by the same loop
         return;
       } finally {
         this.#sentRequests.delete(msgId);
-- 
2.43.0


From 6922b034f8162e09c0cfc4864bf24a3e3d835f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:23 +0000
Subject: [PATCH 53/68] fix: do not take the connection for initialized once
 the temporary key is bound

---
 client/2_client_encrypted.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index c8e1d2c..f99ec83 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -445,7 +445,7 @@ export class ClientEncrypted extends ClientAbstract {
         this.#sentRequests.delete(msgId);
       }
     }
-    if (!this.#isConnectionInitialized) {
+    if (this.#isAuthKeyBound && !this.#isConnectionInitialized) {
       this.#isConnectionInitialized = true;
     }
   }
-- 
2.43.0


From d66bb4a92db93899f2ede1f774702143f94da588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 54/68] fix: keep recovering missed updates and releasing idle
 connections after an outage

---
 client/6_client.ts | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 5c7cbf7..087141d 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -530,10 +530,9 @@ export class Client<C extends Context = Context> extends Composer<C> implements
   }
 
   #lastUpdates = new Date();
-  #updateGapRecoveryLoop = new AbortableLoop(async (loop, signal) => {
+  #updateGapRecoveryLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     if (!this.isConnected) {
-      loop.abort();
       return;
     }
     if (Date.now() - this.#lastUpdates.getTime() >= 15 * MINUTE) {
@@ -543,18 +542,13 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         }),
       );
     }
-  }, (loop, err) => {
-    if (!this.isConnected) {
-      loop.abort();
-    } else {
-      this.#LupdateGapRecoveryLoop.error(err);
-    }
+  }, (_loop, err) => {
+    this.#LupdateGapRecoveryLoop.error(err);
   });
 
-  #clientDisconnectionLoop = new AbortableLoop(async (loop, signal) => {
+  #clientDisconnectionLoop = new AbortableLoop(async (_loop, signal) => {
     await delay(60 * SECOND, { signal });
     if (!this.isConnected) {
-      loop.abort();
       return;
     }
     const now = Date.now();
@@ -564,10 +558,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         client?.disconnect();
       }
     }
-  }, (loop) => {
-    if (!this.isConnected) {
-      loop.abort();
-    }
+  }, (_loop, err) => {
+    this.#L.error(err);
   });
 
   #storageWriteLoop = new AbortableLoop(async (_loop, signal) => {
-- 
2.43.0


From 4bc91c1dbbac16c9d3e97a4be9d3f118f5e07a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 55/68] fix: reconnect with a new temporary key until it
 succeeds without blocking receiving, and hold calls back until it is bound

---
 client/2_client_encrypted.ts | 50 ++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/client/2_client_encrypted.ts b/client/2_client_encrypted.ts
index f99ec83..660a414 100644
--- a/client/2_client_encrypted.ts
+++ b/client/2_client_encrypted.ts
@@ -145,18 +145,36 @@ export class ClientEncrypted extends ClientAbstract {
     return this.#connectPromise;
   }
 
+  #disconnectCount = 0;
   async #connect() {
+    const disconnectCount = this.#disconnectCount;
+    const assertNotDisconnected = () => {
+      if (this.#disconnectCount !== disconnectCount) {
+        throw new ConnectionError("The connection was disconnected.");
+      }
+    };
+    if (this.#isPerfectForwardSecrecyEnabled) {
+      this.#isAuthKeyBound = false;
+    }
     if (!this.authKey.byteLength) {
       await this.#createAuthKey();
     } else if (this.#isPerfectForwardSecrecyEnabled) {
       this.#L.debug("creating temporary auth key");
       await this.#createAuthKeyInner(true);
     }
+    assertNotDisconnected();
     await super.connect();
 
     if (this.#isPerfectForwardSecrecyEnabled) {
-      this.#isAuthKeyBound = false;
-      await this.#bindTemporaryAuthKey();
+      try {
+        await this.#bindTemporaryAuthKey();
+        assertNotDisconnected();
+      } catch (err) {
+        if (this.#disconnectCount === disconnectCount) {
+          super.disconnect(); // nothing can be done over a connection whose key is not bound
+        }
+        throw err;
+      }
       this.#refreshTemporaryAuthKey();
     } else {
       this.#isAuthKeyBound = true;
@@ -197,8 +215,7 @@ export class ClientEncrypted extends ClientAbstract {
       return;
     }
     this.#L.debug("reconnecting with a new temporary auth key");
-    this.disconnect();
-    drop(this.connect());
+    drop(this.#reconnect());
   }, (loop, err) => {
     if (this.isDisconnected) {
       loop.abort();
@@ -211,7 +228,23 @@ export class ClientEncrypted extends ClientAbstract {
     this.#temporaryAuthKeyRefreshLoop.start();
   }
 
+  /** Not to be awaited by what handles received messages as it invokes, and answers are received by the same loop. */
+  async #reconnect() {
+    this.disconnect();
+    const disconnectCount = this.#disconnectCount;
+    while (this.#disconnectCount === disconnectCount) {
+      try {
+        await this.connect();
+        return;
+      } catch (err) {
+        this.#L.error("failed to reconnect:", err);
+        await delay(3 * SECOND);
+      }
+    }
+  }
+
   override disconnect() {
+    ++this.#disconnectCount;
     super.disconnect();
     this.#connectPromise = undefined;
     this.#temporaryAuthKeyRefreshLoop.abort();
@@ -346,6 +379,9 @@ export class ClientEncrypted extends ClientAbstract {
   }
 
   async invoke<T extends Api.AnyFunction | Mtproto.ping, R = T extends Mtproto.ping ? Mtproto.pong : T extends Api.AnyGenericFunction<infer X> ? Api.ReturnType<X> : T["_"] extends keyof Api.Functions ? Api.ReturnType<T> extends never ? Api.ReturnType<Api.Functions[T["_"]]> : never : never>(function_: T): Promise<R> {
+    if (this.#isPerfectForwardSecrecyEnabled && !this.#isAuthKeyBound && function_._ !== "auth.bindTempAuthKey") {
+      await this.#connectPromise;
+    }
     const sentRequest: SentRequest = { call: function_, promiseWithResolvers: Promise.withResolvers() };
     await this.#send(function_, (messageId) => {
       this.#L.debug("sending", function_._, "with msg_id", messageId);
@@ -362,8 +398,7 @@ export class ClientEncrypted extends ClientAbstract {
     }
     if (transportError.code === -404) {
       this.#L.debug("reconnecting with a new temporary auth key");
-      this.disconnect();
-      await this.connect();
+      drop(this.#reconnect());
     }
   }
 
@@ -403,8 +438,7 @@ export class ClientEncrypted extends ClientAbstract {
   async #onRpcError(msgId: bigint, error: Mtproto.rpc_error) {
     if (error.error_message === "AUTH_KEY_PERM_EMPTY" || error.error_message === "ENCRYPTED_MESSAGE_INVALID") {
       this.#L.debug("reconnecting with a new temporary auth key because of", error.error_message);
-      this.disconnect();
-      await this.connect();
+      drop(this.#reconnect());
     }
 
     const request = this.#sentRequests.get(msgId);
-- 
2.43.0


From f02b089ad73b9119c48d2a903a08813a19a969cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 56/68] fix: keep trying to connect after failing to when the
 session was invalidated

---
 session/1_session.ts           | 20 ++++++++++++++++++++
 session/2_session_encrypted.ts |  4 +++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/session/1_session.ts b/session/1_session.ts
index b621c84..99cb969 100644
--- a/session/1_session.ts
+++ b/session/1_session.ts
@@ -177,6 +177,26 @@ export abstract class Session {
     connectionStateChange.resolve();
   }
 
+  protected get disconnectCount(): number {
+    return this.#disconnectCount;
+  }
+
+  /** Attempts to connect until it succeeds or there is another call to disconnect(). */
+  protected async retryConnection(disconnectCount: number) {
+    while (this.#disconnectCount === disconnectCount && !this.isConnected) {
+      this.#L.debug("reconnecting after a delay");
+      await delay(3 * SECOND);
+      if (this.#disconnectCount !== disconnectCount || this.isConnected) {
+        break;
+      }
+      try {
+        await this.connect();
+      } catch (err) {
+        this.#L.error("failed to reconnect:", err);
+      }
+    }
+  }
+
   protected async waitUntilConnected() {
     while (!this.#isDisconnected && !this.isConnected) {
       await this.#connectionStateChange.promise;
diff --git a/session/2_session_encrypted.ts b/session/2_session_encrypted.ts
index ef47b62..6b47847 100644
--- a/session/2_session_encrypted.ts
+++ b/session/2_session_encrypted.ts
@@ -143,11 +143,13 @@ export class SessionEncrypted extends Session implements Session {
     this.#id = getRandomId();
     this.state.reset();
     this.#isInvalidating = true;
+    this.disconnect();
+    const disconnectCount = this.disconnectCount;
     try {
-      this.disconnect();
       await this.connect();
     } catch (err) {
       this.#rejectAllPending(err);
+      drop(this.retryConnection(disconnectCount));
       throw err;
     } finally {
       this.#isInvalidating = false;
-- 
2.43.0


From e8d25132c354947f42e3ac8c0a3306539db2455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 57/68] fix: keep messages when a scheduled, ephemeral, or
 business message of the same identifier is deleted

---
 client/6_client.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index 087141d..c8e063a 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -868,7 +868,8 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           try {
             await this.#handleCtxUpdate(update);
           } finally {
-            if ("deletedMessages" in update) {
+            // scheduled, ephemeral and business messages are numbered separately
+            if ("deletedMessages" in update && !update.isScheduled && !update.isEphemeral && update.businessConnectionId === undefined) {
               for (const { chatId, messageId } of update.deletedMessages) {
                 await this.messageStorage.setMessage(chatId, messageId, null);
               }
-- 
2.43.0


From c571407931005b8dbe8686781eab5ef916cf0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 58/68] fix: report deleted messages again when handling their
 deletion is retried

---
 client/6_client.ts | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/client/6_client.ts b/client/6_client.ts
index c8e063a..ea04110 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -864,14 +864,20 @@ export class Client<C extends Context = Context> extends Composer<C> implements
           }
         }
 
-        for (const update of updates) {
-          try {
+        let areHandled = false;
+        try {
+          for (const update of updates) {
             await this.#handleCtxUpdate(update);
-          } finally {
-            // scheduled, ephemeral and business messages are numbered separately
-            if ("deletedMessages" in update && !update.isScheduled && !update.isEphemeral && update.businessConnectionId === undefined) {
-              for (const { chatId, messageId } of update.deletedMessages) {
-                await this.messageStorage.setMessage(chatId, messageId, null);
+          }
+          areHandled = true;
+        } finally {
+          if (areHandled || !this.#guaranteeUpdateDelivery) { // otherwise the update is going to be handled again, and the deleted messages must be known by then
+            for (const update of updates) {
+              // scheduled, ephemeral and business messages are numbered separately
+              if ("deletedMessages" in update && !update.isScheduled && !update.isEphemeral && update.businessConnectionId === undefined) {
+                for (const { chatId, messageId } of update.deletedMessages) {
+                  await this.messageStorage.setMessage(chatId, messageId, null);
+                }
               }
             }
           }
-- 
2.43.0


From 5e4f54af13ec84e0091dea9751d0e4277c36884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 59/68] fix: forget the known messages of a channel when there
 are too many updates to recover

---
 client/0_storage_operations.ts | 5 +++++
 client/2_update_manager.ts     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 640c232..2fb881d 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -306,6 +306,11 @@ export class StorageOperations {
     await this.#deleteByPrefix([K.messages.P("messages")]);
   }
 
+  /** Forget the messages of a channel. */
+  async deleteChannelMessages(chatId: number) {
+    await this.#deleteByPrefix(K.messages.messages(chatId));
+  }
+
   getMessageChat(messageId: number): MaybePromise<number | null> {
     return this.#storage.get<number>(K.messages.messageRef(messageId));
   }
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 2fc2c8c..0dd0bc8 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -888,8 +888,8 @@ export class UpdateManager {
           break;
         }
       } else if (Api.is("updates.channelDifferenceTooLong", difference)) {
-        // TODO: invalidate messages
         this.#LrecoverChannelUpdateGap.debug("received channelDifferenceTooLong");
+        await this.#c.messageStorage.deleteChannelMessages(Api.getChannelChatId(channelId));
         this.processChats(difference.chats, difference);
         await this.processUsers(difference.users, difference);
         for (const message of difference.messages) {
-- 
2.43.0


From 5d033ea14562ce1fe3e0ed8db99cc90d92560d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 60/68] fix: forget the content of messages once they are
 deleted with deleteMessages

---
 client/0_storage_operations.ts | 5 +++++
 client/3_message_manager.ts    | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 2fb881d..1bddf5c 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -311,6 +311,11 @@ export class StorageOperations {
     await this.#deleteByPrefix(K.messages.messages(chatId));
   }
 
+  /** Forget the content of a message, but not the chat it was in. */
+  async deleteMessageContent(chatId: number, messageId: number) {
+    await this.setTlObject(K.messages.message(chatId, messageId), null);
+  }
+
   getMessageChat(messageId: number): MaybePromise<number | null> {
     return this.#storage.get<number>(K.messages.messageRef(messageId));
   }
diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 6029a45..6115555 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -2079,6 +2079,13 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     } else {
       await this.#c.invoke({ _: "messages.deleteMessages", id: messageIds, revoke: !params?.isOnlyForMe || undefined });
     }
+    // the deletion might be reported much later
+    for (const messageId of messageIds) {
+      const chatId_ = canBeInputChannel(peer) ? await this.#c.getInputPeerChatId(peer) : await this.#c.messageStorage.getMessageChat(messageId);
+      if (chatId_) {
+        await this.#c.messageStorage.deleteMessageContent(chatId_, messageId);
+      }
+    }
   }
 
   async deleteEphemeralMessage(chatId: ID, receiverUserId: ID, messageId: number) {
-- 
2.43.0


From 6b2f4f3ea5ffcfe04d519f1ed1c96f59a1b504de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:04 +0000
Subject: [PATCH 61/68] fix: keep the chosen reactions of the user when given
 those of a message without them

---
 client/2_reaction_manager.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/client/2_reaction_manager.ts b/client/2_reaction_manager.ts
index 72c723e..3d4aa42 100644
--- a/client/2_reaction_manager.ts
+++ b/client/2_reaction_manager.ts
@@ -20,7 +20,7 @@
 
 import { unreachable } from "../0_deps.ts";
 import { Api } from "../2_tl.ts";
-import { constructMessageReaction, constructMessageReactionCount, constructMessageReactions, type ID, type Update } from "../3_types.ts";
+import { constructMessageReaction, constructMessageReactionCount, constructMessageReactions, constructReaction, type ID, reactionEqual, type Update } from "../3_types.ts";
 import type { UpdateProcessor } from "./0_update_processor.ts";
 import type { C } from "./1_types.ts";
 
@@ -64,6 +64,17 @@ export class ReactionManager implements UpdateProcessor<ReactionManagerUpdate, t
       const chatId = Api.peerToChatId(update.peer);
       const message = await this.#c.messageStorage.getMessage(chatId, update.msg_id);
       if (Api.is("message", message)) {
+        if (update.reactions.min) { // does not include those chosen by the user
+          for (const reaction of message.reactions?.results ?? []) {
+            if (reaction.chosen_order !== undefined) {
+              const chosen = constructReaction(reaction.reaction);
+              const result = update.reactions.results.find((v) => reactionEqual(constructReaction(v.reaction), chosen));
+              if (result) {
+                result.chosen_order = reaction.chosen_order;
+              }
+            }
+          }
+        }
         message.reactions = update.reactions;
         await this.#c.messageStorage.setMessage(chatId, update.msg_id, message);
         const views = message.views ?? 0;
-- 
2.43.0


From d4c386425f9922ee4b388f6286735321dafa3ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 62/68] fix: keep what the user has chosen when given the
 results of a poll without it

---
 client/0_storage_operations.ts | 20 +++++++++++++++++++-
 client/4_poll_manager.ts       | 10 ++--------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 1bddf5c..4611886 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -19,7 +19,7 @@
  */
 
 import { MINUTE } from "../0_deps.ts";
-import { LruCache, unreachable } from "../0_deps.ts";
+import { equals, LruCache, unreachable } from "../0_deps.ts";
 import { base64DecodeUrlSafe, base64EncodeUrlSafe, getLogger, intFromBytes, type Logger, type MaybePromise, rleDecode, rleEncode, sha1, ZERO_CHANNEL_ID } from "../1_utilities.ts";
 import { awaitablePooledMap, Mutex } from "../1_utilities.ts";
 import { fromString, type Storage, type StorageKeyPart, toString } from "../2_storage.ts";
@@ -675,6 +675,24 @@ export class StorageOperations {
     return await this.getTlObject(K.cache.poll(pollId)) as Api.poll | null;
   }
 
+  /** Save what was received of a poll. */
+  async updatePoll(pollId: bigint, poll: Api.poll | undefined, pollResults: Api.pollResults) {
+    if (poll) {
+      await this.setPoll(pollId, poll);
+    }
+    if (pollResults.min) { // does not include what was chosen by the user
+      const previous = await this.getPollResults(pollId);
+      for (const { chosen, correct, option } of previous?.results ?? []) {
+        const result = pollResults.results?.find((v) => equals(v.option, option));
+        if (result) {
+          result.chosen ??= result.voters ? chosen : undefined;
+          result.correct ??= correct;
+        }
+      }
+    }
+    await this.setPollResults(pollId, pollResults);
+  }
+
   async deletePolls() {
     await this.#deleteByPrefix(K.cache.polls());
   }
diff --git a/client/4_poll_manager.ts b/client/4_poll_manager.ts
index 2ac1bb3..eccc0b8 100644
--- a/client/4_poll_manager.ts
+++ b/client/4_poll_manager.ts
@@ -128,14 +128,8 @@ export class PollManager implements UpdateProcessor<PollManagerUpdate, true> {
 
   async handleUpdate(update: PollManagerUpdate): Promise<Update | null> {
     if (Api.is("updateMessagePoll", update)) {
-      await this.#c.messageStorage.setPollResults(update.poll_id, update.results);
-      let poll: Api.poll | null = null;
-      if (update.poll) {
-        poll = update.poll;
-        await this.#c.messageStorage.setPoll(poll.id, poll);
-      } else {
-        poll = await this.#c.messageStorage.getPoll(update.poll_id);
-      }
+      await this.#c.messageStorage.updatePoll(update.poll_id, update.poll, update.results);
+      const poll = update.poll ?? await this.#c.messageStorage.getPoll(update.poll_id);
       if (poll) {
         const messageMediaPoll: Api.messageMediaPoll = { _: "messageMediaPoll", poll, results: update.results };
         return { type: "poll", poll: await constructPoll(messageMediaPoll, this.#c.fileManager.getStickerSetName.bind(this.#c.fileManager), this.#c.getPeer) };
-- 
2.43.0


From 204edca68ac1fe8dd7ddaf6d72f133a689af6f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:33 +0000
Subject: [PATCH 63/68] fix: take what a received message says about its poll
 over what was known

---
 client/0_storage_operations.ts | 8 ++++++++
 client/2_update_manager.ts     | 2 +-
 client/3_message_manager.ts    | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 4611886..84ee7fd 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -297,6 +297,14 @@ export class StorageOperations {
     await this.setTlObject(K.messages.message(chatId, messageId), message);
   }
 
+  /** Save a message as it was received, including what it says about its poll. */
+  async setReceivedMessage(chatId: number, message: Api.message | Api.messageService) {
+    if (Api.is("message", message) && Api.is("messageMediaPoll", message.media)) {
+      await this.updatePoll(message.media.poll.id, message.media.poll, message.media.results);
+    }
+    await this.setMessage(chatId, message.id, message);
+  }
+
   async deleteMessages() {
     const maybePromises = new Array<MaybePromise<unknown>>();
     for await (const [k, o] of await this.#storage.getMany({ prefix: K.messages.allMessageRefs() })) {
diff --git a/client/2_update_manager.ts b/client/2_update_manager.ts
index 0dd0bc8..1602ff4 100644
--- a/client/2_update_manager.ts
+++ b/client/2_update_manager.ts
@@ -309,7 +309,7 @@ export class UpdateManager {
       if ("messages" in result && Array.isArray(result.messages)) {
         for (const message of result.messages) {
           if (Api.is("message", message) || Api.is("messageService", message)) {
-            await this.#c.messageStorage.setMessage(Api.peerToChatId(message.peer_id), message.id, message);
+            await this.#c.messageStorage.setReceivedMessage(Api.peerToChatId(message.peer_id), message);
           }
         }
       }
diff --git a/client/3_message_manager.ts b/client/3_message_manager.ts
index 6115555..8ed11fa 100644
--- a/client/3_message_manager.ts
+++ b/client/3_message_manager.ts
@@ -2216,7 +2216,7 @@ export class MessageManager implements UpdateProcessor<MessageManagerUpdate, tru
     if (Api.is("updateNewMessage", update) || Api.is("updateNewChannelMessage", update) || Api.is("updateEditMessage", update) || Api.is("updateEditChannelMessage", update)) {
       if (Api.is("message", update.message) || Api.is("messageService", update.message)) {
         const chatId = Api.peerToChatId(update.message.peer_id);
-        await this.#c.messageStorage.setMessage(chatId, update.message.id, update.message);
+        await this.#c.messageStorage.setReceivedMessage(chatId, update.message);
       }
     }
 
-- 
2.43.0


From bc9f9e3d210c82fcfae9eed304190f2b94136b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 64/68] fix: load persisted peers so that messages persisted
 with them can be constructed after a restart

---
 client/0_storage_operations.ts | 13 +++++++++++++
 client/6_client.ts             |  1 +
 2 files changed, 14 insertions(+)

diff --git a/client/0_storage_operations.ts b/client/0_storage_operations.ts
index 84ee7fd..8aa3df6 100644
--- a/client/0_storage_operations.ts
+++ b/client/0_storage_operations.ts
@@ -801,6 +801,19 @@ class StorageMap<K extends StorageKeyPart[], V> {
     }
   }
 
+  /** Load the stored values so that getSync finds them. */
+  async load() {
+    if (this.#storage.isMemory) {
+      return;
+    }
+    for await (const [key, value] of await this.#storage.getMany<V>({ prefix: [this.#path] }, { limit: this.#cache.maxSize })) {
+      const key_ = toString(key.slice(1));
+      if (this.#getKnown(key_) === undefined) {
+        this.#cache.set(key_, value);
+      }
+    }
+  }
+
   async clear() {
     await awaitablePooledMap(10, await this.#storage.getMany({ prefix: [this.#path] }), async ([key]) => await this.#storage.set(key, null));
   }
diff --git a/client/6_client.ts b/client/6_client.ts
index ea04110..645d6b8 100644
--- a/client/6_client.ts
+++ b/client/6_client.ts
@@ -483,6 +483,7 @@ export class Client<C extends Context = Context> extends Composer<C> implements
         await this.storage.deleteUpdates();
         await this.storage.commit(true);
       }
+      await this.messageStorage.peers.load(); // they are looked up synchronously when what refers to them is constructed
       await this.#secretChatManager.loadSecretChats();
       this.#storageInited = true;
     }
-- 
2.43.0


From 48f033b12bec2b17916d5e89e9346f055742c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:25 +0000
Subject: [PATCH 65/68] fix: identify fetched custom emoji by their own
 identifiers, as not all of those asked for are returned, nor in their order

---
 client/2_file_manager.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/2_file_manager.ts b/client/2_file_manager.ts
index dbe8cbb..e501622 100644
--- a/client/2_file_manager.ts
+++ b/client/2_file_manager.ts
@@ -745,7 +745,7 @@ export class FileManager {
     }
     stickers = [];
     const documents_ = (await this.#c.invoke({ _: "messages.getCustomEmojiDocuments", document_id: id.map(BigInt) })).map((v) => Api.as("document", v));
-    for (const [i, document_] of documents_.entries()) {
+    for (const document_ of documents_) {
       await this.#c.messageStorage.setCustomEmojiDocument(document_.id, document_);
       const fileId_: FileId = {
         type: FileType.Document,
@@ -755,7 +755,7 @@ export class FileManager {
       };
       const fileUniqueId = toUniqueFileId(fileId_);
       const fileId = serializeFileId(fileId_);
-      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), id[i]);
+      const sticker = await constructSticker(document_, fileId, fileUniqueId, this.getStickerSetName.bind(this), String(document_.id));
       stickers.push(sticker);
     }
     return stickers;
-- 
2.43.0


From 4eb22bea412413844f34233d476dff7bc4528835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:25 +0000
Subject: [PATCH 66/68] fix: do not remember callback query answers which are
 not to be cached

---
 client/4_callback_query_manager.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/4_callback_query_manager.ts b/client/4_callback_query_manager.ts
index 8c324fe..4fc0b5d 100644
--- a/client/4_callback_query_manager.ts
+++ b/client/4_callback_query_manager.ts
@@ -63,7 +63,7 @@ export class CallbackQueryManager implements UpdateProcessor<CallbackQueryManage
       return constructCallbackQueryAnswer(maybeAnswer[0]);
     }
     const answer = await this.#c.invoke({ _: "messages.getBotCallbackAnswer", peer, msg_id: messageId, data: "data" in question ? encodeText(question.data) : undefined, game: question.type === "game" || undefined, password: question.type === "password" ? await this.#getPasswordCheck(question.password) : undefined });
-    if (answer.cache_time >= 0) {
+    if (answer.cache_time > 0) {
       await this.#c.messageStorage.setCallbackQueryAnswer(peerId, messageId, questionKey, answer);
     }
     return constructCallbackQueryAnswer(answer);
-- 
2.43.0


From 7f463b6eef2516fa0dff9c92459563e9f36456e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 67/68] fix: forget a group's full information when its
 participants change

---
 client/4_chat_list_manager.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/client/4_chat_list_manager.ts b/client/4_chat_list_manager.ts
index a766fa9..4398f29 100644
--- a/client/4_chat_list_manager.ts
+++ b/client/4_chat_list_manager.ts
@@ -34,6 +34,10 @@ type C = C_ & { fileManager: FileManager; messageManager: MessageManager };
 const chatListManagerUpdates = [
   "updateChannel",
   "updateChat",
+  "updateChatParticipants",
+  "updateChatParticipantAdd",
+  "updateChatParticipantDelete",
+  "updateChatParticipantAdmin",
   "updateUser",
   "updateUserName",
 ] as const;
@@ -59,6 +63,12 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
     await this.#c.messageStorage.setFullChat(chatId, null);
   }
 
+  async #handleUpdateChatParticipants(update: Api.updateChatParticipants | Api.updateChatParticipantAdd | Api.updateChatParticipantDelete | Api.updateChatParticipantAdmin) {
+    const peer: Api.peerChat = { _: "peerChat", chat_id: Api.is("updateChatParticipants", update) ? update.participants.chat_id : update.chat_id };
+    const chatId = Api.peerToChatId(peer);
+    await this.#c.messageStorage.setFullChat(chatId, null);
+  }
+
   async #handleUpdateUser(update: Api.updateUser | Api.updateUserName) {
     const peer: Api.peerUser = { ...update, _: "peerUser" };
     const chatId = Api.peerToChatId(peer);
@@ -104,6 +114,8 @@ export class ChatListManager implements UpdateProcessor<ChatListManagerUpdate, t
       await this.#handleUpdateChannel(update);
     } else if (Api.is("updateChat", update)) {
       await this.#handleUpdateChat(update);
+    } else if (Api.isOneOf(["updateChatParticipants", "updateChatParticipantAdd", "updateChatParticipantDelete", "updateChatParticipantAdmin"] as const, update)) {
+      await this.#handleUpdateChatParticipants(update);
     } else if (Api.is("updateUser", update) || Api.is("updateUserName", update)) {
       await this.#handleUpdateUser(update);
     } else {
-- 
2.43.0


From 4036577ea642c03f150306c2a8f179a65bc9ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 68/68] fix: take updates of video chats which do not name
 their chat

---
 client/3_video_chat_manager.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/client/3_video_chat_manager.ts b/client/3_video_chat_manager.ts
index d842873..36bf275 100644
--- a/client/3_video_chat_manager.ts
+++ b/client/3_video_chat_manager.ts
@@ -144,11 +144,8 @@ export class VideoChatManager implements UpdateProcessor<VideoChatManagerUpdate,
   }
 
   async handleUpdate(update: VideoChatManagerUpdate): Promise<Update | null> {
-    if (!update.peer) {
-      return null; // TODO: handle updates with unspecified chat_id
-    }
-    const chatId = Api.peerToChatId(update.peer);
-    const fullChat = await this.#c.messageStorage.getFullChat(chatId).then((v) => v === null ? this.#c.messageStorage.getFullChat(chatId) : v) as Api.channelFull | Api.chatFull | null;
+    const chatId = update.peer ? Api.peerToChatId(update.peer) : null;
+    const fullChat = chatId === null ? null : await this.#c.messageStorage.getFullChat(chatId) as Api.channelFull | Api.chatFull | null;
     let updateFullChat = false;
     if (Api.is("groupCallDiscarded", update.call)) {
       await this.#c.messageStorage.setGroupCall(update.call.id, null);
@@ -167,7 +164,7 @@ export class VideoChatManager implements UpdateProcessor<VideoChatManagerUpdate,
         }
       }
     }
-    if (updateFullChat) {
+    if (chatId !== null && updateFullChat) {
       await this.#c.messageStorage.setFullChat(chatId, fullChat);
     }
     return { type: "videoChat", videoChat: constructVideoChat(update.call) };
-- 
2.43.0

