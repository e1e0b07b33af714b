#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a,b,c in state],
                  "mechanism": [dict(name=a, where=b) for a,b in mech], "observe_at": list(observe), "hook_needed": hook}})

p("S01", "Outgoing message ids strictly increase and sequence numbers count content",
  "Within one session every message put on the wire, including containers, their inner messages and re-sent ones, carries a message id greater than all earlier ones (a container's id greater than its contents') and divisible by 4, however the local clock or the server time difference moves. Its sequence number is twice the number of content-related messages issued before it in the session, plus one exactly if it is itself content-related. A new session starts again from sequence number zero and keeps the guarantees of its own.",
  ["schedules", "histories", "inputs"], "every interleaving of sends, acknowledgements, resends, clock readings (stalled, backward, forward) and session resets",
  "No test touches the session layer; a unit test could only sample a few clock readings.",
  ["session/0_session_state.ts", "session/2_session_encrypted.ts"],
  [("SessionState.nextMessageId / nextSeqNo / reset", "session/0_session_state.ts"), ("send loop, container construction", "session/2_session_encrypted.ts")],
  [("lastMessageId", "last issued id", "session/0_session_state.ts"), ("seqNo counter", "content-related messages issued", "session/0_session_state.ts")],
  ["decrypted frames written to the transport"])
p("S02", "Every RPC call settles exactly once, with the server's answer to that call",
  "A call made through an encrypted client is settled exactly once: with the result or RPC error the server gave for one of that call's own transmissions, or with a connection or session error if the connection was closed or the session was lost before an answer arrived. Results are never delivered to another call, whatever the order, duplication, batching in containers or compression of the server's answers, and no call stays pending once its answer has arrived or its session has been torn down.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of calls, answers (in any order, duplicated, batched, gzipped), corrections, transport losses, invalidations and disconnects",
  "No test covers session or client_encrypted; the guarantee is about interleavings of server and transport events.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts"],
  [("sent request map keyed by message id, moved on resend", "client/2_client_encrypted.ts"), ("onMessageFailed / rejectAllPending", "session/2_session_encrypted.ts")],
  [("sentRequests", "in-flight calls by msg id", "client/2_client_encrypted.ts")], ["promise returned by ClientEncrypted.invoke"])
p("S03", "Every acknowledgeable received message is acknowledged, and nothing else",
  "Every received RPC answer, update, pong and new-session notice is acknowledged in the acknowledgements the client sends out, no later than with the next message it sends after the receipt unless the session ends before, and nothing that was not received in an acknowledgeable message is ever acknowledged. If a transmission that carried acknowledgements is refused by the server or fails on the transport, those acknowledgements are sent again with a later message.",
  ["schedules", "histories", "fault_sequences"], "every sequence of received messages, sends, failed transmissions and server refusals",
  "Untested code; depends on when sends happen relative to receipts and failures.",
  ["session/2_session_encrypted.ts"], [("toAcknowledge / pendingAcks, msg_container with msgs_ack", "session/2_session_encrypted.ts")],
  [("toAcknowledge", "ids waiting to be acknowledged", "session/2_session_encrypted.ts")], ["msgs_ack in decrypted outgoing frames"])
p("S04", "Server corrections are applied and exactly the refused calls are re-sent",
  "After a bad-server-salt or new-session notice every later message of that session carries the given salt and the owner is told about it; after a clock correction every later message id is derived from the corrected clock. A message the server refuses for one of the correctable reasons is transmitted again, as a new message with a new id and the same body and still settling its caller, exactly once per refusal, while messages that were not refused are not transmitted again.",
  ["histories", "schedules"], "every sequence of corrections (bad salt, msg id too low, invalid salt, refused containers) interleaved with calls and answers",
  "Untested code; needs a server that refuses messages in specific states.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts"], [("bad_server_salt / bad_msg_notification handling, container failure recursion", "session/2_session_encrypted.ts"), ("onMessageFailed resend", "client/2_client_encrypted.ts")],
  [("serverSalt", "salt used for encryption", "session/0_session_state.ts"), ("timeDifference", "server clock offset", "session/0_session_state.ts")], ["outgoing frames' salt and msg_id"])
p("S05", "Only authentic messages of the current session reach the client",
  "A received frame influences calls, updates, salt or acknowledgements only if it decrypts under the session's authorization key, its message key matches and it carries the current session id. A frame that cannot be decrypted under the key, or a fatal server refusal, makes the session be replaced by a new one with a fresh random id and its in-flight calls fail or be re-sent, after which the client works again; after a disconnect nothing is transmitted until the next connect.",
  ["histories", "inputs", "fault_sequences"], "every sequence of genuine, replayed-from-old-session, corrupted, truncated and foreign frames interleaved with traffic",
  "Untested code; requires an adversarial network.",
  ["session/2_session_encrypted.ts", "session/1_session.ts"], [("#receive checks, #invalidateSession", "session/2_session_encrypted.ts"), ("reconnect loop", "session/1_session.ts")],
  [("id", "session id", "session/2_session_encrypted.ts")], ["handlers and outgoing frames"])
p("S06", "Authorization-key creation agrees with the server or fails",
  "If creating an authorization key succeeds, the client holds the key and first salt computed by the server that proved possession of the RSA private key during that same exchange. An answer that is damaged or belongs to another exchange never yields a key; after a step is refused, lost or to be retried, the step or the whole exchange is done again as the protocol says. With perfect forward secrecy, calls are made only under a temporary key that has been bound to the permanent one.",
  ["inputs", "histories", "fault_sequences"], "every combination of random values and of server answers (genuine, retried, refused, with wrong nonces)",
  "No test performs the key exchange.", ["client/1_client_plain.ts", "session/2_session_plain.ts", "client/2_client_encrypted.ts"],
  [("createAuthKey", "client/1_client_plain.ts"), ("#createAuthKey, #bindTemporaryAuthKey", "client/2_client_encrypted.ts")], (), ["value returned by createAuthKey"])
p("T01", "Packets survive any segmentation, loss or reopening of their connection",
  "With every supported transport framing, obfuscated or not, over plain, web socket, SOCKS5 and proxied connections, the sequence of packets the server writes comes out of the transport complete, in order and byte-identical (up to the padding of padded framings), and the packets handed over reach the server likewise, whatever the packet sizes and however the connection splits or joins the byte stream in either direction. The stream the client writes is the protocol's own encoding: the handshake of the proxy if any, to the right address, the identifying prefix once per connection, naming the right data center where it names one, then correct length headers. Connections do not leak into each other: a packet that was waiting or partly transmitted when its connection was lost or closed fails and leaves nothing on the next connection, nothing of the old stream is received there, and whoever waited for a packet is told.",
  ["inputs", "schedules", "fault_sequences"], "every packet length class of each framing times every segmentation of the stream, including concurrent sends and reads, loss, closing and reopening at any point of either stream",
  "Existing tests do not cover transports or connections under segmentation or loss.",
  ["transport", "connection"], [("TransportAbridged/TransportIntermediate framing, obfuscation", "transport"), ("connections, handshakes, read and write mutexes, byte queue", "connection")],
  (), ["bytes on the connection, packets from receive(), settlement of send() and receive()"])
p("U01", "Account-wide updates are applied in order, exactly once, with gaps recovered",
  "Updates carrying the account's sequence counters (message box, secondary box and update-batch counter) reach the handlers in counter order and exactly once, whatever duplication, reordering or loss the server's pushes suffer: an update already covered by the local counter is dropped, an update beyond it is preceded by everything missing, fetched from the server, before it or its equivalent is handled. The counter kept for the account never moves backwards and after a recovery equals what the server reported.",
  ["schedules", "histories", "fault_sequences"], "every order, duplication and loss of pushes and every split of differences into slices, empty or too-long answers",
  "The update manager has no tests; correctness is over all delivery histories.",
  ["client/2_update_manager.ts"], [("process*Queue, pts/qts/seq checks", "client/2_update_manager.ts"), ("recoverUpdateGap", "client/2_update_manager.ts")],
  [("updates.state", "pts, qts, seq, date", "client/0_storage_operations.ts")], ["update handler"])
p("U02", "Each channel's updates are applied in order, exactly once, independently",
  "For every channel, updates carrying that channel's counter reach the handlers in counter order and exactly once under duplication, reordering and loss, with missing ones fetched by that channel's difference; counters and recoveries of different channels do not affect each other or the account's. A difference that is too long moves the counter to the server's and delivers its messages.",
  ["schedules", "histories", "fault_sequences"], "every order, duplication and loss of pushes across several channels, every split of channel differences",
  "No tests; needs concurrent recoveries of several channels.",
  ["client/2_update_manager.ts"], [("channel pts queue, recoverChannelUpdateGap", "client/2_update_manager.ts")],
  [("channelPts", "per-channel counter", "client/0_storage_operations.ts")], ["update handler, updates.getChannelDifference calls"])
p("U03", "With guaranteed delivery no update is lost across crashes or handler failures",
  "With guaranteed update delivery on, an update whose counter has been consumed durably has either been handled or is still stored, in order, at every crash point, on every storage backend; after a restart the stored ones are handled first, oldest first, before any later update of the same box. A stored update is removed only after its handler has finished or has failed repeatedly.",
  ["crash_points", "schedules", "fault_sequences"], "every crash point between receipt, storage, counter update, handling and removal, times handler failures and restarts, on every backend",
  "No test restarts a client or fails a handler.",
  ["client/2_update_manager.ts", "client/0_storage_operations.ts"], [("setUpdate before state, handleStoredUpdates, replayStoredUpdates", "client/2_update_manager.ts"), ("getFirstUpdate/setUpdate", "client/0_storage_operations.ts")],
  [("updates.updates", "stored, unhandled updates", "client/0_storage_operations.ts")], ["handler invocations, storage contents"])
p("X01", "Secret-chat messages arrive in order, exactly once, despite loss and reordering",
  "In a secret chat every message the peer sent is handled exactly once and in the order of sending, when the network duplicates, reorders or loses messages: early ones wait, each gap makes one resend request, repeated ones are ignored, and requested messages are re-sent with their original content and sequence numbers. Sequence numbers that cannot come from a correct peer end the chat instead of being accepted.",
  ["schedules", "fault_sequences", "histories"], "every interleaving, duplication, loss and reordering of messages in both directions, and forged sequence numbers",
  "Secret chats have no tests.", ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [("#checkGap, pending messages, resend action", "client/3_secret_chat_manager.ts")],
  [("inSeqNo/outSeqNo", "sequence counters", "client/0_secret_chat_state.ts")], ["updates handed to the client, outgoing encrypted messages"])
p("X02", "Secret-chat keys agree on both sides through creation and every key exchange",
  "When a secret chat becomes ready both parties hold the same key and fingerprint, and a handshake with an out-of-range or mismatching value is refused. A key exchange, also when both sides start one at once or messages are delayed or reordered within the protocol, ends with both sides on the same new key or on the old one, and every message sent before, during or after it remains readable by its receiver; a key exchange message that does not fit the exchange is refused.",
  ["schedules", "histories", "inputs"], "every interleaving of the two sides' exchange messages with ordinary traffic, including simultaneous starts",
  "Secret chats have no tests.", ["client/3_secret_chat_manager.ts"],
  [("request/accept/encryption update handling", "client/3_secret_chat_manager.ts"), ("rekeying actions", "client/3_secret_chat_manager.ts")],
  [("key, pendingRekey, previousKey", "key material", "client/0_secret_chat_state.ts")], ["ability of each side to decrypt the other"])
p("X03", "A secret chat's life cycle is one-way and survives restarts",
  "A secret chat only moves requested/waiting, ready, ended, and an ended chat neither sends nor delivers anything and releases its keys; every terminal server or peer notice ends it. Everything that sequence checking, resending and decryption need is durable before an operation completes, so a client restarted at any point between operations continues the chat as if it had not been restarted.",
  ["histories", "crash_points"], "every order of life-cycle operations and notices, with a restart between any two operations",
  "Secret chats have no tests.", ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [("state commit per operation, loadSecretChats", "client/3_secret_chat_manager.ts")],
  [("secret chat state", "persisted per chat", "client/0_secret_chat_state.ts")], ["manager API, storage contents, outgoing calls"])
p("K01", "Every storage backend behaves as the same ordered key-value map",
  "On every storage backend, writing, deleting, incrementing, point reads and range or prefix scans behave as one ordered map from composite keys to values: a read returns the last value written under exactly that key, scans return exactly the matching entries in key order with the requested direction and limit, and values come back equal to what was stored. Branches and differently named stores are separate maps: nothing done in one is visible in, or disturbs, another.",
  ["inputs", "histories"], "every sequence of operations over composite keys of all part types, prefixes, ranges, limits and branches, identical across backends",
  "Existing tests exercise single backends with a few keys and no mixed histories or branches.",
  ["storage"], [("key serialization and comparison", "storage/0_utilities.ts"), ("backends", "storage")], (), ["Storage interface"])
p("K02", "Cached writes are read back at once and reach storage completely when committed",
  "A read of cached account data returns the latest value written, also while reads or commits are in progress. After a successful commit with no later writes the underlying storage holds exactly the latest values, a failed or partial commit loses nothing and is completed by a later one, writes made during a commit are kept for the next, and resetting leaves neither cached nor stored data of the old account.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of writes, reads, commits, storage failures, resets and crashes",
  "Tests never overlap operations with a slow or failing storage.",
  ["client/0_storage_operations.ts"], [("StorageMap / StorageValue commit", "client/0_storage_operations.ts")],
  [("pendingUpdates, revision", "uncommitted writes", "client/0_storage_operations.ts")], ["storage contents, reads"])
p("K03", "Objects cached in storage come back equal on every backend",
  "Whatever the client caches (messages and their chat references, full chats, polls, query answers, business connections, file records, stored updates, minimal-peer references, authorization strings) reads back equal to the last value stored under the same identity until it is deleted, on backends that serialize and on those that do not, and deleting one kind of data leaves the others alone.",
  ["inputs", "histories", "configurations"], "every sequence of store, overwrite, read, delete and list operations per kind of object, for each backend",
  "Tests cover only key-value primitives.", ["client/0_storage_operations.ts"],
  [("setTlObject/getTlObject and typed accessors", "client/0_storage_operations.ts")], (), ["StorageOperations accessors"])
p("K04", "Remembered answers are given again only for that question and while they hold",
  "What the client once asked the server is given again without asking only for the very same question (same bot, chat, message, button, query and offset) and while it holds: answers to callback and inline queries for the time the server lends them (for no time if it says so), custom emoji for half an hour, each under its own identifier; full users, groups and channels until an update says they changed (a group's members and administrators included), video chats as last told, started, changed or ended, business connections until they change or are disabled, transcriptions of voice messages once completed and until the message is edited. A refused question leaves what was remembered as it was. An answer and the news that it does not hold anymore may arrive together; the news wins.",
  ["inputs", "schedules", "histories"], "every order of changes at the server, told, untold or together with an answer, of questions answered or refused, waits and restarts, over the kinds of things remembered",
  "No test covers what the client remembers of answers.",
  ["client/4_callback_query_manager.ts", "client/4_inline_query_manager.ts", "client/2_file_manager.ts", "client/4_chat_list_manager.ts", "client/3_video_chat_manager.ts", "client/2_business_connection_manager.ts", "client/3_message_manager.ts", "client/0_storage_operations.ts"],
  [("sendCallbackQuery", "client/4_callback_query_manager.ts"), ("sendInlineQuery", "client/4_inline_query_manager.ts"), ("getCustomEmojiStickers", "client/2_file_manager.ts"), ("#getFullChat, updates of chats", "client/4_chat_list_manager.ts"), ("updateGroupCall, getVideoChat", "client/3_video_chat_manager.ts"), ("getBusinessConnection", "client/2_business_connection_manager.ts"), ("transcribeVoice", "client/3_message_manager.ts")],
  (), ["answers of Client methods, calls reaching the server, updates given to handlers"])
p("L01", "Objects are written as the schema says and read back equal, or refused",
  "Every object that fits its type is written as exactly the bytes the type language defines for it (numbers, strings, vectors, flags, bare and boxed constructors, message containers), and reading those bytes as that type gives an equal object and consumes all of them. Fields that share a flag are there together. An object that does not fit (a missing field, a value of another kind, a number out of range) is refused instead of written as something else; bytes of which a part is missing, or which begin with an unknown constructor or one of another kind, are refused instead of read as something else. The answer to a call is read as the type the called function declares, also through functions that pass it on. The constructor and function numbers of the schemas are those of their declarations.",
  ["inputs", "configurations"], "every constructor and function of every schema, every boundary value of each type, every truncation and every type expected",
  "Tests sample a few objects.",
  ["tl/1_tl_reader.ts", "tl/1_tl_writer.ts", "tl/2_message.ts"], [("TLWriter", "tl/1_tl_writer.ts"), ("TLReader", "tl/1_tl_reader.ts"), ("message containers", "tl/2_message.ts"), ("schema", "tl/1_telegram_api.ts"), ("#onRpcResult result type", "client/2_client_encrypted.ts")],
  (), ["bytes of TLWriter, objects of TLReader, errors"])
p("F01", "A successful upload sends every part of the file exactly as given",
  "When an upload succeeds, the parts the server accepted, put together by part number, are exactly the source's bytes (encrypted continuously when encryption is requested), every part but the last has the chosen size, the part count and small/big file form announced match what was sent, however the source is chunked and however many parts are in flight, delayed or retried. A part that fails is sent again with the same number and bytes, and an upload that is aborted or keeps failing rejects.",
  ["inputs", "schedules", "fault_sequences"], "every file size class, source chunking, chunk size, part completion order and failure pattern",
  "Tests cover chunk-size arithmetic only.", ["client/2_file_manager.ts", "utilities/0_part_stream.ts"],
  [("upload loops, part retry", "client/2_file_manager.ts"), ("PartStream", "utilities/0_part_stream.ts")], (), ["upload.saveFilePart/saveBigFilePart calls and the returned input file"])
p("F02", "A download yields exactly the file's bytes from the offset, in order",
  "A download yields the file's bytes from the requested offset to the end, in order, without gaps or repeats, whatever order concurrent part requests complete in, whether parts come from the server or from the local cache, and decrypted correctly for encrypted files. The cache never makes an incomplete file look complete, and an aborted or failed download ends with the error.",
  ["inputs", "schedules", "fault_sequences"], "every file size, chunk size, offset, completion order of concurrent requests, cache content and abort point",
  "Tests cover argument validation only.", ["client/2_file_manager.ts", "client/0_storage_operations.ts"],
  [("downloadInner", "client/2_file_manager.ts"), ("iterFileParts/saveFilePart", "client/0_storage_operations.ts")], (), ["yielded chunks"])
p("C01", "Error handlers decide retries per client, per call, in order",
  "When a call fails, the client's own registered error handlers, and only that client's, are consulted in registration order with the call's error and attempt number counted from 1, and the call is repeated exactly when they say so, otherwise it fails with that error. By default a flood wait of at most ten seconds is waited out for the stated time and the call repeated, longer ones are left to the user's handlers.",
  ["histories", "configurations", "schedules"], "every sequence of errors and handler decisions, for any number of clients and handlers in one process",
  "No test builds a client or registers invoke handlers.", ["client/6_client.ts", "client/1_invoke_middleware.ts"],
  [("#invoke loop, invoke.use chaining", "client/6_client.ts")], (), ["invoke results, handler invocations"])
p("C02", "Connections per data center carry the right authorization",
  "A call is sent to the data center it asks for, on a connection that has that data center's own authorization key and, for another data center, the account's exported authorization imported before the call succeeds; keys and salts are stored per data center and reused after a restart. Concurrent calls to the same other data center share one connection set-up, and after a migration error during sign-in the client works on the new data center.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of calls to several data centers, reconnects, restarts, unregistered-key errors and migrations",
  "No test connects a client.", ["client/6_client.ts", "client/3_client_encrypted_pool.ts"],
  [("getMainClient / setupClient / importAuthorization / handleMigrationError", "client/6_client.ts")], (), ["server-side view of connections"])
p("C03", "The sign-in dialogue follows the account state to success or an error",
  "Sign-in asks for exactly what the account's state requires, in order: phone, code, then password or sign-up if required, repeating a step whose value the server rejects when it was asked interactively, failing when it was given as a constant, and beginning again from the phone when a question is answered by asking for a restart, and only then. A redirection to another data center while sending the code or using a bot token is followed. It returns only when the server has authorized the account, which is then remembered as the signed-in one, also if the client is killed at any point; it skips everything when already signed in, and passes other errors on.",
  ["histories", "configurations"], "every sequence of server reactions at each step and every mix of constant and interactive parameters",
  "No test covers sign-in.", ["client/2_sign_in.ts", "client/3_account_manager.ts"],
  [("signIn", "client/2_sign_in.ts"), ("sendCode/checkCode/checkPassword/signUp", "client/3_account_manager.ts")], (), ["calls made, prompts, result"])
p("C04", "A client behind a worker behaves as a local one",
  "Every request sent to a client in a worker is answered exactly once with that request's result or an equal error, however requests of several clients overlap and answer out of order; updates reach the handlers of the client they belong to, in order, and invoke error handlers registered on the page decide retries. If the worker fails, all outstanding requests fail, and a client that is not initialized or already disconnected answers with an error.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests, responses, updates and failures across several clients",
  "No test covers the worker.", ["worker.ts", "client/6_client_dispatcher.ts", "client/7_client_worker.ts", "client/7_client_receiver.ts", "client/0_worker_error.ts"],
  [("pending request map keyed by request id", "client/6_client_dispatcher.ts"), ("error (de)serialization", "client/0_worker_error.ts")], (), ["promises of the dispatcher"])
p("C05", "Middleware runs in registration order, each next at most once",
  "For every way of composing update handlers (nesting, filters, branches) an update runs through exactly the handlers whose conditions hold, in registration order, each continuing to the next only if it asks to and running what follows at most once however often it asks. Work after the continuation happens after everything that followed it has finished, and an error propagates to whoever is waiting.",
  ["programs", "inputs"], "every composition tree of handlers, filters and branches, and every behaviour of each handler",
  "The test composes one fixed example.", ["client/5_composer.ts"], [("concat, Composer.use/branch/filter", "client/5_composer.ts")], (), ["order of handler entries and exits"])
p("C06", "Translation packs always equal the server's version they claim",
  "The stored translations for a platform and language are at all times exactly the server's strings for the version recorded with them: a difference is applied only on the version it starts from, otherwise the missing part is fetched, deleted and changed strings included, and concurrent requests and pushes do not corrupt them. Translations handed out earlier do not change with later versions.",
  ["histories", "schedules"], "every interleaving of reads, pushes with right or wrong base versions, resets and slow server answers",
  "No test covers translations.", ["client/2_translations_manager.ts"], [("updateTranslationsQueue, version check", "client/2_translations_manager.ts")], (), ["getTranslations, translations updates"])
p("M01", "Messages known to the client are as the server last told them",
  "A message the client answers with is the message of that chat and number as the server last told it, or as the server holds it when asked: with its latest edit, its reactions and votes, the user's own among them, its views, and the message it replies to. Deletions are reported to handlers once (again, with guaranteed delivery, until taken), with the messages still readable there, and not known afterwards; deletions among messages numbered apart (scheduled, business, ephemeral) touch no others. What was missed is made up for by differences, or forgotten when there was too much. This also holds for what the user does through this client, and with a persisted cache after a restart.",
  ["inputs", "histories", "fault_sequences", "configurations"], "every sequence of messages, edits, deletions, reactions, votes, views, outages, failing handlers, look-ups, own doings and restarts in chats, groups and channels",
  "No test covers the messages a client keeps.", ["client/3_message_manager.ts", "client/2_reaction_manager.ts", "client/4_poll_manager.ts", "client/6_client.ts", "client/2_update_manager.ts", "client/0_storage_operations.ts"],
  [("getMessages, handleUpdate, constructMessage, deleteMessages", "client/3_message_manager.ts"), ("handleUpdate", "client/2_reaction_manager.ts"), ("handleUpdate", "client/4_poll_manager.ts"), ("#handleUpdate", "client/6_client.ts"), ("processResult, differences", "client/2_update_manager.ts"), ("setMessage, updatePoll", "client/0_storage_operations.ts")], (), ["updates handlers see", "messages getMessage(s) and getHistory give"])
p("P01", "Users, channels and names are known as the server last told them",
  "What the server tells in full about a user or channel, by any way it has (pushed batches, differences, answers to calls), is what is used from then on: the reference used in calls and the names handlers see, also in the same batch and, with a persisted cache, after a restart. What it tells only in part never replaces what is known in full; those not known in full are referred to through the last message they were seen in, and those not known at all are asked for or refused. A username in any of its forms and spellings, or a phone number, leads to its last known holder while that was learnt recently, and otherwise to the one the server names; changes of names are applied whole.",
  ["inputs", "histories", "configurations"], "every sequence of full and partial news, messages, renames, look-ups, answers and restarts over any users, channels and names",
  "Tests cover the forms of usernames only.", ["client/2_update_manager.ts", "client/6_client.ts", "client/0_storage_operations.ts"],
  [("processChats/processUsers, min references", "client/2_update_manager.ts"), ("getInputPeer, #getInputPeerInner, updateUserName", "client/6_client.ts"), ("getUsername", "client/0_utilities.ts")], (), ["input peers given, questions to the server, senders handlers see"])
p("Q01", "Locks, queues and loops run one task at a time, in order, and stop when told",
  "A lock is held by at most one holder and granted in request order, never lost and never granted twice by a repeated release. A queue runs its tasks one at a time in the order they were added, each exactly once, and a failing task does not stop the following ones. A loop never runs two iterations at once, runs none after being aborted, reports errors to its handler and can be started again.",
  ["schedules", "histories"], "every interleaving of requests, releases, task completions and failures, starts and aborts",
  "Tests run two or three tasks in one order.", ["utilities/0_mutex.ts", "utilities/2_queue.ts", "client/0_abortable_loop.ts"],
  [("Mutex", "utilities/0_mutex.ts"), ("Queue", "utilities/2_queue.ts"), ("AbortableLoop", "client/0_abortable_loop.ts")], (), ["task start and end events"])
p("R01", "A client that is to be connected comes back, and nothing is lost by an outage",
  "Whatever happens to its connections and its session — they are lost, refused, slow, cut off while being set up, unreadable, or under keys the server no longer knows — a client that was connected and not disconnected is connected again within seconds of the server being reachable, however long that took, and one that was disconnected stays so. What happened while it was away, what never reached it, and what it could not read are handed to the handlers once and in order, after the connection is back or after a quarter of an hour of silence at most. Calls made meanwhile wait for the connection or fail, are settled once, and are never sent before the connection is introduced and its key bound. The connection state handlers last saw is the real one.",
  ["fault_sequences", "histories", "schedules"], "every sequence of losses, refusals, delays, outages of any length, forgotten or expired keys, unreadable messages, pushes, lost pushes and calls",
  "Tests never lose a connection of a whole client.", ["client/6_client.ts", "client/2_client_encrypted.ts", "session/1_session.ts", "session/2_session_encrypted.ts"],
  [("updateGapRecoveryLoop, onConnectionStateChange", "client/6_client.ts"), ("#reconnect, #connect, temporary key refresh", "client/2_client_encrypted.ts"), ("stateChangeHandler, retryConnection", "session/1_session.ts"), ("#invalidateSession", "session/2_session_encrypted.ts")], (), ["connection states and messages handlers see", "outcomes of calls", "frames the server receives"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
