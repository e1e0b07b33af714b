----------------------------- MODULE DataCenters -----------------------------
(* One client, its keys at several data centers, and the calls it makes at   *)
(* them.  Places are numbered: 0 is the data center of the account (main),   *)
(* n the connection for calls to DC n, -n the connections for files at DC n. *)
(* The network's part (refusals, answers, losses, migrations) is free; the   *)
(* client's part says what it may do and when.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DCs, First, Pool, MaxCalls, MaxKeys, MaxTickets, MaxTrouble
VARIABLES main,    \* the account's data center
          moving,  \* between losing the main connection and having it again
          keys,    \* every key made: its data center, whether the account is known under it, salts
          mem,     \* the keys a place uses
          calls, tickets, trouble,
          conns    \* places with a connection
vars == <<main, moving, keys, mem, calls, tickets, trouble, conns>>
Places == {0} \cup DCs \cup {-d : d \in DCs}
Place(dc, media) == IF media THEN -dc ELSE IF dc = main THEN 0 ELSE dc
At(p) == IF p = 0 THEN main ELSE IF p < 0 THEN -p ELSE p
Usable(p) == mem[p] \cup (IF p < 0 /\ -p = main THEN mem[0] ELSE {})
K == DOMAIN calls
Live(k) == calls[k].st \notin {"ok", "failed"}

Init == /\ main = First /\ moving = TRUE /\ keys = <<>> /\ mem = [p \in Places |-> {}]
        /\ calls = <<>> /\ tickets = <<>> /\ trouble = 0 /\ conns = {}

(* --- the user *)
Call(k, dc, media, need) ==
  /\ k = Len(calls) + 1
  /\ calls' = Append(calls, [dc |-> dc, media |-> media, need |-> need, st |-> "waiting", key |-> 0, shaken |-> moving, why |-> "", ref |-> FALSE])
  /\ UNCHANGED <<main, moving, keys, mem, tickets, trouble, conns>>
Target(k) == IF calls[k].dc = 0 THEN main ELSE calls[k].dc

(* --- keys: one exchange for a place that has none; files may use several *)
Exch(dc, media) ==
  LET p == Place(dc, media) IN
  /\ IF media THEN Cardinality(mem[p]) < Pool /\ dc # main ELSE mem[p] = {}
  /\ p # 0 => \E k \in K : Live(k) /\ Target(k) = dc /\ calls[k].media = media
  /\ keys' = Append(keys, [dc |-> dc, auth |-> FALSE, cur |-> 1, told |-> 1, pardon |-> FALSE])
  /\ mem' = [mem EXCEPT ![p] = @ \cup {Len(keys) + 1}]
  /\ UNCHANGED <<main, moving, calls, tickets, trouble, conns>>
Up(dc, media, key) ==
  LET p == Place(dc, media) IN
  /\ key \in Usable(p) /\ keys[key].dc = dc
  /\ ~media => p \notin conns
  /\ conns' = IF media THEN conns ELSE conns \cup {p}
  /\ moving' = IF p = 0 THEN FALSE ELSE moving
  /\ UNCHANGED <<main, keys, mem, calls, tickets, trouble>>

(* --- calls *)
Arrive(k, dc, media, key) ==
  LET p == Place(dc, media) IN
  /\ calls[k].st = "waiting" /\ Target(k) = dc /\ calls[k].media = media
  /\ key \in Usable(p) /\ keys[key].dc = dc
  /\ p > 0 => p \in conns
  /\ calls' = [calls EXCEPT ![k].st = "sent", ![k].key = key]
  /\ moving' = IF p = 0 THEN FALSE ELSE moving
  /\ keys' = [keys EXCEPT ![key].pardon = FALSE]
  /\ UNCHANGED <<main, mem, tickets, trouble, conns>>
(* what the server makes of a call that has arrived *)
Server(k, what, why) ==
  /\ calls[k].st = "sent"
  /\ CASE what = "ok" -> /\ calls[k].need => keys[calls[k].key].auth
                         /\ calls' = [calls EXCEPT ![k].st = "answered"]
       [] what = "unreg" -> /\ calls[k].need /\ ~keys[calls[k].key].auth
                            /\ calls' = [calls EXCEPT ![k].st = IF Place(Target(k), calls[k].media) = 0 THEN "error" ELSE "refused", ![k].ref = TRUE, ![k].why = "AUTH_KEY_UNREGISTERED"]
       [] what = "err" -> calls' = [calls EXCEPT ![k].st = "error", ![k].why = why]
  /\ UNCHANGED <<main, moving, keys, mem, tickets, trouble, conns>>
(* how the call ends for the user *)
CanSettle(k, r, why) ==
  \/ r = "ok" /\ calls[k].st = "answered"
  \/ r = "err" /\ calls[k].st = "error" /\ why = calls[k].why
  \/ r = "err" /\ calls[k].ref /\ calls[k].st \in {"refused", "waiting"} /\ \E t \in DOMAIN tickets : tickets[t].dc = Target(k) /\ tickets[t].st = "bad" /\ why = tickets[t].why
  \/ r = "conn" /\ calls[k].shaken /\ Live(k)
Settle(k, r, why) ==
  /\ CanSettle(k, r, why)
  /\ calls' = [calls EXCEPT ![k].st = IF r = "ok" THEN "ok" ELSE "failed"]
  /\ UNCHANGED <<main, moving, keys, mem, tickets, trouble, conns>>

(* --- the account's authorization at another data center *)
Export(dc, dcOn, keyOn) ==
  /\ dcOn = main /\ keyOn \in mem[0] /\ dc # main
  /\ \E k \in K : Live(k) /\ Target(k) = dc
  /\ tickets' = Append(tickets, [dc |-> dc, st |-> "asked", why |-> ""])
  /\ UNCHANGED <<main, moving, keys, mem, calls, trouble, conns>>
Exported(t, why) ==
  /\ tickets[t].st = "asked"
  /\ tickets' = [tickets EXCEPT ![t].st = IF why = "" THEN "given" ELSE "bad", ![t].why = why]
  /\ UNCHANGED <<main, moving, keys, mem, calls, trouble, conns>>
Import(t, dc, media, key) ==
  /\ tickets[t].st = "given" /\ tickets[t].dc = dc
  /\ key \in Usable(Place(dc, media)) /\ keys[key].dc = dc
  /\ tickets' = [tickets EXCEPT ![t].st = "used"]
  /\ UNCHANGED <<main, moving, keys, mem, calls, trouble, conns>>
Imported(t, key, why) ==
  /\ tickets[t].st = "used"
  /\ tickets' = [tickets EXCEPT ![t].st = IF why = "" THEN "done" ELSE "bad", ![t].why = why]
  /\ IF why = "" THEN /\ keys' = [keys EXCEPT ![key].auth = TRUE]
                      /\ calls' = [k \in K |-> IF calls[k].st = "refused" /\ calls[k].key = key THEN [calls[k] EXCEPT !.st = "waiting"] ELSE calls[k]]
     ELSE UNCHANGED <<keys, calls>>
  /\ UNCHANGED <<main, moving, mem, trouble, conns>>

(* --- the world *)
Trouble == trouble' = trouble + 1
Signed(key) == key \in mem[0] /\ keys' = [keys EXCEPT ![key].auth = TRUE] /\ UNCHANGED <<main, moving, mem, calls, tickets, trouble, conns>>
Revoked(key) == /\ keys' = [keys EXCEPT ![key].auth = FALSE] /\ Trouble /\ UNCHANGED <<main, moving, mem, calls, tickets, conns>>
Again(S, st) == IF S /\ st \in {"sent", "refused"} THEN "waiting" ELSE st
Shake(S) == [k \in K |-> IF k \in S /\ Live(k) THEN [calls[k] EXCEPT !.shaken = TRUE, !.st = Again(TRUE, @)] ELSE calls[k]]
On(p) == {k \in K : Place(Target(k), calls[k].media) = p}
(* a connection is lost: the calls on it are made again, or fail on the main one; those at other places go on *)
Loss(dc, media, main0) ==
  LET p == Place(dc, media) IN
  /\ conns' = conns \ {p}
  /\ calls' = [k \in K |-> IF ~Live(k) THEN calls[k]
                            ELSE [calls[k] EXCEPT !.st = IF k \in On(p) /\ @ = "sent" THEN "waiting" ELSE @,
                                                  !.shaken = @ \/ p = 0 \/ (k \in On(p) /\ calls[k].st # "sent")]]
  /\ moving' = (IF p = 0 THEN TRUE ELSE moving)
  /\ Trouble /\ UNCHANGED <<main, keys, mem, tickets>>
(* a connection is closed by the client *)
Pardon(S) == [i \in DOMAIN keys |-> IF i \in S THEN [keys[i] EXCEPT !.pardon = TRUE] ELSE keys[i]]
Closed(dc, media) ==
  LET p == Place(dc, media) IN
  /\ conns' = conns \ {p}
  /\ keys' = IF p # 0 /\ ~moving THEN Pardon(mem[p]) ELSE keys \* for being idle: the salt may be forgotten
  /\ calls' = [k \in K |-> IF Live(k) /\ k \in On(p) /\ p # 0 THEN [calls[k] EXCEPT !.st = IF @ = "sent" THEN "waiting" ELSE @] ELSE calls[k]]
  /\ UNCHANGED <<main, moving, mem, tickets, trouble>>
(* a connection cannot be opened; a key not stored yet may be given up *)
OpenFail(dc, media) ==
  LET p == Place(dc, media) IN
  /\ calls' = Shake(On(p)) /\ Trouble
  /\ \E g \in SUBSET (IF p = 0 THEN {} ELSE mem[p]) : mem' = [mem EXCEPT ![p] = @ \ g]
  /\ UNCHANGED <<main, moving, keys, tickets, conns>>
(* minutes pass *)
Idle == Trouble /\ UNCHANGED <<main, moving, keys, mem, calls, tickets, conns>>
Salt(key) == keys' = [keys EXCEPT ![key].cur = @ + 1] /\ Trouble /\ UNCHANGED <<main, moving, mem, calls, tickets, conns>>
BadSalt(key, media) == IF media THEN UNCHANGED vars ELSE
                /\ keys[key].cur # keys[key].told \/ keys[key].pardon
                /\ keys' = [keys EXCEPT ![key].told = keys[key].cur, ![key].pardon = TRUE] \* other frames may be on their way
                /\ UNCHANGED <<main, moving, mem, calls, tickets, trouble, conns>>
Disconnect == /\ calls' = Shake(K) /\ moving' = TRUE /\ Trouble
              /\ UNCHANGED <<main, keys, mem, tickets, conns>>
(* a new process on the same storage: every key and salt is as it was *)
Restart == /\ moving /\ \A k \in K : ~Live(k)
           /\ conns' = {} /\ Trouble /\ UNCHANGED <<main, moving, keys, mem, calls, tickets>>
(* the account is at another data center: the call that was told so is made again there, under a new key *)
Migrate(k, dc) ==
  /\ calls[k].st = "sent" /\ Place(Target(k), calls[k].media) = 0 /\ calls[k].dc = 0 /\ dc # main
  /\ main' = dc /\ moving' = TRUE
  /\ mem' = [mem EXCEPT ![0] = {}]
  /\ conns' = conns \ {0}
  /\ calls' = [Shake(K) EXCEPT ![k].st = "waiting", ![k].shaken = FALSE]
  /\ Trouble /\ UNCHANGED <<keys, tickets>>
Quiet == \A k \in K : ~Live(k)

Next == \/ \E dc \in DCs \cup {0}, media \in BOOLEAN, need \in BOOLEAN : Len(calls) < MaxCalls /\ (media => dc # 0 /\ dc # main) /\ Call(Len(calls) + 1, dc, media, need)
        \/ \E dc \in DCs, media \in BOOLEAN : Len(keys) < MaxKeys /\ Exch(dc, media)
        \/ \E dc \in DCs, media \in BOOLEAN, key \in DOMAIN keys : Up(dc, media, key) \/ \E k \in K : Arrive(k, dc, media, key)
        \/ \E k \in K, w \in {"ok", "unreg", "err"} : Server(k, w, "BAD")
        \/ \E k \in K, r \in {"ok", "err", "conn"} : Settle(k, r, calls[k].why)
        \/ \E k \in K, t \in DOMAIN tickets : Settle(k, "err", tickets[t].why)
        \/ \E dc \in DCs, key \in mem[0] : Len(tickets) < MaxTickets /\ Export(dc, main, key)
        \/ \E t \in DOMAIN tickets, why \in {"", "X"} : Exported(t, why) \/ \E key \in DOMAIN keys : keys[key].dc = tickets[t].dc /\ Imported(t, key, why)
        \/ \E t \in DOMAIN tickets, dc \in DCs, media \in BOOLEAN, key \in DOMAIN keys : Import(t, dc, media, key)
        \/ \E key \in mem[0] : ~keys[key].auth /\ Signed(key)
        \/ /\ trouble < MaxTrouble
           /\ \/ \E key \in DOMAIN keys : keys[key].auth /\ Revoked(key)
              \/ \E dc \in DCs : Loss(dc, FALSE, TRUE) \/ OpenFail(dc, FALSE)
              \/ Disconnect \/ Restart
              \/ \E k \in K, dc \in DCs : Migrate(k, dc)
Spec == Init /\ [][Next]_vars

(* a call that needs the account succeeds only under a key the account was known under at its data center *)
Right == \A k \in K : calls[k].st \in {"sent", "answered"} /\ calls[k].key # 0 => keys[calls[k].key].dc \in {calls[k].dc} \cup (IF calls[k].dc = 0 THEN DCs ELSE {})
OneKey == \A p \in Places : p >= 0 => Cardinality(mem[p]) <= 1
OwnDc == \A p \in Places : \A key \in mem[p] : keys[key].dc = At(p) \/ p = 0
NoFalseSuccess == [][\A k \in K : k \in DOMAIN calls' /\ calls'[k].st = "answered" /\ calls[k].st # "answered" => (calls[k].need => keys[calls[k].key].auth)]_vars
(* an authorization is imported once, where it was exported for *)
Tickets == [][\A t \in DOMAIN tickets : (tickets'[t].dc = tickets[t].dc) /\ (tickets[t].st \in {"used", "done", "bad"} => tickets'[t].st # "given")]_vars
(* keys are kept: a place loses its key only by migration of the main one or a failed set-up *)
Kept == [][\A p \in Places : mem[p] \subseteq mem'[p] \/ (p = 0 /\ main' # main) \/ (trouble' > trouble /\ p # 0)]_vars
=============================================================================
