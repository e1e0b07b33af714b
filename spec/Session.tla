------------------------------ MODULE Session -------------------------------
(* An encrypted client session: calls are queued, transmitted one at a time  *)
(* together with pending acknowledgements, answered or refused by the server,*)
(* and survive or fail with the loss of the connection or of the session.    *)
(* Slot 0 is the keep-alive ping; slots 1..N are calls.  Received messages   *)
(* are named by small numbers, reused once their acknowledgement is settled. *)
(* Grain: one action is one stimulus and everything it leads to until the    *)
(* client is quiescent.                                                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N,       \* calls
          K,       \* names for received messages
          NSalt,
          MaxQ,    \* bound on transmissions of one call waiting
          On       \* enabled actions

Slots == 0..N
Calls == 1..N
VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

\* per-step observations
Clean(r) == [r EXCEPT !.tx = <<>>, !.ak = {}, !.s = {}, !.sl = {}, !.u = 0, !.nsx = FALSE, !.txs = {}]

Init == /\ w = [on |-> "up", held |-> FALSE, fly |-> "no", flyc |-> 0, late |-> {}, flyAck |-> {}, q |-> <<>>,
                cs |-> [c \in Slots |-> "idle"], old |-> {}, salt |-> 0, toack |-> {}, ghost |-> {}, lastAck |-> {}, boxc |-> 0, ns |-> TRUE,
                tx |-> <<>>, ak |-> {}, s |-> {}, sl |-> {}, u |-> 0, nsx |-> FALSE, txs |-> {}]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]

IsOn(n) == n \in On
Free == (1..K) \ (w.toack \cup w.lastAck \cup w.flyAck \cup w.ghost)
Fresh == CHOOSE n \in Free : \A m \in Free : n <= m

Track(r, c) ==
  LET hasAck == r.toack # {} IN
  [r EXCEPT !.cs[c] = "sent", !.tx = Append(@, c), !.txs = @ \cup {r.salt}, !.nsx = @ \/ r.ns, !.ns = FALSE,
            !.ak = @ \cup r.toack, !.lastAck = IF hasAck THEN r.toack ELSE @, !.boxc = IF hasAck THEN c ELSE IF @ = c THEN 0 ELSE @,
            !.flyAck = r.toack, !.toack = {}, !.ghost = {}]
RECURSIVE Pump(_)
Pump(r) ==
  IF r.on # "up" \/ r.q = <<>> \/ r.fly # "no" THEN r
  ELSE LET t == Track([r EXCEPT !.q = Tail(@)], Head(r.q)) IN
       IF r.held THEN [t EXCEPT !.fly = "live", !.flyc = Head(r.q)]
       ELSE Pump([t EXCEPT !.flyAck = {}])
Queue(r, c) == [r EXCEPT !.cs[c] = "queued", !.q = Append(@, c)]
Stale(r, c) == [r EXCEPT !.old = @ \cup {c}, !.boxc = IF @ = c THEN 0 ELSE @,
                         !.fly = IF @ = "live" /\ r.flyc = c THEN "zombie" ELSE @, !.flyc = IF r.flyc = c THEN 0 ELSE @]
Settle(r, c, o) == [r EXCEPT !.cs[c] = "idle", !.s = IF c = 0 THEN @ ELSE @ \cup {<<c, o>>}]
RECURSIVE SettleAll(_, _, _)
SettleAll(r, cs, o) == IF cs = {} THEN r ELSE LET c == CHOOSE c \in cs : TRUE IN SettleAll(Settle(r, c, o), cs \ {c}, o)
RECURSIVE SettleAll2(_, _)
SettleAll2(r, ss) == IF ss = {} THEN r ELSE LET x == CHOOSE x \in ss : TRUE IN SettleAll2(Settle(r, x[1], x[2]), ss \ {x})
RECURSIVE QueueSeq(_, _)
QueueSeq(r, s) == IF s = <<>> THEN r ELSE QueueSeq(Queue(r, Head(s)), Tail(s))
RECURSIVE StaleAll(_, _)
StaleAll(r, cs) == IF cs = {} THEN r ELSE LET c == CHOOSE c \in cs : TRUE IN StaleAll(Stale(r, c), cs \ {c})
Refuse(r, c) == Pump(Queue(Stale(r, c), c))
Sent(r) == {c \in Slots : r.cs[c] = "sent"}
Recv(r, n) == [r EXCEPT !.toack = @ \cup {n}]
\* forgets the acknowledgement packet last sent: it may be refused no longer
Forget(r) == [r EXCEPT !.lastAck = {}, !.boxc = 0]

Obs(r) == [tx |-> SortSeq(r.tx, LAMBDA a, b : a < b), ak |-> r.ak, s |-> r.s, sl |-> r.sl, txs |-> r.txs, u |-> r.u, ns |-> r.nsx]
Do(a, r) == /\ act' = a /\ w' = Clean(r) /\ out' = Obs(r)

Up == w.on = "up"
Srv == Up /\ Free # {}

Invoke(c) == /\ IsOn("Invoke") /\ w.cs[c] = "idle" /\ (c = 0 => Up /\ IsOn("Ping"))
             \* while the session is being replaced a new call may be turned away
             /\ \E refuse \in (IF w.on = "off" THEN {TRUE} ELSE IF w.on = "again" THEN {TRUE} ELSE IF w.on = "renew" THEN BOOLEAN ELSE {FALSE}) :
                Do([n |-> "Invoke", c |-> c], IF refuse THEN Settle(w, c, "fail") ELSE Pump(Queue(w, c)))
\* an answer overtaking the completion of its own transmission settles the call at once or with that completion
Late(c) == IF w.fly = "live" /\ w.flyc = c THEN BOOLEAN ELSE {FALSE}
Answered(r, c, o, late) == IF late THEN [Stale(r, c) EXCEPT !.cs[c] = "late", !.late = @ \cup {<<c, o>>}] ELSE Settle(Stale(r, c), c, o)
Result(c, o) == /\ IsOn("Result") /\ Srv /\ w.cs[c] = "sent" /\ (c = 0 => o = "ok")
                /\ \E late \in Late(c) : Do([n |-> "Result", c |-> c, o |-> o, m |-> Fresh], Pump(Recv(Answered(w, c, o, late), Fresh)))
Batch(c, d) == /\ IsOn("Batch") /\ Srv /\ Cardinality(Free) >= 3 /\ c # d /\ w.cs[c] = "sent" /\ w.cs[d] = "sent"
               /\ LET n1 == Fresh n2 == CHOOSE n \in Free \ {n1} : \A m \in Free \ {n1} : n <= m
                      n3 == CHOOSE n \in Free \ {n1, n2} : \A m \in Free \ {n1, n2} : n <= m IN
                  \E lc \in Late(c), ld \in Late(d) :
                  Do([n |-> "Batch", c |-> c, d |-> d, m |-> <<n1, n2, n3>>],
                     Pump([Recv(Recv(Recv(Answered(Answered(w, c, "ok", lc), d, "rpc", ld), n1), n2), n3) EXCEPT !.u = 1]))
ResultOld(c) == /\ IsOn("Old") /\ Srv /\ c \in w.old
                /\ Do([n |-> "ResultOld", c |-> c, cur |-> w.cs[c] = "sent", m |-> Fresh], Recv(w, Fresh))
ResultUnknown == /\ IsOn("Old") /\ Srv /\ Do([n |-> "ResultUnknown", m |-> Fresh], Recv(w, Fresh))
Update == /\ IsOn("Update") /\ Srv /\ Do([n |-> "Update", m |-> Fresh], [Recv(w, Fresh) EXCEPT !.u = 1])
Detailed(k) == /\ IsOn("Detailed") /\ Srv /\ Do([n |-> "Detailed", k |-> k, m |-> Fresh], Recv(w, Fresh))
Salted(r, s) == [r EXCEPT !.salt = s, !.sl = @ \cup {s}]
NewSession(s) == /\ IsOn("NewSession") /\ Srv /\ Do([n |-> "NewSession", s |-> s, m |-> Fresh], Recv(Salted(w, s), Fresh))
BadSalt(c, s) == /\ IsOn("BadSalt") /\ Up /\ w.cs[c] = "sent" /\ Do([n |-> "BadSalt", c |-> c, s |-> s], Refuse(Salted(w, s), c))
BadSaltOld(c, s) == /\ IsOn("BadSalt") /\ Up /\ c \in w.old /\ Do([n |-> "BadSaltOld", c |-> c, cur |-> w.cs[c] = "sent", s |-> s], Salted(w, s))
\* the acknowledgement packet, or the container that carried it, is refused
ReAck(r) == LET back == r.lastAck IN
            [r EXCEPT !.toack = @ \cup back, !.lastAck = {}, !.flyAck = IF @ \subseteq back THEN {} ELSE @]
BadBox(s) == /\ IsOn("BadBox") /\ Up /\ w.lastAck # {} /\ Do([n |-> "BadBox", s |-> s],
                LET r == [ReAck(Salted(w, s)) EXCEPT !.boxc = 0] IN IF w.boxc # 0 THEN Refuse(r, w.boxc) ELSE r)
BoxLow == /\ IsOn("BadBox") /\ IsOn("BadMsg") /\ Up /\ w.lastAck # {} /\ Do([n |-> "BoxLow"],
                LET r == [ReAck(w) EXCEPT !.boxc = 0] IN IF w.boxc # 0 THEN Refuse(r, w.boxc) ELSE r)
BadAck(s) == /\ IsOn("BadBox") /\ Up /\ w.lastAck # {} /\ Do([n |-> "BadAck", s |-> s], ReAck(Salted(w, s)))
BadMsg(c) == /\ IsOn("BadMsg") /\ Up /\ w.cs[c] = "sent" /\ Do([n |-> "BadMsg", c |-> c], Refuse(w, c))  \* codes 16 and 48
\* the server does not know the client yet: the call is introduced and transmitted again
NotInited(c) == /\ IsOn("NotInited") /\ Srv /\ c # 0 /\ w.cs[c] = "sent"
                /\ Do([n |-> "NotInited", c |-> c, m |-> Fresh], Refuse(Recv(w, Fresh), c))
Ignored(k) == /\ IsOn("Ignored") /\ Up /\ Do([n |-> "Ignored", k |-> k], w)

Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
\* the transmission in flight is over: what was answered meanwhile settles
Landed(r) == [SettleAll2(r, r.late) EXCEPT !.late = {}, !.fly = "no", !.flyc = 0, !.flyAck = {}]
\* it is over without success: the acknowledgements it carried are due again
Crashed(r) == [Landed(r) EXCEPT !.toack = @ \cup r.flyAck, !.held = FALSE]
\* the session is lost and replaced: what was transmitted is transmitted anew, the acknowledgements due may carry over
Reborn(r, keep) == [Forget(r) EXCEPT !.salt = 0, !.ns = TRUE, !.ghost = @ \cup r.toack, !.toack = IF keep THEN @ ELSE {}]
\* (what was transmitted in the old session is not referred to in the new one)
Lose(r, keep) == [StaleAll(Reborn(Crashed(r), keep), Sent(r)) EXCEPT !.old = {}]
Invalidate(k) ==
  /\ IsOn("Invalidate") /\ Up
  /\ \E keep \in BOOLEAN, p \in Perms(Sent(w)), lost \in (IF w.fly = "live" THEN BOOLEAN ELSE {FALSE}) :
     LET r4 == QueueSeq([Lose(w, keep) EXCEPT !.q = <<>>], p \o w.q)
         r5 == IF lost THEN Settle([r4 EXCEPT !.q = SelectSeq(@, LAMBDA c : c # w.flyc)], w.flyc, "fail") ELSE r4
     IN Do([n |-> "Invalidate", k |-> k], Pump(r5))
\* everything in progress fails
AllFail(r, keep) == [SettleAll(Lose(r, keep), {c \in Slots : r.cs[c] \in {"queued", "sent"}}, "fail") EXCEPT !.q = <<>>]
InvalidateFail == /\ IsOn("InvalidateFail") /\ Up
                  /\ \E keep \in BOOLEAN : Do([n |-> "InvalidateFail"], [AllFail(w, keep) EXCEPT !.on = "again"])
\* ... in which case it is tried again from time to time
Again(ok) == /\ w.on = "again" /\ Do([n |-> "Again", ok |-> ok], IF ok THEN Pump([w EXCEPT !.on = "up"]) ELSE w)
\* the session is lost, and replaced as soon as a connection is open again
InvalidateSlow == /\ IsOn("InvalidateSlow") /\ Up /\ w.fly = "no"
                  /\ \E keep \in BOOLEAN : Do([n |-> "InvalidateSlow"], [Reborn(Crashed(w), keep) EXCEPT !.on = "renew"])
Renewed == /\ w.on = "renew"
           /\ \E p \in Perms(Sent(w) \cup ToSet(w.q)) :
              Do([n |-> "OpenOk"], Pump(QueueSeq([StaleAll(w, Sent(w)) EXCEPT !.old = {}, !.on = "up", !.q = <<>>], p)))
NotRenewed == /\ w.on = "renew" /\ Do([n |-> "OpenFailed"], [AllFail(w, TRUE) EXCEPT !.on = "again"])
Disconnect == /\ IsOn("Disconnect") /\ w.on # "off"
              /\ \E keep \in BOOLEAN : Do([n |-> "Disconnect"], [AllFail(w, keep) EXCEPT !.on = "off"])
Connect == /\ IsOn("Disconnect") /\ w.on \in {"off", "again"} /\ Do([n |-> "Connect"], Pump([w EXCEPT !.on = "up"]))
Drop == /\ IsOn("Drop") /\ Up
        /\ LET fc == w.flyc
               retry == w.fly = "live"
               r2 == StaleAll(Crashed(w), Sent(w))
               r3 == SettleAll(r2, Sent(w) \ (IF retry THEN {fc} ELSE {}), "fail")
           IN Do([n |-> "Drop"], [Forget(IF retry THEN Queue(r3, fc) ELSE r3) EXCEPT !.on = "lost"])
OpenOk == /\ w.on = "lost"
          /\ \E p \in Perms(ToSet(w.q)) : Do([n |-> "OpenOk"], Pump([w EXCEPT !.on = "up", !.q = p]))
OpenFail == /\ w.on = "lost" /\ Do([n |-> "OpenFail"], w)
Hold == /\ IsOn("Hold") /\ Up /\ ~w.held /\ w.fly = "no" /\ Do([n |-> "Hold"], [w EXCEPT !.held = TRUE])
Release(ok) ==
  /\ IsOn("Hold") /\ w.held
  /\ LET fc == w.flyc
         r0 == [Landed(w) EXCEPT !.held = FALSE]
         r1 == IF ok \/ w.fly = "no" THEN r0
               ELSE LET back == [r0 EXCEPT !.toack = @ \cup w.flyAck, !.lastAck = IF w.flyAck # {} THEN {} ELSE @, !.boxc = IF w.flyAck # {} THEN 0 ELSE @] IN
                    IF w.fly = "live" THEN Queue([back EXCEPT !.old = @ \cup {fc}], fc) ELSE back
     IN Do([n |-> "Release", ok |-> ok], Pump(r1))

Next ==
  \/ \E c \in Slots : \/ Invoke(c)
                      \/ \E o \in {"ok", "rpc"} : Result(c, o)
                      \/ ResultOld(c) \/ BadMsg(c) \/ NotInited(c)
                      \/ \E s \in 1..NSalt : BadSalt(c, s) \/ BadSaltOld(c, s)
  \/ \E c, d \in Calls : Batch(c, d)
  \/ ResultUnknown \/ BoxLow \/ Update \/ InvalidateFail \/ InvalidateSlow \/ Renewed \/ NotRenewed \/ Disconnect \/ Connect \/ Drop \/ OpenOk \/ OpenFail \/ Hold
  \/ \E ok \in BOOLEAN : Release(ok) \/ Again(ok)
  \/ \E k \in 1..2 : Detailed(k)
  \/ \E s \in 1..NSalt : NewSession(s) \/ BadBox(s) \/ BadAck(s)
  \/ \E k \in {"msgkey", "session", "oldsession", "transport"} : Ignored(k)
  \/ \E k \in {"key", "short", "fatal"} : Invalidate(k)

\* properties of the design
\* S02: a call is queued, tracked as transmitted, or settled; nothing waits when the client is up and unheld
NoStuck == /\ (Up /\ ~w.held /\ w.fly = "no" => w.q = <<>>)
           /\ (w.fly = "no" => w.late = {})
           /\ (w.on \in {"off", "again"} => \A c \in Slots : w.cs[c] = "idle")
           /\ \A c \in Slots : (w.cs[c] = "queued") <=> (\E i \in DOMAIN w.q : w.q[i] = c)
           /\ \A i, j \in DOMAIN w.q : i # j => w.q[i] # w.q[j]
           /\ (w.fly = "live" => w.cs[w.flyc] = "sent")
\* S03: a received message is due, in a packet that may still be refused, or nothing
AckSound == w.toack \cap w.lastAck = {} \/ w.lastAck = {}
Inv == NoStuck /\ AckSound
\* S02: a settled call settles once per invocation; S04: no transmission of a call that is neither new nor refused
TxOk == [][\A i \in DOMAIN out'.tx : out'.tx[i] \in Slots /\ (w.cs[out'.tx[i]] # "sent" \/ act'.n \in {"BadSalt", "BadMsg", "NotInited", "BadBox", "BoxLow", "Invalidate", "Release", "OpenOk"})]_vars
=============================================================================
