--------------------------- MODULE UpdatesDurable ---------------------------
(* Guaranteed delivery: an update is stored durably before its counter is    *)
(* consumed, and deleted only after its handler has finished.  Box 1 is the  *)
(* account's, whose counter is written at once; box 2 is a channel's, whose  *)
(* counter is written by a later commit.  A crash may happen between any two *)
(* durable writes, and while handlers run.  After a restart the stored       *)
(* updates of a box come first.                                              *)
(* Grain: every durable write, and in some configurations every read of the  *)
(* stored updates, completes in a step of its own.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS N,        \* per box, the number of its updates
          MaxCrash, MaxFail, MaxX,
          MaxSt,    \* bound on stored updates, per box
          On

N3 == <<3, 0>>  N03 == <<0, 3>>  N22 == <<2, 2>>  N2 == <<2, 0>> N02 == <<0, 2>>  N11 == <<1, 1>>
Box == 1..2
IsOn(n) == n \in On

VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

\* c counter, dc its durable value, st stored updates, pq pushed ones, stage of the first pushed one,
\* hq tasks for the handlers: "s" stored ones, "x" one without counter; hs what the first task is at; rd what it has read
\* cm value the commit is writing; ok updates whose handler has finished; k crashes; f failures; x uncounted updates so far
Init == /\ w = [c |-> <<0, 0>>, dc |-> <<0, 0>>, st |-> <<<<>>, <<>>>>, pq |-> <<<<>>, <<>>>>, stage |-> <<"idle", "idle">>, dl |-> <<<<>>, <<>>>>,
                hq |-> <<<<>>, <<>>>>, hs |-> <<"idle", "idle">>, rd |-> <<0, 0>>, cm |-> 0, ok |-> <<{}, {}>>, k |-> 0, f |-> 0, x |-> 0,
                call |-> <<<<>>, <<>>>>]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]

MaxOf(S) == CHOOSE m \in S : \A i \in S : m >= i
Upto(a, b) == [i \in 1..(b - a) |-> a + i]
\* the first pushed update of a box
RECURSIVE RunP(_, _)
RunP(r, b) == IF r.stage[b] # "idle" \/ r.pq[b] = <<>> THEN r
              ELSE IF Head(r.pq[b]) <= r.c[b] THEN RunP([r EXCEPT !.pq[b] = Tail(@)], b)
              ELSE IF Head(r.pq[b]) = r.c[b] + 1 THEN [r EXCEPT !.stage[b] = "store"]
              \* the difference, which the server gives at once
              ELSE [r EXCEPT !.stage[b] = "dstore", !.dl[b] = Upto(r.c[b], MaxOf(ToSet(r.pq[b])))]
Invoke(r, b, i) == [r EXCEPT !.hs[b] = "run1", !.rd[b] = i, !.call[b] = Append(@, i)]
RECURSIVE RunH(_, _)
RunH(r, b) == IF r.hs[b] # "idle" \/ r.hq[b] = <<>> THEN r
              ELSE IF Head(r.hq[b]) = "x" THEN [r EXCEPT !.hs[b] = "x", !.call[b] = Append(@, 0)]
              ELSE IF IsOn("SlowRead") THEN [r EXCEPT !.hs[b] = "read", !.rd[b] = IF r.st[b] = <<>> THEN 0 ELSE Head(r.st[b])]
              ELSE IF r.st[b] = <<>> THEN RunH([r EXCEPT !.hq[b] = Tail(@)], b)
              ELSE Invoke(r, b, Head(r.st[b]))
Task(r, b, t) == RunH([r EXCEPT !.hq[b] = Append(@, t)], b)
Done(r, b) == RunH([r EXCEPT !.hq[b] = Tail(@), !.hs[b] = "idle", !.rd[b] = 0], b)

Pending(r) == {<<"store", b>> : b \in {b \in Box : r.stage[b] \in {"store", "dstore"}}} \cup {<<"state", b>> : b \in {b \in Box : r.stage[b] = "state"}}
              \cup {<<"del", b>> : b \in {b \in Box : r.hs[b] = "del"}} \cup {<<"read", b>> : b \in {b \in Box : r.hs[b] = "read"}}
              \cup (IF r.cm # 0 THEN {<<"commit", 2>>} ELSE {})
Obs(r) == [call |-> r.call, pend |-> [store |-> [b \in Box |-> r.stage[b] \in {"store", "dstore"}], state |-> r.stage[1] \in {"state", "dstate", "estate"}, del |-> [b \in Box |-> r.hs[b] = "del"],
                                      read |-> [b \in Box |-> r.hs[b] = "read"], commit |-> r.cm # 0],
           st |-> r.st, dc |-> r.dc]
Do(a, r) == /\ act' = a /\ w' = [r EXCEPT !.call = <<<<>>, <<>>>>] /\ out' = Obs(r)

Pushed(b) == IF w.pq[b] = <<>> THEN w.c[b] ELSE MaxOf({w.c[b]} \cup ToSet(w.pq[b]))
Push(b, i) == /\ i <= N[b] /\ i >= 1 /\ (i <= Pushed(b) + 1 \/ IsOn("Gap")) /\ (i <= Pushed(b) => IsOn("Again")) /\ Len(w.pq[b]) < 2 /\ Len(w.st[b]) < MaxSt
              /\ Do([n |-> "Push", b |-> b, i |-> i], RunP([w EXCEPT !.pq[b] = Append(@, i)], b))
PushX == /\ w.x < MaxX /\ Do([n |-> "PushX"], Task([w EXCEPT !.x = @ + 1], 1, "x"))
Store(b) == /\ w.stage[b] = "store"
            /\ LET i == Head(w.pq[b]) s == [w EXCEPT !.st[b] = Append(@, i), !.c[b] = i] IN
               Do([n |-> "Let", w |-> "store", b |-> b],
                  IF b = 1 THEN [s EXCEPT !.stage[b] = "state"]
                  ELSE RunP(Task([s EXCEPT !.stage[b] = "idle", !.pq[b] = Tail(@)], b, "s"), b))
\* an update of a difference; the counter is set after the last one
DStore(b) == /\ w.stage[b] = "dstore"
             /\ ~(b = 1 /\ IsOn("Each"))
             /\ LET i == Head(w.dl[b])
                    s == Task([w EXCEPT !.st[b] = Append(@, i), !.dl[b] = Tail(@)], b, "s")
                IN Do([n |-> "Let", w |-> "store", b |-> b],
                      IF Len(w.dl[b]) > 1 THEN s
                      ELSE IF b = 1 THEN [s EXCEPT !.c[b] = i, !.stage[b] = "dstate"]
                      ELSE RunP([s EXCEPT !.c[b] = i, !.stage[b] = "idle"], b))
\* the account's updates that carry their own counters set it one by one, in a difference as well
EStore == /\ w.stage[1] = "dstore" /\ IsOn("Each")
          /\ LET i == Head(w.dl[1]) IN Do([n |-> "Let", w |-> "store", b |-> 1], [w EXCEPT !.st[1] = Append(@, i), !.c[1] = i, !.stage[1] = "estate"])
EState == /\ w.stage[1] = "estate"
          /\ Do([n |-> "Let", w |-> "state", b |-> 1],
                Task([w EXCEPT !.dc[1] = w.c[1], !.dl[1] = Tail(@), !.stage[1] = IF Len(w.dl[1]) > 1 THEN "dstore" ELSE "dstate"], 1, "s"))
DState == /\ w.stage[1] = "dstate" /\ Do([n |-> "Let", w |-> "state", b |-> 1], RunP([w EXCEPT !.dc[1] = w.c[1], !.stage[1] = "idle"], 1))
State == /\ w.stage[1] = "state"
         /\ Do([n |-> "Let", w |-> "state", b |-> 1], RunP(Task([w EXCEPT !.dc[1] = w.c[1], !.stage[1] = "idle", !.pq[1] = Tail(@)], 1, "s"), 1))
Del(b) == w.hs[b] = "del" /\ Do([n |-> "Let", w |-> "del", b |-> b], RunH([w EXCEPT !.st[b] = Tail(@), !.hs[b] = "idle", !.rd[b] = 0], b))
Read(b) == w.hs[b] = "read" /\ Do([n |-> "Let", w |-> "read", b |-> b], IF w.rd[b] = 0 THEN Done(w, b) ELSE Invoke(w, b, w.rd[b]))
Commit == w.cm = 0 /\ w.c[2] # w.dc[2] /\ Do([n |-> "Commit"], [w EXCEPT !.cm = w.c[2]])
Committed == w.cm # 0 /\ Do([n |-> "Let", w |-> "commit", b |-> 2], [w EXCEPT !.dc[2] = w.cm, !.cm = 0])
Finish(b) == \/ w.hs[b] = "x" /\ Do([n |-> "Finish", b |-> b], Done(w, b))
             \/ w.hs[b] \in {"run1", "run2"} /\ Do([n |-> "Finish", b |-> b], [w EXCEPT !.hs[b] = "del", !.ok[b] = @ \cup {w.rd[b]}])
FailH(b) == /\ w.f < MaxFail
            /\ \/ w.hs[b] = "run1" /\ Do([n |-> "FailH", b |-> b], [w EXCEPT !.hs[b] = "run2", !.f = @ + 1, !.call[b] = <<w.rd[b]>>])
               \/ w.hs[b] = "run2" /\ Do([n |-> "FailH", b |-> b], Done([w EXCEPT !.f = @ + 1], b))
Crash == /\ w.k < MaxCrash
         /\ LET r == [w EXCEPT !.c = w.dc, !.pq = <<<<>>, <<>>>>, !.stage = <<"idle", "idle">>, !.dl = <<<<>>, <<>>>>, !.hq = [b \in Box |-> IF w.st[b] = <<>> THEN <<>> ELSE <<"s">>],
                               !.hs = <<"idle", "idle">>, !.rd = <<0, 0>>, !.cm = 0, !.k = @ + 1, !.f = 0]
            IN Do([n |-> "Crash"], RunH(RunH(r, 1), 2))
Next == \/ \E b \in Box : Store(b) \/ DStore(b) \/ Del(b) \/ Read(b) \/ Finish(b) \/ FailH(b) \/ \E i \in 1..3 : Push(b, i)
        \/ PushX \/ State \/ DState \/ EStore \/ EState \/ Commit \/ Committed \/ Crash

\* nothing whose counter is durably consumed is lost
Kept == \A b \in Box : \A i \in 1..w.dc[b] : i \in w.ok[b] \/ i \in ToSet(w.st[b])
\* within a life of the process, handlers see the stored updates from the oldest on
Oldest == \A b \in Box : w.hs[b] \in {"run1", "run2", "del"} => w.st[b] # <<>> /\ w.rd[b] = Head(w.st[b])
\* nobody waits for nothing: a stored update without a task is one that has failed repeatedly, or is yet to be counted
Tasked == \A b \in Box : w.st[b] # <<>> /\ w.hq[b] = <<>> => w.f >= 2 \/ (b = 1 /\ w.stage[1] \in {"state", "estate"} /\ Len(w.st[b]) = 1)
Inv == Kept /\ Oldest /\ Tasked
=============================================================================
