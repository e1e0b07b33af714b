----------------------------- MODULE Primitives -----------------------------
(* The three concurrency primitives everything else in the client is built   *)
(* on: a FIFO lock, a serial task queue and a restartable, abortable loop.   *)
(* One variable group per primitive; the configuration picks one.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Which,      \* "mutex", "queue" or "loop"
          Clients,    \* number of lock users
          MaxTasks,   \* number of queue tasks
          MaxOps      \* bound on loop operations

VARIABLES wait, holder, stale,          \* lock: waiting users, holder (0 = none), users with a used-up release
          q, running, added, done,      \* queue: waiting tasks, running task, tasks added, completion order
          lst, restart, ops,            \* loop: state, restart request, operations so far
          act, out
vars == <<wait, holder, stale, q, running, added, done, lst, restart, ops, act, out>>
lockVars == <<wait, holder, stale>>
queueVars == <<q, running, added, done>>
loopVars == <<lst, restart, ops>>

View == <<wait, holder, stale, q, running, added, done, lst, restart, ops>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Range(s) == {s[i] : i \in DOMAIN s}

Init == /\ wait = <<>> /\ holder = 0 /\ stale = {}
        /\ q = <<>> /\ running = 0 /\ added = 0 /\ done = <<>>
        /\ lst = "idle" /\ restart = FALSE /\ ops = 0
        /\ act = [n |-> "Init"] /\ out = <<>>

-----------------------------------------------------------------------------
(* Lock *)
Request(c) ==
  /\ holder # c /\ c \notin Range(wait)
  /\ IF holder = 0 THEN holder' = c /\ wait' = wait /\ out' = <<c>>
                   ELSE holder' = holder /\ wait' = Append(wait, c) /\ out' = <<>>
  /\ stale' = stale \ {c}
  /\ act' = [n |-> "Request", c |-> c]
Release(c) ==
  /\ holder = c
  /\ IF wait = <<>> THEN holder' = 0 /\ wait' = wait /\ out' = <<>>
                    ELSE holder' = Head(wait) /\ wait' = Tail(wait) /\ out' = <<Head(wait)>>
  /\ stale' = stale \cup {c}
  /\ act' = [n |-> "Release", c |-> c]
ReleaseAgain(c) == \* calling a used-up release again has no effect
  /\ c \in stale
  /\ act' = [n |-> "ReleaseAgain", c |-> c] /\ out' = <<>>
  /\ UNCHANGED <<wait, holder, stale>>
LockNext == /\ Which = "mutex"
            /\ \E c \in 1..Clients : Request(c) \/ Release(c) \/ ReleaseAgain(c)
            /\ UNCHANGED <<queueVars, loopVars>>

LockInv == /\ (holder = 0) => (wait = <<>>)
           /\ holder \notin Range(wait)
           /\ Cardinality(Range(wait)) = Len(wait)

-----------------------------------------------------------------------------
(* Serial queue *)
Add ==
  /\ added < MaxTasks
  /\ added' = added + 1
  /\ IF running = 0 THEN running' = added + 1 /\ q' = q /\ out' = <<added + 1>>
                    ELSE running' = running /\ q' = Append(q, added + 1) /\ out' = <<>>
  /\ done' = done
  /\ act' = [n |-> "Add"]
Finish(ok) ==
  /\ running # 0
  /\ done' = Append(done, running)
  /\ IF q = <<>> THEN running' = 0 /\ q' = q /\ out' = <<>>
                 ELSE running' = Head(q) /\ q' = Tail(q) /\ out' = <<Head(q)>>
  /\ added' = added
  /\ act' = [n |-> IF ok THEN "Succeed" ELSE "Fail"]
AddAndFinish(ok) == \* the running task adds one before it ends
  /\ running # 0 /\ added < MaxTasks
  /\ added' = added + 1
  /\ done' = Append(done, running)
  /\ LET q2 == Append(q, added + 1) IN running' = Head(q2) /\ q' = Tail(q2) /\ out' = <<Head(q2)>>
  /\ act' = [n |-> IF ok THEN "AddAndSucceed" ELSE "AddAndFail"]
QueueNext == /\ Which = "queue"
             /\ (Add \/ \E ok \in BOOLEAN : Finish(ok) \/ AddAndFinish(ok))
             /\ UNCHANGED <<lockVars, loopVars>>

QueueInv == /\ done = [i \in 1..Len(done) |-> i]                      \* in order, each once
            /\ (q # <<>>) => (running # 0)                            \* never idle with work
            /\ Len(done) + Len(q) + (IF running = 0 THEN 0 ELSE 1) = added

-----------------------------------------------------------------------------
(* Loop.  out: <<iterations started, errors reported, the body's signal is aborted>> *)
Start == /\ ops < MaxOps
         /\ \/ /\ lst = "idle" /\ lst' = "running" /\ restart' = FALSE /\ out' = <<1, 0, FALSE>>
            \/ /\ lst = "running" /\ UNCHANGED <<lst, restart>> /\ out' = <<0, 0, FALSE>>
            \/ /\ lst = "aborting" /\ lst' = lst /\ restart' = TRUE /\ out' = <<0, 0, TRUE>>
         /\ act' = [n |-> "Start"]
Abort == /\ ops < MaxOps
         /\ lst' = IF lst = "idle" THEN "idle" ELSE "aborting"
         /\ restart' = FALSE
         /\ out' = <<0, 0, lst # "idle">>
         /\ act' = [n |-> "Abort"]
EndIter(throws, handlerAborts) ==
  /\ ops < MaxOps
  /\ lst # "idle"
  /\ handlerAborts => throws
  /\ LET err == IF throws /\ lst = "running" THEN 1 ELSE 0
         stop == lst = "aborting" \/ (err = 1 /\ handlerAborts)
         re == restart /\ ~(err = 1 /\ handlerAborts)
     IN /\ lst' = IF ~stop THEN "running" ELSE IF re THEN "running" ELSE "idle"
        /\ restart' = FALSE
        /\ out' = <<IF ~stop \/ re THEN 1 ELSE 0, err, FALSE>>
  /\ act' = [n |-> IF throws THEN "IterThrow" ELSE "IterEnd", h |-> handlerAborts]
LoopNext == /\ Which = "loop"
            /\ (Start \/ Abort \/ EndIter(FALSE, FALSE) \/ EndIter(TRUE, FALSE) \/ EndIter(TRUE, TRUE))
            /\ ops' = ops + 1
            /\ UNCHANGED <<lockVars, queueVars>>
LoopInv == restart => lst = "aborting"

Next == LockNext \/ QueueNext \/ LoopNext
Spec == Init /\ [][Next]_vars
Inv == LockInv /\ QueueInv /\ LoopInv
=============================================================================
