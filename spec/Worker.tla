------------------------------- MODULE Worker -------------------------------
(* Clients that live in a worker.  The page posts requests to the worker and *)
(* the worker posts answers, updates and questions about failed calls to the *)
(* page; both ways messages arrive in the order they were posted.  Requests  *)
(* are calls ("call"), invocations of API functions ("inv"), which the       *)
(* server answers and the page's error handlers may have repeated,           *)
(* initializations ("init") and disconnections ("dis").                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients, Ready,   \* how many; those already there
          Kinds, MaxReq, MaxUpd, MaxErr,
          Errs,             \* errors of calls
          Handlers,         \* whether the page registered an error handler on each
          On                \* subset of {"Fail", "Get", "Create", "Init", "Throw"}
VARIABLES made, flag,       \* what the page knows of a client; whether it takes it for initialized
          recv, gens,       \* the one in the worker (0 if none); how many there have been
          reqs, qW, qP,     \* requests made; messages on their way to the worker, to the page
          me, hold, nu,     \* the page knows who the client is; updates behind that question; updates sent
          act, out
vars == <<made, flag, recv, gens, reqs, qW, qP, me, hold, nu, act, out>>
View == <<made, flag, recv, gens, reqs, qW, qP, me, hold, nu>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

C == 1..Clients
Init == /\ made = [c \in C |-> IF c \in Ready THEN "yes" ELSE "no"]
        /\ flag = [c \in C |-> c \in Ready]
        /\ recv = [c \in C |-> IF c \in Ready THEN 1 ELSE 0] /\ gens = [c \in C |-> IF c \in Ready THEN 1 ELSE 0]
        /\ reqs = <<>> /\ qW = <<>> /\ qP = <<>>
        /\ me = [c \in C |-> "no"] /\ hold = [c \in C |-> <<>>] /\ nu = 0
        /\ act = [n |-> "Init"] /\ out = <<>>

M(t, k, c, x, n) == [t |-> t, k |-> k, c |-> c, x |-> x, n |-> n]
Req(c, kind) == /\ reqs' = Append(reqs, [c |-> c, kind |-> kind, st |-> "toW", g |-> 0, n |-> 0, e |-> ""])
                /\ qW' = Append(qW, M("req", Len(reqs) + 1, c, kind, 0))
Room == Len(reqs) < MaxReq

(* --- the page --- *)
Create(c) == /\ "Create" \in On /\ act' = [n |-> "Create", c |-> c]
             /\ IF made[c] # "no" THEN out' = << <<"done", 0, "Client already created.">> >> /\ UNCHANGED <<made, flag, reqs, qW>>
                ELSE Room /\ made' = [made EXCEPT ![c] = "making"] /\ flag' = [flag EXCEPT ![c] = TRUE] /\ Req(c, "init") /\ out' = <<>>
             /\ UNCHANGED <<recv, gens, qP, me, hold, nu>>
Get(c) == /\ "Get" \in On /\ made[c] = "no" /\ act' = [n |-> "Get", c |-> c] /\ out' = <<>>
          /\ made' = [made EXCEPT ![c] = "yes"]
          /\ UNCHANGED <<flag, recv, gens, reqs, qW, qP, me, hold, nu>>
Again(c) == /\ "Init" \in On /\ made[c] = "yes" /\ act' = [n |-> "InitAgain", c |-> c]
            /\ IF flag[c] THEN out' = << <<"done", 0, "ok">> >> /\ UNCHANGED <<flag, reqs, qW>>
               ELSE Room /\ flag' = [flag EXCEPT ![c] = TRUE] /\ Req(c, "init") /\ out' = <<>>
            /\ UNCHANGED <<made, recv, gens, qP, me, hold, nu>>
Request(c, kind) == /\ made[c] = "yes" /\ Room
                    /\ act' = [n |-> "Request", c |-> c, kind |-> kind] /\ out' = <<>>
                    /\ Req(c, kind) /\ UNCHANGED <<made, flag, recv, gens, qP, me, hold, nu>>
(* the page's error handler decides *)
Say(k, d) == /\ reqs[k].st = "held" /\ act' = [n |-> "Say", k |-> k, d |-> d] /\ out' = <<>>
             /\ reqs' = [reqs EXCEPT ![k].st = "decided"]
             /\ qW' = Append(qW, M("dec", k, reqs[k].c, d, reqs[k].g))
             /\ UNCHANGED <<made, flag, recv, gens, qP, me, hold, nu>>
(* the worker fails: nothing outstanding will be answered any more *)
Outstanding(k) == reqs[k].st \notin {"done", "failed", "failing"}
RECURSIVE Dones(_)
Dones(k) == IF k > Len(reqs) THEN <<>> ELSE (IF Outstanding(k) THEN << <<"done", k, "the worker failed">> >> ELSE <<>>) \o Dones(k + 1)
(* an initialization that fails leaves no client *)
Unmade == {c \in C : made[c] = "making" /\ \E k \in DOMAIN reqs : reqs[k].c = c /\ reqs[k].kind = "init" /\ Outstanding(k)}
Fail == /\ "Fail" \in On /\ (\A c \in C : me[c] # "asked") /\ (\E k \in DOMAIN reqs : Outstanding(k))
        /\ \A k \in DOMAIN reqs : reqs[k].st \notin {"asking", "held", "decided"}
        /\ act' = [n |-> "Fail"] /\ out' = Dones(1)
        /\ reqs' = [k \in DOMAIN reqs |-> IF Outstanding(k) THEN [reqs[k] EXCEPT !.st = IF @ = "toP" THEN "failed" ELSE "failing", !.n = IF reqs[k].st = "toW" THEN 0 ELSE 1] ELSE reqs[k]]
        /\ made' = [c \in C |-> IF c \in Unmade THEN "no" ELSE made[c]]
        /\ flag' = [c \in C |-> IF \E k \in DOMAIN reqs : reqs[k].c = c /\ reqs[k].kind = "init" /\ Outstanding(k) THEN FALSE ELSE flag[c]]
        /\ UNCHANGED <<recv, gens, qW, qP, me, hold, nu>>

(* --- arriving at the worker --- *)
Reply(k, r) == qP' = Append(qP, M("res", k, reqs[k].c, r, 0))
St(k, s) == IF reqs[k].st \in {"failing", "failed"} THEN reqs[k].st ELSE s
ToW == /\ qW # <<>>
       /\ act' = [n |-> "ToWorker"]
       /\ LET m == Head(qW) c == m.c IN
          /\ qW' = Tail(qW)
          /\ CASE m.t = "me" -> /\ qP' = Append(qP, M("me", 0, c, IF recv[c] = 0 THEN "no" ELSE "yes", 0))
                                /\ out' = <<>> /\ UNCHANGED <<reqs, recv, gens>>
               [] m.t = "dec" -> IF recv[c] # m.n THEN out' = <<>> /\ UNCHANGED <<reqs, recv, gens, qP>>
                                 ELSE IF m.x = "yes" THEN /\ reqs' = [reqs EXCEPT ![m.k].st = St(m.k, "work"), ![m.k].n = @ + 1]
                                                          /\ out' = << <<"sent", m.k>> >> /\ UNCHANGED <<recv, gens, qP>>
                                 ELSE reqs' = [reqs EXCEPT ![m.k].st = St(m.k, "toP")] /\ Reply(m.k, IF m.x = "no" THEN reqs[m.k].e ELSE "thrown by the handler") /\ out' = <<>> /\ UNCHANGED <<recv, gens>>
               [] m.x = "init" -> /\ IF recv[c] # 0 THEN Reply(m.k, "Client already initialized.") /\ UNCHANGED <<recv, gens>>
                                     ELSE /\ gens' = [gens EXCEPT ![c] = @ + 1] /\ recv' = [recv EXCEPT ![c] = gens[c] + 1]
                                          /\ Reply(m.k, "ok")
                                  /\ reqs' = [reqs EXCEPT ![m.k].st = St(m.k, "toP")] /\ out' = <<>>
               [] OTHER -> IF recv[c] = 0 THEN Reply(m.k, "Client not initialized.") /\ reqs' = [reqs EXCEPT ![m.k].st = St(m.k, "toP")] /\ out' = <<>> /\ UNCHANGED <<recv, gens>>
                           ELSE /\ reqs' = [reqs EXCEPT ![m.k].st = St(m.k, "work"), ![m.k].g = recv[c], ![m.k].n = 1]
                                /\ out' = << <<IF m.x = "inv" THEN "sent" ELSE "begun", m.k>> >> /\ UNCHANGED <<qP, recv, gens>>
       /\ UNCHANGED <<made, flag, me, hold, nu>>

(* --- in the worker --- *)
Working(k) == reqs[k].st = "work" \/ (reqs[k].st = "failing" /\ reqs[k].n = 1 /\ ~\E i \in DOMAIN qW : qW[i].k = k)
AfterReply(k) == reqs' = [reqs EXCEPT ![k].st = IF @ = "failing" THEN "failed" ELSE "toP"]
Finish(k, r) == /\ Working(k) /\ reqs[k].kind = "call"
                /\ act' = [n |-> "Finish", k |-> k, r |-> r] /\ out' = <<>>
                /\ Reply(k, r) /\ AfterReply(k)
                /\ UNCHANGED <<made, flag, recv, gens, qW, me, hold, nu>>
Answer(k) == /\ Working(k) /\ reqs[k].kind = "inv" /\ act' = [n |-> "Answer", k |-> k] /\ out' = <<>>
             /\ Reply(k, "ok") /\ AfterReply(k)
             /\ UNCHANGED <<made, flag, recv, gens, qW, me, hold, nu>>
Bad(k, e) == /\ Working(k) /\ reqs[k].st = "work" /\ reqs[k].kind = "inv" /\ reqs[k].n <= MaxErr
             /\ reqs[k].g = recv[reqs[k].c]
             /\ act' = [n |-> "Bad", k |-> k, e |-> e] /\ out' = <<>>
             /\ qP' = Append(qP, M("ask", k, reqs[k].c, e, reqs[k].n))
             /\ reqs' = [reqs EXCEPT ![k].st = "asking", ![k].e = e]
             /\ UNCHANGED <<made, flag, recv, gens, qW, me, hold, nu>>
(* a disconnected client is gone; calls whose failure is still being decided on fail *)
Undecided(g, c) == {k \in DOMAIN reqs : reqs[k].c = c /\ reqs[k].g = g /\ reqs[k].kind = "inv" /\ reqs[k].st \in {"asking", "held", "decided"}}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SetSeq(S \ {x})
Gone(k, r) == /\ Working(k) /\ reqs[k].kind = "dis"
              /\ act' = [n |-> "Gone", k |-> k, r |-> r] /\ out' = <<>>
              /\ LET c == reqs[k].c ends == IF r = "ok" THEN SetSeq(Undecided(reqs[k].g, c)) ELSE <<>>
                     rs == [i \in DOMAIN ends |-> M("res", ends[i], c, reqs[ends[i]].e, 0)]
                     d == <<M("res", k, c, r, 0)>>
                 IN /\ recv' = [recv EXCEPT ![c] = IF r = "ok" /\ @ = reqs[k].g THEN 0 ELSE @]
                    /\ \/ qP' = qP \o d \o rs
                       \/ qP' = qP \o rs \o d
                    /\ reqs' = [j \in DOMAIN reqs |-> IF j = k THEN [reqs[j] EXCEPT !.st = IF @ = "failing" THEN "failed" ELSE "toP"]
                                                      ELSE IF \E i \in DOMAIN ends : ends[i] = j THEN [reqs[j] EXCEPT !.st = "toP"] ELSE reqs[j]]
              /\ UNCHANGED <<made, flag, gens, qW, me, hold, nu>>
Update(c, u) == /\ nu < MaxUpd /\ recv[c] # 0 /\ made[c] = "yes"
                /\ nu' = nu + 1 /\ act' = [n |-> "Update", c |-> c, u |-> u, i |-> nu + 1] /\ out' = <<>>
                /\ qP' = Append(qP, M("upd", nu + 1, c, u, 0))
                /\ UNCHANGED <<made, flag, recv, gens, reqs, qW, me, hold>>

(* --- arriving at the page --- *)
(* updates wait for the client's identity to be known, except those that need none and have nobody before them *)
RECURSIVE Flush(_, _, _)
Flush(h, known, c) == IF h = <<>> THEN [o |-> <<>>, h |-> <<>>]
                      ELSE IF known \/ Head(h).x = "conn" THEN LET r == Flush(Tail(h), known, c) IN [o |-> << <<"update", c, Head(h).k>> >> \o r.o, h |-> r.h]
                      ELSE [o |-> <<>>, h |-> h]
Settle(c, h, known) == LET r == Flush(h, known, c) IN
                       /\ hold' = [hold EXCEPT ![c] = r.h] /\ out' = r.o
                       /\ me' = [me EXCEPT ![c] = IF known THEN "yes" ELSE IF r.h # <<>> THEN "asked" ELSE "no"]
                       /\ qW' = IF r.h # <<>> THEN Append(qW, M("me", 0, c, "", 0)) ELSE qW
ToP == /\ qP # <<>>
       /\ act' = [n |-> "ToPage"]
       /\ LET m == Head(qP) c == m.c IN
          /\ qP' = Tail(qP)
          /\ CASE m.t = "res" -> /\ IF reqs[m.k].st = "toP" /\ ~(\E i \in DOMAIN qP : i > 1 /\ qP[i].t = "res" /\ qP[i].k = m.k)
                                    THEN /\ out' = << <<"done", m.k, m.x>> >>
                                         /\ reqs' = [reqs EXCEPT ![m.k].st = "done", ![m.k].e = ""]
                                         /\ made' = [made EXCEPT ![c] = IF reqs[m.k].kind = "init" /\ @ = "making" THEN (IF m.x = "ok" THEN "yes" ELSE "no") ELSE @]
                                         /\ flag' = [flag EXCEPT ![c] = IF (reqs[m.k].kind = "init" /\ m.x # "ok") \/ (reqs[m.k].kind = "dis" /\ m.x = "ok") THEN FALSE ELSE @]
                                    ELSE out' = <<>> /\ UNCHANGED <<reqs, made, flag>>
                                 /\ UNCHANGED <<qW, me, hold>>
               [] m.t = "ask" -> /\ IF Handlers = 0 THEN /\ qW' = Append(qW, M("dec", m.k, c, "no", reqs[m.k].g))
                                                         /\ reqs' = [reqs EXCEPT ![m.k].st = IF @ = "asking" THEN "decided" ELSE @] /\ out' = <<>>
                                    ELSE /\ out' = << <<"ask", c, m.k, m.x, m.n>> >> /\ UNCHANGED qW
                                         /\ reqs' = [reqs EXCEPT ![m.k].st = IF @ = "asking" THEN "held" ELSE @]
                                 /\ UNCHANGED <<made, flag, me, hold>>
               [] m.t = "upd" -> /\ IF hold[c] # <<>> THEN hold' = [hold EXCEPT ![c] = Append(@, m)] /\ out' = <<>> /\ UNCHANGED <<me, qW>>
                                    ELSE Settle(c, <<m>>, me[c] = "yes")
                                 /\ UNCHANGED <<reqs, made, flag>>
               [] OTHER -> /\ IF m.x = "yes" THEN Settle(c, hold[c], TRUE) ELSE Settle(c, Tail(hold[c]), FALSE) \* an update of nobody is dropped
                           /\ UNCHANGED <<reqs, made, flag>>
       /\ UNCHANGED <<recv, gens, nu>>

Next == \/ \E c \in C : Create(c) \/ Get(c) \/ Again(c) \/ (\E kind \in Kinds : Request(c, kind)) \/ (\E u \in {"conn", "typ"} : Update(c, u))
        \/ \E k \in DOMAIN reqs : (\E d \in {"yes", "no"} \cup (IF "Throw" \in On THEN {"throw"} ELSE {}) : Say(k, d)) \/ (\E r \in Errs \cup {"ok"} : Finish(k, r))
                                  \/ Answer(k) \/ (\E e \in {"BAD", "FLOOD_WAIT_20"} : Bad(k, e)) \/ (\E r \in {"ok", "Connection"} : Gone(k, r))
        \/ Fail \/ ToW \/ ToP
Spec == Init /\ [][Next]_vars
Progress == ToW \/ ToP \/ \E k \in DOMAIN reqs : Answer(k) \/ Finish(k, "ok") \/ Gone(k, "ok") \/ Say(k, "no")
FairSpec == Spec /\ WF_vars(ToW) /\ WF_vars(ToP) /\ \A k \in 1..MaxReq : WF_vars(k \in DOMAIN reqs /\ (Answer(k) \/ Finish(k, "ok") \/ Gone(k, "ok") \/ Say(k, "no")))

(* answered at most once: an answered request is not answered again, and what is settled never changes *)
Once == [][\A k \in DOMAIN reqs : reqs[k].st \in {"done", "failing", "failed"} => reqs'[k].st # "toP" /\ ~\E i \in DOMAIN out' : out'[i][1] = "done" /\ out'[i][2] = k]_vars
(* every request is answered, or fails with the worker *)
Answered == \A k \in 1..MaxReq : (k \in DOMAIN reqs) ~> (k \in DOMAIN reqs /\ reqs[k].st \in {"done", "failing", "failed"})
(* updates of a client come in order *)
Ordered == [][\A c \in C : \A i, j \in DOMAIN out' : i < j /\ out'[i][1] = "update" /\ out'[j][1] = "update" => out'[i][3] < out'[j][3]]_vars
NotAhead == [][\A i \in DOMAIN out' : out'[i][1] = "update" => \A j \in DOMAIN hold'[out'[i][2]] : hold'[out'[i][2]][j].k > out'[i][3]]_vars
=============================================================================
