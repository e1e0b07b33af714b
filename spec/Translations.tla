---------------------------- MODULE Translations ----------------------------
(* The client's copies of the server's translation packs.  A pack is the     *)
(* strings of a platform and a language; the server changes them one at a    *)
(* time, each change making a new version.  The client fetches a whole pack  *)
(* when it has none and differences afterwards, one fetch at a time; the     *)
(* server pushes differences between versions of its choice.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Packs,     \* 1: own platform and language; 2: own platform, another language; 3: another platform
          Keys, Kinds, \* strings of a pack; what a change does: "s", "p" (plain, plural), "d" (deletes)
          Start,     \* versions the server has of each pack at first
          Own,       \* the client has a platform
          MaxChange, MaxReq, MaxPush, MaxErr, MaxReopen
VARIABLES hist,      \* changes of each pack
          st,        \* version stored of each pack (-1: none) plus one
          jobs, busy,\* fetches and differences waiting; the call of the first is with the server
          nreq, push, npush, nerr, nre,
          act, out
vars == <<hist, st, jobs, busy, nreq, push, npush, nerr, nre, act, out>>
View == <<hist, st, jobs, busy, nreq, push, npush, nerr, nre>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

(* what changes up to version v leave of key k *)
RECURSIVE Of(_, _, _)
Of(h, v, k) == IF v = 0 THEN "-" ELSE IF h[v].k = k THEN (IF h[v].c = "d" THEN "-" ELSE h[v].c \o ToString(v)) ELSE Of(h, v - 1, k)
Content(p, v) == [k \in 1..Keys |-> Of(hist[p], v, k)]
Ver(p) == Len(hist[p])
Stored(s) == [p \in 1..Packs |-> IF s[p] = 0 THEN <<>> ELSE <<s[p] - 1, Content(p, s[p] - 1)>>]
O(e, s) == out' = [ev |-> e, st |-> Stored(s)]

Init == /\ hist = [p \in 1..Packs |-> [v \in 1..Start |-> [k |-> ((v - 1) % Keys) + 1, c |-> IF v % 2 = 1 THEN "p" ELSE "s"]]]
        /\ st = [p \in 1..Packs |-> 0] /\ jobs = <<>> /\ busy = FALSE
        /\ nreq = 0 /\ push = 0 /\ npush = 0 /\ nerr = 0 /\ nre = 0
        /\ act = [n |-> "Init"] /\ out = [ev |-> <<>>, st |-> <<>>]

J(t, p, r, from, to) == [t |-> t, p |-> p, r |-> r, from |-> from, to |-> to]
Call(j, s) == IF s[j.p] = 0 THEN <<"call", "pack", j.p, 0>> ELSE <<"call", "diff", j.p, s[j.p] - 1>>

(* Jobs are done until one needs the server.  A result may already be of a version that a later job made. *)
RECURSIVE Run(_, _, _)
Run(q, s, e) == \* [q, s, b, e]: e are the events; results are <<kind, id, pack, version>>
  IF q = <<>> THEN [q |-> q, s |-> s, b |-> FALSE, e |-> e, u |-> FALSE]
  ELSE LET j == Head(q) IN
       IF j.t = "fetch" THEN [q |-> q, s |-> s, b |-> TRUE, e |-> Append(e, Call(j, s)), u |-> FALSE]
       ELSE IF s[j.p] = 0 THEN LET r == Run(Tail(q), s, Append(e, <<"nothing">>)) IN [r EXCEPT !.u = TRUE]
       ELSE IF s[j.p] - 1 = j.from THEN LET s1 == [s EXCEPT ![j.p] = j.to + 1] r == Run(Tail(q), s1, Append(e, <<"res", 0, j.p, j.to>>)) IN [r EXCEPT !.u = TRUE]
       ELSE Run(Append(Tail(q), J("fetch", j.p, 0, 0, 0)), s, e)
Result(e, v) == IF e[1] = "res" THEN <<IF e[2] = 0 THEN "update" ELSE "result", e[2], e[3], Content(e[3], IF e[2] = 0 THEN e[4] ELSE v[e[3]])>> ELSE e
(* versions that results may be of: as of their own job, or as of now *)
Sel(r) == {v \in [1..Packs -> 0..(Start + MaxChange)] : \A p \in 1..Packs :
             \/ r.s[p] > 0 /\ v[p] = r.s[p] - 1
             \/ \E i \in DOMAIN r.e : r.e[i][1] = "res" /\ r.e[i][3] = p /\ v[p] = r.e[i][4]
             \/ r.s[p] = 0 /\ v[p] = 0}
Do(q, s, e) == LET r == Run(q, s, e) IN
               /\ jobs' = r.q /\ st' = r.s /\ busy' = r.b
               /\ \E v \in Sel(r) : O([i \in DOMAIN r.e |-> Result(r.e[i], v)], r.s)
               /\ push' = IF r.u \/ \E i \in DOMAIN r.e : r.e[i][1] \in {"res", "failed"} /\ r.e[i][2] = 0 THEN 0 ELSE push
Add(j) == IF busy THEN jobs' = Append(jobs, j) /\ O(<<>>, st) /\ UNCHANGED <<st, busy>> ELSE Do(<<j>>, st, <<>>)

Change(p, k, c) == /\ Ver(p) < Start + MaxChange /\ (\A q \in 1..Packs : q # p => Ver(q) = Start \/ Packs = 2)
                   /\ hist' = [hist EXCEPT ![p] = Append(@, [k |-> k, c |-> c])]
                   /\ act' = [n |-> "Change", p |-> p, k |-> k, c |-> c]
                   /\ out' = [ev |-> <<>>, st |-> Stored(st)]
                   /\ UNCHANGED <<st, jobs, busy, nreq, push, npush, nerr, nre>>
Get(p) == /\ nreq < MaxReq /\ nreq' = nreq + 1 /\ act' = [n |-> "Get", p |-> p, id |-> nreq + 1]
          /\ IF p # 3 /\ ~Own THEN O(<< <<"failed", nreq + 1>> >>, st) /\ UNCHANGED <<jobs, st, busy, push>>
             ELSE IF st[p] > 0 THEN O(<< <<"result", nreq + 1, p, Content(p, st[p] - 1)>> >>, st) /\ UNCHANGED <<jobs, st, busy, push>>
             ELSE Add(J("fetch", p, nreq + 1, 0, 0)) /\ (IF busy THEN UNCHANGED push ELSE TRUE)
          /\ UNCHANGED <<hist, npush, nerr, nre>>
(* updates are handled one at a time *)
Push(p, from, to) == /\ npush < MaxPush /\ push = 0 /\ from < to /\ to <= Ver(p) /\ npush' = npush + 1
                     /\ act' = [n |-> "Push", p |-> p, from |-> from, to |-> to]
                     /\ IF ~Own \/ p # 1 THEN O(<< <<"nothing">> >>, st) /\ UNCHANGED <<jobs, st, busy, push>>
                        ELSE IF busy THEN Add(J("apply", p, 0, from, to)) /\ push' = 1
                        ELSE LET r == Run(<<J("apply", p, 0, from, to)>>, st, <<>>) IN
                             /\ jobs' = r.q /\ st' = r.s /\ busy' = r.b /\ O([i \in DOMAIN r.e |-> Result(r.e[i], [x \in 1..Packs |-> 0])], r.s)
                             /\ push' = IF r.u THEN 0 ELSE 1
                     /\ UNCHANGED <<hist, nreq, nerr, nre>>
TooLong(p) == /\ npush < MaxPush /\ push = 0 /\ p # 3 /\ npush' = npush + 1 /\ act' = [n |-> "TooLong", p |-> p]
              /\ IF ~Own THEN O(<< <<"nothing">> >>, st) /\ UNCHANGED <<jobs, st, busy, push>>
                 ELSE LET j == J("fetch", p, 0, 0, 0) IN
                      /\ push' = 1
                      /\ IF busy THEN jobs' = Append(jobs, j) /\ O(<<>>, st) /\ UNCHANGED <<st, busy>>
                         ELSE LET r == Run(<<j>>, st, <<>>) IN jobs' = r.q /\ st' = r.s /\ busy' = r.b /\ O(r.e, r.s)
              /\ UNCHANGED <<hist, nreq, nerr, nre>>
(* the server answers with what it has by then *)
Answer == /\ busy /\ act' = [n |-> "Answer"]
          /\ LET j == Head(jobs) s == [st EXCEPT ![j.p] = Ver(j.p) + 1] IN Do(Tail(jobs), s, << <<"res", j.r, j.p, Ver(j.p)>> >>)
          /\ UNCHANGED <<hist, nreq, npush, nerr, nre>>
Error == /\ busy /\ nerr < MaxErr /\ nerr' = nerr + 1 /\ act' = [n |-> "Error"]
         /\ Do(Tail(jobs), st, << <<"failed", Head(jobs).r>> >>)
         /\ UNCHANGED <<hist, nreq, npush, nre>>
Reopen == /\ jobs = <<>> /\ nre < MaxReopen /\ nre' = nre + 1 /\ act' = [n |-> "Reopen"] /\ O(<<>>, st)
          /\ UNCHANGED <<hist, st, jobs, busy, nreq, push, npush, nerr>>
Next == \/ \E p \in 1..Packs : Get(p) \/ TooLong(p) \/ (\E k \in 1..Keys, c \in Kinds : Change(p, k, c)) \/ (p # 3 /\ \E from, to \in 0..(Start + MaxChange) : Push(p, from, to))
        \/ Answer \/ Error \/ Reopen
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Answer)

(* one update at a time; fetching only when something waits; nothing beyond what the server has *)
Inv == /\ (busy <=> jobs # <<>>)
       /\ \A p \in 1..Packs : st[p] <= Ver(p) + 1
       /\ Cardinality({i \in DOMAIN jobs : jobs[i].r = 0}) = push
(* versions never go back *)
Forward == [][\A p \in 1..Packs : st'[p] >= st[p]]_vars
Served == \A i \in 1..MaxReq : (\E j \in DOMAIN jobs : jobs[j].r = i) ~> ~(\E j \in DOMAIN jobs : jobs[j].r = i)
=============================================================================
