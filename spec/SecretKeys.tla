----------------------------- MODULE SecretKeys -----------------------------
(* Key exchanges of a secret chat under messages that take their time: what   *)
(* a side sends waits for what it sent before, with the key that was current  *)
(* when it was given, and a message that comes in is handled to its end       *)
(* before the next one, also when it has to wait for an answer of the server. *)
(* Messages arrive in order (SecretChat has the others); the server may hand  *)
(* one on before it answers its sender.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxUser, MaxSent, MaxAge, Hi
UA == [A |-> 3, B |-> 0]  UB == [A |-> 2, B |-> 1]  UC == [A |-> 1, B |-> 2]  UD == [A |-> 2, B |-> 2]
VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
P == {"A", "B"}
Other(p) == IF p = "A" THEN "B" ELSE "A"
None == -1
Both(x) == [A |-> x, B |-> x]
\* q: <<kind, exchange, key, what follows>>, the first is on its way; h: the update being handled: <<>> or <<its key was the accepted one>>
Fresh == [key |-> 0, prev |-> None, disc |-> -1, rekey |-> 0, toc |-> 0, aged |-> FALSE, used |-> FALSE, in |-> 0, q |-> <<>>, h |-> <<>>]
Init == /\ w = [c |-> Both(Fresh), sent |-> Both(<<>>), users |-> Both(0), ages |-> 0, nx |-> Both(0)]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
\* r: one side during a step; new: messages it put on the network, got: messages of the user it handed out
Begin(p) == [p |-> p, c |-> w.c[p], sent |-> w.sent[p], nx |-> w.nx[p], new |-> <<>>, got |-> <<>>]
Transmit(r) == LET e == r.c.q[1] m == <<e[1], e[2], e[3], r.c.in>> IN [r EXCEPT !.sent = Append(@, m), !.new = Append(@, m)]
Enq(r, k, x, then) == LET t == [r EXCEPT !.c.q = Append(@, <<k, x, r.c.key, then>>)] IN IF r.c.q = <<>> THEN Transmit(t) ELSE t
Install(c, key, disc) == [c EXCEPT !.prev = c.key, !.disc = disc, !.key = key, !.aged = FALSE, !.used = FALSE]
Start(r, then, done(_)) ==
  IF ~(r.c.aged /\ r.c.used) \/ r.c.rekey # 0 \/ r.c.toc # 0 \/ r.c.prev # None THEN done(r)
  ELSE LET x == (IF r.p = Hi THEN 100 ELSE 0) + r.nx + 1 IN Enq([r EXCEPT !.c.rekey = x, !.nx = @ + 1], "req", x, then)
Same(r) == r
Over(r) == [r EXCEPT !.c.h = <<>>]
\* the end of the handling of a message
Close(r) == Start(IF r.c.disc >= 0 /\ r.c.in > r.c.disc THEN [r EXCEPT !.c.prev = None, !.c.disc = -1] ELSE r, "over", Over)
AfterHandle(r) == IF r.c.h[1] THEN Enq(r, "noop", 0, "close") ELSE Close(r)
Handle(r, m, i) ==
  LET t == [r EXCEPT !.c.in = @ + 1] x == m[2] IN
  CASE m[1] = "m" -> AfterHandle([t EXCEPT !.got = Append(@, i)])
    [] m[1] = "acc" -> IF r.c.rekey # x THEN AfterHandle(t) ELSE Enq(t, "com", x, "install")
    [] m[1] = "req" -> IF r.c.prev # None \/ r.c.toc # 0 THEN Enq(t, "abort", x, "after")
                       ELSE IF r.c.rekey >= x THEN AfterHandle(t)
                       ELSE Enq([t EXCEPT !.c.rekey = 0, !.c.toc = x], "acc", x, "after")
    [] m[1] = "com" -> IF r.c.toc # x THEN AfterHandle(t) ELSE Enq([t EXCEPT !.c = [Install(t.c, x, -1) EXCEPT !.toc = 0]], "noop", 0, "after")
    [] m[1] = "abort" -> AfterHandle([t EXCEPT !.c.rekey = IF @ = x THEN 0 ELSE @, !.c.toc = IF @ = x THEN 0 ELSE @])
    [] OTHER -> AfterHandle(t)
Keys(c) == {c.key, c.prev} \cup (IF c.toc = 0 THEN {} ELSE {c.toc})
Receive(r, m, i) ==
  LET pk == r.c.toc # 0 /\ m[3] = r.c.toc
      a == CASE pk -> [r EXCEPT !.c = [Install(r.c, r.c.toc, i) EXCEPT !.toc = 0]]
             [] ~pk /\ m[3] = r.c.key /\ r.c.prev # None -> [r EXCEPT !.c.disc = i]
             [] OTHER -> r IN
  Handle([a EXCEPT !.c.h = <<pk>>], m, i)
Follow(r, x) == CASE x[4] = "user" -> Start(r, "", Same) [] x[4] = "install" -> AfterHandle([r EXCEPT !.c = [Install(r.c, x[2], -1) EXCEPT !.rekey = 0]])
                  [] x[4] = "after" -> AfterHandle(r) [] x[4] = "close" -> Close(r) [] x[4] = "over" -> Over(r) [] OTHER -> r
Done(r, n, a) ==
  /\ Len(r.sent) <= MaxSent
  /\ w' = [w EXCEPT !.c[r.p] = r.c, !.sent[r.p] = r.sent, !.nx[r.p] = r.nx, !.users[r.p] = @ + n]
  /\ act' = a /\ out' = [new |-> r.new, got |-> r.got]
\* the user gives a message
Send(p) == w.users[p] < MaxUser[p] /\ Done(Enq(Begin(p), "m", 0, "user"), 1, [n |-> "Send", p |-> p])
\* the server answers the message that is on its way
Answer(p) ==
  /\ w.c[p].q # <<>>
  /\ LET r == Begin(p) x == r.c.q[1] a == [r EXCEPT !.c.q = Tail(@), !.c.used = @ \/ x[3] = r.c.key]
         b == IF a.c.q = <<>> THEN a ELSE Transmit(a) IN
     Done(Follow(b, x), 0, [n |-> "Answer", p |-> p])
Deliver(p) ==
  /\ w.c[p].h = <<>> /\ w.c[p].in < Len(w.sent[Other(p)])
  /\ LET i == w.c[p].in m == w.sent[Other(p)][i + 1] IN
     Done(IF m[3] \in Keys(w.c[p]) THEN Receive(Begin(p), m, i) ELSE Begin(p), 0, [n |-> "Deliver", p |-> p, i |-> i])
Age == /\ w.ages < MaxAge
       /\ w' = [w EXCEPT !.c = [A |-> [w.c["A"] EXCEPT !.aged = TRUE], B |-> [w.c["B"] EXCEPT !.aged = TRUE]], !.ages = @ + 1] /\ out' = [n |-> 0] /\ act' = [n |-> "Age"]
Next == Age \/ \E p \in P : Send(p) \/ Answer(p) \/ Deliver(p)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every message can be read when its turn comes
Readable == \A p \in P : w.c[p].h = <<>> /\ w.c[p].in < Len(w.sent[Other(p)]) => w.sent[Other(p)][w.c[p].in + 1][3] \in Keys(w.c[p])
Still == \A p \in P : w.c[p].q = <<>> /\ w.c[p].in = Len(w.sent[Other(p)])
\* an exchange ends with both sides on one key and nothing left of it
Closed == Still => /\ w.c["A"].key = w.c["B"].key
                   /\ \A p \in P : w.c[p].toc = 0 /\ w.c[p].rekey = 0 /\ w.c[p].h = <<>>
\* messages leave in the order of their keys: none follows one with a newer key
Ordered == \A p \in P : \A i, j \in 1..Len(w.sent[p]) : i < j /\ w.sent[p][i][3] # w.sent[p][j][3] => w.sent[p][i][3] \notin {w.sent[p][k][3] : k \in j..Len(w.sent[p])}
Inv == Readable /\ Closed /\ Ordered
=============================================================================
