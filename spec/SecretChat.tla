----------------------------- MODULE SecretChat -----------------------------
(* A ready secret chat between A (its creator) and B over a network that      *)
(* delays, reorders, repeats and loses messages.  Each side keeps what it     *)
(* sent, waits with messages that come early, asks once for each gap, and     *)
(* both exchange new keys from time to time.  Every message names the number  *)
(* of messages its sender had handled and the key it is encrypted with.       *)
(* Grain: one delivery or one send, with everything it leads to; every        *)
(* request to the server is answered at once, or (On "Fail") every one of     *)
(* the step fails and the network never gets the message.                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxUser,  \* user messages sent, per side
          MaxSent,  \* messages of any kind, per side
          MaxAge,   \* times the keys grow old
          MaxFail, MaxLose,
          Hi,       \* the side whose exchange identifiers are the greater ones
          On
UA == [A |-> 4, B |-> 0]    UB == [A |-> 2, B |-> 2]   UC == [A |-> 2, B |-> 1]  UD == [A |-> 1, B |-> 1]
UE == [A |-> 3, B |-> 1]    UF == [A |-> 0, B |-> 4]   UG == [A |-> 3, B |-> 3]  UH == [A |-> 1, B |-> 2]   UZ == [A |-> 1, B |-> 3]

VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
IsOn(n) == n \in On

P == {"A", "B"}
Other(p) == IF p = "A" THEN "B" ELSE "A"
None == -1        \* no key
\* key 0 was agreed on when the chat was created; the others carry the identifier of their exchange
\* (records read back from a state need not print in the order they were written in, tuples do)
Msg(k, x, y, key, in) == <<k, x, y, key, in>>
Fresh == [key |-> 0, prev |-> None, disc |-> -1, rekey |-> 0, toc |-> 0, aged |-> FALSE, used |-> FALSE, in |-> 0, rin |-> 0, pend |-> {}, gap |-> FALSE, gend |-> -1]
Both(x) == [A |-> x, B |-> x]
Init == /\ w = [c |-> Both(Fresh), sent |-> Both(<<>>), net |-> Both({}), was |-> Both({}), re |-> Both({}), users |-> Both(0), ages |-> 0, nx |-> Both(0), fails |-> 0, loses |-> 0]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]

\* r: one side during a step. c counters, sent its messages, new numbers put on the network, again numbers put there once more, got numbers handled
Begin(p, f) == [p |-> p, c |-> w.c[p], sent |-> w.sent[p], in |-> w.sent[Other(p)], new |-> <<>>, again |-> <<>>, got |-> <<>>, f |-> f, err |-> FALSE, nx |-> w.nx[p]]
Emitted(r, k, x, y, key) ==
  [r EXCEPT !.sent = Append(@, Msg(k, x, y, key, r.c.in)), !.new = Append(@, Len(r.sent)),
            !.c.used = IF r.f THEN @ ELSE @ \/ key = r.c.key, !.err = @ \/ r.f]
Install(c, key, disc) == [c EXCEPT !.prev = c.key, !.disc = disc, !.key = key, !.aged = FALSE, !.used = FALSE]
ExId(p, n) == (IF p = Hi THEN 100 ELSE 0) + n

Start(r) ==
  IF ~(r.c.aged /\ r.c.used) \/ r.c.rekey # 0 \/ r.c.toc # 0 \/ r.c.prev # None THEN r
  ELSE LET x == ExId(r.p, r.nx + 1) IN Emitted([r EXCEPT !.c.rekey = x, !.nx = @ + 1], "req", x, 0, r.c.key)

AccKey(r, x) ==
  IF r.c.rekey # x THEN r
  ELSE LET t == Emitted(r, "com", x, 0, r.c.key) IN [t EXCEPT !.c = [Install(t.c, x, -1) EXCEPT !.rekey = 0]]
ReqKey(r, x) ==
  IF r.c.prev # None \/ r.c.toc # 0 THEN Emitted(r, "abort", x, 0, r.c.key)
  ELSE IF r.c.rekey >= x THEN r
  ELSE Emitted([r EXCEPT !.c.rekey = 0, !.c.toc = x], "acc", x, 0, r.c.key)
ComKey(r, x) ==
  IF r.c.toc # x THEN r ELSE LET t == [r EXCEPT !.c = [Install(r.c, x, -1) EXCEPT !.toc = 0]] IN Emitted(t, "noop", 0, 0, x)
Abort(r, x) == [r EXCEPT !.c.rekey = IF @ = x THEN 0 ELSE @, !.c.toc = IF @ = x THEN 0 ELSE @]
Handle(r, i) ==
  LET m == r.in[i + 1] t == [r EXCEPT !.c.in = @ + 1, !.c.rin = m[5]] IN
  CASE m[1] = "m" -> [t EXCEPT !.got = Append(@, i)]
    [] m[1] = "acc" -> AccKey(t, m[2]) [] m[1] = "req" -> ReqKey(t, m[2]) [] m[1] = "com" -> ComKey(t, m[2]) [] m[1] = "abort" -> Abort(t, m[2])
    [] OTHER -> t
RECURSIVE Drain(_)
Drain(r) == IF r.c.in \in r.c.pend THEN Drain(Handle([r EXCEPT !.c.pend = @ \ {r.c.in}], r.c.in)) ELSE r
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Resend(r, from, to) == IF r.f THEN [r EXCEPT !.err = TRUE] ELSE [r EXCEPT !.again = @ \o [k \in 1..(to - from + 1) |-> from + k - 1]]
Ask(r, i) ==
  IF r.c.gap THEN r
  ELSE LET t == Emitted(r, "r", r.c.in, i - 1, r.c.key) IN IF r.f THEN t ELSE [t EXCEPT !.c.gap = TRUE, !.c.gend = i - 1]
Check(r, i) ==
  IF i < r.c.in THEN r
  ELSE LET m == r.in[i + 1]
           s == IF m[1] = "r" /\ i \notin r.c.pend THEN Resend(r, m[2], m[3]) ELSE r IN
       IF s.err THEN s
       ELSE IF i > s.c.in THEN Ask([s EXCEPT !.c.pend = @ \cup {i}], i)
       ELSE LET t == Drain(Handle(s, i)) IN
            IF t.c.pend = {} THEN [t EXCEPT !.c.gap = FALSE, !.c.gend = -1]
            ELSE IF t.c.in > t.c.gend THEN Ask([t EXCEPT !.c.gap = FALSE], Least(t.c.pend)) ELSE t
Receive(r, i) ==
  LET m == r.in[i + 1] IN
  IF m[4] \notin ({r.c.key, r.c.prev} \cup (IF r.c.toc = 0 THEN {} ELSE {r.c.toc})) THEN r
  ELSE LET pk == r.c.toc # 0 /\ m[4] = r.c.toc
           a == CASE pk -> [r EXCEPT !.c = [Install(r.c, r.c.toc, i) EXCEPT !.toc = 0]]
                  [] ~pk /\ m[4] = r.c.key /\ r.c.prev # None -> [r EXCEPT !.c.disc = i]
                  [] OTHER -> r
           b == Check(a, i) IN
       IF b.err THEN b
       ELSE LET d == IF pk THEN Emitted(b, "noop", 0, 0, b.c.key) ELSE b IN
            IF d.err THEN d
            ELSE Start(IF d.c.disc >= 0 /\ d.c.in > d.c.disc THEN [d EXCEPT !.c.prev = None, !.c.disc = -1] ELSE d)

Set(s) == {s[i] : i \in 1..Len(s)}
\* what a step of p leaves behind; rm: numbers taken off the network towards p
Done(r, rm) ==
  LET q == Other(r.p) put == IF r.f THEN {} ELSE Set(r.new) \cup Set(r.again) IN
  /\ Len(r.sent) <= MaxSent
  /\ w' = [w EXCEPT !.c[r.p] = r.c, !.sent[r.p] = r.sent, !.net[r.p] = @ \ rm, !.net[q] = @ \cup put, !.nx[r.p] = r.nx,
                    !.was[r.p] = IF IsOn("Repeat") THEN @ \cup rm ELSE @,
                    !.re[q] = IF w.loses < MaxLose THEN @ \cup Set(r.again) ELSE @, !.fails = @ + (IF r.f THEN 1 ELSE 0)]
  /\ out' = [new |-> [k \in 1..Len(r.new) |-> LET m == r.sent[r.new[k] + 1] IN [i |-> r.new[k], k |-> m[1], x |-> m[2], y |-> m[3], key |-> m[4], in |-> m[5]]],
             again |-> r.again, got |-> r.got, ended |-> FALSE]
CanFail(f) == f => IsOn("Fail") /\ w.fails < MaxFail

Send(p, f) ==
  /\ w.users[p] < MaxUser[p] /\ CanFail(f)
  /\ LET r == Emitted(Begin(p, f), "m", 0, 0, w.c[p].key) t == IF f THEN r ELSE Start(r) q == Other(p) IN
     /\ Len(t.sent) <= MaxSent
     /\ w' = [w EXCEPT !.c[p] = t.c, !.sent[p] = t.sent, !.net[q] = IF f THEN @ ELSE @ \cup Set(t.new), !.nx[p] = t.nx, !.users[p] = @ + 1, !.fails = @ + (IF f THEN 1 ELSE 0)]
     /\ out' = [new |-> [k \in 1..Len(t.new) |-> LET m == t.sent[t.new[k] + 1] IN [i |-> t.new[k], k |-> m[1], x |-> m[2], y |-> m[3], key |-> m[4], in |-> m[5]]],
                again |-> <<>>, got |-> <<>>, ended |-> FALSE]
  /\ act' = [n |-> "Send", p |-> p, f |-> f]
\* i arrives at p, or arrives again
Deliver(p, i, f) ==
  /\ i \in w.net[p] /\ CanFail(f)
  /\ LET r == Receive(Begin(p, f), i) IN (f => r.err) /\ Done(r, {i})
  /\ act' = [n |-> "Deliver", p |-> p, i |-> i, f |-> f]
Repeat(p, i) ==
  /\ IsOn("Repeat") /\ i \in w.was[p]
  /\ Done(Receive(Begin(p, FALSE), i), {})
  /\ act' = [n |-> "Deliver", p |-> p, i |-> i, f |-> FALSE]
\* a message of the peer that was not asked for again is lost
Lose(p, i) ==
  /\ w.loses < MaxLose /\ i \in w.net[p] /\ i \notin w.re[p]
  /\ w' = [w EXCEPT !.net[p] = @ \ {i}, !.loses = @ + 1] /\ out' = [n |-> 0]
  /\ act' = [n |-> "Lose", p |-> p, i |-> i]
Age == /\ w.ages < MaxAge
       /\ w' = [w EXCEPT !.c = [A |-> [w.c["A"] EXCEPT !.aged = TRUE], B |-> [w.c["B"] EXCEPT !.aged = TRUE]], !.ages = @ + 1] /\ out' = [n |-> 0] /\ act' = [n |-> "Age"]
Restart(p) == IsOn("Restart") /\ UNCHANGED w /\ out' = [n |-> 0] /\ act' = [n |-> "Restart", p |-> p]

Next == \/ \E p \in P, f \in BOOLEAN : Send(p, f)
        \/ \E p \in P, i \in 0..MaxSent, f \in BOOLEAN : Deliver(p, i, f)
        \/ \E p \in P, i \in 0..MaxSent : Repeat(p, i) \/ Lose(p, i)
        \/ \E p \in P : Restart(p)
        \/ Age
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every message that was sent and has not been handled can be read by its receiver whenever it comes
Readable == \A p \in P : LET c == w.c[p] q == Other(p) IN
  \A i \in 1..Len(w.sent[q]) : i - 1 >= c.in => w.sent[q][i][4] \in ({c.key, c.prev} \cup (IF c.toc = 0 THEN {} ELSE {c.toc}))
\* both are on one key, or the one that is behind can follow
Agree == w.c["A"].key = w.c["B"].key \/ \E p \in P : LET c == w.c[p] o == w.c[Other(p)] IN c.key = o.prev /\ (c.toc = o.key \/ o.toc = 0)
\* once everything sent was handled, no exchange is left open and no old key is waited for, and both are on one key
Settled(p) == w.c[p].in = Len(w.sent[Other(p)])
Closed == Settled("A") /\ Settled("B") => /\ w.c["A"].key = w.c["B"].key
                                          /\ \A p \in P : w.c[p].toc = 0 /\ w.c[p].rekey = 0
\* counters fit each other
Fits == \A p \in P : LET c == w.c[p] q == Other(p) IN
  /\ c.in <= Len(w.sent[q]) /\ c.rin <= Len(w.sent[p])
  /\ \A i \in c.pend : i > c.in /\ i < Len(w.sent[q])
  /\ \A i, j \in 1..Len(w.sent[q]) : i < j => w.sent[q][i][5] <= w.sent[q][j][5]
\* when nothing is on the way, no side waits for a message the other could have been asked for, unless its request itself was lost
Quiet == (w.net["A"] = {} /\ w.net["B"] = {} /\ w.fails = 0) => \A p \in P : w.c[p].pend # {} => ~Settled(Other(p)) /\ w.c[Other(p)].pend = {}
\* a request for missing messages goes out only where something is missing, once for each gap
Asked == \A p \in P : LET s == w.sent[p] IN
  /\ \A i \in 1..Len(s) : s[i][1] = "r" => s[i][2] <= s[i][3]
  /\ w.fails = 0 => \A i, j \in 1..Len(s) : i < j /\ s[i][1] = "r" /\ s[j][1] = "r" => s[j][2] > s[i][3]
Inv == Readable /\ Agree /\ Closed /\ Fits /\ Quiet /\ Asked
Forward == [][\A p \in P : w'.c[p].in >= w.c[p].in /\ w'.c[p].rin >= w.c[p].rin]_vars
=============================================================================
