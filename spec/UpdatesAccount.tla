--------------------------- MODULE UpdatesAccount ---------------------------
(* The account-wide update counters of a client: the message box (pts), the  *)
(* secondary box (qts) and the batch counter (seq).  The server produces     *)
(* numbered events; what it pushes may be lost, repeated or reordered.  The  *)
(* client handles an event exactly when its counter stands right before it,  *)
(* asks for the difference when it does not, and while a difference is being *)
(* fetched lets counted updates wait, since the difference may hold them.    *)
(* Grain: one stimulus and everything it leads to until the client waits for *)
(* the server.                                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS PKind,   \* kinds of message box events: "m" message, "u" message of an unknown user, "o" other
          QKind,   \* kinds of secondary box events: "e" encrypted message, "o" other
          Box,     \* batches: <<pts event or 0, qts event or 0>> each carries, besides an update of its own
          MaxD,    \* bound on updates waiting
          MaxB,    \* pushes arriving in one burst
          On

P == Len(PKind)
Q == Len(QKind)
S == Len(Box)
Pm == <<"m", "o", "m">>         Pm4 == <<"m", "o", "m", "o">>
Pu == <<"m", "u", "o">>         P2 == <<"m", "o">>
Q0 == <<>>                      Q2 == <<"e", "o">>          Q3 == <<"e", "o", "e">>   Q1 == <<"o">>
B0 == <<>>                      B2 == <<<<0, 0>>, <<0, 0>>>>
Bpq == <<<<2, 0>>, <<0, 1>>>>   B3 == <<<<0, 0>>, <<2, 1>>, <<0, 0>>>>

\* consistent states of the server: an event carried by a batch exists exactly when the batch does
Snaps == {x \in (0..P) \X (0..Q) \X (0..S) :
            \A c \in 1..S : /\ Box[c][1] # 0 => (x[1] >= Box[c][1] <=> x[3] >= c)
                            /\ Box[c][2] # 0 => (x[2] >= Box[c][2] <=> x[3] >= c)}
Geq(x, y) == \A i \in 1..3 : x[i] >= y[i]
Sup(x, y) == <<IF x[1] > y[1] THEN x[1] ELSE y[1], IF x[2] > y[2] THEN x[2] ELSE y[2], IF x[3] > y[3] THEN x[3] ELSE y[3]>>
\* the least consistent state reaching x
Close(x) == CHOOSE y \in Snaps : Geq(y, x) /\ \A z \in Snaps : Geq(z, x) => Geq(z, y)

VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
IsOn(n) == n \in On
\* updates that stand at a counter without moving it, among those that wait
Zero == 100

\* c: the client's counters; hd: what the server is known to have produced; req: who waits for a difference, which covers at least need
Init == /\ w = [c |-> <<0, 0, 0>>, hd |-> <<0, 0, 0>>, req |-> "no", need |-> <<0, 0, 0>>, dp |-> <<>>, dq |-> <<>>, dc |-> <<>>, de |-> <<>>,
                hp |-> <<>>, hq |-> <<>>, hs |-> <<>>, hx |-> 0, hz |-> <<>>, rq |-> <<>>]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
Clean(r) == [r EXCEPT !.hp = <<>>, !.hq = <<>>, !.hs = <<>>, !.hx = 0, !.hz = <<>>, !.rq = <<>>]

Class(s, kind, ks) == SelectSeq(s, LAMBDA i : kind[i] \in ks)
\* messages and other updates of one difference are handled one group after the other
Obs(r) == [pm |-> Class(r.hp, PKind, {"m", "u"}), po |-> Class(r.hp, PKind, {"o"}), qe |-> Class(r.hq, QKind, {"e"}), qo |-> Class(r.hq, QKind, {"o"}),
           s |-> r.hs, x |-> r.hx, z |-> r.hz, rq |-> r.rq, st |-> IF r.req = "no" THEN r.c ELSE <<>>]

Upto(a, b) == [i \in 1..(b - a) |-> a + i]
Ask(r, own) == [r EXCEPT !.req = own, !.need = Sup(r.hd, r.c), !.rq = Append(@, <<r.c[1], r.c[2]>>)]
\* pushes that need no counter of their own are passed on at once
RECURSIVE Pass(_)
Pass(r) ==
  IF r.dc = <<>> THEN r
  ELSE LET h == Head(r.dc) t == [r EXCEPT !.dc = Tail(@)] IN
       CASE h.k = "p" -> Pass([t EXCEPT !.dp = Append(@, h.i)])
         [] h.k = "z" -> Pass([t EXCEPT !.dp = Append(@, Zero + h.i)])
         [] h.k = "q" -> Pass([t EXCEPT !.dq = Append(@, h.i)])
         [] h.k = "c" -> Pass([t EXCEPT !.dp = Append(@, h.i), !.dq = Append(@, h.j)])
         [] h.k = "x" -> Pass([t EXCEPT !.hx = @ + 1])
         [] OTHER -> r
StepP(r) == IF r.dp = <<>> THEN {}
            ELSE LET i == Head(r.dp) t == [r EXCEPT !.dp = Tail(@)] IN
                 IF i >= Zero THEN IF i - Zero < r.c[1] THEN {t} ELSE IF i - Zero = r.c[1] THEN {[t EXCEPT !.hz = Append(@, i - Zero)]} ELSE {Ask(r, "p")}
                 ELSE IF i <= r.c[1] THEN {t}
                 ELSE IF i = r.c[1] + 1 /\ PKind[i] # "u" THEN {[t EXCEPT !.c[1] = i, !.hp = Append(@, i)]}
                 ELSE {Ask(r, "p")}
StepQ(r) == IF r.dq = <<>> THEN {}
            ELSE LET i == Head(r.dq) t == [r EXCEPT !.dq = Tail(@)] IN
                 IF i <= r.c[2] THEN {t} ELSE IF i = r.c[2] + 1 THEN {[t EXCEPT !.c[2] = i, !.hq = Append(@, i)]} ELSE {Ask(r, "q")}
StepC(r) == IF r.dc = <<>> THEN {}
            ELSE LET h == Head(r.dc) t == [r EXCEPT !.dc = Tail(@)] IN
                 CASE h.k = "s" -> IF h.i <= r.c[3] THEN {t}
                                   ELSE IF h.i = r.c[3] + 1
                                        THEN {[t EXCEPT !.c[3] = h.i, !.hs = Append(@, h.i), !.dp = IF Box[h.i][1] = 0 THEN @ ELSE Append(@, Box[h.i][1]),
                                                        !.dq = IF Box[h.i][2] = 0 THEN @ ELSE Append(@, Box[h.i][2])]}
                                        ELSE {Ask(r, "c")}
                   [] h.k = "t" -> {Ask(r, "c")} \cup (IF h.r THEN {t} ELSE {})
                   [] h.k = "r" -> IF r.dp = <<>> /\ r.dq = <<>> THEN {[t EXCEPT !.c = h.to, !.hd = Sup(h.to, @)]} ELSE {}
                   [] OTHER -> {}
StepE(r) == IF r.de = <<>> THEN {} ELSE {Ask(r, "e")} \cup (IF Head(r.de) THEN {[r EXCEPT !.de = Tail(@)]} ELSE {})
RECURSIVE Run(_)
Run(r0) == LET r == Pass(r0) IN
           IF r.req # "no" THEN {r}
           ELSE LET n == StepP(r) \cup StepQ(r) \cup StepC(r) \cup StepE(r) IN
                IF n = {} THEN {r} ELSE UNION {Run(x) : x \in n}
Do(a, rs) == \E r \in rs : /\ act' = a /\ w' = [Clean(r) EXCEPT !.hd = Sup(@, r.c), !.need = IF r.req = "no" THEN <<0, 0, 0>> ELSE @] /\ out' = Obs(r)

Reach(h) == CASE h.k \in {"p", "z"} -> <<h.i, 0, 0>> [] h.k = "q" -> <<0, h.i, 0>> [] h.k = "s" -> <<0, 0, h.i>>
              [] h.k = "c" -> <<h.i, h.j, 0>> [] OTHER -> <<0, 0, 0>>
\* events that come in a batch come only in that batch
InBox(k, i) == \E c \in 1..S : Box[c][k] = i
Items == {[k |-> "p", i |-> i] : i \in {i \in 1..P : ~InBox(1, i)}} \cup {[k |-> "q", i |-> i] : i \in {i \in 1..Q : ~InBox(2, i)}}
         \cup {[k |-> "s", i |-> i] : i \in 1..S}
         \cup (IF IsOn("Both") THEN {[k |-> "c", i |-> i, j |-> j] : i \in {i \in 1..P : ~InBox(1, i)}, j \in {i \in 1..Q : ~InBox(2, i)}} ELSE {})
         \cup (IF IsOn("Zero") THEN {[k |-> "z", i |-> i] : i \in {i \in 0..P : ~InBox(1, i)}} ELSE {})
         \cup (IF IsOn("Plain") THEN {[k |-> "x"]} ELSE {})
         \cup (IF IsOn("TooLong") THEN {[k |-> "t", r |-> FALSE]} ELSE {})
Waiting(r) == Len(r.dp) + Len(r.dq) + Len(r.dc) + Len(r.de)
RECURSIVE SupAll(_, _)
SupAll(x, s) == IF s = <<>> THEN x ELSE SupAll(Sup(x, Reach(Head(s))), Tail(s))
Push(s) == /\ Waiting(w) + Len(s) <= MaxD + (IF w.req = "no" THEN 1 ELSE 0)
           /\ Do([n |-> "Push", s |-> s], Run([w EXCEPT !.dc = @ \o s, !.hd = Close(SupAll(@, s))]))
Reset(to) == /\ IsOn("Reset") /\ Waiting(w) < MaxD /\ Geq(to, w.hd) /\ to # w.c
             /\ \A i \in DOMAIN w.dc : w.dc[i].k # "r"
             /\ (w.req # "no" => to = <<P, Q, S>>)
             /\ Do([n |-> "Reset", to |-> to], Run([w EXCEPT !.dc = Append(@, [k |-> "r", to |-> to])]))
Recover == /\ IsOn("Recover") /\ Waiting(w) < MaxD /\ Do([n |-> "Recover"], Run([w EXCEPT !.de = Append(@, FALSE)]))

\* whoever asked goes on
Resume(r) == CASE r.req = "c" /\ Head(r.dc).k = "t" -> [r EXCEPT !.dc = Tail(@)] [] r.req = "e" -> [r EXCEPT !.de = Tail(@)] [] OTHER -> r
Drop(r) == CASE r.req = "p" -> [r EXCEPT !.dp = Tail(@)] [] r.req = "q" -> [r EXCEPT !.dq = Tail(@)] [] r.req = "c" -> [r EXCEPT !.dc = Tail(@)] [] OTHER -> [r EXCEPT !.de = Tail(@)]
Fresh(r) == [r EXCEPT !.dc = [i \in DOMAIN @ |-> IF @[i].k = "t" THEN [@[i] EXCEPT !.r = TRUE] ELSE @[i]], !.de = [i \in DOMAIN @ |-> TRUE]]
Take(r, x) == [r EXCEPT !.c = x, !.hp = @ \o Upto(r.c[1], x[1]), !.hq = @ \o Upto(r.c[2], x[2])]
Waits == w.req # "no"
Final(x) == /\ Waits /\ Geq(x, w.need) /\ Geq(x, w.c)
            /\ Do([n |-> "Final", x |-> x], Run([Fresh(Resume(Take(w, x))) EXCEPT !.req = "no"]))
\* nothing new but batches that held nothing counted
Empty(n) == /\ Waits /\ <<w.c[1], w.c[2], n>> \in Snaps /\ Geq(<<w.c[1], w.c[2], n>>, w.need) /\ n >= w.c[3]
            /\ Do([n |-> "Empty", s |-> n], Run([Fresh(Resume(w)) EXCEPT !.req = "no", !.c[3] = n]))
Again(r) == [r EXCEPT !.rq = Append(@, <<r.c[1], r.c[2]>>)]
Slice(x) == /\ IsOn("Slice") /\ Waits /\ Geq(x, w.c) /\ x # w.c /\ Do([n |-> "Slice", x |-> x], {Again(Take(w, x))})
Skip(p) == /\ IsOn("Skip") /\ Waits /\ p > w.c[1]
           /\ LET x == Close(<<p, 0, 0>>) IN x[1] = p
           /\ Do([n |-> "Skip", p |-> p], {Again([w EXCEPT !.c[1] = p, !.need = Close(Sup(@, <<p, 0, 0>>)), !.hd = Close(Sup(@, <<p, 0, 0>>))])})
Retry == /\ IsOn("Retry") /\ Waits /\ Do([n |-> "Retry"], {Again(w)})
Fail == /\ IsOn("Fail") /\ Waits /\ Do([n |-> "Fail"], Run([Drop(w) EXCEPT !.req = "no"]))

Next == \/ \E a \in Items : Push(<<a>>)
        \/ MaxB > 1 /\ \E a, b \in Items : Push(<<a, b>>)
        \/ Recover \/ Retry \/ Fail
        \/ \E x \in Snaps : Final(x) \/ Slice(x) \/ Reset(x)
        \/ \E p \in 1..P : Skip(p)
        \/ \E n \in 0..S : Empty(n)

\* properties of the design
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NoWait == w.req = "no" => w.dp = <<>> /\ w.dq = <<>> /\ w.dc = <<>> /\ w.de = <<>>
Inv == NoWait
\* counters never move backwards; whatever a counter passes is handled in order, once, unless the server itself skips it
Jump == act'.n \in {"Skip", "Reset"} \/ \E i \in DOMAIN w.dc : w.dc[i].k = "r"
Handled == [][/\ Geq(w'.c, w.c)
              /\ (~Jump => \A i \in ToSet(out'.z) : i \in w.c[1]..w'.c[1])
              /\ Sorted(out'.pm) /\ Sorted(out'.po) /\ Sorted(out'.qe) /\ Sorted(out'.qo) /\ Sorted(out'.s)
              /\ (~Jump => ToSet(out'.pm) \cup ToSet(out'.po) = (w.c[1] + 1)..w'.c[1] /\ ToSet(out'.qe) \cup ToSet(out'.qo) = (w.c[2] + 1)..w'.c[2])]_vars
=============================================================================
