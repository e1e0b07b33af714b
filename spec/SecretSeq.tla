------------------------------ MODULE SecretSeq ------------------------------
(* One side of a secret chat facing a peer that holds the right key but may   *)
(* put any sequence numbers on its messages.  Numbers that cannot come from a *)
(* correct peer end the chat: an out number of the wrong parity or below      *)
(* zero, an in number of the wrong parity, beyond what was sent or below one  *)
(* of an earlier message, a resend range outside of what was sent.            *)
(* Grain: one message received or sent.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Creator,  \* whether this side created the chat
          Lo, Up,   \* raw numbers the peer tries
          MaxOut, MaxIn, On
M1 == -1   M3 == -3
VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
IsOn(n) == n \in On
Mine == IF Creator THEN 1 ELSE 0      \* parity of this side's out numbers
Peers == 1 - Mine
\* numbers of complete messages behind raw sequence numbers; -1 for raw numbers nothing has
Idx(raw, par) == IF raw >= 0 /\ raw % 2 = par THEN (raw - par) \div 2 ELSE -1
Init == /\ w = [up |-> TRUE, in |-> 0, rin |-> 0, sent |-> 0, pend |-> {}, gap |-> FALSE, gend |-> -1]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
Begin == [c |-> w, new |-> <<>>, again |-> <<>>, got |-> <<>>]
End(r) == [r EXCEPT !.c.up = FALSE]
Sends(r, k, x, y) == [r EXCEPT !.new = Append(@, <<r.c.sent, k, x, y, r.c.in>>), !.c.sent = @ + 1]
At(c, i) == {m \in c.pend : m[1] = i}
\* messages are <<number, in number, kind>>
RECURSIVE Handle(_, _)
Handle(r, m) ==
  IF m[2] < r.c.rin THEN End(r)
  ELSE LET t == [r EXCEPT !.c.rin = m[2], !.c.in = @ + 1, !.got = IF m[3] = "m" THEN Append(@, m[1]) ELSE @] nx == At(t.c, t.c.in) IN
       IF nx = {} THEN t ELSE LET n == CHOOSE x \in nx : TRUE IN Handle([t EXCEPT !.c.pend = @ \ {n}], n)
Ask(r, i) == IF r.c.gap THEN r ELSE [Sends(r, "r", r.c.in, i - 1) EXCEPT !.c.gap = TRUE, !.c.gend = i - 1]
Least(S) == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
Receive(r, m, s, e) ==
  IF m[1] = -1 \/ m[2] = -1 \/ m[2] > r.c.sent THEN End(r)
  ELSE IF m[1] < r.c.in THEN r
  ELSE LET fresh == At(r.c, m[1]) = {} IN
       IF m[3] = "r" /\ fresh /\ (s = -1 \/ e = -1 \/ e < s \/ e >= r.c.sent) THEN End(r)
       ELSE LET t == IF m[3] = "r" /\ fresh THEN [r EXCEPT !.again = [k \in 1..(e - s + 1) |-> s + k - 1]] ELSE r IN
            IF m[1] > t.c.in THEN Ask([t EXCEPT !.c.pend = IF fresh THEN @ \cup {m} ELSE @], m[1])
            ELSE LET h == Handle([t EXCEPT !.c.pend = @ \ At(t.c, m[1])], m) IN
                 IF ~h.c.up THEN h
                 ELSE IF h.c.pend = {} THEN [h EXCEPT !.c.gap = FALSE, !.c.gend = -1]
                 ELSE IF h.c.in > h.c.gend THEN Ask([h EXCEPT !.c.gap = FALSE], Least(h.c.pend)[1]) ELSE h
Gone(c) == IF c.up THEN c ELSE [up |-> FALSE, in |-> 0, rin |-> 0, sent |-> c.sent, pend |-> {}, gap |-> FALSE, gend |-> -1]
Do(r) == /\ r.c.sent <= MaxOut /\ r.c.in <= MaxIn
         /\ w' = Gone(r.c) /\ out' = [new |-> r.new, again |-> r.again, got |-> r.got, ended |-> ~r.c.up, ok |-> TRUE]
Say(o, i) == /\ (w.up \/ o = Lo)
             /\ Do(IF w.up THEN Receive(Begin, <<Idx(o, Peers), Idx(i, Mine), "m">>, -1, -1) ELSE Begin)
             /\ act' = [n |-> "Say", o |-> o, i |-> i]
AskFor(o, s, e) == /\ w.up
                   /\ Do(Receive(Begin, <<Idx(o, Peers), w.sent, "r">>, Idx(s, Mine), Idx(e, Mine)))
                   /\ act' = [n |-> "AskFor", o |-> o, i |-> 2 * w.sent + Mine, s |-> s, e |-> e]
Send == /\ IF w.up THEN w.sent < MaxOut /\ w' = [w EXCEPT !.sent = @ + 1] ELSE UNCHANGED w
        /\ out' = [new |-> IF w.up THEN <<<<w.sent, "m", 0, 0, w.in>>>> ELSE <<>>, again |-> <<>>, got |-> <<>>, ended |-> ~w.up, ok |-> w.up]
        /\ act' = [n |-> "Send"]
Restart == IsOn("Restart") /\ UNCHANGED w /\ out' = [n |-> 0] /\ act' = [n |-> "Restart"]
Next == \/ \E o \in Lo..Up, i \in Lo..Up : Say(o, i)
        \/ \E o \in {2 * w.in + Peers, 2 * w.in + 2 + Peers}, s, e \in Lo..Up : IsOn("AskFor") /\ AskFor(o, s, e)
        \/ Send \/ Restart
Spec == Init /\ [][Next]_vars
Inv == /\ w.rin <= w.sent
       /\ \A m \in w.pend : m[1] > w.in /\ m[2] <= w.sent
       /\ \A m, n \in w.pend : m[1] = n[1] => m = n
       /\ ~w.up => w.pend = {}
\* once ended, nothing is handled, sent or sent again
Dead == [][~w.up => ~w'.up]_vars
=============================================================================
