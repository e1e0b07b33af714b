--------------------------- MODULE UpdatesChannel ---------------------------
(* The update counters of channels.  Every channel has its own sequence of   *)
(* numbered events and its own queue in the client, in which pushes, notices *)
(* that too much happened, and the polling of an open chat take turns.  What *)
(* is pushed may be lost, repeated or reordered; an event is handled exactly *)
(* when the channel's counter stands right before it, otherwise the channel's*)
(* difference is asked for.  A channel whose counter is not known takes its  *)
(* first push as the start.  Channels, and the account's own counter, go on  *)
(* independently of each other.                                              *)
(* Grain: one stimulus and everything it leads to until the client waits for *)
(* the server or for time to pass.                                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Kinds,   \* per channel, the kinds of its events: "m" message, "o" other
          Start,   \* per channel, the counter the client starts with, 9 if unknown
          NA,      \* the account's own events
          MaxD,    \* bound on items waiting, per channel
          MaxB,    \* pushes arriving in one burst
          Drop,    \* updates of the time before the start are dropped
          On

None == 9
K1 == <<<<"m", "o", "m", "o">>>>   K2 == <<<<"m", "o", "m">>, <<"o", "m">>>>  K1u == <<<<"m", "o", "m">>>>  Kmo == <<<<"m", "o">>, <<"m", "o">>>>
S0 == <<0>>  S9 == <<None>>  S1 == <<1>>  S00 == <<0, 0>>  S09 == <<0, None>>

Ch == 1..Len(Kinds)
N(k) == Len(Kinds[k])
IsOn(n) == n \in On

VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

\* c counter, f nothing seen yet (when dropping), d waiting items (the head is being worked on while req), hd what the server is known to have produced
\* chat: "closed", "polling" (an item is in d), "resting" (waits for time to pass), "leaving" (closed while polling)
Init == /\ w = [c |-> Start, f |-> [k \in Ch |-> Drop], d |-> [k \in Ch |-> <<>>], req |-> [k \in Ch |-> FALSE], need |-> [k \in Ch |-> 0],
                hd |-> [k \in Ch |-> IF Start[k] = None THEN 0 ELSE Start[k]], chat |-> [k \in Ch |-> "closed"],
                ac |-> 0, aw |-> FALSE, ad |-> <<>>,
                h |-> [k \in Ch |-> <<>>], z |-> [k \in Ch |-> <<>>], rq |-> [k \in Ch |-> <<>>], ha |-> <<>>, ra |-> 0]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
Clean(r) == [r EXCEPT !.h = [k \in Ch |-> <<>>], !.z = [k \in Ch |-> <<>>], !.rq = [k \in Ch |-> <<>>], !.ha = <<>>, !.ra = 0]

Class(k, s, kind) == SelectSeq(s, LAMBDA i : Kinds[k][i] = kind)
Obs(r) == [m |-> [k \in Ch |-> Class(k, r.h[k], "m")], o |-> [k \in Ch |-> Class(k, r.h[k], "o")], z |-> r.z, rq |-> r.rq,
           st |-> [k \in Ch |-> IF r.req[k] THEN -1 ELSE r.c[k]], a |-> r.ha, ra |-> r.ra, open |-> [k \in Ch |-> r.chat[k] \in {"polling", "resting"}]]

Max2(a, b) == IF a > b THEN a ELSE b
Know(r, k) == IF r.c[k] = None THEN 0 ELSE r.c[k]
Ask(r, k) == [r EXCEPT !.req[k] = TRUE, !.need[k] = Max2(r.hd[k], Know(r, k)), !.rq[k] = Append(@, r.c[k])]
RECURSIVE Run(_, _)
Run(r, k) ==
  IF r.req[k] \/ r.d[k] = <<>> THEN r
  ELSE LET h == Head(r.d[k]) t == [r EXCEPT !.d[k] = Tail(@)] IN
       CASE h.k = "p" -> LET g == [t EXCEPT !.f[k] = FALSE] IN
                         IF r.c[k] # None /\ h.i <= r.c[k] THEN Run(g, k)
                         ELSE IF r.c[k] = None \/ r.f[k] \/ h.i = r.c[k] + 1 THEN Run([g EXCEPT !.c[k] = h.i, !.h[k] = Append(@, h.i)], k)
                         ELSE Ask(r, k)
         [] h.k = "z" -> LET g == [t EXCEPT !.f[k] = FALSE] IN \* stands at a counter without moving it
                         IF r.c[k] = None \/ r.f[k] \/ h.i = r.c[k] THEN Run([g EXCEPT !.c[k] = h.i, !.z[k] = Append(@, h.i)], k)
                         ELSE IF h.i < r.c[k] THEN Run(g, k)
                         ELSE Ask(r, k)
         [] h.k = "t" -> Ask(IF Drop /\ h.i # None /\ r.c[k] = None THEN [r EXCEPT !.c[k] = h.i] ELSE r, k)
         [] OTHER -> Ask(r, k)
RECURSIVE RunA(_)
RunA(r) == IF r.aw \/ r.ad = <<>> THEN r
           ELSE LET i == Head(r.ad) t == [r EXCEPT !.ad = Tail(@)] IN
                IF i <= r.ac THEN RunA(t) ELSE IF i = r.ac + 1 THEN RunA([t EXCEPT !.ac = i, !.ha = Append(@, i)]) ELSE [r EXCEPT !.aw = TRUE, !.ra = @ + 1]
RECURSIVE Give(_, _)
Give(r, s) == IF s = <<>> THEN r
              ELSE LET h == Head(s) IN
                   IF h.k = "a" THEN Give([r EXCEPT !.ad = Append(@, h.i)], Tail(s))
                   ELSE Give([r EXCEPT !.d[h.c] = Append(@, h), !.hd[h.c] = IF h.i = None THEN @ ELSE Max2(@, h.i)], Tail(s))
RECURSIVE RunAll(_, _)
RunAll(r, ks) == IF ks = {} THEN r ELSE LET k == CHOOSE k \in ks : TRUE IN RunAll(Run(r, k), ks \ {k})
All(r) == RunA(RunAll(r, Ch))
Do(a, r) == /\ act' = a /\ w' = [Clean(r) EXCEPT !.need = [k \in Ch |-> IF r.req[k] THEN @[k] ELSE 0], !.hd = [k \in Ch |-> Max2(r.hd[k], Know(r, k))]] /\ out' = Obs(r)

Items == (IF IsOn("Zero") THEN {[k |-> "z", c |-> k, i |-> i] : k \in Ch, i \in 0..4} ELSE {}) \cup {[k |-> "p", c |-> k, i |-> i] : k \in Ch, i \in 1..4} \cup {[k |-> "t", c |-> k, i |-> i] : k \in Ch, i \in 1..4 \cup {None}}
Fits(x) == CASE x.k = "a" -> TRUE
             [] x.k \in {"p", "z"} -> x.i <= N(x.c)
             [] OTHER -> IsOn("TooMuch") /\ (x.i # None => x.i <= N(x.c) /\ x.i > Know(w, x.c))
Pushes == {x \in Items : Fits(x)} \cup {[k |-> "a", c |-> 0, i |-> i] : i \in 1..NA}
Room(s) == /\ \A k \in Ch : Len(w.d[k]) + Len(SelectSeq(s, LAMBDA x : x.c = k)) <= MaxD + (IF w.req[k] THEN 0 ELSE 1)
           /\ Len(w.ad) + Len(SelectSeq(s, LAMBDA x : x.k = "a")) <= 2
Push(s) == Room(s) /\ Do([n |-> "Push", s |-> s], All(Give(w, s)))
Open(k) == IsOn("Open") /\ w.chat[k] = "closed" /\ Len(w.d[k]) < MaxD /\ Do([n |-> "Open", c |-> k], All([w EXCEPT !.chat[k] = "polling", !.d[k] = Append(@, [k |-> "o", c |-> k, i |-> None])]))
Close(k) == w.chat[k] \in {"polling", "resting"} /\ Do([n |-> "Close", c |-> k], [w EXCEPT !.chat[k] = IF @ = "resting" THEN "closed" ELSE "leaving"])
Tick(k) == w.chat[k] = "resting" /\ Len(w.d[k]) < MaxD /\ (\A j \in Ch : j # k => w.chat[j] # "resting")
           /\ Do([n |-> "Tick", c |-> k], All([w EXCEPT !.chat[k] = "polling", !.d[k] = Append(@, [k |-> "o", c |-> k, i |-> None])]))

\* the head of the queue goes on after a recovery, or is given up
Polled(r, k, again) == [r EXCEPT !.chat[k] = CASE @ = "leaving" -> "closed" [] @ = "polling" /\ again -> "polling" [] @ = "polling" -> "resting" [] OTHER -> @,
                                 !.d[k] = IF again /\ r.chat[k] = "polling" THEN Append(Tail(@), [k |-> "o", c |-> k, i |-> None]) ELSE Tail(@)]
Resume(r, k) == LET g == [r EXCEPT !.req[k] = FALSE] h == Head(r.d[k]) IN
                CASE h.k = "t" -> [g EXCEPT !.d[k] = Tail(@)] [] h.k = "o" -> Polled(g, k, FALSE) [] OTHER -> g
GiveUp(r, k) == LET g == [r EXCEPT !.req[k] = FALSE] IN IF Head(r.d[k]).k = "o" THEN Polled(g, k, TRUE)
                ELSE [g EXCEPT !.d[k] = Tail(@)]
Upto(a, b) == [i \in 1..(b - a) |-> a + i]
Again(r, k) == [r EXCEPT !.rq[k] = Append(@, r.c[k])]
Next1(r, k, final) == IF final THEN All(Resume(r, k)) ELSE Again(r, k)
Diff(k, x, final) == /\ w.req[k] /\ x >= Know(w, k) /\ (final => x >= w.need[k]) /\ (~final => IsOn("Slice") /\ x > Know(w, k))
                     /\ Do([n |-> "Diff", c |-> k, x |-> x, final |-> final], Next1([w EXCEPT !.h[k] = Upto(Know(w, k), x), !.c[k] = x, !.f[k] = FALSE], k, final))
\* too much is missing: the server gives its counter and the last few messages
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
TooLong(k, x, n, final) == /\ IsOn("TooLong") /\ w.req[k] /\ x > Know(w, k) /\ (final => x >= w.need[k])
                           /\ LET ms == Class(k, Upto(Know(w, k), x), "m") IN
                              /\ n <= Len(ms)
                              /\ Do([n |-> "TooLong", c |-> k, x |-> x, m |-> LastOf(ms, n), final |-> final], Next1([w EXCEPT !.h[k] = LastOf(ms, n), !.c[k] = x, !.f[k] = FALSE], k, final))
Empty(k, x, final) == /\ w.req[k] /\ (IF w.c[k] = None THEN TRUE ELSE x = w.c[k]) /\ (final => x >= w.need[k]) /\ (~final => IsOn("Slice"))
                      /\ Do([n |-> "Empty", c |-> k, x |-> x, final |-> final], Next1([w EXCEPT !.c[k] = x, !.f[k] = FALSE], k, final))
Retry(k) == IsOn("Retry") /\ w.req[k] /\ (\A j \in Ch : w.chat[j] # "resting") /\ Do([n |-> "Retry", c |-> k], Again(w, k))
Fail(k) == IsOn("Fail") /\ w.req[k] /\ Do([n |-> "Fail", c |-> k], All(GiveUp(w, k)))
\* the account's difference; it may hold channels' updates
AFinal(s) == /\ w.aw /\ Room(s) /\ (s # <<>> => IsOn("Within"))
             /\ Do([n |-> "AFinal", s |-> s], All(All(Give([w EXCEPT !.aw = FALSE, !.ac = NA, !.ha = Upto(w.ac, NA)], s))))

Next == \/ \E a \in Pushes : Push(<<a>>)
        \/ MaxB > 1 /\ \E a, b \in Pushes : Push(<<a, b>>)
        \/ \E k \in Ch : \/ Open(k) \/ Close(k) \/ Tick(k) \/ Retry(k) \/ Fail(k)
                         \/ \E x \in 0..N(k) : \E b \in BOOLEAN : Diff(k, x, b) \/ Empty(k, x, b) \/ \E n \in 0..2 : TooLong(k, x, n, b)
        \/ AFinal(<<>>) \/ \E x \in {x \in Pushes : x.k # "a"} : AFinal(<<x>>)

\* properties of the design
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Inv == /\ \A k \in Ch : ~w.req[k] => w.d[k] = <<>>
       /\ \A k \in Ch : w.chat[k] \in {"polling", "leaving"} <=> \E i \in DOMAIN w.d[k] : w.d[k][i].k = "o"
Concerns(k) == CASE act'.n = "Push" -> \E i \in DOMAIN act'.s : act'.s[i].c = k
                 [] act'.n = "AFinal" -> \E i \in DOMAIN act'.s : act'.s[i].c = k
                 [] OTHER -> act'.c = k
Handled == [][\A k \in Ch :
  LET known == w.c[k] # None /\ ~w.f[k]
      h == out'.m[k] \o out'.o[k] IN
  /\ Sorted(out'.m[k]) /\ Sorted(out'.o[k])
  /\ known => w'.c[k] # None /\ w'.c[k] >= w.c[k]
  /\ known /\ ~(act'.n = "TooLong" /\ act'.c = k) => ToSet(h) = (w.c[k] + 1)..w'.c[k]
  /\ act'.n = "TooLong" /\ act'.c = k => ToSet(act'.m) \subseteq ToSet(h) /\ (\A i \in ToSet(h) : i > Know(w, k))
  /\ ToSet(out'.z[k]) \subseteq (IF known THEN w.c[k] ELSE 0)..(IF w'.c[k] = None THEN 0 ELSE w'.c[k])
  /\ ~Concerns(k) => h = <<>> /\ out'.z[k] = <<>> /\ w'.c[k] = w.c[k] /\ w'.d[k] = w.d[k] /\ w'.req[k] = w.req[k]]_vars
=============================================================================
