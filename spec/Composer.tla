------------------------------ MODULE Composer ------------------------------
(* Composition of update handlers.  A program is built by registrations on   *)
(* composers (each registration makes a composer that can be registered on   *)
(* in turn); updates are then run through it.  Handlers and conditions are   *)
(* played by the environment: a handler that has been entered is held until  *)
(* the environment makes it ask for the rest (waiting for it or not), join   *)
(* an earlier ask, return or throw; a condition until it is answered.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Regs,     \* kinds of registration: u0 u1 u2 (use), f0 f1 (filter), b (branch)
          MaxReg,   \* number of registrations
          MaxUpd,   \* number of updates
          Together, \* how many of them may be handled at the same time
          MaxAsk,   \* asks per handler
          On        \* subset of {"Throw", "NoWait", "PredThrow", "Me"}

VARIABLES items,    \* per composer, what was registered on it, in order; composer 1 is the root
          nh, np,   \* handlers and conditions made
          regs,     \* registrations made
          upd,      \* updates started
          fr,       \* activations: handlers entered, conditions asked, identities fetched
          ans,      \* per update, the conditions answered
          me,       \* the account's identity is known
          act, out

vars == <<items, nh, np, regs, upd, fr, ans, me, act, out>>
View == <<items, nh, np, regs, upd, fr, ans, me>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Init == /\ items = << <<>> >> /\ nh = 0 /\ np = 0 /\ regs = 0 /\ upd = 0 /\ fr = <<>> /\ ans = <<>> /\ me = FALSE
        /\ act = [n |-> "Init"] /\ out = <<>>

Item(k, x, c, d) == [k |-> k, x |-> x, c |-> c, d |-> d]
H(n, m) == [i \in 1..m |-> Item("h", n + i, 0, 0)]     \* m new handlers after the first n
Active(u) == \E f \in DOMAIN fr : fr[f].u = u /\ fr[f].w # "end"
Busy == \E u \in 1..upd : Active(u)

-----------------------------------------------------------------------------
(* Registration *)
Register(c, k) ==
  /\ ~Busy /\ regs < MaxReg /\ upd < MaxUpd
  /\ LET new == Len(items) + 1
         m == IF k \in {"u0", "f0"} THEN 0 ELSE IF k = "u2" THEN 2 ELSE 1
     IN IF k = "b"
        THEN /\ items' = Append(Append([items EXCEPT ![c] = Append(@, Item("b", np + 1, new, new + 1))], H(nh, 1)), H(nh + 1, 1))
             /\ nh' = nh + 2 /\ np' = np + 1
        ELSE /\ items' = Append([items EXCEPT ![c] = Append(@, Item(IF k \in {"f0", "f1"} THEN "f" ELSE "c", IF k \in {"f0", "f1"} THEN np + 1 ELSE 0, new, 0))], H(nh, m))
             /\ nh' = nh + m
             /\ np' = IF k \in {"f0", "f1"} THEN np + 1 ELSE np
  /\ regs' = regs + 1
  /\ act' = [n |-> "Register", c |-> c, k |-> k] /\ out' = <<>>
  /\ UNCHANGED <<upd, fr, ans, me>>

-----------------------------------------------------------------------------
(* What comes next in a continuation *)
RECURSIVE Step(_)
Step(r) ==
  IF r = <<>> THEN [k |-> "done"]
  ELSE LET i == Head(r) t == Tail(r) IN
       CASE i.k = "h" -> [k |-> "enter", h |-> i.x, rest |-> t]
         [] i.k = "c" -> Step(items[i.c] \o t)
         [] i.k = "f" -> [k |-> "ask", x |-> i.x, yes |-> items[i.c] \o t, no |-> t]
         [] i.k = "b" -> [k |-> "ask", x |-> i.x, yes |-> items[i.c] \o t, no |-> items[i.d] \o t]

Fr(u, h, x, up, rest, no, m) == [u |-> u, h |-> h, x |-> x, up |-> up, w |-> "on", rest |-> rest, no |-> no, k |-> "none", asks |-> 0, m |-> m]

(* An activation's continuation has completed: tell who waits for it. *)
Complete(F, u, up, r) ==
  IF up = 0 THEN [F |-> F, ev |-> << <<"end", u, r>> >>]
  ELSE IF F[up].w = "wait" THEN [F |-> [F EXCEPT ![up].w = "on", ![up].k = r], ev |-> << <<"resume", u, F[up].h, r>> >>]
  ELSE [F |-> [F EXCEPT ![up].k = r], ev |-> <<>>]

Run(F, u, up, rest, m) ==
  LET s == Step(rest) IN
  CASE s.k = "done"  -> Complete(F, u, up, "ok")
    [] s.k = "enter" -> [F |-> Append(F, Fr(u, s.h, 0, up, s.rest, <<>>, m)), ev |-> << <<"enter", u, s.h, m>> >>]
    [] s.k = "ask"   -> [F |-> Append(F, Fr(u, 0, s.x, up, s.yes, s.no, m)), ev |-> << <<"ask", u, s.x>> >>]

Do(r) == fr' = r.F /\ out' = r.ev

Update(plain) == \* a plain update needs no identity
  /\ upd < MaxUpd /\ regs > 0
  /\ Cardinality({u \in 1..upd : Active(u)}) < Together
  /\ ("Me" \notin On) => plain
  /\ upd' = upd + 1 /\ ans' = Append(ans, {})
  /\ IF plain \/ me THEN Do(Run(fr, upd + 1, 0, items[1], me))
     ELSE /\ fr' = Append(fr, Fr(upd + 1, 0, 0, 0, <<>>, <<>>, FALSE)) /\ out' = << <<"me", upd + 1>> >>
  /\ act' = [n |-> "Update", plain |-> plain]
  /\ UNCHANGED <<items, nh, np, regs, me>>

AnswerMe(f, ok) ==
  /\ fr[f].w = "on" /\ fr[f].h = 0 /\ fr[f].x = 0
  /\ LET F == [fr EXCEPT ![f].w = "end"] IN
     Do(IF ok THEN Run(F, fr[f].u, 0, items[1], TRUE) ELSE Complete(F, fr[f].u, 0, "err"))
  /\ me' = (me \/ ok)
  /\ act' = [n |-> "AnswerMe", u |-> fr[f].u, ok |-> ok]
  /\ UNCHANGED <<items, nh, np, regs, upd, ans>>

Forget ==
  /\ "Me" \in On /\ me /\ me' = FALSE
  /\ act' = [n |-> "Forget"] /\ out' = <<>>
  /\ UNCHANGED <<items, nh, np, regs, upd, fr, ans>>

Answer(f, v) ==
  /\ fr[f].w = "on" /\ fr[f].x # 0
  /\ (v = "throw") => "PredThrow" \in On
  /\ LET F == [fr EXCEPT ![f].w = "end"] a == fr[f] IN
     Do(IF v = "throw" THEN Complete(F, a.u, a.up, "err") ELSE Run(F, a.u, a.up, IF v = "yes" THEN a.rest ELSE a.no, a.m))
  /\ ans' = [ans EXCEPT ![fr[f].u] = @ \cup {<<fr[f].x, v>>}]
  /\ act' = [n |-> "Answer", u |-> fr[f].u, x |-> fr[f].x, v |-> v]
  /\ UNCHANGED <<items, nh, np, regs, upd, me>>

Held(f) == fr[f].w = "on" /\ fr[f].h # 0

Ask(f, wait) == \* the handler asks for what follows
  /\ Held(f) /\ fr[f].asks < MaxAsk
  /\ (~wait) => "NoWait" \in On
  /\ LET a == fr[f] F == [fr EXCEPT ![f].asks = @ + 1] IN
     IF a.asks > 0 THEN fr' = F /\ out' = IF wait THEN << <<"resume", a.u, a.h, "ok">> >> ELSE <<>>
     ELSE Do(Run([F EXCEPT ![f].w = IF wait THEN "wait" ELSE "on", ![f].k = "running"], a.u, f, a.rest, a.m))
  /\ act' = [n |-> "Ask", u |-> fr[f].u, h |-> fr[f].h, wait |-> wait]
  /\ UNCHANGED <<items, nh, np, regs, upd, ans, me>>

Join(f) == \* waits for an ask it did not wait for
  /\ "NoWait" \in On
  /\ Held(f) /\ fr[f].k # "none"
  /\ IF fr[f].k = "running" THEN fr' = [fr EXCEPT ![f].w = "wait"] /\ out' = <<>>
     ELSE fr' = fr /\ out' = << <<"resume", fr[f].u, fr[f].h, fr[f].k>> >>
  /\ act' = [n |-> "Join", u |-> fr[f].u, h |-> fr[f].h]
  /\ UNCHANGED <<items, nh, np, regs, upd, ans, me>>

Finish(f, ok) ==
  /\ Held(f)
  /\ (~ok) => "Throw" \in On
  /\ Do(Complete([fr EXCEPT ![f].w = "end"], fr[f].u, fr[f].up, IF ok THEN "ok" ELSE "err"))
  /\ act' = [n |-> IF ok THEN "Return" ELSE "Throw", u |-> fr[f].u, h |-> fr[f].h]
  /\ UNCHANGED <<items, nh, np, regs, upd, ans, me>>

Next == \/ \E c \in DOMAIN items, k \in Regs : Register(c, k)
        \/ \E p \in BOOLEAN : Update(p)
        \/ Forget
        \/ \E f \in DOMAIN fr : \/ \E b \in BOOLEAN : AnswerMe(f, b) \/ Ask(f, b) \/ Finish(f, b)
                                \/ \E v \in {"yes", "no", "throw"} : Answer(f, v)
                                \/ Join(f)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The property, stated over the program as a tree. *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE LET i == Head(s) IN
                (CASE i.k = "h" -> <<i.x>>
                   [] i.k = "b" -> Flat(items[i.c]) \o Flat(items[i.d])
                   [] OTHER -> Flat(items[i.c])) \o Flat(Tail(s))
RECURSIVE Conds(_, _, _) \* the conditions above a handler
Conds(s, h, cs) ==
  IF s = <<>> THEN {}
  ELSE LET i == Head(s) IN
       (CASE i.k = "h" -> IF i.x = h THEN cs ELSE {}
          [] i.k = "c" -> Conds(items[i.c], h, cs)
          [] i.k = "f" -> Conds(items[i.c], h, cs \cup {<<i.x, "yes">>})
          [] i.k = "b" -> Conds(items[i.c], h, cs \cup {<<i.x, "yes">>}) \cup Conds(items[i.d], h, cs \cup {<<i.x, "no">>}))
       \cup Conds(Tail(s), h, cs)

Pos(h) == LET F == Flat(items[1]) IN CHOOSE i \in DOMAIN F : F[i] = h
InOrder == \A f, g \in DOMAIN fr : f < g /\ fr[f].u = fr[g].u /\ fr[f].h # 0 /\ fr[g].h # 0 => Pos(fr[f].h) < Pos(fr[g].h)
Conditions == \A f \in DOMAIN fr : fr[f].h # 0 => Conds(items[1], fr[f].h, {}) \subseteq ans[fr[f].u]
AskedOnce == \A f \in DOMAIN fr : fr[f].up # 0 => fr[fr[f].up].asks > 0 /\ fr[fr[f].up].k # "none"
(* nobody is told that what follows is finished while the activations it waited for are not *)
Nested == \A f \in DOMAIN fr : fr[f].up # 0 /\ fr[f].w # "end" => fr[fr[f].up].k = "running"
Inv == InOrder /\ Conditions /\ AskedOnce /\ Nested
=============================================================================
