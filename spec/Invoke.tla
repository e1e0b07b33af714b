------------------------------- MODULE Invoke -------------------------------
(* Calls of several clients in one process, the errors they meet, and the    *)
(* error handlers registered on each client.  A failed call consults its own *)
(* client's handlers in the order they were registered, each of which says   *)
(* yes, no, or asks the next one (and may then turn its answer around).      *)
(* With the default handler in front, a flood wait of at most ten seconds is *)
(* waited out.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients,   (* how many *)
          Default,   (* those with the default handler *)
          MaxH,      (* handlers registered by the user *)
          MaxCalls, MaxErr, Errors,
          Dcs, Calls0 (* whether calls may begin before handlers: bounds only *)
VARIABLES hs, nh, calls, act, out
vars == <<hs, nh, calls, act, out>>
View == <<hs, nh, calls>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Flood(e) == CASE e = "FLOOD_WAIT_0" -> 0 [] e = "FLOOD_WAIT_1" -> 1 [] e = "FLOOD_WAIT_3" -> 3 [] e = "FLOOD_WAIT_10" -> 10 [] e = "FLOOD_WAIT_11" -> 11 [] e = "FLOOD_WAIT_86400" -> 86400 [] OTHER -> 99999
None == [at |-> 0, n |-> 0, e |-> "", stack |-> <<>>, wait |-> 0]
(* phases: sent, asking, waiting, done *)
Call(c, dc) == [c |-> c, dc |-> dc, phase |-> "sent", n |-> 1] @@ None

Init == hs = [c \in 1..Clients |-> <<>>] /\ nh = 0 /\ calls = <<>> /\ act = [n |-> "Init"] /\ out = <<>>

Busy(c) == \E k \in DOMAIN calls : calls[k].c = c /\ calls[k].phase \in {"asking", "waiting"}
Use(c) == /\ nh < MaxH /\ ~Busy(c)
          /\ nh' = nh + 1
          /\ hs' = [hs EXCEPT ![c] = Append(@, nh + 1)]
          /\ act' = [n |-> "Use", c |-> c] /\ out' = <<>>
          /\ UNCHANGED calls
Invoke(c, dc) == /\ Len(calls) < MaxCalls
                 /\ Calls0 \/ nh > 0
                 /\ calls' = Append(calls, Call(c, dc))
                 /\ act' = [n |-> "Invoke", c |-> c, dc |-> dc]
                 /\ out' = << <<"sent", Len(calls) + 1, c, dc>> >>
                 /\ UNCHANGED <<hs, nh>>
Sent(k) == calls[k].phase = "sent"
Done(v) == [phase |-> "done", n |-> 0, c |-> v.c, dc |-> v.dc] @@ None
Finish(k) == calls' = [calls EXCEPT ![k] = Done(@)]
Answer(k) == /\ Sent(k) /\ Finish(k)
             /\ act' = [n |-> "Answer", k |-> k] /\ out' = << <<"done", k, "ok">> >>
             /\ UNCHANGED <<hs, nh>>

Resent(k) == << <<"sent", k, calls[k].c, calls[k].dc>> >>
(* the chain settles with v: those who asked the next one may turn it around *)
RECURSIVE Fold(_, _)
Fold(stack, v) == IF stack = <<>> THEN v ELSE Fold(SubSeq(stack, 1, Len(stack) - 1), IF stack[Len(stack)] = "turn" THEN ~v ELSE v)
Decide(k, v, e) == IF v THEN /\ calls' = [calls EXCEPT ![k] = [c |-> @.c, dc |-> @.dc, phase |-> "sent", n |-> @.n + 1] @@ None]
                             /\ out' = Resent(k)
                   ELSE Finish(k) /\ out' = << <<"done", k, e>> >>
(* consult handler i of the call's client *)
Consult(k, i, e, stack) ==
  LET c == calls[k].c IN
  IF i > Len(hs[c]) THEN Decide(k, Fold(stack, FALSE), e)
  ELSE /\ calls' = [calls EXCEPT ![k] = [@ EXCEPT !.phase = "asking", !.at = i, !.e = e, !.stack = stack]]
       /\ out' = << <<"ask", c, hs[c][i], k, e, calls[k].n>> >>
Fail(k, e) == /\ Sent(k) /\ calls[k].n <= MaxErr
              /\ act' = [n |-> "Fail", k |-> k, e |-> e]
              /\ IF calls[k].c \in Default /\ Flood(e) <= 10
                 THEN IF Flood(e) = 0 THEN Decide(k, TRUE, e)
                      ELSE calls' = [calls EXCEPT ![k] = [@ EXCEPT !.phase = "waiting", !.wait = Flood(e), !.e = e]] /\ out' = <<>>
                 ELSE Consult(k, 1, e, <<>>)
              /\ UNCHANGED <<hs, nh>>
(* what the handler being asked says *)
Say(k, d) == /\ calls[k].phase = "asking"
             /\ act' = [n |-> "Say", k |-> k, h |-> hs[calls[k].c][calls[k].at], d |-> d]
             /\ CASE d = "yes" -> Decide(k, Fold(calls[k].stack, TRUE), calls[k].e)
                  [] d = "no" -> Decide(k, Fold(calls[k].stack, FALSE), calls[k].e)
                  [] OTHER -> Consult(k, calls[k].at + 1, calls[k].e, Append(calls[k].stack, d))
             /\ UNCHANGED <<hs, nh>>
(* time passes until the first wait is over; waits ending together end in the order of the calls' numbers *)
Waiting == {k \in DOMAIN calls : calls[k].phase = "waiting"}
Tick == /\ Waiting # {}
        /\ LET w == CHOOSE x \in {calls[k].wait : k \in Waiting} : \A k \in Waiting : x <= calls[k].wait
               over == {k \in Waiting : calls[k].wait = w}
           IN /\ act' = [n |-> "Tick", w |-> w]
              /\ calls' = [k \in DOMAIN calls |-> IF k \in over THEN [c |-> calls[k].c, dc |-> calls[k].dc, phase |-> "sent", n |-> calls[k].n + 1] @@ None
                                                   ELSE IF k \in Waiting THEN [calls[k] EXCEPT !.wait = @ - w] ELSE calls[k]]
              /\ out' = [i \in 1..Cardinality(over) |-> LET k == CHOOSE k \in over : Cardinality({j \in over : j < k}) = i - 1 IN Resent(k)[1]]
        /\ UNCHANGED <<hs, nh>>
Next == \/ \E c \in 1..Clients : Use(c)
        \/ \E c \in 1..Clients, dc \in Dcs : Invoke(c, dc)
        \/ \E k \in DOMAIN calls : Answer(k) \/ (\E e \in Errors : Fail(k, e)) \/ (\E d \in {"yes", "no", "next", "turn"} : Say(k, d))
        \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick)

(* a handler is only asked about its own client's calls; attempts count from 1 *)
Own == \A i \in DOMAIN out : out[i][1] = "ask" => \E j \in DOMAIN hs[out[i][2]] : hs[out[i][2]][j] = out[i][3] /\ calls[out[i][4]].c = out[i][2] /\ out[i][6] = calls[out[i][4]].n
(* a flood wait in the default range never reaches a user's handler, and nothing else is waited for *)
Waits == \A k \in DOMAIN calls : /\ calls[k].phase = "waiting" => calls[k].wait \in 1..10 /\ calls[k].c \in Default
                                 /\ calls[k].phase = "asking" => calls[k].c \notin Default \/ Flood(calls[k].e) > 10
(* a repetition needs a handler that said so *)
Consent == [][\A k \in DOMAIN calls : calls'[k].n > calls[k].n =>
               \/ calls[k].phase = "waiting"
               \/ calls[k].phase = "sent" /\ Flood(act'.e) = 0 /\ calls[k].c \in Default
               \/ calls[k].phase = "asking" /\ ~(act'.d = "no" /\ calls[k].stack = <<>>)]_vars
Released == (Waiting # {}) ~> (Waiting = {} \/ \E k \in DOMAIN calls : calls[k].phase # "waiting")
=============================================================================
