-------------------------- MODULE MessageIdsTrace ---------------------------
(* Validates frames recorded from a real session against MessageIds.         *)
EXTENDS MessageIds, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, v   \* v: [st, diff, ses, renew]
tvars == <<t, l, v, vars>>
E == Traces[t][l + 1]
InitT == /\ \A i \in 1..Len(Traces) : TLCSet(i, 0)
         /\ t \in 1..Len(Traces) /\ l = 0 /\ v = [st |-> Start, diff |-> 0, ses |-> 0, renew |-> TRUE]
         /\ clk = 0 /\ diff = 0 /\ st = Start /\ used = <<>> /\ n = 0
Frame == LET fresh == E.ses # v.ses
             s == IF fresh THEN Start ELSE v.st IN
         /\ E.n = "Frame"
         /\ fresh = v.renew
         /\ FrameOk(E.f, s, E.clk + v.diff)
         /\ v' = [v EXCEPT !.st = After(E.f, s), !.ses = E.ses, !.renew = FALSE]
NextT == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ UNCHANGED vars
         /\ \/ Frame
            \/ E.n = "Correct" /\ v' = [v EXCEPT !.diff = E.d]
            \/ E.n = "Renew" /\ v' = [v EXCEPT !.renew = TRUE]
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
