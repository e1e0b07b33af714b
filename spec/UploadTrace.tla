---------------------------- MODULE UploadTrace -----------------------------
(* Validates recorded uploads of the real code against Upload.               *)
EXTENDS Upload, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l
E == Traces[t][l + 1]
InitT == /\ \A i \in 1..Len(Traces) : TLCSet(i, 0)
         /\ t \in 1..Len(Traces) /\ l = 0
         /\ c = Traces[t][1].cfg /\ s = Fresh(Traces[t][1].cfg)
NextT == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ c' = c
         /\ \/ E.n = "Start" /\ l = 0 /\ s' = s
            \/ E.n = "Call" /\ CanCall(c, s, E) /\ s' = Called(s, E)
            \/ E.n = "Accept" /\ CanAnswer(s, E.p) /\ s' = Accepted(s, E.p, From(c, E.p), To(c, E.p))
            \/ E.n = "Fail" /\ CanAnswer(s, E.p) /\ s' = Failed(s, E.p, E.fatal)
            \/ E.n = "Cause" /\ s' = Caused(s)
            \/ E.n = "Resolve" /\ CanResolve(c, s, E) /\ s' = Resolved(s)
            \/ E.n = "Reject" /\ CanReject(s) /\ s' = Rejected(s)
            \/ E.n = "Progress" /\ CanProgress(c, s, E) /\ s' = Progressed(s, E)
            \/ E.n = "Quiet" /\ s.phase # "run" /\ s' = s   \* nothing is left to happen
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
