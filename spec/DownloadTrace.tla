--------------------------- MODULE DownloadTrace ----------------------------
(* Validates recorded downloads of the real code against Download.           *)
EXTENDS Download, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, ds    \* ds: download number -> its state
E == Traces[t][l + 1]
InitT == /\ \A i \in 1..Len(Traces) : TLCSet(i, 0)
         /\ t \in 1..Len(Traces) /\ l = 0 /\ ds = <<>>
         /\ part = <<>> /\ count = <<0, 0>> /\ dl = <<>>
NextT == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ UNCHANGED vars
         /\ \/ E.n = "Begin" /\ ds' = Append(ds, Begun(E))
            \/ E.n = "Yield" /\ CanYield(ds[E.d], E) /\ ds' = [ds EXCEPT ![E.d] = Yielded(@, E)]
            \/ E.n = "End" /\ CanEnd(ds[E.d]) /\ ds' = [ds EXCEPT ![E.d].st = "ok"]
            \/ E.n = "Error" /\ CanFail(ds[E.d]) /\ ds' = [ds EXCEPT ![E.d].st = "err"]
            \/ E.n = "Cause" /\ ds' = [ds EXCEPT ![E.d].cause = TRUE]
            \/ E.n = "Leave" /\ ds' = [ds EXCEPT ![E.d].st = "left"]  \* the caller stops reading
            \/ E.n = "Quiet" /\ ds' = ds /\ \A d \in DOMAIN ds : ds[d].st # "run"
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
