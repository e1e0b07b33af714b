-------------------------- MODULE DataCentersTrace --------------------------
(* Validates recorded lives of real clients against DataCenters.             *)
EXTENDS DataCenters, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l
E == Traces[t][l + 1]
InitT == /\ \A i \in 1..Len(Traces) : TLCSet(i, 0)
         /\ t \in 1..Len(Traces) /\ l = 0 /\ Init
NextT == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t
         /\ \/ E.n = "Call" /\ Call(E.k, E.dc, E.media, E.need)
            \/ E.n = "Exch" /\ Len(keys) + 1 = E.key /\ Exch(E.dc, E.media)
            \/ E.n = "Up" /\ Up(E.dc, E.media, E.key)
            \/ E.n = "Closed" /\ Closed(E.dc, E.media)
            \/ E.n = "Arrive" /\ Arrive(E.k, E.dc, E.media, E.key)
            \/ E.n = "Server" /\ Server(E.k, E.what, E.why)
            \/ E.n = "Settle" /\ Settle(E.k, E.r, E.why)
            \/ E.n = "Export" /\ E.t = Len(tickets) + 1 /\ Export(E.dc, E.on, E.key)
            \/ E.n = "Exported" /\ Exported(E.t, E.why)
            \/ E.n = "Import" /\ E.t \in DOMAIN tickets /\ Import(E.t, E.dc, E.media, E.key)
            \/ E.n = "Imported" /\ Imported(E.t, E.key, E.why)
            \/ E.n = "Signed" /\ Signed(E.key)
            \/ E.n = "Revoked" /\ Revoked(E.key)
            \/ E.n = "Loss" /\ Loss(E.dc, E.media, TRUE)
            \/ E.n = "OpenFail" /\ OpenFail(E.dc, E.media)
            \/ E.n = "Idle" /\ Idle
            \/ E.n = "Salt" /\ Salt(E.key)
            \/ E.n = "BadSalt" /\ BadSalt(E.key, E.media)
            \/ E.n = "Disconnect" /\ Disconnect
            \/ E.n = "Restart" /\ Restart
            \/ E.n = "Migrate" /\ Migrate(E.k, E.dc)
            \/ E.n = "Quiet" /\ Quiet /\ UNCHANGED vars
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
