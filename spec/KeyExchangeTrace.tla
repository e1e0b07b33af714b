-------------------------- MODULE KeyExchangeTrace --------------------------
(* Validates recorded exchanges, and the connections that use the keys,      *)
(* against KeyExchange.                                                      *)
EXTENDS KeyExchange, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, role, use   \* use: what a connection with these keys is at
E == Traces[t][l + 1]
Use0 == [up |-> FALSE, connecting |-> FALSE, perm |-> NoKey, key |-> NoKey, bound |-> {}, old |-> {}, gaveUp |-> FALSE, refused |-> FALSE, calls |-> 0]
InitT == /\ \A i \in 1..Len(Traces) : TLCSet(i, 0)
         /\ t \in 1..Len(Traces) /\ l = 0 /\ sv = <<>> /\ bad = 0
         /\ cl = <<>> /\ role = <<>> /\ use = Use0
To(x, c) == cl' = [cl EXCEPT ![x] = c] /\ UNCHANGED <<role, use>>
KeysOf(r) == {cl[x].key : x \in {y \in DOMAIN cl : cl[y].ph = "done" /\ role[y] = r}}
LastOf(r) == LET X == {y \in DOMAIN cl : role[y] = r} IN IF X = {} THEN 0 ELSE CHOOSE y \in X : \A z \in X : z <= y
SameUse == UNCHANGED <<cl, role, use>>
NextT == /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t /\ UNCHANGED <<sv, bad>>
         /\ \/ E.n = "Open" /\ E.x = Len(cl) + 1 /\ cl' = Append(cl, Client0) /\ role' = Append(role, IF "role" \in DOMAIN E THEN E.role ELSE "") /\ use' = use
            \/ E.n = "ReqPq" /\ CanReqPq(cl[E.x], E.nonce) /\ To(E.x, AskedPq(cl[E.x], E.nonce))
            \/ E.n = "Take" /\ cl[E.x].ph = "pq" /\ To(E.x, IF E.m.t = "resPQ" THEN TookPq(cl[E.x], E.m) ELSE Broken(cl[E.x]))
            \/ /\ E.n = "ReqDh" /\ cl[E.x].ph = "pqOk"
               /\ E.role \in {"perm", "temp"} /\ role[E.x] \in {"", E.role}
               /\ CanReqDh(cl[E.x], E, E.role)
               /\ cl' = [cl EXCEPT ![E.x] = AskedDh(@)] /\ role' = [role EXCEPT ![E.x] = E.role] /\ use' = use
            \/ E.n = "Take" /\ cl[E.x].ph = "dh" /\ To(E.x, IF E.m.t = "ok" /\ "b" \in DOMAIN E.m THEN TookDh(E.x, cl[E.x], E.m) ELSE Broken(cl[E.x]))
            \/ E.n = "Set" /\ CanSet(cl[E.x], E) /\ To(E.x, SentSet(E.x, cl[E.x]))
            \/ E.n = "Take" /\ cl[E.x].ph = "gen" /\ To(E.x, IF E.m.t \in {"ok", "retry", "fail"} /\ "h" \in DOMAIN E.m THEN TookGen(E.x, cl[E.x], E.m) ELSE Broken(cl[E.x]))
            \/ E.n = "Lose" /\ cl[E.x].ph \notin {"done", "failed", "accepted"} /\ To(E.x, Broken(cl[E.x]))
            \/ E.n = "Done" /\ CanDone(cl[E.x]) /\ E.key = cl[E.x].key /\ E.salt /\ E.role = role[E.x] /\ To(E.x, Done(cl[E.x]))
            \/ E.n = "Failed" /\ CanFail(cl[E.x]) /\ To(E.x, Failed(cl[E.x]))
            \/ E.n = "End" /\ CanDone(cl[E.x]) /\ To(E.x, Done(cl[E.x]))
            \/ E.n = "End" /\ CanFail(cl[E.x]) /\ To(E.x, Failed(cl[E.x]))
            \/ E.n = "End" /\ cl[E.x].ph \in {"done", "failed"} /\ SameUse
            \* connections
            \/ E.n = "Connect" /\ UNCHANGED <<cl, role>> /\ use' = [use EXCEPT !.connecting = TRUE, !.up = FALSE]
            \/ /\ E.n = "Up" /\ use.connecting /\ LastOf(E.role) # 0
               /\ E.key = cl[LastOf(E.role)].key /\ cl[LastOf(E.role)].ph = "done"
               /\ E.perm \in KeysOf("perm") /\ (use.perm # NoKey => E.perm = use.perm)
               /\ (E.role = "temp" => E.key \in use.bound)
               /\ UNCHANGED <<cl, role>> /\ use' = [use EXCEPT !.up = TRUE, !.connecting = FALSE, !.perm = E.perm, !.key = E.key]
            \/ /\ E.n = "Down" /\ use.connecting
               /\ (use.refused \/ \E r \in {"perm", "temp", ""} : LastOf(r) # 0 /\ cl[LastOf(r)].ph = "failed")
               /\ UNCHANGED <<cl, role>> /\ use' = [use EXCEPT !.connecting = FALSE, !.gaveUp = TRUE]
            \/ /\ E.n = "Use" /\ (E.salt \/ E.key \in use.old) \* a salt may be forgotten, not wrong at first
               /\ \/ /\ E.call = "bind" /\ use.connecting /\ E.right
                     /\ LastOf("temp") # 0 /\ E.key = cl[LastOf("temp")].key /\ cl[LastOf("temp")].ph = "done"
                     /\ E.perm \in KeysOf("perm") /\ (use.perm # NoKey => E.perm = use.perm)
                     /\ use' = IF E.ok THEN [use EXCEPT !.bound = @ \cup {E.key}] ELSE [use EXCEPT !.refused = TRUE]
                  \/ E.call \in {"call", "ping"} /\ use.up /\ E.key = use.key /\ use' = use
               /\ UNCHANGED <<cl, role>>
            \/ E.n = "Answer" /\ E.ok /\ SameUse
            \/ E.n = "Disconnect" /\ UNCHANGED <<cl, role>> /\ use' = [use EXCEPT !.up = FALSE, !.old = @ \cup {use.key}]
            \/ E.n = "Quiet" /\ ~E.stuck /\ (use.gaveUp \/ \A x \in DOMAIN cl : cl[x].ph \in {"done", "failed"}) /\ SameUse
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
