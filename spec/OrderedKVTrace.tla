-------------------------- MODULE OrderedKVTrace ----------------------------
(* Validates recorded histories of real backends against OrderedKV.          *)
EXTENDS OrderedKV, IOUtils
Traces == JsonDeserialize("traces.json")
VARIABLES t, l, c
Init == t \in 1..Len(Traces) /\ l = 0 /\ c = <<>>   \* c: store name -> content
St(s) == IF s \in DOMAIN c THEN c[s] ELSE <<>>
E == Traces[t][l + 1]
Upd(s, m) == c' = With(c, s, m)
Step ==
  /\ l < Len(Traces[t])
  /\ l' = l + 1 /\ t' = t
  /\ \/ E.n = "Set" /\ Upd(E.s, With(St(E.s), E.k, E.v))
     \/ E.n = "Del" /\ Upd(E.s, Without(St(E.s), E.k))
     \/ E.n = "Incr" /\ Upd(E.s, With(St(E.s), E.k, E.v))    \* E.v: the value read back, checked by old
        /\ E.old = (IF E.k \in DOMAIN St(E.s) THEN St(E.s)[E.k] ELSE "none")
     \/ E.n = "Get" /\ UNCHANGED c /\ E.v = (IF E.k \in DOMAIN St(E.s) THEN St(E.s)[E.k] ELSE "none")
     \/ E.n = "Scan" /\ UNCHANGED c /\ E.r = PrefixScan(St(E.s), E.p, E.lim, E.rev)
     \/ E.n = "Range" /\ UNCHANGED c /\ E.r = RangeScan(St(E.s), E.a, E.b, E.lim, E.rev)
Next == Step
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
InitT == (\A i \in 1..Len(Traces) : TLCSet(i, 0)) /\ Init
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
