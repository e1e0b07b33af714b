----------------------------- MODULE KeyExchange -----------------------------
(* Creation of authorization keys: exchanges of clients with a server that   *)
(* owns the RSA key, over a network that may hand any exchange any message,  *)
(* with any unprotected field changed.  Values are symbolic: a new nonce is  *)
(* named by the exchange that drew it, a server nonce by the session that    *)
(* drew it, a key by (session, exchange, attempt).                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

None == 0
NoKey == <<0, 0, 0>>
Client0 == [ph |-> "idle", nonce |-> None, sn |-> None, ga |-> None, key |-> NoKey, att |-> 0]

(* ---- the client: what it may send, and what it makes of an answer ---- *)
CanReqPq(c, n) == c.ph \in {"idle", "pqBad"} /\ n # None
AskedPq(c, n) == [c EXCEPT !.ph = "pq", !.nonce = n]
GoodPq(c, m) == m.t = "resPQ" /\ m.nonce = c.nonce /\ m.known
TookPq(c, m) == IF GoodPq(c, m) THEN [c EXCEPT !.ph = "pqOk", !.sn = m.s] ELSE [c EXCEPT !.ph = "pqBad"]
(* d: what arrived: its nonces outside and inside, whether p and q are the factors, the kind of key asked for *)
CanReqDh(c, d, role) == c.ph = "pqOk" /\ d.nonce = c.nonce /\ d.s = c.sn /\ d.inonce = c.nonce /\ d.is = c.sn /\ d.pq /\ d.role = role
AskedDh(c) == [c EXCEPT !.ph = "dh"]
GoodBlob(x, c, b) == b.nn = x /\ b.s = c.sn /\ b.whole /\ b.inonce = c.nonce /\ b.is = c.sn
GoodDh(x, c, m) == m.t = "ok" /\ m.nonce = c.nonce /\ m.s = c.sn /\ GoodBlob(x, c, m.b)
TookDh(x, c, m) == IF GoodDh(x, c, m) THEN [c EXCEPT !.ph = "dhOk", !.ga = m.b.s] ELSE [c EXCEPT !.ph = "dhBad"]
(* d: the nonces, whether it decrypts and its hash holds, and which retry id it has: 0 for none, else the attempt whose key it names *)
CanSet(c, d) == /\ c.ph \in {"dhOk", "again"}
                /\ d.nonce = c.nonce /\ d.s = c.sn /\ d.inonce = c.nonce /\ d.is = c.sn /\ d.whole
                /\ d.rid = IF c.ph = "dhOk" THEN 0 ELSE c.att
SentSet(x, c) == [c EXCEPT !.ph = "gen", !.att = @ + 1, !.key = <<c.ga, x, c.att + 1>>]
Mine(x, c, m) == m.nonce = c.nonce /\ m.s = c.sn /\ m.h.nn = x /\ m.h.key = c.key
TookGen(x, c, m) == IF Mine(x, c, m) /\ m.t = "ok" /\ m.h.n = 1 THEN [c EXCEPT !.ph = "accepted"]
                    ELSE IF Mine(x, c, m) /\ m.t = "retry" /\ m.h.n = 2 THEN [c EXCEPT !.ph = "again"]
                    ELSE IF Mine(x, c, m) /\ m.t = "fail" /\ m.h.n = 3 THEN [c EXCEPT !.ph = "again"]
                    ELSE [c EXCEPT !.ph = "genBad"]
Broken(c) == [c EXCEPT !.ph = IF c.ph \in {"idle", "pq", "pqBad"} THEN "pqBad" ELSE IF c.ph \in {"gen", "genBad", "again"} THEN "genBad" ELSE "dhBad"]
CanDone(c) == c.ph = "accepted"
Done(c) == [c EXCEPT !.ph = "done"]
CanFail(c) == c.ph \in {"pqBad", "dhBad", "genBad", "again"}
Failed(c) == [c EXCEPT !.ph = "failed"]

-----------------------------------------------------------------------------
(* The design, two exchanges and the sessions of the server *)
CONSTANTS Exch, MaxS, MaxBad, MaxAtt, Checked
VARIABLES cl, sv, bad
vars == <<cl, sv, bad>>
Sess == 1..MaxS
Server0 == [nonce |-> None, nn |-> None, key |-> NoKey, said |-> {}]
Init == cl = [x \in Exch |-> Client0] /\ sv = [s \in Sess |-> Server0] /\ bad = 0
Used == {s \in Sess : sv[s].nonce # None}
Nonces == Exch \cup {None}
SNonces == Used \cup {None}
(* protected parts can be moved around or damaged, not made; a confused server may put wrong nonces inside *)
Blobs == {[nn |-> sv[s].nn, s |-> s, whole |-> w, inonce |-> n, is |-> i] : s \in {r \in Used : sv[r].nn # None}, w \in BOOLEAN, n \in Nonces, i \in SNonces}
Hashes == UNION {sv[s].said : s \in Used} \cup {[nn |-> None, key |-> NoKey, n |-> 1]}
PqMsgs == [t : {"resPQ"}, nonce : Nonces, s : SNonces, known : BOOLEAN]
DhMsgs == [t : {"ok"}, nonce : Nonces, s : SNonces, b : Blobs]
GenMsgs == [t : {"ok", "retry", "fail"}, nonce : Nonces, s : SNonces, h : Hashes]
Step(x, c) == cl' = [cl EXCEPT ![x] = c]
Bad(c) == c.ph \in {"pqBad", "dhBad", "genBad"}
Count(c) == IF Bad(c) THEN bad < MaxBad /\ bad' = bad + 1 ELSE bad' = bad
Trust(c, ph) == [c EXCEPT !.ph = ph]
Next == \E x \in Exch : LET c == cl[x] IN
  \/ /\ CanReqPq(c, x) /\ Step(x, AskedPq(c, x)) /\ bad' = bad
     /\ \E s \in Sess : s \notin Used /\ (\A r \in Sess : r < s => r \in Used) /\ sv' = [sv EXCEPT ![s].nonce = x]
  \/ /\ c.ph = "pq" /\ UNCHANGED sv
     /\ \E m \in PqMsgs : Step(x, TookPq(c, m)) /\ Count(TookPq(c, m))
  \/ /\ c.ph = "pqOk" /\ Step(x, AskedDh(c)) /\ bad' = bad
     /\ sv' = IF c.sn \in Used /\ sv[c.sn].nonce = x /\ sv[c.sn].nn = None THEN [sv EXCEPT ![c.sn].nn = x] ELSE sv
  \/ /\ c.ph = "dh" /\ UNCHANGED sv
     /\ \E m \in DhMsgs : IF Checked THEN Step(x, TookDh(x, c, m)) /\ Count(TookDh(x, c, m))
                                     ELSE Step(x, [c EXCEPT !.ph = "dhOk", !.ga = m.b.s]) /\ bad' = bad
  \/ /\ c.ph \in {"dhOk", "again"} /\ c.att < MaxAtt /\ bad' = bad
     /\ Step(x, SentSet(x, c))
     /\ IF c.sn \in Used /\ sv[c.sn].nn = x /\ ~\E h \in sv[c.sn].said : h.n = 1
        THEN \E n \in 1..3 : LET k == <<c.sn, x, c.att + 1>> IN
               sv' = [sv EXCEPT ![c.sn].key = k, ![c.sn].said = @ \cup {[nn |-> x, key |-> k, n |-> n]}]
        ELSE sv' = sv
  \/ /\ c.ph = "gen" /\ UNCHANGED sv
     /\ \E m \in GenMsgs : IF Checked THEN Step(x, TookGen(x, c, m)) /\ Count(TookGen(x, c, m))
                                      ELSE Step(x, [c EXCEPT !.ph = IF m.t = "ok" THEN "accepted" ELSE "genBad"]) /\ bad' = bad
  \/ c.ph \in {"pq", "dh", "gen"} /\ Step(x, Broken(c)) /\ Count(Broken(c)) /\ UNCHANGED sv
  \/ CanDone(c) /\ Step(x, Done(c)) /\ UNCHANGED <<sv, bad>>
  \/ CanFail(c) /\ Step(x, Failed(c)) /\ UNCHANGED <<sv, bad>>
Spec == Init /\ [][Next]_vars

(* a key is held only if the server computed the same one, with this exchange's new nonce, in this exchange's session, and said so *)
Agreement == \A x \in Exch : cl[x].ph \in {"accepted", "done"} =>
               /\ cl[x].sn \in Used /\ sv[cl[x].sn].nn = x /\ sv[cl[x].sn].key = cl[x].key
               /\ [nn |-> x, key |-> cl[x].key, n |-> 1] \in sv[cl[x].sn].said
Own == \A x, y \in Exch : x # y /\ cl[x].ph = "done" /\ cl[y].ph = "done" => cl[x].key # cl[y].key /\ cl[x].sn # cl[y].sn
(* nothing but a bad answer stands in the way *)
Possible == \A x \in Exch : cl[x].ph = "failed" => bad > 0 \/ cl[x].att > 0
=============================================================================
