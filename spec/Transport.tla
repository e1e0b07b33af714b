------------------------------ MODULE Transport ------------------------------
(* Packets over a connection.  Each connection is a byte stream both ways;   *)
(* frames of packets travel in pieces of any size: a frame coming in has     *)
(* four marks (some of its header, its header, some of its body, all of it), *)
(* and a delivery goes up to any later mark of any frame; of a frame going   *)
(* out the link takes nothing, a little, some more or all.                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxIn, MaxOut, MaxGen, Pend,
          Parts,  \* the link may take a part of what is written
          Late,   \* what is being written when the other side goes away stays so for a while
          Instant,\* the link takes what is written at once
          Bad     \* times an attempt to open may fail
VARIABLES up, gen, bad,
          pn, d, rc, rw,   \* packets sent by the server on this connection, marks delivered, packets received, waiting for one
          on, sq, acc,     \* packets handed over; those not written yet; how much of the first is
          act, out
vars == <<up, gen, bad, pn, d, rc, rw, on, sq, acc, act, out>>
View == <<up, gen, bad, pn, d, rc, rw, on, sq, acc>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
O(e) == out' = [ev |-> e, up |-> up']

Init == /\ up = FALSE /\ gen = 0 /\ bad = 0 /\ pn = 0 /\ d = 0 /\ rc = 0 /\ rw = FALSE /\ on = 0 /\ sq = <<>> /\ acc = 0
        /\ act = [n |-> "Init"] /\ out = [ev |-> <<>>, up |-> FALSE]
Fails(q) == [i \in DOMAIN q |-> <<"failed", q[i]>>]
RFail == IF rw THEN << <<"failed", 0>> >> ELSE <<>>
Fresh == gen' = gen + 1 /\ pn' = 0 /\ d' = 0 /\ rc' = 0 /\ rw' = FALSE /\ sq' = <<>> /\ acc' = 0

Open == /\ ~up /\ gen < MaxGen /\ act' = [n |-> "Open"] /\ up' = TRUE /\ Fresh
        /\ O(Fails(sq) \o << <<"open", 1>> >>) /\ UNCHANGED <<bad, on>>
OpenBad == /\ ~up /\ sq = <<>> /\ bad < Bad /\ bad' = bad + 1 /\ act' = [n |-> "OpenBad"]
           /\ UNCHANGED <<up, gen, pn, d, rc, rw, on, sq, acc>> /\ O(<< <<"refused", 1>> >>)
Push == /\ up /\ pn < MaxIn /\ pn' = pn + 1 /\ act' = [n |-> "Push"]
        /\ UNCHANGED <<up, gen, bad, d, rc, rw, on, sq, acc>> /\ O(<<>>)
Deliver(m) == /\ up /\ d < m /\ m <= 4 * pn /\ d' = m /\ act' = [n |-> "Deliver", m |-> m]
              /\ IF rw /\ m >= 4 * (rc + 1) THEN rc' = rc + 1 /\ rw' = FALSE /\ UNCHANGED <<up, gen, bad, pn, on, sq, acc>> /\ O(<< <<"got", rc + 1>> >>)
                 ELSE UNCHANGED <<up, gen, bad, pn, rc, rw, on, sq, acc>> /\ O(<<>>)
Receive == /\ ~rw /\ act' = [n |-> "Receive"] /\ UNCHANGED <<up, gen, bad, pn, d, on, sq, acc>>
           /\ IF ~up THEN UNCHANGED <<rc, rw>> /\ O(<< <<"failed", 0>> >>)
              ELSE IF d >= 4 * (rc + 1) THEN rc' = rc + 1 /\ UNCHANGED rw /\ O(<< <<"got", rc + 1>> >>)
              ELSE rw' = TRUE /\ UNCHANGED rc /\ O(<<>>)
Send == /\ on < MaxOut /\ on' = on + 1 /\ act' = [n |-> "Send", id |-> on + 1]
        /\ UNCHANGED <<up, gen, bad, pn, d, rc, rw, acc>>
        /\ IF ~up THEN UNCHANGED sq /\ O(<< <<"failed", on + 1>> >>)
           ELSE IF Instant THEN UNCHANGED sq /\ O(<< <<"arrived", on + 1>>, <<"sent", on + 1>> >>)
           ELSE Len(sq) < Pend /\ sq' = Append(sq, on + 1) /\ O(<<>>)
Accept(a) == /\ sq # <<>> /\ a > acc /\ (Parts \/ a = 3) /\ act' = [n |-> "Accept", a |-> a]
             /\ UNCHANGED <<up, gen, bad, pn, d, rc, rw, on>>
             /\ IF a < 3 THEN acc' = a /\ UNCHANGED sq /\ O(<<>>)
                ELSE /\ acc' = 0
                     /\ IF up THEN sq' = Tail(sq) /\ O(<< <<"arrived", Head(sq)>>, <<"sent", Head(sq)>> >>)
                        ELSE sq' = <<>> /\ O(<< <<"sent", Head(sq)>> >> \o Fails(Tail(sq)))
(* the other side goes away *)
Lose == /\ up /\ rw /\ act' = [n |-> "Lose"] /\ up' = FALSE /\ rw' = FALSE
        /\ IF Late THEN UNCHANGED <<sq, acc>> /\ O(RFail) ELSE sq' = <<>> /\ acc' = 0 /\ O(RFail \o Fails(sq))
        /\ UNCHANGED <<gen, bad, pn, d, rc, on>>
StaleFail == /\ ~up /\ sq # <<>> /\ act' = [n |-> "StaleFail"] /\ sq' = <<>> /\ acc' = 0
             /\ UNCHANGED <<up, gen, bad, pn, d, rc, rw, on>> /\ O(Fails(sq))
Close == /\ up /\ act' = [n |-> "Close"] /\ up' = FALSE /\ rw' = FALSE /\ sq' = <<>> /\ acc' = 0
         /\ O(RFail \o Fails(sq)) /\ UNCHANGED <<gen, bad, pn, d, rc, on>>
(* closed and opened again at once *)
Restart == /\ up /\ gen < MaxGen /\ act' = [n |-> "Restart"] /\ up' = TRUE /\ Fresh
           /\ O(RFail \o Fails(sq) \o << <<"open", 1>> >>) /\ UNCHANGED <<bad, on>>
Next == Open \/ OpenBad \/ Push \/ Receive \/ Send \/ Lose \/ StaleFail \/ Close \/ Restart \/ (\E m \in 1..(4 * MaxIn) : Deliver(m)) \/ (\E a \in 1..3 : Accept(a))
Spec == Init /\ [][Next]_vars
(* nothing is received that did not come, nothing that came waits for a receiver that waits for it *)
Inv == rc * 4 <= d /\ d <= 4 * pn /\ (rw => up /\ d < 4 * (rc + 1)) /\ (acc > 0 => sq # <<>>)
(* packets arrive in order, and none of an earlier connection *)
InOrder == [][\A i \in DOMAIN out'.ev : out'.ev[i][1] = "got" => out'.ev[i][2] = rc + 1 /\ up]_vars
(* a packet handed over is settled once *)
Settled == [][\A i, j \in DOMAIN out'.ev : i # j /\ out'.ev[i][1] \in {"sent", "failed"} /\ out'.ev[j][1] \in {"sent", "failed"} => out'.ev[i][2] # out'.ev[j][2]]_vars
=============================================================================
