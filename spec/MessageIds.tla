---------------------------- MODULE MessageIds ------------------------------
(* Message identifiers and sequence numbers of one client session after      *)
(* another.  An identifier is <<second, position>>; a frame is one message,  *)
(* or a container box with the messages inside.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

IdLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Later(a, b) == IF a > b THEN a ELSE b
Start == [last |-> <<-1000000000, 0>>, cnt |-> 0]

\* f: [msgs |-> sequence of [id, r, q, c], box |-> <<>> or <<message>>]; r: remainder mod 4; q: sequence number; c: content-related
All(f) == f.msgs \o f.box
InOrder(f) == SortSeq(All(f), LAMBDA a, b : IdLess(a.id, b.id))
RECURSIVE SeqOk(_, _, _)
SeqOk(ms, i, st) ==  \* the messages of a frame in the order of their identifiers
  IF i > Len(ms) THEN TRUE
  ELSE LET m == ms[i] IN
       /\ IdLess(st.last, m.id)
       /\ m.r = 0
       /\ m.q = 2 * st.cnt + (IF m.c THEN 1 ELSE 0)
       /\ SeqOk(ms, i + 1, [last |-> m.id, cnt |-> st.cnt + (IF m.c THEN 1 ELSE 0)])
\* identifiers come from the corrected clock unless it lags behind what was used already
ClockOk(ms, st, clock) == \A i \in 1..Len(ms) : ms[i].id[1] = Later(clock, IF i = 1 THEN st.last[1] ELSE ms[i - 1].id[1])
FrameOk(f, st, clock) ==
  /\ SeqOk(InOrder(f), 1, st)
  /\ ClockOk(InOrder(f), st, clock)
  /\ \A i \in DOMAIN f.box : \A j \in DOMAIN f.msgs : IdLess(f.msgs[j].id, f.box[i].id)
  /\ \A i \in DOMAIN f.box : ~f.box[i].c
After(f, st) == [last |-> Last(InOrder(f)).id, cnt |-> st.cnt + Cardinality({i \in DOMAIN All(f) : All(f)[i].c})]

------------------------------------------------------------------------------
(* The design: identifiers drawn as max(clock, last + 1), however the clock and its correction move. *)
CONSTANTS Secs, Diffs, MaxFrames
VARIABLES clk, diff, st, used, n
vars == <<clk, diff, st, used, n>>
Init == clk \in Secs /\ diff = 0 /\ st = Start /\ used = <<>> /\ n = 0
Draw(s, content) ==
  LET id == IF clk + diff > s.last[1] THEN <<clk + diff, 0>> ELSE <<s.last[1], s.last[2] + 1>>
  IN [m |-> [id |-> id, r |-> 0, q |-> 2 * s.cnt + (IF content THEN 1 ELSE 0), c |-> content],
      s |-> [last |-> id, cnt |-> s.cnt + (IF content THEN 1 ELSE 0)]]
Send(acks) ==
  /\ n < MaxFrames /\ n' = n + 1 /\ UNCHANGED <<clk, diff>>
  /\ LET a == Draw(st, TRUE) b == Draw(a.s, FALSE) c == Draw(b.s, FALSE)
         f == IF acks THEN [msgs |-> <<a.m, b.m>>, box |-> <<c.m>>] ELSE [msgs |-> <<a.m>>, box |-> <<>>]
     IN /\ Assert(FrameOk(f, st, clk + diff), "design does not meet its requirement")
        /\ st' = After(f, st)
        /\ used' = used \o [i \in 1..Len(InOrder(f)) |-> InOrder(f)[i].id]
Clock(t) == clk' = t /\ UNCHANGED <<diff, st, used, n>>
Correct(d) == diff' = d - 1 /\ UNCHANGED <<clk, st, used, n>>
Renew == st' = Start /\ used' = <<>> /\ UNCHANGED <<clk, diff, n>>
Next == Send(TRUE) \/ Send(FALSE) \/ Renew \/ \E t \in Secs : Clock(t) \/ \E d \in Diffs : Correct(d)
Increasing == \A i, j \in DOMAIN used : i < j => IdLess(used[i], used[j])
=============================================================================
