------------------------------- MODULE Upload -------------------------------
(* An upload, seen from the server and the caller: parts are sent, accepted  *)
(* or failed in any order, and the caller is told the outcome.  What is in   *)
(* flight when is left open; what each part carries is not.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

SmallLimit == 10 * 1024 * 1024
MinTries == 5    \* an upload may not give up on a part that failed fewer times

NParts(c) == (c.size + c.chunk - 1) \div c.chunk
Min(a, b) == IF a < b THEN a ELSE b
From(c, p) == p * c.chunk
To(c, p) == Min(c.size, (p + 1) * c.chunk)

(* s: [st: per part none/fly/fail/ok, tries: per part, acc: accepted content, form, phase, cause, told] *)
Fresh(c) == [st |-> [p \in 1..NParts(c) |-> "none"], tries |-> [p \in 1..NParts(c) |-> 0],
             acc |-> [p \in 1..NParts(c) |-> <<>>], form |-> "", phase |-> "run", cause |-> c.size = 0, told |-> FALSE]

CanCall(c, s, e) == \* e: [p, from, to, form, total]
  /\ s.phase # "ok"
  /\ e.p \in 0..(NParts(c) - 1)
  /\ s.st[e.p + 1] \in {"none", "fail"}
  /\ e.from = From(c, e.p) /\ e.to = To(c, e.p)
  /\ s.form \in {"", e.form}
  /\ e.form = "small" => c.size <= SmallLimit
  /\ e.form = "big" => e.total = NParts(c) \/ (e.total = -1 /\ e.p < NParts(c) - 1)
Called(s, e) == [s EXCEPT !.st[e.p + 1] = "fly", !.form = e.form]
CanAnswer(s, p) == s.st[p + 1] = "fly"
Accepted(s, p, from, to) == [s EXCEPT !.st[p + 1] = "ok", !.acc[p + 1] = <<from, to>>]
Failed(s, p, fatal) == [s EXCEPT !.st[p + 1] = "fail", !.tries[p + 1] = @ + 1, !.cause = @ \/ fatal \/ s.tries[p + 1] + 1 >= MinTries]
Caused(s) == [s EXCEPT !.cause = TRUE]
CanResolve(c, s, e) == \* e: [parts, form, same, size]
  /\ s.phase = "run"
  /\ \A p \in DOMAIN s.st : s.st[p] = "ok"
  /\ e.parts = NParts(c) /\ e.parts > 0 /\ e.form = s.form /\ e.same
  /\ c.enc => e.size = c.size
Resolved(s) == [s EXCEPT !.phase = "ok"]
CanReject(s) == s.phase = "run" /\ s.cause
Rejected(s) == [s EXCEPT !.phase = "err"]
RECURSIVE Sum(_, _, _)
Sum(c, s, p) == IF p = 0 THEN 0 ELSE Sum(c, s, p - 1) + IF s.st[p] = "ok" THEN To(c, p - 1) - From(c, p - 1) ELSE 0
CanProgress(c, s, e) == \* e: [up, done]
  /\ e.up = Sum(c, s, NParts(c)) /\ ~s.told
  /\ e.done => e.up = c.size
Progressed(s, e) == [s EXCEPT !.told = e.done]

-----------------------------------------------------------------------------
(* The design itself, for small files *)
CONSTANTS Sizes, Chunk, MaxFail
VARIABLES c, s
vars == <<c, s>>
Init == \E n \in Sizes : c = [size |-> n, chunk |-> Chunk, enc |-> FALSE] /\ s = Fresh(c)
Forms == {"small", "big"}
Next == /\ c' = c
        /\ \/ \E p \in 0..(NParts(c) - 1), f \in Forms, t \in {-1, NParts(c)} :
                LET e == [p |-> p, from |-> From(c, p), to |-> To(c, p), form |-> f, total |-> t] IN
                CanCall(c, s, e) /\ s' = Called(s, e)
           \/ \E p \in 0..(NParts(c) - 1) : CanAnswer(s, p) /\
                (\/ s' = Accepted(s, p, From(c, p), To(c, p))
                 \/ s.tries[p + 1] < MaxFail /\ \E fatal \in BOOLEAN : s' = Failed(s, p, fatal))
           \/ s' = Caused(s)
           \/ \E f \in Forms : CanResolve(c, s, [parts |-> NParts(c), form |-> f, same |-> TRUE, size |-> c.size]) /\ s' = Resolved(s)
           \/ CanReject(s) /\ s' = Rejected(s)
Spec == Init /\ [][Next]_vars
(* put together by part number, what was accepted is the file *)
RECURSIVE Joined(_, _)
Joined(a, at) == IF a = <<>> THEN at ELSE IF Head(a) # <<>> /\ Head(a)[1] = at THEN Joined(Tail(a), Head(a)[2]) ELSE -1
Whole == s.phase = "ok" => c.size > 0 /\ Joined(s.acc, 0) = c.size /\ \A p \in 1..(NParts(c) - 1) : s.acc[p][2] - s.acc[p][1] = c.chunk
OneForm == s.form = "small" => c.size <= SmallLimit
=============================================================================
