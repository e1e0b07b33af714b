------------------------------ MODULE Download ------------------------------
(* Downloads of files, one after another or at the same time, sharing one    *)
(* cache.  Each yields its file's bytes from its offset to the end.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

(* d: [f, size, pos, st, cause] *)
Begun(e) == [f |-> e.f, size |-> e.size, pos |-> e.off, st |-> "run", cause |-> FALSE]
CanYield(d, e) == d.st = "run" /\ e.f = d.f /\ (e.from = d.pos \/ e.from = e.to) /\ e.to >= e.from /\ e.to <= d.size
Yielded(d, e) == [d EXCEPT !.pos = IF e.from = e.to THEN @ ELSE e.to]
CanEnd(d) == d.st = "run" /\ d.pos >= d.size
CanFail(d) == d.st = "run" /\ d.cause

-----------------------------------------------------------------------------
(* The design: parts in a cache shared by downloads with their own part      *)
(* sizes.  A download may fill the cache only while no other one does; the   *)
(* cache counts only when a download has filled it to the end.               *)
CONSTANTS Size, Chunks, N, Exclusive
VARIABLES part,   \* part number -> [from, to] or <<>>
          count,  \* 0 or <<parts, chunk>>
          dl      \* downloads: [st, chunk, pos, fills, k, cached]
vars == <<part, count, dl>>
Last == Size \* parts are numbered from 0
Init == part = [i \in 0..Size |-> <<>>] /\ count = <<0, 0>> /\ dl = <<>>
Min(a, b) == IF a < b THEN a ELSE b
Filling == {i \in DOMAIN dl : dl[i].st = "run" /\ dl[i].fills}
Begin(ch) == /\ Len(dl) < N
             /\ dl' = Append(dl, [st |-> "run", chunk |-> ch, pos |-> 0, k |-> 0, cached |-> count[1] > 0, read |-> count, out |-> <<>>,
                                  fills |-> count[1] = 0 /\ (~Exclusive \/ Filling = {})])
             /\ UNCHANGED <<part, count>>
FromServer(i) == LET d == dl[i] to == Min(Size, d.pos + d.chunk) IN
  /\ d.st = "run" /\ ~d.cached
  /\ part' = IF d.fills THEN [part EXCEPT ![d.k] = <<d.pos, to>>] ELSE part
  /\ count' = IF d.fills /\ to = Size THEN <<d.k + 1, d.chunk>> ELSE count
  /\ dl' = [dl EXCEPT ![i].pos = to, ![i].k = @ + 1, ![i].out = Append(@, <<d.pos, to>>), ![i].st = IF to = Size THEN "ok" ELSE "run"]
FromCache(i) == LET d == dl[i] IN
  /\ d.st = "run" /\ d.cached
  /\ dl' = [dl EXCEPT ![i].k = @ + 1, ![i].out = Append(@, part[d.k]), ![i].st = IF d.k + 1 = d.read[1] THEN "ok" ELSE "run"]
  /\ UNCHANGED <<part, count>>
Abort(i) == dl[i].st = "run" /\ dl' = [dl EXCEPT ![i].st = "err"] /\ UNCHANGED <<part, count>>
Next == (\E ch \in Chunks : Begin(ch)) \/ \E i \in DOMAIN dl : FromServer(i) \/ FromCache(i) \/ Abort(i)
RECURSIVE Joined(_, _)
Joined(a, at) == IF a = <<>> THEN at ELSE IF Head(a) # <<>> /\ Head(a)[1] = at THEN Joined(Tail(a), Head(a)[2]) ELSE -1
Exact == \A i \in DOMAIN dl : dl[i].st = "ok" => Joined(dl[i].out, 0) = Size
Gapless == \A i \in DOMAIN dl : Joined(dl[i].out, 0) >= 0
CacheTrue == count[1] > 0 => Joined([i \in 1..count[1] |-> part[i - 1]], 0) = Size
Inv == Exact /\ Gapless /\ CacheTrue
=============================================================================
