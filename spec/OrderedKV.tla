----------------------------- MODULE OrderedKV ------------------------------
(* The storage interface: independent ordered maps (a store, its branches    *)
(* and differently named stores) from composite keys to values.              *)
(* A key is a sequence of parts; a part is <<type, n1, n2, ...>>: integers   *)
(* that order the part among parts of its type (strings by character, big    *)
(* integers by sign, length and digits).  Parts of different type at one     *)
(* position are never compared (the code never mixes them).                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

RECURSIVE SeqLess(_, _, _)
SeqLess(a, b, i) == \* integer sequences, lexicographic, shorter first
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE SeqLess(a, b, i + 1)
PartLess(a, b) == SeqLess(a, b, 1)
RECURSIVE KeyLessFrom(_, _, _)
KeyLessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN PartLess(a[i], b[i])
  ELSE KeyLessFrom(a, b, i + 1)
KeyLess(a, b) == KeyLessFrom(a, b, 1)
KeyLeq(a, b) == a = b \/ KeyLess(a, b)
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

\* what a scan of the map m (a function from its present keys) returns
Present(m, Sel(_)) == {k \in DOMAIN m : Sel(k)}
ScanOf(m, Sel(_), limit, rev) ==
  LET ks == SetToSortSeq(Present(m, Sel), LAMBDA a, b : IF rev THEN KeyLess(b, a) ELSE KeyLess(a, b))
      n  == IF limit = 0 \/ limit > Len(ks) THEN Len(ks) ELSE limit
  IN [i \in 1..n |-> <<ks[i], m[ks[i]]>>]
PrefixScan(m, p, limit, rev) == ScanOf(m, LAMBDA k : HasPrefix(k, p), limit, rev)
RangeScan(m, a, b, limit, rev) == ScanOf(m, LAMBDA k : KeyLeq(a, k) /\ KeyLeq(k, b), limit, rev)

With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
=============================================================================
