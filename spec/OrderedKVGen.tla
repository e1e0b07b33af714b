--------------------------- MODULE OrderedKVGen -----------------------------
(* Small-scope exploration of OrderedKV: every operation from every content  *)
(* over a few keys.  Keys are named by their index in Keys.                  *)
EXTENDS OrderedKV

CONSTANTS Stores,    \* number of independent stores
          KeySet,    \* "flat", "nested", "big"
          Vals, MaxIncr

S(t) == <<1>> \o t     \* string part (its characters)
N(n) == <<2, n>>       \* number part
B(sgn, digits) == <<3, sgn, sgn * Len(digits)>> \o [i \in 1..Len(digits) |-> sgn * digits[i]]

Keys == CASE KeySet = "flat"   -> << <<S(<<97>>)>>, <<S(<<97, 97>>)>>, <<S(<<98>>)>>, <<S(<<>>)>>, <<S(<<98, 54>>)>> >>
          [] KeySet = "nested" -> << <<S(<<97>>)>>, <<S(<<97>>), N(2)>>, <<S(<<97>>), N(10)>>, <<S(<<97, 98>>), N(1)>>, <<S(<<97>>), N(-3)>> >>
          [] KeySet = "deep"   -> << <<S(<<97>>), N(1)>>, <<S(<<97>>), N(1), S(<<120>>)>>, <<S(<<97>>), N(1), S(<<120>>), N(0)>>, <<S(<<97>>), N(11)>>, <<S(<<97, 49>>)>> >>
          [] KeySet = "big"    -> << <<S(<<97>>), B(1, <<2>>)>>, <<S(<<97>>), B(1, <<1, 0>>)>>, <<S(<<97>>), B(-1, <<3>>)>>, <<S(<<97>>), B(-1, <<1, 2>>)>>,
                                     <<S(<<97>>), B(1, <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>)>> >>
          [] KeySet = "pair"   -> << <<S(<<97>>)>>, <<S(<<97>>), N(1)>> >>
Ix == 1..Len(Keys)
KeyPrefixes == {<<>>} \cup {SubSeq(k, 1, 1) : k \in {Keys[i] : i \in Ix}} \cup {SubSeq(k, 1, 2) : k \in {Keys[i] : i \in {j \in Ix : Len(Keys[j]) >= 2}}}

VARIABLES c, act, out    \* c[s]: content of store s
View == c
vars == <<c, act, out>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Init == c = [s \in 1..Stores |-> <<>>] /\ act = [n |-> "Init"] /\ out = 0

Set(s, i, v) == c' = [c EXCEPT ![s] = With(c[s], Keys[i], v)] /\ act' = [n |-> "Set", s |-> s, k |-> Keys[i], v |-> v] /\ out' = 0
Del(s, i) == c' = [c EXCEPT ![s] = Without(c[s], Keys[i])] /\ act' = [n |-> "Del", s |-> s, k |-> Keys[i]] /\ out' = 0
Incr(s, i, by) ==
  LET old == IF Keys[i] \in DOMAIN c[s] THEN c[s][Keys[i]] ELSE 0 IN
  /\ old + by <= MaxIncr
  /\ c' = [c EXCEPT ![s] = With(c[s], Keys[i], old + by)] /\ act' = [n |-> "Incr", s |-> s, k |-> Keys[i], v |-> by] /\ out' = 0
Get(s, i) == UNCHANGED c /\ act' = [n |-> "Get", s |-> s, k |-> Keys[i]] /\ out' = IF Keys[i] \in DOMAIN c[s] THEN c[s][Keys[i]] ELSE -1
Scan(s, p, lim, rev) == p \notin DOMAIN c[s] /\ UNCHANGED c /\ act' = [n |-> "Scan", s |-> s, p |-> p, lim |-> lim, rev |-> rev] /\ out' = PrefixScan(c[s], p, lim, rev)
Rng(s, i, j, lim, rev) == UNCHANGED c /\ act' = [n |-> "Range", s |-> s, a |-> Keys[i], b |-> Keys[j], lim |-> lim, rev |-> rev] /\ out' = RangeScan(c[s], Keys[i], Keys[j], lim, rev)

Next == \E s \in 1..Stores :
  \/ \E i \in Ix : \/ \E v \in Vals : Set(s, i, v)
                   \/ Del(s, i)
                   \/ Incr(s, i, 1)
                   \/ Get(s, i)
  \/ \E p \in KeyPrefixes, lim \in {0, 1, 2}, rev \in BOOLEAN : Scan(s, p, lim, rev)
  \/ \E i, j \in Ix, lim \in {0, 2}, rev \in BOOLEAN : Rng(s, i, j, lim, rev)

\* the order is total on the keys used, and scans are sorted, complete and reversible
OrderOk == \A i, j \in Ix : i # j => (KeyLess(Keys[i], Keys[j]) <=> ~KeyLess(Keys[j], Keys[i]))
ScanOk == \A s \in 1..Stores : \A p \in KeyPrefixes :
            LET f == PrefixScan(c[s], p, 0, FALSE) r == PrefixScan(c[s], p, 0, TRUE) IN
            /\ r = Reverse(f)
            /\ {f[i][1] : i \in DOMAIN f} = {k \in DOMAIN c[s] : HasPrefix(k, p)}
            /\ \A i \in 1..(Len(f) - 1) : KeyLess(f[i][1], f[i + 1][1])
Inv == OrderOk /\ ScanOk
=============================================================================
