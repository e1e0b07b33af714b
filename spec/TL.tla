--------------------------------- MODULE TL ---------------------------------
(* The type language everything is sent, received and stored in: what bytes    *)
(* an object of a schema is, which objects a type takes, and what a reader     *)
(* that expects a type finds in given bytes.                                   *)
(* A schema S: S.d maps a constructor or function to its number (four bytes),  *)
(* fields and kind; S.ids maps the number of a constructor to its name.        *)
(* A number is the bytes it is written as; an object is the fields it has.     *)
EXTENDS Integers, Sequences, TLC
Width == [int |-> 4, long |-> 8, double |-> 8, int128 |-> 16, int256 |-> 32]
BoolTrue == <<181, 117, 114, 153>>
BoolFalse == <<55, 151, 121, 188>>
VectorId == <<21, 196, 181, 28>>
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Int4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
(* up to 253 bytes have their length in one byte, more have it in three; zeros fill up four *)
EncBytes(b) == LET h == IF Len(b) < 254 THEN <<Len(b)>> ELSE <<254, Len(b) % 256, (Len(b) \div 256) % 256, Len(b) \div 65536>>
                   n == Len(h) + Len(b)
               IN h \o b \o Zeros((4 - (n % 4)) % 4)

Inner(t) == IF t.k = "opt" THEN t.of ELSE t
FieldSet(S, c) == 1..Len(S.d[c].f)
(* the fields that share one flag are there together *)
Flagged(S, c, v, flag) == {S.d[c].f[i].t.bit : i \in {j \in FieldSet(S, c) : S.d[c].f[j].t.k = "opt" /\ S.d[c].f[j].t.flag = flag /\ S.d[c].f[j].n \in DOMAIN v.f}}
FlagWord(bits) == [i \in 1..4 |-> LET B(j) == IF ((8 * (i - 1)) + j) \in bits THEN Pow2(j) ELSE 0 IN B(0) + B(1) + B(2) + B(3) + B(4) + B(5) + B(6) + B(7)]

RECURSIVE Fits(_, _, _)
FitsObject(S, v) ==
  \A i \in FieldSet(S, v.c) : LET n == S.d[v.c].f[i].n
                                  t == S.d[v.c].f[i].t
                              IN \/ t.k = "flags"
                                 \/ n \in DOMAIN v.f /\ Fits(S, Inner(t), v.f[n])
                                 \/ t.k = "opt" /\ n \notin DOMAIN v.f /\ t.bit \notin Flagged(S, v.c, v, t.flag)
Fits(S, t, v) ==
  CASE t.k \in DOMAIN Width -> v.k = t.k /\ Len(v.b) = Width[t.k]
    [] t.k = "string" \/ t.k = "bytes" -> v.k = t.k /\ Len(v.b) < 16777216
    [] t.k = "Bool" \/ t.k = "true" -> v.k = t.k
    [] t.k = "vec" -> v.k = "vec" /\ \A i \in 1..Len(v.i) : Fits(S, t.of, v.i[i])
    [] t.k = "any" -> v.k = "obj" /\ v.c \in DOMAIN S.d /\ FitsObject(S, v)
    [] t.k = "ctor" -> v.k = "obj" /\ v.c = t.name /\ FitsObject(S, v)
    [] t.k = "kind" -> v.k = "obj" /\ v.c \in DOMAIN S.d /\ S.d[v.c].kind = t.name /\ FitsObject(S, v)

RECURSIVE Enc(_, _, _), EncFields(_, _, _), EncItems(_, _, _, _)
EncFields(S, v, i) ==
  IF i > Len(S.d[v.c].f) THEN <<>>
  ELSE LET n == S.d[v.c].f[i].n
           t == S.d[v.c].f[i].t
       IN (IF t.k = "flags" THEN FlagWord(Flagged(S, v.c, v, n)) ELSE IF n \in DOMAIN v.f THEN Enc(S, Inner(t), v.f[n]) ELSE <<>>) \o EncFields(S, v, i + 1)
EncItems(S, t, s, i) == IF i > Len(s) THEN <<>> ELSE Enc(S, t, s[i]) \o EncItems(S, t, s, i + 1)
Enc(S, t, v) ==
  CASE t.k \in DOMAIN Width -> v.b
    [] t.k = "string" \/ t.k = "bytes" -> EncBytes(v.b)
    [] t.k = "Bool" -> IF v.v THEN BoolTrue ELSE BoolFalse
    [] t.k = "true" -> <<>>
    [] t.k = "vec" -> (IF t.boxed THEN VectorId ELSE <<>>) \o Int4(Len(v.i)) \o EncItems(S, t.of, v.i, 1)
    [] t.k = "ctor" -> EncFields(S, v, 1)
    [] OTHER -> S.d[v.c].id \o EncFields(S, v, 1)

(* reading: the value and the place after it, or nothing *)
No == [ok |-> FALSE]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Has(b, p, n) == p + n - 1 <= Len(b)
At(b, p, n) == SubSeq(b, p, p + n - 1)
Bit(w, n) == (w[n \div 8 + 1] \div Pow2(n % 8)) % 2 = 1
DecBytes(k, b, p) ==
  IF ~Has(b, p, 1) THEN No
  ELSE LET long == b[p] > 253
           h == IF long THEN 4 ELSE 1
       IN IF ~Has(b, p, h) THEN No
          ELSE LET n == IF long THEN b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3] ELSE b[p]
                   pad == (4 - ((h + n) % 4)) % 4
               IN IF Has(b, p, h + n + pad) THEN Got([k |-> k, b |-> At(b, p + h, n)], p + h + n + pad) ELSE No
RECURSIVE Dec(_, _, _, _), DecFields(_, _, _, _, _, _, _), DecItems(_, _, _, _, _, _)
DecItems(S, t, b, p, n, acc) ==
  IF n = 0 THEN Got([k |-> "vec", i |-> acc], p)
  ELSE LET r == Dec(S, t, b, p) IN IF r.ok THEN DecItems(S, t, b, r.p, n - 1, Append(acc, r.v)) ELSE No
DecFields(S, c, b, p, i, words, acc) ==
  IF i > Len(S.d[c].f) THEN Got([k |-> "obj", c |-> c, f |-> acc], p)
  ELSE LET n == S.d[c].f[i].n
           t == S.d[c].f[i].t
       IN IF t.k = "flags" THEN IF Has(b, p, 4) THEN DecFields(S, c, b, p + 4, i + 1, (n :> At(b, p, 4)) @@ words, acc) ELSE No
          ELSE IF t.k = "opt" /\ ~Bit(words[t.flag], t.bit) THEN DecFields(S, c, b, p, i + 1, words, acc)
          ELSE LET r == Dec(S, Inner(t), b, p) IN IF r.ok THEN DecFields(S, c, b, r.p, i + 1, words, (n :> r.v) @@ acc) ELSE No
Dec(S, t, b, p) ==
  CASE t.k \in DOMAIN Width -> IF Has(b, p, Width[t.k]) THEN Got([k |-> t.k, b |-> At(b, p, Width[t.k])], p + Width[t.k]) ELSE No
    [] t.k = "string" \/ t.k = "bytes" -> DecBytes(t.k, b, p)
    [] t.k = "Bool" -> IF ~Has(b, p, 4) THEN No ELSE IF At(b, p, 4) = BoolTrue THEN Got([k |-> "Bool", v |-> TRUE], p + 4) ELSE IF At(b, p, 4) = BoolFalse THEN Got([k |-> "Bool", v |-> FALSE], p + 4) ELSE No
    [] t.k = "true" -> Got([k |-> "true"], p)
    [] t.k = "vec" -> LET q == IF t.boxed THEN p + 4 ELSE p
                      IN IF ~Has(b, p, q - p + 4) \/ (t.boxed /\ At(b, p, 4) # VectorId) THEN No
                         ELSE IF b[q + 3] # 0 THEN No   \* more than all bytes there could be
                         ELSE DecItems(S, t.of, b, q + 4, b[q] + 256 * b[q + 1] + 65536 * b[q + 2], <<>>)
    [] t.k = "ctor" -> DecFields(S, t.name, b, p, 1, <<>>, <<>>)
    [] OTHER -> IF ~Has(b, p, 4) THEN No
                ELSE IF t.k = "any" /\ At(b, p, 4) \in {BoolTrue, BoolFalse} THEN Got([k |-> "Bool", v |-> At(b, p, 4) = BoolTrue], p + 4)
                ELSE IF t.k = "just" THEN (IF At(b, p, 4) = S.d[t.name].id THEN DecFields(S, t.name, b, p + 4, 1, <<>>, <<>>) ELSE No)
                ELSE LET key == ToString(At(b, p, 4)) IN
                     IF key \notin DOMAIN S.ids THEN No
                     ELSE IF t.k = "kind" /\ S.d[S.ids[key]].kind # t.name THEN No
                     ELSE DecFields(S, S.ids[key], b, p + 4, 1, <<>>, <<>>)
=============================================================================
