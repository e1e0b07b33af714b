------------------------------ MODULE TLStream ------------------------------
(* A writer puts objects of one of many small schemas after one another, some  *)
(* bytes at the end are lost or not, and a reader takes objects off the front. *)
EXTENDS TL, Json
CONSTANTS FX, FY,     \* the types of the two fields that vary, as places in FieldTypes
          Modes,      \* how these two fields are declared
          MaxItems,
          RT,         \* the types read, as places in ReadTypes
          Lost        \* how many bytes may be lost
P == [k |-> "kind", name |-> "P"]
T(k) == [k |-> k]
V(boxed, t) == [k |-> "vec", boxed |-> boxed, of |-> t]
C(name) == [k |-> "ctor", name |-> name]
FieldTypes == <<T("int"), T("long"), T("string"), T("bytes"), T("Bool"), P, V(TRUE, P), V(FALSE, C("p.one")), V(TRUE, T("int")), T("int128"), T("double"), C("p.one"), T("int256"), V(FALSE, T("string")), V(TRUE, V(FALSE, T("int")))>>
I(b) == [k |-> "int", b |-> b]
O(c, f) == [k |-> "obj", c |-> c, f |-> f]
One(b) == O("p.one", "a" :> I(b))
Run(n) == [i \in 1..n |-> i % 256]
Text(n) == [i \in 1..n |-> 97 + (i % 26)]
L(b) == [k |-> "vec", i |-> b]
(* values of each of these types, and values that are not of them *)
Values(t) ==
  CASE t.k = "int" -> <<I(<<1, 0, 0, 0>>), I(<<254, 255, 255, 255>>), I(<<0, 0, 0, 128>>), I(<<0, 0, 0, 0, 1>>), [k |-> "long", b |-> <<1, 0, 0, 0, 0, 0, 0, 0>>]>>
    [] t.k = "long" -> <<[k |-> "long", b |-> <<1, 2, 3, 4, 5, 6, 7, 8>>], [k |-> "long", b |-> <<0, 0, 0, 0, 0, 0, 0, 128>>], [k |-> "long", b |-> <<0, 0, 0, 0, 0, 0, 0, 0, 1>>], I(<<1, 0, 0, 0>>)>>
    [] t.k = "int128" -> <<[k |-> "int128", b |-> Run(16)], [k |-> "int128", b |-> [i \in 1..16 |-> IF i > 8 THEN 255 ELSE 0]], [k |-> "int128", b |-> [i \in 1..17 |-> IF i = 17 THEN 1 ELSE 0]]>>
    [] t.k = "int256" -> <<[k |-> "int256", b |-> Run(32)], [k |-> "int256", b |-> [i \in 1..32 |-> IF i = 32 THEN 128 ELSE 0]], [k |-> "int256", b |-> [i \in 1..33 |-> IF i = 33 THEN 1 ELSE 0]]>>
    [] t.k = "double" -> <<[k |-> "double", b |-> <<154, 153, 153, 153, 153, 153, 185, 63>>], [k |-> "double", b |-> <<0, 0, 0, 0, 0, 0, 240, 255>>]>>
    [] t.k = "string" -> <<[k |-> "string", b |-> <<>>], [k |-> "string", b |-> <<195, 169, 240, 159, 145, 141>>], [k |-> "string", b |-> Text(253)], [k |-> "string", b |-> Text(254)]>>
    [] t.k = "bytes" -> <<[k |-> "bytes", b |-> <<0, 255, 254>>], [k |-> "bytes", b |-> Zeros(4)], [k |-> "bytes", b |-> Run(253)], [k |-> "bytes", b |-> Run(257)], [k |-> "string", b |-> <<97>>]>>
    [] t.k = "Bool" -> <<[k |-> "Bool", v |-> TRUE], [k |-> "Bool", v |-> FALSE], I(<<1, 0, 0, 0>>)>>
    [] t = P -> <<O("p", <<>>), One(<<9, 0, 0, 0>>), O("r", "b" :> One(<<7, 0, 0, 0>>)), [k |-> "Bool", v |-> TRUE]>>
    [] t.k = "ctor" -> <<One(<<3, 0, 0, 0>>), O("p", <<>>), O("p.one", <<>>)>>
    [] t = V(TRUE, P) -> <<L(<<>>), L(<<O("p", <<>>), One(<<5, 0, 0, 0>>)>>), L(<<O("r", "b" :> O("p", <<>>))>>), O("p", <<>>)>>
    [] t = V(FALSE, C("p.one")) -> <<L(<<>>), L(<<One(<<5, 0, 0, 0>>), One(<<6, 0, 0, 0>>)>>), L(<<O("p", <<>>)>>)>>
    [] t = V(TRUE, T("int")) -> <<L(<<>>), L(<<I(<<1, 0, 0, 0>>), I(<<181, 117, 114, 153>>)>>), L(<<[k |-> "Bool", v |-> TRUE]>>)>>
    [] t = V(FALSE, T("string")) -> <<L(<<[k |-> "string", b |-> <<>>], [k |-> "string", b |-> Text(5)]>>)>>
    [] t = V(TRUE, V(FALSE, T("int"))) -> <<L(<<L(<<>>), L(<<I(<<8, 0, 0, 0>>)>>)>>), L(<<I(<<8, 0, 0, 0>>)>>)>>
F(n, t) == [n |-> n, t |-> t]
Opt(t, flag, bit) == [k |-> "opt", flag |-> flag, bit |-> bit, of |-> t]
(* how x and y are declared *)
Fields(m, x, y) ==
  CASE m = 1 -> <<F("x", x), F("y", y)>>
    [] m = 2 -> <<F("flags", T("flags")), F("x", Opt(x, "flags", 0)), F("y", y)>>
    [] m = 3 -> <<F("flags", T("flags")), F("x", Opt(x, "flags", 3)), F("y", Opt(y, "flags", 3))>>
    [] m = 4 -> <<F("flags", T("flags")), F("t", Opt(T("true"), "flags", 31)), F("x", Opt(x, "flags", 7)), F("y", Opt(y, "flags", 8))>>
    [] m = 5 -> <<F("flags", T("flags")), F("x", Opt(x, "flags", 1)), F("flags2", T("flags")), F("y", Opt(y, "flags2", 1)), F("z", T("int"))>>
    [] m = 6 -> <<F("x", x), F("flags", T("flags")), F("t", Opt(T("true"), "flags", 0)), F("y", Opt(y, "flags", 0))>>
Schema(m, x, y) ==
  [d |-> ("p" :> [id |-> <<1, 2, 3, 4>>, f |-> <<>>, kind |-> "P", fn |-> FALSE]) @@ ("p.one" :> [id |-> <<255, 255, 255, 255>>, f |-> <<F("a", T("int"))>>, kind |-> "P", fn |-> FALSE])
      @@ ("r" :> [id |-> <<0, 0, 0, 128>>, f |-> <<F("b", P)>>, kind |-> "P", fn |-> FALSE]) @@ ("c" :> [id |-> <<9, 8, 7, 6>>, f |-> Fields(m, FieldTypes[x], FieldTypes[y]), kind |-> "C", fn |-> FALSE])
      @@ ("call" :> [id |-> <<4, 3, 2, 1>>, f |-> <<F("n", T("int")), F("query", [k |-> "any"])>>, kind |-> "X", fn |-> TRUE]),
   ids |-> ("<<1, 2, 3, 4>>" :> "p") @@ ("<<255, 255, 255, 255>>" :> "p.one") @@ ("<<0, 0, 0, 128>>" :> "r") @@ ("<<9, 8, 7, 6>>" :> "c")]
(* what may be written, and what may be read *)
K(name) == [k |-> "kind", name |-> name]
Anything == [k |-> "any"]
ReadTypes == <<K("C"), Anything, C("c"), V(TRUE, K("C")), P, V(TRUE, P), T("Bool"), T("string"), V(TRUE, T("int")), [k |-> "just", name |-> "c"], [k |-> "just", name |-> "p.one"]>>
Right == {K("C"), Anything, [k |-> "just", name |-> "c"]}
VARIABLES s,      \* the schema: [m, x, y]
          items,  \* what was written: field values as places in Values, 0 when left out
          lost, pos, read, phase, act, out
vars == <<s, items, lost, pos, read, phase, act, out>>
View == <<s, items, lost, pos, read, phase>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
S == Schema(s.m, s.x, s.y)
(* items: [x, y, z] for a c; what is a call or a vector of c wraps one *)
HasT(m) == m \in {4, 6}
Obj(i) == LET X == Values(FieldTypes[s.x])
              Y == Values(FieldTypes[s.y])
          IN O("c", (IF i.x = 0 THEN <<>> ELSE "x" :> X[i.x]) @@ (IF i.y = 0 THEN <<>> ELSE "y" :> Y[i.y]) @@ (IF HasT(s.m) /\ i.t THEN "t" :> T("true") ELSE <<>>) @@ (IF s.m = 5 THEN "z" :> I(<<4, 0, 0, 0>>) ELSE <<>>))
Item(i) == IF i.w = "call" THEN O("call", ("n" :> I(<<2, 0, 0, 0>>)) @@ ("query" :> Obj(i))) ELSE Obj(i)
EncItem(i) == Enc(S, Anything, Item(i))
RECURSIVE All(_)
All(is) == IF is = <<>> THEN <<>> ELSE EncItem(Head(is)) \o All(Tail(is))
Buf == LET b == All(items) IN SubSeq(b, 1, Len(b) - lost)
None == [ok |-> FALSE]
Init == s = [m |-> 0, x |-> 0, y |-> 0] /\ items = <<>> /\ lost = 0 /\ pos = 1 /\ read = <<>> /\ phase = "start" /\ act = [n |-> "Init"] /\ out = None
Open(m, x, y) == /\ phase = "start" /\ s' = [m |-> m, x |-> x, y |-> y] /\ phase' = "write" /\ UNCHANGED <<items, lost, pos, read>>
                 /\ act' = [n |-> "Open", schema |-> Schema(m, x, y)] /\ out' = None
Write(i) == /\ phase = "write" /\ Len(items) < MaxItems /\ UNCHANGED <<s, lost, pos, read>>
            /\ act' = [n |-> "Write", v |-> Item(i)]
            /\ IF Fits(S, Anything, Item(i)) THEN /\ items' = Append(items, i) /\ phase' = "write" /\ out' = [ok |-> TRUE, b |-> All(items')]
               ELSE phase' = "refused" /\ out' = None /\ UNCHANGED items
Lose(n) == /\ phase = "write" /\ items # <<>> /\ Len(All(items)) >= n /\ lost' = n /\ phase' = "read" /\ UNCHANGED <<s, items, pos, read>>
           /\ act' = [n |-> "Lose", k |-> n] /\ out' = None
Read(r) == /\ phase = "read" /\ Len(read) <= Len(items) /\ act' = [n |-> "Read", t |-> ReadTypes[r]] /\ UNCHANGED <<s, items, lost>>
           /\ LET g == Dec(S, ReadTypes[r], Buf, pos)
              IN IF g.ok THEN pos' = g.p /\ read' = Append(read, r) /\ phase' = "read" /\ out' = [ok |-> TRUE, v |-> g.v, left |-> Len(Buf) - g.p + 1]
                 ELSE phase' = "refused" /\ out' = None /\ UNCHANGED <<pos, read>>
Next == \/ \E m \in Modes, x \in FX, y \in FY : Open(m, x, y)
        \/ phase = "write" /\ \E i \in [x : 0..Len(Values(FieldTypes[s.x])), y : 0..Len(Values(FieldTypes[s.y])), t : IF HasT(s.m) THEN BOOLEAN ELSE {FALSE}, w : {"plain", "call"}] : Write(i)
        \/ \E n \in Lost : Lose(n)
        \/ \E r \in RT : Read(r)
Spec == Init /\ [][Next]_vars
(* what was written comes back, in order and whole, when it is read as what it is *)
Back == (phase = "read" /\ (\A i \in 1..Len(read) : ReadTypes[read[i]] \in Right) /\ (\A i \in 1..Len(items) : items[i].w = "plain") /\ read # <<>> /\ out.ok)
        => out.v = Obj(items[Len(read)]) /\ (lost = 0 => out.left = Len(All(SubSeq(items, Len(read) + 1, Len(items)))))
(* nothing is made up of bytes of which some are missing *)
Whole == (phase = "read" /\ lost > 0 /\ (\A i \in 1..Len(read) : ReadTypes[read[i]] \in Right) /\ (\A i \in 1..Len(items) : items[i].w = "plain")) => Len(read) < Len(items)
(* whole words are written *)
Words == phase = "write" => Len(All(items)) % 4 = 0
(* what fits has all that is needed, and one way to read it *)
Refuses == [][(act'.n = "Read" /\ lost = 0 /\ ~out'.ok /\ act'.t \in Right) => Len(read) >= Len(items) \/ items[Len(read) + 1].w = "call" \/ \E i \in 1..Len(read) : ReadTypes[read[i]] \notin Right]_vars
=============================================================================
