------------------------------- MODULE TLTrace -------------------------------
(* Validates what the real code made of real schemas' objects against TL: the  *)
(* bytes of each object, what was read back of them and of parts of them, what *)
(* was refused, the bytes of messages and containers, and the number of each   *)
(* constructor and function, which is a checksum of how it is declared.        *)
EXTENDS TL, IOUtils, Json, Bitwise, FiniteSets
Traces == JsonDeserialize("traces.json")
VARIABLES t, l
Init == t \in 1..Len(Traces) /\ l = 0
E == Traces[t][l + 1]
S == Traces[t][1].s

(* messages: an identifier, a number in the sequence, a length, a body that may be a container of messages *)
RECURSIVE EncMessage(_), EncMessages(_, _)
EncMessages(ms, i) == IF i > Len(ms) THEN <<>> ELSE EncMessage(ms[i]) \o EncMessages(ms, i + 1)
EncMessage(m) == LET body == IF m.container THEN <<220, 248, 241, 115>> \o Int4(Len(m.m)) \o EncMessages(m.m, 1) ELSE m.b
                 IN m.id \o m.seq \o Int4(Len(body)) \o body

(* CRC-32, in halves of sixteen bits *)
Half(i, k) == LET RECURSIVE Go(_, _) Go(c, n) == IF n = 0 THEN c ELSE
                    LET r == <<c[1] \div 2, (c[2] \div 2) + (IF c[1] % 2 = 1 THEN 32768 ELSE 0)>>
                    IN Go(IF c[2] % 2 = 1 THEN <<r[1] ^^ 60856, r[2] ^^ 33568>> ELSE r, n - 1)
              IN Go(<<0, i>>, 8)[k]
Table == [k \in 1..2 |-> [i \in 0..255 |-> Half(i, k)]]
RECURSIVE CrcGo(_, _, _)
CrcGo(b, i, c) == IF i > Len(b) THEN c
                  ELSE LET x == (c[2] ^^ b[i]) % 256
                       IN CrcGo(b, i + 1, <<(c[1] \div 256) ^^ Table[1][x], ((c[2] \div 256) + (256 * (c[1] % 256))) ^^ Table[2][x]>>)
Crc(b) == LET c == CrcGo(b, 1, <<65535, 65535>>)
              hi == 65535 - c[1]
              lo == 65535 - c[2]
          IN <<lo % 256, lo \div 256, hi % 256, hi \div 256>>
(* a declaration's text: without fields that take no bytes, bytes being called string, vectors written apart *)
Space == <<32>>
RECURSIVE Join(_, _)
Join(fs, i) == IF i > Len(fs) THEN <<>> ELSE (IF fs[i].bare THEN <<>> ELSE Space \o fs[i].b) \o Join(fs, i + 1)
Line(e) == e.name \o e.generic \o Join(e.f, 1) \o <<32, 61, 32>> \o e.kind
(* numbers given by hand *)
Assigned == ("ipPortSecret" :> <<70, 38, 152, 55>>) @@ ("accessPointRule" :> <<95, 182, 121, 70>>) @@ ("help.configSimple" :> <<108, 42, 89, 90>>) @@ 
            ("inputPeerPhotoFileLocationLegacy" :> <<151, 153, 214, 39>>) @@ ("inputStickerSetThumbLegacy" :> <<233, 234, 186, 13>>) @@ 
            ("invokeWithBusinessConnectionPrefix" :> <<142, 159, 40, 221>>) @@ ("invokeWithGooglePlayIntegrityPrefix" :> <<132, 41, 249, 29>>) @@ 
            ("invokeWithApnsSecretPrefix" :> <<248, 84, 174, 13>>) @@ ("invokeWithReCaptchaPrefix" :> <<148, 15, 187, 173>>) @@ 
            ("decryptedMessageMediaDocument" :> <<130, 151, 189, 106>>)

(* what a call is answered with: what the innermost of the calls around one another declares *)
RECURSIVE AnswerType(_)
AnswerType(call) == LET a == S.d[call[1]].answer IN IF a.k = "any" /\ Len(call) > 1 THEN AnswerType(Tail(call)) ELSE a

Step ==
  /\ l < Len(Traces[t]) /\ l' = l + 1 /\ t' = t
  /\ CASE E.n = "Schema" -> /\ Cardinality({E.s.d[c].id : c \in {x \in DOMAIN E.s.d : ~E.s.d[x].fn}}) = Cardinality(DOMAIN E.s.ids)
                            /\ \A key \in DOMAIN E.s.ids : ToString(E.s.d[E.s.ids[key]].id) = key
       [] E.n = "Def" -> E.id = Crc(Line(E)) \/ (E.text \in DOMAIN Assigned /\ Assigned[E.text] = E.id)
       (* an object is written as its bytes and read back from them, all of them *)
       [] E.n = "Object" -> /\ Fits(S, E.t, E.v) /\ E.b = Enc(S, E.t, E.v)
                            /\ E.read => E.back = E.v /\ E.left = 0
       [] E.n = "Answer" -> E.b = Enc(S, E.t, E.v) /\ E.back = E.v /\ E.left = 0
       [] E.n = "Message" -> E.b = EncMessage(E.v) /\ E.back = E.v /\ E.left = 0
       [] E.n = "Called" -> E.b = Enc(S, AnswerType(E.call), E.v) /\ E.back = E.v
       (* what does not fit is refused *)
       [] E.n = "Misfit" -> ~Fits(S, E.t, E.v) => E.refused
       (* other bytes are read as what they say or refused *)
       [] E.n = "Bytes" -> LET g == Dec(S, E.t, E.b, 1) IN E.refused = ~g.ok /\ (g.ok => E.back = g.v /\ E.left = Len(E.b) - g.p + 1)
Next == Step
Track == TLCSet(t, IF l > TLCGet(t) THEN l ELSE TLCGet(t))
InitT == (\A i \in 1..Len(Traces) : TLCSet(i, 0)) /\ Init
Report == PrintT("@@" \o ToJson([i \in 1..Len(Traces) |-> TLCGet(i)]))
=============================================================================
