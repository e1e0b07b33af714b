--------------------------- MODULE SecretExchange ---------------------------
(* One side of a ready secret chat that exchanges keys with a peer that may   *)
(* do anything: ask for an exchange while another is open, answer with values *)
(* that are no good, commit to another key, abort, name exchanges that do not *)
(* exist, and encrypt with any key it has ever held.  What the peer says      *)
(* comes in the order it was said (numbers and gaps: SecretSeq).              *)
(* Grain: one message or one send with everything it leads to.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxIn,    \* the peer's messages
          MaxUser,  \* the user's messages
          MaxAge,   \* times the key grows old
          MaxEx,    \* exchanges
          On
IsOn(n) == n \in On

VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

None == -1
\* key 0 is the chat's first one; the others carry the number of their exchange.
\* ex: the exchanges so far, and who began them ("c" the client, "p" the peer); made: those the peer could compute the key of
Init == /\ w = [key |-> 0, prev |-> None, disc |-> -1, rekey |-> 0, toc |-> 0, aged |-> FALSE, used |-> FALSE, in |-> 0, sent |-> 0,
                ex |-> <<>>, made |-> {0}, ended |-> FALSE, users |-> 0, ages |-> 0, new |-> <<>>, got |-> 0]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
Obs(r) == [new |-> r.new, got |-> r.got, ended |-> r.ended]
Do(a, r) == act' = a /\ w' = [r EXCEPT !.new = <<>>, !.got = 0] /\ out' = Obs(r)

Sent(r, k, x, key) == [r EXCEPT !.new = Append(@, <<k, x, key, r.in>>), !.sent = @ + 1, !.used = @ \/ key = r.key]
Install(r, key, disc) == [r EXCEPT !.prev = r.key, !.disc = disc, !.key = key, !.aged = FALSE, !.used = FALSE]
Start(r) == IF r.ended \/ ~(r.aged /\ r.used) \/ r.rekey # 0 \/ r.toc # 0 \/ r.prev # None THEN r
            ELSE LET x == Len(r.ex) + 1 IN Sent([r EXCEPT !.rekey = x, !.ex = Append(@, "c")], "req", x, r.key)

Refused(r, x) == Sent(r, "abort", x, r.key)
ReqKey(r, x, lvl, good) ==
  IF r.prev # None \/ r.toc # 0 THEN Refused(r, x)
  ELSE IF r.rekey # 0 /\ lvl = "same" THEN [r EXCEPT !.rekey = 0]       \* both gave it the same name: neither goes on
  ELSE IF r.rekey # 0 /\ lvl = "lo" THEN r                              \* the client's own goes on
  ELSE LET t == [r EXCEPT !.rekey = 0] IN
       IF ~good THEN Refused(t, x)
       ELSE Sent([t EXCEPT !.toc = x, !.made = @ \cup {x}], "acc", x, r.key)
AccKey(r, x, v) ==
  IF x = 0 \/ r.rekey # x THEN r
  ELSE IF v # "good" THEN Refused([r EXCEPT !.rekey = 0], x)
  ELSE [Install(Sent(r, "com", x, r.key), x, -1) EXCEPT !.rekey = 0]
ComKey(r, x, v) ==
  IF x = 0 \/ r.toc # x THEN r
  ELSE IF v # "good" THEN [r EXCEPT !.ended = TRUE]
  ELSE LET t == [Install(r, x, -1) EXCEPT !.toc = 0] IN Sent(t, "noop", 0, x)
Abort(r, x) == [r EXCEPT !.rekey = IF @ = x THEN 0 ELSE @, !.toc = IF @ = x THEN 0 ELSE @]
Handle(r, m) ==
  LET t == [r EXCEPT !.in = @ + 1] IN
  CASE m.k = "m" -> [t EXCEPT !.got = @ + 1]
    [] m.k = "req" -> ReqKey(t, m.x, m.v, m.good) [] m.k = "acc" -> AccKey(t, m.x, m.v) [] m.k = "com" -> ComKey(t, m.x, m.v) [] m.k = "abort" -> Abort(t, m.x)
    [] OTHER -> t
Receive(r, m) ==
  IF r.ended \/ m.key \notin ({r.key, r.prev} \cup (IF r.toc = 0 THEN {} ELSE {r.toc})) THEN r
  ELSE LET pk == r.toc # 0 /\ m.key = r.toc
           i == r.in
           a == CASE pk -> [Install(r, r.toc, i) EXCEPT !.toc = 0]
                  [] ~pk /\ m.key = r.key /\ r.prev # None -> [r EXCEPT !.disc = i]
                  [] OTHER -> r
           b == Handle(a, m) IN
       IF b.ended THEN b
       ELSE LET d == IF pk THEN Sent(b, "noop", 0, b.key) ELSE b IN
            Start(IF d.disc >= 0 /\ d.in > d.disc THEN [d EXCEPT !.prev = None, !.disc = -1] ELSE d)

X == 1..Len(w.ex)
\* what the peer can say; exchange 0 is one that never was
Bodies == {[k |-> "m", x |-> 0, v |-> "", good |-> TRUE], [k |-> "noop", x |-> 0, v |-> "", good |-> TRUE]}
     \cup {[k |-> "req", x |-> Len(w.ex) + 1, v |-> l, good |-> g] : l \in {"lo", "hi"}, g \in BOOLEAN}
     \cup (IF w.rekey # 0 THEN {[k |-> "req", x |-> w.rekey, v |-> "same", good |-> TRUE]} ELSE {})
     \* an exchange asked for once more
     \cup {[k |-> "req", x |-> x, v |-> "lo", good |-> TRUE] : x \in {x \in X : w.ex[x] = "p" /\ (x \notin w.made \/ w.toc # 0 \/ w.prev # None)}}
     \cup {[k |-> "acc", x |-> x, v |-> v, good |-> TRUE] : x \in {0} \cup {x \in X : w.ex[x] = "c"}, v \in {"good", "value", "print"}}
     \cup {[k |-> "com", x |-> x, v |-> v, good |-> TRUE] : x \in {0} \cup (X \cap w.made), v \in {"good", "zero", "other"}}
     \cup {[k |-> "abort", x |-> x, v |-> "", good |-> TRUE] : x \in {0} \cup X}
Fresh(m) == m.k = "req" /\ m.x = Len(w.ex) + 1
Say == /\ w.in < MaxIn /\ ~w.ended
       /\ \E b \in Bodies : \E key \in {k \in w.made \cup {w.key} : k = 0 \/ k \in {w.key, w.prev, w.toc} \/ b.k = "m"} :
            \* only what can be read is more than a message
            /\ (b.k # "m" => key = w.key \/ key = w.toc \/ (key = w.prev /\ IsOn("AnyKey")))
            /\ (Fresh(b) => Len(w.ex) < MaxEx)
            \* the identifiers of the client's exchanges are between those of the peer's, and who repeats keeps the identifier
            /\ (Fresh(b) /\ b.v = "hi" => w.rekey # 0)
            /\ (b.k = "req" /\ ~Fresh(b) /\ b.v = "lo" => w.rekey = 0)
            /\ LET m == [k |-> b.k, x |-> b.x, v |-> b.v, good |-> b.good, key |-> key]
                   r == IF Fresh(b) THEN [w EXCEPT !.ex = Append(@, "p")] ELSE w
                   s == IF b.k = "acc" /\ b.v # "value" /\ b.x # 0 THEN [r EXCEPT !.made = @ \cup {b.x}] ELSE r
               IN Do([n |-> "Say", m |-> m], Receive(s, m))
Send == /\ w.users < MaxUser
        /\ Do([n |-> "Send"], IF w.ended THEN [w EXCEPT !.users = @ + 1] ELSE Start(Sent([w EXCEPT !.users = @ + 1], "m", 0, w.key)))
Age == /\ w.ages < MaxAge /\ Do([n |-> "Age"], [w EXCEPT !.aged = TRUE, !.ages = @ + 1])
Restart == /\ IsOn("Restart") /\ ~w.ended /\ Do([n |-> "Restart"], w)
Next == Say \/ Send \/ Age \/ Restart

\* at most one exchange is open, and none while an old key is still taken
Inv == /\ w.rekey = 0 \/ w.toc = 0
       /\ w.prev # None => w.rekey = 0 /\ w.toc = 0
       /\ w.key # w.prev /\ w.toc \in w.made \cup {0}
\* the key changes only to that of the exchange which both sides have completed with it
Changes == [][w'.key # w.key => /\ ~w'.ended /\ w'.prev \in {w.key, None}
                                /\ \/ w'.key = w.rekey /\ act'.n = "Say" /\ act'.m.k = "acc" /\ act'.m.v = "good" /\ act'.m.x = w.rekey
                                   \/ w'.key = w.toc /\ act'.n = "Say" /\ (act'.m.key = w.toc \/ (act'.m.k = "com" /\ act'.m.v = "good" /\ act'.m.x = w.toc))]_vars
\* nothing is read with a key that was given up, and nothing happens in a chat that has ended
Quiet == [][/\ (w.ended => out'.new = <<>> /\ out'.got = 0 /\ w'.ended)
            /\ (act'.n = "Say" /\ act'.m.key \notin {w.key, w.prev, w.toc} => out'.new = <<>> /\ out'.got = 0)]_vars
=============================================================================
