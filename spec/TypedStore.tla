------------------------------ MODULE TypedStore ------------------------------
(* What the client keeps in storage by kind: each kind of object has its own  *)
(* identities and holds, for each, the version stored last; a message outside *)
(* channels is also found by its number alone; for a sender the place it was  *)
(* last seen at is found; received updates wait in a queue for each box.      *)
(* What is done to one kind, identity or box shows nowhere else.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NK, NI, MaxV, \* kinds, identities of each, versions
          Rm, Cl,       \* kinds whose objects can be deleted one by one, all at once
          NC, NM,       \* chats (the last is a channel) and message numbers
          NS,           \* senders
          NB, MaxQ,     \* boxes, updates waiting in one
          MaxLife       \* times the storage may be opened again or emptied
VARIABLES v, m, ref, last, q, life, act, out
vars == <<v, m, ref, last, q, life, act, out>>
View == <<v, m, ref, last, q, life>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
Ver == 1..MaxV
Obs == [v |-> v, m |-> m, ref |-> ref, last |-> last, q |-> [b \in 1..NB |-> IF q[b] = <<>> THEN 0 ELSE Head(q[b])]]
Empty(x) == /\ v = [k \in 1..NK |-> [i \in 1..NI |-> 0]] /\ m = [c \in 1..NC |-> [n \in 1..NM |-> 0]] /\ ref = [n \in 1..NM |-> 0]
            /\ last = [s \in 1..NS |-> 0] /\ q = [b \in 1..NB |-> <<>>]
Init == Empty(0) /\ life = 0 /\ act = [n |-> "Init"] /\ out = Obs
Done(a) == act' = a /\ out' = Obs'

Put(k, i, x) == /\ v' = [v EXCEPT ![k][i] = x] /\ UNCHANGED <<m, ref, last, q, life>> /\ Done([n |-> "Put", k |-> k, i |-> i, x |-> x])
Remove(k, i) == /\ k \in Rm /\ v' = [v EXCEPT ![k][i] = 0] /\ UNCHANGED <<m, ref, last, q, life>> /\ Done([n |-> "Remove", k |-> k, i |-> i])
Clear(k) == /\ k \in Cl /\ v' = [v EXCEPT ![k] = [i \in 1..NI |-> 0]] /\ UNCHANGED <<m, ref, last, q, life>> /\ Done([n |-> "Clear", k |-> k])

Channel(c) == c = NC
(* outside channels a number belongs to one chat *)
Fits(c, n) == Channel(c) \/ ref[n] \in {0, c}
PutMessage(c, n, x) == /\ Fits(c, n) /\ m' = [m EXCEPT ![c][n] = x] /\ ref' = IF Channel(c) THEN ref ELSE [ref EXCEPT ![n] = c]
                       /\ UNCHANGED <<v, last, q, life>> /\ Done([n |-> "PutMessage", c |-> c, m |-> n, x |-> x])
RemoveMessage(c, n) == /\ Fits(c, n) /\ m' = [m EXCEPT ![c][n] = 0] /\ ref' = IF Channel(c) THEN ref ELSE [ref EXCEPT ![n] = 0]
                       /\ UNCHANGED <<v, last, q, life>> /\ Done([n |-> "RemoveMessage", c |-> c, m |-> n])
ClearMessages == /\ NC > 0 /\ m' = [c \in 1..NC |-> [n \in 1..NM |-> 0]] /\ ref' = [n \in 1..NM |-> 0]
                 /\ UNCHANGED <<v, last, q, life>> /\ Done([n |-> "ClearMessages"])

See(s, p) == /\ last' = [last EXCEPT ![s] = p] /\ UNCHANGED <<v, m, ref, q, life>> /\ Done([n |-> "See", s |-> s, p |-> p])
Forget == /\ NS > 0 /\ last' = [s \in 1..NS |-> 0] /\ UNCHANGED <<v, m, ref, q, life>> /\ Done([n |-> "Forget"])

Queue(b, x, back) == /\ Len(q[b]) < MaxQ /\ q' = [q EXCEPT ![b] = Append(@, x)] /\ UNCHANGED <<v, m, ref, last, life>>
                     /\ Done([n |-> "Queue", b |-> b, x |-> x, back |-> back])
Take(b) == /\ q[b] # <<>> /\ q' = [q EXCEPT ![b] = Tail(@)] /\ UNCHANGED <<v, m, ref, last, life>> /\ Done([n |-> "Take", b |-> b])
Drop == /\ NB > 0 /\ q' = [b \in 1..NB |-> <<>>] /\ UNCHANGED <<v, m, ref, last, life>> /\ Done([n |-> "Drop"])

Reopen == /\ life < MaxLife /\ life' = life + 1 /\ UNCHANGED <<v, m, ref, last, q>> /\ Done([n |-> "Reopen"])
Reset == /\ life < MaxLife /\ life' = life + 1
         /\ v' = [k \in 1..NK |-> [i \in 1..NI |-> 0]] /\ m' = [c \in 1..NC |-> [n \in 1..NM |-> 0]] /\ ref' = [n \in 1..NM |-> 0]
         /\ last' = [s \in 1..NS |-> 0] /\ q' = [b \in 1..NB |-> <<>>] /\ Done([n |-> "Reset"])
Next == \/ Reopen \/ Reset \/ ClearMessages \/ Forget \/ Drop
        \/ \E k \in 1..NK : Clear(k) \/ \E i \in 1..NI : Remove(k, i) \/ \E x \in Ver : Put(k, i, x)
        \/ \E c \in 1..NC, n \in 1..NM : RemoveMessage(c, n) \/ \E x \in Ver : PutMessage(c, n, x)
        \/ \E s \in 1..NS, p \in 1..3 : See(s, p)
        \/ \E b \in 1..NB : Take(b) \/ \E x \in Ver, back \in BOOLEAN : Queue(b, x, back)
Spec == Init /\ [][Next]_vars
(* a number leads to a message that is there *)
RefInv == \A n \in 1..NM : ref[n] # 0 => m[ref[n]][n] # 0 /\ ref[n] # NC
Other == \A c \in 1..NC, n \in 1..NM : m[c][n] # 0 /\ c # NC => ref[n] = c
(* one step changes one thing unless it empties a whole kind *)
Local == [][act'.n \in {"Put", "Remove", "Clear"} =>
            /\ \A k \in 1..NK : k # act'.k => v'[k] = v[k]
            /\ m' = m /\ ref' = ref /\ last' = last /\ q' = q
            /\ act'.n # "Clear" => \A i \in 1..NI : i # act'.i => v'[act'.k][i] = v[act'.k][i]]_vars
(* updates leave a box in the order in which they came *)
Order == [][\A b \in 1..NB : q'[b] = q[b] \/ q'[b] = <<>> \/ (q[b] # <<>> /\ q'[b] = Tail(q[b])) \/ (Len(q'[b]) = Len(q[b]) + 1 /\ SubSeq(q'[b], 1, Len(q[b])) = q[b])]_vars
=============================================================================
