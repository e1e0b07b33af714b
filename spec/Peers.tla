-------------------------------- MODULE Peers --------------------------------
(* What a client knows about users and channels.  Whatever the server tells  *)
(* in full is what counts from then on (access hash, names, user names);     *)
(* what it tells in part ("min") only leads, through the last message they   *)
(* were seen in, to those not known in full.  User names and phone numbers   *)
(* lead to their last known holder for a day, then the server is asked.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Users, Channels, Names, Phones, MaxV,
          On        \* subset of {"Name", "Age", "Talk", "Tell", "Rename", "Bot", "Restart"}
VARIABLES hash,     \* the access hash last told, 0 if none
          title,    \* the name last told; 9 is the one given by a change of name
          nick,     \* the user names shown
          who,      \* the holder of a name
          fresh,    \* learnt less than a day ago
          ref,      \* the last message someone was seen in
          asking,   \* what the server has been asked
          act, out
vars == <<hash, title, nick, who, fresh, ref, asking, act, out>>
View == <<hash, title, nick, who, fresh, ref, asking>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Peers == Users \cup Channels
Keys == Names \cup Phones
Bot == "Bot" \in On
Init == /\ hash = [p \in Peers |-> 0] /\ title = [p \in Peers |-> 0] /\ nick = [p \in Peers |-> {}]
        /\ who = [n \in Keys |-> ""] /\ fresh = [n \in Keys |-> FALSE] /\ ref = [p \in Peers |-> <<>>]
        /\ asking = <<>> /\ act = [n |-> "Init"] /\ out = <<>>

(* p is told in full; ns are the user names it has *)
Told(p, v, ns) == /\ hash' = [hash EXCEPT ![p] = v]
                  /\ title' = IF "Tell" \in On THEN [title EXCEPT ![p] = v] ELSE title
                  /\ nick' = IF "Tell" \in On THEN [nick EXCEPT ![p] = ns] ELSE nick
Holds(p, ns) == /\ who' = [n \in Keys |-> IF n \in ns THEN p ELSE who[n]]
                /\ fresh' = [n \in Keys |-> IF n \in ns THEN TRUE ELSE fresh[n]]
Ref(p, h, r) == IF h[p] # 0 THEN <<"is", p, h[p]>>
                ELSE IF r[p] # <<>> THEN <<"via", p, r[p][1], h[r[p][1]], r[p][2]>>
                ELSE <<"none">>
CanHear == IF asking = <<>> THEN TRUE ELSE asking[1] = "name"
Unknown(p) == Bot /\ hash[p] = 0 /\ ref[p] = <<>>
Look(p) == IF Unknown(p) THEN asking' = <<"id", p>> /\ out' = << <<"ask", p>> >>
           ELSE asking' = <<>> /\ out' = << Ref(p, hash, ref) >>

Seen(p, v, ns) == /\ act' = [n |-> "Seen", p |-> p, v |-> v, names |-> ns]
                  /\ CanHear
                  /\ Told(p, v, ns) /\ Holds(p, ns) /\ UNCHANGED <<ref, asking>> /\ out' = <<>>
(* told in part only *)
Part(p) == /\ act' = [n |-> "Part", p |-> p] /\ asking = <<>>
           /\ UNCHANGED View /\ out' = <<>>
(* p wrote the m-th message of c, and is told in part only *)
Talk(p, c, m) == /\ "Talk" \in On /\ asking = <<>> /\ p # c /\ hash[c] # 0
                 /\ act' = [n |-> "Talk", p |-> p, c |-> c, m |-> m]
                 /\ ref' = [ref EXCEPT ![p] = <<c, m>>] /\ UNCHANGED <<hash, title, nick, who, fresh, asking>> /\ out' = <<>>
Rename(u, ns) == /\ "Rename" \in On /\ CanHear
                 /\ (Bot => hash[u] # 0)
                 /\ act' = [n |-> "Rename", p |-> u, names |-> ns]
                 /\ title' = IF "Tell" \in On /\ hash[u] # 0 THEN [title EXCEPT ![u] = 9] ELSE title
                 /\ nick' = IF "Tell" \in On /\ hash[u] # 0 THEN [nick EXCEPT ![u] = ns] ELSE nick
                 /\ Holds(u, ns) /\ UNCHANGED <<hash, ref, asking>> /\ out' = <<>>
(* a message from someone known reaches a handler *)
Tell(p) == /\ "Tell" \in On /\ asking = <<>> /\ hash[p] # 0
           /\ act' = [n |-> "Tell", p |-> p]
           /\ UNCHANGED View /\ out' = << <<"from", p, title[p], nick[p]>> >>
(* both in one batch: the message already shows them as told *)
TellNew(p, v) == /\ "Tell" \in On /\ asking = <<>>
                 /\ act' = [n |-> "TellNew", p |-> p, v |-> v]
                 /\ Told(p, v, {}) /\ UNCHANGED <<who, fresh, ref, asking>> /\ out' = << <<"from", p, v, {}>> >>
Age == /\ "Age" \in On /\ asking = <<>> /\ \E n \in Keys : fresh[n]
       /\ act' = [n |-> "Age"] /\ fresh' = [n \in Keys |-> FALSE]
       /\ UNCHANGED <<hash, title, nick, who, ref, asking>> /\ out' = <<>>

Get(p) == /\ asking = <<>> /\ act' = [n |-> "Get", p |-> p]
          /\ Look(p) /\ UNCHANGED <<hash, title, nick, who, fresh, ref>>
Me == /\ asking = <<>> /\ act' = [n |-> "Me"] /\ UNCHANGED View /\ out' = << <<"me">> >>
Group == /\ asking = <<>> /\ act' = [n |-> "Group"] /\ UNCHANGED View /\ out' = << <<"group">> >>
Name(n) == /\ "Name" \in On /\ asking = <<>> /\ act' = [n |-> "Name", k |-> n]
           /\ IF fresh[n] THEN Look(who[n])
              ELSE asking' = <<"name", n>> /\ out' = << <<"ask", n>> >>
           /\ UNCHANGED <<hash, title, nick, who, fresh, ref>>
(* the server's answers: p, told in full; or nobody *)
Answer(p, v) == /\ asking # <<>>
                /\ IF asking[1] = "name" THEN (asking[2] \in Phones => p \in Users) ELSE p = asking[2]
                /\ act' = [n |-> "Answer", p |-> p, v |-> v]
                /\ LET ns == IF asking[1] = "name" /\ asking[2] \in Names THEN {asking[2]} ELSE {} IN
                   /\ Told(p, v, ns)
                   /\ Holds(p, IF asking[1] = "name" THEN {asking[2]} ELSE {})
                /\ asking' = <<>> /\ UNCHANGED ref
                /\ out' = << <<"is", p, v>> >>
Nobody == /\ asking # <<>> /\ act' = [n |-> "Nobody"]
          /\ asking' = <<>> /\ UNCHANGED <<hash, title, nick, who, fresh, ref>>
          /\ out' = << IF asking[1] = "name" THEN <<"fail">> ELSE <<"none">> >>
Restart == /\ "Restart" \in On /\ asking = <<>> /\ act' = [n |-> "Restart"] /\ UNCHANGED View /\ out' = <<>>

Next == \/ \E p \in Peers : \/ \E v \in 1..MaxV : (\E ns \in SUBSET Names : Seen(p, v, ns)) \/ Answer(p, v) \/ TellNew(p, v)
                            \/ Part(p) \/ Tell(p) \/ Get(p)
                            \/ \E c \in Channels, m \in 1..2 : Talk(p, c, m)
        \/ \E u \in Users, ns \in SUBSET Names : Rename(u, ns)
        \/ \E n \in Keys : Name(n)
        \/ Age \/ Me \/ Group \/ Nobody \/ Restart

Inv == /\ \A n \in Keys : fresh[n] => who[n] # ""
       /\ \A p \in Peers : (hash[p] = 0 => title[p] = 0 /\ nick[p] = {}) /\ (ref[p] # <<>> => hash[ref[p][1]] # 0 /\ ref[p][1] # p)
(* what has been told in full is not forgotten *)
Known == [][\A p \in Peers : hash[p] # 0 => hash'[p] # 0]_vars
==============================================================================
