------------------------------ MODULE Staying ------------------------------
(* A client that is to be connected: whatever happens to its connections, it *)
(* comes back as soon as the network allows, what happened while it was away *)
(* or was lost on the way reaches the handlers once and in order, the state  *)
(* it shows is its own, and calls wait for the connection or fail.           *)
(* Every action is followed by as much time as its consequences need.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxMade, MaxCalls, Stages, MaxStages,
          On       \* subset of {"Miss", "Call", "Forget", "Age", "Long", "Corrupt", "Day"}
VARIABLES want,    \* connect() was called, and disconnect() has not been since
          net,     \* the server can be reached
          made,    \* messages the server has produced
          got,     \* of which the handlers have seen
          wait, fly, calls, \* calls waiting for the connection, sent ones, all
          long,    \* there has been an outage of minutes since connect()
          act, out
vars == <<want, net, made, got, wait, fly, calls, long, act, out>>
View == <<want, net, made, got, wait, fly, calls, long>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Up == want /\ net
Init == want = TRUE /\ net = TRUE /\ made = 0 /\ got = 0 /\ wait = {} /\ fly = {} /\ calls = 0 /\ long = FALSE
        /\ act = [n |-> "Init"] /\ out = <<>>
(* what is seen: messages, calls in the order of their numbers, the state shown *)
RECURSIVE Sorted(_, _)
Sorted(S, w) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN << <<w, k>> >> \o Sorted(S \ {k}, w)
Shows(failed, sent, done) == out' = [i \in 1..(got' - got) |-> <<"msg", got + i>>] \o Sorted(failed, "failed") \o Sorted(sent, "sent") \o Sorted(done, "done")
                                    \o << <<"shown", IF want' /\ net' THEN "ready" ELSE "notConnected">> >>
Caught == got' = IF want' /\ net' THEN made' ELSE got
Plans == UNION {[1..n -> Stages] : n \in 0..MaxStages}
Calm(st) == st # <<>> => wait = {}

Connect == /\ ~want \/ Up
           /\ act' = [n |-> "Connect"]
           /\ want' = (want \/ net) /\ UNCHANGED <<net, made, wait, fly, calls>>
           /\ IF want THEN got' = got ELSE Caught
           /\ long' = (long /\ (want \/ ~net))
           /\ Shows({}, {}, {})
Disconnect == /\ act' = [n |-> "Disconnect"]
              /\ want' = FALSE /\ wait' = {} /\ fly' = {} /\ UNCHANGED <<net, made, got, calls, long>>
              /\ Shows(wait \cup fly, {}, {})
(* the connection is lost; st is what happens to the next ones *)
Lose(st) == /\ Up /\ Calm(st) /\ act' = [n |-> "Lose", st |-> st]
            /\ UNCHANGED <<want, net, made, wait, calls, long>> /\ fly' = {} /\ Caught
            /\ Shows(fly, {}, {})
Cut(l) == /\ net /\ act' = [n |-> "Cut", long |-> l] /\ net' = FALSE /\ fly' = {} /\ UNCHANGED <<want, made, got, wait, calls>>
       /\ (l => "Long" \in On) /\ long' = ("Long" \in On /\ (long \/ (l /\ want)))
       /\ Shows(fly, {}, {})
Back(st) == /\ ~net /\ Calm(st) /\ (want \/ st = <<>>) /\ act' = [n |-> "Back", st |-> st] /\ net' = TRUE
            /\ UNCHANGED <<want, made, calls, long>> /\ Caught
            /\ IF want THEN wait' = {} /\ fly' = fly \cup wait /\ Shows({}, wait, {})
               ELSE UNCHANGED <<wait, fly>> /\ Shows({}, {}, {})
(* what is received cannot be read: the session is given up for a new one *)
Corrupt(st) == /\ "Corrupt" \in On /\ Up /\ Calm(st) /\ fly = {} /\ act' = [n |-> "Corrupt", st |-> st]
               /\ UNCHANGED <<want, net, made, wait, fly, calls, long>> /\ Caught
               /\ Shows({}, {}, {})
(* the server no longer knows the temporary key *)
Forget(st) == /\ "Forget" \in On /\ Up /\ Calm(st) /\ act' = [n |-> "Forget", st |-> st]
              /\ UNCHANGED <<want, net, made, wait, calls, long>> /\ fly' = {} /\ Caught
              /\ Shows(fly, {}, {})
Push == /\ made < MaxMade /\ act' = [n |-> "Push"] /\ made' = made + 1
        /\ UNCHANGED <<want, net, wait, fly, calls, long>> /\ Caught /\ Shows({}, {}, {})
(* ... of which the client hears nothing *)
Miss == /\ "Miss" \in On /\ Up /\ made < MaxMade /\ act' = [n |-> "Miss"] /\ made' = made + 1
        /\ UNCHANGED <<want, net, got, wait, fly, calls, long>> /\ Shows({}, {}, {})
Garbage == /\ "Miss" \in On /\ Up /\ act' = [n |-> "Garbage"] /\ UNCHANGED <<want, net, made, wait, fly, calls, long>>
           /\ Caught /\ Shows({}, {}, {})
(* more than a quarter of an hour; a shorter while *)
Quiet == /\ "Miss" \in On /\ act' = [n |-> "Quiet"] /\ UNCHANGED <<want, net, made, wait, fly, calls, long>>
         /\ Caught /\ Shows({}, {}, {})
Age == /\ "Age" \in On /\ act' = [n |-> "Age"] /\ UNCHANGED View /\ Shows({}, {}, {})
(* more than a temporary key lasts *)
Day == /\ "Day" \in On /\ wait = {} /\ fly = {} /\ act' = [n |-> "Day"] /\ UNCHANGED <<want, net, made, wait, fly, calls, long>> /\ Caught /\ Shows({}, {}, {})
Call == /\ "Call" \in On /\ calls < MaxCalls /\ act' = [n |-> "Call"] /\ calls' = calls + 1
        /\ UNCHANGED <<want, net, made, got, long>>
        /\ CASE Up -> fly' = fly \cup {calls + 1} /\ wait' = wait /\ Shows({}, {calls + 1}, {})
             [] want /\ ~net -> wait' = wait \cup {calls + 1} /\ fly' = fly /\ Shows({}, {}, {})
             [] OTHER -> UNCHANGED <<wait, fly>> /\ Shows({calls + 1}, {}, {})
Reply(k) == /\ k \in fly /\ Up /\ act' = [n |-> "Reply", k |-> k] /\ fly' = fly \ {k}
            /\ UNCHANGED <<want, net, made, got, wait, calls, long>> /\ Shows({}, {}, {k})

Next == \/ Connect \/ Disconnect \/ (\E l \in BOOLEAN : Cut(l)) \/ Push \/ Miss \/ Garbage \/ Quiet \/ Age \/ Day \/ Call
        \/ \E st \in Plans : Lose(st) \/ Back(st) \/ Forget(st) \/ Corrupt(st)
        \/ \E k \in fly : Reply(k)
Inv == got <= made /\ wait \cap fly = {} /\ (wait # {} => want /\ ~net) /\ (fly # {} => Up)
=============================================================================
