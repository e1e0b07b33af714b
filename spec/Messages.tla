------------------------------ MODULE Messages ------------------------------
(* Messages as a client knows them.  The server holds the messages; it tells *)
(* the client of new, edited and deleted ones in order (after an outage by a *)
(* difference, or it says that too much was missed), and of reactions, votes *)
(* and views as they come.  What handlers are given and what the client      *)
(* answers must be what the server last told, or what it holds.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Msgs,     \* the messages, named by their chat: "a" private, "b" group, "c" channel
          Polls, Out, \* those which are polls; those sent by the user itself
          Repliers, \* those which reply to the first of their chat
          MaxV, MaxN,
          On        \* subset of {"Edit", "Marks", "Lose", "Views", "Delete", "Elsewhere", "Miss", "Ours", "History", "Restart", "Fail", "Sure", "OutToo", "Both", "Astray"}
VARIABLES truth,    \* <<>> not sent yet, <<0>> deleted, or <<version, marks, one of them the user's, views>>
          told,     \* the same as last told; <<0>>: only its chat is known; <<>>: nothing
          missed,   \* what happened in each sequence and was not told
          pend,     \* a deletion no handler took yet
          act, out
vars == <<truth, told, missed, pend, act, out>>
View == <<truth, told, missed, pend>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Chat(m) == IF m \in {"a1", "a2", "a3"} THEN "a" ELSE IF m \in {"b1", "b2", "b3"} THEN "b" ELSE "c"
Box(m) == IF Chat(m) = "c" THEN "c" ELSE "m"
Boxes == {Box(m) : m \in Msgs}
Live(m) == Len(truth[m]) = 4
Known(m) == told[m] # <<>>
Full(m) == Len(told[m]) = 4
Order == SelectSeq(<<"a1", "a2", "a3", "b1", "b2", "b3", "c1", "c2", "c3">>, LAMBDA m : m \in Msgs)
Reply == [m \in Msgs |-> IF m \in Repliers THEN Chat(m) \o "1" ELSE ""]
Free(b) == pend = <<>> /\ missed[b] = <<>>

Init == /\ truth = [m \in Msgs |-> <<>>] /\ told = [m \in Msgs |-> <<>>]
        /\ missed = [b \in Boxes |-> <<>>] /\ pend = <<>> /\ act = [n |-> "Init"] /\ out = <<>>

Fresh == <<1, 0, FALSE, 0>>
RECURSIVE Pick(_, _)
Pick(S, i) == IF i > Len(Order) THEN <<>> ELSE (IF Order[i] \in S THEN <<Order[i]>> ELSE <<>>) \o Pick(S, i + 1)

(* what shows of the message m replies to *)
Version(t) == IF Len(t) = 4 THEN t[1] ELSE 0
Re(m) == IF Reply[m] = "" THEN 9 ELSE IF Full(Reply[m]) THEN told[Reply[m]][1] ELSE Version(truth[Reply[m]])
Learnt(t, m) == IF Reply[m] = "" THEN t
                ELSE IF Full(Reply[m]) \/ ~Live(Reply[m]) THEN t
                ELSE [t EXCEPT ![Reply[m]] = truth[Reply[m]]]
Heard(m) == m \in Out => "OutToo" \in On
Show(kind, m, t) == <<kind, m, t[1], t[2], t[3], t[4], Re(m)>>
Event(kind, m, t) == IF Heard(m) THEN << Show(kind, m, t) >> ELSE <<>>
ToldOf(m, t) == LET k == IF Heard(m) THEN Learnt(told, m) ELSE told IN [k EXCEPT ![m] = t]

New(m) == /\ act' = [n |-> "New", m |-> m]
          /\ Free(Box(m)) /\ truth[m] = <<>>
          /\ truth' = [truth EXCEPT ![m] = Fresh] /\ told' = ToldOf(m, Fresh)
          /\ out' = Event("new", m, Fresh) /\ UNCHANGED <<missed, pend>>
Edit(m) == LET t == [truth[m] EXCEPT ![1] = @ + 1] IN
          /\ act' = [n |-> "Edit", m |-> m]
          /\ "Edit" \in On /\ Free(Box(m)) /\ Live(m) /\ truth[m][1] < MaxV
          /\ truth' = [truth EXCEPT ![m] = t] /\ told' = ToldOf(m, t)
          /\ out' = Event("edited", m, t) /\ UNCHANGED <<missed, pend>>
(* there are n marks now, with the user's own if mine; told so as everybody is (min), or lost on the way *)
Marks(m, n, mine, how) ==
          LET t == [told[m] EXCEPT ![2] = n, ![3] = IF how = "min" THEN @ /\ n > 0 ELSE mine] IN
          /\ act' = [n |-> "Marks", m |-> m, c |-> n, mine |-> mine, how |-> how]
          /\ "Marks" \in On /\ pend = <<>> /\ Live(m)
          /\ <<n, mine>> # <<truth[m][2], truth[m][3]>> /\ (mine => n > 0)
          /\ IF how = "min" THEN mine = truth[m][3] ELSE TRUE
          /\ IF how = "lost" THEN "Lose" \in On ELSE TRUE
          /\ truth' = [truth EXCEPT ![m][2] = n, ![m][3] = mine]
          /\ IF how = "lost" \/ ~Full(m) THEN UNCHANGED told /\ out' = <<>>
             ELSE told' = [told EXCEPT ![m] = t] /\ out' = << <<IF m \in Polls THEN "poll" ELSE "marks", m, t[2], t[3], t[4]>> >>
          /\ UNCHANGED <<missed, pend>>
Views(m) == LET t == [told[m] EXCEPT ![4] = truth[m][4] + 1] IN
          /\ act' = [n |-> "Views", m |-> m]
          /\ "Views" \in On /\ pend = <<>> /\ Live(m) /\ Chat(m) = "c" /\ truth[m][4] < 2
          /\ truth' = [truth EXCEPT ![m][4] = @ + 1]
          /\ IF ~Full(m) THEN UNCHANGED told /\ out' = <<>>
             ELSE told' = [told EXCEPT ![m] = t] /\ out' = << <<"marks", m, t[2], t[3], t[4]>> >>
          /\ UNCHANGED <<missed, pend>>

(* a handler of deletions still finds the deleted messages *)
Names(S) == LET s == Pick(S, 1) IN [i \in DOMAIN s |-> <<s[i], Version(told[s[i]])>>]
Reported(S) == {m \in S : Box(m) = "c" \/ Known(m)}
Gone(S) == IF Reported(S) = {} THEN <<>> ELSE << <<"gone", Names(Reported(S))>> >>
Without(t, S) == [m \in Msgs |-> IF m \in S THEN <<>> ELSE t[m]]
Deleted(S) == [m \in Msgs |-> IF m \in S THEN <<0>> ELSE truth[m]]
Delete(S, fail) ==
          /\ act' = [n |-> "Delete", s |-> Pick(S, 1), fail |-> fail]
          /\ "Delete" \in On /\ \E b \in Boxes : (\A m \in S : Box(m) = b) /\ Free(b)
          /\ S # {} /\ \A m \in S : Live(m)
          /\ IF fail > 0 THEN "Fail" \in On /\ Reported(S) # {} ELSE TRUE
          /\ IF fail = 2 THEN "Sure" \in On ELSE TRUE
          /\ truth' = Deleted(S)
          /\ out' = IF fail = 3 THEN (IF "Sure" \in On THEN Gone(S) ELSE <<>>) \* what is handled before it failed
                     ELSE IF fail > 0 /\ "Sure" \in On THEN Gone(S) \o Gone(S) ELSE Gone(S)
          /\ IF fail = 2 THEN pend' = Pick(S, 1) /\ UNCHANGED told ELSE told' = Without(told, S) /\ UNCHANGED pend
          /\ UNCHANGED missed
(* the same number deleted where messages are numbered apart *)
Elsewhere(kind, m) ==
          /\ act' = [n |-> "Elsewhere", kind |-> kind, m |-> m]
          /\ "Elsewhere" \in On /\ pend = <<>> /\ truth[m] # <<>>
          /\ CASE kind = "business" -> Chat(m) = "a"
               [] kind = "ephemeral" -> Chat(m) = "b"
               [] kind = "scheduled" -> TRUE
          /\ UNCHANGED View /\ out' = << <<"elsewhere", kind, m>> >>

Answer(t) == IF Len(t) = 4 THEN <<"is", t[1], t[2], t[3], t[4]>> ELSE <<"none">>
Get(m) == /\ act' = [n |-> "Get", m |-> m]
          /\ truth[m] # <<>>
          /\ \/ Full(m) /\ UNCHANGED told /\ out' = << Answer(told[m]) >>
             \/ told[m] # truth[m] /\ pend = <<>> /\ told' = (IF Live(m) THEN [told EXCEPT ![m] = truth[m]] ELSE told) /\ out' = << Answer(truth[m]) >>
          /\ UNCHANGED <<truth, missed, pend>>
(* asked for in another chat of the same numbering *)
Astray(m) == /\ act' = [n |-> "Astray", m |-> m]
          /\ pend = <<>> /\ "Astray" \in On /\ Box(m) = "m" /\ truth[m] # <<>>
          /\ told' = (IF Live(m) THEN [told EXCEPT ![m] = truth[m]] ELSE told)
          /\ out' = << <<"none">> >> /\ UNCHANGED <<truth, missed, pend>>
(* two at once; those of a chat come from the server together *)
Both(m, k) == /\ act' = [n |-> "Both", m |-> m, k |-> k]
          /\ pend = <<>> /\ "Both" \in On /\ m # k /\ Chat(m) = Chat(k) /\ truth[m] # <<>> /\ truth[k] # <<>>
          /\ \/ Full(m) /\ Full(k) /\ UNCHANGED told /\ out' = << Answer(told[m]), Answer(told[k]) >>
             \/ <<told[m], told[k]>> # <<truth[m], truth[k]>> /\ told' = [x \in Msgs |-> IF x \in {m, k} /\ Live(x) THEN truth[x] ELSE told[x]]
                /\ out' = << Answer(truth[m]), Answer(truth[k]) >>
          /\ UNCHANGED <<truth, missed, pend>>
History(c) == LET s == Pick({m \in Msgs : Chat(m) = c /\ Live(m)}, 1) IN
          /\ act' = [n |-> "History", c |-> c]
          /\ "History" \in On /\ pend = <<>>
          /\ told' = [m \in Msgs |-> IF Chat(m) = c /\ Live(m) THEN truth[m] ELSE told[m]]
          /\ out' = << <<"history", [i \in DOMAIN s |-> <<s[i], truth[s[i]][1], truth[s[i]][2], truth[s[i]][3], truth[s[i]][4]>>]>> >>
          /\ UNCHANGED <<truth, missed, pend>>

(* the user's own doing through this client *)
Send(m) == /\ act' = [n |-> "Send", m |-> m]
          /\ "Ours" \in On /\ Free(Box(m)) /\ truth[m] = <<>> /\ m \in Out /\ m \notin Polls
          /\ truth' = [truth EXCEPT ![m] = Fresh]
          /\ told' = [ToldOf(m, Fresh) EXCEPT ![m] = Fresh]
          /\ out' = Event("new", m, Fresh) \o << Answer(Fresh) >> /\ UNCHANGED <<missed, pend>>
EditOurs(m) == LET t == [truth[m] EXCEPT ![1] = @ + 1] IN
          /\ act' = [n |-> "EditOurs", m |-> m]
          /\ "Ours" \in On /\ "Edit" \in On /\ Free(Box(m)) /\ Live(m) /\ m \in Out /\ m \notin Polls /\ truth[m][1] < MaxV
          /\ truth' = [truth EXCEPT ![m] = t] /\ told' = ToldOf(m, t)
          /\ out' = Event("edited", m, t) \o << Answer(t) >> /\ UNCHANGED <<missed, pend>>
(* the deletion itself is told with the next difference *)
DeleteOurs(m) == /\ act' = [n |-> "DeleteOurs", m |-> m]
          /\ "Ours" \in On /\ "Delete" \in On /\ Free(Box(m)) /\ Live(m)
          /\ truth' = [truth EXCEPT ![m] = <<0>>]
          /\ told' = [told EXCEPT ![m] = IF Known(m) THEN <<0>> ELSE <<>>]
          /\ missed' = [missed EXCEPT ![Box(m)] = Append(@, <<"del", m>>)]
          /\ out' = << <<"done">> >> /\ UNCHANGED pend
MarkOurs(m, mine) == LET t == [truth[m] EXCEPT ![3] = mine, ![2] = IF mine THEN @ + 1 ELSE @ - 1] IN
          /\ act' = [n |-> "MarkOurs", m |-> m, mine |-> mine]
          /\ "Ours" \in On /\ "Marks" \in On /\ pend = <<>> /\ Live(m) /\ Full(m) /\ told[m] = truth[m] /\ truth[m][3] # mine /\ (mine => truth[m][2] < MaxN)
          /\ truth' = [truth EXCEPT ![m] = t] /\ told' = [told EXCEPT ![m] = t]
          /\ out' = << <<IF m \in Polls THEN "poll" ELSE "marks", m, t[2], t[3], t[4]>>, <<"done">> >> /\ UNCHANGED <<missed, pend>>

(* what happens untold, and how it is made up for *)
Miss(k, m) ==
          /\ act' = [n |-> "Miss", k |-> k, m |-> m]
          /\ "Miss" \in On /\ pend = <<>> /\ Len(missed[Box(m)]) < 2
          /\ \A i \in DOMAIN missed[Box(m)] : missed[Box(m)][i][2] # m
          /\ CASE k = "new" -> truth[m] = <<>> /\ truth' = [truth EXCEPT ![m] = Fresh]
               [] k = "edit" -> Live(m) /\ truth[m][1] < MaxV /\ truth' = [truth EXCEPT ![m][1] = @ + 1]
               [] k = "del" -> Live(m) /\ truth' = [truth EXCEPT ![m] = <<0>>]
          /\ missed' = [missed EXCEPT ![Box(m)] = Append(@, <<k, m>>)]
          /\ UNCHANGED <<told, pend>> /\ out' = <<>>
Of(b, k) == SelectSeq(missed[b], LAMBDA x : x[1] = k)
RECURSIVE News(_)
News(s) == IF s = <<>> THEN <<>> ELSE Event("new", Head(s)[2], truth[Head(s)[2]]) \o News(Tail(s))
RECURSIVE Others(_)
Others(s) == IF s = <<>> THEN <<>>
             ELSE (IF Head(s)[1] = "new" THEN <<>> ELSE IF Head(s)[1] = "edit" THEN Event("edited", Head(s)[2], truth[Head(s)[2]]) ELSE Gone({Head(s)[2]})) \o Others(Tail(s))
Catch(b, way) ==
          LET ms == {missed[b][i][2] : i \in DOMAIN missed[b]} IN
          /\ act' = [n |-> "Catch", b |-> b, way |-> way]
          /\ pend = <<>> /\ missed[b] # <<>>
          /\ IF way = "too" THEN \A m \in Polls : Box(m) = b => told[m] = <<>> ELSE TRUE
          /\ IF way = "too" THEN told' = [m \in Msgs |-> IF b = "m" \/ Box(m) = "c" THEN <<>> ELSE told[m]] /\ out' = <<>>
             ELSE told' = [m \in Msgs |-> IF m \in ms THEN (IF Live(m) THEN truth[m] ELSE <<>>) ELSE told[m]]
                  /\ out' = News(Of(b, "new")) \o Others(missed[b])
          /\ missed' = [missed EXCEPT ![b] = <<>>] /\ UNCHANGED <<truth, pend>>

Restart == LET S == {pend[i] : i \in DOMAIN pend} IN
          /\ act' = [n |-> "Restart"]
          /\ "Restart" \in On /\ \A b \in Boxes : missed[b] = <<>>
          /\ IF pend = <<>> THEN UNCHANGED told /\ out' = <<>> ELSE told' = Without(told, S) /\ out' = Gone(S)
          /\ pend' = <<>> /\ UNCHANGED <<truth, missed>>

Next == \/ \E m \in Msgs : \/ New(m) \/ Edit(m) \/ Views(m) \/ Get(m) \/ Astray(m) \/ Send(m) \/ EditOurs(m) \/ DeleteOurs(m)
                           \/ \E n \in 0..MaxN, mine \in BOOLEAN, how \in {"all", "min", "lost"} : Marks(m, n, mine, how)
                           \/ \E mine \in BOOLEAN : MarkOurs(m, mine)
                           \/ \E kind \in {"scheduled", "business", "ephemeral"} : Elsewhere(kind, m)
                           \/ \E k \in {"new", "edit", "del"} : Miss(k, m)
                           \/ \E k \in Msgs : Both(m, k)
        \/ \E S \in SUBSET Msgs, f \in 0..3 : Delete(S, f)
        \/ \E c \in {"a", "b", "c"} : History(c)
        \/ \E b \in Boxes, w \in {"diff", "too"} : Catch(b, w)
        \/ Restart

(* nothing newer than what there is is told, and nothing of what was deleted once all was told *)
Inv == /\ \A m \in Msgs : (Full(m) /\ Live(m) => told[m][1] <= truth[m][1]) /\ (Known(m) => truth[m] # <<>>)
       /\ \A m \in Msgs : Free(Box(m)) /\ Known(m) => Live(m) /\ Full(m) /\ told[m][1] = truth[m][1]
       /\ "Lose" \notin On => \A m \in Msgs : Free(Box(m)) /\ Full(m) => told[m] = truth[m]
Forward == [][\A m \in Msgs : (truth[m] = <<0>> => truth'[m] = <<0>>) /\ (Live(m) => truth'[m] # <<>> /\ (Len(truth'[m]) = 4 => truth'[m][1] >= truth[m][1]))]_vars
==============================================================================
