----------------------------- MODULE Remembered -----------------------------
(* Answers a client remembers.  The server holds things which change: the    *)
(* answers of bots, which it lends for a time; custom emoji, kept for a time *)
(* the client chose; and what the client is told of when it changes: full    *)
(* chats, video chats, business connections, transcriptions.  The client     *)
(* asks the server only for what it does not remember or what does not hold  *)
(* anymore, and gives what the server last gave it for that very question.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Items,    \* by kind: "q" callback and "i" inline answers, "e" custom emoji, "u" user, "g" group, "c" channel,
                    \* "v" the video chat of the channel, "b" business connections, "t" transcriptions
          Brief,    \* those lent for no time at all
          MaxV,
          On        \* subset of {"Wait", "Refuse", "Lose", "Race", "Many", "Restart", "Apart"}
VARIABLES truth,    \* the version the server has; 0: there is none
          done,     \* the transcriptions that were completed
          kept,     \* what the client remembers: <<>> or <<version, age, more>>
          held,     \* the client can refer to the video chat
          act, out
vars == <<truth, done, kept, held, act, out>>
View == <<truth, done, kept, held>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Order == SelectSeq(<<"q1", "q2", "q3", "q4", "i1", "i2", "i3", "i4", "i5", "e1", "e2", "e3", "u1", "u2", "g1", "c1", "v1", "b1", "b2", "t1", "t2">>, LAMBDA k : k \in Items)
Kind(k) == IF k \in {"q1", "q2", "q3", "q4"} THEN "q" ELSE IF k \in {"i1", "i2", "i3", "i4", "i5"} THEN "i"
           ELSE IF k \in {"e1", "e2", "e3"} THEN "e" ELSE IF k \in {"u1", "u2"} THEN "u" ELSE IF k = "g1" THEN "g"
           ELSE IF k = "c1" THEN "c" ELSE IF k = "v1" THEN "v" ELSE IF k \in {"b1", "b2"} THEN "b" ELSE "t"
Timed(k) == Kind(k) \in {"q", "i", "e"}
Ended == 9
Disabled == 3
Vals(k) == IF Kind(k) = "e" THEN 0..MaxV ELSE IF Kind(k) = "v" THEN {0, Ended} \cup 1..MaxV
           ELSE IF Kind(k) = "b" THEN {1, 2, Disabled} ELSE 1..MaxV
Told(k) == IF Kind(k) = "u" THEN {"user", "name"} ELSE IF Kind(k) = "g" THEN {"chat", "members", "joined", "left", "admin"}
           ELSE IF Kind(k) = "c" THEN {"channel"} ELSE {}
CallLive == "v1" \in Items /\ truth["v1"] \in 1..MaxV

Init == /\ truth = [k \in Items |-> IF Kind(k) = "v" THEN 0 ELSE 1] /\ done = [k \in Items |-> FALSE]
        /\ kept = [k \in Items |-> <<>>] /\ held = FALSE /\ act = [n |-> "Init"] /\ out = <<>>

(* whether the client may still give what it remembers *)
Holds(k) == /\ kept[k] # <<>>
            /\ (Timed(k) => kept[k][2] < 2)
            /\ (Kind(k) = "t" => (kept[k][1] = truth[k] /\ kept[k][3]))
More(k) == IF Kind(k) = "c" THEN CallLive ELSE IF Kind(k) = "t" THEN done[k] ELSE FALSE
Fresh(k) == IF truth[k] = 0 \/ k \in Brief \/ Kind(k) = "v" THEN kept[k]
            ELSE IF Kind(k) = "b" /\ truth[k] = Disabled THEN <<>> ELSE <<truth[k], 0, More(k)>>
Now(k) == <<"is", k, truth[k], More(k)>>
Then(k) == <<"is", k, kept[k][1], kept[k][3]>>

(* handlers are given what an answer says of a business connection, as it comes as an update *)
Heard(k) == IF Kind(k) = "b" THEN << <<"connection", k, truth[k]>> >> ELSE <<>>

(* it changes, and nobody tells the client *)
Change(k, w) ==
          /\ act' = [n |-> "Change", k |-> k, w |-> w]
          /\ w \in Vals(k) /\ w # truth[k]
          /\ IF Timed(k) THEN TRUE ELSE "Lose" \in On /\ Kind(k) \in {"u", "g", "c", "b"}
          /\ truth' = [truth EXCEPT ![k] = w] /\ out' = <<>> /\ UNCHANGED <<done, kept, held>>
(* it changes, and the client is told that it did *)
Tell(k, w, how) ==
          /\ act' = [n |-> "Tell", k |-> k, w |-> w, how |-> how]
          /\ how \in Told(k) /\ w \in Vals(k) /\ w # truth[k]
          /\ truth' = [truth EXCEPT ![k] = w] /\ kept' = [kept EXCEPT ![k] = <<>>]
          /\ out' = <<>> /\ UNCHANGED <<done, held>>

(* the client asks; the server answers unless it refuses *)
Ask(k, ok) ==
          /\ act' = [n |-> "Ask", k |-> k, ok |-> ok]
          /\ Kind(k) \notin {"e", "v"} /\ (ok \/ "Refuse" \in On)
          /\ IF Holds(k) THEN out' = <<Then(k), 0>> /\ UNCHANGED <<truth, done, kept, held>>
             ELSE IF ~ok THEN out' = << <<"failed">>, 1>> /\ UNCHANGED <<truth, done, kept, held>>
             ELSE /\ out' = Heard(k) \o <<Now(k), 1>> /\ kept' = [kept EXCEPT ![k] = Fresh(k)]
                  /\ held' = (held \/ (Kind(k) = "c" /\ CallLive)) /\ UNCHANGED <<truth, done>>
(* custom emoji are asked for by several at once *)
RECURSIVE Those(_, _, _)
Those(S, v, i) == IF i > Len(Order) THEN <<>> ELSE (IF Order[i] \in S /\ v[Order[i]] # 0 THEN << <<Order[i], v[Order[i]]>> >> ELSE <<>>) \o Those(S, v, i + 1)
AskAll(S, ok) ==
          /\ act' = [n |-> "AskAll", s |-> SelectSeq(Order, LAMBDA k : k \in S), ok |-> ok]
          /\ S # {} /\ (\A k \in S : Kind(k) = "e") /\ (Cardinality(S) = 1 \/ "Many" \in On) /\ (ok \/ "Refuse" \in On)
          /\ IF \A k \in S : Holds(k) THEN out' = <<Those(S, [k \in S |-> kept[k][1]], 1), 0>> /\ UNCHANGED kept
             ELSE IF ~ok THEN out' = << <<"failed">>, 1>> /\ UNCHANGED kept
             ELSE out' = <<Those(S, truth, 1), 1>> /\ kept' = [k \in Items |-> IF k \in S THEN Fresh(k) ELSE kept[k]]
          /\ UNCHANGED <<truth, done, held>>
(* the answer to the client's question and the news that it does not hold anymore come together *)
Race(k, w, how) ==
          /\ act' = [n |-> "Race", k |-> k, w |-> w, how |-> how]
          /\ "Race" \in On /\ (how \in Told(k) \/ (Kind(k) = "b" /\ how = "b")) /\ w \in Vals(k) /\ w # truth[k] /\ ~Holds(k)
          /\ truth' = [truth EXCEPT ![k] = w]
          /\ kept' = [kept EXCEPT ![k] = IF Kind(k) = "b" /\ w # Disabled THEN <<w, 0, FALSE>> ELSE <<>>]
          /\ held' = (held \/ (Kind(k) = "c" /\ CallLive))
          /\ out' = Heard(k) \o (IF Kind(k) = "b" THEN << <<"connection", k, w>> >> ELSE <<>>) \o <<Now(k), 1>> /\ UNCHANGED done

(* the video chat starts, changes or ends; the news may name the chat it is in, or come without it; or be lost *)
Call(w, how) ==
          LET v == "v1" IN
          /\ act' = [n |-> "Call", w |-> w, how |-> how]
          /\ v \in Items /\ w \in Vals(v) \ {0} /\ truth[v] # Ended /\ w # truth[v] /\ (w = Ended => truth[v] # 0)
          /\ how \in {"named"} \cup (IF "Apart" \in On THEN {"apart"} ELSE {}) \cup (IF "Lose" \in On THEN {"lost"} ELSE {})
          /\ (how = "apart" => (truth[v] # 0 /\ w # Ended))
          /\ truth' = [truth EXCEPT ![v] = w]
          /\ IF how = "lost" THEN UNCHANGED <<kept, held>> /\ out' = <<>>
             ELSE /\ kept' = [k \in Items |->
                                IF k = v THEN (IF w = Ended THEN <<>> ELSE <<w, 0, FALSE>>)
                                ELSE IF k = "c1" /\ kept[k] # <<>> /\ how = "named" THEN <<kept[k][1], 0, w # Ended>>
                                ELSE kept[k]]
                  /\ held' = (w # Ended) /\ out' = << <<"call", w>> >>
          /\ UNCHANGED done
AskCall(ok) ==
          LET v == "v1" IN
          /\ act' = [n |-> "AskCall", ok |-> ok]
          /\ v \in Items /\ (ok \/ "Refuse" \in On)
          /\ out' = IF kept[v] # <<>> THEN << <<"is", v, kept[v][1], FALSE>>, 0>>
                    ELSE IF ~held THEN << <<"failed">>, 0>>
                    ELSE IF ok /\ truth[v] # Ended THEN << <<"is", v, truth[v], FALSE>>, 1>> ELSE << <<"failed">>, 1>>
          /\ UNCHANGED <<truth, done, kept, held>>

(* a business account tells the bot that its connection changed *)
Connect(k, w) ==
          /\ act' = [n |-> "Connect", k |-> k, w |-> w]
          /\ Kind(k) = "b" /\ w \in Vals(k) /\ w # truth[k]
          /\ truth' = [truth EXCEPT ![k] = w]
          /\ kept' = [kept EXCEPT ![k] = IF w = Disabled THEN <<>> ELSE <<w, 0, FALSE>>]
          /\ out' = << <<"connection", k, w>> >> /\ UNCHANGED <<done, held>>

(* a voice message is edited; its transcription is completed, of which the client is told if it asked for it *)
Voice(k) ==
          /\ act' = [n |-> "Voice", k |-> k]
          /\ Kind(k) = "t" /\ truth[k] < MaxV
          /\ truth' = [truth EXCEPT ![k] = @ + 1] /\ done' = [done EXCEPT ![k] = FALSE]
          /\ out' = <<>> /\ UNCHANGED <<kept, held>>
Ready(k, lost) ==
          /\ act' = [n |-> "Ready", k |-> k, lost |-> lost]
          /\ Kind(k) = "t" /\ ~done[k] /\ (lost => "Lose" \in On)
          /\ done' = [done EXCEPT ![k] = TRUE]
          /\ IF ~lost /\ kept[k] # <<>> /\ kept[k][1] = truth[k]
             THEN kept' = [kept EXCEPT ![k] = <<truth[k], 0, TRUE>>] /\ out' = << <<"transcribed", k, truth[k]>> >>
             ELSE UNCHANGED kept /\ out' = <<>>
          /\ UNCHANGED <<truth, held>>

Wait ==   /\ act' = [n |-> "Wait"]
          /\ "Wait" \in On /\ (\E k \in Items : Timed(k) /\ kept[k] # <<>> /\ kept[k][2] < 2)
          /\ kept' = [k \in Items |-> IF Timed(k) /\ kept[k] # <<>> THEN [kept[k] EXCEPT ![2] = IF @ < 2 THEN @ + 1 ELSE 2] ELSE kept[k]]
          /\ out' = <<>> /\ UNCHANGED <<truth, done, held>>
Restart == /\ act' = [n |-> "Restart"] /\ "Restart" \in On
           /\ out' = <<>> /\ UNCHANGED <<truth, done, kept, held>>

Values == 0..MaxV \cup {Ended, Disabled}
Next == \/ \E k \in Items : \/ \E w \in Values : \/ Change(k, w) \/ Connect(k, w)
                                                 \/ \E how \in Told(k) \cup {"b"} : Tell(k, w, how) \/ Race(k, w, how)
                            \/ \E ok \in BOOLEAN : Ask(k, ok)
                            \/ Voice(k) \/ \E lost \in BOOLEAN : Ready(k, lost)
        \/ \E S \in SUBSET {k \in Items : Kind(k) = "e"}, ok \in BOOLEAN : AskAll(S, ok)
        \/ \E w \in Values, how \in {"named", "apart", "lost"} : Call(w, how)
        \/ \E ok \in BOOLEAN : AskCall(ok)
        \/ Wait \/ Restart
Spec == Init /\ [][Next]_vars

(* what is told of and nothing of it is lost is remembered only as it is *)
Inv == "Lose" \notin On => \A k \in Items : (Told(k) # {} \/ Kind(k) \in {"v", "b"}) /\ kept[k] # <<>> => (kept[k][1] = truth[k] /\ kept[k][3] = More(k))
(* what is lent for no time is never remembered, and nothing that does not exist *)
Lent == \A k \in Items : kept[k] # <<>> => k \notin Brief /\ kept[k][1] # 0
=============================================================================
