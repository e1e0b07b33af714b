----------------------------- MODULE Conditions -----------------------------
(* What the predefined conditions of handlers mean: which updates pass a     *)
(* filter query, a command, a callback or inline query condition, a chat     *)
(* type condition.  Each step is one update against one condition.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT Which
VARIABLES always, act, out
vars == <<always, act, out>>
View == <<always>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
Init == always = 0 /\ act = [n |-> "Init"] /\ out = FALSE

MsgTypes == {"text", "photo", "voice"}
(* an update: its type, the type of the message in it, or what else is in it *)
Updates == [t : {"message", "editedMessage", "scheduledMessage"}, s : MsgTypes]
           \cup [t : {"secretMessage"}, s : {"text", "photo"}]
           \cup [t : {"callbackQuery"}, s : {"data", "gameShortName", "inlineMessageId", "message"}]
           \cup [t : {"chosenInlineResult"}, s : {"", "inlineMessageId"}]
           \cup [t : {"update"}, s : {"updateNewMessage", "updateUserStatus"}]
           \cup [t : {"inlineQuery", "deletedMessages", "connectionState", "newChat"}, s : {""}]
Queries == {<<t>> : t \in {"message", "editedMessage", "scheduledMessage", "secretMessage", "callbackQuery", "chosenInlineResult", "update", "inlineQuery", "deletedMessages", "connectionState", "newChat", "updateNewMessage", "updateUserStatus"}}
           \cup {<<t, s>> : t \in {"", "message", "editedMessage", "scheduledMessage"}, s \in MsgTypes}
           \cup {<<"secretMessage", s>> : s \in {"text", "photo"}}
           \cup {<<"callbackQuery", s>> : s \in {"data", "gameShortName", "inlineMessageId", "message"}}
           \cup {<<"chosenInlineResult", "inlineMessageId">>}
Passes(u, q) ==
  IF Len(q) = 1 THEN u.t = q[1] \/ (u.t = "update" /\ u.s = q[1])
  ELSE /\ u.s = q[2]
       /\ u.t = q[1] \/ (q[1] = "" /\ u.t \in {"message", "editedMessage", "scheduledMessage"})

Query == \E u \in Updates, q \in Queries :
  act' = [n |-> "Query", u |-> u, q |-> q] /\ out' = Passes(u, q)

(* A command: a prefix, a name in any case, an optional account, a rest.     *)
NoPrefix == ""
Texts == [p : {"/", "\\", "!", "..", NoPrefix}, c : {"start", "START", "started", "help", ""}, at : {"", "ME", "other"}, r : {"", " x", "\nx"}]
Setups == [bot : BOOLEAN, name : {"me", ""}, own : {<<>>, <<"!">>, <<"!", "..">>}, fallback : {<<>>, <<"..", "\\">>}, cmd : {"START", "re", "both"}, in : {"message"}]
          \cup [bot : BOOLEAN, name : {"me"}, own : {<<>>}, fallback : {<<>>}, cmd : {"start"}, in : {"editedMessage", "message"}]
Prefixes(s) == IF s.own # <<>> THEN s.own ELSE IF s.fallback # <<>> THEN s.fallback ELSE IF s.bot THEN <<"/">> ELSE <<"\\">>
Elems(q) == {q[i] : i \in DOMAIN q}
IsStart(c) == c \in {"start", "START"}
(* "re" is a pattern matching anything that begins with he or sta *)
Named(s, c) == CASE s.cmd \in {"start", "START"} -> IsStart(c)
                 [] s.cmd = "re" -> c \in {"start", "START", "started", "help"}
                 [] s.cmd = "both" -> IsStart(c) \/ c = "help"
IsCommand(s, t) == /\ s.in = "message"
                   /\ t.p # NoPrefix /\ t.p \in Elems(Prefixes(s))
                   /\ t.at = "" \/ (t.at \in {"me", "ME"} /\ s.name = "me")
                   /\ Named(s, t.c)
Command == \E s \in Setups, t \in Texts :
  act' = [n |-> "Command", s |-> s, t |-> t] /\ out' = IsCommand(s, t)

(* Exact strings or patterns over the data of a query *)
Data == {"a", "b", "ab", "A", ""}
Wanted == {<<"=", "a">>, <<"=", "">>, <<"~", "a">>, <<"~", "^a$">>, <<"~g", "b">>}
Found(w, d) == CASE w[1] = "=" -> d = w[2]
                 [] w = <<"~", "a">> -> d \in {"a", "ab"}
                 [] w = <<"~", "^a$">> -> d = "a"
                 [] w = <<"~g", "b">> -> d \in {"b", "ab"}
DataQuery == \E k \in {"callbackQuery", "inlineQuery", "chosenInlineResult"}, in \in {"callbackQuery", "inlineQuery", "chosenInlineResult", "game"}, d \in Data, ws \in {{w} : w \in Wanted} \cup {{<<"=", "a">>, <<"~g", "b">>}} :
  act' = [n |-> "Data", k |-> k, in |-> in, d |-> d, w |-> ws] /\ out' = (k = in /\ \E w \in ws : Found(w, d))

Chats == {"private", "group", "supergroup", "channel"}
ChatType == \E in \in {"message", "editedMessage", "scheduledMessage", "callbackQuery", "newChat", "messageReactions", "joinRequest", "chatMember", "inlineQuery", "callbackInline"}, c \in Chats, cs \in {{x} : x \in Chats} \cup {{"group", "supergroup"}} :
  act' = [n |-> "Chat", in |-> in, c |-> c, cs |-> cs] /\ out' = (in \notin {"inlineQuery", "callbackInline"} /\ c \in cs)

Next == /\ always' = always
        /\ \/ Which = "query" /\ Query
           \/ Which = "command" /\ Command
           \/ Which = "data" /\ DataQuery
           \/ Which = "chat" /\ ChatType
(* a narrower condition passes only what the wider one passes *)
ASSUME \A u \in Updates, q \in Queries : Len(q) = 2 /\ q[1] # "" /\ Passes(u, q) => Passes(u, <<q[1]>>)
=============================================================================
