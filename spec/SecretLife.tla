----------------------------- MODULE SecretLife -----------------------------
(* The life of one secret chat on one side: requested by this user (Role "A") *)
(* or by the other ("B"), ready once the key is agreed on, ended once.  The   *)
(* server's notices may be late or repeated; what the user asked for may      *)
(* still be under way when the chat changes.                                  *)
(* Grain: one call, answer, notice or message and everything it leads to.     *)
(* Updates are handled one after the other.                                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Role, MaxSend, MaxMsg, On
VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
IsOn(n) == n \in On

\* st: the chat; bad: the other side's value of the handshake is out of range; rq, acc, ending: calls of the user under way; q: messages being
\* sent, the first is on its way; busy: an update is being handled; early: the message after the next one has come; again: resends left
Init == /\ w = [st |-> "none", bad |-> FALSE, rq |-> FALSE, acc |-> 0, accs |-> 0, took |-> FALSE, ending |-> FALSE, ends |-> 0, q |-> <<>>, n |-> 0, msgs |-> 0,
                busy |-> FALSE, early |-> FALSE, rekeyed |-> FALSE, again |-> 0, asked |-> FALSE, old |-> FALSE, rqd |-> FALSE]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
Rank(s) == CASE s = "none" -> 0 [] s = "waiting" \/ s = "requested" -> 1 [] s = "ready" -> 2 [] OTHER -> 3
Kept(s) == IF s = "ended" THEN "none" ELSE s
Sorted(s) == s
O(x, calls, res, got) == [calls |-> calls, res |-> res, got |-> got, kept |-> Kept(x.st), said |-> IF x.st # w.st THEN x.st ELSE ""]
\* a change by a call is the call's result, a change by a notice is announced
Quietly(o) == [o EXCEPT !.said = ""]
Do(n, x, o) == w' = x /\ out' = o /\ act' = n
End(x) == [x EXCEPT !.st = "ended", !.early = FALSE]

Request(dh) == /\ Role = "A" /\ ~w.rqd
               /\ IF dh = "weak" THEN Do([n |-> "Request", dh |-> dh], w, O(w, <<>>, <<"request:err">>, 0))
                  ELSE Do([n |-> "Request", dh |-> dh], [w EXCEPT !.rq = TRUE, !.rqd = TRUE], O(w, <<"request">>, <<>>, 0))
AnswerRequest(ok) == /\ w.rq
                     /\ LET x == [w EXCEPT !.rq = FALSE, !.st = IF ok THEN "waiting" ELSE @] IN
                        Do([n |-> "AnswerRequest", ok |-> ok], x, Quietly(O(x, <<>>, <<IF ok THEN "request:ok" ELSE "request:err">>, 0)))
Accept(dh, f) ==
  /\ Role = "B" /\ w.accs < 2 /\ (f => w.bad /\ w.st = "requested")
  /\ LET a == [n |-> "Accept", dh |-> dh, f |-> f] c == [w EXCEPT !.accs = @ + 1] IN
     IF w.st # "requested" THEN dh = "good" /\ Do(a, w, O(w, <<>>, <<"accept:err">>, 0))
     ELSE IF dh = "weak" THEN Do(a, w, O(w, <<>>, <<"accept:err">>, 0))
     ELSE IF w.bad THEN Do(a, End(c), Quietly(O(End(c), <<"discard">>, <<"accept:err">>, 0)))
     ELSE Do(a, [c EXCEPT !.acc = @ + 1], O(w, <<"accept">>, <<>>, 0))
\* the server takes one acceptance and refuses the others
AnswerAccept(ok) ==
  /\ w.acc > 0 /\ (ok => ~w.took)
  /\ LET x == [w EXCEPT !.acc = @ - 1, !.took = @ \/ ok, !.st = IF ok /\ @ = "requested" THEN "ready" ELSE @] IN
     Do([n |-> "AnswerAccept", ok |-> ok], x, Quietly(O(x, <<>>, <<IF x.st # w.st THEN "accept:ok" ELSE "accept:err">>, 0)))
Finish == /\ w.ends < 2 /\ ~w.ending
          /\ IF w.st \in {"none", "ended"} THEN Do([n |-> "End"], w, O(w, <<>>, <<"end:err">>, 0))
             ELSE Do([n |-> "End"], [w EXCEPT !.ending = TRUE, !.ends = @ + 1], O(w, <<"discard">>, <<>>, 0))
AnswerEnd(ok) ==
  /\ w.ending
  /\ LET x == [w EXCEPT !.ending = FALSE] y == IF ok THEN End(x) ELSE x IN
     Do([n |-> "AnswerEnd", ok |-> ok], y, Quietly(O(y, <<>>, <<IF ok THEN "end:ok" ELSE "end:err">>, 0)))

\* notices: what the server says about the chat; v: what is wrong with the value it brings
Notice(k, v, f) ==
  /\ ~w.busy /\ (f => v # "good" /\ w.st = "waiting" /\ k = "ready")
  /\ k \in (IF Role = "A" THEN {"waiting", "ready", "ended"} ELSE {"requested", "ready", "ended"})
  /\ Role = "A" => w.st # "none" \/ k = "ready"
  /\ v # "good" => (k = "ready" /\ w.st = "waiting") \/ (k = "requested" /\ w.st = "none" /\ v = "g")
  /\ w.old => k \in {"ready", "ended"}
  /\ LET a == [n |-> "Notice", k |-> k, v |-> v, f |-> f]
         bad == k = "ready" /\ w.st = "waiting" /\ v # "good"
         x == CASE k = "ended" -> End(w)
                [] k = "requested" /\ w.st = "none" -> [w EXCEPT !.st = "requested", !.bad = v # "good"]
                [] k = "ready" /\ w.st = "waiting" -> IF v = "good" THEN [w EXCEPT !.st = "ready"] ELSE End(w)
                [] OTHER -> w IN
     Do(a, x, IF bad THEN Quietly(O(x, <<"discard">>, <<>>, 0)) ELSE O(x, <<>>, <<>>, 0))

\* a message of the user: transmitted at once unless others are on their way
Send == /\ w.n < MaxSend
        /\ IF w.st # "ready" THEN Do([n |-> "Send"], w, O(w, <<>>, <<"send:err">>, 0))
           ELSE LET x == [w EXCEPT !.q = Append(@, "send"), !.n = @ + 1] IN Do([n |-> "Send"], x, O(x, IF w.q = <<>> THEN <<"send">> ELSE <<>>, <<>>, 0))
Res(h, ok) == IF h = "send" THEN <<IF ok THEN "send:ok" ELSE "send:err">> ELSE <<>>
\* the handling of an update ends with the answer it waited for; what came early is then delivered
After(x, h) == IF h # "acc" THEN <<x, 0>> ELSE IF x.st # "ready" THEN <<[x EXCEPT !.busy = FALSE], 0>>
               ELSE <<[x EXCEPT !.busy = FALSE, !.early = FALSE, !.msgs = @ + (IF x.early THEN 1 ELSE 0)], IF x.early THEN 1 ELSE 0>>
RECURSIVE Refuse(_, _)
Refuse(x, r) == IF x.q = <<>> THEN <<x, r>> ELSE Refuse([After([x EXCEPT !.q = Tail(x.q)], Head(x.q))[1] EXCEPT !.q = Tail(x.q)], r \o Res(Head(x.q), FALSE))
AnswerSend(ok) ==
  /\ w.q # <<>>
  /\ LET h == Head(w.q) t == After([w EXCEPT !.q = Tail(@)], h) x == t[1] a == [n |-> "AnswerSend", ok |-> ok] IN
     IF x.st = "ready" \/ x.q = <<>> THEN Do(a, x, O(x, IF x.q = <<>> THEN <<>> ELSE <<Head(x.q)>>, Res(h, ok), t[2]))
     ELSE LET z == Refuse(x, Res(h, ok)) IN Do(a, z[1], O(z[1], <<>>, z[2], t[2]))

\* the peer's next message; the one after it, coming early; then the next one, which asks for a new key; a demand to send two messages again
Msg == /\ ~w.busy /\ ~w.early /\ w.msgs < MaxMsg
       /\ LET x == IF w.st = "ready" THEN [w EXCEPT !.msgs = @ + 1] ELSE w IN Do([n |-> "Msg"], x, O(x, <<>>, <<>>, x.msgs - w.msgs))
Early == /\ IsOn("Early") /\ w.st = "ready" /\ ~w.busy /\ ~w.early /\ ~w.rekeyed /\ w.q = <<>>
         /\ LET x == [w EXCEPT !.early = TRUE] IN Do([n |-> "Early"], x, O(x, <<"ask">>, <<>>, 0))
Fill == /\ IsOn("Early") /\ w.early /\ ~w.busy /\ ~w.rekeyed
        /\ LET x == [w EXCEPT !.busy = TRUE, !.rekeyed = TRUE, !.q = Append(@, "acc")] IN Do([n |-> "Fill"], x, O(x, IF w.q = <<>> THEN <<"acc">> ELSE <<>>, <<>>, 0))
Again == /\ IsOn("Again") /\ w.st = "ready" /\ ~w.busy /\ ~w.early /\ w.n >= 2 /\ w.q = <<>> /\ ~w.asked
         /\ LET x == [w EXCEPT !.busy = TRUE, !.again = 2, !.asked = TRUE] IN Do([n |-> "Again"], x, O(x, <<"again">>, <<>>, 0))
AnswerAgain == /\ w.again > 0
               /\ LET more == w.again = 2 /\ w.st = "ready" x == [w EXCEPT !.again = IF more THEN 1 ELSE 0, !.busy = more] IN
                  Do([n |-> "AnswerAgain"], x, O(x, IF more THEN <<"again">> ELSE <<>>, <<>>, 0))
\* between operations a client may be replaced by one that reads the storage
Restart == /\ IsOn("Restart") /\ ~w.rq /\ w.acc = 0 /\ ~w.ending /\ w.q = <<>> /\ ~w.busy
           /\ LET x == [w EXCEPT !.old = @ \/ w.st = "ended"] IN Do([n |-> "Restart"], x, O(x, <<>>, <<>>, 0))
Next == \/ \E d \in {"good", "weak"} : Request(d) \/ \E f \in BOOLEAN : Accept(d, f)
        \/ \E ok \in BOOLEAN : AnswerRequest(ok) \/ AnswerAccept(ok) \/ AnswerEnd(ok) \/ AnswerSend(ok)
        \/ \E k \in {"waiting", "requested", "ready", "ended"}, v \in {"good", "g", "print", "one"}, f \in BOOLEAN : Notice(k, v, f)
        \/ Finish \/ Send \/ Msg \/ Early \/ Fill \/ Again \/ AnswerAgain \/ Restart
Spec == Init /\ [][Next]_vars
Inv == /\ w.st = "ready" => ~w.bad
       /\ w.took /\ w.acc = 0 => w.st \in {"ready", "ended"}
       /\ w.early => w.st = "ready"
\* the life of a chat is one-way
OneWay == [][Rank(w'.st) >= Rank(w.st)]_vars
\* an ended chat neither sends nor delivers anything
Silent == [][w.st = "ended" => out'.calls = <<>> /\ out'.got = 0]_vars
=============================================================================
