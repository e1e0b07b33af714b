------------------------------- MODULE SignIn -------------------------------
(* The sign-in dialogue of a client.  The user starts it with a phone, code, *)
(* password and names that are constants ("c"), asked for ("ask") or absent  *)
(* ("no"), or with a bot token; what is asked and what is sent follows from  *)
(* the answers of the user and the server.  The client may be killed at any  *)
(* point (its storage stays), also just after the server authorized it, and  *)
(* may sign out.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS PhoneP, CodeP, PasswordP, FirstP, LastP, \* the ways to give each
          Bot,     \* whether a bot token may be used
          Others,  \* errors the server may answer with besides the expected ones
          Phones, Codes, Words, Firsts, Lasts, \* what the user may answer
          Refusals, \* what the server answers to those who are not authorized
          On       \* subset of {"Crash", "SignOut", "Migrate", "Throw"}
VARIABLES at,      \* what the dialogue waits for
          p,       \* its parameters
          phone, par, \* the current phone, and which of the codes sent to it is current
          first,   \* the first name given
          moved,   \* sending the code has been redirected
          known,   \* the account the client is signed in to ("" if none)
          act, out
vars == <<at, p, phone, par, first, moved, known, act, out>>
View == <<at, p, phone, par, first, moved, known>>
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))

Params == PhoneP \X CodeP \X PasswordP \X FirstP \X LastP
NoP == <<"no", "no", "no", "no", "no">>
Init == /\ at = "idle" /\ p = NoP /\ phone = "" /\ par = 0 /\ first = "" /\ moved = FALSE /\ known = ""
        /\ act = [n |-> "Init"] /\ out = <<>>
Hint(ph) == CASE ph = "p1" -> "h1" [] ph = "p2" -> "h2" [] OTHER -> "none"
Trim(s) == CASE s = " Bob " -> "Bob" [] s = " " -> "" [] s = "Lee " -> "Lee" [] OTHER -> s

(* the dialogue ends *)
Over(r) == /\ at' = "idle" /\ p' = NoP /\ phone' = "" /\ par' = 0 /\ first' = "" /\ moved' = FALSE
           /\ out' = << <<"done", r, IF r = "ok" THEN known' ELSE "">> >>
Ok(who) == known' = who /\ Over("ok")
Fails(e) == UNCHANGED known /\ Over(e)
Stay == UNCHANGED <<p, known>>

Send(ph, dc) == /\ at' = "send" /\ phone' = ph /\ out' = << <<"send", ph, dc>> >>
(* restarted or begun *)
Begin(q) == /\ first' = "" /\ moved' = FALSE /\ par' = par
            /\ IF q[1] = "c" THEN Send("p0", 0) ELSE at' = "ask phone" /\ phone' = "" /\ out' = << <<"ask", "phone">> >>
SignIn(c) == at' = "signin" /\ out' = << <<"signIn", phone, par', c>> >>
AskCode == IF p[2] = "c" THEN SignIn("c0") ELSE at' = "ask code" /\ out' = << <<"ask", "code">> >>
SignUp(f, l) == IF Trim(f) = "" THEN Fails("firstName cannot be empty.")
                ELSE IF l # "" /\ Trim(l) = "" THEN Fails("lastName cannot be empty.")
                ELSE at' = "signup" /\ out' = << <<"signUp", phone, par, Trim(f), Trim(l)>> >> /\ Stay /\ UNCHANGED <<phone, par, moved>> /\ first' = ""
AskLast(f) == CASE p[5] = "c" -> SignUp(f, "L0")
                [] p[5] = "no" -> SignUp(f, "")
                [] OTHER -> at' = "ask last" /\ first' = f /\ out' = << <<"ask", "last">> >> /\ Stay /\ UNCHANGED <<phone, par, moved>>
Check(w) == at' = "check" /\ out' = << <<"check", phone, w>> >>
AskPassword == IF p[3] = "c" THEN Check("w0") ELSE at' = "ask password" /\ out' = << <<"ask", "password", Hint(phone)>> >>

(* what the server says to those it does not know; anything else is an error *)
Stranger == {"AUTH_KEY_UNREGISTERED", "SESSION_REVOKED"}
Start(q, e) == /\ at = "idle"
            /\ act' = [n |-> "Start", p |-> q, bot |-> FALSE, e |-> e]
            /\ IF known # "" THEN Ok(known)
               ELSE IF e \notin Stranger THEN Fails(e)
               ELSE p' = q /\ UNCHANGED known /\ Begin(q)
StartBot(e) == /\ at = "idle" /\ Bot
            /\ act' = [n |-> "Start", p |-> NoP, bot |-> TRUE, e |-> e]
            /\ IF known # "" THEN Ok(known)
               ELSE IF e \notin Stranger THEN Fails(e)
               ELSE at' = "bot" /\ out' = << <<"bot", "t0", 0>> >> /\ UNCHANGED <<p, phone, par, first, moved, known>>

Asked == {"ask phone", "ask code", "ask password", "ask first", "ask last"}
Say(v) == /\ at \in Asked
          /\ act' = [n |-> "Say", v |-> v]
          /\ CASE at = "ask phone" -> v \in Phones /\ Send(v, 0) /\ Stay /\ UNCHANGED <<par, first, moved>>
               [] at = "ask code" -> v \in Codes /\ UNCHANGED par /\ SignIn(v) /\ Stay /\ UNCHANGED <<phone, first, moved>>
               [] at = "ask password" -> v \in Words /\ Check(v) /\ Stay /\ UNCHANGED <<phone, par, first, moved>>
               [] at = "ask first" -> v \in Firsts /\ AskLast(v)
               [] at = "ask last" -> v \in Lasts /\ SignUp(first, v)
(* the user asks to begin again, or breaks off *)
Restart == /\ at \in Asked /\ act' = [n |-> "Restart"] /\ Begin(p) /\ Stay
Throw == /\ at \in Asked /\ "Throw" \in On /\ act' = [n |-> "Throw"] /\ Fails("thrown")

Pending == {"send", "signin", "signup", "check", "bot"}
(* the server does what it was asked *)
Accept == /\ at \in Pending
          /\ act' = [n |-> "Accept"]
          /\ CASE at = "send" -> par' = 1 - par /\ moved' = FALSE /\ AskCode /\ Stay /\ UNCHANGED <<phone, first>>
               [] at = "bot" -> Ok("b0")
               [] OTHER -> Ok(phone)
(* ... or refuses *)
Refuse == /\ at \in {"send", "signin", "check"}
          /\ act' = [n |-> "Refuse"]
          /\ CASE at = "send" -> IF p[1] = "c" THEN Fails("PHONE_NUMBER_INVALID") ELSE at' = "ask phone" /\ phone' = "" /\ moved' = FALSE /\ out' = << <<"ask", "phone">> >> /\ Stay /\ UNCHANGED <<par, first>>
               [] at = "signin" -> IF p[2] = "c" THEN Fails("Invalid verification code.") ELSE at' = "ask code" /\ out' = << <<"ask", "code">> >> /\ Stay /\ UNCHANGED <<phone, par, first, moved>>
               [] at = "check" -> IF p[3] = "c" THEN Fails("Invalid password.") ELSE AskPassword /\ Stay /\ UNCHANGED <<phone, par, first, moved>>
NeedPassword == /\ at = "signin" /\ act' = [n |-> "NeedPassword"]
                /\ AskPassword /\ Stay /\ UNCHANGED <<phone, par, first, moved>>
NeedSignUp == /\ at = "signin" /\ act' = [n |-> "NeedSignUp"]
              /\ CASE p[4] = "no" -> Fails("Cannot sign up.")
                   [] p[4] = "c" -> AskLast("F0")
                   [] OTHER -> at' = "ask first" /\ out' = << <<"ask", "first">> >> /\ Stay /\ UNCHANGED <<phone, par, first, moved>>
Handled == [send |-> "PHONE_NUMBER_INVALID", signin |-> "PHONE_CODE_INVALID", check |-> "PASSWORD_HASH_INVALID", signup |-> "", bot |-> ""]
Other(e) == /\ at \in Pending /\ e # Handled[at] /\ ~(at = "signin" /\ e = "SESSION_PASSWORD_NEEDED")
            /\ act' = [n |-> "Other", e |-> e] /\ Fails(e)
Migrate(dc) == /\ "Migrate" \in On /\ at \in {"send", "bot"}
               /\ act' = [n |-> "Migrate", dc |-> dc, kind |-> IF at = "send" THEN "PHONE_MIGRATE_" ELSE "USER_MIGRATE_"]
               /\ IF at = "bot" THEN out' = << <<"bot", "t0", dc>> >> /\ UNCHANGED <<at, p, phone, par, first, moved, known>>
                  ELSE ~moved /\ moved' = TRUE /\ Send(phone, dc) /\ Stay /\ UNCHANGED <<par, first>>

(* killed; meanwhile the server may have authorized it, or ended its session *)
Crash(how) == /\ "Crash" \in On
              /\ at # "idle" \/ known # ""
              /\ how = "lost" => at \in {"signin", "signup", "check", "bot"}
              /\ how = "revoked" => known # ""
              /\ act' = [n |-> "Crash", how |-> how]
              /\ at' = "idle" /\ p' = NoP /\ phone' = "" /\ par' = 0 /\ first' = "" /\ moved' = FALSE
              /\ out' = <<>>
              /\ known' = CASE how = "lost" -> (IF at = "bot" THEN "b0" ELSE phone) [] how = "revoked" -> "" [] OTHER -> known
SignOut == /\ "SignOut" \in On /\ at = "idle" /\ known # "" /\ act' = [n |-> "SignOut"]
           /\ at' = "logout" /\ out' = << <<"logOut">> >> /\ UNCHANGED <<p, phone, par, first, moved, known>>
SignedOut(e) == /\ at = "logout" /\ act' = [n |-> "SignedOut", e |-> e]
                /\ known' = "" /\ Over(IF e = "" THEN "out" ELSE e)

Next == \/ (\E e \in IF known = "" THEN Refusals ELSE {""} : (\E q \in Params : Start(q, e)) \/ StartBot(e))
        \/ (\E v \in Phones \cup Codes \cup Words \cup Firsts \cup Lasts : Say(v)) \/ Restart \/ Throw
        \/ Accept \/ Refuse \/ NeedPassword \/ NeedSignUp
        \/ (\E e \in Others : Other(e)) \/ (\E dc \in {1, 4} : Migrate(dc))
        \/ (\E h \in {"", "lost", "revoked"} : Crash(h))
        \/ SignOut \/ (\E e \in {"", "BAD"} : SignedOut(e))
Spec == Init /\ [][Next]_vars

(* signed in only by an authorization of the account asked for; kept until signing out *)
Authorized == [][known' # known => \/ act'.n = "Accept" /\ known = "" /\ at # "send" /\ known' = (IF at = "bot" THEN "b0" ELSE phone)
                                   \/ act'.n = "SignedOut" \/ (act'.n = "Crash" /\ act'.how # "")]_vars
(* success means signed in; signed in, nothing is asked or sent *)
Success == /\ \A i \in DOMAIN out : out[i][1] = "done" /\ out[i][2] = "ok" => known # "" /\ at = "idle"
           /\ known # "" => at \in {"idle", "logout"}
(* constants are never asked for, absent names never used *)
Asks == /\ at = "ask phone" => p[1] = "ask"
        /\ at = "ask code" => p[2] = "ask"
        /\ at = "ask password" => p[3] = "ask"
        /\ at = "ask first" => p[4] = "ask"
        /\ at = "ask last" => p[5] = "ask" /\ p[4] # "no"
        /\ at = "signup" => p[4] # "no"
(* the order of the steps: a code only after one was sent to this phone, a password or a name only when the server wanted it *)
Order == [][/\ at' \in {"ask code", "signin"} /\ at' # at => at \in {"send", "ask code", "signin"}
            /\ at' \in {"ask password", "check"} /\ at \notin {"ask password", "check"} => act'.n = "NeedPassword"
            /\ at' \in {"ask first", "ask last", "signup"} /\ at \notin {"ask first", "ask last"} => act'.n = "NeedSignUp"
            /\ at' \in {"ask phone", "send"} /\ at \notin {"ask phone", "send", "idle"} => act'.n = "Restart"]_vars
=============================================================================
