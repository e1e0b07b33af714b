----------------------------- MODULE CachedStore -----------------------------
(* The cached part of the account data: written at once in memory, brought to *)
(* the storage by commits, read through the cache.  The storage takes its     *)
(* time and may refuse: a read returns what was stored when it was asked for, *)
(* a write counts when it is answered.  x and y live in one map, z in         *)
(* another, a is the authorization record.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS Cells, MaxSet, MaxGet, MaxCommit, On
VARIABLES w, act, out
vars == <<w, act, out>>
View == w
Emit == PrintT("@@" \o ToJson(<<TLCGet("level"), ToString(View), act', ToString(View'), out'>>))
IsOn(n) == n \in On
Order == <<"x", "y", "z", "a">>
Map(c) == CASE c \in {"x", "y"} -> 1 [] c = "z" -> 2 [] OTHER -> 3
Nil == 0       \* nothing stored
Miss == -1     \* not in the cache
Old == [c \in Cells |-> IF c \in {"x", "z"} THEN 1 ELSE Nil]
Of(S) == [i \in 1..Len(Order) |-> IF Order[i] \in Cells THEN S[Order[i]] ELSE Nil]
\* pend and com: the value to be written or Miss; rd: reads under way, the value each will bring
Start(store) == [cache |-> [c \in Cells |-> IF c = "a" THEN store[c] ELSE Miss], pend |-> [c \in Cells |-> Miss], com |-> [c \in Cells |-> Miss], store |-> store,
                 rd |-> [c \in Cells |-> <<>>], run |-> "", left |-> {}, bad |-> {}, q |-> <<>>, last |-> "none"]
Init == /\ w = [s |-> Start(Old), lat |-> Old, sets |-> 0, gets |-> 0, coms |-> 0, evicts |-> 0, crashes |-> 0]
        /\ act = [n |-> "Init"] /\ out = [n |-> 0]
\* what a cell holds, as far as memory knows
Known(s, c) == CASE s.cache[c] # Miss -> s.cache[c] [] s.pend[c] # Miss -> s.pend[c] [] OTHER -> s.com[c]
Pending(s) == {c \in Cells : s.pend[c] # Miss}
None == [c \in Cells |-> Miss]
\* begins what waits for its turn; r: results so far
RECURSIVE Run(_, _)
Run(s, r) ==
  IF s.run # "" \/ s.q = <<>> THEN <<s, r>>
  ELSE LET t == [s EXCEPT !.q = Tail(@)] k == Head(s.q) IN
       IF k = "reset" THEN <<[t EXCEPT !.run = "reset"], r>>
       ELSE IF Pending(s) = {} THEN Run(t, Append(r, "commit:ok"))
       ELSE <<[t EXCEPT !.run = "commit", !.com = s.pend, !.pend = None, !.left = Pending(s), !.bad = {}], r>>
Seen(s) == [reads |-> {c \in Cells : s.rd[c] # <<>>}, writes |-> {<<c, s.com[c]>> : c \in s.left}, scan |-> s.run = "reset", store |-> Of(s.store)]
Do(a, s, r, x) == w' = [x EXCEPT !.s = s] /\ act' = a /\ out' = [res |-> r, now |-> Seen(s)]
\* a value that is being read is not kept when its map was written meanwhile
Dirty(s, c) == [s EXCEPT !.rd = [d \in Cells |-> IF Map(d) = Map(c) /\ @[d] # <<>> THEN <<@[d][1], FALSE>> ELSE @[d]]]
Set(c) ==
  /\ w.sets < MaxSet
  /\ LET v == 2 + w.sets s == Dirty([w.s EXCEPT !.cache[c] = v, !.pend[c] = v], c) IN
     Do([n |-> "Set", c |-> c, v |-> v], s, <<>>, [w EXCEPT !.sets = @ + 1, !.lat[c] = v])
Get(c) ==
  /\ w.gets < MaxGet /\ w.s.rd[c] = <<>>
  /\ LET k == Known(w.s, c) a == [n |-> "Get", c |-> c] IN
     IF k # Miss THEN Do(a, w.s, <<<<c, k>>>>, w) ELSE Do(a, [w.s EXCEPT !.rd[c] = <<w.s.store[c], TRUE>>], <<>>, [w EXCEPT !.gets = @ + 1])
AnswerRead(c) ==
  /\ w.s.rd[c] # <<>>
  /\ LET k == Known(w.s, c) r == w.s.rd[c] v == IF k # Miss THEN k ELSE r[1] s == [w.s EXCEPT !.rd[c] = <<>>] IN
     Do([n |-> "AnswerRead", c |-> c], IF k = Miss /\ r[2] THEN [s EXCEPT !.cache[c] = v] ELSE s, <<<<c, v>>>>, w)
Refuse(c) == /\ IsOn("Fail") /\ w.s.rd[c] # <<>> /\ Do([n |-> "RefuseRead", c |-> c], [w.s EXCEPT !.rd[c] = <<>>], <<<<c, "err">>>>, w)
Commit == /\ w.coms < MaxCommit
          /\ LET t == Run([w.s EXCEPT !.q = Append(@, "commit")], <<>>) IN Do([n |-> "Commit"], t[1], t[2], [w EXCEPT !.coms = @ + 1])
\* the periodic commit, at a time it may not put off
Tick == /\ w.coms < MaxCommit /\ w.s.run = "" /\ w.s.q = <<>> /\ w.s.last # "fresh" /\ Pending(w.s) # {}
        /\ LET t == Run([w.s EXCEPT !.q = Append(@, "commit")], <<>>) IN Do([n |-> "Tick"], t[1], t[2], [w EXCEPT !.coms = @ + 1])
Wait == IsOn("Wait") /\ w.s.last = "fresh" /\ w.s.run = "" /\ Do([n |-> "Wait"], [w.s EXCEPT !.last = "aged"], <<>>, w)
\* a map one of whose writes failed writes all of them again next time
Finish(s, c) ==
  LET own == {d \in Cells : Map(d) = Map(c)}
      t == IF s.left \cap own # {} THEN s
           ELSE [s EXCEPT !.com = [d \in Cells |-> IF d \in own THEN Miss ELSE @[d]],
                          !.pend = [d \in Cells |-> IF d \in own /\ s.com[d] # Miss /\ @[d] = Miss /\ s.bad \cap own # {} THEN s.com[d] ELSE @[d]]] IN
  IF s.left # {} THEN <<t, <<>>>>
  ELSE Run([t EXCEPT !.run = "", !.bad = {}, !.last = IF s.bad = {} THEN "fresh" ELSE @], <<IF s.bad = {} THEN "commit:ok" ELSE "commit:err">>)
AnswerWrite(c, ok) ==
  /\ c \in w.s.left /\ (~ok => IsOn("Fail"))
  /\ LET s == [w.s EXCEPT !.left = @ \ {c}, !.store[c] = IF ok THEN w.s.com[c] ELSE @, !.bad = IF ok THEN @ ELSE @ \cup {c}] t == Finish(s, c) IN
     Do([n |-> "AnswerWrite", c |-> c, ok |-> ok], t[1], t[2], w)
Reset == /\ IsOn("Reset") /\ "reset" \notin {w.s.q[i] : i \in 1..Len(w.s.q)} /\ w.s.run # "reset" /\ w.coms < MaxCommit
         /\ LET t == Run([w.s EXCEPT !.q = Append(@, "reset")], <<>>) IN Do([n |-> "Reset"], t[1], t[2], [w EXCEPT !.coms = @ + 1])
AnswerScan(ok) ==
  /\ w.s.run = "reset" /\ (~ok => IsOn("Fail"))
  /\ LET store == IF ok THEN [c \in Cells |-> Nil] ELSE w.s.store
         s == [w.s EXCEPT !.store = store, !.cache = None, !.pend = None, !.run = "", !.last = "none", !.rd = [c \in Cells |-> IF @[c] = <<>> THEN <<>> ELSE <<@[c][1], FALSE>>]]
         t == Run(s, <<IF ok THEN "reset:ok" ELSE "reset:err">>) IN
     Do([n |-> "AnswerScan", ok |-> ok], t[1], t[2], [w EXCEPT !.lat = store])
\* so many others are read that the cache lets go of x and y
Evict == /\ IsOn("Evict") /\ w.evicts < 1
         /\ Do([n |-> "Evict"], [w.s EXCEPT !.cache = [c \in Cells |-> IF Map(c) = 1 THEN Miss ELSE @[c]]], <<>>, [w EXCEPT !.evicts = @ + 1])
\* the client is gone at any point; another one opens the storage
Crash == /\ IsOn("Crash") /\ w.crashes < 1
         /\ Do([n |-> "Crash"], Start(w.s.store), <<>>, [w EXCEPT !.crashes = @ + 1, !.lat = w.s.store])
Next == \/ \E c \in Cells : Set(c) \/ Get(c) \/ AnswerRead(c) \/ Refuse(c) \/ \E ok \in BOOLEAN : AnswerWrite(c, ok)
        \/ Commit \/ Tick \/ Wait \/ Reset \/ Evict \/ Crash \/ \E ok \in BOOLEAN : AnswerScan(ok)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a cell read now gives the latest value written to it
Latest == \A c \in Cells : (IF Known(w.s, c) # Miss THEN Known(w.s, c) ELSE w.s.store[c]) = w.lat[c]
\* what is not waiting for a commit is stored
Stored == \A c \in Cells : w.s.pend[c] = Miss /\ w.s.com[c] = Miss => w.s.store[c] = w.lat[c]
\* a successful commit with nothing written since leaves the storage complete
Complete == [][\A i \in DOMAIN out'.res : act'.n \in {"AnswerWrite", "Commit", "Tick"} /\ out'.res = <<"commit:ok">> /\ Pending(w'.s) = {} /\ w'.s.run = "" => w'.s.store = w'.lat]_vars
Inv == Latest /\ Stored
=============================================================================
