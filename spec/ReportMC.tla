------------------------------ MODULE ReportMC ------------------------------
(* A tree 1 -> 2, 3 whose nodes call their children as they like, switch the collection of diagnostics and log; messages as they are due.  *)
(* Every step is emitted with the state before and after it: the harness joins them to programs for real nodes.                          *)
EXTENDS BTReport, TLC, Json, IOUtils

CONSTANTS Weak, Mins, Ends
KidsOf(n) == IF n = 1 THEN {2, 3} ELSE {}
VARIABLES on, stack, min, m, last, bad
vars == <<on, stack, min, m, last, bad>>

\* what is observed, one event after the other
RECURSIVE Run(_, _)
Run(s, es) == IF es = <<>> THEN <<s, "">> ELSE LET v == Accept(s, Head(es)) IN IF v # "" THEN <<s, v>> ELSE Run(After(s, Head(es)), Tail(es))
Observe(es) == LET r == Run(m, es) IN m' = r[1] /\ bad' = r[2]

Event(e) == [e |-> e]
Msg(n, ph) == [e |-> "msg", n |-> n, ph |-> ph, full |-> TRUE]
Init == on = FALSE /\ stack = <<>> /\ min = 20 /\ m = New(FALSE, 20) /\ last = Event("start") /\ bad = ""

Here == stack # <<>> /\ stack[Len(stack)].did
Free == stack = <<>> \/ Here

Switch == Free /\ on' = ~on /\ last' = [e |-> "switch", on |-> ~on] /\ Observe(<<last'>>) /\ UNCHANGED <<stack, min>>

\* legal: the node is in a state in which it may be asked for k
Call == \E n \in 1..3, k \in Kinds, legal \in BOOLEAN :
  /\ IF stack = <<>> THEN n = 1 ELSE Here /\ n \in KidsOf(stack[Len(stack)].n)
  /\ stack' = Append(stack, [n |-> n, k |-> k, did |-> legal, pre |-> on])
  /\ last' = [e |-> "call", n |-> n, k |-> k, legal |-> legal]
  /\ Observe(<<[e |-> "call", n |-> n, k |-> k]>> \o (IF on \/ Weak = "always" THEN <<Msg(n, Pre(k))>> ELSE <<>>) \o (IF legal THEN <<[e |-> "do", n |-> n, k |-> k]>> ELSE <<>>))
  /\ UNCHANGED <<on, min>>

Leave(t, r) == (IF t.did THEN <<[e |-> "done", n |-> t.n, k |-> t.k]>> ELSE <<>>)
               \o (IF r # "RAISE" /\ on /\ (t.pre \/ Weak = "late") /\ Weak # "silent" THEN <<Msg(t.n, Post(t.k))>> ELSE <<>>)
               \o <<[e |-> "ret", n |-> t.n, k |-> t.k, r |-> r]>>
RECURSIVE Unwind(_)
Unwind(s) == IF s = <<>> THEN <<>> ELSE Leave(s[Len(s)], "RAISE") \o Unwind(SubSeq(s, 1, Len(s) - 1))

Ret == stack # <<>> /\ \E r \in Ends :
  /\ (r # "ok" => Here) /\ last' = [e |-> "ret", r |-> r]
  /\ IF r = "raise" THEN stack' = <<>> /\ Observe(Unwind(stack))
     ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ Observe(Leave(stack[Len(stack)], r))
  /\ UNCHANGED <<on, min>>

Level == Free /\ \E l \in Mins : l # min /\ min' = l /\ last' = [e |-> "min", lvl |-> l] /\ Observe(<<last'>>) /\ UNCHANGED <<on, stack>>
Say == Free /\ \E g \in 1..2, who \in BOOLEAN, l \in Levels, i \in BOOLEAN :
  LET n == IF who /\ g = 1 /\ stack # <<>> THEN stack[Len(stack)].n ELSE 0
      s == [e |-> "say", g |-> g, n |-> n, lvl |-> l, internal |-> i]
  IN /\ (who => n # 0) /\ last' = s
     /\ Observe(<<s>> \o (IF Due(min, s) \/ (Weak = "loud" /\ ~i) THEN <<[e |-> "out", g |-> g, n |-> n, lvl |-> l, full |-> TRUE]>> ELSE <<>>) \o <<Event("said")>>)
     /\ UNCHANGED <<on, stack, min>>

Next == Switch \/ Call \/ Ret \/ Level \/ Say
Spec == Init /\ [][Next]_vars
View == <<on, stack, min, m.on, m.open, m.min, bad>>

Sound == bad = ""
\* messages come in pairs: what is open was announced exactly if diagnostics were collected when it began
Announced == \A j \in 1..Len(m.open) : m.open[j].pre = m.open[j].was
Nested == Len(m.open) = Len(stack) /\ \A j \in 1..Len(stack) : m.open[j].n = stack[j].n /\ m.open[j].k = stack[j].k
Same == m.on = on /\ m.min = min
Key(o, s, l) == <<o, s, l>>
Emit == "EMIT" \notin DOMAIN IOEnv \/ PrintT("@E " \o ToJson(<<Key(on, stack, min), last', Key(on', stack', min')>>))
=============================================================================
