------------------------------ MODULE ActionMC ------------------------------
(* Every history of an action node with up to Goals goals. *)
EXTENDS BTAction, TLC, Json

CONSTANTS Goals, Clients, T
VARIABLES s, last
vars == <<s, last>>

Events(x) ==
  LET on == x.ph # "off" IN
  {[k |-> "setup", name |-> 1, val |-> 1]} \cup {[k |-> k] : k \in {"tick", "untick", "reset", "shutdown"}} \cup
  (IF on /\ ~x.upd THEN {[k |-> "name", v |-> 3 - x.name], [k |-> "val", v |-> 3 - x.val]} ELSE {}) \cup
  (IF x.ph = "run" /\ x.el <= T THEN {[k |-> "clock", d |-> 1]} ELSE {}) \cup
  {[k |-> "answer", i |-> i, v |-> v] : i \in {j \in 1..Len(x.goals) : x.goals[j].st = "sent"},
                                        v \in {"acc", "rej"}} \cup
  (IF x.cur # 0 /\ x.goals[x.cur].st = "acc" /\ x.fb = <<>> THEN {[k |-> "feedback", i |-> x.cur, v |-> 1]} ELSE {}) \cup
  (IF x.cur # 0 /\ x.ph \in {"run", "cancelling"} /\ x.goals[x.cur].st \in {"acc", "ending"}
     THEN {[k |-> "result", i |-> x.cur, v |-> v] : v \in {"succ", "bad"}} ELSE {}) \cup
  (IF x.ph = "cancelling" /\ x.can = "" THEN {[k |-> "cancelled", i |-> x.cur, v |-> v] : v \in {"ok"}} ELSE {})

\* what can still matter
Needed(x, i) == i = x.cur \/ x.goals[i].st = "sent"
Norm(x) == [x EXCEPT !.goals = [i \in 1..Len(@) |-> IF Needed(x, i) THEN @[i] ELSE [cl |-> 0, val |-> 0, st |-> IF @[i].st = "acc" THEN "acc" ELSE "end", up |-> FALSE]],
                     !.cname = [i \in 1..Len(@) |-> IF i \in Live(x) THEN @[i] ELSE 0]]

Init == s = Off("UNINITIALIZED") /\ last = [k |-> "none"]
Next == \E e \in Events(s) :
          LET n0 == Step(T, s, e)
              n == [n0 EXCEPT !.s = Norm(@)] IN
          /\ s' = n.s /\ last' = [k |-> e.k, r |-> n.r, calls |-> n.calls]
          /\ Len(s'.goals) <= Goals /\ Len(s'.cname) <= Clients
          /\ PrintT("@E " \o ToJson(<<s, e, [r |-> n.r, calls |-> n.calls, out |-> n.s.out, live |-> Live(n.s)], n.s>>))
Spec == Init /\ [][Next]_vars
View == s

Open(i) == s.goals[i].st \in {"sent", "acc"}
\* at most one goal is neither finished nor given up nor asked to end
One == Cardinality({i \in 1..Len(s.goals) : Open(i) /\ ~Up(s, i)}) <= 1
\* a node that is not executing leaves no goal running
Quiet == s.ph \in {"off", "idle"} => \A i \in 1..Len(s.goals) : Open(i) => Up(s, i) /\ s.goals[i].st = "sent"
\* only the current goal may be running
Latest == \A i \in 1..Len(s.goals) : Open(i) /\ ~Up(s, i) => i = s.cur /\ i = Len(s.goals)
Success == [][last'.r = "SUCCEEDED" /\ last'.k = "tick" /\ s.st = "RUNNING" => s.cur # 0 /\ s.res = "succ" /\ s.goals[s.cur].st = "end"]_vars
Report == [][last'.k = "tick" /\ s.st = "RUNNING" /\ last'.r \in {"SUCCEEDED", "FAILED"} =>
               s.cur # 0 /\ (s.res # "" \/ s.can # "" \/ s.goals[s.cur].st \in {"rej", "lost"})]_vars
\* nothing is sent while a goal is open
Order == [][\A c \in ToSet(last'.calls) : c.c = "send" => \A i \in 1..Len(s.goals) : Open(i) => Up(s, i)]_vars
=============================================================================
