----------------------------- MODULE ServiceMC ------------------------------
EXTENDS BTService, TLC, Json

CONSTANTS Reqs, Clients, T
VARIABLES s, last
vars == <<s, last>>

Events(x) ==
  LET on == x.ph = "on" IN
  {[k |-> "setup", name |-> 1, val |-> 1]} \cup {[k |-> k] : k \in {"tick", "untick", "reset", "shutdown"}} \cup
  (IF on THEN {[k |-> "name", v |-> 3 - x.name]} \cup (IF x.kind = "call" THEN {[k |-> "val", v |-> 3 - x.val]} ELSE {}) ELSE {}) \cup
  (IF x.el \in 0..T THEN {[k |-> "clock", d |-> 1]} ELSE {}) \cup
  (IF x.kind = "wait" THEN {[k |-> "ready", v |-> v, on |-> IF v \in x.ready THEN 0 ELSE 1] : v \in {1, 2}} ELSE {}) \cup
  {[k |-> "answer", i |-> i, v |-> v] : i \in {j \in 1..Len(x.reqs) : j # x.cur \/ x.ans = ""}, v \in {"ok", "gone", "none"}}

Norm(x) == [x EXCEPT !.reqs = [i \in 1..Len(@) |-> IF i = x.cur THEN @[i] ELSE [cl |-> 0, val |-> 0]],
                     !.cname = [i \in 1..Len(@) |-> IF i \in Live(x) THEN @[i] ELSE 0]]

Init == s \in {Off("UNINITIALIZED", k) : k \in {"call", "wait"}} /\ last = [k |-> "none"]
Next == \E e \in Events(s) :
          LET n0 == Step(T, s, e)
              n == [n0 EXCEPT !.s = Norm(@)]
          IN /\ s' = n.s /\ last' = [k |-> e.k, r |-> n.r, calls |-> n.calls]
             /\ Len(s'.reqs) <= Reqs /\ Len(s'.cname) <= Clients
             /\ PrintT("@E " \o ToJson(<<s, e, [r |-> n.r, calls |-> n.calls, out |-> n.s.out, live |-> Live(n.s)], n.s>>))
Spec == Init /\ [][Next]_vars
View == s

Calls == s.kind = "call"
Quiet == s.ph = "off" => s.cl = 0 /\ s.cur = 0
Latest == s.cur # 0 => s.cur = Len(s.reqs)
\* a result is reported only for an answer to the latest request
Success == [][Calls /\ last'.k = "tick" /\ last'.r = "SUCCEEDED" /\ s.st # "SUCCEEDED" => s.cur # 0 /\ s.ans = "ok" /\ ~s.upd]_vars
Report == [][Calls /\ last'.k = "tick" /\ s.st = "RUNNING" /\ last'.r = "FAILED" => s.ans = "gone" \/ s.el > T]_vars
\* one request per execution
Once == [][Calls /\ s.cur # 0 /\ ~s.upd => last'.calls = <<>>]_vars
Again == [][Calls /\ last'.k = "tick" /\ s.st = "IDLE" /\ s.ph = "on" => Len(last'.calls) = 1]_vars
Waits == [][~Calls /\ last'.k = "tick" /\ s.ph = "on" => (last'.r = "SUCCEEDED" <=> s.name \in s.ready)]_vars
=============================================================================
