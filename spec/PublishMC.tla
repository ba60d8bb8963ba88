------------------------------ MODULE PublishMC -----------------------------
EXTENDS BTPublish, Json
VARIABLE s
Events ==
  {[k |-> x, at |-> i, kind |-> c] : x \in {"morph"}, i \in {i \in {1, 2} : s.k[i] # None}, c \in Kinds}
  \cup {[k |-> "add", at |-> i, kind |-> c] : i \in {i \in {1, 2} : s.k[i] = None}, c \in Kinds}
  \cup {[k |-> "remove", at |-> i] : i \in {i \in {1, 2} : s.k[i] # None}}
  \cup {[k |-> x] : x \in {"load", "once", "shutdown"}}
  \cup (IF s.life = "EDITABLE" THEN {[k |-> "check"]} ELSE {[k |-> "reset"]})
  \cup (IF s.life = "WAITING_FOR_TICK" THEN {[k |-> "stop"]} ELSE {})
  \cup {[k |-> x, on |-> b] : x \in {"subs", "data"}, b \in BOOLEAN}
Init == s = Empty
Next == \E e \in Events : LET r == Request(s, e) IN s' = r /\ PrintT("@E " \o ToJson(<<s, e, r, Told(r)>>))
Spec == Init /\ [][Next]_s
\* nothing is told about nested trees while that is off, and otherwise only about those that are there
Switch == ~s.ps => Told(s).A + Told(s).B = 0
There == Told(s).A <= 2 /\ (Told(s).A > 0 => s.k[1] \in {"A", "B"} \/ s.k[2] \in {"A", "B"}) /\ Told(s).B <= Told(s).A
=============================================================================
