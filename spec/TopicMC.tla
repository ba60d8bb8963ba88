------------------------------- MODULE TopicMC ------------------------------
EXTENDS BTTopic, TLC, Json

CONSTANTS N, D
VARIABLES s, last, seen
vars == <<s, last, seen>>

Events(x) ==
  LET on == x.ph = "on"
      some == IF x.kind = "pub" THEN {0} ELSE {0, 2} IN
  {[k |-> "setup", conf |-> 1, val |-> 1]} \cup {[k |-> "untick"]} \cup {[k |-> k, g |-> g] : k \in {"reset", "shutdown"}, g \in some} \cup
  {[k |-> "tick", g |-> g, m |-> m] : g \in some, m \in some} \cup
  (IF on THEN {[k |-> "conf", v |-> 3 - x.conf]} \cup (IF x.kind = "pub" THEN {[k |-> "val", v |-> 3 - x.val]} ELSE {}) ELSE {}) \cup
  (IF x.kind = "mem" /\ x.msg # <<>> /\ x.age <= D THEN {[k |-> "clock", d |-> 1]} ELSE {}) \cup
  (IF x.kind # "pub" /\ x.cl # 0 THEN {[k |-> "msg", v |-> v] : v \in {1, 2}} ELSE {}) \cup
  (IF x.kind # "pub" /\ (x.n > 1 \/ (x.n = 1 /\ x.cl = 0)) THEN {[k |-> "late", v |-> 2]} ELSE {})

Init == s \in {Off("UNINITIALIZED", k) : k \in {"sub", "mem", "pub"}} /\ last = [k |-> "none"] /\ seen = <<>>
Next == \E e \in Events(s) :
          LET n == Step(D, s, e) IN
          /\ s' = n.s /\ last' = [k |-> e.k, r |-> n.r, calls |-> n.calls]
          /\ seen' = IF e.k = "msg" THEN <<e.v, s.cl>> ELSE IF e.k = "tick" /\ e.m # 0 /\ n.s.n # s.n THEN <<e.m, n.s.cl>> ELSE seen
          /\ s'.n <= N
          /\ PrintT("@E " \o ToJson(<<s, e, [r |-> n.r, calls |-> n.calls, out |-> n.s.out, live |-> Live(n.s), free |-> n.free], n.s>>))
Spec == Init /\ [][Next]_vars
View == s

\* a subscriber succeeds only with a message received through the present subscription, and each only once
Once == [][s.kind = "sub" /\ last'.k = "tick" /\ last'.r = "SUCCEEDED" => seen' # <<>> /\ seen'[2] = s'.cl /\ s'.out = seen'[1] /\ s'.msg = <<>>]_vars
Waits == [][s.kind # "pub" /\ last'.k = "tick" /\ last'.r = "RUNNING" => s'.msg = <<>>]_vars
Never == s.kind = "sub" => s.st # "FAILED"
Gone == s.ph = "off" => s.cl = 0 /\ s.msg = <<>>
Held == s.msg # <<>> => s.cl # 0
New == [][s.upd /\ last'.k = "tick" /\ s.ph = "on" => \E c \in ToSet(last'.calls) : c.c = "make" /\ c.conf = s.conf]_vars
Sends == [][s.kind = "pub" /\ last'.k = "tick" /\ s.ph = "on" =>
              Cardinality({c \in ToSet(last'.calls) : c.c = "publish"}) = IF s.vupd THEN 1 ELSE 0]_vars
=============================================================================
