-------------------------------- MODULE DataMC ------------------------------
(* Every history of a small tree. Values: "1", "2". *)
EXTENDS BTData, TLC, Json, IOUtils

Case == JsonDeserialize(IOEnv.CASE)
T == [kids |-> Case.kids, ins |-> [n \in 1..Len(Case.ins) |-> ToSet(Case.ins[n])], outs |-> [n \in 1..Len(Case.outs) |-> ToSet(Case.outs[n])],
      wires |-> ToSet(Case.wires)]
VARIABLE s

Ready == s.st[1] # "off"
Events ==
  (IF s.stack = <<>> THEN {[k |-> IF Ready THEN "shutdown" ELSE "setup"]} ELSE {})
  \cup (IF s.stack # <<>> \/ Ready THEN {[k |-> x, n |-> n] : x \in {"begin", "reset", "untick"}, n \in Reachable(T, s)} ELSE {})
  \cup (IF s.stack # <<>> THEN {[k |-> "end"]} \cup {[k |-> "write", o |-> o, v |-> v] : o \in T.outs[Top(s)], v \in {"1", "2"}} ELSE {})
  \cup (IF s.stack # <<>> /\ Case.errors /\ ~\E o \in T.outs[Top(s)] : s.out[Top(s)][o].u THEN {[k |-> "err"]} ELSE {})

Init == s = Off(T)
Next == \E e \in Events : LET r == Apply(T, s, e) IN s' = r /\ PrintT("@E " \o ToJson(<<s, e, r, See(T, r)>>))
Spec == Init /\ [][Next]_s

Slots == {<<n, k>> \in Ids(T) \X {"a", "b"} : k \in T.ins[n]}
Old(x) == s.inp[x[1]][x[2]]
New(x) == s'.inp[x[1]][x[2]]
Ended(n) == s.stack # <<>> /\ n = Top(s) /\ Len(s'.stack) < Len(s.stack) /\ s'.st = s.st
SetUp == s.st[1] = "off" /\ s'.st[1] = "on"

\* right after a tick of n, what n changed is at the other end
Complete == [][\A w \in T.wires : Ended(w[1]) /\ s.out[w[1]][w[2]].u => New(<<w[3], w[4]>>).v = s.out[w[1]][w[2]].v]_s
\* nothing else changes: inputs change only when everything is set up, or at the end of a tick of a node wired to them
Frame == [][\A x \in Slots : New(x).v # Old(x).v => SetUp \/ \E w \in T.wires : Ended(w[1]) /\ w[3] = x[1] /\ w[4] = x[2] /\ s.out[w[1]][w[2]].u]_s
\* a changed value is flagged, and the flag goes only at the end of the node's own tick
Flagged == [][\A x \in Slots : New(x).v # Old(x).v => New(x).u]_s
Kept == [][\A x \in Slots : Old(x).u /\ ~New(x).u => Ended(x[1])]_s
\* a node whose tick is in progress has all of its inputs
Fed == \A i \in 1..Len(s.stack) : \A k \in T.ins[s.stack[i]] : s.inp[s.stack[i]][k].v # None
=============================================================================
