------------------------------ MODULE SubtreeMC -----------------------------
(* Every history of a small tree with subtrees, next to that of the same tree with its subtrees inlined. *)
EXTENDS BTSubtree, Json, IOUtils

Case == JsonDeserialize(IOEnv.CASE)
T == [kids |-> Case.kids, ins |-> [n \in 1..Len(Case.ins) |-> ToSet(Case.ins[n])], outs |-> [n \in 1..Len(Case.outs) |-> ToSet(Case.outs[n])],
      wires |-> ToSet(Case.wires), kind |-> Case.kind, owner |-> Case.owner, key |-> Case.key]
Flat == Inlined(T)
VARIABLES s, f

Ready == s.st[1] # "off"
Events ==
  (IF s.stack = <<>> THEN {[k |-> IF Ready THEN "shutdown" ELSE "setup"]} ELSE {})
  \cup (IF s.stack # <<>> \/ Ready THEN {[k |-> x, n |-> n] : x \in ToSet(Case.asks), n \in Reachable(T, s)} ELSE {})
  \cup (IF s.stack # <<>> THEN {[k |-> "end", r |-> r] : r \in IF Top(s) = 1 THEN {"SUCCEEDED"} ELSE ToSet(Case.results)} ELSE {})
  \cup (IF s.stack # <<>> THEN {[k |-> "write", o |-> o, v |-> v] : o \in {o \in T.outs[Top(s)] : Case.again \/ ~s.out[Top(s)][o].u}, v \in {"1", "2"}} ELSE {})
  \cup (IF s.stack # <<>> /\ Case.errors /\ ~\E o \in T.outs[Top(s)] : s.out[Top(s)][o].u THEN {[k |-> "err"]} ELSE {})

Broken(x) == \E n \in Ids(T) : x.st[n] = "broken"
Init == s = OffS(T) /\ f = OffS(Flat)
Next == \E e \in Events :
  LET r == ApplyS(T, s, e)
  IN /\ s' = r
     /\ f' = IF Broken(r) THEN Strip(T, r) ELSE ApplyS(Flat, f, e)      \* a subtree node may refuse a tick for a missing input before its root is ticked
     /\ PrintT("@E " \o ToJson(<<s, e, r, SeeS(T, r)>>))
Spec == Init /\ [][Next]_<<s, f>>

\* outside of subtrees in progress nothing tells the two apart: values, results and who is ticked
Inner == \E i \in 1..Len(s.stack) : Sub(T, s.stack[i])
Values(q) == [n \in DOMAIN q |-> [k \in DOMAIN q[n] |-> q[n][k].v]]
Alike == ~Broken(s) => /\ s.stack = f.stack /\ s.res = f.res /\ s.st = f.st
                       /\ (~Inner => Values(Strip(T, s).out) = Values(f.out)
                                     /\ \A n \in Ids(T) : ~Sub(T, n) => \A k \in T.ins[n] : s.inp[n][k].v = f.inp[n][k].v
                                        \/ (T.kind[n] = "in" /\ T.owner[n] # 0 /\ s.inp[T.owner[n]][T.key[n]] = f.inp[n][k]))
\* a subtree node reports what its root reported
AsRoot == \A b \in Ids(T) : Sub(T, b) /\ T.kids[b] # <<>> /\ ~(\E i \in 1..Len(s.stack) : s.stack[i] = b)
                            => s.res[b] = s.res[T.kids[b][1]] \/ s.st[b] = "broken" \/ s.st[T.kids[b][1]] = "broken"
\* a mark inside that is ticked has what the subtree node was given
Crossing == \A m \in Ids(T) : T.kind[m] = "in" /\ T.owner[m] # 0 /\ (\E i \in 1..Len(s.stack) : s.stack[i] = T.owner[m])
                              => s.inp[m]["in"].v = s.inp[T.owner[m]][T.key[m]].v
Border == [][\A b \in Ids(T) : Sub(T, b) => \A k \in T.outs[b] : s'.out[b][k].v # s.out[b][k].v
             => s'.out[b][k].v \in {None, s'.out[Mark(T, b, k)]["out"].v}]_<<s, f>>
=============================================================================
