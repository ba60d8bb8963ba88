------------------------------- MODULE StoreMC ------------------------------
(* Every history of save requests over a few names; a renamed tree gets any unused name. *)
EXTENDS BTStore, TLC, Json

CONSTANTS Depth
VARIABLES fs, n, prev
vars == <<fs, n, prev>>
S == <<"store">>
Names == {"a", "b"}
Init ==
  /\ fs \in {[files |-> f, dirs |-> {<<>>, S, <<"out">>} \cup d, ro |-> {}] :
               f \in {{}, {[p |-> <<"store", "a">>, c |-> 9]}, {[p |-> <<"out", "a">>, c |-> 9]}}, d \in {{}, {<<"store", "b">>}}}
  /\ n = 0 /\ prev = fs
Files1 == {<<x>> : x \in Names \cup {"..", "."}} \cup {<<x, y>> : x \in Names \cup {".."}, y \in Names \cup {"..", "out"}} \cup
          {<<"..", "out", "a">>, <<"..", "store", "a">>, <<"a", "..", "b">>, <<"..", "..", "a">>, <<>>}
Requests == {[root |-> t[1], conf |-> t[2], abs |-> FALSE, comps |-> q, ow |-> ow, rn |-> rn, c |-> n + 1] :
               t \in {<<S, TRUE>>, <<<<"out">>, FALSE>>}, q \in Files1, ow \in BOOLEAN, rn \in BOOLEAN} \cup
            {[root |-> S, conf |-> TRUE, abs |-> TRUE, comps |-> q, ow |-> ow, rn |-> FALSE, c |-> n + 1] :
               q \in {<<"store", "a">>, <<"out", "a">>, <<"out", "b">>}, ow \in BOOLEAN}
Given(r) == {Append(Front(Target(r)[2]), x) : x \in {"a_2", "b_2", "a_3", "a"}}
Do(r) == /\ prev' = fs
         /\ IF Allowed(fs, r) THEN \E q \in Places(fs, r, Given(r)) : fs' = Saved(fs, q, r.c) ELSE fs' = fs
         /\ PrintT("@E " \o ToJson(<<fs, r>>))
Next == n < Depth /\ n' = n + 1 /\ \E r \in Requests : Do(r)
Spec == Init /\ [][Next]_vars

\* nothing outside of the storage folder ever changes
Inside == \A f \in fs.files : f \in prev.files \/ Under(S, f.p)
Outside == {f \in fs.files : ~Under(S, f.p)} = {f \in prev.files : ~Under(S, f.p)}
\* files are lost only when overwriting was allowed, and then just the one
Kept == [][\A f \in fs.files : f \in fs'.files \/ \E g \in fs'.files : g.p = f.p]_vars
Tree == /\ \A f \in fs.files : Parents(f.p) \subseteq fs.dirs /\ f.p \notin fs.dirs
        /\ \A f, g \in fs.files : f.p = g.p => f = g
=============================================================================
