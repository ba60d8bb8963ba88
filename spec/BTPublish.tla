------------------------------ MODULE BTPublish -----------------------------
(***************************************************************************)
(* What is published about a tree.                                         *)
(* A tree t as it is: id, nodes (id, name, cls, state, kids), wires        *)
(* (source, output, target, input, value, whether both ends have the       *)
(* value), root, subs (the trees of its subtree nodes), ticked.            *)
(* Published: structure, state and data, each a sequence with one entry    *)
(* per tree.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

ToSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Nested(_)
Nested(t) == UNION {{u} \cup Nested(u) : u \in ToSet(t.subs)}
\* a tree in a subtree node has a state to tell as soon as it has been set up
Root(t) == IF \E n \in ToSet(t.nodes) : n.id = t.root THEN CHOOSE n \in ToSet(t.nodes) : n.id = t.root ELSE [id |-> "", state |-> "UNINITIALIZED"]
Started(t) == Root(t).state # "UNINITIALIZED"

Shape(t) == [id |-> t.id, nodes |-> {[id |-> n.id, name |-> n.name, cls |-> n.cls, kids |-> n.kids] : n \in ToSet(t.nodes)},
             wires |-> {<<w[1], w[2], w[3], w[4]>> : w \in ToSet(t.wires)}, root |-> t.root]
States(t) == [id |-> t.id, nodes |-> {[id |-> n.id, state |-> n.state] : n \in ToSet(t.nodes)}]
Values(t) == [id |-> t.id, wires |-> ToSet(t.wires)]

\* what must be published now; ps: whether nested trees are
Structure(t, ps) == {Shape(t)} \cup (IF ps THEN {Shape(u) : u \in Nested(t)} ELSE {})
State(t, ps) == {States(t)} \cup (IF ps THEN {States(u) : u \in {u \in Nested(t) : Started(u)}} ELSE {})

\* entries that were published, without doubles
Same(entries, expected) == Len(entries) = Cardinality(expected) /\ ToSet(entries) = expected

(* Requests, for the exploration of histories: a root with two places for a leaf, "l", a subtree with one leaf, "A", and a subtree with a leaf and an A, "B". *)
None == "-"
Kinds == {"l", "A", "B"}
Empty == [k |-> <<None, None>>, life |-> "EDITABLE", ps |-> TRUE, pd |-> FALSE]
Edit(s, k) == IF s.life = "EDITABLE" THEN [s EXCEPT !.k = k] ELSE s
Request(s, e) ==
  CASE e.k \in {"add", "morph"} -> Edit(s, [s.k EXCEPT ![e.at] = e.kind])
    [] e.k = "remove" -> Edit(s, [s.k EXCEPT ![e.at] = None])
    [] e.k = "load" -> Edit(s, <<"B", "l">>)
    [] e.k = "once" -> [s EXCEPT !.life = "WAITING_FOR_TICK"]
    [] e.k = "stop" -> [s EXCEPT !.life = "IDLE"]
    [] e.k = "reset" -> [s EXCEPT !.life = "IDLE"]
    [] e.k \in {"shutdown", "check"} -> [s EXCEPT !.life = "EDITABLE"]
    [] e.k = "subs" -> [s EXCEPT !.ps = e.on]
    [] e.k = "data" -> [s EXCEPT !.pd = e.on]
Count(s, x) == Cardinality({i \in {1, 2} : s.k[i] = x})
\* how many trees of each kind are told about
Told(s) == IF s.ps THEN [A |-> Count(s, "A") + Count(s, "B"), B |-> Count(s, "B")] ELSE [A |-> 0, B |-> 0]
=============================================================================
