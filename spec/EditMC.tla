------------------------------- MODULE EditMC -------------------------------
(* Every tree that editing can make of the configurations of a case, under every request. *)
EXTENDS BTEdit, Json, IOUtils, SequencesExt

Case == JsonDeserialize(IOEnv.CASE)
\* cfgs to add, to morph into, option changes, most nodes, kinds of requests, names, trees to load
MCTable == [c \in 1..Len(Case.table) |->
  LET x == Case.table[c] IN [cls |-> x.cls, max |-> x.max, opts |-> {x.opts[k] : k \in 1..Len(x.opts)},
                             ins |-> {x.ins[k] : k \in 1..Len(x.ins)}, outs |-> {x.outs[k] : k \in 1..Len(x.outs)}]]

VARIABLE t
Missing == 99
AllIds == 1..Case.max
Some(t1) == Ids(t1) \cup {Missing}
Fresh(t1) == CHOOSE i \in 1..(Case.max + 1) : i \notin Ids(t1) /\ \A j \in 1..(i - 1) : j \in Ids(t1)
Has(k) == \E j \in 1..Len(Case.ops) : Case.ops[j] = k
Set(q) == {q[k] : k \in 1..Len(q)}
KidSeqs(t1) == {<<>>} \cup {<<i>> : i \in Some(t1)} \cup {<<i, j>> : i, j \in Ids(t1)}
Idx == IF Case.far THEN {-1, 0, 1, -2} ELSE {-1, 0}
AnyWires(t1) ==
  {<<i, o, j, a>> : i \in Some(t1), j \in Some(t1), o \in Set(Case.outs), a \in Set(Case.ins)}

Ops(t1) ==
  (IF ~Has("add") \/ Cardinality(Ids(t1)) >= Case.max THEN {}
   ELSE {[k |-> "add", new |-> Fresh(t1), parent |-> p, cfg |-> c, name |-> n, idx |-> x, kids |-> q] :
           p \in {0} \cup Some(t1), c \in Set(Case.add), n \in Set(Case.names), x \in Idx,
           q \in IF Has("adopt") THEN KidSeqs(t1) ELSE {<<>>}})
  \cup (IF ~Has("remove") THEN {} ELSE {[k |-> "remove", id |-> i, all |-> b] : i \in Some(t1), b \in BOOLEAN})
  \cup (IF ~Has("move") THEN {} ELSE {[k |-> "move", id |-> i, parent |-> p, idx |-> x] : i \in Some(t1), p \in {0} \cup Some(t1), x \in Idx})
  \cup (IF ~Has("replace") THEN {} ELSE {[k |-> "replace", old |-> i, new |-> j] : i \in Some(t1), j \in Some(t1)})
  \cup (IF ~Has("morph") THEN {} ELSE {[k |-> "morph", id |-> i, cfg |-> c, name |-> n] : i \in Some(t1), c \in Set(Case.morph), n \in Set(Case.names)})
  \cup (IF ~Has("setopts") THEN {} ELSE {[k |-> "setopts", id |-> i, opts |-> Set(o), rename |-> r, name |-> n] :
                                          i \in Some(t1), o \in Set(Case.opts), r \in BOOLEAN, n \in Set(Case.names)})
  \cup (IF ~Has("wire") THEN {} ELSE {[k |-> k, wires |-> <<w>>, ignore |-> b] : k \in {"wire", "unwire"}, w \in AnyWires(t1), b \in BOOLEAN}
          \cup IF ~Has("wire2") THEN {} ELSE {[k |-> k, wires |-> <<w, v>>, ignore |-> b] : k \in {"wire", "unwire"}, b \in BOOLEAN,
                  w \in {u \in AnyWires(t1) : WireFit(t1, u) = "yes"}, v \in AnyWires(t1)})
  \cup (IF ~Has("rename") THEN {} ELSE {[k |-> "rename", name |-> n] : n \in Set(Case.names)})
  \cup (IF ~Has("clear") THEN {} ELSE {[k |-> "clear"]})
  \cup (IF ~Has("load") THEN {} ELSE {[k |-> "load", tree |-> m] : m \in Set(Case.trees)})
  \cup (IF ~Has("reload") THEN {} ELSE {[k |-> "reload"]})

\* ids above the number of nodes of the case only come with loading
Emit(op, e) == PrintT("@E " \o ToJson(<<t, op, e.must, e.post>>))
Init == t = Empty
Next == \E op \in Ops(t) :
          LET e == Effect(t, op) IN
          /\ e.must \in {"ok", "fail"}
          /\ Assert(WellFormed(e.post), <<"not well formed", t, op>>)
          /\ Assert(Frame(t, op, e.post), <<"changes too much", t, op, e.post>>)
          /\ Emit(op, e)
          /\ t' = e.post
Spec == Init /\ [][Next]_t
Ok == WellFormed(t)

\* loading the message that describes a tree makes that tree of any other
Message(u) == LET ids == SetToSeq(Ids(u)) IN
  [nodes |-> [k \in 1..Len(ids) |-> [id |-> ids[k], cfg |-> u.nodes[ids[k]].cfg, name |-> u.nodes[ids[k]].name, kids |-> u.nodes[ids[k]].kids]],
   wires |-> SetToSeq(u.wires), name |-> u.name, path |-> u.path, pin |-> SetToSeq(u.pin), pout |-> SetToSeq(u.pout)]
ComesBack == Ids(t) # {} => Load(Empty, [tree |-> Message(t)]) = Done(t)
=============================================================================
