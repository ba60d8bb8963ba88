------------------------------ MODULE BTExtract -----------------------------
(***************************************************************************)
(* Taking parts out of a tree (see BTEdit for trees).                      *)
(*  get  [id]   the tree below a node: the node and all its descendants,   *)
(*              the wires among them; what is wired across the border      *)
(*              becomes public data.                                       *)
(*  gen  [ids]  the listed nodes and their parents, as one tree; ids of no *)
(*              node count for nothing.                                    *)
(* Neither changes the tree.                                               *)
(***************************************************************************)
EXTENDS BTEdit

None == [nodes |-> [i \in {} |-> 0], wires |-> {}, pin |-> {}, pout |-> {}, root |-> 0]
Refused == [must |-> "fail", part |-> None]
Inner(t, X) == {w \in t.wires : w[1] \in X /\ w[3] \in X}

Get(t, id) ==
  IF id \notin Ids(t) THEN Refused
  ELSE LET X == Below(t, id)
       IN [must |-> "ok",
           part |-> [nodes |-> [i \in X |-> t.nodes[i]], wires |-> Inner(t, X), root |-> id,
                     pin |-> {<<w[3], w[4]>> : w \in {v \in t.wires : v[1] \notin X /\ v[3] \in X}},
                     pout |-> {<<w[1], w[2]>> : w \in {v \in t.wires : v[1] \in X /\ v[3] \notin X}}]]

Gen(t, S) ==
  LET X == {i \in Ids(t) : i \in S \/ ToSet(Kids(t, i)) \cap S # {}}
      u == Drop(t, Ids(t) \ X)
  IN IF Cardinality(Roots(t)) # 1 THEN Refused
     ELSE IF X = {} THEN [must |-> "any", part |-> None]
     ELSE IF Cardinality(Roots(u)) # 1 THEN Refused
     ELSE [must |-> "ok", part |-> [nodes |-> u.nodes, wires |-> u.wires, pin |-> u.pin, pout |-> u.pout, root |-> CHOOSE r \in Roots(u) : TRUE]]

Extract(t, op) == IF op.k = "get" THEN Get(t, op.id) ELSE Gen(t, ToSet(op.ids))
AsTree(p) == [nodes |-> p.nodes, wires |-> p.wires, name |-> "", path |-> "", pin |-> p.pin, pout |-> p.pout]
=============================================================================
