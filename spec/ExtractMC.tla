------------------------------ MODULE ExtractMC -----------------------------
(* Every ordered tree or pair of trees of up to N nodes (numbered in preorder) with up to W wires, and every request. *)
EXTENDS BTExtract, Json
CONSTANTS N, W
MixC == 1
ItemC == 2
ExTable == <<[cls |-> "Mix", max |-> -1, opts |-> {}, ins |-> {<<"a", "str", "str", FALSE>>}, outs |-> {<<"q", "str", "str", FALSE>>}],
             [cls |-> "Item", max |-> 0, opts |-> {}, ins |-> {<<"a", "str", "str", FALSE>>}, outs |-> {<<"o", "str", "str", FALSE>>}]>>
VARIABLE s

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
Flat(t) == [t EXCEPT !.nodes = [i \in 1..Cardinality(Ids(t)) |-> [id |-> i, cfg |-> t.nodes[i].cfg, name |-> "n", kids |-> t.nodes[i].kids]]]
\* a parent for every node; preorder: the parent of i is an ancestor-or-self of i-1, or 0
RECURSIVE Anc(_, _)
Anc(p, i) == IF i = 0 THEN {0} ELSE {i} \cup Anc(p, p[i])
Shapes == UNION {{p \in [1..n -> 0..(n - 1)] : /\ \A i \in 1..n : p[i] < i
                                               /\ \A i \in 2..n : p[i] \in Anc(p, i - 1)} : n \in 0..N}
KidsOf(p, i) == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : p[j] = i)
TreesOf(p) ==
  LET n == Len(p)
      nodes == [i \in 1..n |-> [cfg |-> IF KidsOf(p, i) = <<>> THEN ItemC ELSE MixC, name |-> "n", kids |-> KidsOf(p, i)]]
      out(i) == IF nodes[i].cfg = MixC THEN "q" ELSE "o"
      all == {<<i, out(i), j, "a">> : i \in 1..n, j \in 1..n}
      pub == IF n = 0 THEN {} ELSE {<<n, "a">>}
      pubo == IF n = 0 THEN {} ELSE {<<1, out(1)>>}
  IN {[nodes |-> nodes, wires |-> w, name |-> "T", path |-> "", pin |-> pub, pout |-> pubo] :
      w \in {v \in SUBSET all : Cardinality(v) <= W}}
Trees == UNION {TreesOf(p) : p \in Shapes}
Requests(t) == {[k |-> "get", id |-> i] : i \in Ids(t) \cup {-1, 99}}
               \cup {[k |-> "gen", ids |-> Listed(x)] : x \in SUBSET (Ids(t) \cup {99})}

Init == \E t \in Trees : s = [tree |-> t, op |-> [k |-> "none"], ans |-> Refused]
Next == s.op.k = "none" /\ \E op \in Requests(s.tree) :
          LET e == Extract(s.tree, op) IN s' = [s EXCEPT !.op = op, !.ans = e] /\ PrintT("@E " \o ToJson(<<Flat(s.tree), op>>))
Spec == Init /\ [][Next]_s

Asked == s.op.k # "none" /\ s.ans.must = "ok"
P == s.ans.part
\* what comes out is a tree by itself with the nodes and wires as they were
Whole == Asked => /\ WellFormed(AsTree(P)) /\ Roots(AsTree(P)) = {P.root}
                  /\ DOMAIN P.nodes \subseteq Ids(s.tree) /\ P.wires = Inner(s.tree, DOMAIN P.nodes)
Same == Asked => \A i \in DOMAIN P.nodes : /\ P.nodes[i].cfg = s.tree.nodes[i].cfg
                                           /\ P.nodes[i].kids = SelectSeq(Kids(s.tree, i), LAMBDA j : j \in DOMAIN P.nodes)
\* nothing is cut off below, and the border is open exactly where wires cross it
Closed == (Asked /\ s.op.k = "get") =>
          /\ \A i \in DOMAIN P.nodes : P.nodes[i] = s.tree.nodes[i]
          /\ Cardinality(DOMAIN P.nodes) = 1 + Cardinality(UNION {Below(s.tree, j) : j \in ToSet(Kids(s.tree, s.op.id))})
          /\ \A w \in s.tree.wires : Touches(w, DOMAIN P.nodes) => \/ w \in P.wires \/ <<w[3], w[4]>> \in P.pin \/ <<w[1], w[2]>> \in P.pout
\* a part of a part is a part of the whole; the whole is a part of itself
Nested == (Asked /\ s.op.k = "get") => \A j \in DOMAIN P.nodes :
             LET a == Get(AsTree(P), j).part b == Get(s.tree, j).part IN a.nodes = b.nodes /\ a.wires = b.wires
All == \A r \in Roots(s.tree) : Cardinality(Roots(s.tree)) = 1 =>
         /\ Get(s.tree, r).part.nodes = s.tree.nodes /\ Get(s.tree, r).part.wires = s.tree.wires
         /\ Gen(s.tree, Ids(s.tree)).part = [nodes |-> s.tree.nodes, wires |-> s.tree.wires, pin |-> s.tree.pin, pout |-> s.tree.pout, root |-> r]
Asks == (Asked /\ s.op.k = "gen") => ToSet(s.op.ids) \cap Ids(s.tree) \subseteq DOMAIN P.nodes
=============================================================================
