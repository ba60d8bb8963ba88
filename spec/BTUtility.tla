------------------------------ MODULE BTUtility -----------------------------
(***************************************************************************)
(* What executing a tree may cost.  A node has cost bounds for success and *)
(* failure; a bound is <<n>>, or <<>> if there is none (the cost may be    *)
(* arbitrarily small or large).  can: the node can be executed here.       *)
(*                                                                         *)
(* Ways(kind, n, k, t, r) are the ways in which n children lead to the     *)
(* result r: sets of <<child, result>> that cost something.  Bounds are    *)
(* the minimum and maximum over all ways of the sum over a way.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

All(n, r) == {{<<i, r>> : i \in 1..n}}
Until(n, r, last) == {{<<j, r>> : j \in 1..(i-1)} \cup {<<i, last>>} : i \in 1..n}
Groups(n, k, r) == {{<<i, r>> : i \in S} : S \in {T \in SUBSET (1..n) : Cardinality(T) = k}}

Ways(kind, n, k, t, r) ==
  CASE kind \in {"SEQ", "MSEQ"} /\ r = "S" -> All(n, "S")
    [] kind \in {"SEQ", "MSEQ"} /\ r = "F" -> Until(n, "S", "F")
    [] kind \in {"FB", "MFB"} /\ r = "S" -> Until(n, "F", "S")
    [] kind \in {"FB", "MFB"} /\ r = "F" -> All(n, "F")
    [] kind \in {"PAR", "PFT"} /\ r = "S" -> Groups(n, k, "S")
    [] kind = "PAR" /\ r = "F" -> Groups(n, n - k + 1, "F")
    [] kind = "PFT" /\ r = "F" -> Groups(n, t + 1, "F")

Plus(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a[1] + b[1]>>
\* b: bounds of the children; f(bounds, result) selects one
Low(b, x) == IF x[2] = "S" THEN b[x[1]].ls ELSE b[x[1]].lf
Upp(b, x) == IF x[2] = "S" THEN b[x[1]].us ELSE b[x[1]].uf
Sum(w, Op(_)) == FoldSet(LAMBDA x, a : Plus(Op(x), a), <<0>>, w)
Least(S) == IF <<>> \in S THEN <<>> ELSE <<Min({s[1] : s \in S})>>
Most(S) == IF <<>> \in S THEN <<>> ELSE <<Max({s[1] : s \in S})>>

Nothing == [can |-> FALSE, ls |-> <<>>, us |-> <<>>, lf |-> <<>>, uf |-> <<>>]
Free == [can |-> TRUE, ls |-> <<0>>, us |-> <<0>>, lf |-> <<0>>, uf |-> <<0>>]

\* NoWay: the node never has this result; whatever is reported for it means nothing
NoWay(kind, n, k, t, r) == Ways(kind, n, k, t, r) = {}

Bounds(kind, k, t, b) ==
  LET n == Len(b)
      ws == Ways(kind, n, k, t, "S")
      wf == Ways(kind, n, k, t, "F")
      lo(W) == IF W = {} THEN <<0>> ELSE Least({Sum(w, LAMBDA x : Low(b, x)) : w \in W})
      up(W) == IF W = {} THEN <<0>> ELSE Most({Sum(w, LAMBDA x : Upp(b, x)) : w \in W})
  IN IF \E i \in 1..n : ~b[i].can THEN Nothing
     ELSE [can |-> TRUE, ls |-> lo(ws), us |-> up(ws), lf |-> lo(wf), uf |-> up(wf)]

\* Optional: succeeds when its child cannot be executed, at unknown cost
Optional(b) == IF \A i \in 1..Len(b) : ~b[i].can THEN [Nothing EXCEPT !.can = TRUE] ELSE b[1]

Ordered(b) == (b.ls = <<>> \/ b.us = <<>> \/ b.ls[1] <= b.us[1]) /\ (b.lf = <<>> \/ b.uf = <<>> \/ b.lf[1] <= b.uf[1])

\* a tree: [k, p1, p2, b (of a leaf), kids]
RECURSIVE Cost(_)
Cost(tr) ==
  CASE tr.k = "COST" -> tr.b
    [] tr.k = "FREE" -> Free
    [] tr.k = "OPT" -> Optional([i \in 1..Len(tr.kids) |-> Cost(tr.kids[i])])
    [] tr.k = "DEC" -> Cost(tr.kids[1])
    [] OTHER -> Bounds(tr.k, tr.p1, tr.p2, [i \in 1..Len(tr.kids) |-> Cost(tr.kids[i])])

\* what is reported for a result the node never has is not compared; neither are bounds of what cannot be executed
Vacuous(tr, r) == tr.k \notin {"COST", "FREE", "OPT", "DEC"} /\ NoWay(tr.k, Len(tr.kids), tr.p1, tr.p2, r)
Judge(tr, got) ==
  LET want == Cost(tr) IN
  IF got.can # want.can THEN IF want.can THEN "cannot execute although it can" ELSE "can execute although it cannot"
  ELSE IF ~want.can THEN ""
  ELSE IF ~Vacuous(tr, "S") /\ got.ls # want.ls THEN "lower bound of success"
  ELSE IF ~Vacuous(tr, "S") /\ got.us # want.us THEN "upper bound of success"
  ELSE IF ~Vacuous(tr, "F") /\ got.lf # want.lf THEN "lower bound of failure"
  ELSE IF ~Vacuous(tr, "F") /\ got.uf # want.uf THEN "upper bound of failure"
  ELSE ""
=============================================================================
