------------------------------ MODULE UtilityMC -----------------------------
(* All nodes with up to three children with all bounds; the ways are those of the results the nodes have. *)
EXTENDS BTUtility, TLC, Json

CONSTANTS Wide    \* three children with all bounds
VARIABLES kind, k, t, b

Kinds == {"SEQ", "MSEQ", "FB", "MFB", "PAR", "PFT"}
Intervals == {<<x, y>> \in {<<>>, <<0>>, <<2>>} \X {<<>>, <<0>>, <<2>>} : x = <<>> \/ y = <<>> \/ x[1] <= y[1]}
Of(s, f) == [can |-> TRUE, ls |-> s[1], us |-> s[2], lf |-> f[1], uf |-> f[2]]
Every == {Of(s, f) : s, f \in Intervals} \cup {Nothing}
Some == {Of(s, s) : s \in Intervals} \cup {Of(<<<<1>>, <<3>>>>, <<<<0>>, <<1>>>>), Of(<<<<0>>, <<1>>>>, <<<<2>>, <<>>>>), Of(<<<<>>, <<1>>>>, <<<<0>>, <<0>>>>), Nothing}

\* the result when the children's results are o ("R": none yet)
Result(o) ==
  LET n == Len(o)
      num(r) == Cardinality({i \in 1..n : o[i] = r})
      first(r) == {i \in 1..n : o[i] # r}
      at(r) == o[Min(first(r))]
  IN CASE kind \in {"SEQ", "MSEQ"} -> IF first("S") = {} THEN "S" ELSE at("S")
       [] kind \in {"FB", "MFB"} -> IF first("F") = {} THEN "F" ELSE at("F")
       [] kind = "PAR" -> IF num("S") >= k THEN "S" ELSE IF num("F") > n - k THEN "F" ELSE "R"
       [] kind = "PFT" -> IF num("S") >= k THEN "S" ELSE IF num("F") > t THEN "F" ELSE "R"

Init == /\ kind \in Kinds
        /\ \E n \in 1..3 :
             /\ k \in (IF kind \in {"PAR", "PFT"} THEN 1..n ELSE {0})
             /\ t \in (IF kind = "PFT" THEN 0..n ELSE {0})
             /\ b \in [1..n -> IF n < 3 \/ Wide THEN Every ELSE Some]
Next == UNCHANGED <<kind, k, t, b>>
Spec == Init /\ [][Next]_<<kind, k, t, b>>

N == Len(b)
W(r) == Ways(kind, N, k, t, r)
Has(o, w) == \A x \in w : o[x[1]] = x[2]
\* the node has a result exactly when one of its ways has been gone (success is looked at first), and no way contains another
Exact == b # [i \in 1..N |-> Nothing] \/
         /\ \A o \in [1..N -> {"S", "F", "R"}] :
              LET s == \E w \in W("S") : Has(o, w)
                  f == \E w \in W("F") : Has(o, w)
              IN Result(o) = (IF s THEN "S" ELSE IF f THEN "F" ELSE "R")
         /\ \A r \in {"S", "F"} : \A v, w \in W(r) : v \subseteq w => v = w
Sound == Ordered(Bounds(kind, k, t, b))
Emit == PrintT("@E " \o ToJson(<<kind, k, t, b>>))
=============================================================================
