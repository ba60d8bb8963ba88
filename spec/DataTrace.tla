------------------------------ MODULE DataTrace -----------------------------
(* Recorded histories of real trees, judged by BTData. A trace: the tree and its events, each with what was seen after it. *)
EXTENDS BTData, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Tree(x) == [kids |-> x.kids, ins |-> [n \in 1..Len(x.ins) |-> ToSet(x.ins[n])], outs |-> [n \in 1..Len(x.outs) |-> ToSet(x.outs[n])],
            wires |-> ToSet(x.wires)]

Obs(T, s, o) ==
  LET bad(n) == IF s.st[n] # "on" THEN ""
                ELSE IF \E k \in T.ins[n] : o[n].inp[k].v # s.inp[n][k].v THEN "input value"
                ELSE IF \E k \in T.ins[n] : o[n].inp[k].u # s.inp[n][k].u THEN "updated flag"
                ELSE IF \E k \in T.outs[n] : o[n].out[k] # s.out[n][k].v THEN "output value"
                ELSE ""
      B == {n \in Ids(T) : bad(n) # ""}
  IN IF B = {} THEN <<>> ELSE LET n == CHOOSE n \in B : \A m \in B : n <= m IN <<bad(n), n, o[n], s.inp[n], s.out[n]>>

RECURSIVE Walk(_, _, _, _)
Walk(T, s, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET e == es[i]
           r == Apply(T, s, e)
           entered == e.k # "begin" \/ (e.seen = 1) = Enters(T, s, e.n)
           bad == IF ~entered THEN <<"a tick is " \o (IF e.seen = 1 THEN "made" ELSE "refused")>> ELSE Obs(T, r, e.obs)
       IN IF bad # <<>> THEN <<i, bad>> ELSE Walk(T, r, es, i + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ LET T == Tree(Traces[t].tree) IN PrintT("@E " \o ToJson(<<t, Walk(T, Off(T), Traces[t].events, 1)>>))
=============================================================================
