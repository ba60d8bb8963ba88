------------------------------- MODULE BTData -------------------------------
(***************************************************************************)
(* Data flow between the nodes of a tree.  A tree T:                       *)
(*   kids  node -> sequence of children      ins, outs  node -> slots      *)
(*   wires set of <<source, output, target, input>>                        *)
(* Its state: inp node -> slot -> [v, u] (value and updated flag),         *)
(* out node -> slot -> [v, u], st node -> "off", "on" or "broken",         *)
(* stack: nodes whose tick is in progress, innermost last.                 *)
(* A value is a string, None if there is none.                             *)
(* Events: setup, shutdown (of the root), begin and end of a node's tick,  *)
(* write in a tick, reset and untick.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

None == "none"
Ids(T) == 1..Len(T.kids)
ToSet(q) == {q[i] : i \in 1..Len(q)}

RECURSIVE Below(_, _)
Below(T, n) == {n} \cup UNION {Below(T, k) : k \in ToSet(T.kids[n])}

Off(T) == [inp |-> [n \in Ids(T) |-> [k \in T.ins[n] |-> [v |-> None, u |-> FALSE]]],
           out |-> [n \in Ids(T) |-> [k \in T.outs[n] |-> [v |-> None, u |-> FALSE]]],
           st |-> [n \in Ids(T) |-> "off"], stack |-> <<>>]

Top(s) == s.stack[Len(s.stack)]
Reachable(T, s) == IF s.stack = <<>> THEN {1} ELSE ToSet(T.kids[Top(s)])

Setup(T, s) == [Off(T) EXCEPT !.st = [n \in Ids(T) |-> "on"], !.inp = [n \in Ids(T) |-> [k \in T.ins[n] |-> [v |-> None, u |-> TRUE]]]]
Shutdown(T, s) == [s EXCEPT !.st = [n \in Ids(T) |-> "off"]]

\* whether a tick of n comes to the node's own code
Enters(T, s, n) == s.st[n] = "on" /\ \A k \in T.ins[n] : s.inp[n][k].v # None
Begin(T, s, n) ==
  IF s.st[n] # "on" THEN s
  ELSE IF ~Enters(T, s, n) THEN [s EXCEPT !.st[n] = "broken"]
  ELSE [s EXCEPT !.stack = Append(@, n), !.out[n] = [k \in T.outs[n] |-> [@[k] EXCEPT !.u = FALSE]]]

Write(s, k, v) == IF s.out[Top(s)][k].v = v THEN s ELSE [s EXCEPT !.out[Top(s)][k] = [v |-> v, u |-> TRUE]]

\* what node n changed arrives where it is wired to; nothing else is written
Arrives(T, s, n, m, k) == {w \in T.wires : w[1] = n /\ w[3] = m /\ w[4] = k /\ s.out[n][w[2]].u}
Push(T, s, n) ==
  [s EXCEPT !.inp = [m \in Ids(T) |-> [k \in T.ins[m] |->
     LET A == Arrives(T, s, n, m, k)
         x == s.out[n][(CHOOSE w \in A : TRUE)[2]].v
     IN IF A = {} \/ x = s.inp[m][k].v THEN s.inp[m][k] ELSE [v |-> x, u |-> TRUE]]]]
End(T, s) ==
  LET n == Top(s)
      r == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.inp[n] = [k \in T.ins[n] |-> [@[k] EXCEPT !.u = FALSE]]]
  IN Push(T, r, n)
EndErr(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.st[Top(s)] = "broken"]

\* everything below a node that can be reset is asked for it; what is broken or off stays as it is, with everything below it
RECURSIVE Asked(_, _, _)
Asked(T, s, n) == IF s.st[n] # "on" THEN {} ELSE {n} \cup UNION {Asked(T, s, k) : k \in ToSet(T.kids[n])}
Reset(T, s, n) ==
  LET R == Asked(T, s, n) IN
  [s EXCEPT !.inp = [m \in Ids(T) |-> IF m \in R THEN [k \in T.ins[m] |-> [@[m][k] EXCEPT !.u = TRUE]] ELSE @[m]],
            !.out = [m \in Ids(T) |-> IF m \in R THEN [k \in T.outs[m] |-> [v |-> None, u |-> FALSE]] ELSE @[m]]]
Untick(T, s, n) == s

Apply(T, s, e) ==
  CASE e.k = "setup" -> Setup(T, s)
    [] e.k = "shutdown" -> Shutdown(T, s)
    [] e.k = "begin" -> Begin(T, s, e.n)
    [] e.k = "write" -> Write(s, e.o, e.v)
    [] e.k = "end" -> End(T, s)
    [] e.k = "err" -> EndErr(s)
    [] e.k = "reset" -> Reset(T, s, e.n)
    [] e.k = "untick" -> Untick(T, s, e.n)

\* what can be seen; a node that is off or broken is not looked at, and a flag only between ticks of its node
See(T, s) ==
  [n \in Ids(T) |-> IF s.st[n] # "on" THEN [st |-> s.st[n]]
                    ELSE [st |-> "on", inp |-> s.inp[n], out |-> [k \in T.outs[n] |-> s.out[n][k].v]]]
=============================================================================
