----------------------------- MODULE ResetTrace -----------------------------
(***************************************************************************)
(* C07 on recorded executions.  A trace holds what a tree looked like      *)
(* right after it was renewed (how = reset, or shutdown followed by        *)
(* setup) at the end of some history, and what the same suffix of          *)
(* operations showed afterwards (a) and on a freshly set up tree (b).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

\* maximal runs of calls of one kind other than tick are bags of calls
RECURSIVE Canon(_, _, _)
Canon(log, j, acc) ==
  IF j > Len(log) THEN acc
  ELSE LET e == log[j]
           new == Len(acc) = 0 \/ acc[Len(acc)].k # e[2] \/ e[2] = "tick"
       IN Canon(log, j + 1,
            IF new THEN Append(acc, [k |-> e[2], n |-> [x \in {e[1]} |-> 1]])
            ELSE [acc EXCEPT ![Len(acc)].n =
                    IF e[1] \in DOMAIN @ THEN [@ EXCEPT ![e[1]] = @ + 1]
                    ELSE [x \in DOMAIN @ \cup {e[1]} |-> IF x = e[1] THEN 1 ELSE @[x]]])

\* never set up and shut down are the same to a node that is not used
Norm(st) == [i \in DOMAIN st |-> IF st[i] = "UNINITIALIZED" THEN "SHUTDOWN" ELSE st[i]]
Same(x, y) == x.r = y.r /\ Norm(x.st) = Norm(y.st) /\ x.out = y.out /\ Canon(x.log, 1, <<>>) = Canon(y.log, 1, <<>>)

Renewed(tr) ==
  LET o == tr.after IN
  IF o.r # "IDLE" THEN "renewal fails where setup succeeds"
  ELSE IF \E i \in 1..Len(o.st) : tr.fresh.st[i] = "IDLE" /\ o.st[i] # "IDLE" THEN "a node is not idle after the renewal"
  ELSE IF \E i \in 1..Len(o.st) : tr.fresh.st[i] = "IDLE" /\ o.set[i] THEN "an output still has a value after the renewal"
  ELSE IF \E i \in 1..Len(o.st) : tr.fresh.st[i] = "IDLE" /\ ~o.upd[i] THEN "an input does not count as updated after the renewal"
  ELSE ""

Verd(tr) ==
  IF Renewed(tr) # "" THEN <<"bad", 0, Renewed(tr)>>
  ELSE LET D == {j \in 1..Len(tr.a) : ~Same(tr.a[j], tr.b[j])} IN
       IF D = {} THEN <<"ok">>
       ELSE LET j == CHOOSE x \in D : \A y \in D : x <= y
            IN <<"bad", j, "behaves differently from a freshly set up tree", tr.a[j], tr.b[j]>>

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Verd(Traces[t])))
=============================================================================
