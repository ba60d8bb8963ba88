---------------------------- MODULE KernelTrace ----------------------------
(* Judges histories recorded from real trees against BTKernel!Step.  One    *)
(* verdict per trace: <<number, "ok">> or <<number, "bad", step, clause>>.  *)
EXTENDS BTKernel, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLE i

\* maximal runs of calls of one kind other than tick are sets of calls
RECURSIVE Canon(_, _, _)
Canon(log, j, acc) ==
  IF j > Len(log) THEN acc
  ELSE LET e == log[j]
           new == Len(acc) = 0 \/ acc[Len(acc)].k # e[2] \/ e[2] = "tick"
       IN Canon(log, j + 1,
            IF new THEN Append(acc, [k |-> e[2], n |-> [x \in {e[1]} |-> 1]])
            ELSE [acc EXCEPT ![Len(acc)].n =
                    IF e[1] \in DOMAIN @ THEN [@ EXCEPT ![e[1]] = @ + 1]
                    ELSE [x \in DOMAIN @ \cup {e[1]} |-> IF x = e[1] THEN 1 ELSE @[x]]])

RECURSIVE Check(_, _, _)
Check(t, s, j) ==
  IF j > Len(t.ops) THEN <<"ok">>
  ELSE LET x == Step(t.tree, t.ops[j], s)
           p == Project(t.tree, x.s)
           o == t.obs[j]
       IN IF x.r # o.r THEN <<"bad", j, "reply", x.r, o.r>>
          ELSE IF p.st # o.st THEN <<"bad", j, "states", p.st, o.st>>
          ELSE IF p.out # o.out THEN <<"bad", j, "outputs", p.out, o.out>>
          ELSE IF Canon(p.log, 1, <<>>) # Canon(o.log, 1, <<>>) THEN <<"bad", j, "calls", p.log, o.log>>
          ELSE Check(t, x.s, j + 1)

Init == i = 0
Next == i < Len(Traces) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* evaluated once per trace, as an invariant: TLC caches LET values only there
Verdict == i = 0 \/ PrintT("@E " \o ToJson(<<i>> \o Check(Traces[i], Fresh(Traces[i].tree), 1)))
=============================================================================
