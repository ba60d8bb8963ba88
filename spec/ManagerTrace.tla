---------------------------- MODULE ManagerTrace ----------------------------
(* Recorded histories: a step has the command, the operations the root was asked for with its answers, the answer to the command, *)
(* the tree state and the root's state afterwards, and the states of all nodes.                                                   *)
EXTENDS BTManager, TLC, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Answered(s, k) == LET x == {j \in DOMAIN s.ops : s.ops[j].k = k} IN IF x = {} THEN "ERR" ELSE s.ops[CHOOSE j \in x : TRUE].r
Outcome(s) == [k \in {"setup", "tick", "untick", "reset", "shutdown"} |-> Answered(s, k)]

Judge(m, s) ==
  LET o == Outcome(s)
      r == Step(m, s.c, o)
      after == [r.m EXCEPT !.root = s.root]
  IN IF s.c = "check" /\ ~Ticking(m) /\ m.ts # "ERROR"
       THEN IF s.ok /\ (s.ts # "EDITABLE" \/ (Real(m) /\ s.root # "SHUTDOWN")) THEN "a checked tree is not shut down" ELSE ""
     ELSE IF s.ts # r.m.ts THEN "tree state is " \o s.ts \o " instead of " \o r.m.ts
     ELSE IF s.c # "loop" /\ s.ok # r.ok THEN IF s.ok THEN "accepted what must be refused" ELSE "refused what is permitted"
     ELSE IF [j \in DOMAIN s.ops |-> s.ops[j].k] # r.ops THEN "other operations of the root"
     ELSE IF s.said # "" /\ s.ok /\ s.c \notin {"always", "until"} /\ s.said # s.ts THEN "answers with another tree state than it has"
     ELSE IF s.ok /\ s.c \in {"shutdown", "check"} /\ Real(m) /\ ToSet(s.all) # {"SHUTDOWN"} THEN "a node is not shut down"
     ELSE IF s.ts \in {"IDLE", "EDITABLE"} /\ "RUNNING" \in ToSet(s.all) THEN "a node is running in a tree that is not executed"
     ELSE IF s.seen # s.ts THEN "published another tree state than it has"
     ELSE ""

RECURSIVE Walk(_, _, _)
Walk(m, ss, k) ==
  IF k > Len(ss) THEN <<>>
  ELSE LET v == Judge(m, ss[k]) IN
       IF v # "" THEN <<k, v>>
       ELSE Walk([Step(m, ss[k].c, Outcome(ss[k])).m EXCEPT !.root = ss[k].root, !.ts = ss[k].ts], ss, k + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Walk(Init0(Traces[t].root), Traces[t].steps, 1)>>))
=============================================================================
