----------------------------- MODULE ReportTrace ----------------------------
(* Recorded executions judged by BTReport. A trace has the events, those of the same execution without debug manager (twin), and what was *)
(* seen of the status of a tree: [state, name, root, level, told].                                                                        *)
EXTENDS BTReport, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

RECURSIVE Walk(_, _, _)
Walk(m, es, k) ==
  IF k > Len(es) THEN <<>>
  ELSE LET v == Accept(m, es[k]) IN IF v # "" THEN <<k, v>> ELSE Walk(After(m, es[k]), es, k + 1)

Status(x) ==
  IF x.level # StatusLevel(x.state) THEN "the status of a tree in the state " \o x.state \o " has another level"
  ELSE IF x.told # StatusName(x.name, x.root) THEN "the status has another name than the tree"
  ELSE ""

Judge(tr) ==
  LET a == Walk(New(tr.on, tr.min), tr.ev, 1)
      W == {k \in 1..Len(tr.status) : Status(tr.status[k]) # ""}
  IN IF a # <<>> THEN a
     ELSE IF tr.compare /\ Plain(tr.ev) # tr.twin THEN <<0, "reporting changes what the tree does">>
     ELSE IF W # {} THEN LET k == CHOOSE k \in W : \A j \in W : k <= j IN <<k, Status(tr.status[k])>>
     ELSE <<>>

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Judge(Traces[t])>>))
=============================================================================
