----------------------------- MODULE ComputeTrace -----------------------------
(* Recorded histories of real nodes that compute, judged by BTCompute. *)
EXTENDS BTCompute, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Diff(c, n, o) ==
  LET bad == {j \in 1..Len(c.outs) : ~Same(n.s.out[j], o.out[j])}
      mod == {j \in 1..Len(c.keys) : ~Same(n.s.in[j], o.in[j])}
  IN IF n.r = "open" THEN (IF o.r \in {"SUCCEEDED", "FAILED", "err"} THEN <<>> ELSE <<"result", o.r, "anything else">>)
     ELSE IF n.r = "refused" THEN (IF o.r \in {"FAILED", "err"} THEN <<>> ELSE <<"result", o.r, "a failure or an error">>)
     ELSE IF o.r # n.r THEN <<"result", o.r, n.r>>
     ELSE IF n.s.st \in {"END", "SHUTDOWN"} THEN <<>>
     ELSE IF bad # {} THEN LET j == CHOOSE j \in bad : TRUE IN <<"output " \o c.outs[j], ToJson(o.out[j]), ToJson(n.s.out[j])>>
     ELSE IF mod # {} THEN LET j == CHOOSE j \in mod : TRUE IN <<"input " \o c.keys[j], ToJson(o.in[j]), ToJson(n.s.in[j])>>
     ELSE <<>>
RECURSIVE Walk(_, _, _, _)
Walk(c, s, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET n == Step(c, s, es[i].e)
           d == Diff(c, n, es[i].o)
       IN IF d # <<>> THEN <<i>> \o d
          ELSE IF n.r \notin {"refused", "open"} THEN Walk(c, n.s, es, i + 1)
          ELSE IF es[i].o.r = "err" THEN Walk(c, n.s, es, i + 1)
          ELSE IF Yaml(c) THEN <<>>
          \* it failed and goes on; what it wrote is left open
          ELSE Walk(c, [n.s EXCEPT !.st = es[i].o.r, !.in = es[i].o.in, !.out = es[i].o.out], es, i + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Walk(Traces[t].cfg, Off(Traces[t].cfg, "UNINITIALIZED"), Traces[t].events, 1)>>))
=============================================================================
