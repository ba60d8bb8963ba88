----------------------------- MODULE ActionTrace -----------------------------
(* Recorded histories of real action nodes, judged by BTAction. *)
EXTENDS BTAction, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
Diff(n, o) == IF o.r # n.r THEN <<"result", o.r, n.r>>
              ELSE IF Bag(o.calls) # Bag(n.calls) THEN <<"calls", o.calls, n.calls>>
              ELSE IF o.out # n.s.out THEN <<"outputs", o.out, n.s.out>>
              ELSE IF ToSet(o.live) # Live(n.s) THEN <<"clients", o.live, Live(n.s)>> ELSE <<>>
RECURSIVE Walk(_, _, _, _)
Walk(T, s, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET n == Step(T, s, es[i].e)
           d == Diff(n, es[i].o)
       IN IF d = <<>> THEN Walk(T, n.s, es, i + 1) ELSE <<i>> \o d

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Walk(Traces[t].cfg.T, Off("UNINITIALIZED"), Traces[t].events, 1)>>))
=============================================================================
