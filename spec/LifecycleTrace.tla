--------------------------- MODULE LifecycleTrace ---------------------------
(* Judges recorded node calls against BTLifecycle. *)
EXTENDS BTLifecycle, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

RECURSIVE Check(_, _, _)
Check(ev, m, j) ==
  IF j > Len(ev) THEN <<IF Len(m.stack) = 0 THEN "ok" ELSE "bad", j, "call without return", <<>>>>
  ELSE LET why == Accept(m, ev[j]) IN
       IF why # "" THEN <<"bad", j, why, ev[j], m.st[ev[j].i]>> ELSE Check(ev, After(m, ev[j]), j + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t

Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o
   Check(Traces[t].ev, New([i \in 1..Traces[t].n |-> "UNINITIALIZED"]), 1)))
=============================================================================
