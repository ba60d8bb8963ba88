------------------------------ MODULE RaceTrace -----------------------------
(* Executions of the real manager under a controlled scheduler, judged by BTConcurrent. *)
EXTENDS BTConcurrent, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

RECURSIVE Walk(_, _, _)
Walk(m, es, k) ==
  IF k > Len(es) THEN <<>>
  ELSE IF es[k].e = "fin" THEN LET v == Finally(m, es[k]) IN IF v = "" THEN <<>> ELSE <<k, v>>
  ELSE LET v == Accept(m, es[k]) IN IF v # "" THEN <<k, v>> ELSE Walk(After(m, es[k]), es, k + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Walk(New(Traces[t][1]), Traces[t][2], 1)>>))
=============================================================================
