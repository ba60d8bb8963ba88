----------------------------- MODULE SlotTrace ------------------------------
(* Recorded lives of slots: [type, init, steps: seq of [op, val, r, st]], r is "ok", "err" or an exception. *)
EXTENDS BTSlot, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

\* a slot created with the value it would have anyway keeps that one
Like(a, b) == a.has = b.has /\ (a.has => VEq(a.val, b.val))
RECURSIVE Walk(_, _, _)
Walk(tr, j, st) ==
  IF j > Len(tr.steps) THEN <<"ok">>
  ELSE LET e == tr.steps[j]
           r == IF e.op = "new" THEN New(tr.type, st, e.val) ELSE Op(tr.type, st, e)
       IN IF e.r \notin {"ok", "err"} THEN <<"bad", j, "raises", e>>
          ELSE IF e.r = "ok" /\ ~r.ok THEN <<"bad", j, "accepts what has to be refused", e, st>>
          ELSE IF e.r = "err" /\ r.ok THEN <<"bad", j, "refuses what is permitted", e, st>>
          ELSE IF IF e.op = "new" THEN ~Like(e.st, r.st) ELSE ~SameSt(e.st, r.st) THEN <<"bad", j, "ends in the wrong state", e, r.st>>
          ELSE Walk(tr, j + 1, e.st)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Walk(Traces[t], 1, Traces[t].init)))
=============================================================================
