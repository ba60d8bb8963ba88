---------------------------- MODULE UtilityTrace ----------------------------
(* Bounds reported by real trees, judged by BTUtility. *)
EXTENDS BTUtility, TLC, Json, IOUtils

Facts == JsonDeserialize(IOEnv.FACTS)
VARIABLE c
Init == c = 0
Next == c < Len(Facts) /\ c' = c + 1
Spec == Init /\ [][Next]_c
Verdict == c = 0 \/ LET v == Judge(Facts[c].tree, Facts[c].got) IN v = "" \/ PrintT("@E " \o ToJson(<<c, v, Cost(Facts[c].tree)>>))
=============================================================================
