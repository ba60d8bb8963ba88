----------------------------- MODULE StoreTrace ------------------------------
(* Save requests made to the real code, each with the file system before and after it. *)
EXTENDS BTStore, TLC, Json, IOUtils

Steps == JsonDeserialize(IOEnv.TRACES)
VARIABLE t
Fs(x) == [files |-> ToSet(x.files), dirs |-> ToSet(x.dirs), ro |-> ToSet(x.ro)]
Shown(x) == IF x.k = "list" THEN IF ToSet(x.list) = Listing(Fs(x.fs), x.root, x.hidden) /\ Len(x.list) = Cardinality(ToSet(x.list)) THEN ""
                                 ELSE "the listing is not that of the folder"
            ELSE Judge(Fs(x.fs), x.req, x.ans, Fs(x.fs2))
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Shown(Steps[t])>>))
Init == t = 0
Next == t < Len(Steps) /\ t' = t + 1
Spec == Init /\ [][Next]_t
=============================================================================
