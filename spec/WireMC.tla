------------------------------- MODULE WireMC -------------------------------
(* The rules for compatibility over all pairs and triples of sample types: every state is a pair. *)
EXTENDS BTSlot, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES a, b
N == 1..Len(Cases)
Ty(i) == Cases[i].type
Init == a = 1 /\ b \in N
Next == a < Len(Cases) /\ a' = a + 1 /\ UNCHANGED b
Spec == Init /\ [][Next]_<<a, b>>

\* what the source admits, the target admits
Sound == Fits(Ty(a), Ty(b)) => \A j \in 1..Len(Cases[b].vals) : Admits(Ty(b), Cases[b].vals[j]) => Admits(Ty(a), Cases[b].vals[j])
\* a value that is passed on along two wires is admitted at the end
Passes == Fits(Ty(a), Ty(b)) => \A j \in 1..Len(Cases[b].vals) : Admits(Ty(b), Cases[b].vals[j]) => VEq(Conv(Ty(a), Conv(Ty(b), Cases[b].vals[j])), Conv(Ty(b), Cases[b].vals[j]))
Transitive == Fits(Ty(a), Ty(b)) => \A c \in N : Fits(Ty(b), Ty(c)) => Fits(Ty(a), Ty(c))
Reflexive == Fits(Ty(a), Ty(a))
=============================================================================
