------------------------------- MODULE TypeMC -------------------------------
(* Reading the message of a type gives the type back; writing it again the message; damaged messages give nothing else. *)
EXTENDS BTMessages, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLE c
Init == c \in 1..Len(Cases)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

T == Cases[c]
RoundTrip == LET R == FromMsg(ToMsg(T)) IN Len(R) = 1 /\ ToMsg(R[1]) = ToMsg(T)
\* a type without either permission, or with its present use not permitted, is none
Refused == /\ FromMsg([ToMsg(T) EXCEPT !.dyn = FALSE, !.sta = FALSE]) = <<>>
           /\ FromMsg([ToMsg(T) EXCEPT !.tid = "unknown"]) = <<>>
           /\ T.k \in {"list", "dict"} => FromMsg([ToMsg(T) EXCEPT !.vt = <<>>]) = <<>>
           /\ T.k \in {"int", "float"} => FromMsg([ToMsg(T) EXCEPT !.lo = <<-8>>]) = <<>>
SameMeaning == T.k \notin {"ref", "reflist", "refdict"} => Fits(T, FromMsg(ToMsg(T))[1] @@ [optlen |-> T.optlen])
=============================================================================
