------------------------------- MODULE SlotMC -------------------------------
(* All states of slots of the given types under all operations with the given values. *)
EXTENDS BTSlot, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, st, kept
vars == <<c, st, kept>>

T == Cases[c].type
Ops == {[op |-> o, j |-> 0] : o \in {"drop", "flag", "unflag"}} \cup
       {[op |-> o, j |-> j] : o \in {"set", "read"}, j \in 1..Len(Cases[c].vals)}
Full(o) == IF o.j = 0 THEN [op |-> o.op] ELSE [op |-> o.op, val |-> Cases[c].vals[o.j]]

\* kept: the value of a static slot in the current phase, once one was set
Init == c \in 1..Len(Cases) /\ st = Cases[c].init /\ kept = <<>>
Do(o) ==
  LET r == Op(T, st, Full(o)) IN
  /\ st' = r.st
  /\ kept' = IF o.op = "unflag" \/ ~T.isSta THEN <<>>
             ELSE IF o.op \in {"set", "read"} /\ r.ok /\ r.st.upd THEN <<r.st.val>> ELSE kept
  /\ UNCHANGED c
  /\ PrintT("@E " \o ToJson(<<c, st, o.op, o.j, r.ok, r.st>>))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

\* a slot holds what it held initially or an admitted value
Valid == st.has => st.val = Cases[c].init.val \/ Admits(T, st.val)
Static == kept # <<>> => st.has /\ st.val = kept[1]
Dynamic == [][~T.isSta /\ ~st.has /\ st'.has => st'.upd]_vars
Refused == [][st' # st /\ st.has /\ st'.has /\ st'.val # st.val => Admits(T, st'.val) /\ ~(T.isSta /\ st.upd)]_vars
\* the rules for compatibility are sound
Sound == \A d \in 1..Len(Cases) : Fits(T, Cases[d].type) =>
           \A j \in 1..Len(Cases[d].vals) : Admits(Cases[d].type, Cases[d].vals[j]) => Admits(T, Cases[d].vals[j])
Reflexive == Fits(T, T)
=============================================================================
