------------------------------ MODULE WireTrace -----------------------------
(***************************************************************************)
(* Facts about compatibility and wires recorded from the real code:        *)
(*  compat  whether type b may feed type a; vals are sample values         *)
(*  wire    a request to wire an output of type b to an input of type a:   *)
(*          the answer r, whether the wire is published afterwards, and    *)
(*          what became of the values written to the output                *)
(***************************************************************************)
EXTENDS BTSlot, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

\* a value of the source that the target does not admit
Witness(x) == {j \in 1..Len(x.vals) : Admits(x.b, x.vals[j]) /\ ~Admits(x.a, x.vals[j])}
Delivered(x, d) ==
  ~Admits(x.b, d.val) \/ (d.set = "ok" /\ d.push = "ok" /\ d.has /\ VEq(d.got, Conv(x.a, Conv(x.b, d.val))))

Verd(x) ==
  CASE x.e = "compat" ->
         IF x.r \notin {"yes", "no"} THEN <<"bad", "raises", x.r>>
         ELSE IF x.r = "yes" /\ Witness(x) # {} THEN <<"bad", "counts as compatible though a value is not admitted", x.vals[CHOOSE j \in Witness(x) : TRUE]>>
         ELSE IF x.r = "no" /\ x.same THEN <<"bad", "a type is not compatible with itself">>
         ELSE <<"ok">>
    [] x.e = "wire" ->
         LET W == {j \in 1..Len(x.deliv) : ~Delivered(x, x.deliv[j])}
             V == {j \in 1..Len(x.deliv) : Admits(x.b, x.deliv[j].val) /\ ~Admits(x.a, x.deliv[j].val)} IN
         IF x.r \notin {"ok", "fail"} THEN <<"bad", "raises", x.r>>
         ELSE IF x.r = "ok" /\ ~x.there THEN <<"bad", "an accepted wire is not published">>
         ELSE IF x.r = "fail" /\ x.there THEN <<"bad", "a refused wire is published">>
         ELSE IF x.r = "ok" /\ x.a.isSta THEN <<"bad", "a fixed input is wired">>
         ELSE IF x.r = "fail" /\ x.same /\ ~x.a.isSta THEN <<"bad", "a wire between equal types is refused">>
         ELSE IF x.r = "ok" /\ V # {} THEN <<"bad", "a wire is accepted though the source has a value the target does not admit", x.deliv[CHOOSE j \in V : TRUE]>>
         ELSE IF x.r = "ok" /\ W # {} THEN <<"bad", "a value is not delivered", x.deliv[CHOOSE j \in W : TRUE]>>
         ELSE IF x.r = "ok" /\ (x.off # "ok" \/ x.left) THEN <<"bad", "a wire is not removed", x.off>>
         ELSE <<"ok">>

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Verd(Traces[t])))
=============================================================================
