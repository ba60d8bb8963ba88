----------------------------- MODULE TypeTrace ------------------------------
(***************************************************************************)
(* Recorded facts about types:                                             *)
(*  type    a type was written (m), read back (r) and written again (m2);  *)
(*          probes are values offered to the type read back                *)
(*  msg     a message was read (r), the result written (m2) and probed     *)
(*  field   a message field's type text was turned into a type             *)
(*  value   an admitted value was written and read back                    *)
(*  text    a text was read as a value: json, whether it is any value;     *)
(*          same, whether the slot is as before                            *)
(*  compat  a slot of type a was asked whether b is compatible             *)
(***************************************************************************)
EXTENDS BTMessages, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

\* a probe that disagrees with type T, or 0
Probe(T, ps) ==
  LET D == {j \in 1..Len(ps) : ps[j].r \notin {"ok", "err"} \/ (ps[j].r = "ok") # Admits(T, ps[j].val)}
  IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A l \in D : j <= l
Probed(T, ps) == IF Probe(T, ps) = 0 THEN <<"ok">> ELSE <<"bad", "a value is not treated as the type demands", ps[Probe(T, ps)]>>

Verd(x) ==
  CASE x.e = "type" ->
         IF x.r # "ok" THEN <<"bad", "a type cannot be read back", x.r>>
         ELSE IF x.m # ToMsg(x.type) THEN <<"bad", "a type is written wrongly", x.m, ToMsg(x.type)>>
         ELSE IF x.m2 # x.m THEN <<"bad", "a type reads back differently", x.m, x.m2>>
         ELSE Probed(x.type, x.probes)
    [] x.e = "field" ->
         IF x.r # "ok" THEN <<"bad", "the type of a message field is refused", x.r>>
         ELSE IF x.m # ToMsg(x.type) THEN <<"bad", "a message field has the wrong type", x.m, ToMsg(x.type)>>
         ELSE Probed(x.type, x.probes)
    [] x.e = "msg" ->
         LET T == FromMsg(x.m) IN
         IF x.r \notin {"ok", "err"} THEN <<"bad", "reading a message raises", x.r>>
         ELSE IF x.r = "ok" /\ T = <<>> THEN <<"bad", "a message without a valid type is read as one", x.m>>
         ELSE IF x.r = "err" /\ T # <<>> THEN <<"bad", "a valid message is refused", x.m>>
         ELSE IF x.r = "err" THEN <<"ok">>
         ELSE IF x.m2 # ToMsg(T[1]) THEN <<"bad", "a type reads back differently", x.m, x.m2>>
         ELSE IF Deep(T[1]) THEN <<"ok">> ELSE Probed(T[1], x.probes)
    [] x.e = "value" ->
         IF x.r # "ok" THEN <<"bad", "a value cannot be read back", x.r, x.val>>
         ELSE IF ~(VEq(x.back, Conv(x.type, x.val)) /\ x.back.t = Conv(x.type, x.val).t) THEN <<"bad", "a value reads back differently", x.val, x.back>>
         ELSE <<"ok">>
    [] x.e = "text" ->
         IF x.r \notin {"ok", "err"} THEN <<"bad", "reading a value raises", x.r>>
         ELSE IF x.r = "ok" /\ ~x.json THEN <<"bad", "a text without a value is accepted">>
         ELSE IF x.r = "err" /\ ~x.same THEN <<"bad", "a refused text changes the slot">>
         ELSE <<"ok">>
    [] x.e = "compat" ->
         IF x.r \notin {"yes", "no"} THEN <<"bad", "raises", x.r>>
         ELSE IF x.r = "yes" /\ ~Fits(x.a, x.b) THEN <<"bad", "compatible though the source admits more than the target">>
         ELSE IF x.r = "no" /\ x.same THEN <<"bad", "a type is not compatible with itself">>
         ELSE IF x.r = "no" /\ Fits(x.a, x.b) /\ x.must THEN <<"bad", "not compatible though the target admits everything">>
         ELSE <<"ok">>

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Verd(Traces[t])))
=============================================================================
