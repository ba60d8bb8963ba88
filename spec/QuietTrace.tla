----------------------------- MODULE QuietTrace -----------------------------
(***************************************************************************)
(* C06 on recorded executions: nothing keeps running.  A trace is a tree   *)
(* (type, kids) and a list of root operations; an operation is a list of   *)
(* events (see BTLifecycle) whose returns carry the states of all nodes    *)
(* (all), plus the states before it (pre).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Terminal == {"SUCCEEDED", "FAILED"}
Set(q) == {q[j] : j \in 1..Len(q)}
RECURSIVE Desc(_, _)
Desc(tr, i) == {i} \cup UNION {Desc(tr, c) : c \in Set(tr.kids[i])}

\* what one return shows
RetOk(tr, e) ==
  CASE e.e # "ret" -> ""
    [] e.k = "untick" /\ e.r # "ERR" /\ \E d \in Desc(tr, e.i) : e.all[d] = "RUNNING" -> "a node is still running after its subtree was unticked"
    [] e.k = "tick" /\ e.r \in Terminal /\ tr.type[e.i] # "IGNR"
         /\ \E c \in Set(tr.kids[e.i]) : e.all[c] = "RUNNING" -> "a child is still running after its parent returned a result"
    [] OTHER -> ""

\* calls made by node code reach only proper descendants; stack of open calls
RECURSIVE Nest(_, _, _, _)
Nest(tr, ev, j, stack) ==
  IF j > Len(ev) THEN ""
  ELSE LET e == ev[j] IN
       IF e.e = "call" THEN
         IF Len(stack) > 0 /\ e.i \notin Desc(tr, stack[Len(stack)]) \ {stack[Len(stack)]} THEN "a call leaves the subtree it started in"
         ELSE Nest(tr, ev, j + 1, Append(stack, e.i))
       ELSE IF e.e = "ret" THEN
         IF RetOk(tr, e) # "" THEN RetOk(tr, e) ELSE Nest(tr, ev, j + 1, SubSeq(stack, 1, Len(stack) - 1))
       ELSE Nest(tr, ev, j + 1, stack)

Ran(ev, i, k) == {j \in 1..Len(ev) : ev[j].e = "enter" /\ ev[j].i = i /\ ev[j].k = k}
Answered(ev, i, k, r) == \E j \in 1..Len(ev) : ev[j].e = "code" /\ ev[j].i = i /\ ev[j].k = k /\ ev[j].r = r

OpOk(tr, o) ==
  LET last == o.ev[Len(o.ev)]
      D == Desc(tr, last.i)
  IN IF Nest(tr, o.ev, 1, <<>>) # "" THEN Nest(tr, o.ev, 1, <<>>)
     ELSE IF last.k = "tick" /\ \E i \in D : Cardinality(Ran(o.ev, i, "tick")) > 1 THEN "a node is ticked twice in one tick of the root"
     ELSE IF last.k = "shutdown" /\ \E i \in D : o.pre[i] # "SHUTDOWN" /\ Ran(o.ev, i, "shutdown") = {} THEN "a node was not given its shutdown"
     ELSE IF last.k = "shutdown" /\ \E i \in D : (o.pre[i] = "SHUTDOWN" \/ Answered(o.ev, i, "shutdown", "SHUTDOWN")) /\ last.all[i] # "SHUTDOWN"
            THEN "a node that shut down is not in the shutdown state"
     ELSE ""

RECURSIVE Check(_, _)
Check(tr, j) ==
  IF j > Len(tr.ops) THEN <<"ok">>
  ELSE IF OpOk(tr, tr.ops[j]) # "" THEN <<"bad", j, OpOk(tr, tr.ops[j])>>
  ELSE Check(tr, j + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Check(Traces[t], 1)))
=============================================================================
