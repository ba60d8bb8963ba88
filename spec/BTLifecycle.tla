---------------------------- MODULE BTLifecycle ----------------------------
(***************************************************************************)
(* The protocol every node call obeys, whatever the node's own code does.  *)
(* A node call is a frame: the call, then (perhaps) the node's code, which *)
(* may call other nodes, then the return.  The events are                  *)
(*   call  node i is asked for k; st is its state, full whether all its    *)
(*         inputs have values                                              *)
(*   enter node i's own code for k starts                                  *)
(*   code  it answers r (a state, or ERR)                                  *)
(*   ret   the call replies r and the node's state is st                   *)
(* Accept(m, e) is "" if event e is allowed in m, else the rule it breaks. *)
(* The same operators drive the exhaustive model (LifecycleMC) and the     *)
(* validation of recorded executions (LifecycleTrace).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Dead == {"UNINITIALIZED", "SHUTDOWN", "BROKEN"}
AnyState == {"UNINITIALIZED", "IDLE", "RUNNING", "SUCCEEDED", "FAILED", "ASSIGNED",
             "UNASSIGNED", "PAUSED", "BROKEN", "SHUTDOWN"}
Calls == {"setup", "tick", "untick", "reset", "shutdown"}

MayRun(k, st) == CASE k = "setup" -> st \in {"UNINITIALIZED", "SHUTDOWN"}
                   [] k = "shutdown" -> st # "SHUTDOWN"
                   [] OTHER -> st \notin Dead

Results(k) == CASE k \in {"setup", "reset"} -> {"IDLE"}
                [] k = "tick" -> {"RUNNING", "SUCCEEDED", "FAILED", "ASSIGNED", "UNASSIGNED"}
                [] k = "untick" -> {"IDLE", "PAUSED"}
                [] k = "shutdown" -> {"SHUTDOWN"}

\* monitor state: st per node, stack of open frames
New(st) == [st |-> st, stack |-> <<>>]
Top(m) == m.stack[Len(m.stack)]
Frame(e) == [i |-> e.i, k |-> e.k, phase |-> "called", r |-> "", full |-> e.full, kidErr |-> FALSE]

Accept(m, e) ==
  CASE e.e = "call" ->
         IF e.st # m.st[e.i] THEN "state changed outside a call" ELSE ""
    [] Len(m.stack) = 0 -> "event outside a call"
    [] Top(m).i # e.i \/ Top(m).k # e.k -> "event of another call than the innermost"
    [] e.e = "enter" ->
         IF Top(m).phase # "called" THEN "node code runs twice in one call"
         ELSE IF ~MayRun(e.k, m.st[e.i]) THEN "node code runs in a state that forbids it"
         ELSE IF e.k = "tick" /\ ~Top(m).full THEN "node code ticks with an input without value"
         ELSE ""
    [] e.e = "code" -> IF Top(m).phase # "in" THEN "answer without code" ELSE ""
    [] e.e = "ret" ->
         LET f == Top(m) IN
         CASE f.phase = "called" /\ MayRun(f.k, m.st[f.i]) /\ ~(f.k = "tick" /\ ~f.full) -> "permitted call does not run node code"
           [] f.phase = "called" /\ f.k = "shutdown" ->
                IF e.st # "SHUTDOWN" THEN "shut down node leaves that state by shutdown"
                ELSE IF e.r = "SHUTDOWN" \/ (e.r = "ERR" /\ f.kidErr) THEN "" ELSE "wrong reply of shutdown"
           [] f.phase = "called" /\ ~MayRun(f.k, m.st[f.i]) ->
                IF e.r # "ERR" THEN "forbidden call does not report an error"
                ELSE IF e.st # m.st[f.i] THEN "forbidden call changes the state" ELSE ""
           [] f.phase = "called" ->
                IF e.r # "ERR" THEN "input without value is not an error"
                ELSE IF e.st # "BROKEN" THEN "input without value does not break the node" ELSE ""
           [] f.phase = "in" -> "call returns while node code runs"
           [] f.r = "ERR" ->
                IF e.r # "ERR" THEN "error in node code is not returned"
                ELSE IF e.st # "BROKEN" THEN "error in node code does not break the node" ELSE ""
           [] f.r \notin Results(f.k) ->
                IF e.r # "ERR" THEN "result not permitted for the call is not an error" ELSE ""
           [] OTHER ->
                IF e.st # f.r THEN "state is not the result of the node code"
                ELSE IF e.r = f.r \/ (f.k = "shutdown" /\ f.kidErr /\ e.r = "ERR") THEN "" ELSE "reply is not the result of the node code"

SetTop(m, f) == [m EXCEPT !.stack[Len(m.stack)] = f]
Pop(m) == SubSeq(m.stack, 1, Len(m.stack) - 1)

After(m, e) ==
  CASE e.e = "call" -> [m EXCEPT !.stack = Append(@, Frame(e))]
    [] e.e = "enter" -> SetTop(m, [Top(m) EXCEPT !.phase = "in"])
    [] e.e = "code" -> SetTop(m, [Top(m) EXCEPT !.phase = "done", !.r = e.r])
    [] e.e = "ret" ->
         LET p == Pop(m)
             n == Len(p)
         IN [m EXCEPT !.st[e.i] = e.st,
                      !.stack = IF n > 0 /\ e.k = "shutdown" /\ e.r = "ERR"
                                  THEN [p EXCEPT ![n].kidErr = TRUE] ELSE p]
=============================================================================
