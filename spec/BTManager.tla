----------------------------- MODULE BTManager ------------------------------
(***************************************************************************)
(* Execution commands on a tree, when they do not overlap.                 *)
(*   m.ts    tree state                                                    *)
(*   m.root  state of the root node; NONE: empty tree, MANY: several roots *)
(*   m.until the tick loop ends with the first result                      *)
(* The tree decides what its root answers: o maps each operation to the    *)
(* state it will answer, or ERR, or RAISE.                                 *)
(* Step(m, c, o) is the answer to command c, the operations the root is    *)
(* asked for (in order) and the state afterwards.  "loop" is one turn of   *)
(* the tick loop while the tree is ticking.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

TreeStates == {"EDITABLE", "IDLE", "TICKING", "WAITING_FOR_TICK", "STOP_REQUESTED", "ERROR"}
Commands == {"nothing", "once", "always", "until", "stop", "reset", "shutdown", "check", "unknown"}
NotSetUp == {"UNINITIALIZED", "SHUTDOWN"}
Dead == NotSetUp \cup {"BROKEN"}
Real(m) == m.root \notin {"NONE", "MANY"}

------------------------------------------------------------------------------
(* One operation of the root: [m, ok, ops] *)
Bad == {"ERR", "RAISE", "KIDERR"}        \* KIDERR: shut down, but a child reports an error
After(m, k, r) == IF r = "RAISE" THEN m ELSE [m EXCEPT !.root = IF r = "ERR" THEN "BROKEN" ELSE IF r = "KIDERR" THEN "SHUTDOWN" ELSE r]
Do(m, k, o) ==
  CASE k = "setup" /\ m.root \notin NotSetUp -> [m |-> m, ok |-> FALSE]
    [] k \in {"tick", "untick", "reset"} /\ m.root \in Dead -> [m |-> m, ok |-> FALSE]
    [] k = "shutdown" /\ m.root = "SHUTDOWN" -> [m |-> m, ok |-> o[k] # "KIDERR"]
    [] OTHER -> [m |-> After(m, k, o[k]), ok |-> o[k] \notin Bad]

R(m, ok, ops) == [m |-> m, ok |-> ok, ops |-> ops]
To(m, s) == [m EXCEPT !.ts = s]
No(m) == R(m, FALSE, <<>>)

------------------------------------------------------------------------------
(* The tick loop.  It ends in IDLE after unticking the tree, or in ERROR. *)
Leave(m, o, ops) ==
  LET u == Do(m, "untick", o) IN R(To(u.m, IF u.ok THEN "IDLE" ELSE "ERROR"), u.ok, Append(ops, "untick"))

Turn(m, o) ==
  LET s == IF m.root \in NotSetUp THEN Do(m, "setup", o) ELSE [m |-> m, ok |-> TRUE]
      a == IF m.root \in NotSetUp THEN <<"setup">> ELSE <<>>
      t == Do(s.m, "tick", o)
      b == Append(a, "tick")
  IN IF ~s.ok THEN R(To(s.m, "ERROR"), FALSE, a)
     ELSE IF ~t.ok THEN R(To(t.m, "ERROR"), FALSE, b)
     ELSE R(t.m, TRUE, b)

Loop(m, o) ==
  LET t == Turn(m, o) IN
  IF ~t.ok THEN t
  ELSE IF m.until /\ o.tick \in {"SUCCEEDED", "FAILED"} THEN Leave(t.m, o, t.ops)
  ELSE t

------------------------------------------------------------------------------
Ticking(m) == m.ts \in {"TICKING", "STOP_REQUESTED"}

Once(m, o) ==
  IF Ticking(m) \/ m.root = "MANY" THEN No(m)
  ELSE IF m.root = "NONE" THEN R(m, TRUE, <<>>)
  ELSE LET t == Turn(m, o) IN IF t.ok THEN R(To(t.m, "WAITING_FOR_TICK"), TRUE, t.ops) ELSE t

\* starting to tick answers before the first turn; after it the tree is where the first turn leaves it
Many(m, o, u) ==
  IF Ticking(m) \/ m.root = "MANY" THEN No(m)
  ELSE IF m.root = "NONE" THEN R(m, TRUE, <<>>)
  ELSE LET t == Loop([m EXCEPT !.ts = "TICKING", !.until = u], o) IN R(t.m, TRUE, t.ops)

Stop(m, o) ==
  CASE m.ts = "TICKING" -> Leave(m, o, <<>>)
    [] m.ts = "WAITING_FOR_TICK" ->
         LET u == Do(m, "untick", o) IN R(To(u.m, IF u.m.root \in {"IDLE", "PAUSED"} THEN "IDLE" ELSE "ERROR"),
                                          u.m.root \in {"IDLE", "PAUSED"}, <<"untick">>)
    [] OTHER -> No(m)

Shutdown(m, o) ==
  LET a == IF m.ts \in {"TICKING", "WAITING_FOR_TICK"} THEN Stop(m, o) ELSE R(m, TRUE, <<>>) IN
  IF ~a.ok THEN a
  ELSE IF ~Real(a.m) THEN R(To(a.m, "EDITABLE"), TRUE, a.ops)
  ELSE LET d == Do(a.m, "shutdown", o) IN R(IF d.ok THEN To(d.m, "EDITABLE") ELSE d.m, d.ok, Append(a.ops, "shutdown"))

Reset(m, o) ==
  IF Ticking(m) \/ m.root = "MANY" THEN No(m)
  ELSE IF m.root = "NONE" THEN R(To(m, "IDLE"), TRUE, <<>>)
  ELSE LET d == Do(m, "reset", o) IN R(IF d.ok THEN To(d.m, "IDLE") ELSE d.m, d.ok, <<"reset">>)

Step(m, c, o) ==
  CASE m.ts = "ERROR" /\ c \notin {"shutdown", "loop"} -> No(m)
    [] c = "nothing" -> R(m, TRUE, <<>>)
    [] c = "once" -> Once(m, o)
    [] c = "always" -> Many(m, o, FALSE)
    [] c = "until" -> Many(m, o, TRUE)
    [] c = "stop" -> Stop(m, o)
    [] c = "reset" -> Reset(m, o)
    [] c = "shutdown" -> Shutdown(m, o)
    \* checking a tree may or may not set it up first; it is shut down in the end
    [] c = "check" -> IF Ticking(m) \/ m.root = "MANY" THEN No(m) ELSE Shutdown(m, o)
    [] c = "loop" -> Loop(m, o)
    [] OTHER -> No(m)

------------------------------------------------------------------------------
Init0(root) == [ts |-> "EDITABLE", root |-> root, until |-> FALSE]
MayEdit(m) == m.ts = "EDITABLE"

\* properties of every reachable state
Running == {"RUNNING", "SUCCEEDED", "FAILED"}
StateOK(m) ==
  /\ m.ts \in TreeStates \ {"STOP_REQUESTED"}                       \* only while a stop is being processed
  /\ m.ts \in {"EDITABLE", "IDLE"} => m.root \notin Running         \* what is not executed is unticked
  /\ m.ts = "TICKING" => Real(m) /\ m.root \notin Dead

\* and of every command
StepOK(m, c, o) ==
  LET r == Step(m, c, o) IN
  /\ ~r.ok /\ r.ops = <<>> => r.m = m                                \* a refused command changes nothing
  /\ m.ts = "ERROR" /\ r.m.ts # "ERROR" => c = "shutdown"
  /\ r.ok => CASE c = "once" -> r.m.ts = "WAITING_FOR_TICK" \/ m.root = "NONE"
               [] c = "stop" -> r.m.ts = "IDLE"
               [] c = "reset" -> r.m.ts = "IDLE" /\ (Real(m) => r.m.root = "IDLE")
               [] c \in {"shutdown", "check"} -> r.m.ts = "EDITABLE" /\ (Real(m) => r.m.root = "SHUTDOWN")
               [] c = "nothing" -> r.m = m
               [] OTHER -> TRUE
  /\ (\E k \in DOMAIN r.ops : r.ops[k] = "tick" /\ o.tick \in Bad) => r.m.ts = "ERROR"
  /\ c = "stop" /\ m.ts = "TICKING" => r.m.ts \in {"IDLE", "ERROR"}
=============================================================================
