---------------------------- MODULE LifecycleMC ----------------------------
(* All behaviours of a few nodes obeying BTLifecycle, with arbitrary node   *)
(* code that calls arbitrary nodes, and the guarantees of C01 on them.      *)
EXTENDS BTLifecycle, TLC

CONSTANTS N, Depth
VARIABLES m, last
vars == <<m, last>>

\* one representative of every class of states the protocol distinguishes
States == {"UNINITIALIZED", "IDLE", "RUNNING", "PAUSED", "BROKEN", "SHUTDOWN"}
Replies == {"IDLE", "RUNNING", "PAUSED", "SHUTDOWN", "ERR"}
View == m
Events ==
  [e : {"call"}, i : N, k : Calls, full : BOOLEAN, st : States]
  \cup [e : {"enter"}, i : N, k : Calls]
  \cup [e : {"code"}, i : N, k : Calls, r : Replies]
  \cup [e : {"ret"}, i : N, k : Calls, r : Replies, st : States]

Init == m = New([i \in N |-> "UNINITIALIZED"]) /\ last = [e |-> "none"]
Next == \E e \in Events :
          /\ Len(m.stack) = Depth => e.e # "call"
          \* node code does not call the node it belongs to
          /\ e.e = "call" => \A f \in 1..Len(m.stack) : m.stack[f].i # e.i
          /\ Accept(m, e) = ""
          /\ m' = After(m, e)
          /\ last' = e
Spec == Init /\ [][Next]_vars

\* out of BROKEN only by shutdown; into UNINITIALIZED never; node code never in a dead state except setup/shutdown
Sticky == [][\A i \in N :
              /\ m.st[i] = "BROKEN" /\ m'.st[i] # "BROKEN" => last'.e = "ret" /\ last'.k = "shutdown"
              /\ m.st[i] = "SHUTDOWN" /\ m'.st[i] \notin {"SHUTDOWN", "BROKEN", "IDLE"} => last'.k = "setup" /\ last'.r = "ERR"
              /\ m'.st[i] # m.st[i] => last'.e = "ret" /\ last'.i = i]_vars
CodeRuns == \A f \in 1..Len(m.stack) :
              m.stack[f].phase = "in" =>
                 LET k == m.stack[f].k
                     st == m.st[m.stack[f].i]
                 IN /\ k \in {"tick", "untick", "reset"} => st \notin Dead
                    /\ k = "setup" => st \in {"UNINITIALIZED", "SHUTDOWN"}
\* a reply that is not an error is the state of the node and fits the call
Replied == [][last'.e = "ret" /\ last'.r # "ERR" => last'.r \in Results(last'.k) /\ m'.st[last'.i] = last'.r]_vars
=============================================================================
