------------------------------ MODULE ManagerMC -----------------------------
(* Every history of commands and of what the tree does, from an empty tree, a tree and two trees. Transitions are printed. *)
EXTENDS BTManager, TLC, Json

VARIABLE m
Plain == [setup |-> "IDLE", tick |-> "RUNNING", untick |-> "IDLE", reset |-> "IDLE", shutdown |-> "SHUTDOWN"]
Ticks == {"RUNNING", "SUCCEEDED", "FAILED", "ERR", "RAISE"}
Unticks == {"IDLE", "PAUSED", "ERR"}
Outcomes == {[Plain EXCEPT !.tick = t, !.untick = u, !.shutdown = s] : t \in Ticks, u \in Unticks, s \in {"SHUTDOWN", "ERR"}}
              \cup {[Plain EXCEPT !.tick = t, !.setup = s, !.reset = r] : t \in {"RUNNING", "SUCCEEDED"}, s \in {"IDLE", "ERR"}, r \in {"IDLE", "ERR"}}
\* outcomes are only told apart when they matter
Use(n, c, o) == [k \in {k \in DOMAIN o : \E j \in DOMAIN Step(n, c, o).ops : Step(n, c, o).ops[j] = k} |-> o[k]]
Pick(n, c) == {CHOOSE o \in Outcomes : Use(n, c, o) = w : w \in {Use(n, c, o) : o \in Outcomes}}

Edits == {"edit"}
Init == m \in {Init0("NONE"), Init0("UNINITIALIZED"), Init0("MANY")}
Next ==
  \/ \E c \in Commands : \E o \in Pick(m, c) : m' = Step(m, c, o).m
  \/ m.ts = "TICKING" /\ \E o \in Pick(m, "loop") : m' = Step(m, "loop", o).m
  \/ MayEdit(m) /\ m' \in {Init0("NONE"), Init0("UNINITIALIZED"), Init0("MANY")}
Spec == Init /\ [][Next]_m

Inv == StateOK(m) /\ \A c \in Commands : \A o \in Pick(m, c) : StepOK(m, c, o)
\* whatever happened, a tree that can be shut down is editable after the second attempt at the latest
Try(n) == Step(n, "shutdown", Plain).m
Jail == Try(Try(m)).ts = "EDITABLE"

Emit ==
  LET line(c, o) == LET r == Step(m, c, o) IN PrintT("@E " \o ToJson(<<m, c, o, r.ok, r.ops, r.m>>))
  IN /\ \A c \in Commands : \A o \in Pick(m, c) : line(c, o)
     /\ m.ts = "TICKING" => \A o \in Pick(m, "loop") : line("loop", o)
=============================================================================
