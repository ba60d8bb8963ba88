---------------------------- MODULE BTConcurrent ----------------------------
(***************************************************************************)
(* What may be observed when commands, edits and the tick loop run in      *)
(* several threads.  Events (t: thread; callers are 1, 2, ..; tick threads *)
(* have numbers from 10):                                                  *)
(*   call  caller t issues command or edit c                               *)
(*   ret   its answer ok; s is the tree state                              *)
(*   state the tree state has become s                                     *)
(*   begin thread t asks the root for k          end   the root answered r *)
(*   act   caller t changes the tree (in an edit)                          *)
(*   crash an exception is the answer                                      *)
(*   exit  tick thread t is at its end                                     *)
(* Accept(m, e) is "" or the rule that is broken.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Loops(t) == t >= 10
Starts == {"once", "always", "until", "reset"}
Executing == {"TICKING", "STOP_REQUESTED"}
Wrong == {"ERR", "RAISE"}

\* st: tree state; open: operations in progress [t, k]; pend: commands in progress [t, c, alone, ticked]; over: tick threads that may not
\* ask the root for anything any more; last: last tick thread that did; calm: the tree is neither executing nor about to;
\* bad: tick threads whose last operation went wrong and have not reported it; ticks: ticks finished; paid: ticks answered for
New(s) == [st |-> s, open |-> {}, pend |-> {}, over |-> {}, last |-> 0, calm |-> "", bad |-> {}, spare |-> 0]

Pending(m, t) == CHOOSE p \in m.pend : p.t = t
\* a command that is alone in its interval, or only with commands that start nothing
Quiet(p) == p.alone

Accept(m, e) ==
  CASE e.e = "begin" ->
         IF \E o \in m.open : o.t # e.t THEN "two threads execute the tree at once"
         ELSE IF Loops(e.t) /\ e.t \in m.over THEN "two tick loops"
         ELSE IF Loops(e.t) /\ m.st \notin Executing THEN "the tree is executed in the state " \o m.st
         ELSE IF Loops(e.t) /\ m.calm # "" THEN "the tree is executed after " \o m.calm
         ELSE ""
    [] e.e = "state" ->
         IF (\E o \in m.open : Loops(o.t)) /\ e.s \notin Executing THEN "tree state is " \o e.s \o " while the tree is being ticked"
         ELSE IF m.calm # "" /\ e.s \in Executing THEN "tree state is " \o e.s \o " after " \o m.calm
         ELSE IF m.calm = "shutdown" /\ e.s # "EDITABLE" THEN "tree state is " \o e.s \o " after shutdown"
         ELSE ""
    [] e.e = "act" ->
         IF m.st # "EDITABLE" THEN "the tree is edited in the state " \o m.st
         ELSE IF \E o \in m.open : o.t # e.t THEN "the tree is edited while it executes" ELSE ""
    [] e.e = "crash" -> "a command ends in an exception"
    [] e.e = "exit" -> IF e.t \in m.bad THEN "an error in a tick is not followed by the state ERROR" ELSE ""
    [] e.e = "ret" ->
         LET p == Pending(m, e.t) IN
         IF ~e.ok \/ ~Quiet(p) THEN IF e.ok /\ e.c = "once" /\ m.spare = 0 THEN "no tick was made" ELSE ""
         ELSE IF e.c \in {"shutdown", "check"} /\ m.st # "EDITABLE" THEN "shut down, but the state is " \o m.st
         ELSE IF e.c = "stop" /\ m.st # "IDLE" THEN "stopped, but the state is " \o m.st
         ELSE IF e.c = "once" /\ m.spare = 0 THEN "no tick was made"
         ELSE IF e.c \in {"stop", "shutdown", "check"} /\ \E o \in m.open : Loops(o.t) THEN "stopped, but the tree is executed"
         ELSE ""
    [] OTHER -> ""

\* rules at the end: every caller has its answer, tick threads sleep between ticks (asleep) or are gone
Finally(m, e) ==
  IF m.pend # {} THEN "a command is not answered"
  ELSE IF m.open # {} THEN "an operation does not end"
  ELSE IF e.asleep > 1 THEN "two tick loops"
  ELSE IF m.st = "STOP_REQUESTED" THEN "the tree stays in STOP_REQUESTED"
  ELSE IF m.st = "TICKING" /\ e.asleep = 0 THEN "the tree stays in TICKING without a tick loop"
  ELSE IF m.st # "TICKING" /\ e.asleep # 0 THEN "a tick loop goes on in the state " \o m.st
  ELSE IF e.left # "EDITABLE" THEN "shutting down in the end leaves the state " \o e.left
  ELSE ""

\* spare: ticks that no successful "once" has been answered for
After(m, e) ==
  CASE e.e = "call" ->
         LET clash(p) == (e.c \in Starts /\ p.c \in {"stop", "shutdown", "check"}) \/ (p.c \in Starts /\ e.c \in {"stop", "shutdown", "check"})
                           \/ (e.c \in {"shutdown", "check"} /\ p.c = "stop") \/ (p.c \in {"shutdown", "check"} /\ e.c = "stop")
         IN [m EXCEPT !.pend = {[p EXCEPT !.alone = @ /\ ~clash(p)] : p \in m.pend} \cup {[t |-> e.t, c |-> e.c, alone |-> \A p \in m.pend : ~clash(p)]},
                      !.calm = IF e.c \in Starts \/ (e.c \in {"shutdown", "check", "edit"} /\ @ = "stop") THEN "" ELSE @]
    [] e.e = "ret" ->
         [m EXCEPT !.pend = {p \in @ : p.t # e.t},
                   !.spare = IF e.ok /\ e.c = "once" THEN @ - 1 ELSE @,
                   !.calm = IF e.ok /\ Quiet(Pending(m, e.t)) /\ ~(\E p \in m.pend : p.c \in Starts)
                              THEN IF e.c \in {"shutdown", "check"} THEN "shutdown" ELSE IF e.c = "stop" THEN "stop" ELSE @
                              ELSE @]
    [] e.e = "state" -> [m EXCEPT !.st = e.s, !.bad = IF e.s = "ERROR" THEN {} ELSE @]
    [] e.e = "begin" -> [m EXCEPT !.open = @ \cup {[t |-> e.t, k |-> e.k]},
                                  !.over = IF Loops(e.t) /\ m.last # e.t /\ m.last # 0 THEN @ \cup {m.last} ELSE @,
                                  !.last = IF Loops(e.t) THEN e.t ELSE @]
    [] e.e = "end" -> [m EXCEPT !.open = {o \in @ : o.t # e.t \/ o.k # e.k},
                                !.bad = IF Loops(e.t) THEN IF e.r \in Wrong THEN @ \cup {e.t} ELSE @ \ {e.t} ELSE @,
                                !.spare = IF e.k = "tick" /\ @ < 5 THEN @ + 1 ELSE @]
    [] OTHER -> m
=============================================================================
