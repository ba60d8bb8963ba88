---------------------------- MODULE ConcurrentMC ----------------------------
(***************************************************************************)
(* The protocol of commands, edits and the tick loop, step by step: two    *)
(* callers with any commands, a tree in any state, every interleaving and  *)
(* everything a tick can answer.  The observations it makes are judged by  *)
(* BTConcurrent.  Weak takes one part of the protocol away; then TLC has   *)
(* to find a broken rule.                                                  *)
(***************************************************************************)
EXTENDS BTConcurrent, TLC

CONSTANT Weak        \* "", "control" (no control lock), "edit" (commands do not take the edit lock), "stop" (a stop overwrites the state),
                     \* "idle" (idle before it is unticked), "raise" (errors end the tick thread)
CONSTANT Cmds        \* the commands of the callers
Callers == {1, 2}

VARIABLES st, ctl, edit, loop, cmd, pc, ok, mon, rule, turns
vars == <<st, ctl, edit, loop, cmd, pc, ok, mon, rule, turns>>
\* loop[t]: tick thread t (10, 11): [pc, mode]
Ticks == {10, 11, 12}

Obs(es) ==          \* several events at once
  LET RECURSIVE go(_, _, _)
      go(m, r, k) == IF k > Len(es) THEN <<m, r>>
                     ELSE go(After(m, es[k]), IF r # "" THEN r ELSE Accept(m, es[k]), k + 1)
      g == go(mon, rule, 1)
  IN mon' = g[1] /\ rule' = g[2]
Silent == UNCHANGED <<mon, rule>>

St(s) == [e |-> "state", s |-> s]
Alive == {t \in Ticks : loop[t].pc \notin {"none", "gone"}}
Current == IF \E t \in Ticks : loop[t].pc # "none" THEN CHOOSE t \in Ticks : loop[t].pc # "none" /\ \A u \in Ticks : loop[u].pc # "none" => u <= t ELSE 0
CurrentAlive == Current # 0 /\ Current \in Alive
Fresh == CHOOSE t \in Ticks : loop[t].pc = "none" /\ \A u \in Ticks : loop[u].pc = "none" => t <= u

Init ==
  /\ cmd \in [Callers -> Cmds]
  /\ \E s \in {"EDITABLE", "IDLE", "WAITING_FOR_TICK", "ERROR", "TICKING"} : \E mode \in {"always", "until"} :
       /\ st = s
       /\ mon = New(s)
       /\ loop = [t \in Ticks |-> IF s = "TICKING" /\ t = 10 THEN [pc |-> "sleep", mode |-> mode] ELSE [pc |-> "none", mode |-> "always"]]
  /\ ctl = 0 /\ edit = 0
  /\ pc = [c \in Callers |-> "start"]
  /\ ok = [c \in Callers |-> FALSE]
  /\ rule = "" /\ turns = 0

Stopping(c) == cmd[c] \in {"stop", "shutdown"}
Go(c, l) == pc' = [pc EXCEPT ![c] = l]
Say(c, b) == ok' = [ok EXCEPT ![c] = b]
Rest == <<cmd, turns>>

Call(c) == /\ pc[c] = "start"
           /\ Go(c, IF cmd[c] = "edit" THEN "glance" ELSE "control")
           /\ Obs(<<[e |-> "call", t |-> c, c |-> cmd[c]]>>) /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
Ret(c) == /\ pc[c] = "ret"
          /\ Go(c, "done") /\ Obs(<<[e |-> "ret", t |-> c, c |-> cmd[c], ok |-> ok[c]]>>) /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
Control(c) ==
  /\ pc[c] = "control"
  /\ \/ (ctl = 0 \/ Weak = "control") /\ ctl' = c /\ Go(c, "lock") /\ UNCHANGED ok
     \/ Weak # "control" /\ ctl # 0 /\ ~Stopping(c) /\ Go(c, "ret") /\ Say(c, FALSE) /\ UNCHANGED ctl
  /\ Silent /\ UNCHANGED <<st, edit, loop, Rest>>
Lock(c) == /\ pc[c] = "lock" /\ (edit = 0 \/ Weak \in {"control", "edit"})
           /\ edit' = (IF Weak \in {"control", "edit"} THEN edit ELSE c)
           /\ Go(c, "join") /\ Silent /\ UNCHANGED <<st, ctl, loop, ok, Rest>>
\* a tick thread that is about to end
Join(c) == /\ pc[c] = "join" /\ (st \in Executing \/ ~CurrentAlive)
           /\ Go(c, "run") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
Free(c) == /\ pc[c] = "free"
           /\ Go(c, "ret") /\ ctl' = (IF ctl = c THEN 0 ELSE ctl) /\ edit' = (IF edit = c THEN 0 ELSE edit)
           /\ Silent /\ UNCHANGED <<st, loop, ok, Rest>>
Refuse(c) == Say(c, FALSE) /\ Go(c, "free") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, Rest>>

Spawn(mode) == loop' = [loop EXCEPT ![Fresh] = [pc |-> "top", mode |-> mode]]
Run(c) ==
  /\ pc[c] = "run"
  /\ CASE st = "ERROR" /\ cmd[c] # "shutdown" -> Refuse(c)
       [] cmd[c] \in {"once", "always", "until"} ->
            IF CurrentAlive \/ \A t \in Ticks : loop[t].pc # "none" THEN Refuse(c)
            ELSE /\ st' = "TICKING" /\ Obs(<<St("TICKING")>>) /\ Go(c, "spawn") /\ UNCHANGED <<ctl, edit, loop, ok, Rest>>
       [] cmd[c] = "reset" ->
            IF CurrentAlive THEN Refuse(c)
            ELSE Obs(<<[e |-> "begin", t |-> c, k |-> "reset"]>>) /\ Go(c, "reset") /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
       [] OTHER ->
            CASE st = "TICKING" -> Go(c, "ask") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
              [] st = "WAITING_FOR_TICK" -> Obs(<<[e |-> "begin", t |-> c, k |-> "untick"]>>) /\ Go(c, "untick") /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
              [] cmd[c] = "stop" -> Refuse(c)
              [] OTHER -> Obs(<<[e |-> "begin", t |-> c, k |-> "shutdown"]>>) /\ Go(c, "down") /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
SpawnIt(c) == /\ pc[c] = "spawn" /\ (\E t \in Ticks : loop[t].pc = "none") /\ Spawn(cmd[c])
              /\ Say(c, TRUE) /\ Go(c, IF cmd[c] = "once" THEN "await" ELSE "free")
              /\ Silent /\ UNCHANGED <<st, ctl, edit, Rest>>
Await(c) == /\ pc[c] = "await" /\ ~CurrentAlive
            /\ Say(c, st = "WAITING_FOR_TICK") /\ Go(c, "free") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, Rest>>
ResetIt(c) == /\ pc[c] = "reset" /\ st' = "IDLE" /\ Obs(<<[e |-> "end", t |-> c, k |-> "reset", r |-> "IDLE"], St("IDLE")>>)
              /\ Say(c, TRUE) /\ Go(c, "free") /\ UNCHANGED <<ctl, edit, loop, Rest>>
\* the tick loop may have ended since the state was read
Ask(c) == /\ pc[c] = "ask"
          /\ LET s == IF st = "TICKING" \/ Weak = "stop" THEN "STOP_REQUESTED" ELSE st
             IN st' = s /\ IF s # st THEN Obs(<<St(s)>>) ELSE Silent
          /\ Go(c, "stopped") /\ UNCHANGED <<ctl, edit, loop, ok, Rest>>
Stopped(c) == /\ pc[c] = "stopped" /\ ~CurrentAlive
              /\ IF st # "IDLE" THEN Say(c, FALSE) /\ Go(c, "free") /\ Silent
                 ELSE IF cmd[c] = "stop" THEN Say(c, TRUE) /\ Go(c, "free") /\ Silent
                 ELSE UNCHANGED ok /\ Go(c, "down") /\ Obs(<<[e |-> "begin", t |-> c, k |-> "shutdown"]>>)
              /\ UNCHANGED <<st, ctl, edit, loop, Rest>>
Untick(c) == /\ pc[c] = "untick" /\ st' = "IDLE"
             /\ IF cmd[c] = "stop" THEN Say(c, TRUE) /\ Go(c, "free") /\ Obs(<<[e |-> "end", t |-> c, k |-> "untick", r |-> "IDLE"], St("IDLE")>>)
                ELSE UNCHANGED ok /\ Go(c, "down") /\ Obs(<<[e |-> "end", t |-> c, k |-> "untick", r |-> "IDLE"], St("IDLE"), [e |-> "begin", t |-> c, k |-> "shutdown"]>>)
             /\ UNCHANGED <<ctl, edit, loop, Rest>>
Down(c) == /\ pc[c] = "down" /\ st' = "EDITABLE" /\ Say(c, TRUE) /\ Go(c, "free")
           /\ Obs(<<[e |-> "end", t |-> c, k |-> "shutdown", r |-> "SHUTDOWN"], St("EDITABLE")>>)
           /\ UNCHANGED <<ctl, edit, loop, Rest>>

\* edits
Glance(c) == /\ pc[c] = "glance" /\ Go(c, IF st = "EDITABLE" THEN "elock" ELSE "ret") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
ELock(c) == /\ pc[c] = "elock" /\ edit = 0 /\ edit' = c /\ Go(c, "echeck") /\ Silent /\ UNCHANGED <<st, ctl, loop, ok, Rest>>
ECheck(c) == /\ pc[c] = "echeck" /\ Go(c, IF st = "EDITABLE" THEN "act1" ELSE "free") /\ Silent /\ UNCHANGED <<st, ctl, edit, loop, ok, Rest>>
EAct(c) == /\ pc[c] \in {"act1", "act2"} /\ Obs(<<[e |-> "act", t |-> c]>>)
           /\ Go(c, IF pc[c] = "act1" THEN "act2" ELSE "free") /\ Say(c, TRUE) /\ UNCHANGED <<st, ctl, edit, loop, Rest>>

\* tick thread
L(t, l) == loop' = [loop EXCEPT ![t].pc = l]
Keep == UNCHANGED <<ctl, edit, cmd, pc, ok>>
Top(t) == /\ loop[t].pc = "top" /\ Keep /\ UNCHANGED <<st, turns>>
          /\ IF st = "STOP_REQUESTED" THEN L(t, "leave") /\ Silent
             ELSE L(t, "tick") /\ Obs(<<[e |-> "begin", t |-> t, k |-> "tick"]>>)
Tick(t) == /\ loop[t].pc = "tick" /\ Keep /\ UNCHANGED <<st, turns>>
           /\ \E r \in {"RUNNING", "SUCCEEDED", "ERR"} :
                /\ Obs(<<[e |-> "end", t |-> t, k |-> "tick", r |-> r]>>)
                /\ L(t, IF r = "ERR" THEN IF Weak = "raise" THEN "end" ELSE "fail" ELSE IF loop[t].mode = "once" THEN "wait"
                        ELSE IF loop[t].mode = "until" /\ r = "SUCCEEDED" THEN "leave" ELSE "sleep")
Sleep(t) == loop[t].pc = "sleep" /\ L(t, "top") /\ Silent /\ Keep /\ UNCHANGED <<st, turns>>
Fail(t) == loop[t].pc = "fail" /\ st' = "ERROR" /\ Obs(<<St("ERROR")>>) /\ L(t, "end") /\ Keep /\ UNCHANGED turns
Wait(t) == loop[t].pc = "wait" /\ st' = "WAITING_FOR_TICK" /\ Obs(<<St("WAITING_FOR_TICK")>>) /\ L(t, "end") /\ Keep /\ UNCHANGED turns
LeaveIt(t) == /\ loop[t].pc = "leave" /\ Keep /\ UNCHANGED turns
              /\ IF Weak = "idle" THEN st' = "IDLE" /\ Obs(<<St("IDLE"), [e |-> "begin", t |-> t, k |-> "untick"]>>)
                 ELSE UNCHANGED st /\ Obs(<<[e |-> "begin", t |-> t, k |-> "untick"]>>)
              /\ L(t, "unticking")
Unticking(t) == /\ loop[t].pc = "unticking" /\ Keep /\ UNCHANGED turns
                /\ \E r \in {"IDLE", "ERR"} :
                     IF r = "ERR" THEN Obs(<<[e |-> "end", t |-> t, k |-> "untick", r |-> r]>>) /\ L(t, "fail") /\ UNCHANGED st
                     ELSE st' = "IDLE" /\ Obs(<<[e |-> "end", t |-> t, k |-> "untick", r |-> r], St("IDLE")>>) /\ L(t, "end")
End(t) == loop[t].pc = "end" /\ L(t, "gone") /\ Obs(<<[e |-> "exit", t |-> t]>>) /\ Keep /\ UNCHANGED <<st, turns>>

CStep(c) == \/ Call(c) \/ Ret(c) \/ Control(c) \/ Lock(c) \/ Join(c) \/ Free(c) \/ Run(c) \/ SpawnIt(c) \/ Await(c) \/ ResetIt(c) \/ Ask(c)
            \/ Stopped(c) \/ Untick(c) \/ Down(c) \/ Glance(c) \/ ELock(c) \/ ECheck(c) \/ EAct(c)
TStep(t) == Top(t) \/ Tick(t) \/ Sleep(t) \/ Fail(t) \/ Wait(t) \/ LeaveIt(t) \/ Unticking(t) \/ End(t)
Next == (\E c \in Callers : CStep(c)) \/ (\E t \in Ticks : TStep(t))
Spec == Init /\ [][Next]_vars /\ \A c \in Callers : WF_vars(CStep(c)) /\ \A t \in Ticks : WF_vars(TStep(t))

Rules == rule = ""
AtRest == (\A c \in Callers : pc[c] = "done") /\ \A t \in Ticks : loop[t].pc \in {"none", "gone", "sleep"}
Ends == AtRest => Finally(mon, [asleep |-> Cardinality({t \in Ticks : loop[t].pc = "sleep"}), left |-> "EDITABLE"]) = ""
Answered == \A c \in Callers : <>(pc[c] = "done")
=============================================================================
