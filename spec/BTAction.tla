------------------------------ MODULE BTAction ------------------------------
(* An action node, its clients and the goals it sent, as seen from outside: calls of the node, replies of the server, changes of inputs.
   Step(T, s, e) is the state after event e, what the call returns ("" if e is no call of the node) and what is asked of the servers.

   Goals and clients are numbered. goals[i]: the client it was sent with, what it asks for, and its state as known to the node's side:
   sent, acc(epted), rej(ected), lost (no answer will come), ending (cancellation was asked for), end.
   A goal is up (given up) once the node forgot it before it was accepted; it is then cancelled as soon as it is accepted.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Off(st) == [st |-> st, ph |-> "off", name |-> 0, val |-> 0, upd |-> FALSE, pend |-> <<>>, cl |-> 0, cname |-> <<>>, goals |-> <<>>, cur |-> 0,
            res |-> "", can |-> "", fb |-> <<>>, el |-> 0, out |-> [res |-> 0, fb |-> 0]]

Up(s, i) == s.goals[i].up
\* clients that are still needed: the current one and those of goals that were given up and not answered yet
Live(s) == (IF s.cl = 0 THEN {} ELSE {s.cl}) \cup {s.goals[i].cl : i \in {j \in 1..Len(s.goals) : Up(s, j) /\ s.goals[j].st = "sent"}}

R(s, r, calls) == [s |-> s, r |-> r, calls |-> calls]
Ret(s, r, calls) == [s |-> [s EXCEPT !.st = r, !.upd = FALSE], r |-> r, calls |-> calls]
Cancel(i) == [c |-> "cancel", i |-> i, name |-> 0, val |-> 0]
Send(i, n, v) == [c |-> "send", i |-> i, name |-> n, val |-> v]
Asked(s, i) == [s EXCEPT !.goals[i].st = IF @ = "acc" THEN "ending" ELSE @]

\* the node forgets its goal; returns the state and the calls
Forget(s) ==
  LET running == s.ph \in {"run", "want"}
      waiting == s.ph = "accept"
      answered == waiting /\ s.goals[s.cur].st # "sent"
      calls == IF running \/ (answered /\ s.goals[s.cur].st = "acc") THEN <<Cancel(s.cur)>> ELSE <<>>
      s1 == IF calls # <<>> THEN Asked(s, s.cur) ELSE s
      s2 == IF waiting THEN [s1 EXCEPT !.goals[s.cur].up = TRUE] ELSE s1
  IN [s |-> [s2 EXCEPT !.ph = "idle", !.pend = <<>>, !.cur = 0, !.res = "", !.can = "", !.fb = <<>>, !.el = 0], calls |-> calls]

Tick(T, s0) ==
  LET u == s0.upd
      s1 == IF u \/ (s0.ph = "idle" /\ s0.pend = <<>>) THEN [s0 EXCEPT !.pend = <<s0.val>>] ELSE s0
      s2 == IF u /\ s0.ph = "run" THEN [s1 EXCEPT !.ph = "want"]
            ELSE IF u /\ s0.ph = "idle" THEN [s1 EXCEPT !.cl = 0] ELSE s1
      s == IF s2.cl = 0 THEN [s2 EXCEPT !.cl = Len(s2.cname) + 1, !.cname = Append(@, s2.name)] ELSE s2
      g == s.goals[s.cur].st
      Done(x) == [x EXCEPT !.ph = "done", !.cur = 0, !.res = "", !.can = "", !.el = 0]
      Stop(x) == Ret([Asked(x, x.cur) EXCEPT !.ph = "cancelling", !.can = ""], "RUNNING", <<Cancel(x.cur)>>)
      Next(x) == IF x.pend # <<>> THEN "RUNNING" ELSE "FAILED"
  IN CASE s.ph = "idle" ->
            LET i == Len(s.goals) + 1 IN
            Ret([s EXCEPT !.ph = "accept", !.cur = i, !.pend = <<>>, !.fb = <<>>,
                          !.goals = Append(@, [cl |-> s.cl, val |-> s.pend[1], st |-> "sent", up |-> FALSE])],
                "RUNNING", <<Send(i, s.cname[s.cl], s.pend[1])>>)
       [] s.ph = "accept" /\ g = "sent" -> Ret(s, "RUNNING", <<>>)
       [] s.ph = "accept" /\ g = "rej" -> Ret(Done(s), Next(s), <<>>)
       [] s.ph = "accept" /\ g = "lost" -> Ret(Done(s), "FAILED", <<>>)
       [] s.ph = "accept" /\ g \notin {"sent", "rej", "lost"} ->
            IF s.pend # <<>> THEN Stop(s) ELSE Ret([s EXCEPT !.ph = "run", !.el = 0], "RUNNING", <<>>)
       [] s.ph = "run" /\ s.res # "" ->
            Ret([Done(s) EXCEPT !.out.res = IF s.res = "succ" THEN s.goals[s.cur].val ELSE @],
                IF s.res = "succ" THEN "SUCCEEDED" ELSE "FAILED", <<>>)
       [] s.ph = "run" /\ s.res = "" ->
            IF s.el > T THEN Ret([s EXCEPT !.ph = "want"], "RUNNING", <<>>)
            ELSE Ret([s EXCEPT !.out.fb = IF s.fb = <<>> THEN @ ELSE s.fb[1], !.fb = <<>>], "RUNNING", <<>>)
       [] s.ph = "want" -> Stop(s)
       [] s.ph = "cancelling" -> IF s.can = "" THEN Ret(s, "RUNNING", <<>>)
                                 ELSE Ret(Done(s), IF s.can = "lost" THEN "FAILED" ELSE Next(s), <<>>)
       [] s.ph = "done" -> IF s.pend = <<>> THEN Ret(s, s.st, <<>>) ELSE Ret([s EXCEPT !.ph = "idle", !.cl = 0], "RUNNING", <<>>)

Step(T, s, e) ==
  LET on == s.ph # "off" IN
  CASE e.k = "setup" -> IF on THEN R(s, "err", <<>>)
                        ELSE R([Off("IDLE") EXCEPT !.ph = "idle", !.name = e.name, !.val = e.val, !.upd = TRUE, !.cname = s.cname, !.goals = s.goals], "IDLE", <<>>)
    [] e.k = "tick" -> IF on THEN Tick(T, s) ELSE R(s, "err", <<>>)
    [] e.k = "untick" -> IF on THEN LET f == Forget(s) IN R([f.s EXCEPT !.st = "IDLE"], "IDLE", f.calls) ELSE R(s, "err", <<>>)
    [] e.k = "reset" -> IF on THEN LET f == Forget(s)
                                   IN R([f.s EXCEPT !.st = "IDLE", !.upd = TRUE, !.cl = 0, !.out = [res |-> 0, fb |-> 0]], "IDLE", f.calls)
                        ELSE R(s, "err", <<>>)
    [] e.k = "shutdown" -> IF on THEN LET f == Forget(s) IN R([f.s EXCEPT !.st = "SHUTDOWN", !.ph = "off", !.cl = 0], "SHUTDOWN", f.calls)
                           ELSE R([s EXCEPT !.st = "SHUTDOWN"], "SHUTDOWN", <<>>)
    [] e.k = "name" -> R([s EXCEPT !.name = e.v, !.upd = @ \/ e.v # s.name], "", <<>>)
    [] e.k = "val" -> R([s EXCEPT !.val = e.v, !.upd = @ \/ e.v # s.val], "", <<>>)
    [] e.k = "clock" -> R([s EXCEPT !.el = IF s.ph # "run" THEN 0 ELSE IF @ + e.d > T THEN T + 1 ELSE @ + e.d], "", <<>>)
    [] e.k = "answer" -> LET g == s.goals[e.i]
                             late == Up(s, e.i) /\ e.v = "acc"
                         IN R([s EXCEPT !.goals[e.i].st = IF late THEN "ending" ELSE e.v], "", IF late THEN <<Cancel(e.i)>> ELSE <<>>)
    [] e.k = "feedback" -> R([s EXCEPT !.fb = <<e.v>>], "", <<>>)
    [] e.k = "result" -> R([s EXCEPT !.goals[e.i].st = "end", !.res = IF e.i = s.cur /\ s.ph = "run" THEN e.v ELSE @], "", <<>>)
    [] e.k = "cancelled" -> R([s EXCEPT !.can = e.v], "", <<>>)
=============================================================================
