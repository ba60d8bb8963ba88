----------------------------- MODULE BTService ------------------------------
(* A node that calls a service ("call") or waits for one ("wait"), as seen from outside.
   reqs[i]: the i-th request: the client it was made with, what it asks, and whether it is still open (an answer may come). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Off(st, kind) == [kind |-> kind, st |-> st, ph |-> "off", name |-> 0, val |-> 0, upd |-> FALSE, cl |-> 0, cname |-> <<>>, reqs |-> <<>>,
                  cur |-> 0, ans |-> "", el |-> -1, out |-> 0, ready |-> {}]

R(s, r, calls) == [s |-> s, r |-> r, calls |-> calls]
Ret(s, r, calls) == R([s EXCEPT !.st = r, !.upd = FALSE], r, calls)
Live(s) == IF s.cl = 0 THEN {} ELSE {s.cl}

\* the current request is no longer of interest
Forget(s) == [s EXCEPT !.cur = 0, !.ans = "", !.el = -1]
Drop(s) == [Forget(s) EXCEPT !.cl = 0]
Connect(s) == IF s.cl # 0 THEN s ELSE [s EXCEPT !.cl = Len(s.cname) + 1, !.cname = Append(@, s.name)]

Call(T, s0) ==
  LET fresh == s0.upd \/ (s0.st = "IDLE" /\ s0.cur = 0)
      s == Connect(IF s0.upd THEN Drop(s0) ELSE s0)
      i == Len(s.reqs) + 1
  IN CASE fresh -> Ret([s EXCEPT !.cur = i, !.ans = "", !.el = 0, !.reqs = Append(@, [cl |-> s.cl, val |-> s.val])], "RUNNING",
                       <<[c |-> "call", i |-> i, name |-> s.cname[s.cl], val |-> s.val]>>)
       [] ~fresh /\ s.cur = 0 -> Ret(s, s.st, <<>>)
       [] ~fresh /\ s.cur # 0 /\ s.ans = "ok" -> Ret([Forget(s) EXCEPT !.out = s.reqs[s.cur].val], "SUCCEEDED", <<>>)
       [] ~fresh /\ s.cur # 0 /\ s.ans = "gone" -> Ret(Forget(s), "FAILED", <<>>)
       [] ~fresh /\ s.cur # 0 /\ s.ans = "none" -> R([s EXCEPT !.st = "BROKEN", !.ph = "broken"], "err", <<>>)
       [] ~fresh /\ s.cur # 0 /\ s.ans = "" -> IF s.el > T THEN Ret(Forget(s), "FAILED", <<>>) ELSE Ret(s, "RUNNING", <<>>)

Wait(T, s0) ==
  LET s == Connect(IF s0.upd THEN Drop(s0) ELSE s0)
      t == [s EXCEPT !.el = IF @ < 0 THEN 0 ELSE @]
  IN IF s.cname[s.cl] \in s.ready THEN Ret(s, "SUCCEEDED", <<>>)
     ELSE Ret(t, IF t.el > T THEN "FAILED" ELSE "RUNNING", <<>>)

Step(T, s, e) ==
  LET on == s.ph = "on" IN
  CASE e.k = "setup" -> IF s.ph # "off" THEN R(s, "err", <<>>)
                        ELSE R([Off("IDLE", s.kind) EXCEPT !.ph = "on", !.name = e.name, !.val = e.val, !.upd = TRUE, !.cname = s.cname,
                                                           !.reqs = s.reqs, !.ready = s.ready], "IDLE", <<>>)
    [] e.k = "tick" -> IF ~on THEN R(s, "err", <<>>) ELSE IF s.kind = "call" THEN Call(T, s) ELSE Wait(T, s)
    [] e.k = "untick" -> IF on THEN R([Forget(s) EXCEPT !.st = "IDLE"], "IDLE", <<>>) ELSE R(s, "err", <<>>)
    [] e.k = "reset" -> IF on THEN R([Drop(s) EXCEPT !.st = "IDLE", !.upd = TRUE, !.out = 0], "IDLE", <<>>) ELSE R(s, "err", <<>>)
    [] e.k = "shutdown" -> R([Drop(s) EXCEPT !.st = "SHUTDOWN", !.ph = "off"], "SHUTDOWN", <<>>)
    [] e.k = "name" -> R([s EXCEPT !.name = e.v, !.upd = @ \/ e.v # s.name], "", <<>>)
    [] e.k = "val" -> R([s EXCEPT !.val = e.v, !.upd = @ \/ e.v # s.val], "", <<>>)
    [] e.k = "clock" -> R([s EXCEPT !.el = IF @ < 0 THEN @ ELSE IF @ + e.d > T THEN T + 1 ELSE @ + e.d], "", <<>>)
    [] e.k = "ready" -> R([s EXCEPT !.ready = IF e.on = 1 THEN @ \cup {e.v} ELSE @ \ {e.v}], "", <<>>)
    [] e.k = "answer" -> R([s EXCEPT !.ans = IF e.i = s.cur THEN e.v ELSE @], "", <<>>)      \* too late for any other request
=============================================================================
