------------------------------ MODULE BTTopic -------------------------------
(* Nodes that subscribe to a topic ("sub"), remember its latest message ("mem") or publish to one ("pub"), as seen from outside.
   conf: which combination of topic name and quality of service the inputs hold. A message may arrive at any time, also while a
   subscription is being made (e.m, in time for this tick), while it is being dropped (e.g) or after it was dropped (event "late"). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Off(st, kind) == [kind |-> kind, st |-> st, ph |-> "off", conf |-> 0, upd |-> FALSE, val |-> 0, vupd |-> FALSE, cl |-> 0, n |-> 0,
                  msg |-> <<>>, age |-> 0, out |-> 0]

R(s, r, calls) == [s |-> s, r |-> r, calls |-> calls, free |-> FALSE]
Live(s) == IF s.cl = 0 THEN {} ELSE {s.cl}
Drop(s) == [s EXCEPT !.cl = 0, !.msg = <<>>, !.age = 0]
Make(s) == [c |-> "make", i |-> s.n + 1, conf |-> s.conf, val |-> 0]

\* D: how long a message is remembered
Tick(D, s0, e) ==
  LET s1 == IF s0.upd THEN Drop(s0) ELSE s0
      new == s1.cl = 0
      s2 == IF new THEN [s1 EXCEPT !.n = @ + 1, !.cl = s1.n + 1,
                                   !.msg = IF s1.kind # "pub" /\ e.m # 0 THEN <<e.m>> ELSE @, !.age = IF e.m # 0 THEN 0 ELSE @] ELSE s1
      s == [s2 EXCEPT !.upd = FALSE, !.vupd = FALSE]
      c == IF new THEN <<Make(s1)>> ELSE <<>>
      Ret(x, r, calls) == R([x EXCEPT !.st = r], r, calls)
  IN CASE s.kind = "pub" -> [Ret(s, "SUCCEEDED", IF s0.vupd THEN Append(c, [c |-> "publish", i |-> s.cl, conf |-> 0, val |-> s.val]) ELSE c)
                               EXCEPT !.free = new /\ ~s0.vupd]        \* whether the old value is repeated is left open
       [] s.kind # "pub" /\ s.msg = <<>> -> Ret(s, "RUNNING", c)
       [] s.kind = "sub" /\ s.msg # <<>> -> Ret([s EXCEPT !.out = s.msg[1], !.msg = <<>>], "SUCCEEDED", c)
       [] s.kind = "mem" /\ s.msg # <<>> -> IF s.age > D THEN Ret(s, "FAILED", c) ELSE Ret([s EXCEPT !.out = s.msg[1]], "SUCCEEDED", c)

Step(D, s, e) ==
  LET on == s.ph = "on" IN
  CASE e.k = "setup" -> IF on THEN R(s, "err", <<>>)
                        ELSE R([Off("IDLE", s.kind) EXCEPT !.ph = "on", !.conf = e.conf, !.upd = TRUE, !.val = e.val, !.vupd = TRUE, !.n = s.n], "IDLE", <<>>)
    [] e.k = "tick" -> IF on THEN Tick(D, s, e) ELSE R(s, "err", <<>>)
    [] e.k = "untick" -> IF on THEN R([s EXCEPT !.st = "IDLE"], "IDLE", <<>>) ELSE R(s, "err", <<>>)
    [] e.k = "reset" -> IF on THEN R([Drop(s) EXCEPT !.st = "IDLE", !.upd = TRUE, !.vupd = TRUE, !.out = 0], "IDLE", <<>>) ELSE R(s, "err", <<>>)
    [] e.k = "shutdown" -> R([Drop(s) EXCEPT !.st = "SHUTDOWN", !.ph = "off"], "SHUTDOWN", <<>>)
    [] e.k = "conf" -> R([s EXCEPT !.conf = e.v, !.upd = @ \/ e.v # s.conf], "", <<>>)
    [] e.k = "val" -> R([s EXCEPT !.val = e.v, !.vupd = @ \/ e.v # s.val], "", <<>>)
    [] e.k = "clock" -> R([s EXCEPT !.age = IF s.kind # "mem" \/ s.msg = <<>> THEN @ ELSE IF @ + e.d > D THEN D + 1 ELSE @ + e.d], "", <<>>)
    [] e.k = "msg" -> R([s EXCEPT !.msg = <<e.v>>, !.age = 0], "", <<>>)
    [] e.k = "late" -> R(s, "", <<>>)
=============================================================================
