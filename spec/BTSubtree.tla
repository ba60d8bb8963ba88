------------------------------ MODULE BTSubtree -----------------------------
(***************************************************************************)
(* Subtrees.  A tree as in BTData, with, for every node n,                 *)
(*   kind  "flow" and "leaf" (scripted), "in" and "out" (the marks of what *)
(*         crosses the border of the tree they are in), "sub" (a subtree   *)
(*         node, whose only child is the root of the tree it wraps)        *)
(*   owner the subtree node in whose tree n is, 0 for the outermost tree   *)
(*   key   the name of a mark as a slot of its owner                       *)
(* The state has, besides that of BTData, res: what was reported last.     *)
(* The tick of a subtree node, and of a mark, is one event, up to where a  *)
(* scripted node is entered.                                               *)
(***************************************************************************)
EXTENDS BTData, TLC

Sub(T, n) == T.kind[n] = "sub"
OffS(T) == Off(T) @@ [res |-> [n \in Ids(T) |-> "off"]]
Receive(slot, x) == IF x = slot.v \/ x = None THEN slot ELSE [v |-> x, u |-> TRUE]

\* what was given to subtree node b reaches the marks in its tree ...
Enter(T, s, b) ==
  [s EXCEPT !.inp = [m \in Ids(T) |-> IF T.owner[m] = b /\ T.kind[m] = "in" /\ s.inp[b][T.key[m]].u
                                      THEN [k \in T.ins[m] |-> Receive(@[m][k], s.inp[b][T.key[m]].v)] ELSE @[m]]]
\* ... and what mark m changed reaches the subtree node
Leave(T, s, m) ==
  IF T.kind[m] = "out" /\ T.owner[m] # 0 /\ s.out[m]["out"].u
  THEN [s EXCEPT !.out[T.owner[m]] = [k \in DOMAIN @ |-> IF k = T.key[m] THEN Receive(@[k], s.out[m]["out"].v) ELSE @[k]]]
  ELSE s

RECURSIVE Start(_, _, _), Finish(_, _, _)
\* the innermost tick ends with result r; a subtree node ends with its root
Finish(T, s, r) ==
  LET n == Top(s)
      e == IF r = "err" THEN EndErr(s) ELSE Leave(T, [End(T, s) EXCEPT !.res[n] = r], n)
  IN IF e.stack # <<>> /\ Sub(T, Top(e)) THEN Finish(T, e, r) ELSE e
Start(T, s, n) ==
  LET b == Begin(T, s, n)
  IN IF ~Enters(T, s, n) THEN (IF s.stack # <<>> /\ Sub(T, Top(s)) THEN Finish(T, b, "err") ELSE b)
     ELSE CASE Sub(T, n) -> IF T.kids[n] = <<>> THEN Finish(T, Enter(T, b, n), "err") ELSE Start(T, Enter(T, b, n), T.kids[n][1])
            [] T.kind[n] \in {"in", "out"} -> Finish(T, Write(b, "out", b.inp[n]["in"].v), "SUCCEEDED")
            [] OTHER -> b

Idle(T, s, n) == [s EXCEPT !.res = [m \in Ids(T) |-> IF m \in Asked(T, s, n) THEN "IDLE" ELSE @[m]]]
ApplyS(T, s, e) ==
  CASE e.k = "begin" -> Start(T, s, e.n)
    [] e.k = "end" -> Finish(T, s, e.r)
    [] e.k = "err" -> Finish(T, s, "err")
    [] e.k = "setup" -> [s EXCEPT !.st = Setup(T, s).st, !.inp = Setup(T, s).inp, !.out = Setup(T, s).out, !.res = [n \in Ids(T) |-> "IDLE"]]
    [] e.k = "shutdown" -> [Shutdown(T, s) EXCEPT !.res = [n \in Ids(T) |-> "SHUTDOWN"]]
    [] e.k \in {"reset", "untick"} -> Idle(T, Apply(T, s, e), e.n)
    [] OTHER -> Apply(T, s, e)

SeeS(T, s) == [n \in Ids(T) |-> [res |-> s.res[n]] @@ See(T, s)[n]]

(* The same tree without borders: subtree nodes pass ticks on, and data is wired right to the marks. *)
Mark(T, b, k) == CHOOSE m \in Ids(T) : T.owner[m] = b /\ T.kind[m] \in {"in", "out"} /\ T.key[m] = k
Inlined(T) ==
  [T EXCEPT !.ins = [n \in Ids(T) |-> IF Sub(T, n) THEN {} ELSE @[n]], !.outs = [n \in Ids(T) |-> IF Sub(T, n) THEN {} ELSE @[n]],
            !.owner = [n \in Ids(T) |-> 0],
            !.wires = {<<IF Sub(T, w[1]) THEN Mark(T, w[1], w[2]) ELSE w[1], IF Sub(T, w[1]) THEN "out" ELSE w[2],
                         IF Sub(T, w[3]) THEN Mark(T, w[3], w[4]) ELSE w[3], IF Sub(T, w[3]) THEN "in" ELSE w[4]>> : w \in T.wires}]
\* a state without what only subtree nodes have
Strip(T, s) == [s EXCEPT !.inp = [n \in Ids(T) |-> IF Sub(T, n) THEN [k \in {} |-> 0] ELSE @[n]], !.out = [n \in Ids(T) |-> IF Sub(T, n) THEN [k \in {} |-> 0] ELSE @[n]]]
=============================================================================
