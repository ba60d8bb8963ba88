------------------------------ MODULE BTReport ------------------------------
(***************************************************************************)
(* What is reported about a tree: diagnostics of its nodes, log messages,  *)
(* and the status of the tree.  Events:                                    *)
(*   switch on       the collection of node diagnostics is switched        *)
(*   call n k        node n is asked for k                                 *)
(*   do n k          its own code for k begins    done n k     and ends    *)
(*   ret n k r       it answers r ("RAISE": an exception)                  *)
(*   msg n ph full   a message: phase ph of node n (0: no known node);     *)
(*                   full: name, class, module and path are that node's    *)
(*   crash           an exception comes out that no node has raised        *)
(*   min lvl         the minimum level of log messages is set              *)
(*   say g n lvl internal   node n of tree g (0: the tree itself) logs     *)
(*   said                   and goes on                                    *)
(*   out g n lvl full       a log message is published; full: text, names, *)
(*                          and the place in the code are right            *)
(* Accept(m, e) is "" or the rule that is broken.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"setup", "tick", "untick", "reset", "shutdown"}
Upper(k) == CASE k = "setup" -> "SETUP" [] k = "tick" -> "TICK" [] k = "untick" -> "UNTICK" [] k = "reset" -> "RESET" [] OTHER -> "SHUTDOWN"
Pre(k) == "PRE_" \o Upper(k)
Post(k) == "POST_" \o Upper(k)
Levels == {10, 20, 30, 40, 50}

Nobody == [g |-> 0, n |-> 0, lvl |-> 0, internal |-> FALSE, out |-> 0]
\* open: operations in progress; was: diagnostics were collected when it began; pre, post: messages seen; began, ended: its own code
New(on, min) == [on |-> on, open |-> <<>>, min |-> min, say |-> Nobody, saying |-> FALSE]
Top(m) == m.open[Len(m.open)]

Due(min, s) == s.lvl >= min /\ ~s.internal

Accept(m, e) ==
  CASE e.e = "call" ->
         IF m.open = <<>> THEN ""
         ELSE IF Top(m).was /\ ~Top(m).pre THEN "an operation is not announced"
         ELSE IF Top(m).post THEN "an operation is reported as finished too early"
         ELSE ""
    [] e.e \in {"do", "done"} ->
         IF Top(m).was /\ ~Top(m).pre THEN "an operation is not announced"
         ELSE IF Top(m).post THEN "an operation is reported as finished too early" ELSE ""
    [] e.e = "msg" ->
         IF ~m.on THEN "diagnostics while they are not collected"
         ELSE IF m.open = <<>> THEN "diagnostics of a node that does nothing"
         ELSE IF e.n # Top(m).n \/ e.ph \notin {Pre(Top(m).k), Post(Top(m).k)} THEN "diagnostics name another operation"
         ELSE IF ~e.full THEN "diagnostics are not those of the node"
         ELSE IF e.ph = Pre(Top(m).k)
           THEN IF Top(m).pre THEN "an operation is announced twice" ELSE IF Top(m).began \/ Top(m).post THEN "an operation is announced too late" ELSE ""
           ELSE IF Top(m).post THEN "an operation is reported as finished twice"
                ELSE IF Top(m).began /\ ~Top(m).ended THEN "an operation is reported as finished too early"
                ELSE ""
    [] e.e = "ret" ->
         IF Top(m).was /\ ~Top(m).pre THEN "an operation is not announced"
         ELSE IF Top(m).pre /\ m.on /\ ~Top(m).post /\ e.r # "RAISE" THEN "the end of an operation is not reported"
         ELSE ""
    [] e.e = "out" ->
         IF e.lvl < m.min THEN "a log message below the minimum level is published"
         ELSE IF ~e.full THEN "a log message has other contents"
         ELSE IF m.saying /\ (e.g # m.say.g \/ e.n # m.say.n \/ e.lvl # m.say.lvl) THEN "a log message has another sender or level"
         ELSE IF m.saying /\ m.say.internal THEN "an internal log message is published"
         ELSE IF m.saying /\ m.say.out > 0 THEN "a log message is published twice"
         ELSE ""
    [] e.e = "crash" -> "an operation ends in an exception that no node has raised"
    [] e.e = "said" -> IF Due(m.min, m.say) /\ m.say.out = 0 THEN "a log message is not published" ELSE ""
    [] OTHER -> ""

Pop(m) == [m EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
Mark(m, f) == [m EXCEPT !.open[Len(m.open)][f] = TRUE]
After(m, e) ==
  CASE e.e = "switch" -> [m EXCEPT !.on = e.on]
    [] e.e = "call" -> [m EXCEPT !.open = Append(@, [n |-> e.n, k |-> e.k, was |-> m.on, pre |-> FALSE, post |-> FALSE, began |-> FALSE, ended |-> FALSE])]
    [] e.e = "do" -> Mark(m, "began")
    [] e.e = "done" -> Mark(m, "ended")
    [] e.e = "msg" -> Mark(m, IF e.ph = Pre(Top(m).k) THEN "pre" ELSE "post")
    [] e.e = "ret" -> Pop(m)
    [] e.e = "min" -> [m EXCEPT !.min = e.lvl]
    [] e.e = "say" -> [m EXCEPT !.say = [g |-> e.g, n |-> e.n, lvl |-> e.lvl, internal |-> e.internal, out |-> 0], !.saying = TRUE]
    [] e.e = "out" -> IF m.saying THEN [m EXCEPT !.say.out = 1] ELSE m
    [] e.e = "said" -> [m EXCEPT !.saying = FALSE]
    [] OTHER -> m

\* what happens besides reporting
Plain(es) == SelectSeq(es, LAMBDA e : e.e \in {"call", "do", "done", "ret"})

-----------------------------------------------------------------------------
(* The status of a tree. name: the name that was given to it, without extension; root: the name of its root or "" *)
StatusLevel(state) == CASE state = "TICKING" -> 0 [] state = "ERROR" -> 2 [] OTHER -> 1
StatusName(name, root) == IF name # "" THEN name ELSE root
=============================================================================
