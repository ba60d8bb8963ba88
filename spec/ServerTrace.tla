----------------------------- MODULE ServerTrace -----------------------------
(* Histories of requests to the real node; o: the answer, what was published meanwhile, and what a new subscriber sees. *)
EXTENDS BTServer, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Seen(v, s) == [v EXCEPT !.wires = ToSet(@), !.name = IF s.name = "-" THEN "-" ELSE @]
Judge(q, a, o) ==
  IF o.what # "" THEN o.what
  ELSE IF o.ok # a.ok THEN IF a.ok THEN "a request is refused" ELSE "a request is accepted that must be refused"
  ELSE IF a.ok /\ ToSet(o.names) # a.names THEN "another answer"
  ELSE IF o.said # a.said THEN "other log messages"
  ELSE IF o.diag # a.diag THEN "node diagnostics are published against the request"
  ELSE IF a.data # -2 /\ o.data # a.data THEN "data are published against the request"
  ELSE IF Seen(o.view, a.s) # View(a.s) THEN "a subscriber sees another tree"
  ELSE IF a.s.ts = "TICKING" /\ o.hz # a.s.hz THEN "the tree is ticked with another frequency"
  ELSE ""

RECURSIVE Walk(_, _, _)
Walk(s, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET a == Serve(s, es[i].q)
           d == Judge(es[i].q, a, es[i].o)
       IN IF d # "" THEN <<i, d, ToString(View(a.s))>> ELSE Walk(a.s, es, i + 1)

Start(x) ==
  LET s == Boot(x.how) IN
  IF x.o.what # "" THEN <<0, x.o.what, "">>
  ELSE IF Seen(x.o.view, s) # View(s) THEN <<0, "after the start a subscriber sees another tree", ToString(View(s))>>
  ELSE IF s.ts = "TICKING" /\ x.o.hz # s.hz THEN <<0, "the tree is ticked with another frequency", "">>
  ELSE Walk(s, x.steps, 1)

\* facts about the node that hold however it is used
Fact(f) ==
  CASE f.k = "admit" -> f.served \/ f.wanted # "control_tree_execution"       \* commands do not wait for other requests
    [] f.k = "channels" -> f.published = f.known
    [] f.k = "late" -> f.seen = f.latest
    [] OTHER -> FALSE

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, IF Traces[t].k = "history" THEN Start(Traces[t])
                                                ELSE IF Fact(Traces[t]) THEN <<>> ELSE <<0, Traces[t].k, "">> >>))
=============================================================================
