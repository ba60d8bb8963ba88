----------------------------- MODULE PublishTrace ---------------------------
(* Recorded histories of a real tree manager: after every request the tree as it is (o.tree), its state (o.state), the last messages
   (o.structure, o.states, o.data) and how many data messages were sent for the request (o.sent). *)
EXTENDS BTPublish, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLE t

Flags(f, e) == IF e.k = "subs" THEN [f EXCEPT !.ps = e.on] ELSE IF e.k = "data" THEN [f EXCEPT !.pd = e.on] ELSE f
Entries(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.nodes = ToSet(@)]]
Shapes(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.nodes = ToSet(@), !.wires = ToSet(@)]]
Data(q) == [i \in 1..Len(q) |-> [q[i] EXCEPT !.wires = ToSet(@)]]

\* snap: for every nested tree the values at its last tick while data was published
Snap(f, o) == LET T == {u \in Nested(o.tree) : u.ticked} IN IF ~f.pd THEN f.snap
              ELSE [i \in {u.id : u \in T} |-> Values(CHOOSE u \in T : u.id = i)] @@ f.snap
Known(f, o) == {Values(o.tree)} \cup (IF f.ps THEN {f.snap[u.id] : u \in {u \in Nested(o.tree) : u.id \in DOMAIN f.snap}} ELSE {})

\* shutting down what has several roots takes the nodes apart until the next edit
Commands == {"once", "until", "always", "loop", "stop", "reset", "shutdown", "check", "data"}
Apart(o) == o.tree.nodes # <<>> /\ o.tree.root = "00000000-0000-0000-0000-000000000000"
Loose(f, e, o) == e.k \in Commands /\ (f.loose \/ (e.k \in {"shutdown", "check"} /\ Apart(o)))

Judge(f, e, o) ==      \* f: after the request
  IF o.r \notin {"ok", "fail"} THEN <<e.k, o.r>>
  ELSE IF ~f.loose /\ ~Same(Shapes(o.structure), Structure(o.tree, f.ps)) THEN <<"structure", Shapes(o.structure), Structure(o.tree, f.ps)>>
  ELSE IF o.told # o.state THEN <<"state of the tree", o.told, o.state>>
  ELSE IF ~Same(Entries(o.states), State(o.tree, f.ps)) THEN <<"states", Entries(o.states), State(o.tree, f.ps)>>
  ELSE IF e.k = "data" /\ ~e.on THEN (IF o.data # <<>> THEN <<"data", "is still told about">> ELSE <<>>)
  ELSE IF ~f.pd \/ ~o.tree.ticked THEN (IF o.sent # 0 THEN <<"data", "is told about">> ELSE <<>>)
  ELSE IF o.state = "ERROR" THEN <<>>
  ELSE IF o.sent = 0 THEN <<"data", "is not told about">>
  ELSE IF ~Same(Data(o.data), Known(f, o)) THEN <<"data", Data(o.data), Known(f, o)>>
  ELSE <<>>

RECURSIVE Walk(_, _, _)
Walk(f, es, i) ==
  IF i > Len(es) THEN <<>>
  ELSE LET g == Flags(f, es[i].e)
           h == [g EXCEPT !.snap = Snap(g, es[i].o), !.loose = Loose(f, es[i].e, es[i].o)]
           d == Judge(h, es[i].e, es[i].o)
       IN IF d # <<>> THEN <<i>> \o d ELSE Walk(h, es, i + 1)

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Walk([ps |-> TRUE, pd |-> FALSE, loose |-> FALSE, snap |-> [i \in {} |-> 0]], Traces[t], 1)>>))
=============================================================================
