------------------------------ MODULE RoundTrip -----------------------------
(* Trees that were saved (or published) and loaded again.  A trace has the tree before, the path it is loaded from, the answer, *)
(* the tree that was loaded and what happened when both were ticked.                                                             *)
EXTENDS EditTrace

Again(x) ==
  IF x.r # "ok" THEN <<"cannot be loaded again">>
  ELSE LET a == Tree(x.before) b == Tree(x.after)
           f == Load(Empty, [tree |-> [x.before EXCEPT !.path = x.path]])
       IN IF f.must = "fail" THEN <<"only a well-formed tree can be expected to come back">>
          ELSE IF Form(x.after) # "" THEN <<Form(x.after)>>
          ELSE IF b.nodes # f.post.nodes THEN <<"other nodes", [i \in DOMAIN a.nodes |-> i \in DOMAIN b.nodes /\ a.nodes[i] = b.nodes[i]]>>
          ELSE IF b # f.post THEN <<IF b.wires # a.wires THEN "other wires" ELSE IF b.name # a.name THEN "another name"
                                   ELSE IF b.path # x.path THEN "another path" ELSE "other public data">>
          ELSE IF x.runs[1] # x.runs[2] THEN <<"behaves differently">>
          ELSE <<>>

RVerdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, 1, Again(Traces[t])>>))
=============================================================================
