---------------------------- MODULE ExtractTrace ----------------------------
(* Requests for parts of a tree: the tree before (before) and after, the request, the answer (r, part), and, if the part was *)
(* loaded into an empty manager, that answer (lr) and the tree it then has.  Observations are those of EditTrace.            *)
EXTENDS BTExtract, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
TrTable == [c \in 1..Len(File.table) |->
  LET x == File.table[c] IN [cls |-> x.cls, max |-> x.max, opts |-> {x.opts[k] : k \in 1..Len(x.opts)},
                             ins |-> {x.ins[k] : k \in 1..Len(x.ins)}, outs |-> {x.outs[k] : k \in 1..Len(x.outs)}]]
Traces == File.traces
VARIABLE t

Tree(o) == Loaded(o)
Judge(x) ==
  LET a == Tree(x.before) f == Extract(a, x.op) p == Tree(x.part)
  IN (IF x.r \notin {"ok", "fail"} THEN {<<x.r>>} ELSE {})
     \cup (IF x.r = "ok" /\ f.must = "fail" THEN {<<"accepts what has to be refused">>} ELSE {})
     \cup (IF x.r # "ok" /\ f.must = "ok" THEN {<<"refuses a valid request">>} ELSE {})
     \cup (IF x.before # x.after THEN {<<"changes the tree">>} ELSE {})
     \cup (IF x.r = "ok" /\ f.must \in {"ok", "any"} THEN
             (IF Len(x.part.nodes) # Cardinality(Ids(p)) THEN {<<"repeats nodes">>}
              ELSE IF p.nodes # f.part.nodes THEN {<<"answers other nodes">>}
              ELSE IF p.wires # f.part.wires THEN {<<"answers other wires">>}
              ELSE IF p.pin # f.part.pin \/ p.pout # f.part.pout THEN {<<"answers other public data">>}
              ELSE IF x.part.root # f.part.root THEN {<<"answers another root">>}
              ELSE IF x.lr = "" THEN {}
              ELSE IF Load(Empty, [tree |-> x.part]).must # "ok" THEN {}
              ELSE IF x.lr # "ok" THEN {<<"answers a tree that cannot be loaded", x.lr>>}
              ELSE LET l == Tree(x.loaded) IN IF l.nodes # p.nodes \/ l.wires # p.wires \/ l.pin # p.pin \/ l.pout # p.pout
                                              THEN {<<"answers a tree that is another one when loaded">>} ELSE {})
           ELSE {})

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t, Judge(Traces[t])>>))
=============================================================================
