------------------------------ MODULE EditTrace -----------------------------
(* Recorded editing histories.  An observation has what was published (nodes, wires, name, path, root, pin, pout) and the *)
(* links between the nodes of the manager (id, parent, kids); a step has the request, the answer and the observation.     *)
EXTENDS BTEdit, Json, IOUtils

File == JsonDeserialize(IOEnv.TRACES)
TrTable == [c \in 1..Len(File.table) |->
  LET x == File.table[c] IN [cls |-> x.cls, max |-> x.max, opts |-> {x.opts[k] : k \in 1..Len(x.opts)},
                             ins |-> {x.ins[k] : k \in 1..Len(x.ins)}, outs |-> {x.outs[k] : k \in 1..Len(x.outs)}]]
Traces == File.traces
VARIABLE t

Tree(o) == Loaded(o)
Links(o) == [i \in {o.links[k].id : k \in 1..Len(o.links)} |-> o.links[CHOOSE k \in 1..Len(o.links) : o.links[k].id = i]]

\* problems of a tree as observed
Form(o) ==
  IF ~LoadFits(o) /\ Len(o.nodes) > 0 THEN "published nodes have unknown configurations or repeated ids"
  ELSE IF ~WellFormed(Tree(o)) THEN "the tree is not well formed"
  ELSE LET L == Links(o) T == Tree(o) IN
    IF Len(o.links) # Cardinality(DOMAIN L) \/ DOMAIN L # Ids(T) THEN "other nodes are published than the tree has"
    ELSE IF \E i \in Ids(T) : L[i].kids # Kids(T, i) THEN "other children are published than the nodes have"
    ELSE IF \E i \in Ids(T) : L[i].parent # Parent(T, i) THEN "a node does not know its parent"
    ELSE IF Cardinality(Roots(T)) = 1 /\ o.root \notin Roots(T) THEN "the published root is not the root"
    ELSE IF o.root # 0 /\ o.root \notin Ids(T) THEN "the published root is not in the tree"
    ELSE IF o.root # 0 /\ o.root \notin Roots(T) THEN "the published root has a parent"
    ELSE ""

Conf(op) ==
  CASE op.k = "setopts" -> [op EXCEPT !.opts = ToSet(@)]
    [] OTHER -> op

\* <<kind, why>> of everything that is wrong with a step
Judge(a, e0) ==
  LET misnamed == e0.r = "misnamed" e == IF misnamed THEN [e0 EXCEPT !.r = "ok"] ELSE e0
      b == e.obs pre == Tree(a) post == Tree(b) op == Conf(e.op)
      f == Effect(pre, op) O == Optional(pre, op)
      form == Form(b)
      Same(u) == /\ post.nodes = u.nodes /\ post.name = u.name /\ post.path = u.path /\ post.pin = u.pin /\ post.pout = u.pout
                 /\ u.wires \ O \subseteq post.wires /\ post.wires \subseteq u.wires \cup O
  IN (IF form # "" THEN {<<"form", form>>} ELSE {})
     \cup (IF misnamed THEN {<<"effect", "answers with another id than the new node's">>} ELSE {})
     \cup (IF e.r \notin {"ok", "fail"} THEN {<<"raise", e.r>>} ELSE {})
     \cup (IF e.r = "ok" /\ f.must = "fail" THEN {<<"effect", "accepts what has to be refused">>} ELSE {})
     \cup (IF e.r = "ok" /\ op.k = "file" /\ Ids(post) = {} THEN {<<"effect", "accepts a file or message without nodes">>} ELSE {})
     \cup (IF e.r # "ok" /\ f.must = "ok" THEN {<<"effect", "refuses a valid request">>} ELSE {})
     \cup (IF e.r = "ok" /\ f.must \in {"ok", "any"} /\ form = "" /\ ~Same(f.post)
           THEN {<<"effect", "has another effect", IF post.nodes # f.post.nodes THEN "nodes" ELSE IF post.wires # f.post.wires THEN "wires" ELSE "name or public data">>} ELSE {})
     \cup (IF e.r # "ok" /\ (post # pre \/ a.links # b.links) THEN {<<"atomic", "a failed request changes the tree">>} ELSE {})

RECURSIVE Walk(_, _, _, _)
Walk(tr, j, a, acc) ==
  IF j > Len(tr.steps) \/ Cardinality(acc) > 0 THEN <<j - 1, acc>>
  ELSE Walk(tr, j + 1, tr.steps[j].obs, Judge(a, tr.steps[j]))

Init == t = 0
Next == t < Len(Traces) /\ t' = t + 1
Spec == Init /\ [][Next]_t
Verdict == t = 0 \/ PrintT("@E " \o ToJson(<<t>> \o Walk(Traces[t], 1, Traces[t].init, {})))
=============================================================================
