------------------------------- MODULE BTEdit -------------------------------
(***************************************************************************)
(* Editing a tree.                                                         *)
(*                                                                         *)
(* A configuration is what a node is apart from its place: its class, the  *)
(* values of its options and, following from these, how many children it   *)
(* may have and which inputs and outputs of which types:                   *)
(*   Table[c] = [cls, max (-1: any), opts: set of <<key, value>>,          *)
(*               ins, outs: set of <<key, kind, type, static>>]            *)
(* A tree is                                                               *)
(*   nodes  id -> [cfg, name, kids]         wires  set of <<s, o, t, i>>   *)
(*   name, path      pin, pout  public data, sets of <<id, key>>           *)
(* Requests name nodes by id; 0 stands for no node, ids that are in no     *)
(* tree for nodes that do not exist, -1 for what is no id at all.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Table

Ids(t) == DOMAIN t.nodes
Kids(t, i) == t.nodes[i].kids
ToSet(q) == {q[k] : k \in 1..Len(q)}
Parents(t, i) == {p \in Ids(t) : i \in ToSet(Kids(t, p))}
Parent(t, i) == IF Parents(t, i) = {} THEN 0 ELSE CHOOSE p \in Parents(t, i) : TRUE
Roots(t) == {i \in Ids(t) : Parents(t, i) = {}}

\* i and everything below it
RECURSIVE Grow(_, _)
Grow(t, S) == LET N == S \cup UNION {ToSet(Kids(t, i)) \cap Ids(t) : i \in S} IN IF N = S THEN S ELSE Grow(t, N)
Below(t, i) == Grow(t, {i})

InsertAt(q, k, x) == SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
Without(q, X) == SelectSeq(q, LAMBDA x : x \notin X)
Pos(q, x) == CHOOSE k \in 1..Len(q) : q[k] = x
Room(c, n) == Table[c].max = -1 \/ n <= Table[c].max
Distinct(q) == Cardinality(ToSet(q)) = Len(q)

-----------------------------------------------------------------------------
(* Wires *)

Fit(a, b) ==    \* a: target, b: source
  IF a[4] \/ b[4] THEN "no"
  ELSE IF a[3] = b[3] THEN "yes"
  ELSE IF a[2] # b[2] /\ a[2] # "?" /\ b[2] # "?" THEN "no"
  ELSE "any"

WireFit(t, w) ==
  IF w[1] \notin Ids(t) \/ w[3] \notin Ids(t) THEN "no"
  ELSE LET B == {o \in Table[t.nodes[w[1]].cfg].outs : o[1] = w[2]}
           A == {o \in Table[t.nodes[w[3]].cfg].ins : o[1] = w[4]}
       IN IF A = {} \/ B = {} THEN "no" ELSE Fit(CHOOSE a \in A : TRUE, CHOOSE b \in B : TRUE)

Touches(w, X) == w[1] \in X \/ w[3] \in X

-----------------------------------------------------------------------------
(* Well-formed trees *)

WellFormed(t) ==
  /\ \A i \in Ids(t) : /\ Distinct(Kids(t, i))
                       /\ ToSet(Kids(t, i)) \subseteq Ids(t)
                       /\ Cardinality(Parents(t, i)) <= 1
                       /\ Room(t.nodes[i].cfg, Len(Kids(t, i)))
  /\ UNION {Below(t, r) : r \in Roots(t)} = Ids(t)     \* no cycles
  /\ \A w \in t.wires : WireFit(t, w) # "no"

-----------------------------------------------------------------------------
(* Requests *)

Fail(t) == [must |-> "fail", post |-> t]
Done(t) == [must |-> "ok", post |-> t]
Maybe(t) == [must |-> "any", post |-> t]          \* may be refused
Open(t) == [must |-> "open", post |-> t]          \* what happens is not specified

Detach(t, i) == [t EXCEPT !.nodes = [j \in Ids(t) |-> [t.nodes[j] EXCEPT !.kids = Without(@, {i})]]]
Attach(t, p, k, i) == [t EXCEPT !.nodes[p].kids = InsertAt(@, k, i)]
\* indices count from the front, or with -1 (after the last child) from the back
InRange(n, k) == k >= -(n + 1) /\ k <= n
At(n, k) == IF k < 0 THEN k + n + 1 ELSE k

Drop(t, X) ==
  [t EXCEPT !.nodes = [j \in Ids(t) \ X |-> [t.nodes[j] EXCEPT !.kids = Without(@, X)]],
            !.wires = {w \in @ : ~Touches(w, X)},
            !.pin = {x \in @ : x[1] \notin X}, !.pout = {x \in @ : x[1] \notin X}]

Add(t, op) ==
  IF \/ op.parent = -1 \/ (op.parent # 0 /\ op.parent \notin Ids(t))
     \/ op.cfg = 0
     \/ op.parent # 0 /\ ~Room(t.nodes[op.parent].cfg, Len(Kids(t, op.parent)) + 1)
     \/ \E i \in ToSet(op.kids) : i \notin Ids(t) \/ Parents(t, i) # {} \/ op.parent \in Below(t, i)
     \/ ~Distinct(op.kids) \/ ~Room(op.cfg, Len(op.kids))
  THEN Fail(t)
  ELSE LET n == [t EXCEPT !.nodes = [j \in Ids(t) \cup {op.new} |->
                                      IF j = op.new THEN [cfg |-> op.cfg, name |-> op.name, kids |-> op.kids] ELSE t.nodes[j]]]
           q == IF op.parent = 0 THEN <<>> ELSE Kids(t, op.parent)
       IN IF op.parent = 0 THEN Done(n)
          ELSE IF InRange(Len(q), op.idx) THEN Done(Attach(n, op.parent, At(Len(q), op.idx), op.new))
          ELSE Open(t)

Remove(t, op) ==
  IF op.id \notin Ids(t) THEN Fail(t)
  ELSE Done(Drop(t, IF op.all THEN Below(t, op.id) ELSE {op.id}))

Move(t, op) ==
  IF op.id \notin Ids(t) \/ op.parent = -1 THEN Fail(t)
  ELSE IF op.parent = 0 THEN Done(Detach(t, op.id))
  ELSE IF op.parent \notin Ids(t) \/ op.parent \in Below(t, op.id) THEN Fail(t)
  ELSE LET d == Detach(t, op.id)
           q == Kids(d, op.parent)
           r == Attach(d, op.parent, At(Len(q), op.idx), op.id)
       IN IF ~Room(t.nodes[op.parent].cfg, Len(q) + 1) THEN Fail(t)
          ELSE IF ~InRange(Len(q), op.idx) THEN Open(t)
          ELSE IF Room(t.nodes[op.parent].cfg, Len(Kids(t, op.parent)) + 1) THEN Done(r)
          ELSE Maybe(r)      \* within a parent that is full

Replace(t, op) ==
  IF op.old \notin Ids(t) \/ op.new \notin Ids(t) \/ op.old = op.new \/ op.old \in Below(t, op.new) THEN Fail(t)
  ELSE LET p == Parent(t, op.old)
           inside == op.new \in Below(t, op.old)
           d == IF p # 0 \/ inside THEN Detach(t, op.new) ELSE t
           all == Kids(d, op.new) \o Kids(d, op.old)
           r1 == [d EXCEPT !.nodes[op.new].kids = all, !.nodes[op.old].kids = <<>>]
           r2 == IF p = 0 THEN r1
                 ELSE [r1 EXCEPT !.nodes[p].kids = [k \in 1..Len(@) |-> IF @[k] = op.old THEN op.new ELSE @[k]]]
           r == Drop(r2, {op.old})
       IN IF ~Room(t.nodes[op.new].cfg, Len(all)) THEN Fail(t)
          ELSE IF p = 0 /\ ~inside /\ Parents(t, op.new) # {} THEN Open(t)
          ELSE IF ~Room(t.nodes[op.new].cfg, Len(Kids(t, op.old))) THEN Maybe(r)
          ELSE Done(r)

\* the node becomes another one at the same place; wires that do not fit any more go
Become(t, i, c, name) ==
  LET n == [t EXCEPT !.nodes[i].cfg = c, !.nodes[i].name = name]
  IN [n EXCEPT !.wires = {w \in @ : ~Touches(w, {i}) \/ WireFit(n, w) = "yes"}]
\* wires that may stay or go
MayStay(t, i, c) == LET n == [t EXCEPT !.nodes[i].cfg = c] IN {w \in t.wires : Touches(w, {i}) /\ WireFit(n, w) = "any"}

Morph(t, op) ==
  IF op.id \notin Ids(t) \/ op.cfg = 0 THEN Fail(t)
  ELSE IF ~Room(op.cfg, Len(Kids(t, op.id))) THEN Fail(t)
  ELSE Done(Become(t, op.id, op.cfg, op.name))

Merged(old, new) == {x \in old : \A y \in new : y[1] # x[1]} \cup new
\* requests may say which configuration their options lead to
NewCfgs(t, op) ==
  IF "cfg" \in DOMAIN op THEN {op.cfg} \ {0} ELSE
  LET c == t.nodes[op.id].cfg
  IN {k \in DOMAIN Table : Table[k].cls = Table[c].cls /\ Table[k].opts = Merged(Table[c].opts, op.opts)}
SetOpts(t, op) ==
  IF op.id \notin Ids(t) THEN Fail(t)
  ELSE LET C == NewCfgs(t, op)
       IN IF C = {} THEN Fail(t)
          ELSE Done(Become(t, op.id, CHOOSE k \in C : TRUE, IF op.rename THEN op.name ELSE t.nodes[op.id].name))

Wire(t, op) ==
  IF op.ignore THEN Done([t EXCEPT !.wires = @ \cup {w \in ToSet(op.wires) : WireFit(t, w) = "yes"}])
  ELSE IF \E w \in ToSet(op.wires) : WireFit(t, w) = "no" THEN Fail(t)
  ELSE LET r == [t EXCEPT !.wires = @ \cup ToSet(op.wires)]
       IN IF \A w \in ToSet(op.wires) : WireFit(t, w) = "yes" THEN Done(r) ELSE Maybe(r)
MayWire(t, op) == IF op.ignore THEN {w \in ToSet(op.wires) : WireFit(t, w) = "any"} ELSE {}

Unwire(t, op) ==
  IF ~op.ignore /\ \E w \in ToSet(op.wires) : w \notin t.wires THEN Fail(t)
  ELSE Done([t EXCEPT !.wires = @ \ ToSet(op.wires)])

Empty == [nodes |-> [i \in {} |-> 0], wires |-> {}, name |-> "UNKNOWN TREE", path |-> "", pin |-> {}, pout |-> {}]

\* a tree message: nodes is a sequence of [id, cfg, name, kids]
LoadFits(m) ==
  /\ Len(m.nodes) > 0
  /\ \A k \in 1..Len(m.nodes) : m.nodes[k].cfg # 0 /\ m.nodes[k].id > 0
  /\ Distinct([k \in 1..Len(m.nodes) |-> m.nodes[k].id])
Loaded(m) ==
  [nodes |-> [i \in {m.nodes[k].id : k \in 1..Len(m.nodes)} |->
                LET x == m.nodes[CHOOSE k \in 1..Len(m.nodes) : m.nodes[k].id = i]
                IN [cfg |-> x.cfg, name |-> x.name, kids |-> x.kids]],
   wires |-> ToSet(m.wires), name |-> m.name, path |-> m.path, pin |-> ToSet(m.pin), pout |-> ToSet(m.pout)]
Load(t, op) ==
  IF ~LoadFits(op.tree) THEN Fail(t)
  ELSE LET n == Loaded(op.tree)
       IN IF ~WellFormed(n) THEN Fail(t)
          ELSE IF \A w \in n.wires : WireFit(n, w) = "yes" THEN Done(n) ELSE Maybe(n)

Effect(t, op) ==
  CASE op.k = "add" -> Add(t, op)
    [] op.k = "remove" -> Remove(t, op)
    [] op.k = "move" -> Move(t, op)
    [] op.k = "replace" -> Replace(t, op)
    [] op.k = "morph" -> Morph(t, op)
    [] op.k = "setopts" -> SetOpts(t, op)
    [] op.k = "rename" -> Done([t EXCEPT !.name = op.name])
    [] op.k = "wire" -> Wire(t, op)
    [] op.k = "unwire" -> Unwire(t, op)
    [] op.k = "clear" -> Done(Empty)
    [] op.k = "load" -> Load(t, op)
    [] op.k = "reload" -> IF Ids(t) = {} THEN Maybe(t) ELSE Done(t)
    [] op.k = "look" -> Maybe(t)         \* requests that only read
    [] op.k = "file" -> Open(t)          \* loading whatever some file or message contains
    [] op.k = "bad" -> Fail(t)           \* a load that cannot succeed for reasons the harness knows

\* wires that an accepted request may or may not leave behind
Optional(t, op) ==
  CASE op.k = "morph" /\ op.id \in Ids(t) /\ op.cfg # 0 -> MayStay(t, op.id, op.cfg)
    [] op.k = "setopts" /\ op.id \in Ids(t) -> UNION {MayStay(t, op.id, c) : c \in NewCfgs(t, op)}
    [] op.k = "wire" -> MayWire(t, op)
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* What a request leaves alone, stated without its effect *)

Named(t, op) ==
  CASE op.k \in {"remove"} -> IF op.id \in Ids(t) THEN (IF op.all THEN Below(t, op.id) ELSE {op.id}) ELSE {}
    [] op.k \in {"move", "morph", "setopts"} -> {op.id}
    [] op.k = "replace" -> {op.old, op.new}
    [] op.k = "add" -> {op.new}
    [] OTHER -> {}

Frame(t, op, u) ==
  op.k \in {"clear", "load"} \/
  LET X == Named(t, op)
      S == (Ids(t) \ X) \ {0}
      M == X \cup (IF op.k = "replace" /\ op.old \in Ids(t) THEN ToSet(Kids(t, op.old)) ELSE {})
             \cup (IF op.k = "add" THEN ToSet(op.kids) ELSE {})
  IN /\ S \subseteq Ids(u)
     /\ \A i \in S : u.nodes[i].cfg = t.nodes[i].cfg /\ u.nodes[i].name = t.nodes[i].name
     /\ \A i \in S : Without(Kids(u, i), M) = Without(Kids(t, i), M)
     /\ {w \in t.wires : ~Touches(w, X)} \ u.wires = {} \/ op.k = "unwire"
     /\ {w \in u.wires : w \notin t.wires} = {} \/ op.k = "wire"
     /\ op.k \in {"morph", "setopts"} => \A i \in Ids(t) : Kids(u, i) = Kids(t, i)
     /\ u.name = t.name \/ op.k = "rename"
     /\ u.path = t.path
=============================================================================
