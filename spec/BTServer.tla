------------------------------ MODULE BTServer ------------------------------
(***************************************************************************)
(* The ROS node that serves one tree, as seen through its services and     *)
(* topics.  On top of the tree's execution (BTManager: ts, root, until):   *)
(*   name   of the tree, or - (whatever)                                   *)
(*   kids   children of the root [n: name, k: kind]; kinds: L logs at      *)
(*          level 20 with every tick, G has an output, T an input,         *)
(*          S is a subtree that logs like L                                *)
(*   wires  pairs of names <<giver, taker>>                                *)
(*   ps, pd, dg   nested trees, data, diagnostics are published            *)
(*   lvl    minimum level of log messages      hz  of the tick loop        *)
(*   files  stored trees                                                   *)
(* Serve(s, q): the answer to a request and what is published meanwhile.   *)
(* View(s): what a subscriber sees that arrives afterwards.                *)
(***************************************************************************)
EXTENDS BTManager, SequencesExt

Kinds == {"L", "G", "T", "S"}
Empty == [ts |-> "EDITABLE", root |-> "NONE", until |-> FALSE, name |-> "-", kids |-> <<>>, wires |-> {}, ps |-> TRUE, pd |-> FALSE, dg |-> FALSE,
          lvl |-> 20, hz |-> 10, files |-> {}]
Kid(n, k) == [n |-> n, k |-> k]
\* the trees that are loaded: in a message, in a file
Message == [name |-> "told", kids |-> <<Kid("n1", "L"), Kid("n2", "S")>>, wires |-> {}, hz |-> 4]
File == [name |-> "stored", kids |-> <<Kid("n1", "G"), Kid("n2", "T")>>, wires |-> {<<"n1", "n2">>}, hz |-> 7]

With(s, t) == [s EXCEPT !.root = "UNINITIALIZED", !.name = t.name, !.kids = t.kids, !.wires = t.wires, !.hz = t.hz]
Outcomes == [run |-> "RUNNING", done |-> "SUCCEEDED", bad |-> "ERR"]
Plan(o) == [setup |-> "IDLE", tick |-> Outcomes[o], untick |-> "IDLE", reset |-> "IDLE", shutdown |-> "SHUTDOWN"]

Has(s, n) == \E i \in DOMAIN s.kids : s.kids[i].n = n
At(s, n) == CHOOSE i \in DOMAIN s.kids : s.kids[i].n = n
Without(s, n) == [s EXCEPT !.kids = SelectSeq(@, LAMBDA x : x.n # n), !.wires = {w \in @ : w[1] # n /\ w[2] # n}]
Swap(w, a, b) == <<IF w[1] = a THEN b ELSE w[1], IF w[2] = a THEN b ELSE w[2]>>

\* the node at j takes the place of the one at i
Replaced(q, i, j) == SelectSeq([k \in DOMAIN q |-> IF k = i THEN q[j] ELSE IF k = j THEN Kid("", "") ELSE q[k]], LAMBDA x : x.n # "")

Ans(s, ok, names) == [s |-> s, ok |-> ok, names |-> names, said |-> 0, diag |-> FALSE, data |-> -1]
Done(s) == Ans(s, TRUE, {})
Refuse(s) == Ans(s, FALSE, {})
Count(s, k) == Cardinality({i \in DOMAIN s.kids : s.kids[i].k = k})

\* a command that the tree carries out with the operations ops
Executed(s, r) ==
  LET ticked == \E i \in DOMAIN r.ops : r.ops[i] = "tick" IN
  [s |-> r.m, ok |-> r.ok, names |-> {}, said |-> IF ticked /\ s.lvl <= 20 THEN Count(s, "L") + Count(s, "S") ELSE 0, diag |-> s.dg /\ r.ops # <<>>,
   data |-> IF ~s.pd \/ ~ticked THEN -1 ELSE IF r.m.ts = "ERROR" THEN -2 ELSE Cardinality(s.wires)]   \* -1: nothing, -2: whatever
Command(s, c, o, hz) ==
  LET r == Step(s, c, Plan(o)) IN
  Executed(s, IF c \in {"always", "until"} /\ r.ops # <<>> THEN [r EXCEPT !.m.hz = hz] ELSE r)

Edits == {"add_node", "add_node_at_index", "remove_node", "morph_node", "move_node", "replace_node", "set_options", "wire_data", "unwire_data",
          "change_tree_name", "clear", "load_tree", "load_tree_from_path", "reload"}
Edit(s, q) ==
  CASE q.srv \in {"add_node", "add_node_at_index"} ->
         IF q.kind = "root" THEN IF s.root = "NONE" THEN Done([s EXCEPT !.root = "UNINITIALIZED"]) ELSE Refuse(s)
         ELSE IF s.root = "NONE" THEN Refuse(s)
         ELSE Done([s EXCEPT !.kids = IF q.srv = "add_node" THEN Append(@, Kid(q.n, q.kind)) ELSE <<Kid(q.n, q.kind)>> \o @])
    [] q.srv = "change_tree_name" -> Done([s EXCEPT !.name = q.n])
    [] q.srv = "clear" -> Done([s EXCEPT !.root = "NONE", !.kids = <<>>, !.wires = {}, !.name = "-"])
    [] q.srv = "load_tree" -> Done(With(s, Message))
    [] q.srv = "load_tree_from_path" -> IF q.n = "good" THEN Done(With(s, File)) ELSE Refuse(s)
    [] q.srv = "reload" -> Done([s EXCEPT !.root = IF @ = "NONE" THEN @ ELSE "UNINITIALIZED"])
    [] ~Has(s, q.n) -> Refuse(s)
    [] q.srv = "remove_node" -> Done(Without(s, q.n))
    [] q.srv = "morph_node" -> Done([s EXCEPT !.kids = [@ EXCEPT ![At(s, q.n)] = Kid(q.n, q.kind)], !.wires = {w \in @ : w[1] # q.n /\ w[2] # q.n}])
    [] q.srv = "move_node" -> Done([s EXCEPT !.kids = <<@[At(s, q.n)]>> \o SelectSeq(@, LAMBDA x : x.n # q.n)])
    [] q.srv = "replace_node" -> IF ~Has(s, q.m) THEN Refuse(s)
                                 ELSE Done([Without(s, q.n) EXCEPT !.kids = Replaced(s.kids, At(s, q.n), At(s, q.m))])
    [] q.srv = "set_options" -> Done([s EXCEPT !.kids = [@ EXCEPT ![At(s, q.n)].n = q.m], !.wires = {Swap(w, q.n, q.m) : w \in @}])
    [] q.srv = "wire_data" -> Done([s EXCEPT !.wires = @ \cup {<<q.n, q.m>>}])
    [] q.srv = "unwire_data" -> IF <<q.n, q.m>> \in s.wires THEN Done([s EXCEPT !.wires = @ \ {<<q.n, q.m>>}]) ELSE Refuse(s)

Serve(s, q) ==
  CASE q.srv \in Edits -> IF s.ts = "EDITABLE" THEN Edit(s, q) ELSE Refuse(s)
    [] q.srv = "control_tree_execution" -> Command(s, q.c, q.o, 5)
    [] q.srv = "turn" -> IF s.ts = "TICKING" THEN [Command(s, "loop", q.o, 0) EXCEPT !.ok = TRUE] ELSE Done(s)      \* time passes
    [] q.srv = "off" ->                                                                  \* the node is shut down
         IF s.ts \in {"IDLE", "EDITABLE", "ERROR"} THEN Done(s) ELSE [Command(s, "shutdown", "run", 0) EXCEPT !.ok = TRUE]
    [] q.srv = "get_subtree" -> IF Has(s, q.n) THEN Ans(s, TRUE, {q.n}) ELSE Refuse(s)
    [] q.srv = "generate_subtree" -> IF Has(s, q.n) THEN Ans(s, TRUE, {"root", q.n}) ELSE Refuse(s)
    [] q.srv = "debug/set_publish_subtrees" -> Done([s EXCEPT !.ps = q.on])
    [] q.srv = "debug/set_publish_data" -> [Done([s EXCEPT !.pd = q.on]) EXCEPT !.data = -2]
    [] q.srv = "debug/set_collect_node_diagnostics" -> Done([s EXCEPT !.dg = q.on])
    [] q.srv = "set_log_level" -> Done([s EXCEPT !.lvl = q.lvl])
    [] q.srv = "save_tree" -> IF q.n \in s.files /\ ~q.on THEN Refuse(s) ELSE Done([s EXCEPT !.files = @ \cup {q.n}])
    [] q.srv = "get_folder_structure" -> Ans(s, TRUE, s.files)
    [] q.srv = "get_storage_folders" -> Ans(s, TRUE, {"store", "more"})
    [] q.srv = "get_available_nodes" -> Ans(s, TRUE, {"Main", "Say", "Give", "Take"})
    [] q.srv = "get_package_structure" -> IF q.n = "some_package" THEN Ans(s, TRUE, {"inside"}) ELSE Refuse(s)

View(s) == [name |-> s.name, kids |-> s.kids, wires |-> s.wires, nested |-> IF s.ps THEN Count(s, "S") ELSE 0, ts |-> s.ts, root |-> s.root]

\* The node starts: p.load, p.path, p.cmd, p.hz; the tree will answer p.o
Boot(p) ==
  IF ~p.load \/ p.path # "good" THEN Empty
  ELSE Command(With(Empty, File), p.cmd, p.o, 3).s

------------------------------------------------------------------------------
\* what every state guarantees
Sound(s) ==
  /\ StateOK(s)
  /\ s.root = "NONE" => s.kids = <<>> /\ s.wires = {}
  /\ \A i, j \in DOMAIN s.kids : s.kids[i].n = s.kids[j].n => i = j
  /\ \A w \in s.wires : Has(s, w[1]) /\ Has(s, w[2]) /\ s.kids[At(s, w[1])].k = "G" /\ s.kids[At(s, w[2])].k = "T"
\* and every request
SameTree(a, b) == a.name = b.name /\ a.kids = b.kids /\ a.wires = b.wires
Fair(s, q) ==
  LET a == Serve(s, q) IN
  /\ ~a.ok /\ q.srv # "control_tree_execution" /\ q.srv # "turn" => a.s = s
  /\ q.srv \notin Edits => SameTree(a.s, s)
  /\ q.srv \in Edits => a.s.ts = s.ts /\ [a.s EXCEPT !.name = s.name, !.kids = s.kids, !.wires = s.wires, !.root = s.root, !.hz = s.hz] = s
  /\ q.srv = "off" => a.s.ts \in {"IDLE", "EDITABLE", "ERROR"}
=============================================================================
