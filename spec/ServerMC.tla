------------------------------ MODULE ServerMC ------------------------------
(* A node, however it is started, and every history of requests: "edit" explores the trees, "flags" the switches, for trees that are loaded. *)
EXTENDS BTServer, TLC, Json

VARIABLES s, mode, how
vars == <<s, mode, how>>
Names == {"n1", "n2"}
None == [load |-> FALSE, path |-> "good", cmd |-> "nothing", o |-> "run", perm |-> FALSE]
Starts == {None} \cup [load : {TRUE}, path : {"good", "missing", "malformed"}, cmd : {"nothing", "once", "always", "until", "stop", "reset", "shutdown", "check"},
                       o : {"run", "done", "bad"}, perm : BOOLEAN]
Init == /\ mode \in {"edit", "flags", "start"}
        /\ how \in IF mode = "start" THEN Starts ELSE {None}
        /\ s = Boot(how)
        /\ PrintT("@E " \o ToJson(<<how, [s |-> s, mode |-> mode]>>))

Q(x) == [srv |-> x]
QN(x, n) == [srv |-> x, n |-> n]
Fresh == Names \ {s.kids[i].n : i \in DOMAIN s.kids}
K == {s.kids[i].n : i \in DOMAIN s.kids}
KindOf(n) == s.kids[At(s, n)].k
Commands1 == {[srv |-> "control_tree_execution", c |-> c, o |-> o] : c \in {"once", "always", "until"}, o \in {"run", "done", "bad"}} \cup
             {[srv |-> "control_tree_execution", c |-> c, o |-> "run"] : c \in {"nothing", "stop", "reset", "shutdown", "unknown"}} \cup
             {[srv |-> "turn", o |-> o] : o \in {"run", "done", "bad"}} \cup {Q("off")}
Editing ==
  {[srv |-> x, n |-> n, kind |-> k] : x \in {"add_node", "add_node_at_index"}, n \in IF s.root # "NONE" /\ Fresh # {} THEN {CHOOSE n \in Fresh : TRUE} ELSE {}, k \in {"L", "G", "T"}} \cup
  {[srv |-> "add_node", n |-> "root", kind |-> "root"] : z \in IF s.root = "NONE" THEN {0} ELSE {}} \cup
  {QN(x, n) : x \in {"remove_node", "move_node", "get_subtree", "generate_subtree"}, n \in K} \cup
  {q \in {[srv |-> "morph_node", n |-> n, kind |-> k] : n \in K, k \in {"L", "G", "T"}} : q.kind # KindOf(q.n)} \cup
  {q \in {[srv |-> "replace_node", n |-> n, m |-> m] : n \in K, m \in K} : q.n # q.m /\ s.wires = {}} \cup
  {[srv |-> "set_options", n |-> n, m |-> m] : n \in K, m \in Fresh} \cup
  {q \in {[srv |-> x, n |-> n, m |-> m] : x \in {"wire_data", "unwire_data"}, n \in K, m \in K} :
     KindOf(q.n) = "G" /\ KindOf(q.m) = "T" /\ (q.srv = "unwire_data") = (<<q.n, q.m>> \in s.wires)} \cup
  {QN("change_tree_name", n) : n \in {"other"}} \cup {Q("clear")} \cup {QN("load_tree_from_path", n) : n \in {"good", "missing"}} \cup
  {Q("reload") : z \in IF s.root # "NONE" THEN {0} ELSE {}}
Switching ==
  {[srv |-> x, on |-> b] : x \in {"debug/set_publish_subtrees", "debug/set_publish_data", "debug/set_collect_node_diagnostics"}, b \in BOOLEAN} \cup
  {[srv |-> "set_log_level", lvl |-> l] : l \in {20, 30}} \cup {Q("load_tree"), QN("load_tree_from_path", "good")}
Looking == {Q(x) : x \in {"get_folder_structure", "get_storage_folders", "get_available_nodes"}} \cup {QN("get_package_structure", n) : n \in {"some_package", "no_package"}} \cup
           {[srv |-> "save_tree", n |-> "f", on |-> b] : b \in BOOLEAN}
Requests == CASE mode = "edit" -> Editing \cup Commands1
              [] mode = "flags" -> Switching \cup {q \in Commands1 : q.srv # "control_tree_execution" \/ q.c \in {"once", "always", "shutdown"}}
              [] OTHER -> Commands1 \cup Looking \cup {QN("load_tree_from_path", "good")}
Next == /\ UNCHANGED <<mode, how>>
        /\ \E q \in Requests : /\ s' = Serve(s, q).s
                               /\ PrintT("@E " \o ToJson(<<[s |-> s, mode |-> mode], q, [s |-> s', mode |-> mode]>>))
Spec == Init /\ [][Next]_vars
\* the state graph is the same however the node was started
Seen == <<s, mode>>
Ok == Sound(s)
Requested == [][\A q \in Requests : Fair(s, q)]_vars
=============================================================================
