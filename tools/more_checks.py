check("C09", "TLA+ (BTSlot): TLC explores every state of sample slots; its transitions are replayed on real slots, random lives judged by TLC",
      "Exhaustive for about 100 sample types with values around their limits; random nested types. Trusts TLC and the projection of Python values to ranked records; NaN is left out.")
check("C11", "TLA+ (BTMessages): TLC shows reading inverts writing; messages and values written and read by the real code judged by TLC",
      "Sampled types (nested up to three levels), values, message classes and damaged type messages; reading damaged messages is judged against the specified parser where it is unambiguous. ROS messages come from the installed packages.")
check("C12", "TLA+ (BTManager): TLC explores commands x tree outcomes; its transitions are replayed on the real tree manager and recorded command histories judged by TLC (ManagerTrace)",
      "Trees with one scripted root or none or several; commands do not overlap (C13 covers overlap). The rate is replaced by a gate, ROS by stubs; setup-and-shutdown is judged only by where it ends.")
check("C13", "TLA+ (BTConcurrent): TLC explores every interleaving of the locking protocol; the real manager runs under a controlled scheduler and TLC judges what is observed (RaceTrace)",
      "Pairs and triples of commands and edits in every tree state, up to three forced thread switches per execution at random lines, locks or waits; the schedules of the real code are sampled, those of the model exhausted.")
check("C14", "TLA+ (BTManager, BTConcurrent): every edit request in every tree state of the explored model is issued on the real manager; edits racing with commands judged by TLC (RaceTrace)",
      "One request of every kind per state and root shape; random schedules for races between edits and commands.")
EDIT = ("TLA+ (BTEdit): TLC explores the editing model; its transitions are replayed on the real tree manager and random editing "
        "histories are judged by TLC (EditTrace)")
BOUND = ("Exhaustive for trees of up to four nodes of six kinds under each editing request; histories over all shipped trees and node classes are random. "
         "Node details are compared by interned description; ROS is replaced by stubs. ")
check("C15", EDIT, BOUND + "The shape predicate (WellFormed) is evaluated by TLC on every observed tree.")
check("C16", EDIT, BOUND + "A request that is not answered in ten seconds counts as not answered.")
check("C17", EDIT, BOUND + "The effect predicate says what each request must change and that nothing else changes.")
check("C18", "TLA+ (BTEdit, RoundTrip): every tree reached by the model and by recorded histories is saved, loaded and compared by TLC; both copies are ticked and compared",
      BOUND + "Behaviour is compared over three ticks and only for trees that do not depend on time, chance or ROS.")
check("C19", "TLA+ (BTEdit Open/Load): damaged files and messages are loaded by the real manager, answers and resulting trees judged by TLC (EditTrace)",
      "Damaged documents are random mutations of all shipped trees plus listed special cases; a request that is not answered in ten seconds counts as not answered.", level="model_checking")
check("C08", "TLA+ (BTData): TLC explores every history of ticks, writes, errors, unticks, resets and shutdowns of small wired trees; its transitions are replayed on real trees and random histories judged by TLC (DataTrace)",
      "Exhaustive for eleven wire graphs of up to four nodes; random trees of up to seven nodes and nine types of values, which are changed by the check after they are handed over. The nodes are written for the check.")
check("C24", "TLA+ (BTUtility): TLC checks the cost functions against all behaviours of the ticked children; costs reported by real trees are judged by TLC (UtilityTrace)",
      "Exhaustive for up to three children with small costs and missing bounds; random nested trees. Decorators that change results and the utility switches are not judged.")
check("C10", "TLA+ (BTSlot, BTEdit): TLC checks the rules for compatibility on all pairs and triples of sample types; real answers, wires and deliveries judged by TLC (WireTrace, EditTrace)",
      "About 120 sample types with values around their limits, random types that differ a little; compatibility is refuted by sample values. Wire and unwire requests in every state of small editing models and in random histories.")

PROTO = "TLA+ ({0}): TLC explores every history of the node, its server and its inputs up to the bound; the transitions are replayed on the real node and random longer histories judged by TLC ({1})"
check("C20", PROTO.format("BTAction", "ActionTrace"),
      "Two goals and two clients in the model (transitions sampled within a time budget), unbounded in random histories. The action client is a stand-in for rclpy's; whether results of the installed rclpy are delivered is trusted.")
check("C21", PROTO.format("BTService", "ServiceTrace"),
      "Three requests and clients in the model, all transitions replayed; random histories of both node kinds. The client is a stand-in for rclpy's.")
check("C22", PROTO.format("BTTopic", "TopicTrace"),
      "Three subscriptions in the model, all transitions replayed; messages also arrive while a subscription is made, dropped and after that. The ROS graph is a stand-in; what a publisher made anew repeats is left open.")
check("C25", "TLA+ (BTStore): TLC explores every file system reached by small save requests; its transitions are replayed in a scratch folder and random histories of saves and listings judged by TLC (StoreTrace)",
      "Requests with up to three name components over small alphabets in the model (transitions sampled in the quick tier); random histories. Runs as an unprivileged user in a scratch folder; links, full disks and crashes are left out.")
check("C28", "TLA+ (BTCompute, BTMath): TLC explores nodes x small inputs x histories; its transitions are replayed on the real nodes and random histories judged by TLC (ComputeTrace)",
      "31 node types with small values (numbers are multiples of a quarter, ASCII text without quotes); transcendental functions are compared with a table to 1/4096. Random numbers are judged by their range only.")
check("C26", "TLA+ (BTSubtree): TLC explores trees with subtrees side by side with the same trees inlined; its transitions are replayed on real trees with subtree files, random histories and loads judged by TLC (SubtreeTrace)",
      "13 shapes with up to two nested borders on the model (replay of transitions sampled within a time budget); random trees of up to 16 nodes, seven kinds of values. Inner and outer nodes are written for the check; a subtree file is not changed while it is used.")
check("C27", "TLA+ (BTPublish): TLC explores histories of edits, commands and publication switches over a tree with subtrees; all transitions are replayed on a real tree manager, and after every request TLC compares the last messages with the tree (PublishTrace)",
      "Two places for a leaf or one of two subtree files in the model; random histories of all edit requests with subtrees nested three deep. Messages are judged when a request has been answered and the tick loop sleeps or has ended.")
check("C29", "TLA+ (BTExtract): TLC explores every small tree with wires and every request for a part of it; the requests are sent to real managers and, with random ones to edited, shipped and running trees, judged by TLC (ExtractTrace)",
      "Trees of up to four nodes and two wires in the model (requests sampled within a time budget); random histories over all shipped trees. Names of the answered trees are not judged.")
check("C30", "TLA+ (BTReport): TLC explores what the nodes of a tree may do while diagnostics and log levels are switched; walks covering its transitions are executed by real nodes with and without debug manager and, with random trees of shipped nodes and histories of commands, judged by TLC (ReportTrace)",
      "Three nodes in the model; operations nest two deep. One thread; log messages of the shipped nodes are judged by level and sender only.")
check("C31", "TLA+ (BTServer): TLC explores starts and histories of requests to the services of the node; walks covering its transitions are sent to the services of the real main function and, with random histories, judged by TLC (ServerTrace)",
      "109k transitions in the model (sampled within a time budget); random histories over all services but the package ones. ROS itself is replaced by services and topics that are kept by name with their quality of service; one request at a time.")
