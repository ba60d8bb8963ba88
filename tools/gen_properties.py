#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
B = "ros_bt_py/ros_bt_py/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=[B + f for f in files],
            state=[dict(name=a, meaning=b, where=B + c) for a, b, c in state],
            mechanism=[dict(name=a, where=B + b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Node lifecycle protocol",
 """A node runs its setup code only when it is uninitialized or shut down, and its tick, untick and reset code only when it is neither
 uninitialized, shut down nor broken; a call made in another state returns an error, does not run node code and does not change the state.
 A successful setup or reset leaves the node idle, a successful tick leaves it running, succeeded, failed, assigned or unassigned,
 a successful untick leaves it idle or paused, a successful shutdown leaves it shut down, and a call whose result is none of these reports an error.
 An error in node code or an input without a value makes the node broken and is returned to the caller; only shutdown then leads out of that state.""",
 ["histories", "fault_sequences", "programs"],
 """For every sequence of setup/tick/untick/reset/shutdown calls on every tree, and every result or error the node code produces at each call.""",
 """The tests that run never call the lifecycle of a node; a unit test fixes one call order and one result, while the claim is about every history with errors at any point.""",
 ["node.py"], [("setup/tick/untick/reset/shutdown guards", "node.py")],
 [("state", "lifecycle state of a node", "node.py")], ["Node.setup/tick/untick/reset/shutdown return values", "Node.state"])

prop("C02", "Sequence and fallback evaluation order, result and memory",
 """A sequence ticks its children in order until one does not succeed and returns that child's result, or success when all succeed or there are none; a fallback
 does the same with success and failure exchanged. On a terminal result the children after the deciding one are unticked, and the first tick after a terminal result resets every child before ticking.
 The memory variants additionally start at the child that was last running instead of the first one, until the node is reset or has returned a result (the memory sequence also forgets on untick).""",
 ["histories", "programs", "inputs"],
 """For every nesting of these nodes, every number of children, every outcome of every child at every tick, and every interleaving of ticks, unticks, resets and restarts.""",
 """The repository's flow-control tests need a running ROS graph and fix a single tree and two or three ticks each; the claim ranges over all child outcomes across all histories.""",
 ["nodes/sequence.py", "nodes/fallback.py"], [("child loops", "nodes/sequence.py"), ("child loops", "nodes/fallback.py")],
 [("last_running_child", "index remembered by the memory variants", "nodes/sequence.py")], ["child call order", "returned states"])

prop("C03", "Parallel nodes decide by their thresholds and never re-tick finished children",
 """In each tick a parallel node ticks exactly the children that have no result yet, in order, and then succeeds if at least the needed number have succeeded, otherwise fails if more than the
 tolerated number have failed (for the plain variant: if the needed number can no longer be reached), otherwise keeps running.
 When it returns a result it unticks every child without a result, and the next tick resets all children first.
 Setting it up with more needed successes than children is an error.""",
 ["histories", "inputs", "configurations"],
 """For every number of children, threshold and tolerance, every outcome of every child at every tick, and every interleaving with untick, reset and restart.""",
 """A test samples one threshold and one outcome vector; correctness is about all of them over several rounds, including restarts after a result.""",
 ["nodes/parallel.py"], [("success/failure counting", "nodes/parallel.py")], (), ["child call order", "returned states"])

prop("C04", "Switch nodes run exactly the selected branch",
 """A switch ticks only the child selected by its current input value and returns that child's result, after unticking every other child; if no child matches the value it returns failed.
 After any tick of a switch no child other than the selected one is running, even when the selection changes while a child is running or matches nothing.
 The first tick after a result resets all children.""",
 ["histories", "inputs"],
 """For every sequence of selector values (matching, non-matching, changing while running), every child outcome, and untick/reset in between.""",
 """The only test of a switch ticks it once with an unmatched name; selection changes while a child is running are a multi-step history.""",
 ["nodes/fallback.py", "ros_nodes/enum_switch.py"], [("child map and untick of the others", "nodes/fallback.py"), ("child map", "ros_nodes/enum_switch.py")],
 (), ["child call order", "returned states"])

prop("C05", "Decorators map results and count repetitions exactly",
 """The ignore-failure, ignore-success, ignore-running, invert and until-success decorators return exactly their documented image of the child's result.
 Retry tolerates exactly its number of failures and Repeat its number of successes before reporting the terminal result, reporting running and resetting the child in between; counts survive an untick and are cleared
 by a reset, except that the no-auto-reset repeat only restarts on its reset input. The repeat-always, repeat-until-fail and repeat-if-fail decorators reset the child after each swallowed result, Optional runs
 its child only if the child can execute at setup, Watch unticks the child when the watched value changed, and list iteration feeds each element in order, advancing once per child success.""",
 ["histories", "inputs", "configurations"],
 """For every child outcome sequence, every limit, every interleaving of untick and reset, every list and every change of the inputs.""",
 """One integration test ticks nine decorators three times with constant children; counting errors and lost counters show only in specific histories.""",
 ["nodes/decorators.py", "nodes/list.py"], [("per-decorator tick/reset/untick code", "nodes/decorators.py"), ("iteration counter", "nodes/list.py")],
 [("retry and repeat counters", "results already swallowed", "nodes/decorators.py")], ["child call order", "returned states", "list element output"])

prop("C06", "Nothing keeps running after untick, shutdown or a terminal result",
 """After a node has been unticked no node in its subtree is running; after a flow-control node has returned a result none of its children is running, unless the child itself is the one
 whose running state was translated. After a shutdown call the node code of every node in the subtree has been given its chance to shut down, even if another one failed to,
 and every node whose shutdown did not fail is shut down. No node is ticked more than once, and none outside the ticked subtree, in one tick of the root.""",
 ["histories", "programs", "fault_sequences"],
 """For every tree built from the shipped flow-control nodes and decorators, every history of root calls, every leaf outcome and every leaf error.""",
 """No test that runs builds a tree at all; leftover activity appears only for particular nestings and histories.""",
 ["node.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "nodes/list.py", "ros_nodes/throttle.py", "ros_nodes/enum_switch.py"],
 [("recursive untick and shutdown", "node.py")], (), ["Node.state of every node", "calls reaching the leaves"])

prop("C07", "Reset makes a tree behave as if it had just been set up",
 """After a reset of the root succeeds, every node of the tree that the root had set up is idle, outputs have no value, inputs count as updated, and from then on every further history of calls and
 child outcomes produces the same results as it would right after setup; the only exceptions are the repeat node documented not to reset its count and the throttle, which keeps the result of its interval.
 A shutdown followed by setup has the same effect for every node without exception.""",
 ["histories", "programs"],
 """For every tree, every history before the reset, and every history after it.""",
 """It is a two-history (bisimulation) claim; a test compares one prefix and one suffix.""",
 ["node.py", "nodes/sequence.py", "nodes/fallback.py", "nodes/decorators.py", "nodes/list.py", "ros_nodes/throttle.py", "ros_nodes/wait.py"],
 [("_do_reset of each node type", "node.py")], (), ["Node.state", "subsequent results"])

prop("C08", "Wired data arrives: unchanged, in the same tick, flagged as updated, unshared",
 """When a node finishes a tick, each output it changed is delivered to every input wired to it before any later node is ticked, and nothing else is written;
 an input counts as updated exactly if a changed value (or a reset or setup) reached it since its node last finished a tick.
 Changing a value after handing it over, on either side, never changes the other side.""",
 ["histories", "inputs", "programs"],
 """For every wiring graph (chains, fan-out, self-wiring, wiring against tick order), every value sequence including equal values, and every interleaving of ticks and resets.""",
 """The two data-flow tests push one value through one wire; update flags and aliasing are properties of value histories.""",
 ["data_flow_manager.py", "node.py", "node_config.py", "data_types.py"],
 [("pushing outputs after a tick", "data_flow_manager.py"), ("updated flags", "data_types.py")], (), ["input values and updated flags"])

prop("C09", "A value slot only ever holds values of its declared type and limits",
 """Setting a slot to a value of the wrong type, outside its numeric range, longer than its limit or not among its permitted values is refused with an error and leaves the slot unchanged; an
 accepted value is what is read back. A static slot accepts a value only as long as no value was set in the current phase and keeps it across setup and reset, whereas a dynamic slot has no value after setup until something
 provides one. Slots that refer to another slot follow that slot's chosen type.""",
 ["inputs", "configurations", "histories"],
 """For every slot type with every combination of limits, and every history of set, read, reset and flag operations with valid and invalid values.""",
 """The one test of value slots checks one invalid message; the claim spans the product of types, limits and operation histories.""",
 ["data_types.py", "node_config.py"], [("set_value and type checks", "data_types.py")], (), ["set/get results", "has-value and updated flags"])

prop("C10", "Wirings are accepted only between existing, type-compatible endpoints",
 """A wire request succeeds only if both nodes exist, the source names an output (or public subtree output) and the target an input that may be dynamic, and every value the source's type admits is admitted by the target's type;
 compatibility is reflexive, and compatible slots never produce a delivery error at run time. Unwiring removes exactly the named wires.""",
 ["inputs", "configurations", "histories"],
 """For every pair of slot types with limits and every history of wire and unwire requests.""",
 """No test sends a wire request; compatibility is a relation over pairs of types and limits.""",
 ["tree_edit_manager.py", "data_flow_manager.py", "data_types.py", "node_config.py"], [("is_compatible", "data_types.py"), ("wire_data/unwire_data", "tree_edit_manager.py")],
 (), ["service responses", "published wirings"])

prop("C11", "Types and values survive being written to messages and read back",
 """Writing a slot's type to its message form and reading it back yields a slot with the same kind, limits, nesting and static/dynamic permissions, and writing a value and reading it back yields an equal value.
 A type message that describes no valid type is answered with an error, never an exception.""",
 ["inputs", "configurations"],
 """For every slot type with limits and nesting depth up to the stated bound, and every value of it.""",
 """One negative test exists; fidelity is a universal claim over nested types and values.""",
 ["data_types.py"], [("serialize_type/from_msg/serialize_value/deserialize_value", "data_types.py")], (), ["NodeIO and NodeDataType messages"])

prop("C12", "Tree execution commands obey the documented state machine",
 """Each execution command is accepted only in the states that permit it and is then followed by the documented tree state: ticking once ends waiting for the next tick, ticking until a result ends with the tree unticked and idle (both in the error
 state if the tree reported an error or raised), stop leaves the tree unticked and idle, reset leaves it idle, and shutdown leaves every node shut down and the tree editable again. A refused command changes nothing and
 says so, and in the error state only shutdown is accepted.""",
 ["histories", "fault_sequences"],
 """For every sequence of commands and every outcome or error of the tree at each step, when commands do not overlap.""",
 """No running test issues an execution command; the claim is about all command histories with faults.""",
 ["tree_exec_manager.py"], [("control_execution", "tree_exec_manager.py")], [("tree state", "editable/ticking/stop requested/idle/waiting/error", "tree_exec_manager.py")],
 ["command responses", "tree state messages", "node states"])

prop("C13", "Concurrent commands never start two tick loops or leave the tree stuck",
 """Whatever commands arrive while the tree is ticking and however threads are scheduled, at most one thread is executing the tree at any time, no node is called by two threads at once,
 and a stop or shutdown request is eventually followed by a state in which the tree is not executing and accepts the commands of that state.
 In particular the tree is never reported editable or waiting while a tick is still in progress, never stays in stop-requested without a tick loop, and never returns by itself to an execution state after a shutdown succeeded;
 an exception in node code during a tick ends the tick in the error state.""",
 ["schedules", "histories", "fault_sequences"],
 """For every interleaving of a tick loop with up to three concurrent command or edit callers, every combination of commands and every point at which the tree finishes, errs or raises.""",
 """Unit tests run one thread; the claim is about all schedules.""",
 ["tree_exec_manager.py", "tree_node.py"], [("tick thread, state property and locks", "tree_exec_manager.py")], [("tree state", "shared between the tick loop and command handlers", "tree_exec_manager.py")],
 ["command responses", "tree state after quiescence", "thread executing the tree"])

prop("C14", "A tree cannot be edited unless it is editable",
 """Every request that would change the nodes, wirings, options, name or contents of the tree is refused with an error, and changes nothing, in every tree state except editable; in the editable state it is never refused for that reason.
 """,
 ["histories", "configurations"],
 """For every edit request and every tree state reachable by a command history.""",
 """No test sends an edit request in a non-editable state; the claim is a product of requests and states.""",
 ["tree_edit_manager.py", "tree_exec_manager.py"], [("edit-service guard", "tree_exec_manager.py")], (), ["service responses", "published structure"])

prop("C15", "Every edit history leaves a well-formed tree",
 """After any sequence of edit requests, whether they succeeded or failed, every node has at most one parent and the parent/child links agree in both directions, no node is its own ancestor, no node has more children than it
 allows, node ids are unique, and every wiring connects an existing output to an existing input of nodes in the tree. The published structure describes exactly this tree.""",
 ["histories", "inputs"],
 """For every sequence of add, remove, move, replace, morph, wire, unwire, option, rename and load/clear requests with valid and invalid arguments, on trees of every shape up to the bound.""",
 """The edit tests call one operation on a hand-made broken forest; well-formedness is an invariant over histories.""",
 ["tree_edit_manager.py", "node.py"], [("tree edit services", "tree_edit_manager.py")], (), ["published structure", "service responses"])

prop("C16", "A failed edit changes nothing",
 """If an edit or load request is answered with failure, the tree afterwards has the same nodes, children order, options, names and wirings as before, and a following valid request behaves as if the failed one had never been made.""",
 ["histories", "inputs", "fault_sequences"],
 """For every edit history and every failing request at every point of it.""",
 """No test looks at the tree after a refused edit; the claim covers every failing path of every operation.""",
 ["tree_edit_manager.py", "tree_exec_manager.py"], [("rollback paths", "tree_edit_manager.py")], (), ["published structure", "service responses"])

prop("C17", "A successful edit changes exactly what was requested",
 """A successful add puts a new node with a fresh id, the given name and options at the given position; move and replace change only the named nodes' positions; remove deletes the node, its wirings and, if asked, its descendants;
 morph and option changes keep the node's id, position and children and every wiring whose endpoints still fit; rename changes only the name. Everything not named by the request stays as it was.""",
 ["histories", "inputs"],
 """For every valid request with every argument (including negative indices) on every tree up to the bound.""",
 """No test checks what an edit leaves untouched (the frame), which is a claim about the whole tree.""",
 ["tree_edit_manager.py", "node.py"], [("tree edit services", "tree_edit_manager.py")], (), ["published structure", "service responses"])

prop("C18", "Saving and loading a tree reproduces it",
 """Loading the published structure of a tree, or a file it was saved to, yields a tree with the same nodes in the same positions, the same types, names, options, wirings and public data, and the same behaviour.
 Loading replaces the previous tree completely.""",
 ["inputs", "programs"],
 """For every tree up to the bound, loaded into an empty or non-empty manager.""",
 """No test loads a tree; the round trip is a claim over all trees.""",
 ["tree_exec_manager.py", "tree_edit_manager.py", "package_manager.py", "node.py"], [("load_tree/save_tree", "tree_exec_manager.py")], (), ["published structure", "tree file"])

prop("C19", "Any tree file or tree message is answered, never hangs or crashes the server",
 """A load request with any tree message or any file content, including empty, unparsable, wrongly typed or inconsistent ones, is answered in bounded time with success or an error message and never raises;
 a tree that has no nodes or contains dangling or repeated child references, a node under two parents or a cycle is refused.""",
 ["inputs", "fault_sequences"],
 """For every tree message and every file content obtainable from valid ones by the listed corruptions.""",
 """No test loads a malformed tree; the claim is about all inputs.""",
 ["tree_exec_manager.py", "tree_edit_manager.py", "migrate_tree_files.py"], [("load_tree_from_file/load_tree", "tree_exec_manager.py")], (), ["service responses"])

prop("C20", "An action node never abandons or duplicates a goal",
 """An action node has at most one outstanding goal at a time, returns running until that goal is accepted and finished, and reports success exactly when the goal succeeded; a rejected, aborted, cancelled or timed-out goal is reported as failed.
Whenever the node is unticked, reset, shut down, times out or receives a changed goal while its goal is running, that goal is cancelled before another is sent; a goal given up before the server accepted it is cancelled as soon as it is accepted. No result or feedback received for a replaced goal is reported for its successor.""",
 ["schedules", "histories", "fault_sequences"],
 """For every order of ticks, unticks, resets, input changes and server replies (acceptance, rejection, feedback, result, cancel confirmation, silence until timeout).""",
 """The action tests need a live action server and are not run; the claim is about all interleavings with the server.""",
 ["ros_nodes/action.py"], [("goal state machine", "ros_nodes/action.py")], (), ["calls on the action client", "returned states"])

prop("C21", "A service node reports exactly the reply to its latest request",
 """A service node sends one request per execution, returns running until the reply to that request arrives, then reports it and its data; it fails on timeout.
After an untick, reset or changed input the outcome of an earlier request is never reported, and waiting for a service succeeds exactly when a tick finds it available and fails once it was unavailable for longer than allowed.""",
 ["schedules", "histories", "fault_sequences"],
 """For every order of ticks, unticks, resets, input changes, replies, errors and clock values.""",
 """The service tests need a live service and are not run; late replies and timeouts are schedule-dependent.""",
 ["ros_nodes/service.py"], [("pending call handling", "ros_nodes/service.py")], (), ["calls on the service client", "returned states"])

prop("C22", "Topic nodes deliver the latest message once and follow their inputs",
 """A subscriber node returns running until a message has arrived since its last success and then outputs the latest one exactly once; the memory variant keeps outputting it until it is older than its delay and then fails; a
publisher publishes every new value of its input exactly once. Changing the topic name or quality-of-service inputs, a reset or a shutdown drops the old subscription or publisher and any message received through it, even one that is delivered late; at most one exists at any time and it has the name and quality of service the inputs ask for.""",
 ["schedules", "histories", "inputs"],
 """For every order of ticks, unticks, resets, message arrivals, input changes and clock values.""",
 """The topic tests need a live ROS graph and are not run; lost, stale or repeated messages depend on the arrival order.""",
 ["ros_nodes/topic.py"], [("message slot and subscription handling", "ros_nodes/topic.py")], (), ["subscriptions created and destroyed", "output messages", "returned states"])

prop("C23", "Waiting and throttling respect the clock",
 """A wait node is running exactly until its duration has passed since its first tick after setup or reset, across unticks; a throttle ticks its child only when no result was obtained within the interval and
 otherwise returns the last result; a success throttle lets the child succeed at most once per interval and reports failed in between, forwarding running.""",
 ["histories", "inputs", "schedules"],
 """For every sequence of clock values, tick, untick and reset calls and child outcomes.""",
 """No test that runs uses a clock; the claim is about all timings.""",
 ["ros_nodes/wait.py", "ros_nodes/throttle.py"], [("time comparisons", "ros_nodes/throttle.py")], (), ["returned states", "child calls"])

prop("C24", "Utility bounds are those of the cheapest and dearest possible execution",
 """The bounds a sequence, fallback or parallel (with or without memory or tolerance) reports are exactly the minimum and maximum cost over all ways in which its children can lead it to success or failure, unbounded where a contributing child is unbounded, and a node
 reports that it cannot execute if a child it depends on cannot. Lower bounds never exceed upper bounds when that holds for the children.""",
 ["inputs", "programs"],
 """For every tree of sequences, fallbacks and parallels and every assignment of child bounds up to the bound.""",
 """No test that runs computes a utility; the formula must agree with an enumeration of executions for every tree.""",
 ["nodes/sequence.py", "nodes/fallback.py", "nodes/parallel.py", "nodes/decorators.py", "node.py"], [("calculate_utility_*", "nodes/sequence.py")], (), ["calculate_utility results"])

prop("C25", "Stored trees are never overwritten, renamed or misplaced against the request",
 """Saving a tree never replaces an existing file unless overwriting was allowed, renames to an unused name when renaming was requested, and reports the path it wrote; a file written is the requested tree.
 Saves go only into the storage folders the user configured, and never outside of them whatever file name is given. A listing of a storage folder shows exactly the files and folders in it.""",
 ["inputs", "histories", "configurations"],
 """For every sequence of save requests with every combination of overwrite/rename flags, names (including separators and parent references) and pre-existing files.""",
 """The storage tests cover listing only; overwriting and naming depend on the history of saves.""",
 ["package_manager.py"], [("save_tree", "package_manager.py")], (), ["files on disk", "service responses"])

prop("C26", "A subtree behaves like an inlined tree; only declared data crosses its border",
 """Ticking, unticking, resetting or shutting down a subtree node does the same to the tree it wraps and returns that tree's result; the data of its marked inputs and outputs, and nothing else, crosses the border, in the same tick.
 A subtree that cannot be loaded is reported as an error and does not affect the surrounding tree.""",
 ["histories", "programs", "inputs"],
 """For every inner tree up to the bound, every history of outer calls, every inner outcome and every data sequence.""",
 """Subtree tests need a running server and fix one file; equivalence with inlining is a claim over all inner trees and histories.""",
 ["ros_nodes/subtree.py", "tree_exec_manager.py", "data_flow_manager.py"], [("inner tree manager", "ros_nodes/subtree.py")], (), ["returned states", "subtree outputs"])

prop("C27", "Published tree information matches the tree",
 """After every execution or edit request (successful or refused), every tick and every change of what is published, the last published structure message describes exactly the tree as it is (nodes, names, children, wires, root), and the
 last published state message its state and the states of exactly its nodes. While data are published, a tick publishes for every wire the source's value and whether the target has it, and when they are switched off an empty message
 replaces them. The trees in subtree nodes are described in the same way (structure as soon as they are there, states once they were set up, data as of their last tick) exactly while their publication is switched on, at every nesting
 level, and stop being described when their node is removed, morphed or given another file.""",
 ["histories", "configurations"],
 """For every history of edits, commands, nested tree registrations and publication switches.""",
 """The nested-tree tests check single calls; agreement with the tree is an invariant over histories.""",
 ["tree_exec_manager.py", "tree_edit_manager.py", "subtree_manager.py"], [("publish_structure/publish_state/publish_data", "tree_exec_manager.py"), ("publication flags", "subtree_manager.py")], (), ["published messages"])

prop("C28", "Data nodes compute exactly the documented function of their inputs",
 """Comparison, arithmetic, conversion, list, dictionary, attribute, formatting, constant and pass-through nodes return success, failure or running and write outputs exactly as documented for their current inputs, including when a
 value is unchanged since the last tick; an input for which the operation is undefined gives failure or an error, never an exception, and inputs are never modified.""",
 ["inputs", "histories"],
 """For every data node type, every combination of small input values, and every history of value changes between ticks.""",
 """The tests of these nodes need a running server and fix one value each; the claim is about all inputs and update histories.""",
 ["nodes/compare.py", "nodes/maths.py", "nodes/list.py", "nodes/getters.py", "nodes/setters.py", "nodes/format.py", "nodes/constant.py", "nodes/io.py", "nodes/passthrough_node.py", "ros_nodes/enum.py", "ros_nodes/message_converters.py", "ros_nodes/param.py", "ros_nodes/time.py"],
 [("_do_tick of each node", "nodes/compare.py")], (), ["returned states", "outputs"])

prop("C29", "Taking a part out of a tree yields exactly that part as a tree of its own",
 """Asking for the subtree of a node answers the node and all its descendants as they are in the tree, exactly the wires among them, and as public inputs and outputs the ends of the wires that cross its border. Generating a subtree from
 a list of nodes answers these nodes and their parents, with the wires among them and their public data, provided that they form one tree, and is refused otherwise; ids of no node count for nothing. What is answered can be loaded as a
 tree by itself and then is the same tree, an unknown node is answered with an error, and asking never changes the tree, in any tree state.""",
 ["inputs", "histories", "programs"],
 """For every tree with every wiring and public data, every node and set of nodes, after every history of edits and commands.""",
 """No test asks for a part of a tree with wires; the claim is about all trees and parts, and about what the request leaves alone.""",
 ["tree_edit_manager.py", "node.py"], [("get_subtree/generate_subtree", "tree_edit_manager.py"), ("get_subtree_msg", "node.py")], (), ["service responses", "published structure"])

prop("C30", "Diagnostics, status and log messages tell what happens and never change it",
 """While the collection of node diagnostics is on, every setup, tick, untick, reset and shutdown of a node is announced by one message before the node does it and, unless it raises, followed by one message after it, both with the node's name, id,
class, module, path from the root and phase; nothing is sent while it is off, and switching it at any moment, also in the middle of an operation, never changes what the nodes do and answer.
The status published for diagnostics is OK while the tree is in the ticking state, an error in the error state and a warning in every other, under the name of the loaded tree (its root's name if it has none).
A log message is published, once and with its level, text, node, tree and place in the code, exactly if its level is at least the minimum level, which is one for all trees, and it is not internal.""",
 ["inputs", "histories", "programs"],
 """For every tree, history of operations with results, errors and exceptions, every moment at which the collection or the minimum level is switched, and every sequence of loads, renamings and commands.""",
 """No test looks at any of these messages; the claim is about every nesting of operations and every moment of switching.""",
 ["debug_manager.py", "logging_manager.py", "tree_exec_manager.py", "node.py"], [("report_state/report_tick", "debug_manager.py"), ("diagnostic_callback/set_diagnostics_name", "tree_exec_manager.py"), ("log/set_min_log_level", "logging_manager.py")], (), ["node diagnostics messages", "diagnostics status", "log messages"])

prop("C31", "The ROS node serves every operation, informs late subscribers, starts as told",
 """Every documented service, of the documented name and type, performs its operation on the one tree of the node, and with the answer the tree is in exactly the state, and the messages are published, that the operation promises.
A subscriber that arrives at any later time gets the current structure, state, data, list of nested trees and message types by the latched topics; the list of ROS channels names every topic, service and action with its type.
When started, the node loads the configured default tree, if any, and executes the configured command with the configured frequency only if loading worked; otherwise it serves an empty tree that can be edited.
Execution commands are taken up while other requests are being served. When the node is shut down, a tree that is executed is stopped and shut down.""",
 ["inputs", "histories", "programs"],
 """For every start parameter, every history of requests to all services, and every moment at which a subscriber arrives.""",
 """The tests call the manager's methods directly, never the services by their names; the claim is about every service after every history, and about late subscribers.""",
 ["tree_node.py", "ros_helpers.py", "package_manager.py", "tree_edit_manager.py", "tree_exec_manager.py"], [("TreeNode", "tree_node.py"), ("publish_message_channels", "ros_helpers.py"), ("publish_message_list", "package_manager.py")], (), ["service names, types and responses", "latched topics", "tree state after start"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
