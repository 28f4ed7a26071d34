#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                     observe_at=observe,hook_needed=hook)))
C="node_tree_core/src/"
NB,NT,NS=C+"structs/node_base.rs",C+"structs/node_tree_base.rs",C+"structs/node_scene.rs"
TP,SG,LG,NP=C+"structs/tree_pointer.rs",C+"structs/signals.rs",C+"structs/logger.rs",C+"structs/node_path.rs"
RD,TO,TR,NF=C+"structs/rid.rs",C+"structs/tree_option.rs",C+"structs/tree_result.rs",C+"structs/node_field.rs"
EX,GX,FN,NR=C+"traits/exportable.rs",C+"traits/glam_exportables.rs",C+"utils/functions.rs",C+"services/node_registry.rs"
DL,DP,DG="node_tree_derive/src/lib.rs","node_tree_derive/src/parser.rs","node_tree_derive/src/generator.rs"
T5="The tests build a handful of fixed trees and never edit them re-entrantly; the guarantee is over every interleaving of edits with hooks."

p("P01","The registered nodes always form one consistent rooted tree",
 "At every moment user code can run (between API calls and inside every hook), the registered nodes form exactly one tree: the root has no parent and ID 0, and every other node is listed exactly once, in exactly one children list, namely its parent's, in the order the children were added. A node's depth is its parent's depth plus one, each node has its own unique ID, and no children list, parent or lookup refers to a node that is no longer registered. Editing one part of the tree leaves the order and links of all other nodes unchanged.",
 ["histories","programs"],"every history of add/remove/free/rename/load operations, issued from outside or from inside any hook (ready, loaded, process, terminal), for trees of any shape",
 T5,[NB,NT,NS],[("add_child / add_child_from_ptr",NB),("remove_child, free",NB),("initialize, register_node, unregister_node",NT)],
 ["children()","parent_dyn()","depth()","rid()","top_down()","get_node()"],
 [dict(name="children/parent/depth",meaning="tree links of a node",where=NB),dict(name="nodes",meaning="registry by ID",where=NT)])
p("P02","Sibling names are always pairwise distinct",
 "Children of one parent always have pairwise distinct names, whatever names were requested through add, scene instancing or rename. A requested name no sibling carries is kept exactly as requested; a taken name is replaced by the requested name without its trailing decimal digits followed by the smallest number, not below the digits it had (or 0, where the bare name counts as number 0), whose name is free (digit runs of 20 or more may count as part of the name). Choosing a name never fails or crashes, for any string, and renaming a node to the name it already has changes nothing.",
 ["inputs","histories"],"every requested string (empty, non-ASCII, all digits, huge digit runs) against every set of sibling names reachable by adding, removing and renaming",
 "The tests only add 'N_Node' three times in a row; gaps, prefixes, removals, renames and non-ASCII names are never tried.",
 [FN,NB],[("ensure_unique_name",FN),("set_name, add_child_from_ptr",NB)],["name()","children()"])
p("P03","Every node's owner is the root of the scene it came from",
 "A node added on its own has the owner of the node it was added to; for an added scene, the scene's root and every sub-scene root marked as owner own themselves, and every other node takes the owner of its parent at the time it is added. The tree's root owns itself. A node's owner never changes while it stays in the tree, whatever is renamed, added or removed elsewhere.",
 ["inputs","histories"],"every nesting of scenes and owner marks, and every later history of edits",
 "Tests compare two structural hashes; no test reads owner() of any node.",
 [NB,NT,NS],[("add_child_from_ptr owner assignment",NB),("iterate, append, append_as_owner",NS),("initialize",NT)],["owner_dyn()","is_owner()"])
p("P04","Loaded and ready run once per node, after its whole scene is in place",
 "Each node that enters a tree gets its ready hook exactly once, after every node of the scene it was added with is present in the tree and after the ready hooks of all its descendants and later siblings from that scene; a node freed before its turn gets none. A node that came from a saved document additionally gets its loaded hook exactly once, immediately before its ready hook, while it reports itself as just loaded; nodes not loaded from a document, and branch copies, never get it. The same order applies whether the scene starts the tree or is added later, from outside or inside another hook.",
 ["histories","inputs"],"every scene shape, load source and nesting of additions and removals inside ready/loaded hooks",
 "Tests never record the order or number of ready/loaded calls and never load a scene with a loaded hook.",
 [NB,NT,NS],[("initialize ready loop",NT),("add_child ready loop",NB),("iterate marks nodes from disk",NS)],["ready hook","loaded hook","has_just_loaded()"])
p("P05","A frame visits each active node once, parents before children",
 "One process call runs the process hook of every node that is eligible at its visit exactly once, in depth-first pre-order following each children list as it is when the parent's own hook has finished. Nodes that left the tree before their turn are skipped and nothing else is skipped; nodes added below a node by its own hook are visited in that frame, while a node added to an already captured children list waits for the next frame. All hooks of one frame receive the same delta, the seconds elapsed since the previous process call (or tree creation).",
 ["histories","programs"],"every tree and every set of edits made by process hooks during the frame",
 "Tests look at final effects of a fixed tree; no test checks visit order, visit counts under mid-frame edits, or the delta.",
 [NT],[("process, process_tail",NT)],["process hook","process() return"])
p("P06","Process modes and pausing decide exactly which nodes run",
 "A node whose mode is Always runs every frame, Pausable only while the tree is not paused, Inverse only while it is paused, and Inherit behaves like the resolved mode of its parent at this frame, the root's Inherit meaning Pausable. Pausing and unpausing take effect for every node visited afterwards, also within the same frame, and pausing never skips the visit of a node's children nor changes any tree link. Pausing does not cancel a queued termination, and a terminating or terminated tree cannot be paused or revived.",
 ["histories","configurations"],"every assignment and change of modes, and every interleaving of pause/unpause/queue/terminate with node visits",
 "No test uses any mode other than the default, nor pauses a tree.",
 [NT],[("process_tail mode resolution",NT),("pause, unpause",NT)],["process hook","process() return"])
p("P07","Termination is a one-way sequence with one final terminal pass",
 "After termination is queued, the current (or next) frame completes normally, the following frame calls the terminal hook with reason TreeExit once on every node still in the tree instead of processing, and the tree then reports terminated forever. Terminating immediately (by request, by a logged panic, or by freeing the root) ends the tree at once: no further process or TreeExit hook runs, including for the rest of the current frame. Status values returned by process follow this sequence exactly, queueing again changes nothing, and processing a terminated tree has no effect.",
 ["histories"],"every point (before, during or between frames, in any hook) at which queue or terminate is called, in any combination",
 "Tests loop until inactive and assert nothing about the frame count, hook reasons or intermediate statuses.",
 [NT,NB,LG],[("process, queue_termination, terminate",NT),("free of root",NB),("post panic",LG)],["process() return","terminal hook"])
p("P08","Freeing or removing a node takes out its whole subtree and nothing else",
 "Freeing a node or removing a child calls the terminal hook of every node in that subtree exactly once, level by level from the top, with reason Freed or RemovedAsChild, while the whole subtree is still in the tree and usable; afterwards none of those nodes can be found, and all other nodes are unchanged. Removing a name no child has changes nothing but a warning and reports false. A node may free itself, an ancestor or any other node from its process, ready or terminal hook, or add nodes there, without any hook ever running on a removed node, any node being told twice, or any crash: a terminal hook may remove a branch around or inside the one being removed, and nodes it adds to the branch being removed are told and removed with it.",
 ["histories","programs"],"every subtree, every hook from which it is freed or removed, and every edit its terminal hooks make to the branch and to other parts of the tree",
 "One test frees leaf nodes; subtrees with children, self-free in hooks with later visits, remove_child and terminal reasons are untested.",
 [NB,NT],[("free, remove_child",NB),("unregister_node",NT),("process_tail",NT)],["terminal hook","children()","Tp::is_valid"])
p("P09","A tree pointer refers to its node exactly as long as that node lives",
 "A pointer obtained to a node gives access to that very node until the node leaves the tree and is null forever after, even if other nodes are added later. Creating, converting or dereferencing a pointer succeeds exactly when the node is present and of the requested type, and otherwise reports the matching error (null or wrong type) without changing the tree, or, for the panicking accessors, posts a panic to the log of the tree and panics. Child, parent, owner, self and root accessors always give pointers to the right node, and an out-of-range child index or a missing parent is an error.",
 ["histories","inputs"],"every history of frees and additions between creating and using a pointer, for every pair of actual and requested types",
 "One test dereferences one null pointer; ID reuse after frees, type mismatches and held pointers are untested.",
 [TP,NB,RD],[("Tp::new, TpDyn::new, try_get, is_valid, to_dyn, to",TP),("get_child, parent, owner, this",NB),("push/take",RD)],["Tp","TpDyn"])
p("P10","Node paths parse, print and resolve consistently",
 "A path string splits at slashes, empty segments are ignored, a leading slash makes it absolute, '.' means the node itself and '..' its parent; printing a path gives a string that parses back to an equal path, for every path, including empty and absolute ones, whose names contain no slash. Resolving a relative path from a node follows the segments from that node, resolving an absolute path starts at the root's name regardless of the caller, and resolution yields exactly the node so reached or an error if any step does not exist. The absolute path reported for a node resolves back to that same node, as long as the names on it are plain (not empty, no slash, not '.' or '..').",
 ["inputs","histories"],"every segment sequence, from every node of every tree, before and after edits and renames",
 "One test resolves seven fixed paths in one tree; printing, empty paths, failures and absolute-path inversion are untested.",
 [NP,NB],[("from_str, to_string, scan, add_node",NP),("get_node_raw, get_absolute_path, get_node",NB)],["get_node()","get_absolute_path()","NodePath"])
p("P11","A singleton name finds exactly the node that currently holds it",
 "Registering a node under a name succeeds exactly when no node in the tree currently holds that name, and then looking the name up from any node gives that node; a failed registration changes nothing. A node holds at most one name, the latest registered, and its previous name becomes free again; when a node leaves the tree its name becomes free and finds nothing. The node's identity always reports the same name the lookup uses.",
 ["histories"],"every history of registrations, re-registrations, frees and removals",
 "One test registers one name once and looks it up.",
 [NT,NB],[("register_as_singleton, unregister_node",NT),("NodeGetter for String",NT)],["get_node(&str)","get_node_identity()"])
p("P12","Emitting a signal calls each live connection exactly once",
 "Emitting a signal calls every connection present when the emission starts exactly once with the emitted value, except those disconnected before their turn; connections made during the emission wait for the next one. A one-shot connection is called at most once ever and is gone once it has been called, other connections stay until disconnected, and disconnecting reports whether the connection existed; connection IDs are never confused with one another. Callbacks may freely emit, connect and disconnect on the same signal, and add and remove nodes (also the one whose signal it is); a connected function of a node that has been removed is never called, since the pointer it is reached by is null, which fails as any use of such a pointer does. Copies of a signal start without connections.",
 ["histories","programs"],"every set of connections and every nesting of emit/connect/disconnect calls made by callbacks",
 "One test connects one listener and emits a counter.",
 [SG,RD,DL],[("connect, connect_once, emit, disconnect",SG)],["callbacks","disconnect() return"])
p("P13","The log records exactly the permitted messages, in order, correctly labelled",
 "The log contains, in posting order, exactly the messages whose level the verbosity admits (all; all but debug; warnings and panics; panics only), one line each with UTC time, origin, level and text. The origin of a node's message is its singleton name if it has one and otherwise its current absolute path without the leading slash. A message never changes the tree except that a warning or panic marks its node's status and a panic terminates the tree at once, at every verbosity.",
 ["inputs","histories","configurations"],"every verbosity, message and posting node, at every moment including inside terminal hooks of nodes being removed",
 "A test counts the lines of one log; filtering, labels and the effect of panics at each verbosity are untested.",
 [LG,NB,NT],[("Logger::post, post_manual",LG),("NodeBase::post",NB)],["get_log()"])
p("P14","Node statuses last one frame and the crash report reflects them",
 "A warning or panic sets the status of exactly the posting node to that message, at every verbosity, until another warning or panic replaces it or the next frame starts, when all statuses return to normal. A panic's crash report shows the configured header and footer, the tree around the failing node from up to six levels above it, drawn with every child under its parent in order and nodes deeper than the shown range elided, followed by exactly the warnings and panics of the nodes drawn (an elided node that is drawn as dots still counts as drawn).",
 ["histories","configurations"],"every tree, status assignment, panicking node and configured header/footer",
 "No test reads a node status or any part of the crash report.",
 [LG,FN,NB,NT],[("draw_tree",FN),("post crash report",LG),("process resets statuses",NT)],["status()","get_log()"])
p("P15","Saving a scene and loading it back reproduces the scene",
 "For every scene, saving to a document or file and loading it again yields a scene with the same shape, child order, node names, node types, owner marks and structural hash, and every exported field has the value it had when saved. Saving does not alter the scene, and adding the loaded scene to a tree gives the same nodes as adding the original.",
 ["inputs"],"every scene shape (including equal names in different branches and names with any characters), owner marking and exported value",
 "Two fixed scenes are saved and compared by structural hash only; names, values, order and repeated names are not compared.",
 [NS,NR,DL],[("save_to_str, load_from_str, update_internal",NS),("deserialize",NR),("load_from_owned/save_from_owned",DL)],["NodeScene","structural_hash()","children()"])
p("P16","Scene copies and saved branches equal their source and share nothing with it",
 "Cloning a scene, or saving a branch of a live tree, gives a scene with the same shape, order, names, types, owner marks and kept field values as the source at that moment, and later changes to either side never affect the other. The structural hash of two scenes is equal exactly when shape, node types and owner marks agree, and ignores names and fields. Appending a scene marks its root as non-owner or owner as requested and leaves the rest of both scenes as it was.",
 ["inputs","histories"],"every scene or live branch and every later edit of source or copy",
 "One test compares the hash of one saved branch; independence, names and ownership are untested.",
 [NS,NB],[("Clone for NodeScene, structural_hash, append",NS),("save_as_branch",NB)],["NodeScene","save_as_branch()"])
p("P17","Each field kind keeps or resets its value exactly as declared",
 "Copying a node keeps plain, exported and default-kind field values and empties unique ones; loading a node from a document restores exported fields, resets default-kind fields to their default, and leaves plain and unique fields void, which report themselves as uninitialised until assigned. Assigned values read back unchanged, and mutating access, taking and replacing act on exactly that field of that node.",
 ["inputs","histories"],"every sequence of copy, save, load, assign, take and mutate over every field kind",
 "A test writes one node of each kind and compares a hash; values after copy/load are not compared.",
 [NF,DL,NR],[("Field, UniqueField, DefaultField, ExportableField",NF),("class! fields",DL)],["field deref","is_void"])
p("P18","Every exportable value survives being written and read back",
 "For every supported type and every value of it, converting to a document value, printing, parsing and converting back gives an equal value (NaN to NaN; durations up to 52 days; paths that are Unicode). A document value of the wrong kind, size or range for the type is refused rather than misread or crashing.",
 ["inputs"],"every value of every supported scalar, string, path, address, time, container, wrapper, array and tuple type, nested arbitrarily",
 "The save test stores two small values of two types.",
 [EX],[("Exportable impls",EX)],["to_value()/from_value()"])
p("P19","ID holders never confuse two items",
 "An ID holder behaves as a map from IDs to items: inserting returns an ID no item ever had before in this holder and changes no other entry, retrieving and modifying reach exactly the item stored under the ID, and taking removes exactly that item and returns it once. A holder built from a list stores each item under its position and later insertions never collide with them. Length, emptiness and iteration always agree with the stored items.",
 ["histories"],"every sequence of insert, take, modify and lookup, from an empty holder or from a list of any length",
 "No test touches the holder directly.",
 [RD],[("push, take, from_vec",RD)],["RIDHolder"])
p("P20","Tree options and results behave like the standard ones",
 "Every combinator and accessor of the tree option and tree result gives the value the corresponding standard Option or Result method gives for the same content, calls the supplied closures exactly when and as often as the standard one does, and never changes the tree. The panicking accessors return the content when present, and otherwise post exactly one panic with the message on the owning node's log (terminating the tree) and panic; they stay safe if that node is gone.",
 ["inputs"],"every method, content and argument combination",
 "A test unwraps one failing result; the roughly eighty combinators are otherwise untested.",
 [TO,TR],[("combinators, fail",TO),("combinators, fail",TR)],["TreeOption","TreeResult"])
p("P21","A malformed scene document is refused with an error",
 "Loading any text or file either yields a scene or returns an error; it never crashes, hangs, or yields a scene with nodes lost, attached to another parent than declared, or fields misread. Missing metadata, unknown types, missing or ill-typed fields, children before their parents, duplicate or malformed keys, an empty document, a wrong file extension and an unreadable file are all errors.",
 ["inputs"],"every document obtained by damaging a valid one, and every file name",
 "No test loads a damaged document.",
 [NS,NR,EX,DL],[("load_from_str, load",NS),("deserialize",NR)],["NodeScene::load_from_str","NodeScene::load"])
p("P22","Dynamic pointers cast to exactly the traits a node's class extends",
 "Casting a dynamic pointer to a trait succeeds exactly when the node is alive and its class was declared to extend that trait, and then reaches that very node's implementation, for shared and mutable casts alike. Asking whether a pointer can be cast, or is of a class, gives the same answer as trying.",
 ["inputs","histories"],"every class/trait combination and every node, alive or freed",
 "One test casts three live nodes to a trait they all have; failures, freed nodes and the query are untested.",
 [TP,DL],[("cast, cast_mut, is_of, is",TP),("class! extends",DL)],["TpDyn::cast","TpDyn::is_of"])
p("P23","Every glam value survives being written and read back",
 "With the glam feature, every vector, quaternion, matrix and affine value converts to a document value and back to an equal value, component for component, and a document value with the wrong number or kind of components is refused.",
 ["inputs"],"every glam type and every component value",
 "A test round-trips a few values of a few types.",
 [GX],[("glam Exportable impls",GX)],["to_value()/from_value()"])
p("P24","Traversal and bulk lookups return exactly the live nodes asked for",
 "A top-down traversal of a node lists every node below it (and the node itself if asked) exactly once, level by level, each level in the order of its parents and then of their children. Lookups of several IDs answer position by position for live and unknown IDs, or only the live ones in order for the filtering variants, and mutable lookups refuse duplicate IDs.",
 ["histories","inputs"],"every tree and every list of IDs, including dead and repeated ones",
 "No test calls these directly.",
 [NB,NT],[("top_down",NB),("get_nodes, get_all_valid_nodes, get_nodes_mut",NT)],["top_down()","get_nodes()"])
p("P25","Declared classes, scenes and connections mean what they say",
 "A class declaration yields a node whose new instances carry the declared name, initial and default field values and hooks; a scene expression yields exactly the written shape, order, names, constructor arguments and field settings, with linked scenes copied in. A connection statement connects exactly the named signal to the named function of the pointed-to node, one-shot or lasting as written.",
 ["programs"],"every combination of the declaration, scene and connection syntax forms",
 "The tests use the macros in a few fixed forms and do not compare the resulting scene or field values.",
 [DL,DP,DG],[("class!, connect!",DL),("scene!",DG),("parsers",DP)],["class!","scene!","connect!"])
p("P26","A node outside of any tree says so and refuses whatever needs one",
 "A node which was never added, which is a copy or part of a scene, or which has been removed - even in the middle of one of its own hooks - reports that it is in no tree and is neither root nor owner, keeps its name, type and field values, and takes any new name exactly as given. Pointers, traversals, lookups, additions, removals, saving as a branch, singleton registration and posting on it panic as documented, and change neither it nor any tree.",
 ["histories"],"every history which leaves user code holding such a node, and every operation on it",
 "No test uses a node outside of a tree or after its removal.",
 [NB],[("this, children, get_*, add_*, remove_child, free, save_as_branch, post",NB),("remove_branch",NB)],["in_tree()","set_name()","the panics of the other methods"])
p("P27","A removed node is dropped exactly once, after the last use of it",
 "When a node leaves the tree, it and the values of its fields are dropped exactly once: never before it has left, never while one of its own hooks is still running, and, as long as the tree runs, at the latest when the next frame starts, before any hook of that frame. Nodes which are in the tree are never dropped, nor is anything they hold, whatever is removed around them.",
 ["histories"],"every history of removals from outside and from inside hooks, including a node freeing itself, what is above it or what is below it, and frames after them",
 "No test observes when a node is dropped, and none removes a node which is running.",
 [NB,NT],[("remove_branch",NB),("unregister_node, keep_removed, process",NT)],["Drop of a node's field","fields of a removed node during its own hook"])
p("P28","Trees do not affect one another",
 "Several trees may exist in one process, be used in turns, be used from inside each other's hooks, and be used in several threads at once (each in its own). Whatever is done with one of them - frames, edits, singletons, signals, logs, scenes saved and loaded, termination - is without effect on the others: each tree's nodes, IDs, names, statuses, log and results are just as they would be if it were the only one.",
 ["histories","schedules"],"every interleaving of operations on the trees, nested in hooks or parallel in threads",
 "Each test has a single tree; tests in parallel threads do not look at what happens to the other trees.",
 [NT,NR,LG],[("NodeTreeBase::new, process",NT),("NODE_REGISTRY",NR),("Logger",LG)],["everything observable of each of two trees"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
