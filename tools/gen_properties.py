#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program only so the long texts stay editable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
E = "src/engine.rs"; R = "src/reflect.rs"; PV = "src/parse_val.rs"; M = "src/macros.rs"
C = "src/catalog/collections.rs"; T = "src/catalog/trie.rs"; B = "src/catalog/bitstring.rs"

prop("C01", "From-scratch consistency of every demanded value",
 "Whenever the editor demands an articulation (`force`, `get!`, `force_map`), the value returned equals the one obtained by running the program from scratch, without any cache, on the current content of all cells and thunks. This holds after any sequence of cell creations, `set`s, re-allocations of cells and thunks under the same name (also with another kind of node), and earlier demands, in any order.",
 ["programs", "histories", "inputs"],
 "for every acyclic archivist program that uses names precisely, and every editor history of allocations, sets, re-allocations and demands",
 "Existing tests run a handful of fixed programs with one or two edits each; staleness needs a particular graph shape (diamonds, branch flips, nested allocation, re-allocation) combined with a particular edit/demand order.",
 [E], [("dirtying", "engine.rs dirty_alloc, dirty_pred_observers"), ("cleaning and re-evaluation", "engine.rs clean_comp, ForceDep::clean, loc_produce"), ("edge recording", "engine.rs force, force_map")],
 [("DCG", "memo table of nodes, with cached results, edges and dirty bits", "engine.rs struct DCG")], ["return value of force/get!/force_map"])

prop("C02", "Minimal re-execution: only affected thunks run again",
 "A demand runs a thunk's body only if that body has never completed since the thunk was allocated with its present argument, or something that its last run observed (through the projection it used) or allocated has changed since. In particular a demand without intervening change runs nothing, `set` to an equal value and re-allocation with equal content affect nothing, a thunk whose re-run inputs yield equal values is not re-run, and no body runs twice in one demand. (A thunk that demanded a value cyclically may run again whenever the cycle may have changed.)",
 ["programs", "histories", "inputs"],
 "for every acyclic, precisely named program and every editor history, at every demand",
 "Tests compare result values and almost never count executions; early cutoff must hold for every graph shape and edit, and losing it leaves every value correct.",
 [E], [("early cutoff", "engine.rs clean_comp"), ("change tests", "engine.rs set_, check_cell_change, DCG::thunk"), ("dirty closure", "engine.rs dirty_pred_observers")], None, ["executions of thunk bodies"])

prop("C03", "Demand-driven execution: nothing undemanded ever runs",
 "Allocating a thunk, creating a cell, and `set` run no thunk body at all. A demand runs only bodies of thunks that a from-scratch evaluation of that same demand would also force, in an order in which every body starts only after everything its demander observed before it is up to date.",
 ["programs", "histories", "inputs"],
 "for every acyclic, precisely named program and every editor history, at every editor operation",
 "Tests do not record which bodies run; speculative or out-of-order re-evaluation (e.g. re-running a branch that is no longer taken) leaves the final values right and only shows on branch-flipping histories.",
 [E], [("in-order cleaning", "engine.rs clean_comp"), ("lazy dirtying", "engine.rs dirty_pred_observers")], None, ["executions of thunk bodies"])

prop("C04", "The recorded dependence graph mirrors the last executions",
 "Whenever no thunk is running, each completed thunk's recorded successor edges are exactly the distinct observations and allocations of its last run, in their order (with the purity optimization, edges to pure structural nodes may be missing), and the predecessor edges are exactly the inverse of the successor edges. A thunk with a dirty edge has only dirty observation edges pointing to it, and a thunk without one holds the value that a from-scratch run would give it.",
 ["programs", "histories"],
 "for every precisely named program and every editor history, in every state between two editor operations",
 "No existing test inspects edges after changes; a missing, duplicated or wrongly clean edge only shows as a stale value many edits later.",
 [E, R], [("edge recording and removal", "engine.rs loc_produce, revoke_succs, force"), ("dirty closure", "engine.rs dirty_pred_observers, dirty_alloc"), ("reflection", "reflect.rs and engine.rs reflect_dcg::dcg_reflect_now")],
 [("succs/preds", "labelled edges of each node", "engine.rs CompNode, MutNode")], ["reflect_dcg::dcg_reflect_now"])

prop("C05", "Cells: identity by name, latest write wins, restricted mutation",
 "Creating a cell under a name that the current namespace already holds yields an equal articulation whose content is the new value for everyone who holds the old one, and distinct names (or namespaces) never share content; the same holds when the name held a thunk before. `set` is refused (panic, content unchanged) on articulations that are not cells of the incremental engine and while any thunk is running.",
 ["histories", "inputs"],
 "for every sequence of cell creations, sets, re-creations and demands over any names and namespaces",
 "Tests overwrite one cell once; identity and isolation quantify over all names, orders and kinds of node previously there.",
 [E], [("cell allocation", "engine.rs DCG::cell"), ("mutation", "engine.rs set, set_")], None, ["Art equality", "return value of force"])

prop("C06", "Nominal memoization of thunks",
 "Allocating a thunk under a name that the namespace already holds yields an equal articulation: with an equal argument the cached result is kept and reused (no body runs, no observer is invalidated), with a different argument the next demand reflects the new argument for every holder of the articulation. Different names never share results, even for equal code and argument.",
 ["histories", "programs", "inputs"],
 "for every program and history that re-allocates named thunks, by the editor or from within other thunks",
 "Tests cover a single re-allocation of one thunk; reuse must hold for every allocation context and order, and over-invalidation leaves values right.",
 [E], [("thunk allocation", "engine.rs DCG::thunk NameChoice::Nominal")], None, ["Art equality", "executions of thunk bodies", "return value of force"])

prop("C07", "Nominal firewall: inner allocation keeps changes local",
 "When a re-executed thunk re-allocates the same named cells and thunks, those keep their identity: readers of a re-allocated cell with equal content are not re-executed, and readers of changed content are, no matter whether they hold the articulation from this run or an earlier one. A thunk returning an equal articulation counts as unchanged for its observers even when the articulation's content changed.",
 ["programs", "histories", "inputs"],
 "for every program that allocates nested named cells or thunks during evaluation, and every editor history",
 "Only one existing example exercises nested allocation and only for its final value; the guarantee concerns which bodies run for all nestings and edit orders.",
 [E], [("allocation edges", "engine.rs DCG::cell, DCG::thunk, AllocCell, AllocNominalThunk"), ("dirtying of allocations", "engine.rs dirty_alloc")], None, ["executions of thunk bodies", "return value of force"])

prop("C08", "Projected observations are sound and precise",
 "A thunk that observes a cell only through `force_map` projections is re-executed after a change to the cell exactly if at least one of the projected values differs; combining several projections, or projections with full observation, of the same cell within one thunk never loses a dependence. On thunks and unnamed articulations `force_map` returns the mapped value of a plain `force`, and `force_abs` never misses a change of the mapped value.",
 ["programs", "histories", "inputs"],
 "for every set of projections per thunk and every history of changes to the projected cells",
 "One existing test uses one projection per thunk; combinations of several projections over several edits are not exercised, and both staleness and over-execution depend on them.",
 [E], [("projected edges", "engine.rs force_map, ForceMapDep, check_force_map_dep, force_abs, ForceAbsDep"), ("shared dirty bits", "engine.rs dirty_observe_succs, get_same_succ_mut")], None, ["return value of force_map/force_abs", "executions of thunk bodies"])

prop("C09", "Cycle detection by force_cycle",
 "A demand with a cycle value returns exactly that value if the demanded thunk is currently being evaluated (it transitively demands itself), a plain demand in that situation panics instead of diverging, and in every other case the cycle value is ignored. Programs whose cyclic demands always re-enter the same entry thunk stay from-scratch consistent and terminate under arbitrary edits.",
 ["programs", "histories"],
 "for every cyclic demand graph over named thunks and every history of edits between demands of its entry",
 "One existing unit test covers one fixed graph without any edit.",
 [E], [("cycle test", "engine.rs force, is_in_progress"), ("cleaning in-progress nodes", "engine.rs ForceDep::clean")], None, ["return value of force_cycle", "panics"])

prop("C10", "Ambiguous names are refused instead of confusing types or code",
 "Using one name in one namespace for content of different types, or for thunks with different code or different argument types, never yields a wrongly typed value or the result of the other code: the operation that would need it panics. The panic precedes any change of the content stored under the name.",
 ["histories", "inputs"],
 "for every sequence of allocations and demands that re-uses a name with another result type, argument type or function, in any order",
 "Existing tests never trigger these conflicts; each pair of kinds, types and orders is a separate case and a missing check is undefined behaviour, not a test failure.",
 [E, M], [("result type check", "engine.rs assert_graphnode_res_type, res_node_of_loc"), ("function and argument type check", "engine.rs DCG::thunk, Producer::app_typeid"), ("program points", "macros.rs prog_pt!, thunk!")], None, ["panics", "return value of force"])

prop("C11", "Namespaces scope names, and only names",
 "Names used inside `ns(n, ..)` identify nodes distinct from equal names elsewhere and equal to those of any other entry into the same sequence of namespaces, at any nesting; leaving `ns` restores the enclosing namespace. A thunk's body always runs in the namespace in which the thunk was allocated, whoever demands it and whether it runs first or again during change propagation.",
 ["programs", "histories"],
 "for every nesting of namespaces around allocations and demands, and every history that makes thunks run again from another namespace",
 "Only two examples use ns at all and none re-executes a namespaced allocation from a different namespace.",
 [E], [("path handling", "engine.rs DCG::ns, loc_produce, loc_of_id")], [("path", "current namespace", "engine.rs DCG.path")], ["Art equality", "reflect_dcg::dcg_reflect_now"])

prop("C12", "Structural identity: hash-consing and the purity shortcut",
 "Structurally identified thunks (and cells inside `structural`) are equal articulations exactly if they have the same namespace, code and argument (content); allocating one that exists changes nothing, and inside `structural` explicit names do not influence identity. Omitting dependence edges on pure structural nodes never makes a demanded value stale.",
 ["programs", "histories", "inputs"],
 "for every program that mixes structural and named articulations, and every editor history, with the purity optimization on or off",
 "Existing tests use structural naming in two places without edits.",
 [E], [("structural ids", "engine.rs DCG::thunk NameChoice::Structural, DCG::cell"), ("purity", "engine.rs force (is_pure)"), ("mode", "engine.rs DCG::structural")], None, ["Art equality", "return value of force", "executions of thunk bodies"])

prop("C13", "Names form a free algebra",
 "Two names are equal and select the same cell or thunk exactly if they were built the same way from unit, strings, integers, pairs and forks; `name_fork` yields two names distinct from each other, from their parent and from all names built differently, and `name_fork3`/`name_fork4`/`fork!`/`forko!` yield pairwise distinct ones. Equal names have equal hashes, and copying, storing or reflecting a name does not change it.",
 ["inputs"],
 "for all pairs of finitely built names",
 "Existing tests use a few flat names and never compare composed ones.",
 [E, M], [("name construction", "engine.rs name_pair, name_fork, name_fork3, name_fork4, name_of_*"), ("hash and equality", "engine.rs Name")], None, ["Name equality and hash", "Art equality"])

prop("C14", "Engines agree, and switching engines keeps them apart",
 "A program gives the same values (up to the identity of articulations) under the stateless naive engine and under the incremental engine. Replacing the current engine by another and restoring it later leaves the restored engine's cells, caches and dependences exactly as they were, a fresh engine shares nothing with earlier ones, and the engine says which kind is current.",
 ["programs", "histories", "configurations"],
 "for every program and editor history, and every interleaving of histories over several saved engines",
 "The only cross-engine tests compare the two engines on four fixed collection programs.",
 [E], [("engine management", "engine.rs manage::use_engine, init_dcg, init_naive"), ("naive semantics", "engine.rs NaiveThunk, cell, thunk, force under Engine::Naive")], None, ["return value of force", "reflect_dcg::dcg_reflect_now"])

prop("C15", "Recorded traces tell the truth and do not interfere",
 "Between `dcg_reflect_begin` and `dcg_reflect_end` the recorded trace contains, correctly nested, labelled and in execution order, exactly the allocations, demands, dirtyings, edge cleanings, re-evaluations and edge removals that took place, with the articulations they concern (allocating a structural thunk is no effect of its own). Recording, debug markers and snapshots never change values, executions or the recorded graph.",
 ["programs", "histories"],
 "for every program and editor history, with recording on or off around any editor operations",
 "Existing tests count a few effects of one small example.",
 [E, R], [("effect recording", "engine.rs dcg_effect_begin!, dcg_effect_end!, TraceSt"), ("trace type", "reflect.rs trace")], None, ["reflect_dcg::dcg_reflect_end"])

prop("C16", "Effect counts summarize any trace correctly",
 "For every recorded trace the summary counts each allocation once as fresh, changed or unchanged under the role (editor or archivist) that did it, each dirtying under the role that caused it, each recursive cleaning, and each re-evaluation as changed or unchanged according to its direct effects. Debug extents are transparent: wrapping effects in them changes no count.",
 ["inputs", "histories"],
 "for every trace that the engine can record, including ones with nested debug extents",
 "One existing test checks the counts of a single fixed example without debug extents around allocations.",
 [R], [("counting", "reflect.rs trace::trace_count, trace_count_rec, trace_count_dirty")], None, ["trace::trace_count"])

prop("C17", "Reflected values are faithful",
 "The reflected form of a value, obtained from its debug output, has exactly the constructors, fields, tuples, vectors, numbers, strings, names and articulations of the original, for all nestings of them; reflected locations and names are equal to the original ones, so every reflected articulation is a key of the reflected graph. The readable form of a name, path or location spells out its parts in order.",
 ["inputs"],
 "for every value built from unsigned and signed integers, strings, booleans, options, tuples, vectors, structs, enums, names and named or structural articulations, whose type and constructor names do not clash with those of names and of the unit value",
 "No existing test checks a reflected value.",
 [PV, R], [("lexer and parser", "parse_val.rs lex, parse_val_rec, parse_art_val, name_of_val"), ("walking articulations", "reflect.rs reflect_val and friends")], None, ["parse_val::parse_val", "reflect_dcg::dcg_reflect_now"])

prop("C18", "List operations compute the sequence they are named after",
 "For every list (with names and articulations anywhere), construction, conversion to vectors, lazy/eager map and filter, reversal, folding, appending, push/pop and emptiness give exactly the element sequence (and where documented the names) of the corresponding function on sequences. This holds in both engines, and in the incremental engine also after inserting, deleting or replacing list elements and demanding again; lazy map and filter do no work past the next name.",
 ["inputs", "histories"],
 "for every list of elements and names, every operation, and every history of list edits",
 "Existing tests use a few fixed lists; most list edit tests are commented out.",
 [C], [("list operations", "collections.rs list_map_lazy, list_map_eager, list_map_eager2, list_filter_lazy, list_filter_eager, list_reverse, list_fold, list_append, vec_of_list, list_of_vec, list_gen")], None, ["vec_of_list"])

prop("C19", "Tree conversions, folds and filters preserve the sequence",
 "Converting a list to a balanced tree and back preserves order and multiplicity of elements and names in either direction, monoid folds equal folding the sequence, filtering keeps exactly the elements satisfying the predicate in order (names: all of them when filtering a list; between two kept elements exactly one of those there when filtering a tree into a list; a subsequence when filtering into a tree), and pruning or making a tree eager changes no elements. This holds in both engines, and in the incremental engine also after edits of the input list.",
 ["inputs", "histories"],
 "for every list of elements and distinct names, every direction and operation, and every history of list edits",
 "Existing tests check a few fixed inputs and mostly compare one engine against the other.",
 [C], [("tree operations", "collections.rs tree_of_list_rec, list_of_tree, filter_list_of_tree, filter_tree_of_tree, monoid_of_tree, prune_tree_of_tree, eager_tree_of_tree, tree_fold_seq, tree_fold_up, tree_fold_up_nm_dn")], None, ["vec_of_list"])

prop("C20", "Incremental mergesort sorts, lazily and after every edit",
 "Each mergesort over a tree, and merging two sorted lists, yields exactly the sorted permutation of the input elements; demanding a prefix yields the same prefix as demanding everything. Merging is lazy at names: past an element that has a name (given by the input, or by the tree to a leaf or to a merge) nothing is compared until what follows is demanded, and no comparison is repeated; so where names separate all elements, the first mergesort takes at most one comparison per merge for the first element and one per level of the tree for each further one. After editing the input list and demanding again the output is the sorted permutation of the new input.",
 ["inputs", "histories"],
 "for every list of elements and distinct names, every demanded prefix and every history of list edits",
 "Existing tests sort one ascending list once and compare the two engines.",
 [C], [("mergesort", "collections.rs list_merge, mergesort_list_of_tree, mergesort_list_of_tree2, mergesort_list_of_tree3")], None, ["vec_of_list", "list_demand"])

prop("C21", "Tries and bit strings follow their mathematical meaning",
 "Bit-string operations (power, bit test, bit flip, prepend, length, shift) agree with binary arithmetic for all supported lengths. In every trie that branches only above its elements, lookup finds exactly the elements placed along their hash path, emptiness, folding and elimination visit exactly the stored elements through names and articulations, splitting a leaf keeps its element findable, and tries that differ in elements, names, shape or articulations have different hashes (structural identity rests on them).",
 ["inputs"],
 "for every bit string up to the maximum length and every trie built from the provided constructors (insertion of whole elements, `extend`, is an unimplemented stub)",
 "Existing bit-string tests sample five points; every enabled trie test stops at an unimplemented operation (insertion), so lookup is never exercised.",
 [B, T], [("bit strings", "bitstring.rs BS"), ("tries", "trie.rs find, is_empty, split_atomic, elim*, fold, trie_fold")], None, ["return values"])

prop("C22", "Unnamed articulations behave as values or plain suspensions",
 "`put`, unnamed `cell!`/`thunk!` results, eager and naive thunks and `thunk_map` articulations always yield the value (or the mapped value) of their content when demanded, in any engine, inside or outside of thunks, and can be stored in results and arguments. Dependences behind them are tracked by whoever demands them, and two of them are equal only if demanding them gives equal values.",
 ["programs", "histories", "inputs"],
 "for every program that mixes unnamed and named articulations and every editor history",
 "No existing test uses thunk_map, eager or naive thunks with the incremental engine.",
 [E], [("unnamed articulations", "engine.rs put, thunk (Eager, Naive), thunk_map, EnumArt::Force")], None, ["return value of force", "Art equality"])

prop("C23", "The macros mean what the function interface means",
 "Each allocation and demand macro (`cell!`, `thunk!`, `memo!`, `eager!`, `get!`, `fork!`, `forko!`, `let_cell!`, `let_thunk!`, `let_memo!`) has the same effects on the graph and the same results as the engine calls it documents: same names, one program point per function or body, arguments compared in full and in order (arguments after `;;` and captured variables excepted, as documented), optional names falling back to unnamed articulations, automatically chosen names always new (however many of them have been chosen); and no expression given to a macro is evaluated twice.",
 ["programs", "inputs", "histories"],
 "for every macro form, argument list, optional name, and history of re-allocations through macros",
 "Documentation tests run each macro form once from an empty graph; wrong sharing between forms or program points needs a second allocation.",
 [M], [("macros", "macros.rs thunk!, memo!, eager!, cell!, get!, fork!, forko!, let_*!, prog_pt!")], None, ["trace of effects", "return value of get!"])

prop("C24", "Configuration flags never change results",
 "Running with the purity optimization off, with the well-formedness check on, or with graph dumping on gives the same demanded values as the default configuration, and the built-in well-formedness check never fails. Without the purity optimization no dependence edge is omitted. Structural identity instead of names gives the same values, up to the identity of articulations, to a program that is built and demanded without editing.",
 ["configurations", "programs", "histories"],
 "for every combination of the environment flags and every precisely named program (with structural identity: acyclic program) and history",
 "The tests unset all of these flags.",
 [E], [("flags", "engine.rs Flags, DCG::new"), ("self-check", "engine.rs wf::check_dcg")], None, ["return value of force", "panics"])

prop("C25", "List-based maps and sets follow their mathematical meaning",
 "For a map or set represented by a list, lookup finds exactly the binding added last for the key, whatever names and articulations lie before it, membership is being bound, folding visits every binding in order, updating one key changes no other, and the intersection of two sets has exactly their common elements. This holds in both engines, and in the incremental engine also after edits of the representation.",
 ["inputs", "histories"],
 "for every list of bindings with names and articulations anywhere, every key, and every history of edits",
 "No existing test uses these operations at all.",
 [C], [("maps and sets", "collections.rs MapIntro, MapElim, SetIntro, SetElim and their implementations for List")], None, ["map_find", "map_fold", "SetElim::is_mem"])

prop("C26", "Catalog functions run again only between the names that changed",
 "After an edit of a list in which names separate parts (each name followed by a cell), the list maps and filters, list_reverse, tree_of_list, the tree folds, filters, pruning and copying, monoid_of_tree, list_of_tree and the mergesorts run again only those of their memoized parts whose arguments, or something that they read, differ from the step before; a part that is unchanged calls no user function or comparison again. So editing one element of a mapped list calls the function only for the elements between the neighbouring names.",
 ["inputs", "histories"],
 "for every list of elements and distinct names, every history of edits, in and out of an enclosing thunk",
 "No existing test counts what is run again; losing reuse leaves all results correct.",
 [C, E], [("memoized parts", "collections.rs list_map_eager, list_map_eager2, list_map_lazy, list_filter_eager, list_filter_lazy, list_reverse, tree_of_list_rec, tree_fold_seq, tree_fold_up, tree_fold_up_nm_dn, bin_arts_niltest, list_merge")], None, ["calls of the functions passed in", "comparisons", "traces (reflect::dcg_reflect_end)"])

prop("C27", "Dumped graphs describe the recorded graph",
 "With ADAPTON_WRITE_DCG, each change of the recorded graph leads, at the latest at the next operation, to a further numbered file adapton-dcg-N.dot, so that the newest one always describes the graph as it is: a readable DOT graph with a box for each node that is not a computation, and each computation's edges in their order, dirty ones red, and of the others observations grey and allocations darkgreen.",
 ["programs", "histories"],
 "for every program and history of the editor, after every operation",
 "No test sets the flag.",
 [E], [("dumps", "engine.rs wf::check_dcg, write_next_dcg, write_dcg_file")], None, ["the files written"])

prop("C28", "Reflections show contents, results, and the running computation",
 "dcg_reflect_now, called at any time, gives the graph of that moment: a node for each allocated name, of the kind last allocated; for cells the current content, for thunks their program point and the value that their latest run for the present argument returned, even if edits have since made it out of date (none if it has never run). Within running thunks its stack lists exactly the thunks whose bodies are running, from the outermost in, each with the effects it has done so far, in order and none dirty, and its path is the namespace of the running code; between the editor's operations both are empty. Calling it changes no result and no run.",
 ["programs", "histories", "moments within a run"],
 "for every program and history of the editor, after every operation and every effect of every running thunk",
 "Tests print reflections of a few graphs, between operations, and never look at them while a thunk runs.",
 [E, R], [("reflections", "engine.rs Reflect impls of DCG, Frame, Node, Path; reflect_dcg::dcg_reflect_now"), ("values", "parse_val.rs parse_val")], None, ["reflect::dcg_reflect_now"])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
