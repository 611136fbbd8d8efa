#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pybgl/"
P = []


def prop(id, title, statement, over, quant, why, mech, state=(), observe=(), note=""):
    files = []
    for _, w in mech:
        f = w.split(":")[0]
        if S + f not in files:
            files.append(S + f)
    a = {"files": files, "mechanism": [{"name": n, "where": S + w} for n, w in mech],
         "observe_at": list(observe), "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a}, note))


SOUND = "Sampling, not proof: a bug needing a rarer history than those explored is missed. "
prop("C01", "Graph containers refine a labelled multigraph under any history",
     "After any sequence of vertex and edge insertions and removals, including refused and repeated ones, a directed, "
     "undirected or bidirectional graph reports exactly the vertices, edges, degrees, incidences and edge lookups of "
     "the multigraph obtained by applying the accepted operations in order; vertex ids are never reused and a removed "
     "vertex takes all its incident edges with it. An operation that is refused (unknown endpoint, stale edge) leaves "
     "the graph unchanged, except that a plain directed graph does not check the target of an inserted edge. A "
     "listing that is interleaved with other reads, or abandoned half-way, still yields each item exactly once.",
     ["histories", "inputs", "fault_sequences"],
     "every history of insertions, removals, refused operations, aborted reads and interleaved listings, for every "
     "graph kind",
     "The tests replay a few fixed scripts on small graphs; the state space is the set of all histories, and stale "
     "descriptors or parallel edges only matter after particular removal orders.",
     [("adjacency maps", "graph.py:DirectedGraph"), ("paired adjacency maps", "graph.py:UndirectedGraph"),
      ("mirrored in/out maps", "incidence_graph.py:IncidenceGraph")],
     observe=["vertices, edges, out_edges, in_edges, edge, degrees, counters"])
prop("C02", "Deterministic automata refine a partial transition function",
     "After any sequence of state and transition insertions and removals, (re)definitions of the initial state and "
     "finals and clear-ups, every deterministic automaton kind reports exactly the transitions, alphabet, finals and "
     "initial state of the partial function obtained by applying the accepted operations in order, and accepts a word "
     "exactly when that function leads from the initial state to a final state. An insertion is accepted only when the "
     "state has no transition on that symbol yet, answers already given do not change later, and a refused insertion or a removal through an outdated descriptor "
     "changes nothing. In the kind whose states carry the symbols, the symbol of a transition is that of its target.",
     ["histories", "inputs", "fault_sequences"],
     "every history of mutations, refused mutations, stale descriptors, failing property maps and aborted reads, over "
     "all automaton kinds and their builders",
     "The tests build a handful of automata once and query them; they never mutate after querying, never reuse stale "
     "descriptors and never make a property map fail.",
     [("delta tables", "automaton.py:Automaton"), ("mirrored tables", "incidence_automaton.py:IncidenceAutomaton"),
      ("state symbols", "node_automaton.py:NodeAutomaton"),
      ("state symbols, mirrored", "incidence_node_automaton.py:IncidenceNodeAutomaton")])
prop("C03", "Nondeterministic automata refine a transition relation with epsilon moves",
     "After any sequence of state and transition insertions and removals, including silent moves, a nondeterministic "
     "automaton reports exactly the transitions, alphabet, initial and final states of the relation obtained by "
     "applying the accepted operations in order. It accepts a word exactly when some path of the relation, silent "
     "moves included wherever they occur, leads from an initial state to a final state while reading that word; the "
     "set of states reached by a word is exactly the set of ends of such paths.",
     ["histories", "inputs", "fault_sequences"],
     "every history of mutations and queries, every placement of silent moves and cycles of silent moves, failing "
     "property maps and aborted reads",
     "Tests use three or four hand-made automata; silent cycles, removals and several initial states are not covered.",
     [("transition relation and epsilon closure", "nfa.py:Nfa")])
prop("C04", "Digital structures hold exactly the inserted words",
     "A trie, whatever the order and mix of insertions of words, tries, digital sequences and suffix structures, "
     "accepts exactly the words inserted, and its states are exactly the prefixes of these words. An insertion "
     "interrupted at any instant never adds nor loses another word, and running it again completes it. Comparing two "
     "such structures reports, for every word, whether it belongs to the first, the second, both or neither.",
     ["histories", "inputs", "crash_points"],
     "every insertion history over two or three structures, with interruptions at arbitrary instants",
     "Tests insert a few words in one order and never interrupt an insertion.",
     [("simultaneous insertion", "trie.py:Trie"), ("suffix insertion", "suffix_trie.py:make_suffix_trie"),
      ("implicit automaton", "digital_sequence.py:DigitalSequence"), ("matching", "trie_matching.py:trie_matching")])
prop("C05", "BK-tree queries return a true nearest neighbour",
     "For every metric and every insertion order, a BK-tree holds each inserted element once, and a query returns an "
     "element at the smallest distance among all stored elements, with that distance, or nothing when the smallest "
     "distance exceeds the allowed one. A metric that fails during an insertion or a query surfaces to the caller and "
     "leaves the stored elements unchanged.",
     ["histories", "inputs", "fault_sequences", "schedules"],
     "every interleaving of insertions and queries, every metric and every failing call of the metric",
     "The test inserts one dictionary and looks up its own words; pruning mistakes only show for particular metrics "
     "and insertion orders.",
     [("insertion and pruned search", "bk_tree.py:BKTree")])
prop("C06", "The priority queue pops in key order and survives failing keys",
     "A heap lists and pops its elements by increasing key (or by the caller's preorder), elements of equal priority "
     "leaving in the order in which they were inserted (a key decrease, which applies to every occurrence of the "
     "element, does not change it), and nothing is lost or duplicated by any "
     "sequence of insertions, extractions and key decreases. Extracting from an empty heap raises an index error, and "
     "an insertion or key decrease whose key computation fails leaves the heap unchanged.",
     ["histories", "inputs", "fault_sequences"],
     "every history of pushes, pops and decreases and every failing call of the key",
     "Tests push a few integers and decrease one key; ties, repeated decreases and failing keys are not exercised.",
     [("sorted insertion and reordering", "heap.py:Heap"), ("preorder adaptor", "heap.py:Comparable")])
prop("C07", "Graph views are live pointwise filters of the underlying graph",
     "At any time a view shows exactly the vertices and edges that currently exist in the underlying graph and pass "
     "its current predicates (an edge needs both ends visible); views combined with |, & and - show the pointwise "
     "union, intersection and difference of what their operands' predicates show. Reading or traversing a view never "
     "changes the graph nor another view, and a failing predicate surfaces without lasting effect.",
     ["histories", "inputs", "schedules", "fault_sequences"],
     "every history of graph mutations, predicate changes and view combinations, with concurrent and failing reads",
     "Tests check one static graph with fixed predicates.",
     [("filtered listings and combinators", "graph_view.py:GraphView")])
prop("C08", "Traversals follow their event protocol under filters, aborts and threads",
     "Breadth-first and depth-first traversals (of graphs and of trees) visit every vertex reachable through accepted "
     "edges exactly once, examine each of its accepted edges exactly once, and emit their visitor events in the "
     "documented order: nearest vertices first and shortest-path tree edges in breadth, properly nested discovery and "
     "finish with tree, back and forward-or-cross edges rightly classified in depth. This holds at every point of "
     "every run, including runs cut by a failing visitor or filter and runs that share the graph with concurrent "
     "ones; at every event the color map agrees with what was discovered and finished, the graph is never changed, and vertices already colored by the caller are not "
     "visited again.",
     ["inputs", "schedules", "crash_points", "configurations"],
     "every graph, source set, filter and preset colors, every point at which a visitor, filter or the run is cut, "
     "every interleaving of concurrent traversals",
     "Tests check final orders on a few graphs; the protocol is a property of every prefix of the event sequence.",
     [("BFS loop", "breadth_first_search.py:breadth_first_search_graph"),
      ("DFS loop", "depth_first_search.py:depth_first_search"), ("tree walks", "graph_traversal.py:bfs_tree")])
prop("C09", "Shortest paths are optimal and complete for every weighting and law",
     "For non-negative weights under any total distance law (sum, product of probabilities, bottleneck...), the "
     "computed distance of every vertex is the best over all paths, its predecessors are exactly the last edges of "
     "the best paths, and vertices are examined once each, best distance first, with their final distance. A search "
     "towards one target returns a best path, or nothing when the target is unreachable; extracted paths are best "
     "paths and the extracted graph holds exactly the edges of the best paths, even with zero-weight cycles; an edge of infinite weight belongs to no path. A run "
     "that is cut by a failing callback, or that shares its graph with concurrent ones, has no effect on other runs.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every graph kind, weighting with ties and zero weights, distance law, failing callback and interleaving",
     "Tests use six fixed graphs; ties, zero-weight cycles and priority decreases depend on particular weightings.",
     [("relaxation loop", "dijkstra_shortest_paths.py:dijkstra_shortest_paths_iteration"),
      ("path extraction", "dijkstra_shortest_paths.py:make_shortest_paths_dag"),
      ("priority queue", "heap.py:Heap"), ("distance laws", "algebra.py:ClosedOperator")])
prop("C10", "Strong components, topological orders and vertex cuts are exact",
     "Two vertices get the same component exactly when each is reachable from the other, components are numbered from "
     "0 without gap and their count is returned; a topological sort lists every vertex once with every edge going "
     "forward, and fails exactly when the graph has a cycle. The vertex cut induced by an edge cut is exactly the "
     "reached ends of the cutting edges plus the reached sinks, hence separates the source from every other sink.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every directed graph after every mutation history, any depth, failing callbacks and concurrent queries",
     "Each has one or two fixed test graphs.",
     [("Tarjan visitor", "strong_components.py:TarjanVisitor"), ("finish order", "topological_sort.py:topological_sort"),
      ("cut visitor", "cut.py:cut")])
prop("C11", "Copies, extractions, reversals and prunings are the exact sub-structure",
     "Copying or extracting from a vertex yields exactly the vertices and edges (with their symbols) reachable through "
     "relevant edges and vertices, each exactly once (undirected edges included), with a faithful vertex and edge correspondence, and leaves the "
     "original unchanged. Reversing a bidirectional graph swaps the roles of incoming and outgoing edges and twice is "
     "the identity. Pruning an automaton keeps exactly the states that are reachable from the initial state and can "
     "reach a final state, and keeps the language; when the final states cannot be read, nothing changes.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every graph or automaton, relevance maps, failing callbacks and concurrent copies",
     "One fixed graph per function.",
     [("copy visitor", "graph_copy.py:DepthFirstSearchCopyVisitor"),
      ("automaton copy visitor", "automaton_copy.py:AutomatonCopyVisitor"),
      ("extraction visitor", "graph_extract.py:DepthFirstSearchExtractVisitor"),
      ("role swap", "reverse.py:reverse_graph"), ("pruning", "prune_incidence_automaton.py:prune_incidence_automaton")])
prop("C12", "Product constructions decide and build the right languages",
     "The intersection (resp. union) of two deterministic automata accepts exactly the words accepted by both (resp. "
     "at least one), and the inclusion test tells exactly whether the languages are equal, which one is strictly "
     "included in the other, or that neither is, whatever the kinds of the automata and the order in which symbols "
     "are explored. The synchronized traversal behind them visits each reachable pair of states once, examines each "
     "symbol of each pair once, nearest pairs first, and classifies pairs rightly at every point, also when a visitor "
     "fails or several run concurrently on shared automata, and never changes its operands.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "every pair of deterministic automata, complete or not, symbol exploration order, failing visitor and "
     "interleaving",
     "Tests use a few automata and the iteration order of one interpreter run.",
     [("synchronized BFS", "parallel_breadth_first_search.py:parallel_breadth_first_search"),
      ("inclusion verdict", "deterministic_inclusion.py:DeterministicInclusionVisitor"),
      ("product states", "product_mixin.py:ProductMixin"),
      ("intersection", "deterministic_intersection.py:deterministic_intersection"),
      ("union", "deterministic_union.py:deterministic_union")])
prop("C13", "Determinisation and minimisation keep the language and reach minimal size",
     "Determinising a nondeterministic automaton yields a deterministic one with the same language. Minimising a "
     "deterministic automaton that is complete with all its states reachable, or trim (or trim and acyclic for the "
     "acyclic method), yields the same language with the smallest possible number of states of that form. The acyclic method also keeps "
     "the language of acyclic automata with dead or unreachable states, leaves no two states alike, and announces every "
     "merge and every moved transition to its visitor. The outcome is, up to state names, independent of the "
     "order in which sets of states are explored.",
     ["inputs", "schedules", "configurations"],
     "every automaton and every exploration order of its state sets and symbols",
     "Tests use a few automata; the algorithms pop from unordered sets, so one interpreter run explores one order "
     "only.",
     [("subset construction", "moore_determination.py:moore_determination"),
      ("partition refinement", "hopcroft_minimize.py:hopcroft_minimize"),
      ("bottom-up merging", "revuz_minimize.py:revuz_minimize")])
prop("C14", "Regular expressions compile to automata of exactly their language",
     "For every regular expression of the supported syntax (literals, escapes, classes, concatenation, alternation, "
     "grouping, optional, starred, plussed and counted repetitions), the compiled nondeterministic automaton and its "
     "determinised and minimised forms accept exactly the words fully matched by that expression. Text escaped by re_escape compiles to exactly itself, and expressions "
     "that have no reading (unbalanced, dangling, with inverted bounds or unknown escapes) are rejected. Compilations that "
     "run concurrently or follow a rejected or interrupted one give the same result.",
     ["inputs", "schedules", "fault_sequences"],
     "every expression of the syntax and every word, any order of exploration, interleaving and earlier failures",
     "Tests compile around thirty expressions and try a few words each.",
     [("operand stack", "thompson_compile_nfa.py:thompson_compile_nfa"), ("class parsing", "thompson_compile_nfa.py:bracket"), ("entry points", "regexp.py:compile_dfa"),
      ("operator precedence", "shunting_yard_postfix.py:shunting_yard_postfix"), ("tokenizer", "tokenize.py:tokenize")])
prop("C15", "Expression parsing yields the standard reading of every expression",
     "Every well-formed arithmetic expression is rewritten to postfix form, evaluated and parsed to a tree according "
     "to the declared precedence and associativity of binary, prefix and postfix operators, whatever its spacing, "
     "its parentheses and whether it arrives as a string or as a stream of tokens; rendering the tree of an expression "
     "gives back an expression of the same value and structure. Tokens are consumed in "
     "order, each once; a visitor sees operators pushed and popped as on a stack and every output token in order; "
     "ill-balanced parentheses are reported as errors. Operator tables give one associativity to each precedence "
     "level, and postfix operators bind tightest.",
     ["inputs", "schedules", "fault_sequences"],
     "every expression, operator table, token stream, interruption and interleaving",
     "Tests evaluate a few dozen expressions.",
     [("operator stack", "shunting_yard_postfix.py:shunting_yard_postfix"),
      ("evaluation", "shunting_yard_postfix.py:shunting_yard_compute"), ("tree", "shunting_yard_postfix.py:shunting_yard_ast"),
      ("tokenizer", "tokenize.py:tokenize")])
prop("C16", "Rendering returns the engine's full output or raises",
     "Rendering text through the external layout engine hands it exactly the given text, requested format and engine, "
     "and returns exactly its output, in text for svg and in bytes for the other formats. If the engine cannot "
     "be started, exits with an error, is killed or dies before reading its input, the call raises an error about the "
     "run, whatever was printed on either output and in whatever encoding; it never hangs, however much the engine "
     "prints, nor leaves a child process behind, even when it is interrupted.",
     ["fault_sequences", "inputs", "configurations", "schedules"],
     "every way the child process can fail, every output size and encoding, every format and engine",
     "Tests run the real engine once on valid input; they cannot make it crash, stall or print garbage.",
     [("process handling", "graphviz.py:run_graphviz"), ("typed conversion", "graphviz.py:dot_to_svg"), ("notebook export", "graphviz.py:dotstr_to_html")]),
prop("C17", "Exported files are complete or absent, whatever fails",
     "Writing a rendered graph reports success only if the file then holds exactly the complete rendering in the "
     "requested format (a file object given by the caller may receive one more line end); if rendering fails the previous content of the file is untouched. A disk error while opening, "
     "writing or closing is never reported as success, and the notebook display announces a file only once it holds "
     "the complete rendering.",
     ["fault_sequences", "crash_points", "inputs"],
     "every rendering failure and every disk error at every write, with or without a previous file",
     "Tests write one file on a healthy disk.",
     [("rendering then writing", "graphviz.py:write_graphviz"), ("notebook display", "ipynb.py:display_svg")])
prop("C18", "Graph description parsing rebuilds exactly the described graph",
     "Reading a textual graph description adds exactly the described vertices and edges, in order and with their "
     "attributes, to the target graph, also when lines arrive one by one from a stream that stalls or fails, in which "
     "case exactly what the lines read so far describe has been added. A graph written by the library and read back "
     "has the same vertices, edges and attributes. Attributes are written key=\"value\" with a value without "
     "ampersand, line break or final backslash, its double quotes escaped by a backslash; labels, which are written as HTML, are not read back; an edge between "
     "undescribed vertices is an error and adds nothing.",
     ["inputs", "fault_sequences", "crash_points"],
     "every description written by the library, every cut point of the stream and failing visitor",
     "Tests read two fixed descriptions from complete strings.",
     [("line parser", "graphviz.py:ReadGraphvizVisitor"), ("readers", "graphviz.py:read_graphviz")])
prop("C19", "Generated graph descriptions never leak style across graphs and calls",
     "The description generated for a graph mentions exactly its vertices and edges with exactly the attributes of "
     "the property maps and style options given to that call, on top of the library-wide style in force. No call "
     "alters the dictionaries, maps, views or graphs given by the caller, nor the output of any later or concurrent "
     "call, even when one of them fails half-way. The JSON form is valid and complete whatever characters the "
     "attributes contain.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence and interleaving of exports with failing property maps and style changes",
     "Tests export each graph once in isolation.",
     [("attribute merging", "graphviz_impl.py:to_dot"), ("style holder", "graphviz_impl.py:GraphvizStyle"),
      ("bundled graph", "graph_dp.py:GraphDp")])
prop("C20", "A singleton class has one instance under every interleaving",
     "However many threads instantiate a singleton class at the same time, and whichever of their constructions fail "
     "or are themselves slow, all successful calls return one and the same fully constructed instance, built at most "
     "once. A failing construction surfaces to its caller only, does not prevent the next call from building the "
     "instance, and distinct classes (subclasses included) never share an instance.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of threads at every instruction and every failing constructor call",
     "A test cannot choose the interleaving; the window between check and construction is a few instructions.",
     [("instance registry", "singleton.py:Singleton"), ("users", "graphviz_impl.py:GraphvizStyle")])
prop("C21", "Concurrent callers of the library do not interfere",
     "Calls made at the same time by several threads, each on its own structures or only reading shared ones, return "
     "exactly what each of them returns alone. This covers containers, traversals, automata algorithms, regular "
     "expressions, expression parsing and graph descriptions, at every preemption point and when some of the calls "
     "fail or are cut.",
     ["schedules", "inputs", "fault_sequences"],
     "every mix of library calls and every interleaving of their steps",
     "The tests are single-threaded.",
     [("per-call state", "dijkstra_shortest_paths.py:dijkstra_shortest_paths"),
      ("per-call state", "hopcroft_minimize.py:hopcroft_minimize"),
      ("per-call state", "thompson_compile_nfa.py:thompson_compile_nfa"),
      ("shared registries", "singleton.py:Singleton")])
prop("C22", "An interrupted computation leaves inputs intact and can be run again",
     "When a library computation that is not meant to modify its inputs is cut at any instant (interruption, lack of "
     "memory, failing callback), its inputs are as before, and the same and any other computation run afterwards "
     "gives the same result as if the cut one had never run.",
     ["crash_points", "fault_sequences", "inputs"],
     "every computation, every instant of interruption and every computation that follows",
     "Tests never interrupt a call; leftovers in defaults, caches or swapped attributes are invisible otherwise.",
     [("default arguments and caches", "hopcroft_minimize.py:hopcroft_minimize"),
      ("subset construction", "moore_determination.py:moore_determination"),
      ("product", "parallel_breadth_first_search.py:parallel_breadth_first_search"),
      ("style registry", "graphviz_impl.py:GraphvizStyle")])
prop("C23", "Aggregated visitors forward every event to every member in order",
     "Calling any event on an aggregate of visitors calls that event on each member that currently belongs to it, once "
     "each, in order of registration, with the same positional and keyword arguments, also when members join or leave while the event is delivered. A member that fails surfaces "
     "to the caller, the members before it having been called and those after it not, and later events are forwarded "
     "normally.",
     ["histories", "fault_sequences", "schedules"],
     "every membership history, failing member and interleaving",
     "The test aggregates two visitors once.",
     [("dynamic forwarding", "aggregated_visitor.py:AggregatedVisitor")])
prop("C24", "Edit distances equal their dynamic-programming definitions",
     "The edit distance, its transposition-aware variant and the subsequence-based distance between two strings of any "
     "length are exactly the minimum numbers of elementary edits of their definitions (a transposed pair is not edited again), "
     "hence symmetric and zero exactly on equal strings; this holds for the functions and for memoizing calculators "
     "that are shared by several threads, queried on suffixes, or reused after an interrupted computation.",
     ["inputs", "histories", "schedules", "crash_points"], "every pair of strings, history of calculator queries, "
     "interleaving and instant of interruption",
     "Tests compare a few pairs, once each, on fresh calculators.",
     [("matrix", "levenshtein_distance.py:levenshtein_distance"),
      ("matrix", "damerau_levenshtein_distance.py:damerau_levenshtein_distance_naive"),
      ("matrix", "lcs_distance.py:lcs_distance")])
prop("C25", "Color and markup helpers produce what they are documented to produce",
     "Converting a color of the documented domain yields the documented hexadecimal form, and markup helpers escape "
     "and assemble exactly the given content.",
     ["inputs"], "every color and every content",
     "Tests cover one or two values.",
     [("conversions", "color.py"), ("markup", "html.py")])
prop("C26", "Property maps read and write the live thing they wrap, whatever its history",
     "A map over a dictionary reads what that dictionary holds now, stores its default on the first read of an unset "
     "key, and writes through to it, so that maps over one dictionary and changes made behind them agree; a map over "
     "a function calls it once per read and remembers nothing; identity and constant maps return the very object. "
     "Read-only maps refuse writes and every map refuses deletions, without effect. Errors of default factories and "
     "functions reach the caller and leave nothing behind, and threads using distinct keys do not interfere.",
     ["inputs", "histories", "fault_sequences", "schedules"],
     "every history of reads, writes, refused operations, failing factories and functions, and interleavings",
     "Tests read and write one map of each kind once.",
     [("dictionary map", "property_map.py:AssocPropertyMap"), ("function map", "property_map.py:FuncPropertyMap"),
      ("access", "property_map.py:get"), ("refusals", "property_map.py:ReadPropertyMap")])
prop("C27", "Results of one algorithm are valid, independent inputs of the others",
     "Chaining the library's algorithms keeps their meaning: whatever mix of regular-expression operators, insertion, "
     "determinisation, minimisation, pruning, reversal, product, copy and trie merge produced an automaton, it accepts "
     "exactly the language the chain denotes and every other algorithm (searches, components, topological order, "
     "distances, further stages) answers correctly on it. Results are independent objects: later stages, aborted "
     "stages and changes the caller makes to one automaton never show in the others, and minimisations reach the same "
     "size along every chain.",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every chain of stages over every starting automaton, with stages interrupted and run again or run concurrently",
     "Tests run each algorithm on a hand-written input; hardly any feeds one algorithm's result to another.",
     [("regular-expression operators", "thompson_compile_nfa.py:concatenation"),
      ("determinisation", "moore_determination.py:moore_determination"),
      ("minimisation", "hopcroft_minimize.py:hopcroft_minimize"),
      ("pruning", "prune_incidence_automaton.py:prune_incidence_automaton"),
      ("products", "product_mixin.py:ProductMixin"), ("copies", "automaton_copy.py:automaton_copy")])

NA = {
    "C25": "pure string formatting: no schedule, clock, I/O or fault that the outcome could depend on",
}
TECH = "deterministic simulation with fault injection (seeded search over histories, schedules and faults)"


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        have = os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py"))
        if i in NA or not have:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
            continue
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "exploration",
            "level_note": SOUND + "Trusts the reference model in sim/props/" + i.lower() + ".py and the simulator "
            "kernel; every reported failure is replayed in a fresh process before it is reported." + note})
    m = {"version": 1, "setup_cmd": "python3 -c \"import sim.kernel, sim.loader\"", "checks": checks,
         "not_applicable": na,
         "notes": "No hook is needed in /repo: the simulator interposes on the seams the code already has (caller "
                  "callbacks, sets, threads and locks, processes, files). Replay: python3 check.py --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
