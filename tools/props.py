#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, level_note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note))


GRAPHS = "every directed multigraph (self-loops, parallel edges) within the stated number of vertices"

p("C01", "Directed graphs: any history of updates leaves a consistent store",
  "After any sequence of vertex and edge insertions and removals on a directed multigraph, every accessor (vertices, edges, out-edges, counts, degrees, membership tests, edge lookup) agrees with the set of vertices and the multiset of edges those operations define. "
  "Vertex and edge descriptors returned by an insertion are new, parallel edges stay distinct, and removing a vertex removes exactly its incident edges. "
  "Free functions and methods answer alike.",
  ["histories", "inputs"], "Every initial multigraph of up to 3-4 vertices with parallel edges and self-loops, every sequence of up to 2-3 operations with arbitrary arguments, every observer.",
  "test_graph.py exercises a few fixed graphs; the guarantee ranges over all histories (removal then insertion, parallel edges, self-loops).",
  ["src/pybgl/graph.py"], [("Graph.add_vertex / remove_vertex / add_edge / remove_edge", "graph.py"), ("DirectedGraph.in_edges, edges, out_edges", "graph.py")],
  "arbitrary initial adjacency maps of <= 3-4 vertices, <= 2 parallel edges, <= 2-3 operations")

p("C02", "Undirected graphs: any history of updates leaves a consistent store",
  "After any sequence of insertions and removals on an undirected multigraph, both endpoints of every edge see it: degrees, incident edges, edge lookup in either direction and counts agree with one multiset of unordered edges. "
  "Every edge is enumerated exactly once by the global iterator, self-loops included, and removing an edge or a vertex leaves no dangling half-edge.",
  ["histories", "inputs"], "Every initial undirected multigraph of up to 3 vertices with self-loops and parallel edges, every sequence of up to 2 operations, every observer.",
  "Tests build three small graphs; symmetry must hold for every history and every orientation of the descriptors.",
  ["src/pybgl/graph.py"], [("UndirectedGraph", "graph.py")], "<= 3-4 vertices, <= 2 parallel edges, <= 2 operations")

p("C03", "Bidirectional graphs: in-edges always mirror out-edges, and reversal is exact",
  "After any sequence of updates on a graph which stores its in-edges, the in-edges of a vertex are exactly the edges whose target it is, and in-degrees follow. "
  "Reversing the graph exchanges sources and targets of all edges, keeps their number, and reversing twice restores the graph.",
  ["histories", "inputs"], "Every initial multigraph of up to 3 vertices, up to 2 operations, any observer.",
  "Tests check one graph; removal of a vertex with parallel edges or self-loops, then reversal, is not sampled.",
  ["src/pybgl/incidence_graph.py", "src/pybgl/reverse.py", "src/pybgl/graph.py"], [("IncidenceGraph.add_edge/remove_edge/in_edges", "incidence_graph.py"), ("reverse_graph", "reverse.py")],
  "<= 3 vertices, <= 2 parallel edges, <= 2 operations")

p("C04", "Automata: any history of updates leaves a consistent deterministic store",
  "After any sequence of insertions and removals of states and transitions, changes of initial and final states, an automaton has at most one transition per state and letter, inserting a second one is refused and leaves the first, and all accessors (delta, sigma, alphabet, edges, out-edges, edge, label, finals, initial, counts) describe that same transition function.",
  ["histories", "inputs"], "Every DFA of up to 3 states with up to 2-3 transitions per state over unbounded letters, up to 2-3 operations, any observer.",
  "Unit tests use one automaton; state 0 as a target, removal followed by insertion, and shared letters are never combined.",
  ["src/pybgl/automaton.py"], [("Automaton.add_edge / delta / remove_edge / remove_vertex / edges / sigma", "automaton.py")],
  "<= 3 states, unbounded letters, <= 3 operations")

p("C05", "Incidence automata: in-transitions always mirror the transition function",
  "After any sequence of updates on an incidence automaton, the in-transitions of a state are exactly the transitions leading to it, with their letters, and agree with delta and out-transitions; a refused insertion changes neither side.",
  ["histories", "inputs"], "Every DFA of up to 3 states, unbounded letters, up to 2 operations, any observer.",
  "One fixture is tested; the mirror must survive every removal and every refused insertion.",
  ["src/pybgl/incidence_automaton.py", "src/pybgl/automaton.py"], [("IncidenceAutomaton.add_edge/remove_edge/in_edges/remove_vertex", "incidence_automaton.py")],
  "<= 3 states, unbounded letters, <= 2 operations")

p("C06", "Node automata: state symbols and transitions stay consistent",
  "In an automaton whose letters are installed on its states, after any sequence of updates delta, sigma, symbol, edges, labels and (for the incidence variant) in-transitions all describe the same transitions, and a state never gets two successors bearing the same letter.",
  ["histories", "inputs"], "Every node automaton of up to 3 states with unbounded symbols, up to 2 operations, any observer.",
  "Tests cover one small automaton without removals.",
  ["src/pybgl/node_automaton.py", "src/pybgl/incidence_node_automaton.py"], [("NodeAutomaton.add_edge/delta/sigma/edges", "node_automaton.py"), ("IncidenceNodeAutomaton.add_edge/in_edges", "incidence_node_automaton.py")],
  "<= 3 states, unbounded symbols, <= 2 operations")

p("C07", "Runs of a DFA read the word letter by letter",
  "For every automaton, state and word, delta_word returns the state reached by following the transitions letter by letter, or none as soon as one is missing; accepts holds exactly if the state reached from the initial one is final; delta_best_effort returns the last state reached and the number of letters read.",
  ["inputs"], "Every DFA of up to 3 states with unbounded letters and every word of up to 3-4 letters, any starting state.",
  "A handful of words on a handful of automata are tested.",
  ["src/pybgl/automaton.py"], [("Automaton.delta_word / accepts / delta_best_effort", "automaton.py")], "<= 3 states, words <= 4")

p("C08", "NFAs: store and runs follow the set of transitions",
  "After any sequence of updates on an NFA, its transitions form a set of (source, letter, target) triples that delta, sigma, alphabet, edges, out-edges and epsilon closures all reflect, with hashable and mutually consistent descriptors. "
  "Running a word from the initial states yields exactly the states reachable by spelling it with any number of epsilon steps, and acceptance means that one of them is final.",
  ["histories", "inputs"], "Every NFA of up to 3 states with up to 2-3 transitions over unbounded letters and epsilon, up to 2 operations, words of up to 2-3 letters.",
  "Epsilon cycles, several initial states, removals are covered by no test.",
  ["src/pybgl/nfa.py"], [("Nfa.add_edge/remove_edge/delta/delta_epsilon/delta_word/accepts", "nfa.py")], "<= 3 states, <= 3 transitions, <= 2 operations, words <= 3")

p("C09", "Determinization keeps the language of any NFA",
  "For every NFA (epsilon transitions, several initial states), determinization returns a deterministic automaton accepting exactly the same words, with one reachable state per reachable set of states; if completion is asked for, every state has a successor by every letter of the alphabet, otherwise no sink is added.",
  ["inputs"], "Every NFA of up to 3 states and 3 transitions over unbounded letters and epsilon; words of up to 3 letters.",
  "Three NFAs are tested; equality of languages quantifies over all words and machines.",
  ["src/pybgl/moore_determination.py", "src/pybgl/nfa.py"], [("moore_determination", "moore_determination.py")], "<= 3 states, <= 3 transitions, words <= 3")

p("C10", "Deterministic union accepts exactly the words either automaton accepts",
  "For any two deterministic automata, complete or not and whatever their initial states, the union built by the library is a deterministic automaton accepting exactly the words accepted by at least one of them, the empty word included.",
  ["inputs"], "Every pair of DFAs of up to 2-3 states over up to 2 letters; words of up to 3 letters.",
  "Two pairs are tested; dead sides, initial states other than 0 and products without transitions are not.",
  ["src/pybgl/deterministic_union.py", "src/pybgl/product_mixin.py", "src/pybgl/parallel_breadth_first_search.py"], [("deterministic_union, DeterministicUnionVisitor", "deterministic_union.py"), ("ProductMixin", "product_mixin.py")], "2-3 states each, 1-2 letters")

p("C11", "Deterministic intersection accepts exactly the words both automata accept",
  "For any two deterministic automata, complete or not and whatever their initial states, the intersection built by the library is a deterministic automaton accepting exactly the words accepted by both, the empty word included.",
  ["inputs"], "Every pair of DFAs of up to 2-3 states over up to 2 letters; words of up to 3 letters.",
  "Two pairs are tested.", ["src/pybgl/deterministic_intersection.py", "src/pybgl/product_mixin.py", "src/pybgl/parallel_breadth_first_search.py"],
  [("deterministic_intersection, DeterministicIntersectionVisitor", "deterministic_intersection.py")], "2-3 states each, 1-2 letters")

p("C12", "Inclusion test decides the inclusion of languages",
  "For any two deterministic automata the inclusion test answers that the languages are equal, that the first is strictly included in the second, that the second is strictly included in the first, or that they are incomparable, exactly when this is so.",
  ["inputs"], "Every pair of DFAs of up to 2-3 states over up to 2 letters; inclusion over words of every length.",
  "Five pairs are tested; the verdict depends on all words.", ["src/pybgl/deterministic_inclusion.py", "src/pybgl/parallel_breadth_first_search.py"],
  [("deterministic_inclusion, DeterministicInclusionVisitor", "deterministic_inclusion.py")], "2-3 states each, 1-2 letters; exact (all words)")

p("C13", "Hopcroft minimization keeps the language and leaves no equivalent states",
  "For every deterministic automaton, complete or not, Hopcroft's minimization returns an automaton accepting exactly the same words in which no two states accept the same words, with no more states than the input; if all the input states are reachable, so are those of the result.",
  ["inputs"], "Every DFA of up to 3 states over up to 2 letters, including those with no or only final states; words up to a separating length.",
  "Tests minimize two automata.", ["src/pybgl/hopcroft_minimize.py"], [("hopcroft_minimize", "hopcroft_minimize.py")], "2-4 states, 1-2 letters")

p("C14", "Revuz minimization of acyclic automata keeps the language and is minimal",
  "For every acyclic incidence automaton (or incidence node automaton) whose states are all reachable, Revuz minimization merges states so that the same words are accepted and no two remaining states are equivalent, and returns the height of the automaton; states carrying different labels are not merged, and a visitor is told about every merge and every moved transition.",
  ["inputs"], "Every acyclic automaton of up to 4 states over up to 2 letters (unbounded symbols for node automata).",
  "Tests minimize three automata.", ["src/pybgl/revuz_minimize.py", "src/pybgl/incidence_automaton.py", "src/pybgl/incidence_node_automaton.py"], [("revuz_minimize, revuz_height", "revuz_minimize.py")], "<= 4 states, <= 2 letters")

p("C15", "Pruning keeps exactly the useful states",
  "Pruning an incidence automaton leaves exactly the states that are reachable from the initial state and can reach a final state, with all the transitions between them and their final status; the language and the orientation of the graph are unchanged.",
  ["inputs"], "Every DFA of up to 3-4 states over up to 2 letters.",
  "One automaton is tested.", ["src/pybgl/prune_incidence_automaton.py", "src/pybgl/reverse.py", "src/pybgl/depth_first_search.py"], [("prune_incidence_automaton", "prune_incidence_automaton.py")], "<= 3-4 states, <= 2 letters")

p("C16", "Thompson operators compute the right language on any operand",
  "Applied to any NFA with one initial and one final state, the optional, star, plus, concatenation, alternation and bounded or unbounded repetition operators yield an NFA with one initial and one final state whose language is exactly the corresponding one, even when the operand loops on its initial or final state or the operands use their own symbols for epsilon; literals and brackets denote exactly their letters.",
  ["inputs", "programs"], "Every operand of up to 3 states and 2-3 transitions over unbounded letters and epsilon; words of up to 2-4 letters; repetition bounds up to 2-3.",
  "Tests compile a few expressions; operands with loops never reach the operators.", ["src/pybgl/thompson_compile_nfa.py", "src/pybgl/nfa.py"],
  [("zero_or_one / zero_or_more / one_or_more / repetition / repetition_range / concatenation / alternation / literal / bracket", "thompson_compile_nfa.py")], "operands <= 3 states and <= 3 transitions, words <= 4")

p("C17", "A compiled regular expression accepts exactly its language",
  "For every expression built from letters, concatenation, alternation, ?, *, +, {m}, {m,n}, {m,}, {,n}, parentheses, character classes and escape sequences, both the NFA and the DFA compiled from it accept a word exactly when it belongs to the language of the expression. "
  "Escaping a string yields an expression which accepts that string only.",
  ["programs", "inputs"], "Every expression of up to 3 operators over unbounded letters, words of up to 2-4 letters; escaped strings of up to 2-3 special or ordinary characters.",
  "Tests try some tens of (expression, word) pairs; nesting of operators and operator order are sampled.",
  ["src/pybgl/regexp.py", "src/pybgl/thompson_compile_nfa.py", "src/pybgl/shunting_yard_postfix.py", "src/pybgl/moore_determination.py"],
  [("compile_nfa, compile_dfa, re_escape", "regexp.py"), ("tokenizer_re, catify, MAP_OPERATORS_RE", "shunting_yard_postfix.py"), ("thompson_compile_nfa", "thompson_compile_nfa.py")], "<= 3 operators, words <= 4; see DESIGN.md for the grammar left out")

p("C18", "Infix to postfix conversion respects precedence, associativity, parentheses",
  "For every well-formed infix expression with prefix, postfix and binary operators and any table of precedences and associativities (equal precedences sharing their associativity), the shunting-yard conversion yields the postfix form of the syntax tree that the table defines. "
  "The syntax tree built by the library is that tree, its root is set, its parenthesised rendering evaluates alike, and visitors see every output and operator event once.",
  ["programs", "configurations"], "Every expression of up to 3-4 operands, 2 prefix and 1 postfix operators and parentheses; symbolic precedences and associativities.",
  "Tests fix one table and ten expressions.", ["src/pybgl/shunting_yard_postfix.py"], [("shunting_yard_postfix, shunting_yard_ast, Ast", "shunting_yard_postfix.py")], "<= 4-5 operands, <= 4 levels of precedence")

p("C19", "The arithmetic calculator computes the value of the expression",
  "For every arithmetic expression with + - * / ^, unary signs, parentheses, decimal numbers and blanks, tokenization recovers its tokens (telling unary from binary signs) and the calculator returns its value under the usual precedence and associativity rules.",
  ["programs", "inputs"], "Every expression of up to 4 operands and up to 2 unary signs; operands are arbitrary reals or free terms.",
  "Tests evaluate a few literals.", ["src/pybgl/shunting_yard_postfix.py"], [("tokenizer_alg, shunting_yard_compute, MAP_OPERATORS_ALG", "shunting_yard_postfix.py")], "<= 4-5 operands")

p("C20", "Levenshtein distance is the least number of edits",
  "For any two words, the Levenshtein distance and its naive counterpart return the least number of insertions, deletions and substitutions turning one into the other; it is symmetric, null only for equal words.",
  ["inputs"], "Every pair of words of up to 4 letters over an unbounded alphabet.", "A few pairs are tested.",
  ["src/pybgl/levenshtein_distance.py"], [("levenshtein_distance, levenshtein_distance_naive", "levenshtein_distance.py")], "words <= 4 (5), unbounded alphabet")

p("C21", "LCS distance is the least number of insertions and deletions",
  "For any two words, the longest-common-subsequence distance and its naive counterpart return the least number of insertions and deletions turning one into the other.",
  ["inputs"], "Every pair of words of up to 4 letters over an unbounded alphabet.", "A few pairs are tested.",
  ["src/pybgl/lcs_distance.py"], [("lcs_distance, lcs_distance_naive", "lcs_distance.py")], "words <= 4 (5), unbounded alphabet")

p("C22", "Damerau-Levenshtein distance is the optimal string alignment distance",
  "For any two words, the Damerau-Levenshtein distance and its naive counterpart return the least cost of an alignment by insertions, deletions, substitutions and transpositions of adjacent letters, no substring being edited twice.",
  ["inputs"], "Every pair of words of up to 4 letters over an unbounded alphabet.", "A few pairs are tested.",
  ["src/pybgl/damerau_levenshtein_distance.py"], [("damerau_levenshtein_distance, damerau_levenshtein_distance_naive", "damerau_levenshtein_distance.py")], "words <= 4 (5), unbounded alphabet")

p("C23", "BK-tree search returns a closest stored element within the radius",
  "For any metric, any order of insertion and any query, searching a BK-tree (or the part of it below a given node) returns an inserted element at the least distance of the query together with this distance, or nothing exactly if every element is farther than the radius; every element is stored once, below an edge labelled by its distance to the origin of that edge, and inserting it again changes nothing; an element inserted from a given node is stored below it.",
  ["inputs", "histories"], "Every integer metric on up to 4-5 elements (every real one on up to 3) plus a query, any radius; words under Levenshtein's distance.",
  "Tests use one dictionary of words; the triangle inequality cut-off depends on all the distances.",
  ["src/pybgl/bk_tree.py"], [("BKTree.insert / search, make_bk_tree", "bk_tree.py")], "<= 5 elements plus a query; arbitrary integer (<= 3: real) metrics")

p("C24", "A trie recognizes exactly the words inserted",
  "After inserting any words in any order, a trie accepts exactly these words, has exactly one state per distinct prefix, and merging a trie into another one yields the trie of both sets of words, leaving the other intact; inserting a string in any deterministic automaton follows its longest readable prefix, adds one state per remaining letter, and returns the state reached, now final.",
  ["inputs", "histories"], "Up to 4 arbitrary words of up to 2-3 unbounded letters, any probe word; every automaton of up to 3 states.", "A few fixed dictionaries are tested.",
  ["src/pybgl/trie.py", "src/pybgl/automaton.py"], [("Trie.insert, trie_deterministic_fusion", "trie.py"), ("automaton_insert_string", "automaton.py")], "<= 3 words of <= 3 letters")

p("C25", "Trie matching counts the common and the specific words",
  "For any two tries, the four matching counters give exactly the number of prefixes that are words of neither, of the first only, of the second only, and of both.",
  ["inputs"], "Two tries of up to 2 arbitrary words each of up to 2-3 letters.", "One pair is tested.",
  ["src/pybgl/trie_matching.py", "src/pybgl/parallel_breadth_first_search.py"], [("trie_matching, TrieMatchingVisitor", "trie_matching.py")], "<= 2 words per trie")

p("C26", "Suffix and factor tries hold exactly the expected factors",
  "For any word and any bound on the length, the slices, factors and suffix trie computed from it hold exactly the factors of the word no longer than the bound, and nothing else.",
  ["inputs"], "Every word of up to 4 unbounded letters, any bound (0 included).", "Three words are tested.",
  ["src/pybgl/suffix_trie.py"], [("slices, factors, make_suffix_trie", "suffix_trie.py")], "words <= 4-5")

p("C27", "A digital sequence behaves as the linear automaton of its word",
  "The automaton wrapping a word has one state per position, exactly one transition per letter, the last state as only final state, and all its accessors (delta, sigma, alphabet, edges, vertices, finals, runs) agree with it; it refuses modifications.",
  ["inputs"], "Every word of up to 4 unbounded letters, every observer.", "One word is tested.",
  ["src/pybgl/digital_sequence.py"], [("DigitalSequence", "digital_sequence.py")], "words <= 4-5")

p("C28", "Breadth first search visits what is reachable, level by level",
  "On any graph, breadth first search from one or several distinct sources discovers exactly the vertices reachable through unfiltered edges and unvisited vertices, each once and in order of distance, examines each of their edges once, classifies each edge as tree or not, and leaves exactly the visited vertices marked as done. "
  "Visitor events occur in the documented order.",
  ["inputs", "histories"], GRAPHS + ", undirected graphs, every edge filter and every set of already visited vertices.",
  "Three graphs are tested, without filters or pre-visited vertices.", ["src/pybgl/breadth_first_search.py", "src/pybgl/graph_traversal.py"],
  [("breadth_first_search, breadth_first_search_graph", "breadth_first_search.py")], "<= 3-4 vertices (5 sparse)")

p("C29", "Depth first search nests its visits and classifies every edge",
  "On any directed graph, depth first search from given sources or everywhere discovers exactly the reachable unvisited vertices, each once, with properly nested discovery and finish events; every examined edge is classified as tree, back or forward/cross edge exactly according to the state of its target.",
  ["inputs", "histories"], GRAPHS + ", every edge filter and every set of already visited vertices.",
  "Two graphs are tested.", ["src/pybgl/depth_first_search.py", "src/pybgl/graph_traversal.py"], [("depth_first_search, depth_first_search_graph", "depth_first_search.py")], "<= 3-4 vertices (5 sparse)")

p("C30", "Topological sort orders every acyclic graph and rejects every cyclic one",
  "For every directed graph, topological sort returns each vertex once with the source of every edge before its target if the graph is acyclic, and fails otherwise; a deque passed by the caller receives the result.",
  ["inputs"], "Every directed multigraph of up to 3-4 vertices, every acyclic graph of up to 5.", "Two graphs are tested.",
  ["src/pybgl/topological_sort.py", "src/pybgl/depth_first_search.py"], [("topological_sort, TopologicalSortVisitor", "topological_sort.py")], "<= 4 vertices, DAGs <= 5")

p("C31", "Strong components group exactly the mutually reachable vertices",
  "For every directed graph, two vertices get the same component identifier exactly if each can reach the other, identifiers are 0..k-1 where k is the number returned, and an edge never leads to a component with a greater identifier.",
  ["inputs"], "Every directed multigraph of up to 3-4 vertices, subgraphs of a fixed sparse graph of 5.", "One graph is tested.",
  ["src/pybgl/strong_components.py", "src/pybgl/depth_first_search.py"], [("strong_components, TarjanVisitor", "strong_components.py")], "<= 4 vertices (5 sparse)")

p("C32", "Dijkstra computes all the shortest paths",
  "For any directed multigraph with non-negative weights and any source, the distances computed are the least sums of weights, unreachable vertices keep an infinite one, and with positive weights the predecessors recorded for a vertex are exactly the last arcs of its shortest paths. "
  "The path, and the graph of shortest paths, extracted towards a reachable target consist of shortest paths only, and the graph of shortest paths holds all of them.",
  ["inputs"], "Every multigraph of up to 3-4 vertices and fixed shapes of up to 6, arbitrary real weights (null included where meaningful).",
  "Tests fix the weights of two graphs; ties, zero weights and parallel arcs are not covered.",
  ["src/pybgl/dijkstra_shortest_paths.py", "src/pybgl/heap.py"], [("dijkstra_shortest_paths, dijkstra_shortest_path, make_shortest_paths_dag, make_shortest_path", "dijkstra_shortest_paths.py")], "<= 3 vertices in full, fixed shapes of 4-6 vertices; all real weights in [0, 10^12]")

p("C33", "Dijkstra honours the caller's comparison and combination of weights",
  "With a comparison (strict or not) and a combination passed by the caller, as for widest or minimax paths, the values computed are the best ones over all the paths, and the recorded predecessors and the extracted path are consistent with them.",
  ["inputs", "configurations"], "Every multigraph of up to 3 vertices and fixed shapes, arbitrary positive weights, five (comparison, combination) pairs.",
  "Tests never pass another algebra on a graph with ties.", ["src/pybgl/dijkstra_shortest_paths.py", "src/pybgl/algebra.py", "src/pybgl/heap.py"],
  [("dijkstra_shortest_paths(compare, combine, zero, infty)", "dijkstra_shortest_paths.py")], "<= 3 vertices, fixed shapes of 4-5")

p("C34", "The heap always serves a best element",
  "After any sequence of pushes, key decreases and pops under a total preorder, the heap pops an element whose current key is best, the oldest one among ties, reports its size, emptiness and membership faithfully, and empties in order of keys.",
  ["histories", "inputs"], "Up to 3 initial elements then up to 2-3 operations with arbitrary keys, for <=, >= and the default order.",
  "Tests push fixed sequences of integers.", ["src/pybgl/heap.py"], [("Heap.push / pop / decrease_key, Comparable, compare_to_key", "heap.py")], "<= 4 elements, <= 3 operations")

p("C35", "The vertex cut derived from an edge cut separates the source from the leaves",
  "On any directed graph and for any edge cut, the vertex cut holds exactly the targets of the cut edges met when exploring the graph from the source without crossing a cut edge, and the vertices without successor met then; every path from the source to a vertex without successor meets it.",
  ["inputs"], "Every acyclic multigraph of up to 5 vertices and every directed multigraph of up to 3 vertices (self-loops included), and every edge predicate.", "One graph is tested.",
  ["src/pybgl/cut.py", "src/pybgl/depth_first_search.py"], [("cut, IsCutVisitor", "cut.py")], "<= 4 vertices")

p("C36", "Tree traversals visit every node of the subtree once, in order",
  "On any forest, the depth first and breadth first tree traversals visit exactly the nodes of the subtree of the source, each once, in depth first (parents before children) and level order respectively.",
  ["inputs"], "Every forest of up to 5 vertices, every source.", "One tree is tested.",
  ["src/pybgl/graph_traversal.py"], [("dfs_tree, bfs_tree", "graph_traversal.py")], "<= 5-6 vertices")

p("C37", "Copying or extracting a subgraph keeps exactly the selected part",
  "For any directed graph, source and vertex and edge filters, the copy holds exactly one vertex per selected vertex reachable from the source through selected edges and one edge per selected edge between them, with the given property maps relating originals and copies; extraction reports exactly these vertices and edges through its callbacks.",
  ["inputs"], GRAPHS + ", every vertex and edge predicate, copy into an empty or non-empty graph.", "Two graphs are tested with one filter.",
  ["src/pybgl/graph_copy.py", "src/pybgl/graph_extract.py"], [("graph_copy, GraphCopyVisitor", "graph_copy.py"), ("graph_extract, GraphExtractVisitor", "graph_extract.py")], "<= 3 vertices, <= 2 parallel edges")

p("C38", "Copying an automaton keeps exactly the selected part",
  "For any automaton, source state and state and transition filters, the copy holds exactly the selected reachable states and transitions with their letters, initial and final status, and the property maps relate originals and copies; an unfiltered copy recognizes the same words.",
  ["inputs"], "Every DFA of up to 3 states over up to 2 letters, every state and transition predicate.", "One automaton is tested.",
  ["src/pybgl/automaton_copy.py", "src/pybgl/graph_copy.py"], [("automaton_copy, AutomatonCopyVisitor", "automaton_copy.py")], "<= 3 states, <= 2 letters")

p("C39", "Graph views show exactly the filtered graph and compose by set operations",
  "A view of a graph shows exactly the vertices that its vertex predicate keeps and the edges that its edge predicate keeps between visible vertices, in every enumeration, count and degree; the intersection, union and difference of two views show what set operations on their visible parts give, and traversals of a view explore what is visible.",
  ["inputs", "programs"], GRAPHS + ", every vertex and edge predicate, two views combined.", "Tests use one graph and fixed predicates.",
  ["src/pybgl/graph_view.py"], [("GraphView.vertices/edges/out_edges, __and__, __or__, __sub__", "graph_view.py")], "<= 3 vertices, <= 2 parallel edges")

p("C40", "Parallel breadth first search follows two automata in lockstep",
  "On any two deterministic automata, parallel breadth first search discovers each reachable pair of states once (a side being dead once its transition is missing), follows every transition available on either side once, and calls the visitor with the right graphs and colours; pairs refused by the filter are not explored.",
  ["inputs"], "Every pair of DFAs of up to 3 states over up to 2 letters, every filter on pairs.", "Only its clients are tested.",
  ["src/pybgl/parallel_breadth_first_search.py"], [("parallel_breadth_first_search", "parallel_breadth_first_search.py")], "2-3 states each, 1-2 letters")

p("C41", "Automata built from a list of transitions have exactly these transitions",
  "Building an automaton (or node automaton) from any list of named transitions yields one state per name, the transitions of the list (the first one winning when two leave the same state by the same letter), the initial state and the final states given.",
  ["inputs"], "Every list of up to 3 transitions between up to 3 names, every initial state and set of finals.", "Tests build a few fixed automata.",
  ["src/pybgl/automaton.py", "src/pybgl/node_automaton.py"], [("make_automaton", "automaton.py"), ("make_node_automaton", "node_automaton.py")], "<= 3-4 transitions, <= 3 names")

p("C42", "Graphviz export describes exactly the graph, and reading it rebuilds it",
  "Exporting any graph, graph view or selection of vertices and edges to Graphviz yields one node per vertex and one edge per edge, with exactly the attributes given by the property maps, final states of automata as double circles and transitions labelled by their escaped letters, trees with their elements; the identifiers, styles and extra instructions chosen by the caller are used; exporting leaves the caller's dictionaries alone. "
  "Reading the text of a directed graph back rebuilds it, and HTML escaping keeps supported tags and escapes every other special character.",
  ["inputs", "configurations"], "Every multigraph of up to 2-3 vertices, selection, colouring; every DFA of up to 2-3 states; every string of up to 3-4 characters over small alphabets.",
  "Tests compare a few fixed strings.", ["src/pybgl/graphviz_impl.py", "src/pybgl/graphviz.py", "src/pybgl/graph.py", "src/pybgl/automaton.py", "src/pybgl/graph_view.py"],
  [("to_dot, vertex_to_graphviz, edge_to_graphviz, graphviz_escape_html, enrich_kwargs", "graphviz_impl.py"), ("read_graphviz", "graphviz.py")], "<= 3 vertices; strings <= 4")

p("C43", "Tokenization partitions the text into matches and gaps",
  "For any text and pattern, tokenization reports successive pieces which rebuild the text, the matched ones being exactly the successive non-overlapping matches of the pattern and the others what lies between, with right positions.",
  ["inputs"], "Every text of up to 6 letters over {a, b, c} and each pattern of a fixed list.", "Two texts are tested.",
  ["src/pybgl/tokenize.py"], [("tokenize", "tokenize.py")], "texts <= 6, 13 patterns")

p("C44", "Character classes, escapes and repetition bounds denote the right sets",
  "Parsing a bracket expression (characters, ranges, escaped classes, leading and trailing hyphens, complement), an escape sequence or a repetition operator yields exactly the set of characters or the bounds it denotes, relative to the alphabet given; malformed ones are refused.",
  ["inputs"], "Every bracket expression of up to 2 items with arbitrary characters; every escape sequence; repetition bounds of up to 2 arbitrary digits.", "Tests try a dozen brackets.",
  ["src/pybgl/thompson_compile_nfa.py"], [("parse_bracket, parse_escaped, parse_repetition", "thompson_compile_nfa.py")], "<= 2 items, <= 2 digits")

p("C45", "HSV and HSL colour conversions agree and are mutually inverse",
  "For every colour, converting between HSV and HSL keeps the hue and the greatest and least components, stays within [0, 1], and converting back restores the colour (the saturation only where it is defined); normalization maps the usual ranges onto [0, 1]. An HTML colour hsl(h, s%, l%) becomes its normalized HSV triple however it is spaced, and any other colour is left as it is.",
  ["inputs"], "All real components in [0, 1].", "A few colours are tested; floats are sampled.",
  ["src/pybgl/color.py"], [("hsv_to_hsl, hsl_to_hsv, normalize_color_tuple, html_color_to_graphviz", "color.py")], "all real components (exact arithmetic), tolerance 1e-9")

p("C46", "An aggregated visitor forwards every event to every visitor, in order",
  "Whatever the traversal and the graph, each visitor of an aggregated visitor receives every event with the same positional and keyword arguments as if it were alone, in the order of the list, and can be retrieved by its type.",
  ["inputs"], GRAPHS + ", three traversals; arbitrary arguments.", "One traversal is tested.",
  ["src/pybgl/aggregated_visitor.py"], [("AggregatedVisitor", "aggregated_visitor.py")], "<= 3 vertices")

p("C47", "Property maps and weight operators obey their laws",
  "A read-write property map returns the last value written for a key, or the default; read-only maps return their function's value and refuse writes. The closed operators (plus, times, max, min) are commutative, absorb their absorbing element and otherwise compute the usual operation.",
  ["histories", "inputs"], "Every sequence of up to 3 reads and writes with arbitrary values; all non-negative real operands.", "A few values are tested.",
  ["src/pybgl/property_map.py", "src/pybgl/algebra.py"], [("make_assoc_property_map, make_func_property_map, put, get", "property_map.py"), ("ClosedOperator", "algebra.py")], "3-5 operations")

p("C48", "Styled graphs export their style without side effects",
  "Exporting a graph bundled with its style yields its vertices, edges, per-element properties, default styles and extra style, the arguments of the call taking priority; no dictionary of the caller is modified, and the JSON export is valid JSON with the same content (or the chosen part of it) whatever the attribute values. Exports follow the global style as last set, of which each styled graph owns a copy.",
  ["inputs", "configurations"], "Every multigraph of up to 2-3 vertices, choices of styles and overriding arguments.", "Tests only check that the calls succeed.",
  ["src/pybgl/graph_dp.py", "src/pybgl/graphviz_impl.py"], [("GraphDp.to_dot, GraphDp.to_json", "graph_dp.py"), ("enrich_kwargs, GraphvizStyle", "graphviz_impl.py")], "<= 3 vertices")

p("C49", "Edge descriptors are values",
  "Two edge descriptors are equal exactly if they have the same source, the same target and the same distinguisher (number, letter, or letter and number), and none of them equals None. "
  "Equal descriptors have the same hash, so sets and dictionaries hold each edge once, parallel edges being different elements; descriptors are ordered by source, then target, then distinguisher.",
  ["inputs"], "All integers as vertices and numbers, unbounded letters.", "No unit test compares descriptors.",
  ["src/pybgl/graph.py"], [("EdgeDescriptor.__eq__, __hash__, __lt__", "graph.py")], "three descriptors; small integers where they are hashed")

p("C50", "A graph exported with its properties is read back with them",
  "Exporting a directed multigraph with vertex and edge properties (other than the HTML label), then reading the text with read_graphviz_dp into an empty graph, rebuilds the vertices, the edges, and the value (as a string) of every property for which the caller passes a property map; elements without value get none, and the attributes the caller did not ask for are ignored.",
  ["inputs", "configurations"], "Every multigraph of up to 3 vertices, values present, absent, empty or holding separators, any choice of properties.", "read_graphviz_dp is not tested.",
  ["src/pybgl/graphviz.py", "src/pybgl/graphviz_impl.py"], [("read_graphviz_dp, ReadGraphvizDpVisitor", "graphviz.py"), ("graphviz_properties_to_str", "graphviz_impl.py")], "<= 3 vertices, <= 2 parallel edges")

p("C51", "Rendering hands the exact text to Graphviz and its output to the caller",
  "Rendering a graph calls the program dot once, with the requested format and engine and exactly the exported text as input; its output is returned, written to the file or displayed unchanged (text for SVG, bytes for a binary format), on the requested background; if dot fails a RuntimeError is raised and nothing is written or displayed. The notebook helpers nest the content they are given, unchanged, and tell notebooks from other programs.",
  ["inputs", "fault_sequences", "configurations"], "Every multigraph of up to 2-3 vertices, any exit status of dot, engines, formats, files given by path or open, background colours.",
  "Tests need dot to be installed and only check that the calls succeed; write_graphviz was not tested.",
  ["src/pybgl/graphviz.py", "src/pybgl/ipynb.py", "src/pybgl/html.py"], [("run_graphviz, write_graphviz, dot_to_svg, graph_to_html", "graphviz.py"), ("ipynb_display_graph, display_svg, display_body, background_template_html, in_ipynb", "ipynb.py"), ("beside", "html.py")],
  "<= 2-3 vertices; dot and IPython are stand-ins")

NA = []

TECH = ("symbolic execution of the Python source (proxy values, path forking) with Z3 deciding every branch and assertion within "
        "the bounds; counterexamples are replayed on the real code")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(dict(
                id=x["id"], title=x["title"], statement=x["statement"],
                quantifier=dict(over=x["over"], text=x["text"]), why_tests_cant=x["why"],
                anchors=dict(files=x["files"], mechanism=[dict(name=n, where="src/pybgl/" + w) for n, w in x["mech"]], hook_needed=None))) + "\n")
    m = dict(version=1, setup_cmd="bin/setup",
             checks=[dict(property=x["id"], quick_cmd=f"bin/check {x['id']} --tier quick", thorough_cmd=f"bin/check {x['id']} --tier thorough",
                          evidence_file=f"evidence/{x['id']}.json", technique=TECH, level="model_checking",
                          level_note="exhaustive within bounds: " + x["note"]) for x in P],
             not_applicable=NA,
             notes="The program dot and IPython are replaced by stand-ins which record what they are given (C51); see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def between(text, a, b, new):
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + new + "\n" + text[j:]


def design():
    import glob
    import re
    import sys
    jobs, scenes = {}, {}
    sys.path.insert(0, HERE)
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    for f in sorted(glob.glob(os.path.join(HERE, "harness", "*.py"))):
        import ast
        for n in ast.parse(open(f).read()).body:
            if not isinstance(n, ast.FunctionDef):
                continue
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "job":
                    kw = {k.arg: ast.unparse(k.value) for k in d.keywords}
                    doc = re.sub(r"\s+", " ", ast.get_docstring(n) or "")
                    if isinstance(d.args[0], ast.Name):
                        continue
                    jobs.setdefault(d.args[0].value, []).append((os.path.basename(f), n.name, doc, kw.get("quick", ""), kw.get("thorough", "")))
                elif isinstance(d, ast.Call) and getattr(d.func, "id", "") in ("scene", "live"):
                    for a in d.args:
                        scenes.setdefault((a.value, os.path.basename(f)), []).append(n.name)
    out = []
    clean = lambda t: t.replace("dict(", "(")
    for x in P:
        out.append(f"### {x['id']} {x['title']}\n")
        out.append("Files: " + ", ".join(f"`{os.path.basename(f)}`" for f in x["files"]) + ". " + x["why"] + "\n")
        for f, name, doc, q, t in jobs[x["id"]]:
            out.append(f"* `{f}:{name}` — {doc}  ")
            out.append(f"  quick `{clean(q)}`" + (f"; thorough adds `{clean(t)}`" if t else "") + ".")
        for f in ("independence.py", "freshness.py", "deep.py"):
            if (x["id"], f) in scenes:
                out.append(f"* `{f}` — " + ", ".join(f"`{n}`" for n in scenes[x["id"], f]) + ".")
        out.append("")
    p = os.path.join(HERE, "DESIGN.md")
    s = between(open(p).read(), "<!-- table -->", "<!-- end -->", "\n".join(out))
    open(p, "w").write(s)


if __name__ == "__main__":
    main()
    design()
