"""Calls are independent of one another: for most of the properties, one more
harness whose inputs are small and partly symbolic, and which checks that

- the result of a call is left as it was by a later call on other inputs, and
  by what the caller does with the result of that call;
- the same call made again gives the same answer, whatever was called before
  and whatever the caller did with the earlier results.

`make(i)` builds a fresh input (two of them, i = 0 and 1) and calls the code;
`view` reads a result; `spoil` changes a result as a caller may do.
"""
from collections import defaultdict, deque
from itertools import product
from .common import *
from pybgl.property_map import make_assoc_property_map, make_func_property_map

SCENES = {}


def scene(*props, thorough=False):
    """register the scene as a job of each property"""
    def deco(f):
        SCENES[f.__name__] = f
        for p in props:
            job(p, quick=[dict(scene=f.__name__)], reset=True)(independence)
        return f
    return deco


def alike(x, y):
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and And([alike(a, b) for a, b in zip(x, y)] or [True])
    if x is None or y is None or isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        return x is y
    return Eq(x, y)


def independence(ctx, scene):
    """two calls on different inputs, in either order, then both again; the
    results are edited by the caller in between."""
    make, view, spoil = SCENES[scene](ctx)
    i = ctx.choice("first", [0, 1])
    a = make(i)
    va = view(a)
    b = make(1 - i)
    vb = view(b)
    ctx.check(alike(view(a), va), f"{scene}: a result is left as it was by another call")
    spoil(b)
    ctx.check(alike(view(a), va), f"{scene}: a result is left as it was by changes to another result")
    spoil(a)
    ctx.check(alike(view(make(i)), va), f"{scene}: the same call gives the same answer again")
    ctx.check(alike(view(make(1 - i)), vb), f"{scene}: calls do not depend on what was done with earlier results")


def nothing(r):
    pass


WORDS = [w for n in range(4) for w in product("ab", repeat=n)]
TR = [[(0, 1, "a"), (1, 0, "b"), (1, 1, "a")], [(0, 1, "b"), (1, 2, "a"), (2, 2, "b"), (0, 0, "a")]]


def flags(ctx):
    return [[ctx.bool(f"f{i}_{q}") for q in range(3)] for i in range(2)]


def make_dfa(i, f, cls=None, tr=TR):
    from pybgl.automaton import Automaton
    g = (cls or Automaton)(2 + i)
    for q, r, a in tr[i]:
        g.add_edge(q, r, a)
    for q in range(2 + i):
        g.set_final(q, f[i][q])
    return g


def language(g):
    return [g.accepts("".join(w)) for w in WORDS]


def spoil_dfa(g):
    q = g.add_vertex()
    g.set_final(q)
    p = g.initial()
    g.set_final(p, Not(g.is_final(p)))
    for e in list(g.edges()):
        g.remove_edge(e)
    g.add_edge(p, q, "a")


# ------------------------------------------------------------------- stores
def store(ctx, cls, edge):
    """two objects of one class never share anything"""
    vs = [[ctx.choice(f"v{i}{k}", [0, 1]) for k in range(2)] for i in range(2)]

    def make(i):
        g = cls()
        for k in range(2 + i):
            edge(g, None, None, None)
        for k, v in enumerate(vs[i]):
            edge(g, k, v, "ab"[k])
        return g

    def view(g):
        return sorted(g.vertices()), sorted((e.source, e.target, str(e.distinguisher)) for e in g.edges())

    def spoil(g):
        for e in list(g.edges()):
            g.remove_edge(e)
        edge(g, None, None, None)
        edge(g, 1, 0, "a")
        g.remove_vertex(0)
    return make, view, spoil


def plain_edge(g, u, v, a):
    if u is None:
        g.add_vertex()
    else:
        g.add_edge(u, v)


def label_edge(g, u, v, a):
    if u is None:
        g.add_vertex()
    else:
        g.add_edge(u, v, a)


@scene("C01")
def directed_graphs(ctx):
    from pybgl.graph import DirectedGraph
    return store(ctx, DirectedGraph, plain_edge)


@scene("C02")
def undirected_graphs(ctx):
    from pybgl.graph import UndirectedGraph
    return store(ctx, UndirectedGraph, plain_edge)


@scene("C03")
def incidence_graphs(ctx):
    from pybgl.incidence_graph import IncidenceGraph
    make, view, spoil = store(ctx, IncidenceGraph, plain_edge)

    def view2(g):
        return view(g), sorted((e.source, e.target, e.distinguisher) for u in g.vertices() for e in g.in_edges(u))
    return make, view2, spoil


@scene("C04")
def automata(ctx):
    from pybgl.automaton import Automaton
    make, view, spoil = store(ctx, Automaton, label_edge)
    f = flags(ctx)
    given = ctx.choice("pmap", [False, True])

    def make2(i):
        g = make(i)
        if given:
            g = Automaton(2 + i, pmap_vfinal=make_assoc_property_map(defaultdict(bool)))
        for q in range(2 + i):
            g.set_final(q, f[i][q])
        g.set_initial(i)
        return g

    def view2(g):
        return view(g), [g.is_final(q) for q in g.vertices()], g.initial(), sorted(g.alphabet())

    def spoil2(g):
        for q in list(g.vertices()):
            g.set_final(q, Not(g.is_final(q)))
        spoil(g)
        g.set_initial(1)
    return make2, view2, spoil2


@scene("C05")
def incidence_automata(ctx):
    from pybgl.incidence_automaton import IncidenceAutomaton
    make, view, spoil = store(ctx, IncidenceAutomaton, label_edge)

    def view2(g):
        return view(g), sorted((e.source, e.target, e.distinguisher) for u in g.vertices() for e in g.in_edges(u))
    return make, view2, spoil


@scene("C06")
def node_automata(ctx):
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    sy = [[ctx.sym(f"s{i}{q}") for q in range(2)] for i in range(2)]

    def make(i):
        g = IncidenceNodeAutomaton()
        q = g.add_vertex(sy[i][0])
        r = g.add_vertex(sy[i][1])
        g.add_edge(q, r)
        g.add_edge(r, r if i else q)
        g.set_final(i)
        return g

    def view(g):
        vs = sorted(g.vertices())
        return vs, [g.symbol(q) for q in vs], sorted((e.source, e.target) for e in g.edges()), [g.is_final(q) for q in vs]

    def spoil(g):
        g.set_final(0)
        q = g.add_vertex("z")
        g.add_edge(0, q)
        g.remove_vertex(1)
    return make, view, spoil


@scene("C07")
def dfa_words(ctx):
    f = flags(ctx)
    return lambda i: make_dfa(i, f), lambda g: (language(g), [g.delta_word(0, w) for w in WORDS]), spoil_dfa


def make_nfa(i, f):
    from pybgl.nfa import Nfa
    g = Nfa(3)
    for q, r, a in [[(0, 1, "a"), (0, 0, "a"), (1, 2, "b")], [(0, 1, g.epsilon), (1, 1, "b"), (1, 2, "a"), (2, 0, g.epsilon)]][i]:
        g.add_edge(q, r, a)
    for q in range(3):
        g.set_final(q, f[i][q])
    return g


def spoil_nfa(g):
    q = g.add_vertex()
    for p in list(g.vertices()):
        g.set_final(p, Not(g.is_final(p)))
    g.set_initial(q)
    for e in list(g.edges()):
        g.remove_edge(e)
    g.add_edge(0, q, "a")


@scene("C08")
def nfas(ctx):
    f = flags(ctx)

    def view(g):
        return (language(g), sorted(g.initials), sorted(g.alphabet()),
                sorted((e.source, e.target, g.label(e)) for e in g.edges()))
    return lambda i: make_nfa(i, f), view, spoil_nfa


@scene("C09")
def determinizations(ctx):
    from pybgl.moore_determination import moore_determination
    f = flags(ctx)
    g = [make_nfa(i, f) for i in range(2)]
    complete = ctx.choice("complete", [True, False])
    return lambda i: moore_determination(g[i], complete=complete), language, spoil_dfa


def products(name):
    def f(ctx):
        op = getattr(module(name), name)
        fl = flags(ctx)
        g = [make_dfa(i, fl) for i in range(2)]
        return lambda i: op(g[i], g[1 - i] if i else g[0]), language, spoil_dfa
    f.__name__ = name + "s"
    return f


scene("C10")(products("deterministic_union"))
scene("C11")(products("deterministic_intersection"))


@scene("C12")
def inclusions(ctx):
    from pybgl.deterministic_inclusion import deterministic_inclusion
    f = flags(ctx)
    g = [make_dfa(i, f) for i in range(2)]
    return lambda i: deterministic_inclusion(g[i], g[1 - i]), lambda r: [r], nothing


@scene("C13")
def minimizations(ctx):
    from pybgl.hopcroft_minimize import hopcroft_minimize
    from pybgl.incidence_automaton import IncidenceAutomaton
    f = flags(ctx)
    return (lambda i: hopcroft_minimize(make_dfa(i, f, IncidenceAutomaton)),
            lambda g: (language(g), g.num_vertices()), spoil_dfa)


@scene("C14")
def revuz_minimizations(ctx):
    from pybgl.revuz_minimize import revuz_minimize
    from pybgl.incidence_automaton import IncidenceAutomaton
    f = flags(ctx)
    tr = [[(0, 1, "a"), (0, 1, "b")], [(0, 1, "b"), (0, 2, "a"), (1, 2, "b")]]

    def make(i):
        g = make_dfa(i, f, IncidenceAutomaton, tr)
        return g, revuz_minimize(g)
    return make, lambda r: (language(r[0]), r[0].num_vertices(), r[1]), lambda r: spoil_dfa(r[0])


@scene("C15")
def prunings(ctx):
    from pybgl.prune_incidence_automaton import prune_incidence_automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    f = flags(ctx)

    def make(i):
        g = make_dfa(i, f, IncidenceAutomaton)
        prune_incidence_automaton(g)
        return g
    return make, lambda g: (language(g), sorted(g.vertices())), lambda g: g.has_vertex() and g.initial() in set(g.vertices()) and spoil_dfa(g)


@scene("C16")
def thompson_operators(ctx):
    T = module("thompson_compile_nfa")
    op = ctx.choice("op", ["literal", "bracket", "alternation", "concatenation", "zero_or_one", "zero_or_more", "one_or_more", "repetition"])
    x = ctx.sym("x", "ab")

    def make(i):
        one = T.literal(x) if i else T.bracket({"a", "b"})
        if op == "literal":
            return T.literal("ab"[i])
        if op == "bracket":
            return T.bracket(["ab", "b"][i])
        if op in ("alternation", "concatenation"):
            return getattr(T, op)(*one, *T.literal("b"))
        if op == "repetition":
            return T.repetition(*one, 1 + i)
        return getattr(T, op)(*one)
    return make, lambda r: (language(r[0]), r[1], r[2]), lambda r: spoil_nfa(r[0])


@scene("C17")
def compilations(ctx):
    from pybgl.regexp import compile_dfa, compile_nfa
    e = ctx.choice("e", [("ab*", "a|b"), ("(ab)+", "ab"), ("[ab]?", "[a]"), ("a{2}", "a{1,3}"), ("", "a")])
    kind = ctx.choice("kind", ["nfa", "dfa", "complete"])
    f = {"nfa": compile_nfa, "dfa": compile_dfa, "complete": lambda s: compile_dfa(s, complete=True)}[kind]
    x = ctx.sym("x", "ab")
    y = ctx.sym("y", "ab")

    def view(g):
        return language(g), g.accepts(x + y), sorted(g.alphabet())
    return lambda i: f(e[i]), view, spoil_nfa if kind == "nfa" else spoil_dfa


@scene("C18")
def postfix_conversions(ctx):
    S = module("shunting_yard_postfix")
    x = ctx.sym("x", "+*-/")
    es = [["1", x, "2"], ["(", "1", "+", "2", ")", x, "3"]]
    kind = ctx.choice("kind", ["postfix", "ast", "re"])
    if kind == "re":
        es = [["a", "|", "b"], ["a", ".", "b", "*"]]

    def make(i):
        if kind == "ast":
            return deque(), S.shunting_yard_ast(es[i], S.MAP_OPERATORS_ALG)[0]
        return S.shunting_yard_postfix(es[i], S.MAP_OPERATORS_RE if kind == "re" else S.MAP_OPERATORS_ALG), None

    def view(r):
        out = list(r[0])
        t = r[1]
        if t is not None:
            vs = sorted(t.vertices())
            out += [t.root, [t.symbol(u) for u in vs], [list(t.children(u)) for u in vs]]
        return out

    def spoil(r):
        r[0].clear()
        if r[1] is not None:
            u = r[1].add_vertex("9")
            r[1].add_edge(r[1].root, u)
            r[1].root = u
    return make, view, spoil


@scene("C19")
def computations(ctx):
    S = module("shunting_yard_postfix")
    x = ctx.choice("x", ["+", "*", "-", "/"])
    xs = [f"1{x}2*3", f"-(4{x}6)/2"]
    return lambda i: S.shunting_yard_compute(xs[i]), lambda r: [r], nothing


# -------------------------------------------------------------------- words
def distances(name, modname):
    def f(ctx):
        d = getattr(module(modname), name)
        ws = [[ctx.word(f"x{i}", 2, alpha="ab"), ctx.word(f"y{i}", 2, alpha="ab")] for i in range(2)]
        return lambda i: d(*ws[i]), lambda r: [r], nothing
    f.__name__ = name + "s"
    return f


scene("C20")(distances("levenshtein_distance", "levenshtein_distance"))
scene("C21")(distances("lcs_distance", "lcs_distance"))
scene("C22")(distances("damerau_levenshtein_distance", "damerau_levenshtein_distance"))


@scene("C23")
def bk_trees(ctx):
    from pybgl.bk_tree import BKTree
    from pybgl.levenshtein_distance import levenshtein_distance
    ws = [[ctx.word(f"w{i}{k}", 1 + k, alpha="ab") for k in range(2)] for i in range(2)]

    def make(i):
        t = BKTree(levenshtein_distance)
        for w in ws[i]:
            t.insert(w)
        return t

    def view(t):
        return [t.search(x, 4) for x in ("a", "bb", "aba")], t.num_vertices()

    def spoil(t):
        t.insert("bbbb")
        t.insert("aba")
    return make, view, spoil


@scene("C24")
def tries(ctx):
    from pybgl.trie import Trie
    ws = [[ctx.word(f"w{i}{k}", 1 + k, alpha="ab") for k in range(2)] for i in range(2)]

    def make(i):
        t = Trie()
        for w in ws[i]:
            t.insert(w)
        return t

    def spoil(t):
        t.insert("bba")
        t.insert("")
    return make, lambda t: (language(t), t.num_vertices()), spoil


@scene("C25")
def matchings(ctx):
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    ws = [ctx.word(f"w{i}", 2, alpha="ab") for i in range(2)]
    t = [Trie(), Trie()]
    for i in range(2):
        t[i].insert(ws[i])
    t[1].insert("a")

    def spoil(r):
        r[0] += 7
        r[3] = 0
    return lambda i: trie_matching(t[i], t[1]), list, spoil


@scene("C26")
def suffix_tries_apart(ctx):
    from pybgl.suffix_trie import make_suffix_trie, factors
    ws = [ctx.word(f"w{i}", 3, alpha="ab") for i in range(2)]
    m = [ctx.choice("m0", [None, 1, 2]), ctx.choice("m1", [None, 2])]

    def make(i):
        t = make_suffix_trie(ws[i], m[i])
        return t, list(factors("aab"[i:], m[i]))

    def spoil(r):
        for e in list(r[0].edges()):
            r[0].remove_edge(e)
        r[0].add_edge(0, r[0].add_vertex(), "a")
        r[1].clear()
    return make, lambda r: (language(r[0]), r[0].num_vertices(), list(r[1])), spoil


@scene("C27")
def digital_sequences(ctx):
    from pybgl.digital_sequence import DigitalSequence
    ws = [ctx.word(f"w{i}", 2 + i, alpha="ab") for i in range(2)]

    def view(t):
        return language(t), t.num_vertices(), [(e.source, e.target) for q in t.vertices() for e in t.in_edges(q)]
    return lambda i: DigitalSequence(ws[i]), view, nothing


# --------------------------------------------------------------- algorithms
ARCS = [[(0, 1), (1, 2)], [(0, 2), (2, 1), (1, 0)]]


def digraph(ctx, cls=None, skip=()):
    """-> graph(i): three vertices, two or three arcs and one more whose ends are choices"""
    from pybgl.graph import DirectedGraph
    more = ctx.choice("more", [p for p in [None, (0, 2), (2, 0), (1, 1)] if p not in skip])

    def graph(i):
        g = (cls or DirectedGraph)(3)
        for u, v in ARCS[i] + ([more] if more else []):
            g.add_edge(u, v)
        return g
    return graph


def recorder(cls, events):
    """a visitor noting every call"""
    ns = {n: (lambda n: lambda self, *a: events.append((n, *[x if isinstance(x, int) else (x.source, x.target) for x in a[:-1]])))(n)
          for n in dir(cls) if not n.startswith("_")}
    return type("V", (cls,), ns)()


@scene("C28")
def breadth_first_searches(ctx):
    B = module("breadth_first_search")
    graph = digraph(ctx)
    s = ctx.choice("s", [0, 1])

    def make(i):
        col = defaultdict(int)
        ev = []
        kw = {}
        if given != "visitor":
            kw["pmap_vcolor"] = make_assoc_property_map(col)
        if given != "map":
            kw["vis"] = recorder(B.DefaultBreadthFirstSearchVisitor, ev)
        B.breadth_first_search(s, graph(i), **kw)
        return col, ev
    given = ctx.choice("given", ["map", "visitor", "both"])
    return make, lambda r: (sorted(r[0].items()), list(r[1])), lambda r: (r[0].clear(), r[1].clear())


@scene("C29")
def depth_first_searches(ctx):
    D = module("depth_first_search")
    graph = digraph(ctx)
    s = ctx.choice("s", [0, 1])
    given = ctx.choice("given", ["map", "visitor", "both"])

    def make(i):
        col = defaultdict(int)
        ev = []
        kw = {}
        if given != "visitor":
            kw["pmap_vcolor"] = make_assoc_property_map(col)
        if given != "map":
            kw["vis"] = recorder(D.DefaultDepthFirstSearchVisitor, ev)
        D.depth_first_search(s, graph(i), **kw)
        return col, ev
    return make, lambda r: (sorted(r[0].items()), list(r[1])), lambda r: (r[0].clear(), r[1].clear())


@scene("C30")
def topological_sorts(ctx):
    from pybgl.topological_sort import topological_sort
    graph = digraph(ctx)

    def make(i):
        try:
            return topological_sort(graph(i))
        except RuntimeError:
            return None
    return make, lambda r: r if r is None else list(r), lambda r: r is None or r.clear()


@scene("C31")
def components(ctx):
    from pybgl.strong_components import strong_components
    graph = digraph(ctx)

    def make(i):
        c = defaultdict(int)
        return strong_components(graph(i), make_assoc_property_map(c)), c
    return make, lambda r: (r[0], sorted(r[1].items())), lambda r: r[1].clear()


def dijkstras(ctx, **kw):
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, dijkstra_shortest_path, make_shortest_paths_dag
    graph = digraph(ctx, skip=[(1, 1)])
    gs = [graph(i) for i in range(2)]
    ws = [ctx.int(f"w{k}", 1, 100) for k in range(3)]
    s = ctx.choice("s", [0, 2])
    towards = ctx.choice("towards", [None, 1])

    def make(i):
        dist, preds = defaultdict(int), defaultdict(set)
        w = make_func_property_map(lambda e: ws[e.source])
        if towards is None:
            dijkstra_shortest_paths(gs[i], s, w, make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
            return dist, preds, None
        else:
            # 1 is always reached, from 2 by the second graph only
            if s == 2 and i == 0 and not gs[i].edge(2, 0)[1]:
                return dist, preds, None
            return dist, preds, dijkstra_shortest_path(gs[i], s, towards, w, make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)

    def view(r):
        p = [(u, sorted((e.source, e.target) for e in es)) for u, es in sorted(r[1].items())]
        return sorted(r[0].items(), key=lambda x: x[0]), p, r[2] and [(e.source, e.target) for e in r[2]]

    def spoil(r):
        for x in r:
            x and x.clear()
    return make, view, spoil


@scene("C32")
def shortest_paths(ctx):
    return dijkstras(ctx)


@scene("C33")
def shortest_paths_algebra(ctx):
    from pybgl.algebra import ClosedMax, BinaryRelation, Less
    return dijkstras(ctx, combine=ClosedMax(), zero=0)


@scene("C34")
def heaps(ctx):
    from pybgl.heap import Heap
    xs = [[ctx.int(f"x{i}{k}") for k in range(2)] for i in range(2)]
    key = ctx.choice("key", [None, lambda x: 0 - x])
    how = ctx.choice("how", ["given", "pushed"])

    def make(i):
        if how == "given":
            return Heap(xs[i], key) if key else Heap(xs[i])
        h = Heap(to_comparable=key) if key else Heap()
        for x in xs[i]:
            h.push(x)
        return h

    def spoil(h):
        h.pop()
        h.push(5)
        h.pop()
    return make, lambda h: (list(h), len(h), bool(h)), spoil


@scene("C35")
def cuts(ctx):
    from pybgl.cut import cut
    graph = digraph(ctx, skip=[(1, 1), (2, 0)])
    from pybgl.graph import DirectedGraph
    c = {(u, v): ctx.bool(f"c{u}{v}") for u, v in [(0, 1), (1, 2), (0, 2)]}

    def make(i):
        g = DirectedGraph(3)
        for u, v in [(0, 1), (1, 2)] + [(0, 2)] * i:
            g.add_edge(u, v)
        return cut(0, g, lambda e, g: c[e.source, e.target])
    return make, sorted, lambda r: r.clear()


@scene("C36")
def tree_traversals(ctx):
    T = module("graph_traversal")
    S = module("shunting_yard_postfix")
    order = ctx.choice("order", ["dfs_tree", "bfs_tree"])
    from pybgl.graph import DirectedGraph
    default = ctx.choice("visitor", [True, False])

    def make(i):
        g = DirectedGraph(3)
        for u, v in [[(0, 1), (1, 2)], [(0, 2), (0, 1)]][i]:
            g.add_edge(u, v)
        ev = []
        if default:
            getattr(T, order)(0, g)
        else:
            getattr(T, order)(0, g, recorder(T.DefaultTreeTraversalVisitor, ev))
        return ev
    return make, list, lambda r: r.clear()


@scene("C37")
def graph_copies(ctx):
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.graph import DirectedGraph
    graph = digraph(ctx)
    gs = [graph(i) for i in range(2)]
    s = ctx.choice("s", [0, 1])
    which = ctx.choice("which", ["copy", "extract"])
    keep = {u: ctx.bool(f"k{u}") for u in range(3)}

    def make(i):
        rel = make_func_property_map(lambda u: Or(keep[u], u == s))
        if which == "copy":
            d = DirectedGraph()
            m = defaultdict(int)
            graph_copy(s, gs[i], d, pmap_vrelevant=rel, pmap_vertices=make_assoc_property_map(m))
            return d, m
        seen = []
        graph_extract(s, gs[i], pmap_vrelevant=rel,
                      callback_vertex_extract=lambda u, g: seen.append(u),
                      callback_edge_extract=lambda e, g: seen.append((e.source, e.target)))
        return None, seen

    def view(r):
        if r[0] is None:
            return list(r[1])
        return sorted(r[1].items()), sorted(r[0].vertices()), sorted((e.source, e.target, e.distinguisher) for e in r[0].edges())

    def spoil(r):
        r[1].clear()
        if r[0] is not None:
            r[0].add_vertex()
            r[0].remove_vertex(0)
    return make, view, spoil


@scene("C38")
def automaton_copies(ctx):
    from pybgl.automaton_copy import automaton_copy
    from pybgl.automaton import Automaton
    f = flags(ctx)
    gs = [make_dfa(i, f) for i in range(2)]

    def make(i):
        d = Automaton()
        automaton_copy(0, gs[i], d)
        return d
    return make, lambda g: (language(g), g.num_vertices()), spoil_dfa


@scene("C39")
def graph_views(ctx):
    from pybgl.graph_view import GraphView
    graph = digraph(ctx)
    gs = [graph(i) for i in range(2)]
    keep = [{u: ctx.bool(f"k{i}{u}") for u in range(3)} for i in range(2)]
    op = ctx.choice("op", [None, "or", "and", "sub"])

    def make(i):
        a = GraphView(gs[i], make_func_property_map(lambda u: keep[i][u]))
        b = GraphView(gs[i], make_func_property_map(lambda u: keep[1 - i][u]))
        return a if op is None else a | b if op == "or" else a & b if op == "and" else a - b

    def view(r):
        return sorted(r.vertices()), sorted((e.source, e.target) for e in r.edges()), [r.out_degree(u) for u in sorted(r.vertices())]
    return make, view, nothing


@scene("C40")
def parallel_searches(ctx):
    P = module("parallel_breadth_first_search")
    f = flags(ctx)
    gs = [make_dfa(i, f) for i in range(2)]
    default = ctx.choice("map", [True, False])

    def make(i):
        ev = []

        class V(P.ParallelBreadthFirstSearchVisitor):
            def start_vertex(self, q1, g1, q2, g2):
                ev.append((q1, q2))

            def discover_vertex(self, q1, g1, q2, g2):
                ev.append((q1, q2))
        col = defaultdict(int)
        kw = {} if default else dict(pmap_vcolor=make_assoc_property_map(col))
        P.parallel_breadth_first_search(gs[i], gs[1 - i], vis=V(), **kw)
        return ev

    def view(ev):
        return [-1 if x is None else x for p in sorted(ev, key=str) for x in p]
    return make, view, lambda r: r.clear()


@scene("C41")
def made_automata(ctx):
    from pybgl.automaton import make_automaton, Automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    kind = ctx.choice("kind", ["default", "class", "pmap"])
    f = flags(ctx)

    def make(i):
        kw = {}
        if kind == "class":
            kw = dict(Constructor=IncidenceAutomaton)
        fin = make_func_property_map(lambda q: bool(q == 1 + i)) if kind == "pmap" else make_assoc_property_map(defaultdict(bool, {i: True}))
        return make_automaton([(q, r, a) for q, r, a in TR[i]], 0, fin, **kw)

    def view(g):
        return language(g), g.num_vertices(), sorted((e.source, e.target, e.distinguisher) for e in g.edges())

    def spoil(g):
        q = g.add_vertex()
        for e in list(g.edges()):
            g.remove_edge(e)
        g.add_edge(0, q, "a")
    return make, view, spoil


@scene("C42")
def dot_files(ctx):
    from pybgl.graphviz import read_graphviz
    from pybgl.graph import DirectedGraph
    big = ctx.choice("big", [[0, 1], [7, 3, 5], list(range(12))])
    small = ctx.choice("small", [[1, 0], [3, 7], [2, 11]])

    def make(i):
        vs = [big, small][i]
        g = DirectedGraph()
        read_graphviz("\n".join(["digraph G {"] + [f"  {v} [label=\"{v}\"];" for v in vs] + [f"  {vs[0]} -> {vs[1]};", "}"]), g)
        return g

    def view(g):
        return sorted(g.vertices()), sorted((e.source, e.target) for e in g.edges()), g.to_dot()

    def spoil(g):
        g.remove_vertex(0)
        g.add_vertex()
    return make, view, spoil


@scene("C44")
def classes(ctx):
    T = module("thompson_compile_nfa")
    s = ctx.choice("s", [r"\d", r"\D", r"\s", r"\S", r"\w", r"\W", "[^a]", "[a-c]", r"[^\d]", r"[\w_]"])
    x = ctx.sym("x")
    al = ["ab1 ", ctx.choice("alphabet", ["b2_", "ab1", None])]
    f = T.parse_escaped if s[0] == "\\" else T.parse_bracket

    def make(i):
        return f(s, al[i]) if al[i] else f(s)

    def spoil(r):
        r.clear()
        r.add("#")
    return make, sorted, spoil


@scene("C46")
def aggregated_visitors(ctx):
    from pybgl.aggregated_visitor import AggregatedVisitor
    how = ctx.choice("how", ["default", "empty", "given"])

    class V:
        def __init__(self):
            self.log = []

        def event(self, *args):
            self.log.append(args)

    def make(i):
        vs = [V() for _ in range(1 + i)]
        a = AggregatedVisitor(vs) if how == "given" else AggregatedVisitor([]) if how == "empty" else AggregatedVisitor()
        if how != "given":
            for v in vs:
                a.visitors.append(v)
        a.event(i)
        return a, vs

    def view(r):
        return len(r[0].visitors), [len(v.log) for v in r[1]], [sorted(v.log) for v in r[1]]

    def spoil(r):
        r[0].event(3)
        r[0].visitors.clear()
    return make, view, spoil


@scene("C48")
def styled_graphs(ctx):
    from pybgl.graph_dp import GraphDp
    graph = digraph(ctx)
    gs = [graph(i) for i in range(2)]
    x = ctx.choice("x", ["red", "blue"])

    def make(i):
        return GraphDp(gs[i], dv=dict(color=x)) if i else GraphDp(gs[i])

    def view(d):
        return d.to_dot(), sorted(d.get_dg().items()), sorted(d.get_dv().items()), sorted(d.get_de().items()), sorted(d.get_dpv()), sorted(d.get_dpe()), list(d.extra_style)

    def spoil(d):
        for m in (d.get_dg(), d.get_dv(), d.get_de()):
            m["color"] = "green"
        d.get_dpv()["label"] = make_func_property_map(str)
        d.get_dpe()["label"] = make_func_property_map(lambda e: "x")
        d.extra_style.append("splines=ortho")
    return make, view, spoil
