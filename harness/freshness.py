"""Answers are about the present: for most of the properties whose functions
take an object that its owner goes on modifying, one more harness that calls,
modifies the object, calls again, and so on.  Every answer is compared with
the one given for a fresh object having undergone the same modifications (and
never been asked anything before).

A scene gives `build` (a fresh object), `changes` (functions that modify it,
among which arbitrary ones are chosen) and `run` (calls the code and reads the
answer).  Vertices, edges, letters, final states and weights are partly
symbolic.
"""
from collections import defaultdict
from .common import *
from .independence import alike, flags, language, make_dfa, make_nfa, recorder, TR, WORDS
from pybgl.property_map import make_assoc_property_map, make_func_property_map

LIVE = {}


def live(*props):
    def deco(f):
        LIVE[f.__name__] = f
        for p in props:
            job(p, quick=[dict(live=f.__name__)], thorough=[dict(live=f.__name__, steps=3)])(freshness)
        return f
    return deco


def freshness(ctx, live, steps=2):
    """a call, then `steps` arbitrary modifications of its operand, each of
    which followed by the same call."""
    build, changes, run = LIVE[live](ctx)
    x = build()
    run(x)
    done = []
    for i in range(steps):
        done.append(changes[ctx.choice(f"change{i}", range(len(changes)))])
        done[-1](x)
        y = build()
        for c in done:
            c(y)
        ctx.check(alike(run(x), run(y)), f"{live}: after a modification, the answer is the one for the modified object")


def ends(es):
    return sorted((e.source, e.target) for e in es)


def graph_changes(n=3, loops=True, keep=(0,)):
    """modifications of a graph of n vertices (the ones to keep are not removed)"""
    def drop(u):
        def f(g):
            es = sorted(g.out_edges(u)) if u in set(g.vertices()) else []
            if es:
                g.remove_edge(es[0])
        return f

    def add(u, v):
        def f(g):
            if {u, v} <= set(g.vertices()):
                g.add_edge(u, v)
        return f

    def grow(g):
        u = g.add_vertex()
        g.add_edge(0, u)

    def shrink(g):
        if n - 1 in set(g.vertices()) and n - 1 not in keep:
            g.remove_vertex(n - 1)
    return [add(0, 2), add(2, 0) if loops else add(1, 2), add(1, 1) if loops else add(0, 1), drop(0), drop(1), grow, shrink]


def digraph(ctx, cls=None, acyclic=False):
    from pybgl.graph import DirectedGraph
    arcs = [(0, 1), (1, 2), (0, 2) if acyclic else (2, 1)]
    here = [True, ctx.choice("arc1", [False, True]), ctx.choice("arc2", [False, True])]

    def build():
        g = (cls or DirectedGraph)(3)
        for (u, v), b in zip(arcs, here):
            if b:
                g.add_edge(u, v)
        return g
    return build


@live("C01", "C02", "C03")
def stores(ctx):
    """every enumeration of a store, whatever was enumerated before"""
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.incidence_graph import IncidenceGraph
    cls = ctx.choice("class", [DirectedGraph, UndirectedGraph, IncidenceGraph])

    def run(g):
        vs = sorted(g.vertices())
        inn = [(g.in_degree(u), ends(g.in_edges(u))) for u in vs] if cls is IncidenceGraph else []
        return (vs, g.num_vertices(), g.has_vertex(), sorted((e.source, e.target, e.distinguisher) for e in g.edges()), g.num_edges(), g.has_edge(),
                [(g.out_degree(u), sorted((g.source(e), g.target(e)) for e in g.out_edges(u))) for u in vs],
                [g.edge(u, v)[1] for u in vs for v in vs], inn)
    return digraph(ctx, cls), graph_changes(), run


@live("C28")
def bfs_again(ctx):
    B = module("breadth_first_search")
    s = ctx.choice("s", [0, 1])
    many = ctx.choice("many", [False, True])

    def run(g):
        col, ev = defaultdict(int), []
        vis = recorder(B.DefaultBreadthFirstSearchVisitor, ev)
        if many:
            B.breadth_first_search_graph(g, {s}, make_assoc_property_map(col), vis)
        else:
            B.breadth_first_search(s, g, make_assoc_property_map(col), vis)
        return sorted(col.items()), sorted(ev, key=str)
    return digraph(ctx), graph_changes(), run


@live("C29")
def dfs_again(ctx):
    D = module("depth_first_search")
    s = ctx.choice("s", [0, 1, None])

    def run(g):
        col, ev = defaultdict(int), []
        vis = recorder(D.DefaultDepthFirstSearchVisitor, ev)
        if s is None:
            D.depth_first_search_graph(g, None, make_assoc_property_map(col), vis)
        else:
            D.depth_first_search(s, g, make_assoc_property_map(col), vis)
        return sorted(col.items()), list(ev)
    return digraph(ctx), graph_changes(), run


@live("C30")
def toposort_again(ctx):
    from pybgl.topological_sort import topological_sort

    def run(g):
        try:
            t = list(topological_sort(g))
        except RuntimeError:
            return None
        at = {u: i for i, u in enumerate(t)}
        return sorted(t), all(at[e.source] < at[e.target] for e in g.edges())
    return digraph(ctx), graph_changes(), run


@live("C31")
def components_again(ctx):
    from pybgl.strong_components import strong_components

    def run(g):
        c = defaultdict(int)
        n = strong_components(g, make_assoc_property_map(c))
        return n, sorted(c), [c[u] == c[v] for u in sorted(g.vertices()) for v in sorted(g.vertices())]
    return digraph(ctx), graph_changes(), run


def paths_again(ctx, **kw):
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, dijkstra_shortest_path, make_shortest_paths_dag
    build = digraph(ctx)
    s, t = ctx.choice("ends", [(0, 1), (0, 2)])
    ws = [ctx.int(f"w{k}", 1, 100) for k in range(8)]
    towards = ctx.choice("towards", [False, True])

    def start():
        # a graph and its weights, which may change too
        return build(), list(ws[:4])

    def weigh(x):
        x[1][0], x[1][1] = x[1][1], ws[4]

    def run(x):
        g, w = x
        dist, preds = defaultdict(int), defaultdict(set)
        pw = make_func_property_map(lambda e: w[(e.source + 2 * e.target) % 4])
        p = None
        if not towards:
            dijkstra_shortest_paths(g, s, pw, make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
        else:
            seen, todo = {s}, [s]
            while todo:
                for e in g.out_edges(todo.pop()):
                    if e.target not in seen:
                        seen.add(e.target)
                        todo.append(e.target)
            if t not in seen:
                return None
            p = dijkstra_shortest_path(g, s, t, pw, make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
            return dist[t], (p[0].source, p[-1].target), ends(make_shortest_paths_dag(g, s, t, make_assoc_property_map(preds)))
        return sorted(dist.items(), key=lambda kv: kv[0]), [(u, ends(preds[u])) for u in sorted(preds)]
    return start, [lambda x, c=c: c(x[0]) for c in graph_changes()] + [weigh], run


@live("C32")
def dijkstra_again(ctx):
    return paths_again(ctx)


@live("C33")
def dijkstra_algebra_again(ctx):
    from pybgl.algebra import ClosedMax
    return paths_again(ctx, combine=ClosedMax(), zero=0)


@live("C34")
def heap_again(ctx):
    from pybgl.heap import Heap
    ks = {u: ctx.int(f"k{u}") for u in range(4)}
    less = ctx.int("less", 1)

    def build():
        d = dict(ks)
        return Heap([0, 1, 2], lambda u: d[u]), d

    def lower(u):
        def f(x):
            if u in x[0]:
                x[1][u] = x[1][u] - less
                x[0].decrease_key(u)
        return f

    def push(x):
        if 3 not in x[0]:
            x[0].push(3)

    def run(x):
        h = x[0]
        return list(h), len(h), bool(h), [u in h for u in range(4)]
    return build, [lambda x: x[0] and x[0].pop(), push, lower(1), lower(2)], run


@live("C35")
def cut_again(ctx):
    from pybgl.cut import cut
    c = {(u, v): ctx.bool(f"c{u}{v}") for u in range(5) for v in range(5) if u != v and (u, v) in [(0, 1), (1, 2), (0, 2), (0, 3), (0, 4)]}
    return digraph(ctx, acyclic=True), graph_changes(loops=False), lambda g: sorted(cut(0, g, lambda e, g: c[e.source, e.target]))


@live("C36")
def traversal_again(ctx):
    from pybgl.graph import DirectedGraph
    T = module("graph_traversal")
    order = ctx.choice("order", ["dfs_tree", "bfs_tree"])
    p = ctx.choice("p", [0, 1])

    def build():
        g = DirectedGraph(3)
        g.add_edge(0, 1)
        g.add_edge(p, 2)
        return g

    def grow(u):
        def f(g):
            g.add_edge(u, g.add_vertex())
        return f

    def cut_off(g):
        es = [e for e in g.edges() if e.target == 2]
        if es:
            g.remove_edge(es[0])

    def run(g):
        ev = []
        getattr(T, order)(0, g, recorder(T.DefaultTreeTraversalVisitor, ev))
        return ev
    return build, [grow(0), grow(1), grow(2), cut_off], run


@live("C37")
def copy_again(ctx):
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.graph import DirectedGraph
    keep = {u: ctx.bool(f"k{u}") if u in (1, 2) else True for u in range(6)}
    which = ctx.choice("which", ["copy", "extract"])

    def run(g):
        rel = make_func_property_map(lambda u: keep[u])
        if which == "copy":
            d, m = DirectedGraph(), defaultdict(int)
            graph_copy(0, g, d, pmap_vrelevant=rel, pmap_vertices=make_assoc_property_map(m))
            return sorted(m), d.num_vertices(), sorted((e.source, e.target) for e in d.edges())
        seen = []
        graph_extract(0, g, pmap_vrelevant=rel,
                      callback_vertex_extract=lambda u, g: seen.append((u,)),
                      callback_edge_extract=lambda e, g: seen.append((e.source, e.target)))
        return sorted(seen)
    return digraph(ctx), graph_changes(), run


@live("C39")
def view_again(ctx):
    from pybgl.graph_view import GraphView
    base = digraph(ctx)
    keep = {u: ctx.bool(f"k{u}") if u < 3 else True for u in range(6)}
    other = {u: ctx.bool(f"o{u}") if u < 2 else False for u in range(6)}
    op = ctx.choice("op", [None, "or", "and", "sub"])

    def build():
        # the views are made first: they show what the graph becomes
        g = base()
        a = GraphView(g, make_func_property_map(lambda u: keep[u]), make_func_property_map(lambda e: not e.source == 2))
        b = GraphView(g, make_func_property_map(lambda u: other[u]))
        return g, a if op is None else a | b if op == "or" else a & b if op == "and" else a - b

    def run(x):
        v = x[1]
        vs = sorted(v.vertices())
        return vs, v.num_vertices(), ends(v.edges()), v.num_edges(), [(v.out_degree(u), ends(v.out_edges(u))) for u in vs]
    return build, [lambda x, c=c: c(x[0]) for c in graph_changes()], run


@live("C42")
def dot_again(ctx):
    def run(g):
        return [g.to_dot()]
    return digraph(ctx), graph_changes(), run


@live("C48")
def styled_again(ctx):
    from pybgl.graph_dp import GraphDp
    build = digraph(ctx)

    def start():
        g = build()
        return g, GraphDp(g, dv=dict(shape="box"), extra_style=[])

    def paint(x):
        x[1].dv["color"] = "red"

    def style(x):
        x[1].extra_style.append("splines=ortho")

    def label(x):
        x[1].dpe["label"] = make_func_property_map(lambda e: str(e.target))
    return start, [lambda x, c=c: c(x[0]) for c in graph_changes()] + [paint, style, label], lambda x: [x[1].to_dot()]


@live("C46")
def aggregated_again(ctx):
    from pybgl.aggregated_visitor import AggregatedVisitor

    class V:
        def __init__(self, log, name):
            self.log, self.name = log, name

        def event(self, x):
            self.log.append((self.name, x))

        def other(self, x):
            self.log.append((self.name, -1 - x))

    def build():
        log = []
        return AggregatedVisitor([V(log, 0), V(log, 1)]), log

    def swap(x):
        x[0].visitors.reverse()

    def add(x):
        x[0].visitors.append(V(x[1], len(x[0].visitors) + 2))

    def remove(x):
        if x[0].visitors:
            x[0].visitors.pop(0)

    def run(x):
        del x[1][:]
        if x[0].visitors:
            x[0].event(4)
            x[0].other(5)
        return list(x[1])
    x = ctx.bool("unused")
    return build, [swap, add, remove], run


# ----------------------------------------------------------------- automata
def dfa_changes(incidence=False):
    def edge(q, r, a):
        def f(g):
            if {q, r} <= set(g.vertices()):
                g.add_edge(q, r, a)
        return f

    def drop(q, a):
        def f(g):
            for e in list(g.out_edges(q)):
                if g.label(e) == a:
                    g.remove_edge(e)
        return f

    def flip(q):
        def f(g):
            if q in set(g.vertices()):
                g.set_final(q, Not(g.is_final(q)))
        return f

    def start(g):
        if g.initial() == 0 and 1 in set(g.vertices()):
            g.set_initial(1)
        else:
            g.set_initial(0)

    def grow(g):
        q = g.add_vertex()
        g.set_final(q)
        g.add_edge(q, 0, "b")
        g.add_edge(0, q, "c")
    return [edge(0, 0, "b"), edge(1, 0, "c"), drop(0, "a"), drop(1, "b"), flip(0), flip(1), start, grow]


WORDS3 = [w for w in WORDS] + [("c",), ("c", "b"), ("a", "c"), ("b", "c"), ("c", "b", "a")]


def words_of(g):
    return [g.accepts("".join(w)) for w in WORDS3]


def dfa(ctx, cls=None, tr=None):
    f = flags(ctx)
    i = ctx.choice("dfa", [0, 1])
    return (lambda: make_dfa(i, f, cls, tr or TR)), make_dfa(1 - i, f, None, tr or TR)


@live("C07")
def runs_again(ctx):
    from pybgl.automaton import delta_best_effort
    build, _ = dfa(ctx)
    x, y = ctx.sym("x", "abc"), ctx.sym("y", "abc")
    return build, dfa_changes(), lambda g: (words_of(g), g.accepts([x, y]), g.delta_word(g.initial(), [x, y]), list(delta_best_effort(g, [x, y])),
                                            sorted(g.alphabet()), g.is_complete(), sorted(g.finals()))


@live("C08", "C09")
def nfa_again(ctx):
    from pybgl.moore_determination import moore_determination
    f = flags(ctx)
    i = ctx.choice("nfa", [0, 1])
    x, y = ctx.sym("x", "abc"), ctx.sym("y", "abc")

    def add(q, r, a):
        return lambda g: g.add_edge(q, r, g.epsilon if a is None else a)

    def drop(q):
        def h(g):
            es = sorted(g.out_edges(q), key=lambda e: (e.target, str(e.distinguisher)))
            if es:
                g.remove_edge(es[0])
        return h

    def inits(g):
        g.set_initials({1, 2} if 0 in g.initials else {0})

    def flip(g):
        g.set_final(2, Not(g.is_final(2)))

    def run(g):
        return (words_of(g), g.accepts([x, y]), [sorted(g.delta_epsilon({q})) for q in range(3)], [sorted(g.delta(q, x)) for q in range(3)],
                sorted(g.alphabet()), [sorted(g.sigma(q)) for q in range(3)], words_of(moore_determination(g)), words_of(moore_determination(g, complete=False)))
    return lambda: make_nfa(i, f), [add(0, 2, None), add(1, 0, None), add(2, 2, "c"), drop(0), drop(1), drop(2), inits, flip], run


def product_again(name):
    def f(ctx):
        op = getattr(module(name), name)
        build, h = dfa(ctx)
        side = ctx.choice("side", [0, 1])
        view = words_of if name != "deterministic_inclusion" else lambda r: [r]
        return build, dfa_changes(), lambda g: view(op(g, h) if side else op(h, g))
    f.__name__ = name + "_again"
    return f


live("C10")(product_again("deterministic_union"))
live("C11")(product_again("deterministic_intersection"))
live("C12")(product_again("deterministic_inclusion"))


@live("C38")
def automaton_copy_again(ctx):
    from pybgl.automaton import Automaton
    from pybgl.automaton_copy import automaton_copy
    build, _ = dfa(ctx)

    def run(g):
        d, m = Automaton(), defaultdict(int)
        automaton_copy(0, g, d, pmap_vertices=make_assoc_property_map(m))
        q = m[0]
        return d.num_vertices(), d.num_edges(), [d.delta_word(q, w) is None for w in WORDS3], [q2 is not None and d.is_final(q2) for w in WORDS3 for q2 in [d.delta_word(q, w)]]
    return build, [c for c in dfa_changes()], run


@live("C40")
def parallel_again(ctx):
    P = module("parallel_breadth_first_search")
    build, h = dfa(ctx)

    def run(g):
        ev = []

        class V(P.ParallelBreadthFirstSearchVisitor):
            def discover_vertex(self, q1, g1, q2, g2):
                ev.append((-1 if q1 is None else q1, -1 if q2 is None else q2))
        P.parallel_breadth_first_search(g, h, vis=V())
        return sorted(ev)
    return build, dfa_changes(), run


@live("C13", "C15")
def minimized_again(ctx):
    """the automaton is modified after it has been minimized or pruned"""
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.hopcroft_minimize import hopcroft_minimize
    from pybgl.prune_incidence_automaton import prune_incidence_automaton
    from pybgl.automaton_copy import automaton_copy
    build, _ = dfa(ctx, IncidenceAutomaton)
    which = ctx.choice("which", ["hopcroft", "prune"])

    def run(g):
        d = IncidenceAutomaton()
        m = {}
        for q in sorted(g.vertices()):
            m[q] = d.add_vertex()
            d.set_final(m[q], g.is_final(q))
        for e in g.edges():
            d.add_edge(m[e.source], m[e.target], g.label(e))
        d.set_initial(m[g.initial()])
        if which == "prune":
            prune_incidence_automaton(d)
            return words_of(d), sorted(d.vertices())
        r = hopcroft_minimize(g)
        return words_of(r), r.num_vertices()
    return build, dfa_changes(), run


# -------------------------------------------------------------------- words
@live("C23")
def bk_again(ctx):
    from pybgl.bk_tree import BKTree
    from pybgl.levenshtein_distance import levenshtein_distance
    x, y = ctx.word("x", 2, alpha="ab"), ctx.word("y", 3, alpha="ab")

    def build():
        t = BKTree(levenshtein_distance)
        t.insert("ab")
        t.insert(x)
        return t

    def run(t):
        out = []
        for w in ("a", "bb", "bab", "bbbbb"):
            for d in (0, 1, 5):
                r = t.search(w, d)
                out.append(r and [r[1]])
        return out, t.num_vertices(), ends(t.edges())
    return build, [lambda t: t.insert("bbb"), lambda t: t.insert(y), lambda t: t.insert("")], run


@live("C24", "C25")
def trie_again(ctx):
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    x, y = ctx.word("x", 2, alpha="ab"), ctx.word("y", 1, alpha="ab")
    other = Trie()
    for w in ("ab", "b", "aba"):
        other.insert(w)

    def build():
        t = Trie()
        t.insert(x)
        return t

    def fuse(t):
        u = Trie()
        u.insert("ba")
        u.insert("")
        t.insert(u)

    def run(t):
        return language(t), t.num_vertices(), t.num_edges(), list(trie_matching(t, other)), list(trie_matching(other, t))
    return build, [lambda t: t.insert("aba"), lambda t: t.insert(y), lambda t: t.insert(""), fuse], run
