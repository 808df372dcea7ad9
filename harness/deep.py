"""Big instances: more vertices, states or letters than Python's recursion limit
(1000), of a regular shape (a chain and the like) in which a few things are
arbitrary: an arc more or an arc less, final states, weights, letters.  They
tell the guarantees which would only hold for small inputs (recursion, bounded
buffers, thresholds)."""
from collections import defaultdict, deque
from .common import *
from pybgl.property_map import make_assoc_property_map, make_func_property_map

SCENES = {}


def scene(*props):
    def deco(f):
        SCENES[f.__name__] = f
        for p in props:
            job(p, quick=[dict(scene=f.__name__, n=1100)], thorough=[dict(scene=f.__name__, n=3000)])(deep)
        return f
    return deco


def deep(ctx, scene, n):
    """an instance of n vertices, states, letters... (n is above the recursion limit)"""
    SCENES[scene](ctx, n)


class Chain:
    """0 -> 1 -> ... -> n-1, one arc of which may be missing, with possibly one more."""

    def __init__(self, ctx, n, cls=None, acyclic=False, no_gap=False):
        from pybgl.graph import DirectedGraph
        self.n = n
        self.g = (cls or DirectedGraph)(n)
        self.gap = None if no_gap else ctx.choice("gap", [None, 1, n // 2, n - 2])    # no arc from there
        extra = [None, (0, n // 2), (3, n - 1)] + ([] if acyclic else [(n - 1, 0), (n // 2 + 5, n // 2 - 5), (n - 1, n - 1)])
        self.extra = ctx.choice("extra", extra)
        first = ctx.choice("first", [False, True])
        arcs = [(i, i + 1) for i in range(n - 1) if i != self.gap]
        if self.extra:
            arcs = [self.extra] + arcs if first else arcs + [self.extra]
        self.arcs = arcs
        self.d = {}
        for u, v in arcs:
            e, ok = self.g.add_edge(u, v)
            self.d[e] = (u, v)
        self.succ = {u: [] for u in range(n)}
        for u, v in arcs:
            self.succ[u].append(v)

    def distances(self, s):
        dist, todo = {s: 0}, deque([s])
        while todo:
            u = todo.popleft()
            for v in self.succ[u]:
                if v not in dist:
                    dist[v] = dist[u] + 1
                    todo.append(v)
        return dist


@scene("C28")
def bfs_chain(ctx, n):
    from pybgl.breadth_first_search import breadth_first_search, DefaultBreadthFirstSearchVisitor
    c = Chain(ctx, n)
    seen, done = [], []

    class V(DefaultBreadthFirstSearchVisitor):
        def discover_vertex(self, u, g):
            seen.append(u)

        def finish_vertex(self, u, g):
            done.append(u)
    s = ctx.choice("s", [0, n // 2])
    breadth_first_search(s, c.g, vis=V())
    dist = c.distances(s)
    ctx.check(sorted(seen) == sorted(dist) and done == seen, "bfs: the reachable vertices are discovered once, and finished in that order")
    ctx.check([dist[u] for u in seen] == sorted(dist.values()), "bfs: by increasing distance")


@scene("C29")
def dfs_chain(ctx, n):
    from pybgl.depth_first_search import depth_first_search, depth_first_search_graph, DefaultDepthFirstSearchVisitor
    c = Chain(ctx, n)
    seen, done, back = [], [], []

    class V(DefaultDepthFirstSearchVisitor):
        def discover_vertex(self, u, g):
            seen.append(u)

        def finish_vertex(self, u, g):
            done.append(u)

        def back_edge(self, e, g):
            back.append(c.d[e])
    s = ctx.choice("s", [0, n // 2])
    if ctx.choice("graph", [False, True]):
        depth_first_search_graph(c.g, [s], vis=V())
    else:
        depth_first_search(s, c.g, vis=V())
    r = c.distances(s)
    ctx.check(sorted(seen) == sorted(done) == sorted(r), "dfs: the reachable vertices are discovered and finished once")
    x = c.extra
    if x is None or x[0] < x[1]:
        ctx.check(not back and all(done.index(v) < done.index(u) for u, v in [(s, s + 1)] if v in r), "dfs: no back edge in an acyclic graph")
        at = {u: i for i, u in enumerate(done)}
        ctx.check(all(at[v] < at[u] for u in r for v in c.succ[u]), "dfs: successors finish first in an acyclic graph")
    else:
        cyc = x[0] in r and c.distances(x[1]).get(x[0]) is not None
        # (the arc that closes the circuit depends on where the search enters it)
        ctx.check(len(back) == cyc, "dfs: one back edge per circuit entered")


@scene("C30")
def sort_chain(ctx, n):
    from pybgl.topological_sort import topological_sort
    c = Chain(ctx, n)
    x = c.extra
    cyclic = x is not None and x[0] >= x[1] and x[0] in c.distances(x[1])
    try:
        r = list(topological_sort(c.g))
    except RuntimeError:
        ctx.check(cyclic, "topological_sort fails only on a graph having a cycle")
        return
    at = {u: i for i, u in enumerate(r)}
    ctx.check(not cyclic and sorted(r) == list(range(n)) and all(at[u] < at[v] for u, v in c.arcs), "sources precede targets")


@scene("C31")
def components_chain(ctx, n):
    from pybgl.strong_components import strong_components
    c = Chain(ctx, n)
    comp = defaultdict(int)
    k = strong_components(c.g, make_assoc_property_map(comp))
    x = c.extra
    big = set(range(x[1], x[0] + 1)) if x and x[0] >= x[1] and x[0] in c.distances(x[1]) else set()
    ids = [comp[u] for u in range(n)]
    ctx.check(len({comp[u] for u in big}) <= 1 and len(set(ids)) == n - max(0, len(big) - 1) == k, "the components are the classes of mutual reachability")


@scene("C32", "C33")
def dijkstra_chain(ctx, n):
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, make_shortest_path, make_shortest_paths_dag
    from pybgl.graph import DirectedGraph
    g = DirectedGraph(n)
    at = [0, n - 2]
    ws = {i: ctx.real(f"w{i}", 0, 5) for i in at}
    W = {}
    for i in range(n - 1):
        e, _ = g.add_edge(i, i + 1)
        W[e] = ws.get(i, 1)
    short = ctx.choice("short", [0, n - 4, n - 3, n, 2 * n])
    e, _ = g.add_edge(1, n - 1)
    W[e] = short
    vp, vd = defaultdict(set), defaultdict(int)
    dijkstra_shortest_paths(g, 0, make_func_property_map(lambda e: W[e]), make_assoc_property_map(vp), make_assoc_property_map(vd))
    chain = ws[0] + ws[n - 2] + (n - 3)
    ctx.check(Eq(vd[n - 1], Min([chain, ws[0] + short])), "the distance is the length of a shortest path")
    ctx.check(Eq(vd[n - 2], ws[0] + (n - 3)), "the distance is the length of a shortest path")
    path = make_shortest_path(g, 0, n - 1, make_assoc_property_map(vp))
    ctx.check(path is not None and path[0].source == 0 and path[-1].target == n - 1 and len(path) in (2, n - 1), "a path from the source to the target")
    ctx.check(Eq(Sum([W[e] for e in path]), vd[n - 1]), "the path has the length found")
    dag = make_shortest_paths_dag(g, 0, n - 1, make_assoc_property_map(vp))
    ctx.check(len(list(dag)) >= len(path), "the dag holds the path")


@scene("C35")
def cut_chain(ctx, n):
    from pybgl.cut import cut
    c = Chain(ctx, n, acyclic=True, no_gap=True)
    p = ctx.choice("p", [None, 0, n // 3, n - 2])
    got = cut(0, c.g, lambda e, g: e.source == p and e.target == p + 1 if p is not None else False)
    # reached without going through the edge cut
    seen, todo, want = {0}, [0], set()
    while todo:
        u = todo.pop()
        if not c.succ[u]:
            want.add(u)
        for v in c.succ[u]:
            if p is not None and (u, v) == (p, p + 1):
                want.add(v)
            elif v not in seen:
                seen.add(v)
                todo.append(v)
    ctx.check(got <= want and bool(got), "the cut is made of leaves and targets of the edge cut")
    # every path from 0 to n - 1 meets it
    seen, todo = set(), [0]
    while todo:
        u = todo.pop()
        if u in got or u in seen:
            continue
        seen.add(u)
        todo += c.succ[u]
    ctx.check(n - 1 not in seen, "every path to the last vertex meets the cut")


@scene("C36")
def trees_chain(ctx, n):
    from pybgl.graph_traversal import dfs_tree, bfs_tree, DefaultTreeTraversalVisitor
    from pybgl.graph import DirectedGraph
    g = DirectedGraph(n + 1)
    p = ctx.choice("p", [0, n // 2, n - 1])
    late = ctx.choice("late", [False, True])
    if not late:
        g.add_edge(p, n)
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    if late:
        g.add_edge(p, n)
    order, depth = [], {n: p + 1, **{i: i for i in range(n)}}
    ended = []

    class V(DefaultTreeTraversalVisitor):
        def discover_vertex(self, u, h):
            order.append(u)

        def finish_vertex(self, u, h):
            ended.append(u)
    dfs = ctx.choice("dfs", [True, False])
    (dfs_tree if dfs else bfs_tree)(0, g, V())
    ctx.check(sorted(order) == sorted(ended) == list(range(n + 1)), "every vertex is discovered and finished once")
    if dfs:
        at = {u: i for i, u in enumerate(order)}
        ctx.check(order[:p + 1] == list(range(p + 1)) and abs(at[n] - p - 1) in (0, n - 1 - p), "a subtree is completed before it is left")
    else:
        ctx.check([depth[u] for u in order] == sorted(depth.values()), "by increasing depth")


@scene("C37")
def copy_chain(ctx, n):
    from pybgl.graph_copy import graph_copy
    from pybgl.graph_extract import graph_extract
    from pybgl.graph import DirectedGraph
    c = Chain(ctx, n)
    before = list(c.d)
    h = DirectedGraph()
    m = defaultdict(int)
    s = ctx.choice("s", [0, n // 2])
    r = c.distances(s)
    graph_copy(s, c.g, h, pmap_vertices=make_assoc_property_map(m)) if ctx.choice("map", [False, True]) else graph_copy(s, c.g, h)
    ctx.check(h.num_vertices() == len(r) and h.num_edges() == sum(len(c.succ[u]) for u in r), "as many vertices and edges as reachable")
    degrees = lambda g, us: sorted(g.out_degree(u) for u in us)
    ctx.check(degrees(h, h.vertices()) == degrees(c.g, r), "the degrees are kept")
    if m:
        es = sorted((e.source, e.target) for e in h.edges())
        ctx.check(es == sorted((m[u], m[v]) for u in r for v in c.succ[u]), "the copy is isomorphic to the reachable part")
    ctx.check(sorted(c.g.edges()) == sorted(before), "the graph is left as it was")
    got = []
    graph_extract(s, c.g, callback_edge_extract=lambda e, g: got.append(c.d[e]))
    ctx.check(sorted(got) == sorted((u, v) for u in r for v in c.succ[u]), "graph_extract examines the reachable edges")


def chain_automaton(ctx, n, cls, tag="", a="a"):
    """0 -a-> 1 ... -a-> n-1, a few arbitrary final states, perhaps a loop"""
    g = cls(n)
    for i in range(n - 1):
        g.add_edge(i, i + 1, a)
    loop = ctx.choice(f"{tag}loop", [False, True])
    if loop:
        g.add_edge(n - 1, n - 2, "b")
    f = {i: ctx.bool(f"{tag}f{i}") for i in (0, n // 2, n - 1)}
    for i, x in f.items():
        g.set_final(i, x)
    return g, f, loop


def chain_word(ctx, n):
    k = ctx.choice("k", [0, n // 2, n - 1, n])
    w = "a" * k
    tail = ctx.choice("tail", ["", "b", "ba", "bab"])
    return w + tail


def chain_accepts(n, f, loop, w):
    q = 0
    for a in w:
        q = q + 1 if a == "a" and q < n - 1 else n - 2 if a == "b" and q == n - 1 and loop else None
        if q is None:
            return False
    return f.get(q, False)


@scene("C04", "C07")
def automaton_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl import automaton as A
    g, f, loop = chain_automaton(ctx, n, Automaton)
    w = chain_word(ctx, n)
    ctx.check(Iff(g.accepts(w), chain_accepts(n, f, loop, w)), "a word is accepted iff its run ends in a final state")
    ctx.check(g.num_vertices() == n and g.num_edges() == n - 1 + loop and g.alphabet() == ({"a", "b"} if loop else {"a"}), "counts and alphabet")
    q, i = A.delta_best_effort(g, w)
    ctx.check(i <= len(w) and (i == len(w) or g.delta(q, w[i]) is None), "the longest prefix is read")


@scene("C08")
def nfa_chain(ctx, n):
    from pybgl.nfa import Nfa
    g, f, loop = chain_automaton(ctx, n, Nfa)
    w = chain_word(ctx, n)
    ctx.check(Iff(g.accepts(w), chain_accepts(n, f, loop, w)), "a word is accepted iff a path reads it")
    h = Nfa(n)
    for i in range(n - 1):
        h.add_edge(i, i + 1, h.epsilon)
    h.set_final(n - 1, f[n - 1])
    ctx.check(Iff(h.accepts(""), f[n - 1]), "a long chain of epsilons is followed")
    ctx.check(set(h.delta_epsilon({n // 2})) == set(range(n // 2, n)), "the epsilon-closure")


@scene("C09")
def determinize_chain(ctx, n):
    from pybgl.moore_determination import moore_determination
    from pybgl.nfa import Nfa
    g, f, loop = chain_automaton(ctx, n, Nfa)
    d = moore_determination(g, complete=ctx.choice("complete", [False, True]))
    w = chain_word(ctx, n)
    ctx.check(Iff(d.accepts(w), chain_accepts(n, f, loop, w)), "the determinized automaton accepts the same words")


@scene("C10")
def union_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl.deterministic_union import deterministic_union
    g, f, loop = chain_automaton(ctx, n, Automaton, "x")
    h, f2, loop2 = chain_automaton(ctx, n // 2 + 3, Automaton, "y")
    w = chain_word(ctx, n)
    u = deterministic_union(g, h)
    ctx.check(Iff(u.accepts(w), Or(chain_accepts(n, f, loop, w), chain_accepts(n // 2 + 3, f2, loop2, w))), "a word of the union")


@scene("C11")
def intersection_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl.deterministic_intersection import deterministic_intersection
    g, f, loop = chain_automaton(ctx, n, Automaton, "x")
    h, f2, loop2 = chain_automaton(ctx, n + 1, Automaton, "y")
    w = chain_word(ctx, n)
    u = deterministic_intersection(g, h)
    ctx.check(Iff(u.accepts(w), And(chain_accepts(n, f, loop, w), chain_accepts(n + 1, f2, loop2, w))), "a word of the intersection")


@scene("C12")
def inclusion_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl.deterministic_inclusion import deterministic_inclusion
    g, f, loop = chain_automaton(ctx, n, Automaton, "x")
    h, f2, loop2 = chain_automaton(ctx, n, Automaton, "y")
    r = deterministic_inclusion(g, h)
    keys = sorted(f)
    # (the loop goes through one state that may be final, the last one)
    more = And([Implies(f[k], f2[k]) for k in keys] + [loop2 or not loop or Not(f[n - 1])])
    less = And([Implies(f2[k], f[k]) for k in keys] + [loop or not loop2 or Not(f2[n - 1])])
    ctx.check(Eq(Ite(r == 0 if r is not None else False, 1, 0), Ite(And(more, less), 1, 0)), "0 iff the languages are equal")
    ctx.check(Iff(r is None, And(Not(more), Not(less))), "None iff neither language includes the other")
    ctx.check(And(Implies(And(more, Not(less)), r == 1), Implies(And(less, Not(more)), r == -1)), "1 (-1) iff the first language is strictly included in the second (resp. the other way round)")


@scene("C14")
def revuz_chain(ctx, n):
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.revuz_minimize import revuz_minimize
    g = IncidenceAutomaton(2 * n)
    f = [ctx.bool("f0"), ctx.bool("f1")]
    for i in range(n - 1):               # two branches: 0..n-1, and n..2n-1
        g.add_edge(i, i + 1, "a")
        g.add_edge(n + i, n + i + 1, "a")
    g.add_edge(0, n, "b")
    g.set_final(n - 1)
    g.set_final(2 * n - 1)
    g.set_final(n // 2, f[0])
    g.set_final(n + n // 2, f[1])
    h = revuz_minimize(g)
    ctx.check(h == n, "the height of the automaton")
    ctx.check(g.accepts("a" * (n - 1)) and g.accepts("b" + "a" * (n - 1)) and not g.accepts("a" * (n - 2)), "the words that are accepted")
    ctx.check(Iff(g.accepts("a" * (n // 2)), f[0]), "the words that are accepted")
    ctx.check(Iff(g.accepts("b" + "a" * (n // 2)), f[1]), "the words that are accepted")
    # from the right: merged down to the middle, and up to the second states if f0 = f1
    got = g.num_vertices()
    same = n + 1
    apart = 2 * n - (n - 1 - n // 2)
    ctx.check(Eq(got, Ite(Iff(f[0], f[1]), same, apart)), "equivalent states are merged, and they only")


@scene("C15")
def prune_chain(ctx, n):
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.prune_incidence_automaton import prune_incidence_automaton
    g, f, loop = chain_automaton(ctx, n, IncidenceAutomaton)
    last = n - 1 if f[n - 1] else n // 2 if f[n // 2] else 0 if f[0] else None
    prune_incidence_automaton(g)
    if last is not None:
        ctx.check(sorted(g.vertices()) == list(range(last + 1)), "the states kept are those on a path from the initial state to a final one")
    w = chain_word(ctx, n)
    if last is not None:
        ctx.check(Iff(g.accepts(w), chain_accepts(n, f, loop, w)), "the language is kept")


@scene("C38")
def automaton_copy_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl.automaton_copy import automaton_copy
    g, f, loop = chain_automaton(ctx, n, Automaton)
    h = Automaton()
    finals = []
    automaton_copy(0, g, h, callback_dup_vertex=lambda u, g, v, h: finals.append((u, v)))
    for u, v in finals:
        h.set_final(v, f.get(u, False))
    w = chain_word(ctx, n)
    ctx.check(Iff(h.accepts(w), chain_accepts(n, f, loop, w)) and h.num_vertices() == n, "the copy accepts the same words")


@scene("C40")
def parallel_chain(ctx, n):
    from pybgl.automaton import Automaton
    from pybgl.parallel_breadth_first_search import parallel_breadth_first_search, ParallelBreadthFirstSearchVisitor
    g, f, loop = chain_automaton(ctx, n, Automaton, "x")
    h, f2, loop2 = chain_automaton(ctx, n // 2, Automaton, "y")
    seen, done = [], []

    class V(ParallelBreadthFirstSearchVisitor):
        def discover_vertex(self, q1, g1, q2, g2):
            seen.append((q1, q2))

        def finish_vertex(self, q1, g1, q2, g2):
            done.append((q1, q2))
    parallel_breadth_first_search(g, h, vis=V())
    want, todo, m = {(0, 0)}, [(0, 0)], n // 2
    step = lambda q, a, k, l: None if q is None else (q + 1 if q < k - 1 else None) if a == "a" else k - 2 if l and q == k - 1 else None
    while todo:
        p, q = todo.pop()
        for a in "ab":
            r = step(p, a, n, loop), step(q, a, m, loop2)
            if r != (None, None) and r not in want:
                want.add(r)
                todo.append(r)
    ctx.check(len(set(seen)) == len(seen) and set(seen) | {(0, 0)} == want, "the pairs reachable in the product are discovered once")
    ctx.check(set(done) == want and len(done) == len(want), "and finished once")


@scene("C41")
def make_chain(ctx, n):
    from pybgl.automaton import make_automaton
    f = {i: ctx.bool(f"f{i}") for i in (0, n // 2, n - 1)}
    trs = [(i, i + 1, "a") for i in range(n - 1)]
    if ctx.choice("reversed", [False, True]):
        trs.reverse()
    g = make_automaton(trs, 0, make_func_property_map(lambda q: f.get(q, False)))
    w = chain_word(ctx, n)
    ctx.check(g.num_vertices() == n and g.num_edges() == n - 1, "one state per name, one transition per triple")
    ctx.check(Iff(g.accepts(w), chain_accepts(n, f, False, w)), "the automaton recognizes the words the transitions spell")


# --------------------------------------------------------------- containers
@scene("C01")
def big_directed(ctx, n):
    from pybgl.graph import DirectedGraph
    big_store(ctx, n, DirectedGraph)


@scene("C02")
def big_undirected(ctx, n):
    from pybgl.graph import UndirectedGraph
    big_store(ctx, n, UndirectedGraph)


@scene("C03")
def big_incidence(ctx, n):
    from pybgl.incidence_graph import IncidenceGraph
    big_store(ctx, n, IncidenceGraph)


def big_store(ctx, n, cls):
    from pybgl.graph import UndirectedGraph
    from pybgl.incidence_graph import IncidenceGraph
    g = cls(n)
    und = cls is UndirectedGraph
    hub = ctx.choice("hub", [0, n - 1])
    ds = []
    for v in range(n):
        e, ok = g.add_edge(hub, v)
        ds.append(e)
    k = ctx.choice("removed", [1, n // 2, n - 2])
    what = ctx.choice("what", ["vertex", "edge", "hub", "again"])
    left = n
    if what == "vertex":
        g.remove_vertex(k)
        left -= 1
    elif what == "edge":
        g.remove_edge(ds[k])
        left -= 1
    elif what == "hub":
        g.remove_vertex(hub)
        left = 0
    else:
        e, ok = g.add_edge(hub, k)
        ctx.check(ok and e not in set(ds), "a parallel edge has a descriptor of its own")
        left += 1
    ctx.check(g.num_edges() == left == len(list(g.edges())), "num_edges()")
    ctx.check(g.num_vertices() == n - (what in ("vertex", "hub")), "num_vertices()")
    if what != "hub":
        ctx.check(g.out_degree(hub) == left, "out_degree()")
        e, ok = g.edge(hub, k)
        ctx.check(ok == (what not in ("vertex", "edge") and what != "again"), "edge(u, v): only if there is exactly one")
        if und:
            ctx.check(g.in_degree(hub) == left, "in_degree()")
        if cls is IncidenceGraph:
            ctx.check([g.in_degree(v) for v in g.vertices()] == [{"edge": 1 - (v == k), "again": 1 + (v == k)}.get(what, 1) for v in g.vertices()], "in_degree()")


@scene("C05")
def big_automaton(ctx, n):
    from pybgl.incidence_automaton import IncidenceAutomaton
    g = IncidenceAutomaton(n)
    for i in range(n):
        g.add_edge(i, 0, "a")
        g.add_edge(i, (i + 1) % n, "b")
    k = ctx.choice("removed", [1, n // 2, n - 1])
    if ctx.choice("vertex", [False, True]):
        g.remove_vertex(k)
        ctx.check(g.num_edges() == 2 * n - 3 and g.in_degree(0) == n - (1 if k == n - 1 else 0), "remove_vertex removes its transitions")
    else:
        g.remove_edge(next(e for e in g.out_edges(k) if g.label(e) == "a"))
        ctx.check(g.num_edges() == 2 * n - 1 and g.in_degree(0) == n and g.delta(k, "a") is None, "remove_edge removes the transition")
    ctx.check(sum(g.in_degree(q) for q in g.vertices()) == g.num_edges(), "in_edges mirror the transitions")


@scene("C06")
def big_node_automaton(ctx, n):
    from pybgl.node_automaton import NodeAutomaton
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    g = ctx.choice("cls", [NodeAutomaton, IncidenceNodeAutomaton])(0)
    odd = ctx.sym("odd", ["b", "c"])
    at = ctx.choice("at", [1, n // 2, n - 1])
    for i in range(n):
        g.add_vertex(odd if i == at else "a")
    for i in range(n - 1):
        g.add_edge(i, i + 1)
    f = ctx.bool("f")
    g.set_final(n - 1, f)
    w = ctx.choice("letter", ["b", "c", "a"])
    word = "a" * (at - 1) + w + "a" * (n - 1 - at)
    ctx.check(Iff(g.accepts(word), And(f, Eq(odd, w))), "the word spelt by the states is accepted")


# -------------------------------------------------------------------- words
@scene("C24")
def long_trie(ctx, n):
    from pybgl.trie import Trie
    t, u = Trie(), Trie()
    x = ctx.sym("x", ["a", "b"])
    at = ctx.choice("at", [0, n // 2, n - 1])
    w = glue(["a"] * at + [x] + ["a"] * (n - 1 - at))
    t.insert("a" * n)
    if ctx.choice("fusion", [False, True]):
        u.insert(w)
        t.insert(u)
    else:
        t.insert(w)
    p = ctx.choice("probe", ["w", "a", "b", "prefix", "more"])
    if p == "w":
        ctx.check(t.accepts(w), "the words inserted are accepted")
    elif p == "a":
        ctx.check(t.accepts("a" * n), "the words inserted are accepted")
    elif p == "b":
        ctx.check(Iff(t.accepts("a" * at + "b" + "a" * (n - 1 - at)), Eq(x, "b")), "no other word is accepted")
    else:
        ctx.check(not t.accepts("a" * (n - 1 if p == "prefix" else n + 1)), "no other word is accepted")
    ctx.check(Eq(t.num_vertices(), Ite(Eq(x, "a"), n + 1, 2 * n + 1 - at)), "one state per prefix")


@scene("C25")
def long_matching(ctx, n):
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    t, u = Trie(), Trie()
    t.insert("a" * n)
    k = ctx.choice("k", [1, n // 2, n, n + 3])
    x = ctx.choice("x", ["a", "b"])
    u.insert("a" * (k - 1) + x)
    c = list(trie_matching(t, u))
    both = x == "a" and k == n
    shared = k + 1 if x == "a" and k <= n else n + 1 if x == "a" else min(k - 1, n) + 1
    total = (n + 1) + (k + 1) - shared
    ctx.check(c == [total - 2 + both, 1 - both, 1 - both, both + 0], "the prefixes and words of both tries are counted once")


@scene("C26")
def long_suffixes(ctx, n):
    from pybgl.suffix_trie import make_suffix_trie, factors
    n = 60
    x = ctx.sym("x", ["a", "b"])
    at = ctx.choice("at", [0, 20, n - 1])
    w = glue(["a"] * at + [x] + ["a"] * (n - 1 - at))
    t = make_suffix_trie(w)
    ctx.check(t.accepts("a" * max(at, n - 1 - at)) and t.accepts(w), "the factors are accepted")
    ctx.check(Iff(t.accepts("a" * n), Eq(x, "a")), "only the factors are accepted")
    ctx.check(Iff(t.accepts("b" + "a" * (n - 1 - at)), Eq(x, "b")), "only the factors are accepted")
    ctx.check(not t.accepts("a" * (n + 1)) and not t.accepts("bb"), "only the factors are accepted")


@scene("C27")
def long_sequence(ctx, n):
    from pybgl.digital_sequence import DigitalSequence
    x = ctx.sym("x", ["a", "b"])
    at = ctx.choice("at", [0, n // 2, n - 1])
    w = glue(["a"] * at + [x] + ["a"] * (n - 1 - at))
    g = DigitalSequence(w)
    ctx.check(g.num_vertices() == n + 1 and g.num_edges() == n == len(list(g.edges())), "counts")
    ctx.check(Iff(g.accepts("a" * n), Eq(x, "a")) and g.accepts(w), "accepts exactly w")
    ctx.check(Eq(len(set(g.alphabet())), Ite(Eq(x, "b"), 2, 1)), "the alphabet")


@scene("C23")
def long_bk(ctx, n):
    from pybgl.bk_tree import make_bk_tree
    # numbers, all at a distance of one another that nests them deeply
    shape = ctx.choice("shape", ["line", "star", "equal"])
    k = 60 if shape == "equal" else n
    dist = {"line": lambda x, y: abs(x - y), "star": lambda x, y: 0 if x == y else max(x, y), "equal": lambda x, y: int(x != y)}[shape]
    t = make_bk_tree(list(range(1, k)), dist)
    q = ctx.choice("q", [1, k // 2, k - 1, k + 1])
    r = ctx.choice("radius", [0, 2, k])
    got = t.search(q, r)
    best = min(dist(q, x) for x in range(1, k))
    ctx.check((got is None) == (best > r), "something is found iff an element is within the radius")
    ctx.check(got is None or dist(q, got[0]) == got[1] == best, "the closest element is found")


@scene("C34")
def big_heap(ctx, n):
    from pybgl.heap import Heap
    n = 200
    key = {i: (i * 7919) % 1009 for i in range(n)}
    x, y = ctx.real("x", 0, 1009), ctx.choice("y", [-1, 504, 1009])
    p = ctx.choice("p", [0, n // 2, n - 1])
    h = Heap(list(range(n)), to_comparable=lambda i: key[i])
    ctx.assume(x <= key[p])
    key[p] = x
    h.decrease_key(p)
    key["new"] = y
    h.push("new")
    order = [h.pop() for _ in range(n + 1)]
    ctx.check(not h and len(set(order)) == n + 1, "every element leaves once")
    ctx.check(And([key[a] <= key[b] for a, b in zip(order, order[1:])]), "in order")


# ------------------------------------------------------------------- regexp
@scene("C17", "C16")
def long_regexp(ctx, n):
    from pybgl.regexp import compile_nfa, compile_dfa
    form = ctx.choice("form", ["chain", "nest", "dfa", "count"])
    if form == "nest":
        g = compile_nfa("(" * n + "a" + ")" * n + "*")
        w, want = ctx.choice("word", [("", True), ("aaa", True), ("b", False)])
    elif form == "count":
        g = compile_nfa("(ab){120}")
        w, want = ctx.choice("word", [("ab" * 120, True), ("ab" * 119, False), ("ab" * 121, False), ("ab" * 119 + "aa", False)])
    else:
        g = (compile_nfa if form == "chain" else compile_dfa)("ab" * (n // 2) + "?")
        e = "ab" * (n // 2)
        w, want = ctx.choice("word", [(e, True), (e[:-1], True), (e[:-2], False), (e + "b", False), ("b" + e[1:], False)])
    ctx.check(g.accepts(w) == want, "the automaton accepts the words the expression denotes")


@scene("C18", "C19")
def long_expression(ctx, n):
    from pybgl.shunting_yard_postfix import shunting_yard_postfix, shunting_yard_compute, shunting_yard_ast, MAP_OPERATORS_ALG, tokenizer_alg
    form = ctx.choice("form", ["nest", "sum", "power", "minus"])
    e = {"nest": "(" * n + "5" + ")" * n, "sum": "+".join(["1"] * n), "power": "^".join(["1"] * n) + "+3", "minus": "-".join(["1"] * n)}[form]
    want = {"nest": 5, "sum": n, "power": 4, "minus": 2 - n}[form]
    toks = list(tokenizer_alg(e))
    rpn = [x if isinstance(x, str) else str(int(x)) for x in shunting_yard_postfix(toks, MAP_OPERATORS_ALG)]
    one = {"nest": ["5"], "sum": ["1"] + ["1", "+"] * (n - 1), "power": ["1"] * n + ["^"] * (n - 1) + ["3", "+"], "minus": ["1"] + ["1", "-"] * (n - 1)}[form]
    ctx.check(rpn == one, "the postfix form of the syntax tree")
    ctx.check(shunting_yard_compute(e) == want, "the value of the expression")
    (ast, root) = shunting_yard_ast(toks, MAP_OPERATORS_ALG)
    ctx.check(ast.num_vertices() == len(one) and ast.num_edges() == len(one) - 1, "one node per token")


@scene("C43")
def long_tokens(ctx, n):
    import re
    from pybgl.tokenize import tokenize, TokenizeVisitor
    out = []

    class V(TokenizeVisitor):
        def on_matched(self, m, start, end, s):
            out.append(("m", m, start, end))

        def on_unmatched(self, u, start, end, s):
            out.append(("u", u, start, end))
    s = "ab" * n + ctx.choice("tail", ["", "a", "bb"])
    tokenize(re.compile("a"), s, V())
    ctx.check("".join(x[1] for x in out) == s and all(s[x[2]:x[3]] == x[1] for x in out), "the pieces are the string, in order")
    ctx.check(all(x[0] == ("m" if "a" in x[1] else "u") for x in out), "matched iff it matches")


@scene("C42")
def long_dot(ctx, n):
    from pybgl.graphviz import to_dot
    c = Chain(ctx, n)
    text = to_dot(c.g)
    import re
    es = [(int(u), int(v)) for u, v in re.findall(r"(\d+)\s*->\s*(\d+)", text)]
    ctx.check(sorted(es) == sorted(c.arcs), "every edge is written once")


@scene("C13")
def hopcroft_chain(ctx, n):
    from pybgl.incidence_automaton import IncidenceAutomaton
    from pybgl.hopcroft_minimize import hopcroft_minimize
    n = 90
    g = IncidenceAutomaton(2 * n)
    f = [ctx.bool("f0"), ctx.bool("f1")]
    for i in range(n - 1):
        g.add_edge(i, i + 1, "a")
        g.add_edge(n + i, n + i + 1, "a")
    g.add_edge(0, n, "b")
    g.set_final(n - 1)
    g.set_final(2 * n - 1)
    g.set_final(n // 2, f[0])
    g.set_final(n + n // 2, f[1])
    h = hopcroft_minimize(g)
    ctx.check(h.accepts("a" * (n - 1)) and h.accepts("b" + "a" * (n - 1)) and not h.accepts("a" * (n - 2)), "the words that are accepted")
    ctx.check(Iff(h.accepts("a" * (n // 2)), f[0]), "the words that are accepted")
    ctx.check(Iff(h.accepts("b" + "a" * (n // 2)), f[1]), "the words that are accepted")
    ctx.check(Eq(h.num_vertices(), Ite(Iff(f[0], f[1]), n + 1, 2 * n - (n - 1 - n // 2))), "equivalent states are merged, and they only")


@scene("C39")
def view_chain(ctx, n):
    from pybgl.graph_view import GraphView
    c = Chain(ctx, n)
    hidden = ctx.choice("hidden", [None, 0, n // 2, n - 1])
    v = GraphView(c.g, pmap_vrelevant=make_func_property_map(lambda u: u != hidden), pmap_erelevant=make_func_property_map(lambda e: e.target != 7))
    want = sorted((p, q) for p, q in c.arcs if hidden not in (p, q) and q != 7)
    ctx.check(sorted((e.source, e.target) for e in v.edges()) == want and v.num_edges() == len(want), "the relevant edges between relevant vertices")
    ctx.check(sorted(v.vertices()) == [u for u in range(n) if u != hidden], "the relevant vertices")
    from pybgl.breadth_first_search import breadth_first_search, DefaultBreadthFirstSearchVisitor
    seen = []

    class V(DefaultBreadthFirstSearchVisitor):
        def discover_vertex(self, u, g):
            seen.append(u)
    breadth_first_search(9, v, vis=V())
    todo, far = [9], {9}
    while todo:
        u = todo.pop()
        for p, q in want:
            if p == u and q not in far:
                far.add(q)
                todo.append(q)
        if len(far) > 40:
            return
    ctx.check(set(seen) == far, "a traversal of the view stays inside")


@scene("C20")
def long_levenshtein(ctx, n):
    long_distances(ctx, "levenshtein_distance", True, False)


@scene("C21")
def long_lcs(ctx, n):
    long_distances(ctx, "lcs_distance", False, False)


@scene("C22")
def long_damerau(ctx, n):
    long_distances(ctx, "damerau_levenshtein_distance", True, True)


def long_distances(ctx, name, sub, swap):
    f = getattr(module(name), name)
    base = "abcab" * 12
    at = ctx.choice("at", [0, 29, 59])
    x = ctx.sym("x", ["a", "b", "c"])
    other = ctx.choice("other", ["abcab" * 11, "bca" * 25, "c" * 70, "cbbaa" * 8 + "ab" * 10, ""])
    got = f(glue(list(base[:at]) + [x] + list(base[at + 1:])), other) if ctx.choice("turn", [False, True]) else \
        f(other, glue(list(base[:at]) + [x] + list(base[at + 1:])))

    def d(v, w):
        D = [[i + j for j in range(len(w) + 1)] for i in range(len(v) + 1)]
        for i in range(1, len(v) + 1):
            for j in range(1, len(w) + 1):
                same = v[i - 1] == w[j - 1]
                D[i][j] = min(D[i - 1][j] + 1, D[i][j - 1] + 1, D[i - 1][j - 1] + (0 if same else 1 if sub else 2))
                if swap and i > 1 and j > 1 and v[i - 1] == w[j - 2] and v[i - 2] == w[j - 1]:
                    D[i][j] = min(D[i][j], D[i - 2][j - 2] + 1)
        return D[-1][-1]
    for a in "abc":
        ctx.check(Implies(Eq(x, a), Eq(got, d(base[:at] + a + base[at + 1:], other))), "the distance is the minimal number of operations (words of 60 to 75 letters)")


@scene("C50")
def long_read_back(ctx, n):
    from pybgl.graph import DirectedGraph
    from pybgl.graphviz import read_graphviz_dp
    c = Chain(ctx, n)
    s = c.g.to_dot(dpv={"rank": make_func_property_map(lambda u: 3 * u)}, dpe={"weight": make_func_property_map(lambda e: e.source + e.target)})
    rank, weight = (make_assoc_property_map(defaultdict(lambda: None)) for _ in range(2))
    h = DirectedGraph()
    read_graphviz_dp(s if c.gap is None else iter(s.splitlines()), h, {"rank": rank}, {"weight": weight})
    ctx.check(list(h.vertices()) == list(range(n)), "the vertices are read back")
    ctx.check(sorted((e.source, e.target) for e in h.edges()) == sorted(c.arcs), "the edges are read back")
    ctx.check(all(rank[u] == str(3 * u) for u in range(n)), "the values of the vertices are read back")
    ctx.check(all(weight[e] == str(e.source + e.target) for e in h.edges()), "the values of the edges are read back")


@scene("C42")
def long_read(ctx, n):
    from pybgl.graph import DirectedGraph
    from pybgl.graphviz import read_graphviz
    c = Chain(ctx, n)
    h = DirectedGraph()
    read_graphviz(c.g.to_dot(), h)
    ctx.check(list(h.vertices()) == list(range(n)), "the vertices are read back")
    ctx.check(sorted((e.source, e.target) for e in h.edges()) == sorted(c.arcs), "the edges are read back")


@scene("C46")
def many_visitors(ctx, n):
    from pybgl.aggregated_visitor import AggregatedVisitor
    from pybgl.breadth_first_search import breadth_first_search, DefaultBreadthFirstSearchVisitor
    from pybgl.graph import DirectedGraph
    log = []

    class V(DefaultBreadthFirstSearchVisitor):
        def __init__(self, i):
            self.i = i

        def examine_edge(self, e, g):
            log.append((self.i, e.target))
    g = DirectedGraph(3)
    edges = [(0, 1)] + [(0, 2)] * ctx.choice("more", [0, 1]) + [(1, 2)] * ctx.choice("then", [0, 2])
    for u, v in edges:
        g.add_edge(u, v)
    breadth_first_search(0, g, vis=AggregatedVisitor([V(i) for i in range(n)]))
    ctx.check([x[0] for x in log] == list(range(n)) * len(edges), "each event is forwarded to every visitor, in order")
    ctx.check(all(log[i][1] == log[i - i % n][1] for i in range(len(log))), "the same event")
