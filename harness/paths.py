"""C32-C34: Dijkstra's algorithm and the heap it uses.

The weights of the edges are symbolic numbers without a bound worth mentioning
(they only stay below INFINITY); the order in which the real code pops the
vertices is decided by the solver, comparison by comparison.
"""
from collections import defaultdict
from .common import *
from pybgl.algebra import INFINITY
from pybgl.property_map import make_assoc_property_map
from pybgl.graph_traversal import BLACK

BIG = 10 ** 12

# fixed shapes, where only the weights are symbolic
SHAPES = {
    # complete digraph on 4 vertices without the arcs towards the source
    "K4": (4, [(u, v) for u in range(4) for v in range(1, 4) if u != v]),
    # 5 vertices, acyclic, many paths
    "dag5": (5, [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (0, 4)]),
    # two parallel edges everywhere on a diamond
    "diamond": (4, [(0, 1), (0, 1), (0, 2), (1, 3), (2, 3), (2, 3), (1, 2)]),
    # a ring with chords, 5 vertices
    "ring5": (5, [(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (0, 2), (2, 1), (1, 4), (3, 1)]),
    # a grid of 3 x 3, with two arcs upwards; the weights of some arcs are fixed
    "grid9": (9, [(0, 1), (1, 2), (3, 4), (4, 5), (6, 7), (7, 8), (0, 3), (3, 6), (1, 4), (4, 7), (2, 5), (5, 8), (7, 4), (5, 2)],
              [3, 4, None, 2, 5, None, 2, 6, 1, None, 3, 4, 2, 1]),
    # a hub which is improved again and again
    "hub8": (8, [(0, 1), (0, 2), (0, 3), (0, 4), (4, 3), (3, 2), (2, 1), (1, 5), (2, 5), (3, 5), (5, 6), (6, 7), (1, 7), (7, 5)],
             [40, 31, None, 11, 9, None, 8, 1, 1, None, 5, 5, 30, 0.5]),
    "ladder6": (6, [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 4), (3, 4), (4, 3), (3, 5), (4, 5)]),
}


class Weighted:
    def __init__(self, ctx, n=None, k=2, loops=True, shape=None, lo=0, strict=False, perm=False):
        from pybgl.graph import DirectedGraph
        self.ctx = ctx
        self.W = {}
        if shape:
            self.n, pairs, *weights = SHAPES[shape]
            if perm and ctx.choice("numbering", ["up", "down"]) == "down":
                pairs = [(self.n - 1 - u, self.n - 1 - v) for u, v in pairs]
                self.s = self.n - 1
            else:
                self.s = 0
            g = self.g = DirectedGraph(self.n)
            self.edges = [g.add_edge(u, v)[0] for u, v in pairs]
        else:
            self.n = n
            S = sym_digraph(ctx, n, loops=loops, k=k)
            self.g = S.g
            self.s = ctx.choice("s", range(n))
            self.edges = None
            self.S = S
        self.lo, self.strict = lo, strict
        if shape:
            keys = [(e.source, e.target, e.distinguisher) for e in self.edges]
        else:
            keys = [p + (i,) for p in S.pairs for i in range(k - 1)]
        for i, kx in enumerate(keys):
            if shape and weights and weights[0][i] is not None:
                self.W[kx] = weights[0][i]
                continue
            self.W[kx] = ctx.real(f"w{kx[0]}_{kx[1]}_{kx[2]}", lo, BIG)
            if strict:
                ctx.assume(self.W[kx] > 0)

    def w(self, e):
        return self.W[e.source, e.target, e.distinguisher]

    def pmap(self):
        d = defaultdict(int)
        w = self

        class Map(defaultdict):
            def __getitem__(self, e):
                return w.w(e)
        return make_assoc_property_map(Map(int))

    def known_edges(self, reached):
        """the edges leaving the vertices of `reached` (decided by the run)"""
        out = []
        for u in sorted(reached):
            for e in self.g.out_edges(u):
                out.append(e)
        return out

    def reachable(self):
        """the vertices reachable from s: read off the graph, whose relevant rows the run has decided"""
        seen, todo = {self.s}, [self.s]
        while todo:
            u = todo.pop()
            for e in self.g.out_edges(u):
                v = self.g.target(e)
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
        return seen

    def simple_paths(self, s, t, es):
        out = []

        def rec(u, path, seen):
            if u == t:
                out.append(path)
                return
            for e in es:
                if e.source == u and e.target not in seen:
                    rec(e.target, path + [e], seen | {e.target})
        rec(s, [], {s})
        return out


def length(W, path, combine, zero):
    d = zero
    for e in path:
        d = combine(d, W.w(e))
    return d


ALG = {
    # name: (compare argument, combine argument, zero, infty, leq formula, combine formula)
    "default": (None, None, 0, INFINITY, lambda a, b: a <= b, lambda a, b: a + b),
    "less": ("less", "plus", 0, INFINITY, lambda a, b: a <= b, lambda a, b: a + b),
    "le": (lambda a, b: a <= b, "plus", 0, INFINITY, lambda a, b: a <= b, lambda a, b: a + b),
    "widest_ge": (lambda a, b: a >= b, "builtin min", INFINITY, 0, lambda a, b: a >= b, lambda a, b: Min(a, b)),
    "widest_gt": ("greater", "min", INFINITY, 0, lambda a, b: a >= b, lambda a, b: Min(a, b)),
    # not commutative: the weight of an arc counts after the path before it
    "affine": ("less", lambda d, w: 2 * d + w, 0, INFINITY, lambda a, b: a <= b, lambda d, w: 2 * d + w),
    "minimax": ("less", "max", 0, INFINITY, lambda a, b: a <= b, lambda a, b: Max(a, b)),
}


def algebra(name):
    from pybgl import algebra as A
    comp, comb, zero, infty, leq, f = ALG[name]
    kw = {}
    if comp is not None:
        kw["compare"] = {"less": A.Less(), "greater": A.GreaterThan()}.get(comp, comp) if isinstance(comp, str) else comp
    if comb is not None:
        kw["combine"] = {"plus": A.ClosedPlus(), "builtin min": min, "min": A.ClosedMin(), "max": A.ClosedMax()}.get(comb, comb) if isinstance(comb, str) else comb
    if name not in ("default", "less"):
        kw.update(zero=zero, infty=infty)
    return kw, zero, infty, leq, f


def check_distances(ctx, W, dist, reach, zero, infty, leq, f, what="distance"):
    es = W.known_edges(reach)
    for v in range(W.n):
        if v not in reach:
            ctx.check(dist[v] == infty, "an unreachable vertex stays at the infinite distance")
            ctx.cover("unreachable")
            continue
        ls = [length(W, p, f, zero) for p in W.simple_paths(W.s, v, es)]
        ctx.check(And([leq(dist[v], l) for l in ls]), f"no path is better than the computed {what}")
        ctx.check(Or([Eq(dist[v], l) for l in ls]), f"the computed {what} is the one of a path")
    return es


@job("C32",
     quick=[dict(n=3, loops=False), dict(n=3, loops=True, positive=True), dict(shape="dag5"), dict(shape="diamond"), dict(shape="K4", perm=True),
            dict(n=3, loops=False, prior=True), dict(shape="grid9", perm=True), dict(shape="hub8", perm=True)],
     thorough=[dict(shape="diamond", prior=True), dict(n=3, prior=True), dict(n=3, loops=True), dict(n=3, k=3, loops=False), dict(shape="ring5", perm=True), dict(shape="ladder6", perm=True), dict(shape="K4", perm=True),
               dict(shape="dag5", perm=True), dict(n=4, loops=False, positive=True)],
     covers=("tie", "unreachable", "relaxed twice"), path_s=20)
def dijkstra(ctx, n=None, k=2, loops=True, shape=None, positive=False, perm=False, prior=False):
    """dijkstra_shortest_paths over every multigraph of n vertices (or a fixed
    shape, see SHAPES) with arbitrary weights in [0, 10^12] (positive: > 0;
    prior: after another computation, with default arguments)."""
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, DijkstraVisitor
    W = Weighted(ctx, n, k, loops, shape, strict=positive, perm=perm)
    if shape:
        ctx.cover("unreachable")
    run(ctx, W, "default", dijkstra_shortest_paths, DijkstraVisitor, prior)


@job("C33",
     quick=[dict(alg=a, n=3, loops=False) for a in ("widest_ge", "widest_gt", "minimax", "affine", "less", "le")] +
           [dict(alg=a, shape=x) for a in ("widest_ge", "widest_gt", "minimax", "affine", "less", "le") for x in ("diamond", "grid9", "hub8")],
     thorough=[dict(alg=a, n=3, loops=True) for a in ("widest_ge", "widest_gt", "minimax", "affine", "less", "le")] +
              [dict(alg=a, shape=x, perm=True) for a in ("widest_ge", "widest_gt", "minimax", "affine", "less", "le") for x in ("K4", "ring5", "dag5")],
     covers=("tie", "unreachable", "relaxed twice"), path_s=20)
def dijkstra_algebra(ctx, alg, n=None, k=2, loops=True, shape=None, perm=False):
    """dijkstra_shortest_paths with a comparison (strict or not) and a
    combination of weights passed by the caller: shortest, widest and minimax
    paths, weights in (0, 10^12]."""
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, DijkstraVisitor
    W = Weighted(ctx, n, k, loops, shape, strict=True, perm=perm)
    if shape:
        ctx.cover("unreachable")
    run(ctx, W, alg, dijkstra_shortest_paths, DijkstraVisitor)


def run(ctx, W, alg, dijkstra_shortest_paths, DijkstraVisitor, prior=False):
    kw, zero, infty, leq, f = algebra(alg)
    g, s = W.g, W.s
    dist, preds, color = defaultdict(int), defaultdict(set), defaultdict(int)
    st = dict(open=None, edge=None, kind=None)
    initialized, examined, finished, discovered, seen = [], [], [], [], []
    popped = {}
    relaxed = defaultdict(int)

    def ok(c, m):
        ctx.check(c, m)

    class V(DijkstraVisitor):
        def initialize_vertex(self, u, h):
            ok(h is g and not examined and u not in initialized, "initialize_vertex runs before the search")
            initialized.append(u)

        def examine_vertex(self, u, h):
            ok(h is g and st["open"] is None and u not in examined, "a vertex is examined once")
            for v in examined:
                ok(leq(popped[v], dist[u]), "vertices are examined by increasing distance")
            popped[u] = dist[u]
            examined.append(u)
            st["open"] = u
            st["edge"] = None

        def examine_edge(self, e, h):
            ok(h is g and g.source(e) == st["open"], "examine_edge concerns the current vertex")
            ok(st["edge"] is None or st["kind"] is not None, "every examined edge is relaxed or not")
            st["edge"], st["kind"] = e, None
            st["old"] = dist[g.target(e)]
            st["new"] = f(dist[st["open"]], W.w(e))
            seen.append((e.source, e.target, e.distinguisher))

        def discover_vertex(self, u, h):
            ok(h is g and u not in discovered, "a vertex is discovered once")
            ok(st["edge"] is not None and g.target(st["edge"]) == u, "discover_vertex concerns the target of the current edge")
            discovered.append(u)

        def edge_relaxed(self, e, h):
            ok(h is g and e == st["edge"] and st["kind"] is None, "edge_relaxed concerns the current edge")
            ok(leq(st["new"], st["old"]), "edge_relaxed: the path through the edge is as good as the best known")
            relaxed[g.target(e)] += 1
            st["kind"] = True

        def edge_not_relaxed(self, e, h):
            ok(h is g and e == st["edge"] and st["kind"] is None, "edge_not_relaxed concerns the current edge")
            ok(leq(st["old"], st["new"]), "edge_not_relaxed: the best known path is as good")
            st["kind"] = False

        def finish_vertex(self, u, h):
            ok(h is g and st["open"] == u, "finish_vertex closes the current vertex")
            ok(st["edge"] is None or st["kind"] is not None, "every examined edge is relaxed or not")
            finished.append(u)
            st["open"] = None

    colored = ctx.choice("colors", [True, False]) if prior else True
    pp = make_assoc_property_map(preds)
    if prior:
        if ctx.choice("copies", [False, True]):
            # a property map may return copies of what it holds
            from pybgl.property_map import ReadWritePropertyMap

            class Copying(ReadWritePropertyMap):
                def __init__(self):
                    pass

                def __getitem__(self, u):
                    return set(preds[u])

                def __setitem__(self, u, x):
                    preds[u] = set(x)
            pp = Copying()
        # another computation (no visitor, other colors) before
        d0, p0 = defaultdict(int), defaultdict(set)
        dijkstra_shortest_paths(g, s, W.pmap(), make_assoc_property_map(p0), make_assoc_property_map(d0), **kw)
    if colored:
        kw["pmap_vcolor"] = make_assoc_property_map(color)
    dijkstra_shortest_paths(
        g, s, W.pmap(), pp, make_assoc_property_map(dist), vis=V(), **kw)
    if prior:
        for v in range(W.n):
            ok(Eq(d0[v], dist[v]), "the distances do not depend on the visitor and the colors")
            ok({key(e) for e in p0[v]} == {key(e) for e in preds[v]}, "the predecessors do not depend on the visitor and the colors")
    reach = W.reachable()
    es = check_distances(ctx, W, dist, reach, zero, infty, leq, f)
    ok(sorted(initialized) == list(range(W.n)), "every vertex is initialized")
    ok(set(examined) == reach and examined == finished, "exactly the reachable vertices are examined")
    ok(set(discovered) | {s} == reach, "exactly the reachable vertices are discovered")
    ok(sorted(seen) == sorted((e.source, e.target, e.distinguisher) for e in es), "every edge leaving a reachable vertex is examined once")
    for v in range(W.n):
        if v in reach:
            ok(not colored or color[v] == BLACK, "the vertices reached end black")
            if relaxed[v] > 1:
                ctx.cover("relaxed twice")
            ps = {key(e) for e in preds[v]}
            n = 0
            for e in es:
                if g.target(e) != v:
                    ok(key(e) not in ps, "a predecessor arc of v enters v")
                    continue
                tight = Eq(f(dist[g.source(e)], W.w(e)), dist[v])
                isin = key(e) in ps
                n += isin
                ok(Implies(isin, tight), "a predecessor arc lies on a shortest path")
                # a null arc may close a cycle: whether it is kept is not specified
                ok(Implies(And(tight, True if W.strict else W.w(e) > 0), isin), "every arc ending a shortest path is a predecessor arc")
            ok(len(preds[v]) == n, "the predecessor arcs of v are arcs entering v")
            ok(v == s or n > 0, "a vertex reached has a predecessor arc")
            if n > 1:
                ctx.cover("tie")
        else:
            ok(not preds[v], "an unreachable vertex has no predecessor arc")


@job("C32",
     quick=[dict(n=3, loops=False), dict(shape="dag5"), dict(shape="diamond"), dict(shape="K4"), dict(shape="grid9"), dict(shape="hub8")],
     thorough=[dict(n=3, loops=True), dict(n=3, k=3, loops=False), dict(shape="ring5", perm=True), dict(shape="ladder6", perm=True), dict(n=4, loops=False)],
     covers=("no path", "empty path", "path", "two edges"), path_s=20)
def dijkstra_towards(ctx, n=None, k=2, loops=True, shape=None, perm=False, alg="default"):
    """dijkstra_shortest_path: a single shortest path, for every target; weights
    in [0, 10^12] (null ones included)."""
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path
    W = Weighted(ctx, n, k, loops, shape, perm=perm)
    if shape:
        ctx.cover("no path")
    towards(ctx, W, alg, dijkstra_shortest_path)


@job("C33",
     quick=[dict(alg=a, shape="diamond") for a in ("widest_ge", "widest_gt", "minimax", "affine")] + [dict(alg="widest_ge", n=3, loops=False), dict(alg="minimax", n=3, loops=False)],
     thorough=[dict(alg=a, shape=x) for a in ("widest_ge", "widest_gt", "minimax", "affine", "le") for x in ("K4", "ring5", "dag5")],
     covers=("no path", "empty path", "path", "two edges"), path_s=20)
def dijkstra_towards_algebra(ctx, alg, n=None, k=2, loops=True, shape=None, perm=False):
    """dijkstra_shortest_path with a comparison and a combination passed by the caller."""
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_path
    W = Weighted(ctx, n, k, loops, shape, strict=True, perm=perm)
    if shape:
        ctx.cover("no path")
    towards(ctx, W, alg, dijkstra_shortest_path)


def towards(ctx, W, alg, dijkstra_shortest_path):
    kw, zero, infty, leq, f = algebra(alg)
    g, s = W.g, W.s
    t = ctx.choice("t", range(W.n))
    dist, preds = defaultdict(int), defaultdict(set)
    seen = []
    if ctx.choice("visitor", [False, True]):
        from pybgl.dijkstra_shortest_paths import DijkstraVisitor

        class Spy(DijkstraVisitor):
            def examine_vertex(self, u, h):
                seen.append(u)
        kw["vis"] = Spy()
    path = dijkstra_shortest_path(g, s, t, W.pmap(), make_assoc_property_map(preds), make_assoc_property_map(dist), **kw)
    if "vis" in kw:
        ctx.check(seen[:1] == [s] and len(set(seen)) == len(seen), "the visitor of the caller sees the search")
    reach = W.reachable()
    es = W.known_edges(reach)
    if path is None:
        ctx.check(t not in reach, "dijkstra_shortest_path returns None only if there is no path")
        ctx.cover("no path")
        return
    ctx.check(t in reach, "dijkstra_shortest_path returns None if there is no path")
    ctx.cover("path")
    u = s
    for e in path:
        ctx.check(g.source(e) == u, "the arcs of the path are consecutive")
        ctx.check(key(e) in {key(x) for x in es}, "the arcs of the path are arcs of the graph")
        u = g.target(e)
    ctx.check(u == t, "the path leads to the target")
    if not path:
        ctx.cover("empty path")
    if len(path) == 2:
        ctx.cover("two edges")
    d = length(W, path, f, zero)
    for p in W.simple_paths(s, t, es):
        ctx.check(leq(d, length(W, p, f, zero)), "no path is better than the one returned")


@job("C32",
     quick=[dict(n=3, loops=False), dict(shape="diamond"), dict(shape="dag5"), dict(shape="grid9"), dict(shape="hub8")],
     thorough=[dict(n=3, loops=True), dict(n=3, k=3, loops=False), dict(shape="ring5"), dict(shape="K4"), dict(shape="ladder6")],
     covers=("several", "one"), path_s=20)
def paths_dag(ctx, n=None, k=2, loops=True, shape=None):
    """make_shortest_paths_dag and make_shortest_path on the predecessors that
    dijkstra_shortest_paths computes; positive weights."""
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, make_shortest_paths_dag, make_shortest_path
    W = Weighted(ctx, n, k, loops, shape, strict=True)
    g, s = W.g, W.s
    dist, preds = defaultdict(int), defaultdict(set)
    pp = make_assoc_property_map(preds)
    dijkstra_shortest_paths(g, s, W.pmap(), pp, make_assoc_property_map(dist))
    reach = W.reachable()
    es = W.known_edges(reach)
    t = ctx.choice("t", range(W.n))
    dag = make_shortest_paths_dag(g, s, t, pp)
    one = make_shortest_paths_dag(g, s, t, pp, single_path=True)
    if t not in reach:
        ctx.check(not dag and not one, "no arc if there is no path")
        return
    ps = W.simple_paths(s, t, es)
    best = {id(p): Eq(length(W, p, lambda a, b: a + b, 0), dist[t]) for p in ps}
    got = {key(e) for e in dag}
    ctx.check(len(got) == len(dag) and got <= {key(e) for e in es}, "the arcs returned are arcs of the graph")
    for e in es:
        on = Or([best[id(p)] for p in ps if e in p] or [False])
        ctx.check(Iff(key(e) in got, on), "the arcs returned are those of the shortest paths")
    if len(got) > 2:
        ctx.cover("several")
    one = {key(e) for e in one}
    ctx.check(Or([best[id(p)] for p in ps if {key(e) for e in p} == one] or [False]), "single_path: the arcs of one shortest path")
    path = make_shortest_path(g, s, t, pp)
    ctx.check(Or([best[id(p)] for p in ps if [key(e) for e in p] == [key(e) for e in path]] or [False]), "make_shortest_path: one shortest path, in order")
    ctx.cover("one")


# ------------------------------------------------------------------- C34
PRE = {"none": None, "le": lambda a, b: a <= b, "ge": lambda a, b: a >= b}


@job("C34", quick=[dict(init=3, ops=2), dict(init=4, ops=1), dict(init=2, ops=3, dup=True), dict(init=0, ops=4),
                dict(fixed=[6, 2, 8, 1, 9, 2, 7, 4], ops=2), dict(fixed=[6, 2, 8, 1, 9, 2, 7, 4, 10, 3, 11, 5, 4, 12, 6, 2], ops=1)],
     thorough=[dict(init=4, ops=2), dict(init=6, ops=1), dict(init=3, ops=3, dup=True), dict(init=0, ops=5), dict(init=5, ops=1),
               dict(fixed=[6, 2, 8, 1, 9, 2, 7, 4, 4, 3, 11, 5], ops=2), dict(fixed=[6, 2, 8, 1, 9, 2, 7, 4], ops=3)],
     covers=("push", "decrease_key", "pop", "tie", "iter"))
def heap(ctx, init=0, ops=0, dup=False, fixed=()):
    """Heap: `init` initial elements, then `ops` operations (push, decrease_key,
    pop), with arbitrary keys, for <=, >= and the natural order; then it is
    iterated and emptied.  dup: the elements may be pushed several times.
    fixed: the keys of the initial elements are these."""
    init = len(fixed) or init
    from pybgl.heap import Heap, Comparable
    pre = ctx.choice("preorder", ["none", "le", "ge"])
    keys = {}
    names = ["a", "b", "c"] if dup else None

    def before(x, y):        # x strictly before y
        return x > y if pre == "ge" else x < y

    def as_good(x, y):
        return x >= y if pre == "ge" else x <= y

    def newkey(x, i):
        if x not in keys:
            keys[x] = ctx.real(f"k{i}") if not (i in range(len(fixed))) else fixed[i]
        return x
    to = None
    if pre == "none":
        to = lambda x: keys[x]
    else:
        to = lambda x: Comparable(keys[x], PRE[pre])
    content = []             # [(insertion rank, element)]
    for i in range(init):
        x = newkey(ctx.choice(f"x{i}", names) if dup else i, i)
        content.append((i, x))
    xs = [x for _, x in content]
    form = ctx.choice("form", ["list", "tuple", "iterator", "dict"]) if init in (2, 3) and not dup else "list"
    h = Heap({"list": lambda x: x, "tuple": tuple, "iterator": iter, "dict": dict.fromkeys}[form](xs), to_comparable=to) if init else Heap(to_comparable=to)
    ctx.check(xs == [x for _, x in content], "the collection of the caller is left alone")
    rank = init

    def take(where):
        x = h.pop()
        j = [i for i, (_, y) in enumerate(content) if y == x]
        ctx.check(bool(j), f"{where}: an element of the heap")
        c = content.pop(j[0])
        for (r, y) in content:
            ctx.check(as_good(keys[x], keys[y]), f"{where}: no remaining element comes before it")
            if y != x:
                ctx.check(Implies(Eq(keys[x], keys[y]), r > c[0]), f"{where}: equal elements leave in order of insertion")
                ctx.cover("tie", Eq(keys[x], keys[y]))

    for i in range(ops):
        op = ctx.choice(f"op{i}", ["push", "decrease_key", "pop"])
        if op == "push":
            x = newkey(ctx.choice(f"y{i}", names) if dup else rank, f"p{i}")
            h.push(x)
            content.append((rank, x))
            rank += 1
        elif op == "decrease_key":
            xs = sorted({x for _, x in content})
            if not xs:
                return
            x = ctx.choice(f"z{i}", xs)
            k = ctx.real(f"d{i}")
            ctx.assume(as_good(k, keys[x]))
            keys[x] = k
            h.decrease_key(x)
        else:
            if not content:
                return
            take("pop")
        ctx.cover(op)
        ctx.check(len(h) == len(content) and bool(h) is bool(content), "len() and bool()")
    order = list(h)
    ctx.cover("iter")
    ctx.check(sorted(order) == sorted(x for _, x in content), "iterating yields every element")
    for x, y in zip(order, order[1:]):
        ctx.check(as_good(keys[x], keys[y]), "iterating yields the elements in order")
    ctx.check(len(h) == len(content), "iterating leaves the heap unchanged")
    while content:
        take("emptying")
    ctx.check(len(h) == 0 and not h, "the heap is empty at the end")


@job("C34", quick=[dict(n=4)], thorough=[dict(n=5), dict(n=6)], covers=("equal", "different"))
def comparable(ctx, n):
    """Comparable and compare_to_key: n arbitrary numbers, preorders <= and >=."""
    from pybgl.heap import Comparable, compare_to_key
    pre = ctx.choice("preorder", ["le", "ge"])
    p = PRE[pre]
    xs = [ctx.real(f"x{i}") for i in range(n)]
    a, b = xs[0], xs[1]
    A, B = Comparable(a, p), compare_to_key(p)(b)
    lt = a < b if pre == "le" else a > b
    gt = a > b if pre == "le" else a < b
    eq = Eq(a, b)
    ctx.cover("equal", eq)
    ctx.cover("different", Not(eq))
    for got, want, w in ((A < B, lt, "<"), (A > B, gt, ">"), (A <= B, Or(lt, eq), "<="), (A >= B, Or(gt, eq), ">="),
                         (A == B, eq, "=="), (A != B, Not(eq), "!=")):
        ctx.check(Iff(got, want), f"Comparable {w} follows the preorder")
    idx = sorted(range(n), key=lambda i: compare_to_key(p)(xs[i]))
    for i, j in zip(idx, idx[1:]):
        ctx.check(p(xs[i], xs[j]), "sorted() with compare_to_key follows the preorder")
        ctx.check(Implies(Eq(xs[i], xs[j]), i < j), "sorted() with compare_to_key is stable")
