"""C28-C31, C35, C36: graph traversals.

The graph is arbitrary: each pair of vertices carries a symbolic number of
parallel edges, decided only when the real code looks at its row.  A visitor
records what the traversal reports; the report is judged against the
definition of the traversal and against reachability formulas over all cells.
"""
from collections import defaultdict, deque
from .common import *
from pybgl.property_map import make_assoc_property_map
from pybgl.graph_traversal import WHITE, GRAY, BLACK


def sparse_pairs(n):
    """a fixed graph of 3n-1 arcs: two rings and some reverse arcs"""
    return [(i, (i + 1) % n) for i in range(n)] + [(i, (i + 2) % n) for i in range(n)] + [((i + 1) % n, i) for i in range(n - 1)]


class World:
    """A symbolic graph + symbolic edge filter + already visited vertices."""

    def __init__(self, ctx, n, k=2, loops=True, undirected=False, push=False, black=False, pairs=None, cls=None, view=False, skel=None):
        fixed = None
        if skel:
            n, pairs, fixed = skeleton(skel, undirected)
        self.ctx, self.n, self.k, self.undirected = ctx, n, k, undirected
        if undirected:
            self.S = sym_ugraph(ctx, n, loops=loops, k=k, pairs=pairs if skel else None, fixed=fixed)
        else:
            self.S = sym_digraph(ctx, n, loops=loops, k=k, pairs=pairs, cls=cls, fixed=fixed)
        self.g = self.S.g
        self.P = {}
        if push:
            for p in self.S.pairs:
                for i in range(k - 1):
                    self.P[p + (i,)] = ctx.bool(f"p{p[0]}_{p[1]}_{i}")
        self.push = push
        self.view = view
        if view:         # the arcs are filtered by a GraphView instead of if_push
            from pybgl.graph_view import GraphView
            from pybgl.property_map import make_func_property_map
            self.g = GraphView(self.S.g, pmap_erelevant=make_func_property_map(
                lambda e: bool(self.P[e.source, e.target, e.distinguisher])))
        self.B = {u: ctx.bool(f"b{u}") if black else False for u in range(n)}

    def if_push(self):
        if not self.push or self.view:
            return None

        def f(e, g):
            self.ctx.check(g is self.g, "if_push receives the graph")
            return bool(self.P[e.source, e.target, e.distinguisher])
        return f

    def count(self, u, v):
        """term: the number of edges u -> v that the traversal must follow"""
        p = self.S._key(u, v)
        if p not in self.S.cells.vars:
            return 0
        if not self.push:
            return self.S.cells.count(p)
        return Sum([Ite(And(self.P[p + (i,)], self.S.cells.count(p) > i), 1, 0) for i in range(self.k - 1)])

    def E(self, u, v):
        """formula: such an edge exists"""
        p = self.S._key(u, v)
        if p not in self.S.cells.vars:
            return False
        if not self.push:
            return self.S.cells.present(p)
        return Or([And(self.P[p + (i,)], self.S.cells.count(p) > i) for i in range(self.k - 1)])

    def white(self, v):
        return Not(self.B[v])

    def reach(self, sources):
        """{v: formula: some path from a source to v whose further vertices are white}"""
        R = closure(self.n, lambda u, v: And(self.E(u, v), self.white(v)))
        return {v: Or([R[s][v] for s in sources] or [False]) for v in range(self.n)}

    def layers(self, sources):
        """[{v: formula: v is at distance <= t}]"""
        L = [{v: v in sources for v in range(self.n)}]
        for _ in range(self.n):
            p = L[-1]
            L.append({v: Or([p[v]] + [And(p[u], self.E(u, v), self.white(v)) for u in range(self.n)])
                      for v in range(self.n)})
        return L

    def colors(self):
        m = defaultdict(int)
        for u in range(self.n):
            if self.B[u]:
                m[u] = BLACK
        return m

    def is_edge(self, e, u):
        """formula: e is an edge of the graph leaving u"""
        ok = e.source == u or (self.undirected and e.target == u)
        return And(ok, self.S.cells.count(self.S._key(e.source, e.target)) > e.distinguisher)


def other(W, e, u):
    v = W.g.target(e)
    return v


def check_examined(ctx, W, seen, done):
    """every edge leaving a finished vertex was examined exactly once"""
    for u in done:
        for v in range(W.n):
            ctx.check(Eq(sum(1 for (a, b) in seen if (a, b) == (u, v)), W.count(u, v)),
                      "every edge leaving a visited vertex is examined exactly once")


@job("C28",
     quick=[dict(n=3, k=3, multi=False, loops=False), dict(n=3, k=2, multi=True), dict(n=5, k=2, multi=False, sparse=True), dict(n=4, k=2, loops=False, multi=False),
            dict(n=3, k=2, push=True, multi=False, loops=False), dict(n=3, k=2, black=True, multi=True, loops=False),
            dict(n=3, k=3, und=True, multi=True), dict(n=3, k=2, push=True, view=True, multi=True, loops=False),
            dict(n=3, k=2, multi=False, loops=False, prior=True), dict(n=3, k=2, multi=True, loops=False, prior=True),
            dict(skel="chain"), dict(skel="tree"), dict(skel="rings", multi=True), dict(skel="down"), dict(skel="tree", und=True)],
     thorough=[dict(n=3, k=3, multi=False, prior=True), dict(n=3, k=3, multi=True, prior=True), dict(n=3, k=3, multi=True), dict(n=4, k=2, push=True, view=True, multi=False, loops=False), dict(n=4, k=2, loops=False, multi=True), dict(n=4, k=2, multi=False),
               dict(n=4, k=2, push=True, multi=False, loops=False), dict(n=3, k=3, push=True, multi=True, loops=False),
               dict(n=4, k=2, black=True, multi=True, loops=False), dict(n=5, k=2, und=True, multi=True),
               dict(n=4, k=3, und=True, multi=True)],
     covers=("gray", "black", "unreachable", "distance 2", "several sources"))
def bfs(ctx, n=None, k=2, multi=False, loops=True, push=False, black=False, und=False, sparse=False, view=False, prior=False, skel=None):
    """Breadth first search (single source, several sources, with if_push, in a
    GraphView, with vertices already visited) over every multigraph with n vertices and at most
    k-1 parallel edges per pair (sparse: restricted to a fixed set of 3n-1 arcs;
    skel: a fixed graph of 7-8 vertices and any of 8 further arcs; prior: after another search, with default arguments or stale colors)."""
    from pybgl.breadth_first_search import breadth_first_search, breadth_first_search_graph, DefaultBreadthFirstSearchVisitor
    W = World(ctx, n, k, loops, und, push, black, sparse_pairs(n) if sparse else None, view=view, skel=skel)
    g, n = W.g, W.n
    if multi:
        k1 = ctx.choice("s1", range(n))
        k2 = ctx.choice("s2", range(n))
        sources = list(dict.fromkeys([k1, k2]))
        if len(sources) > 1:
            ctx.cover("several sources")
    else:
        ctx.cover("several sources")
        sources = [ctx.choice("s", range(n))]
    for s in sources:
        ctx.assume(W.white(s))
    st = dict(open=None, edge=None, kind=None)
    initialized, discovered, examined, finished, seen = [], [], [], [], []
    depth = {}

    def ok(c, m):
        ctx.check(c, m)

    class V(DefaultBreadthFirstSearchVisitor):
        def initialize_vertex(self, u, h):
            ok(h is g and not discovered and u not in initialized, "initialize_vertex runs before the search")
            initialized.append(u)

        def discover_vertex(self, u, h):
            ok(h is g and u not in discovered, "a vertex is discovered once")
            if u in sources and st["open"] is None:
                depth[u] = 0
            else:
                ok(st["kind"] == "tree" and g.target(st["edge"]) == u, "discover_vertex follows the tree edge")
                depth[u] = depth[st["open"]] + 1
            ok(all(depth[u] >= depth[v] for v in discovered), "vertices are discovered by increasing distance")
            discovered.append(u)

        def examine_vertex(self, u, h):
            ok(h is g and st["open"] is None and u in discovered and u not in examined, "a discovered vertex is examined once")
            ok(all(depth[u] >= depth[v] for v in examined), "vertices are examined by increasing distance")
            examined.append(u)
            st["open"] = u
            st["edge"] = None

        def examine_edge(self, e, h):
            u = st["open"]
            ok(h is g and u is not None and g.source(e) == u, "examine_edge concerns the current vertex")
            ok(st["edge"] is None or st["kind"] in ("tree", "gray", "black"), "every examined edge is classified")
            ok(W.is_edge(e, u), "an examined edge is an edge of the graph")
            if W.push:
                ok(W.P[e.source, e.target, e.distinguisher], "an edge refused by if_push is not examined")
            seen.append((u, g.target(e)))
            st["edge"], st["kind"] = e, None

        def _same(self, e, h, before):
            ok(h is g and e == st["edge"] and st["kind"] == before, "the classified edge is the examined one")

        def tree_edge(self, e, h):
            self._same(e, h, None)
            ok(g.target(e) not in discovered, "tree_edge leads to a vertex not discovered yet")
            ok(W.white(g.target(e)), "tree_edge leads to a white vertex")
            st["kind"] = "tree"

        def non_tree_edge(self, e, h):
            self._same(e, h, None)
            st["kind"] = "non_tree"

        def gray_target(self, e, h):
            self._same(e, h, "non_tree")
            v = g.target(e)
            ok(v in discovered and v not in finished, "gray_target: discovered, not finished")
            ctx.cover("gray")
            st["kind"] = "gray"

        def black_target(self, e, h):
            self._same(e, h, "non_tree")
            v = g.target(e)
            ok(Or(v in finished, And(v not in discovered, W.B[v])), "black_target: finished, or visited before")
            ctx.cover("black")
            st["kind"] = "black"

        def finish_vertex(self, u, h):
            ok(h is g and st["open"] == u, "finish_vertex closes the current vertex")
            ok(st["edge"] is None or st["kind"] in ("tree", "gray", "black"), "every examined edge is classified")
            finished.append(u)
            st["open"] = None

    colors = W.colors()
    args = [make_assoc_property_map(colors), V(), W.if_push()]
    blind = False
    if prior:
        how = ctx.choice("prior", ["default", "no visitor"] + ([] if multi else ["stale"]))
        blind = how == "no visitor"
        if how == "stale":           # (a search from a single source resets the colors)
            for u in range(n):
                colors[u] = ctx.choice(f"stale{u}", [WHITE, GRAY, BLACK])
        elif how == "no visitor":
            args[1] = None
        else:
            t = ctx.choice("t", range(n))
            breadth_first_search(t, g)
            breadth_first_search_graph(g, [t])
            args[0] = None
    if multi:
        some = [list, iter, set, tuple, dict.fromkeys][(k1 + 2 * k2) % 5](sources)
        breadth_first_search_graph(g, some, *args)
    else:
        breadth_first_search(sources[0], g, *args)
    if blind:
        R = W.reach(sources)
        for v in range(n):
            ok(Iff(colors[v] == BLACK, R[v]), "without visitor, the vertices reachable end black")
            ok(colors[v] in (BLACK, WHITE), "without visitor, the other ones stay white")
        return
    if not multi:
        ok(sorted(initialized) == list(range(n)), "every vertex is initialized")
    ok(st["open"] is None and sorted(discovered) == sorted(finished) == sorted(examined), "every discovered vertex is finished")
    R = W.reach(sources)
    L = W.layers(sources)
    for v in range(n):
        ok(Iff(v in discovered, R[v]), "the vertices discovered are those reachable")
        ctx.cover("unreachable", Not(R[v]))
        if v in depth:
            ctx.cover("distance 2", depth[v] == 2)
            for t in range(n):
                ok(Iff(depth[v] <= t, L[t][v]), "the depth in the search tree is the distance")
            ok(args[0] is None or colors[v] == BLACK, "the vertices discovered end black")
        elif args[0]:
            ok(Eq(colors[v], Ite(W.B[v], BLACK, WHITE)), "the color of the other vertices is unchanged")
    check_examined(ctx, W, seen, finished)


@job("C29",
     quick=[dict(n=3, k=3, mode="one", loops=False), dict(n=4, k=2, loops=False, mode="one"), dict(n=3, k=2, mode="all"),
            dict(n=5, k=2, mode="all", sparse=True),
            dict(n=3, k=2, mode="sources"), dict(n=3, k=2, push=True, mode="one", loops=False),
            dict(n=3, k=2, black=True, mode="sources", loops=False),
            dict(n=3, k=2, push=True, view=True, mode="all", loops=False),
            dict(n=3, k=2, mode="one", loops=False, prior=True), dict(n=3, k=2, mode="all", loops=False, prior=True),
            dict(skel="chain"), dict(skel="tree"), dict(skel="rings"), dict(skel="down", mode="all"), dict(skel="dag", mode="all")],
     thorough=[dict(n=3, k=3, mode="one", prior=True), dict(n=3, k=3, mode="sources", prior=True), dict(n=4, k=2, push=True, view=True, mode="one", loops=False), dict(n=3, k=3, mode="one"), dict(n=4, k=2, loops=False, mode="all"), dict(n=4, k=2, mode="one"),
               dict(n=3, k=3, mode="sources"), dict(n=4, k=2, push=True, mode="one", loops=False),
               dict(n=4, k=2, black=True, mode="sources", loops=False), dict(n=4, k=2, mode="all")],
     covers=("back", "forward", "cross", "unreachable", "several roots"))
def dfs(ctx, n=None, k=2, mode="one", loops=True, push=False, black=False, sparse=False, view=False, prior=False, skel=None):
    """Depth first search (from one source, from given sources, from every
    vertex, with if_push, in a GraphView, with vertices already visited) over every directed
    multigraph with n vertices and at most k-1 parallel edges per pair (sparse:
    restricted to a fixed set of 3n-1 arcs; skel: a fixed graph of 7-8 vertices
    and any of 8 further arcs; prior: after another search, with
    default arguments)."""
    from pybgl.depth_first_search import depth_first_search, depth_first_search_graph, DefaultDepthFirstSearchVisitor
    W = World(ctx, n, k, loops, False, push, black, sparse_pairs(n) if sparse else None, view=view, skel=skel)
    g, n = W.g, W.n
    if mode == "one":
        sources = [ctx.choice("s", range(n))]
        ctx.assume(W.white(sources[0]))
        ctx.cover("several roots")
    elif mode == "all":
        sources = list(range(n))
        ctx.cover("unreachable")
    else:
        m = ctx.choice("m", [0, 1, 2])
        sources = [ctx.choice(f"s{i}", range(n)) for i in range(m)]
    st = dict(edge=None, kind=None, start=None)
    roots, stack, discovered, finished, seen = [], [], [], [], []
    parent = {}

    def ok(c, m):
        ctx.check(c, m)

    class V(DefaultDepthFirstSearchVisitor):
        def start_vertex(self, s, h):
            ok(h is g and not stack and s in sources and s not in discovered, "start_vertex: a source not discovered yet")
            ok(W.white(s), "start_vertex: a white source")
            roots.append(s)
            st["start"] = s

        def discover_vertex(self, u, h):
            ok(h is g and u not in discovered, "a vertex is discovered once")
            if st["start"] is not None:
                ok(u == st["start"], "the source is discovered first")
                st["start"] = None
                parent[u] = None
            else:
                ok(st["kind"] == "tree" and g.target(st["edge"]) == u and stack and
                   g.source(st["edge"]) == stack[-1], "discover_vertex follows the tree edge")
                parent[u] = stack[-1]
            st["edge"] = None
            stack.append(u)
            discovered.append(u)

        def examine_edge(self, e, h):
            ok(h is g and bool(stack) and g.source(e) == stack[-1], "examine_edge concerns the deepest open vertex")
            ok(st["edge"] is None or st["kind"] in ("back", "other"), "every examined edge is classified")
            ok(W.is_edge(e, stack[-1]), "an examined edge is an edge of the graph")
            if W.push:
                ok(W.P[e.source, e.target, e.distinguisher], "an edge refused by if_push is not examined")
            seen.append((stack[-1], g.target(e)))
            st["edge"], st["kind"] = e, None

        def _same(self, e, h):
            ok(h is g and e == st["edge"] and st["kind"] is None, "the classified edge is the examined one")

        def tree_edge(self, e, h):
            self._same(e, h)
            ok(g.target(e) not in discovered, "tree_edge leads to a vertex not discovered yet")
            ok(W.white(g.target(e)), "tree_edge leads to a white vertex")
            st["kind"] = "tree"

        def back_edge(self, e, h):
            self._same(e, h)
            ok(g.target(e) in stack, "back_edge leads to an ancestor")
            ctx.cover("back")
            st["kind"] = "back"

        def forward_or_cross_edge(self, e, h):
            self._same(e, h)
            v = g.target(e)
            ok(Or(v in finished, And(v not in discovered, W.B[v])), "forward_or_cross_edge leads to a finished vertex")
            p = v
            while p is not None and p != g.source(e):
                p = parent.get(p)
            ctx.cover("cross" if p is None else "forward")
            st["kind"] = "other"

        def finish_vertex(self, u, h):
            ok(h is g and bool(stack) and stack[-1] == u, "finish_vertex closes the deepest open vertex")
            ok(st["edge"] is None or st["kind"] in ("back", "other"), "every examined edge is classified")
            st["edge"] = None
            stack.pop()
            finished.append(u)

    colors = W.colors()
    pc, vis = make_assoc_property_map(colors), V()
    blind = False
    if prior:
        how = ctx.choice("prior", ["default", "no visitor"])
        blind = how == "no visitor"
        if blind:
            vis = None
        else:
            depth_first_search(ctx.choice("t", range(n)), g)
            depth_first_search_graph(g)
            pc = None
    if mode == "one":
        depth_first_search(sources[0], g, pc, vis, W.if_push())
    elif mode == "all":
        depth_first_search_graph(g, None, pc, vis, W.if_push())
    else:
        some = [list, iter, tuple, dict.fromkeys][sum(sources) % 4](sources)
        depth_first_search_graph(g, some, pc, vis, W.if_push())
    if blind:
        R = closure(n, W.E)
        for v in range(n):
            ok(Iff(colors[v] == BLACK, Or([R[s][v] for s in sources] or [False])), "without visitor, the vertices reachable end black")
            ok(colors[v] in (BLACK, WHITE), "without visitor, the other ones stay white")
        for c in ("back", "forward", "cross", "unreachable", "several roots"):
            ctx.cover(c)
        return
    ok(not stack and sorted(discovered) == sorted(finished), "every discovered vertex is finished")
    if len(roots) > 1:
        ctx.cover("several roots")
    R = closure(n, lambda u, v: And(W.E(u, v), W.white(v)))
    for v in range(n):
        r = Or([And(W.white(s), R[s][v]) for s in sources] or [False])
        ok(Iff(v in discovered, r), "the vertices discovered are those reachable")
        ctx.cover("unreachable", Not(r))
        ok(pc is None or Eq(colors[v], BLACK if v in discovered else Ite(W.B[v], BLACK, WHITE)),
           "the vertices discovered end black and the others keep their color")
    check_examined(ctx, W, seen, finished)


@job("C30",
     quick=[dict(n=4, loops=False), dict(n=3, k=3), dict(n=5, dag=True), dict(n=3, view=True), dict(skel="dag"), dict(skel="tree"), dict(skel="down")],
     thorough=[dict(n=4), dict(n=4, view=True, loops=False), dict(n=4, k=3, loops=False), dict(n=6, dag=True)],
     covers=("dag", "cycle", "given deque"))
def toposort(ctx, n=None, k=2, loops=True, dag=False, view=False, skel=None):
    """topological_sort of every directed multigraph with n vertices (view: of
    every GraphView of it filtering its arcs; dag: every
    graph whose edges follow one arbitrary fixed order of the vertices; skel: a
    fixed graph of 7 vertices and any of 8 further arcs)."""
    from pybgl.topological_sort import topological_sort
    pairs = None
    if dag:
        order = ctx.choice("order", [list(range(n)), list(range(n))[::-1], [i for i in range(0, n, 2)] + [i for i in range(1, n, 2)]])
        pairs = [(order[i], order[j]) for i in range(n) for j in range(i + 1, n)]
        ctx.cover("cycle")
    if skel == "dag":
        ctx.cover("cycle")
    W = World(ctx, n, k, loops, push=view, pairs=pairs, view=view, skel=skel)
    n = W.n
    mode = ctx.choice("deque", ["default", "given", "again"])
    if mode == "given":
        ctx.cover("given deque")
    q = deque() if mode == "given" else None
    first = None
    if mode == "again":          # a previous call leaves nothing behind
        from pybgl.graph import DirectedGraph
        h = DirectedGraph(2)
        h.add_edge(0, 1)
        first = topological_sort(h)
        h.add_edge(1, 0)
        try:
            topological_sort(h)
            ctx.fail("a cycle is refused")
        except RuntimeError:
            pass
    try:
        r = topological_sort(W.g, q) if mode == "given" else topological_sort(W.g)
    except RuntimeError:
        ctx.check(Not(is_acyclic(n, W.E)), "topological_sort fails only on a graph having a cycle")
        ctx.cover("cycle")
        return
    ctx.check(is_acyclic(n, W.E), "topological_sort fails on every graph having a cycle")
    ctx.check(first is None or list(first) == [0, 1] and r is not first, "the result of another call is left as it was")
    ctx.check(q is None or r is q, "the deque of the caller is filled in place")
    r = list(r)
    ctx.check(sorted(r) == list(range(n)), "every vertex appears exactly once")
    pos = {u: i for i, u in enumerate(r)}
    ctx.cover("dag")
    for u, v in W.S.pairs:
        ctx.check(Implies(W.E(u, v), pos[u] < pos[v]), "the source of an edge precedes its target")


@job("C31",
     quick=[dict(n=4, loops=False), dict(n=3, k=3), dict(n=5, sparse=True), dict(n=3, view=True), dict(skel="chain"), dict(skel="down"), dict(skel="rings"), dict(skel="tree")],
     thorough=[dict(n=4), dict(n=4, view=True, loops=False), dict(n=4, k=3, loops=False), dict(n=6, sparse=True)],
     covers=("one component", "as many components as vertices", "mixed"))
def scc(ctx, n=None, k=2, loops=True, sparse=False, view=False, skel=None):
    """strong_components of every directed multigraph with n vertices (view: of
    every GraphView of it filtering its arcs; sparse:
    every subgraph of a fixed graph of 3n-1 arcs; skel: a fixed graph of 7-8
    vertices and any of 8 further arcs)."""
    from pybgl.strong_components import strong_components
    W = World(ctx, n, k, loops, push=view, pairs=sparse_pairs(n) if sparse else None, view=view, skel=skel)
    n = W.n
    for c in ("one component", "as many components as vertices", "mixed") if skel else ():
        ctx.cover(c)
    comp = defaultdict(int)
    if ctx.choice("again", [False, True]):
        strong_components(W.g, make_assoc_property_map(defaultdict(int)))
    c = strong_components(W.g, make_assoc_property_map(comp))
    ctx.check(sorted(comp) == list(range(n)), "every vertex is mapped")
    ctx.check(sorted(set(comp.values())) == list(range(c)), "the components are numbered 0 .. count-1")
    R = closure(n, W.E)
    if c == 1:
        ctx.cover("one component")
    elif c == n:
        ctx.cover("as many components as vertices")
    else:
        ctx.cover("mixed")
    for u in range(n):
        for v in range(n):
            if u < v:
                ctx.check(Iff(comp[u] == comp[v], And(R[u][v], R[v][u])), "same component iff mutually reachable")
            if u != v:
                ctx.check(Implies(W.E(u, v), comp[u] >= comp[v]), "component numbers do not increase along an edge")


@job("C35",
     quick=[dict(n=5), dict(n=4, k=3), dict(n=4, reverse=True), dict(n=3, cyclic=True), dict(skel="tree")],
     thorough=[dict(n=6), dict(n=5, k=3), dict(n=5, reverse=True), dict(n=3, k=3, cyclic=True), dict(n=4, cyclic=True)],
     covers=("cut edge", "leaf", "leaf at a cut edge"))
def vertex_cut(ctx, n=None, k=2, reverse=False, cyclic=False, skel=None):
    """cut() of every multigraph with n vertices (self-loops included; or, unless
    cyclic, whose edges follow the (reverse) numbering), for every edge predicate."""
    from pybgl.cut import cut
    pairs = None if skel else [(u, v) if not reverse else (v, u) for u in range(n) for v in range(n) if u < v or cyclic]
    W = World(ctx, n, k, pairs=pairs, push=True, skel=skel)
    n = W.n
    # P: the edge is not in the cut
    s = ctx.choice("s", [0] if not reverse else [n - 1])

    def in_cut(e, g):
        ctx.check(g is W.g, "in_cut receives the graph")
        return not W.P[e.source, e.target, e.distinguisher]

    got = cut(s, W.g, in_cut)
    R = W.reach([s])
    cells = W.S.cells

    def cutting(u, v):
        p = (u, v)
        if p not in cells.vars:
            return False
        return Or([And(Not(W.P[p + (i,)]), cells.count(p) > i) for i in range(k - 1)])

    for v in range(n):
        target = Or([And(R[u], cutting(u, v)) for u in range(n)])
        out = Or([cells.present((v, w)) for w in range(n) if (v, w) in cells.vars] or [False])
        leaf = And(R[v], Not(out))
        ctx.cover("cut edge", target)
        ctx.cover("leaf", leaf)
        ctx.cover("leaf at a cut edge", And(target, leaf))
        ctx.check(Iff(v in got, Or(target, leaf)),
                  "cut() = targets of the reached cut edges + reached vertices without successor")
    # hence it separates the source from every vertex without successor
    Q = closure(n, lambda u, v: And(cells.present((u, v)) if (u, v) in cells.vars else False, v not in got))
    for v in range(n):
        out = Or([cells.present((v, w)) for w in range(n) if (v, w) in cells.vars] or [False])
        if s not in got and v not in got and v != s:
            ctx.check(Not(And(Q[s][v], Not(out))), "every path to a leaf meets the vertex cut")


@job("C36", quick=[dict(n=5), dict(n=6), dict(n=8, deep=True)], thorough=[dict(n=6), dict(n=7), dict(n=11, deep=True)], covers=("depth 2", "unreached", "siblings"))
def trees(ctx, n, deep=False):
    """dfs_tree and bfs_tree over every forest with n vertices (parent of u: any
    smaller vertex or none; deep: mostly a chain, one vertex out of three having
    four possible parents), from every source."""
    from pybgl.graph_traversal import dfs_tree, bfs_tree, DefaultTreeTraversalVisitor
    par = {u: ctx.choice(f"par{u}", [u - 1, u - 3, 0, -1]) if u % 3 == 0 else u - 1 for u in range(1, n)} if deep else \
        {u: ctx.int(f"par{u}", -1, u - 1) for u in range(1, n)}
    from pybgl.graph import DirectedGraph
    g = DirectedGraph(n)
    order = ctx.choice("rename", ["up", "down"])
    name = (lambda u: u) if order == "up" else (lambda u: n - 1 - u)
    for u in range(1, n):
        p = par[u].concretize() if is_num(par[u]) else par[u]
        if p >= 0:
            g.add_edge(name(p), name(u))
    s = ctx.choice("s", [0, 1, n // 2, n - 1] if deep else range(n))
    which = ctx.choice("which", ["dfs", "bfs"])
    log = []

    class V(DefaultTreeTraversalVisitor):
        def start_vertex(self, u, h):
            ctx.check(h is g, "the visitor receives the graph")
            log.append(("start", u))

        def discover_vertex(self, u, h):
            log.append(("discover", u))

        def examine_edge(self, e, h):
            log.append(("edge", e.source, e.target))

        def finish_vertex(self, u, h):
            log.append(("finish", u))

    if n < 6 and ctx.choice("plain", [False, True]):          # without visitor
        before = sorted((e.source, e.target) for e in g.edges())
        (dfs_tree if which == "dfs" else bfs_tree)(name(s), g)
        ctx.check(sorted((e.source, e.target) for e in g.edges()) == before and log == [], "a traversal leaves the graph as it was")
    (dfs_tree if which == "dfs" else bfs_tree)(name(s), g, V())
    ctx.check(log[:1] == [("start", name(s))] and sum(1 for x in log if x[0] == "start") == 1, "start_vertex comes first, once")
    disc = [x[1] for x in log if x[0] == "discover"]
    ctx.check(len(set(disc)) == len(disc), "a vertex is discovered once")
    R = closure(n, lambda u, v: v in par and Eq(par[v], u))
    # depth formulas
    L = [{v: v == s for v in range(n)}]
    for _ in range(n):
        L.append({v: Or([And(L[-1][u], Eq(par[v], u)) for u in range(v)] or [False]) for v in range(n)})
    for v in range(n):
        ctx.check(Iff(name(v) in disc, R[s][v]), "the vertices discovered are the descendants of the source")
        ctx.cover("unreached", Not(R[s][v]))
        ctx.cover("depth 2", L[2][v])
    # every edge of a discovered vertex is examined once, between its discovery and its end
    i = 1
    for u in disc:
        ctx.check(log[i] == ("discover", u), "one vertex at a time")
        i += 1
        ch = []
        while i < len(log) and log[i][0] == "edge":
            ctx.check(log[i][1] == u, "examine_edge concerns the current vertex")
            ch.append(log[i][2])
            i += 1
        ctx.check(i < len(log) and log[i] == ("finish", u), "finish_vertex closes the current vertex")
        i += 1
        ctx.check(len(set(ch)) == len(ch), "an edge is examined once")
        if len(ch) > 1:
            ctx.cover("siblings")
        for v in range(1, n):
            ctx.check(Iff(name(v) in ch, Eq(name_inv(name, n, u), par[v])), "every child is examined")
    pos = {u: i for i, u in enumerate(disc)}
    inv = lambda u: name_inv(name, n, u)
    for a in disc:
        for b in disc:
            if a == b:
                continue
            if which == "bfs":
                for t in range(n):
                    for r in range(t):
                        ctx.check(Implies(And(L[r][inv(a)], L[t][inv(b)]), pos[a] < pos[b]), "bfs_tree goes by increasing depth")
            else:
                # the subtree of a vertex is discovered contiguously
                ctx.check(Implies(R[inv(a)][inv(b)], pos[a] < pos[b]), "dfs_tree discovers a vertex before its subtree")
                for c in disc:
                    if pos[a] < pos[c] < pos[b]:
                        ctx.check(Implies(R[inv(a)][inv(b)], R[inv(a)][inv(c)]), "dfs_tree completes a subtree before leaving it")


def name_inv(name, n, x):
    return next(u for u in range(n) if name(u) == x)


def is_num(v):
    return isinstance(v, SymNum)
