"""C01-C03: the graph containers against an abstract multigraph.

State before the operations: an arbitrary multigraph.  Each (ordered) pair of
vertices carries 0..k-1 parallel edges whose distinguishers are arbitrary
distinct symbolic numbers below `ids` -- i.e. whatever any history of
insertions and removals can have left behind -- undecided until the real code
looks.  Then `ops` arbitrary operations, then one arbitrary observer.
"""
from fractions import Fraction

from .common import *


class Model:
    """vertices + live descriptors per pair, filled on demand from the cells."""

    def __init__(self, S, directed=True):
        self.S = S
        self.directed = directed
        self.V = list(range(S.n))
        self.over = {}          # pair -> list of live descriptors (after ops)
        self.gone = set()
        self.cleared = False
        self.pick = None        # the vertices concerned by the operations (None: all of them)

    @property
    def P(self):
        return self.V if self.pick is None else [u for u in self.V if u in self.pick or u >= self.S.n]

    def p(self, u, v):
        return (u, v) if self.directed else (min(u, v), max(u, v))

    def get(self, u, v):
        p = self.p(u, v)
        if p not in self.over:
            if self.cleared or u in self.gone or v in self.gone or p[0] >= self.S.n or p[1] >= self.S.n:
                self.over[p] = []
            else:
                self.over[p] = list(self.S.descriptors(*p))
        return self.over[p]

    def known(self, p):
        """Were the edges of the pair decided (by the code or by an operation)?"""
        return p in self.over or (p in self.S.live and not self.cleared)

    def count(self, p):
        """Number of live edges of the pair, a term."""
        if p in self.over:
            return len(self.over[p])
        if self.cleared or any(x in self.gone or x >= self.S.n for x in p):
            return 0
        return self.S.cells.count(p)

    def drop_vertex(self, u):
        for v in self.V:
            self.over[self.p(u, v)] = []
            self.over[self.p(v, u)] = []
        self.V.remove(u)
        self.gone.add(u)

    def clear(self):
        self.V, self.over, self.gone = [], {}, set()
        self.cleared = True

    def pairs(self):
        if self.directed:
            return [(u, v) for u in self.V for v in self.V]
        return [(u, v) for u in self.V for v in self.V if u <= v]


ALLOPS = ("none", "add_edge", "remove_edge", "remove_vertex", "add_vertex", "clear")
LOCAL = ("none", "add_edge", "remove_edge", "add_vertex")


def do_op(ctx, i, g, m, free, kinds=ALLOPS):
    """One arbitrary mutation, on the graph and on the model."""
    from pybgl import graph as G
    kind = ctx.choice(f"op{i}", kinds)
    ctx.cover(kind)
    if kind == "add_vertex":
        w = G.add_vertex(g) if free else g.add_vertex()
        ctx.check(w not in m.V and w not in m.gone, "add_vertex returns a fresh descriptor")
        m.V.append(w)
    elif kind in ("add_edge", "remove_edge"):
        if not m.P:
            return
        u = ctx.choice(f"u{i}", m.P)
        v = ctx.choice(f"v{i}", m.P)
        if kind == "add_edge":
            e, ok = G.add_edge(u, v, g) if free else g.add_edge(u, v)
            ctx.check(ok is True, "add_edge succeeds")
            ctx.check({e.source, e.target} == {u, v} and (not m.directed or (e.source, e.target) == (u, v)),
                      "add_edge returns a descriptor of (u, v)")
            ctx.check(And([Not(same_edge(e, x)) for x in m.get(u, v)] or [True]),
                      "the new descriptor differs from the live ones")
            m.get(u, v).append(e)
        else:
            es = m.get(u, v)
            if not es:
                return
            ctx.cover("removed")
            k = ctx.choice(f"e{i}", range(len(es)))
            e = es[k]
            if not m.directed and u != v and ctx.bool(f"orient{i}"):
                # the orientation out_edges(u) or out_edges(v) hands out
                e = type(e)(e.target, e.source, e.distinguisher)
            G.remove_edge(e, g) if free else g.remove_edge(e)
            del es[k]
    elif kind == "remove_vertex":
        if not m.P:
            return
        u = ctx.choice(f"u{i}", m.P)
        G.remove_vertex(u, g) if free else g.remove_vertex(u)
        m.drop_vertex(u)
    elif kind == "clear":
        g.clear()
        m.clear()


def norm_edge(e):
    if e.source <= e.target:
        return e
    return type(e)(e.target, e.source, e.distinguisher)


def view(es):
    return sorted([(e.source, e.target) for e in es])


def check_pair(ctx, m, p, got, what):
    """The descriptors reported for one pair of vertices are the live ones.

    The expected *number* is the symbolic cell itself, so a pair the code never
    looked at is decided by the solver, not by forking."""
    ctx.check(Eq(len(got), m.count(p)), f"{what}: as many edges as live ones")
    if m.known(p):
        ctx.check(same_multiset(got, m.get(*p), lambda a, b: Eq(a.distinguisher, b.distinguisher)),
                  f"{what}: exactly the live descriptors")


def group(pairs, es, directed):
    out = {p: [] for p in pairs}
    bad = []
    for e in es:
        e = e if directed else norm_edge(e)
        if (e.source, e.target) in out:
            out[e.source, e.target].append(e)
        else:
            bad.append(e)
    return out, bad


def observe(ctx, g, m, free, kinds):
    from pybgl import graph as G
    o = ctx.choice("obs", kinds)
    ctx.cover("obs:" + o)
    if o == "vertices":
        vs = list(G.vertices(g) if free else g.vertices())
        ctx.check(sorted(vs) == sorted(m.V), "vertices() are exactly the vertices added and not removed")
        ctx.check((G.num_vertices(g) if free else g.num_vertices()) == len(m.V), "num_vertices()")
        ctx.check((G.has_vertex(g) if free else g.has_vertex()) == bool(m.V), "has_vertex()")
        ctx.observe("vertices", vs)
    elif o == "edges":
        es = list(G.edges(g) if free else g.edges())
        total = Sum([m.count(p) for p in m.pairs()])
        got, bad = group(m.pairs(), es, m.directed)
        ctx.check(not bad, "edges() joins existing vertices only")
        for p, l in got.items():
            check_pair(ctx, m, p, l, f"edges() {p}")
        ctx.check(Eq(G.num_edges(g) if free else g.num_edges(), total), "num_edges()")
        ctx.observe("edges", view(es))
    elif o == "has_edge":
        ctx.check(Iff(G.has_edge(g) if free else g.has_edge(), Or([m.count(p) > 0 for p in m.pairs()] or [False])),
                  "has_edge()")
    elif o in ("out_edges", "in_edges"):
        if not m.P:
            return
        w = ctx.choice("w", m.P)
        if o == "out_edges":
            es = list(G.out_edges(w, g) if free else g.out_edges(w))
            deg = G.out_degree(w, g) if free else g.out_degree(w)
        else:
            es = list(G.in_edges(w, g) if free else g.in_edges(w))
            deg = G.in_degree(w, g) if free else g.in_degree(w)
        pairs = [(w, x) if o == "out_edges" else (x, w) for x in m.V]
        if not m.directed:
            ctx.check(all((G.source(e, g) if free else g.source(e)) == w for e in es),
                      "out_edges(w) are oriented away from w")
            pairs = [m.p(*p) for p in pairs]
        got, bad = group(pairs, es, m.directed)
        ctx.check(not bad, f"{o}(w) are edges of w")
        for p, l in got.items():
            check_pair(ctx, m, p, l, f"{o}(w) {p}")
        ctx.check(Eq(deg, Sum([m.count(p) for p in pairs])), f"degree matches {o}")
        ctx.observe(o, view(es))
    elif o == "edge":
        if not m.P:
            return
        a = ctx.choice("a", m.P)
        b = ctx.choice("b", m.P)
        e, found = G.edge(a, b, g) if free else g.edge(a, b)
        ctx.check(Iff(found, Eq(m.count(m.p(a, b)), 1)), "edge(u, v) succeeds iff there is exactly one such edge")
        if found:
            ctx.check({G.source(e, g), G.target(e, g)} == {a, b}, "edge(u, v) joins u and v")
            if m.known(m.p(a, b)):
                want = m.get(a, b)
                ctx.check(len(want) == 1 and Eq(e.distinguisher, want[0].distinguisher), "edge(u, v) returns that edge")
        else:
            ctx.check(e is None, "edge(u, v) returns None otherwise")
        ctx.observe("edge", found)


ROW = ["vertices", "out_edges", "edge"]
FULL = ["edges", "has_edge"]
# the graph is emptied, then built again
EMPTIED = ["remove_vertex", "remove_vertex", "add_vertex", "add_vertex", "add_edge", "add_edge"]
CLEARED = ["clear", "add_vertex", "add_vertex", "add_edge", "add_edge"]


@job("C01",
     quick=[dict(n=3, k=3, ids=4, ops=1, kinds=ROW, ok=LOCAL), dict(n=2, k=3, ids=4, ops=1, kinds=FULL),
            dict(n=3, k=2, ids=0, ops=1, kinds=FULL + ROW, ok=("remove_vertex",)),
            dict(n=2, k=3, ids=3, ops=1, kinds=FULL + ROW, free=True),
            dict(n=2, k=2, ids=2, ops=2, kinds=ROW + FULL), dict(n=2, k=2, ids=0, ops=6, kinds=FULL + ROW, script=EMPTIED),
            dict(n=2, k=2, ids=2, ops=5, kinds=FULL + ROW, script=CLEARED),
            dict(n=1, k=6, ids=7, ops=2, kinds=FULL + ROW), dict(n=2, k=5, ids=6, ops=1, kinds=FULL + ROW, ok=("add_edge", "remove_edge")),
            dict(n=2, k=2, ids=2, ops=2, kinds=FULL + ROW, twice=True), dict(n=3, k=2, ids=2, ops=1, kinds=FULL + ROW, twice=True, free=True, ok=("add_edge", "remove_edge", "remove_vertex"))],
     thorough=[dict(n=4, k=3, ids=4, ops=1, kinds=ROW, ok=LOCAL), dict(n=2, k=4, ids=6, ops=1, kinds=FULL),
               dict(n=2, k=3, ids=4, ops=2, kinds=FULL),
               dict(n=3, k=2, ids=3, ops=2, kinds=FULL), dict(n=3, k=2, ids=2, ops=1, kinds=FULL + ROW, free=True),
               dict(n=3, k=3, ids=4, ops=2, kinds=ROW, ok=LOCAL), dict(n=2, k=2, ids=3, ops=3, kinds=ROW + FULL)])
def directed_histories(ctx, n, k, ids, ops, kinds, ok=ALLOPS, free=False, script=None, twice=False):
    """DirectedGraph: arbitrary multigraph on n vertices (up to k-1 parallel
    edges with distinguishers below ids per ordered pair), then `ops`
    arbitrary operations (script: of the given kinds, in order), then an arbitrary
    observer (twice: which also runs before the operations)."""
    S = sym_digraph(ctx, n, loops=True, k=k, ids=ids)
    m = Model(S)
    if twice:
        ctx = Again(ctx)
        observe(ctx, S.g, m, free, kinds)
    for i in range(ops):
        do_op(ctx, i, S.g, m, free, (script[i],) if script else ok)
    observe(ctx, S.g, m, free, kinds)


@job("C02",
     quick=[dict(n=3, k=2, ids=2, ops=1, kinds=ROW + FULL), dict(n=2, k=3, ids=3, ops=1, kinds=ROW + FULL),
            dict(n=2, k=3, ids=3, ops=1, kinds=ROW + FULL, free=True),
            dict(n=3, k=2, ids=2, ops=1, kinds=ROW + FULL, ok=("remove_vertex", "clear")),
            dict(n=2, k=2, ids=2, ops=2, kinds=["out_edges", "edges", "has_edge"]),
            dict(n=2, k=2, ids=0, ops=6, kinds=FULL + ROW, script=EMPTIED), dict(n=2, k=2, ids=2, ops=5, kinds=FULL + ROW, script=CLEARED),
            dict(n=1, k=6, ids=7, ops=2, kinds=FULL + ROW), dict(n=2, k=5, ids=6, ops=1, kinds=FULL + ROW, ok=("add_edge", "remove_edge")),
            dict(n=2, k=2, ids=2, ops=2, kinds=FULL + ROW, twice=True), dict(n=3, k=2, ids=2, ops=1, kinds=FULL + ROW, twice=True, free=True, ok=("add_edge", "remove_edge", "remove_vertex"))],
     thorough=[dict(n=4, k=2, ids=2, ops=1, kinds=ROW + FULL), dict(n=3, k=3, ids=4, ops=1, kinds=ROW + FULL),
               dict(n=3, k=2, ids=2, ops=2, kinds=ROW + FULL),
               dict(n=2, k=3, ids=3, ops=3, kinds=ROW + FULL)])
def undirected_histories(ctx, n, k, ids, ops, kinds, ok=ALLOPS, free=False, script=None, twice=False):
    """UndirectedGraph: arbitrary multigraph with self-loops on n vertices,
    `ops` arbitrary operations, an arbitrary observer."""
    S = sym_ugraph(ctx, n, loops=True, k=k, ids=ids)
    m = Model(S, directed=False)
    if twice:
        ctx = Again(ctx)
        observe(ctx, S.g, m, free, kinds)
    for i in range(ops):
        do_op(ctx, i, S.g, m, free, (script[i],) if script else ok)
    observe(ctx, S.g, m, free, kinds)


@job("C03",
     quick=[dict(n=2, k=3, ids=3, ops=1, rev=False), dict(n=2, k=2, ids=2, ops=2, rev=False),
            dict(n=3, k=2, ids=0, ops=1, rev=False), dict(n=2, k=2, ids=0, ops=6, rev=False, script=EMPTIED),
            dict(n=2, k=2, ids=2, ops=5, rev=False, script=CLEARED), dict(n=2, k=2, ids=2, ops=1, rev=False, free=True),
            dict(n=2, k=3, ids=3, ops=0, rev=True), dict(n=3, k=2, ids=0, ops=0, rev=True),
            dict(n=1, k=5, ids=6, ops=2, rev=False), dict(n=2, k=4, ids=5, ops=1, rev=False),
            dict(n=2, k=2, ids=2, ops=2, rev=False, twice=True)],
     thorough=[dict(n=2, k=3, ids=4, ops=2, rev=False), dict(n=3, k=2, ids=0, ops=2, rev=False),
               dict(n=3, k=3, ids=0, ops=1, rev=False),
               dict(n=3, k=3, ids=0, ops=0, rev=True), dict(n=2, k=2, ids=3, ops=3, rev=False)])
def incidence_histories(ctx, n, k, ids, ops, rev, free=False, script=None, twice=False):
    """IncidenceGraph: in_edges mirrors edges after arbitrary operations;
    reverse_graph exchanges the two directions."""
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.reverse import reverse_graph
    S = sym_digraph(ctx, n, loops=True, k=k, cls=IncidenceGraph, ids=ids)
    g = S.g
    m = Model(S)
    kinds = ["edges", "has_edge", "out_edges", "in_edges", "edge", "vertices"]
    if twice:
        ctx = Again(ctx)
        observe(ctx, g, m, free, kinds)
    for i in range(ops):
        do_op(ctx, i, g, m, free, (script[i],) if script else ALLOPS)
    if not rev:
        observe(ctx, g, m, free, kinds)
        return
    live = {p: list(m.get(*p)) for p in m.pairs()}
    reverse_graph(g)
    ctx.check(sorted((g.source(e), g.target(e)) for e in g.edges()) ==
              sorted((v, u) for (u, v), es in live.items() for _ in es), "reversed edges()")
    for w in m.V:
        out = sorted(g.target(e) for e in g.out_edges(w))
        ctx.check(out == sorted(u for (u, v), es in live.items() if v == w for _ in es), "reversed out_edges")
        ctx.check(all(g.source(e) == w for e in g.out_edges(w)), "reversed source")
        inn = sorted(g.source(e) for e in g.in_edges(w))
        ctx.check(inn == sorted(v for (u, v), es in live.items() if u == w for _ in es), "reversed in_edges")
        ctx.check(g.out_degree(w) == len(out) and g.in_degree(w) == len(inn), "reversed degrees")
    ctx.observe("out", [sorted(g.target(e) for e in g.out_edges(w)) for w in m.V])
    reverse_graph(g)
    ctx.check(sorted((g.source(e), g.target(e)) for e in g.edges()) ==
              sorted(p for p, es in live.items() for _ in es), "reversing twice restores the graph")


@job("C03",
     quick=[dict(n=2, k=3, ids=3, ops=1), dict(n=2, k=2, ids=2, ops=2), dict(n=3, k=2, ids=0, ops=1)],
     thorough=[dict(n=2, k=3, ids=3, ops=2), dict(n=3, k=2, ids=0, ops=2), dict(n=3, k=3, ids=0, ops=1)],
     covers=["remove_edge", "remove_vertex"])
def reversed_histories(ctx, n, k, ids, ops):
    """IncidenceGraph: removals while the graph is reversed (through the
    descriptors its out_edges and in_edges hand out), observed once reversed
    back; reversing twice before and between updates changes nothing."""
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.reverse import reverse_graph
    S = sym_digraph(ctx, n, loops=True, k=k, cls=IncidenceGraph, ids=ids)
    g = S.g
    m = Model(S)
    reverse_graph(g)
    for i in range(ops):
        kind = ctx.choice(f"op{i}", ["remove_edge", "remove_vertex", "twice"])
        if kind == "twice":
            reverse_graph(g)
            reverse_graph(g)
        elif kind == "remove_edge":
            u, v = ctx.choice(f"u{i}", m.V), ctx.choice(f"v{i}", m.V)
            es = m.get(u, v)
            if not es:
                continue
            e = es[ctx.choice(f"e{i}", range(len(es)))]
            back = ctx.choice(f"s{i}", ["out", "in"])
            handed = [x for x in (list(g.out_edges(v)) if back == "out" else list(g.in_edges(u)))
                      if (g.source(x), g.target(x)) == (v, u)]
            ctx.check(len(handed) == len(es), "the reversed graph hands out the edges of the pair")
            same = [x for x in handed if Eq(x.distinguisher, e.distinguisher)]
            ctx.check(len(same) == 1, "each of them once")
            if len(same) != 1:
                return
            g.remove_edge(same[0])
            es.remove(e)
            ctx.cover("remove_edge")
        elif m.V:
            u = ctx.choice(f"u{i}", m.V)
            g.remove_vertex(u)
            m.drop_vertex(u)
            ctx.cover("remove_vertex")
        if not m.V:
            break
    reverse_graph(g)
    observe(ctx, g, m, False, ["edges", "out_edges", "in_edges", "edge", "vertices"])


MIXED = [0, False, 0.0, None, "", 1, True, 1.0, Fraction(1), "1", (1,), frozenset({1}), ("a", 1), ("a", 1.0)]


@job("C01", quick=[dict(skel=x, ops=2) for x in ("chain", "rings")] + [dict(skel="tree", ops=1, free=True)],
     thorough=[dict(skel=x, ops=3, few=True) for x in ("chain", "rings", "tree")])
@job("C02", quick=[dict(skel=x, ops=2, cls="und") for x in ("chain", "rings")], thorough=[dict(skel=x, ops=3, cls="und", few=True) for x in ("chain", "rings", "tree")])
@job("C03", quick=[dict(skel=x, ops=2, cls="inc") for x in ("chain", "rings")] + [dict(skel="tree", ops=1, cls="inc", rev=True)],
     thorough=[dict(skel=x, ops=3, cls="inc", few=True) for x in ("chain", "rings", "tree")])
def big_histories(ctx, skel, ops, cls=None, free=False, few=False, rev=False):
    """A graph of 7 or 8 vertices, part of which is fixed, the distinguishers
    being arbitrary; `ops` arbitrary operations concerning three of its vertices
    (few: two), then an arbitrary observer.  rev: reversed twice in between."""
    from pybgl.incidence_graph import IncidenceGraph
    from pybgl.reverse import reverse_graph
    n, pairs, fixed = skeleton(skel, cls == "und")
    pairs = pairs[:len(fixed) + 2]
    S = sym_ugraph(ctx, n, k=2, ids=3, pairs=pairs, fixed=fixed) if cls == "und" else sym_digraph(ctx, n, k=2, ids=3, pairs=pairs, fixed=fixed, cls=IncidenceGraph if cls else None)
    m = Model(S, directed=cls != "und")
    m.pick = ([2, n - 2] if few else [0, 3, n - 2])
    for i in range(ops):
        do_op(ctx, i, S.g, m, free, ALLOPS if i + 1 == ops else ("add_edge", "remove_edge", "remove_vertex", "add_vertex"))
        if rev:
            reverse_graph(S.g)
            reverse_graph(S.g)
    observe(ctx, S.g, m, free, ["edges", "out_edges", "edge", "vertices"] + (["in_edges"] if cls == "inc" else []))


@job("C49", quick=[dict(kind="int"), dict(kind="letter"), dict(kind="nfa"), dict(kind="mixed")], covers=["equal", "different", "less"])
def edge_descriptors(ctx, kind):
    """Three arbitrary descriptors: vertices and numbers over all integers
    (letter: distinguished by an arbitrary letter; nfa: by a letter and a
    number; mixed: by objects of various types, some of them equal)."""
    from pybgl.graph import EdgeDescriptor
    ts, es = [], []
    for i in range(3 if kind == "int" else 2):
        u, v = ctx.int(f"u{i}"), ctx.int(f"v{i}")
        d = ctx.choice(f"d{i}", MIXED) if kind == "mixed" else ctx.int(f"d{i}") if kind == "int" else ctx.sym(f"d{i}") if kind == "letter" else (ctx.sym(f"d{i}"), ctx.int(f"n{i}"))
        ts.append((u, v, d))
        es.append(EdgeDescriptor(u, v, d))
    eqd = lambda a, b: And(Eq(a[0], b[0]), Eq(a[1], b[1])) if kind == "nfa" else Eq(a, b)
    same = lambda a, b: And(Eq(a[0], b[0]), Eq(a[1], b[1]), eqd(a[2], b[2]))
    e, f = es[0], es[1]
    s = same(ts[0], ts[1])
    ctx.cover("equal", s)
    ctx.cover("different", Not(s))
    what = ctx.choice("what", ["eq", "set", "order"] if kind == "int" else ["eq", "set"])
    if kind != "int":
        ctx.cover("less")
    if what == "eq":
        r = e == f
        ctx.check(Iff(r, s), "two descriptors are equal iff they have the same source, target and distinguisher")
        ctx.check(Iff(e != f, Not(s)), "!= is the negation of ==")
        ctx.check(And(Eq(e.source, ts[0][0]), Eq(e.target, ts[0][1]), eqd(e.distinguisher, ts[0][2])), "a descriptor holds its three components")
        ctx.check(not (e == None) and e != None, "a descriptor differs from None")   # noqa: E711
    elif what == "set":
        # concrete vertices, as descriptors are hashed
        u = [ctx.choice(f"cu{i}", [0, 1]) for i in range(2)]
        v = [ctx.choice(f"cv{i}", [0, 1]) for i in range(2)]
        d = [t[2] for t in ts] if kind == "mixed" else [ctx.choice(f"cd{i}", [0, 1] if kind == "int" else ["a", "b"] if kind == "letter" else [("a", 1), ("a", 2), ("b", 1)])
             for i in range(2)]
        x, y = (EdgeDescriptor(u[i], v[i], d[i]) for i in range(2))
        eq = (u[0], v[0], d[0]) == (u[1], v[1], d[1])
        ctx.check(not eq or hash(x) == hash(y), "equal descriptors have the same hash")
        ctx.check(len({x, y}) == (1 if eq else 2), "a set holds a descriptor once")
        ctx.check(({x: 1}.get(y) == 1) == eq, "a dictionary finds a descriptor again")
    else:
        lt = lambda a, b: Or(a[0] < b[0], And(Eq(a[0], b[0]), Or(a[1] < b[1], And(Eq(a[1], b[1]), a[2] < b[2]))))
        r = e < f
        ctx.cover("less", r)
        ctx.check(Iff(r, lt(ts[0], ts[1])), "descriptors are ordered by source, then target, then distinguisher")
        l = sorted(es)
        ctx.check(And([Not(lt((b.source, b.target, b.distinguisher), (a.source, a.target, a.distinguisher))) for a, b in zip(l, l[1:])]),
                  "sorting descriptors is deterministic")
