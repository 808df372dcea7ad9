"""C37-C39, C41: graph_copy / graph_extract, automaton_copy, GraphView and the
automaton builders, over symbolic graphs and symbolic relevance predicates."""
from collections import defaultdict
from .common import *
from pybgl.property_map import make_assoc_property_map, make_func_property_map


class Filtered:
    """A symbolic digraph + arbitrary vertex and edge predicates."""

    def __init__(self, ctx, n, k=2, loops=True, vpred=True, epred=True, cls=None, und=False, tag="", skel=None):
        """skel: a bigger graph, part of which is fixed (see SKELETONS); some of
        its vertices and edges are arbitrarily filtered."""
        pairs = fixed = None
        if skel:
            n, pairs, fixed = skeleton(skel, und)
            pairs = pairs[:len(fixed) + 4]
        self.ctx, self.n, self.k = ctx, n, k
        self.S = (sym_ugraph(ctx, n, loops=loops, k=k, pairs=pairs, fixed=fixed) if und else
                  sym_digraph(ctx, n, loops=loops, k=k, cls=cls, pairs=pairs, fixed=fixed))
        self.g = self.S.g
        self.Vr = {u: ctx.bool(f"v{tag}{u}") if vpred and not (skel and u % 3 != 1) else True for u in range(n)}
        self.Er = {p + (i,): ctx.bool(f"r{tag}{p[0]}_{p[1]}_{i}") if epred and not (skel and j % 3 != 2) else True
                   for j, p in enumerate(self.S.pairs) for i in range(k - 1)}

    def vmap(self):
        return make_func_property_map(lambda u: self.Vr[u])

    def emap(self):
        return make_func_property_map(lambda e: self.Er[self.S._key(e.source, e.target) + (e.distinguisher,)])

    def has(self, p, i):
        return self.S.cells.count(p) > i

    def follow(self, p, i):
        """formula: the i-th edge of the pair is relevant, so is its target"""
        return And(self.has(p, i), self.Er[p + (i,)], self.Vr[p[1]])

    def reach(self, s):
        R = closure(self.n, lambda u, v: Or([self.follow((u, v), i) for i in range(self.k - 1)])
                    if (u, v) in self.S.cells.vars else False)
        return R[s]


def rows(g):
    return sorted(g.vertices()), sorted((e.source, e.target, str(e.distinguisher)) for e in g.edges())


@job("C37",
     quick=[dict(n=3, loops=False), dict(n=2, k=3), dict(n=3, vpred=False, epred=False, k=3, loops=False), dict(n=3, epred=False)] +
           [dict(n=0, skel=x) for x in ("chain", "tree", "rings", "dag")],
     thorough=[dict(n=3), dict(n=3, k=3, loops=False), dict(n=4, vpred=False, epred=False), dict(n=4, epred=False, loops=False)],
     covers=("filtered vertex", "filtered edge", "not copied", "copied edge"))
def copy_graph(ctx, n, k=2, loops=True, vpred=True, epred=True, skel=None):
    """graph_copy from an arbitrary source of every directed multigraph with n
    vertices, for every vertex and edge predicate, into an empty or a non-empty
    graph."""
    from pybgl.graph_copy import graph_copy
    from pybgl.graph import DirectedGraph
    W = Filtered(ctx, n, k, loops, vpred, epred, skel=skel)
    n = W.n
    if not vpred:
        ctx.cover("filtered vertex")
    if not epred:
        ctx.cover("filtered edge")
    g = W.g
    s = ctx.choice("s", range(n) if not skel else [0, n // 2])
    old = ctx.choice("old", [0, 1] if not skel else [0])
    dup = DirectedGraph(old)
    vmap, emap = defaultdict(lambda: None), defaultdict(lambda: None)
    vs, es = [], []
    kw = {}
    maps = ctx.choice("maps", ["given", "default", "vertices", "edges"]) if old == 0 else "given"
    if maps in ("given", "vertices"):
        kw["pmap_vertices"] = make_assoc_property_map(vmap)
    if maps in ("given", "edges"):
        kw["pmap_edges"] = make_assoc_property_map(emap)
    if maps == "default":
        graph_copy(s, g, DirectedGraph(0))      # a previous copy leaves nothing behind
    if vpred:
        kw["pmap_vrelevant"] = W.vmap()
    if epred:
        kw["pmap_erelevant"] = W.emap()

    def on_vertex(u, h, ud, hd):
        ctx.check(h is g and hd is dup, "the callback receives the two graphs")
        vs.append((u, ud))

    def on_edge(e, h, ed, hd):
        ctx.check(h is g and hd is dup, "the callback receives the two graphs")
        es.append((e, ed))

    graph_copy(s, g, dup, callback_dup_vertex=on_vertex, callback_dup_edge=on_edge, **kw)
    f = dict(vs)
    ctx.check(len(f) == len(vs), "a vertex is copied once")
    if maps in ("given", "vertices"):
        ctx.check({u: x for u, x in vmap.items() if x is not None} == f, "pmap_vertices maps each vertex to its copy")
    if maps in ("given", "edges"):
        ctx.check({e: x for e, x in emap.items() if x is not None} == dict(es), "pmap_edges maps each edge to its copy")
    ctx.check(sorted(f.values()) == list(range(old, dup.num_vertices())), "the copies are the new vertices")
    R = W.reach(s)
    for u in range(n):
        ctx.check(Iff(u in f, R[u]), "the vertices copied are those reachable through relevant edges")
        ctx.cover("not copied", Not(R[u]))
        if vpred:
            ctx.cover("filtered vertex", And(Not(W.Vr[u]), Or([W.S.cells.present((v, u)) for v in range(n) if v != u])))
    got = defaultdict(list)
    for e, ed in es:
        got[e.source, e.target, e.distinguisher].append(ed)
        ctx.check(dup.source(ed) == f.get(e.source) and dup.target(ed) == f.get(e.target), "the copy of an edge links the copies of its ends")
    ctx.check(all(len(x) == 1 for x in got.values()), "an edge is copied once")
    for p in W.S.pairs:
        for i in range(k - 1):
            want = And(R[p[0]], W.follow(p, i))
            ctx.check(Iff(p + (i,) in got, want), "the edges copied are the relevant ones")
            ctx.cover("copied edge", want)
            if epred:
                ctx.cover("filtered edge", And(R[p[0]], W.has(p, i), Not(W.Er[p + (i,)])))
    ctx.check(sorted((e.source, e.target, e.distinguisher) for e in dup.edges()) == sorted(key(ed) for _, ed in es), "the graph contains nothing else")


@job("C37",
     quick=[dict(n=3, loops=False), dict(n=2, k=3)] + [dict(n=0, skel=x) for x in ("chain", "tree", "rings", "dag")],
     thorough=[dict(n=3), dict(n=3, k=3, loops=False), dict(n=4, epred=False, loops=False)],
     covers=("not extracted", "extracted edge"))
def extract_graph(ctx, n, k=2, loops=True, vpred=True, epred=True, skel=None):
    """graph_extract, same inputs as graph_copy."""
    from pybgl.graph_extract import graph_extract
    W = Filtered(ctx, n, k, loops, vpred, epred, skel=skel)
    g, n = W.g, W.n
    s = ctx.choice("s", range(n) if not skel else [0, n // 2])
    vs, es = [], []
    graph_extract(s, g, pmap_vrelevant=W.vmap(), pmap_erelevant=W.emap(),
                  callback_vertex_extract=lambda u, h: vs.append(u),
                  callback_edge_extract=lambda e, h: es.append(key(e)))
    R = W.reach(s)
    ctx.check(len(set(vs)) == len(vs) and len(set(es)) == len(es), "each vertex and edge is extracted once")
    for u in range(n):
        ctx.check(Iff(u in vs, R[u]), "the vertices extracted are those reachable through relevant edges")
        ctx.cover("not extracted", Not(R[u]))
    for p in W.S.pairs:
        for i in range(k - 1):
            want = And(R[p[0]], W.follow(p, i))
            ctx.check(Iff(p + (i,) in es, want), "the edges extracted are the relevant ones")
            ctx.cover("extracted edge", want)


@job("C38",
     quick=[dict(n=2, k=2), dict(n=3, k=1), dict(n=3, k=2, vpred=False, epred=False, small=True), dict(n=3, k=2, epred=False, small=True)] +
           [dict(n=0, k=2, skel=x, vpred=p, epred=p) for x in ("ring", "tree", "complete", "chain") for p in (True, False)],
     thorough=[dict(n=3, k=2, epred=False), dict(n=3, k=2), dict(n=3, k=2, vpred=False, epred=False), dict(n=4, k=1), dict(n=3, k=2, vpred=False)],
     covers=("filtered", "loop", "not copied", "accepted"))
def copy_automaton(ctx, n, k, vpred=True, epred=True, small=False, skel=None):
    """automaton_copy from an arbitrary state of every DFA with n states and k
    letters, for every state and transition predicate; then the copy of the
    whole automaton recognizes the same words (length <= 3)."""
    from pybgl.automaton_copy import automaton_copy
    from pybgl.automaton import Automaton
    D = SymDfa(ctx, n, "ab"[:k], tag="d", skel=SKELETON_DFAS[skel] if skel else None)
    g, n = D.g, D.n
    Vr = {q: ctx.bool(f"v{q}") if vpred and not (skel and q % 3 != 2) else True for q in range(n)}
    Er = {(q, a): ctx.bool(f"r{q}{a}") if epred and not (skel and (q + (a == "b")) % 3) else True for q in range(n) for a in D.alpha}
    s = ctx.choice("s", [0] if small else [0, n // 2] if skel else range(n))
    if skel:
        for c in ("loop", "not copied", "filtered", "accepted"):
            ctx.cover(c)
    dup = Automaton()
    vmap, emap = defaultdict(lambda: None), defaultdict(lambda: None)
    vs, es = [], []
    maps = ctx.choice("maps", ["given", "default"] if k > 1 else ["given", "default", "vertices", "edges"])
    kw = {}
    if maps in ("given", "vertices"):
        kw["pmap_vertices"] = make_assoc_property_map(vmap)
    if maps in ("given", "edges"):
        kw["pmap_edges"] = make_assoc_property_map(emap)
    if maps == "default":
        automaton_copy(s, g, Automaton())       # a previous copy leaves nothing behind
    if vpred:
        kw["pmap_vrelevant"] = make_func_property_map(lambda q: Vr[q])
    if epred:
        kw["pmap_erelevant"] = make_func_property_map(lambda e: Er[e.source, e.distinguisher])

    def on_vertex(u, h, ud, hd):
        ctx.check(h is g and hd is dup, "the callback receives the two automata")
        vs.append((u, ud))

    automaton_copy(s, g, dup, callback_dup_vertex=on_vertex, callback_dup_edge=lambda e, h, ed, hd: es.append((e, ed)), **kw)
    f = dict(vs)
    ctx.check(len(f) == len(vs) and sorted(f.values()) == list(range(dup.num_vertices())), "a state is copied once")
    if maps in ("given", "vertices"):
        ctx.check({u: x for u, x in vmap.items() if x is not None} == f, "pmap_vertices maps each state to its copy")
    if maps in ("given", "edges"):
        ctx.check({key(e): key(x) for e, x in emap.items() if x is not None} == {key(e): key(x) for e, x in es}, "pmap_edges maps each transition to its copy")

    def follow(q, a, r):
        return And(D.D(q, a, r), Er[q, a], Vr[r])

    R = closure(n, lambda q, r: Or([follow(q, a, r) for a in D.alpha]))[s]
    for q in range(n):
        ctx.check(Iff(q in f, R[q]), "the states copied are those reachable through relevant transitions")
        ctx.cover("not copied", Not(R[q]))
    ctx.check(len(es) == dup.num_edges(), "a transition is copied once")
    for q in range(n):
        for a in D.alpha:
            for r in range(n):
                want = And(R[q], follow(q, a, r))
                have = [1 for e, ed in es if key(e) == (q, r, a) and key(ed) == (f.get(q), f.get(r), a)]
                ctx.check(Iff(len(have) == 1, want), "the transitions copied are the relevant ones, with their label")
                if q == r:
                    ctx.cover("loop", want)
            if vpred or epred:
                ctx.cover("filtered", And(R[q], Not(D.D(q, a, None)), Not(Or([follow(q, a, r) for r in range(n)]))))
            if q in f:
                rd = dup.delta(f[q], a)
                for r in range(n):
                    ctx.check(Iff(r in f and rd == f[r], And(R[q], follow(q, a, r))), "the copy has the same transition function")
    if not (vpred or epred):
        ctx.cover("filtered")
        # the copy, with the final states installed by the caller, has the language read from s
        for q, x in f.items():
            if D.F(q):
                dup.set_final(x)
        w = ctx.word("w", 3, alpha=D.alpha)
        S = {q: q == s for q in range(n)}
        for a in w:
            S = D.step(S, a)
        qs, d, fin, q0 = read_dfa(dup, D.alpha)
        want = Or([And(S[q], D.F(q)) for q in range(n)])
        ctx.cover("accepted", want)
        ctx.check(Iff(dfa_accepts(qs, d, fin, f[s], w), want), "the copy recognizes the same words")
    else:
        ctx.cover("accepted")


VIEWOPS = ["plain", "or", "and", "sub"]


@job("C39",
     quick=[dict(n=2, k=2, ops=VIEWOPS), dict(n=3, k=2, ops=["plain"], loops=False), dict(n=2, k=3, ops=["plain", "sub", "and"], loops=False), dict(n=3, k=2, ops=["sub"], loops=False, epred=False),
            dict(n=3, k=2, ops=["or"], loops=False, epred=False), dict(n=2, k=3, ops=["plain", "and"], und=True), dict(n=2, k=2, ops=["nested"])] +
           [dict(n=0, k=2, skel=x, ops=["plain", o]) for x, o in (("chain", "sub"), ("rings", "and"), ("tree", "or"))] + [dict(n=0, k=2, skel="dag", ops=["plain"], und=True)],
     thorough=[dict(n=2, k=3, ops=VIEWOPS), dict(n=3, k=3, ops=["plain"], loops=False), dict(n=3, k=2, ops=["plain"]), dict(n=3, k=2, ops=["sub"], loops=False), dict(n=3, k=2, ops=["and"], loops=False),
               dict(n=3, k=2, ops=["or"], loops=False), dict(n=3, k=2, ops=["nested"], loops=False, epred=False), dict(n=3, k=2, ops=["plain", "sub"], und=True)],
     covers=("hidden vertex", "hidden edge", "visible edge"))
def views(ctx, n, k, ops, loops=True, epred=True, und=False, skel=None):
    """GraphView over every multigraph with n vertices, for every vertex and edge
    predicate, alone or combined by |, & and - (or nested); one observer."""
    from pybgl.graph_view import GraphView
    from pybgl.incidence_graph import IncidenceGraph
    op = ctx.choice("op", ops)
    obs = ctx.choice("obs", ["vertices", "edges", "out"] + ([] if und else ["in"]))
    W = Filtered(ctx, n, k, loops, True, epred, cls=IncidenceGraph, und=und, skel=skel)
    n = W.n
    if not epred:
        ctx.cover("hidden edge")
    g1 = GraphView(W.g, W.vmap(), W.emap()) if epred else GraphView(W.g, W.vmap())
    V1, E1 = W.Vr, W.Er
    ends = lambda p, V: And(V[p[0]], V[p[1]])
    vis1 = lambda p, i: And(W.has(p, i), E1[p + (i,)], ends(p, V1))
    if op == "plain":
        gv, V = g1, V1
        low = high = vis1
    else:
        V2 = {u: ctx.bool(f"v2_{u}") if not (skel and u % 3 != 2) else True for u in range(n)}
        E2 = {p: ctx.bool(f"r2_{p[0]}_{p[1]}_{p[2]}") if epred and not (skel and j % 3 != 1) else True for j, p in enumerate(E1)}
        m2 = make_func_property_map(lambda u: V2[u])
        e2 = make_func_property_map(lambda e: E2[W.S._key(e.source, e.target) + (e.distinguisher,)])
        g2 = GraphView(W.g, m2, e2) if epred else GraphView(W.g, m2)
        vis2 = lambda p, i: And(W.has(p, i), E2[p + (i,)], ends(p, V2))
        if op == "or":
            gv = g1 | g2
            V = {u: Or(V1[u], V2[u]) for u in V1}
            # edges seen through neither view but between visible vertices: unspecified
            low = lambda p, i: Or(vis1(p, i), vis2(p, i))
            high = lambda p, i: And(W.has(p, i), Or(E1[p + (i,)], E2[p + (i,)]), ends(p, V))
        elif op == "and":
            gv = g1 & g2
            V = {u: And(V1[u], V2[u]) for u in V1}
            low = high = lambda p, i: And(vis1(p, i), vis2(p, i))
        elif op == "sub":
            gv = g1 - g2
            V = {u: And(V1[u], Not(V2[u])) for u in V1}
            low = high = lambda p, i: And(vis1(p, i), ends(p, V))
        else:                      # a view of a view
            gv = GraphView(g1, m2, e2) if epred else GraphView(g1, m2)
            V = {u: And(V1[u], V2[u]) for u in V1}
            low = high = lambda p, i: And(vis1(p, i), vis2(p, i))

    def edges(es, where, touch=lambda p: True):
        es = list(es)
        # (an undirected edge may be given from either end)
        ks = [W.S._key(e.source, e.target) + (e.distinguisher,) for e in es]
        ctx.check(len(set(ks)) == len(ks), f"{where}: each edge once")
        for p in W.S.pairs:
            for i in range(k - 1):
                isin = p + (i,) in ks
                if not touch(p):
                    ctx.check(not isin, f"{where}: edges of that vertex only")
                    continue
                ctx.check(Implies(low(p, i), isin), f"{where}: every visible edge is listed")
                ctx.check(Implies(isin, high(p, i)), f"{where}: only visible edges are listed")
                ctx.cover("visible edge", low(p, i))
                ctx.cover("hidden edge", And(W.has(p, i), Not(high(p, i))))
        return len(es)

    if obs == "vertices":
        us = list(gv.vertices())
        ctx.check(len(set(us)) == len(us), "vertices(): each vertex once")
        for u in range(n):
            ctx.check(Iff(u in us, V[u]), "vertices(): exactly the visible vertices")
            ctx.cover("hidden vertex", Not(V[u]))
        ctx.check(gv.num_vertices() == len(us), "num_vertices()")
    elif obs == "edges":
        m = edges(gv.edges(), "edges()")
        ctx.check(gv.num_edges() == m, "num_edges()")
    else:
        u = ctx.choice("u", range(n))
        if obs == "out":
            m = edges(gv.out_edges(u), "out_edges()", lambda p: (u in p) if und else p[0] == u)
            ctx.check(gv.out_degree(u) == m, "out_degree()")
        else:
            m = edges(gv.in_edges(u), "in_edges()", lambda p: p[1] == u)
            ctx.check(gv.in_degree(u) == m, "in_degree()")


@job("C39", quick=[dict(n=3, loops=False), dict(n=2, k=3)] + [dict(n=0, skel=x) for x in ("chain", "tree", "rings", "dag")], thorough=[dict(n=3), dict(n=3, k=3, loops=False)], covers=("unreachable", "reached"))
def traversed_views(ctx, n, k=2, loops=True, skel=None):
    """Depth and breadth first searches of a GraphView explore what is visible."""
    from pybgl.graph_view import GraphView
    from pybgl.depth_first_search import depth_first_search
    from pybgl.breadth_first_search import breadth_first_search
    W = Filtered(ctx, n, k, loops, skel=skel)
    n = W.n
    gv = GraphView(W.g, W.vmap(), W.emap())
    s = ctx.choice("s", range(n) if not skel else [0, n // 2])
    ctx.assume(W.Vr[s])
    R = W.reach(s)
    for f in (depth_first_search, breadth_first_search):
        c = defaultdict(int)
        f(s, gv, make_assoc_property_map(c))
        for u in range(n):
            ctx.check(Iff(c[u] != 0, R[u]), "a traversal of a view reaches exactly what is visible")
            ctx.cover("unreachable", Not(R[u]))
            if u != s:
                ctx.cover("reached", R[u])


NAMES = ["B", "A", "C", "D", "F", "E"]


@job("C41",
     quick=[dict(T=2, N=3, k=2), dict(T=3, N=2, k=2), dict(T=3, N=3, k=1), dict(T=2, N=2, k=2, cls="incidence"), dict(T=1, N=6, k=2, big=True)],
     thorough=[dict(T=3, N=3, k=2), dict(T=4, N=2, k=2), dict(T=4, N=3, k=1), dict(T=3, N=2, k=2, cls="incidence")],
     covers=("accepted", "duplicate", "rejected"))
def build_automaton(ctx, T, N, k, cls="automaton", big=False):
    """make_automaton on every list of T transitions between N named states over
    k letters (big: and eight other ones), every initial state and every set of
    final names."""
    from pybgl.automaton import Automaton, make_automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    names, alpha = NAMES[:N], "ab"[:k]
    trs = []
    if big:
        names = names[::2] + names[1::2]
        trs = [(names[i % N], names[(i * 2 + 1) % N], "ab"[i // N]) for i in range(N + 2)]
    for i in range(T):
        trs.insert(ctx.choice(f"at{i}", [0, 4, len(trs)]) if big else len(trs), (ctx.choice(f"q{i}", names), ctx.choice(f"r{i}", names), ctx.choice(f"a{i}", alpha)))
    used = sorted({q for q, _, _ in trs} | {r for _, r, _ in trs})
    q0 = ctx.choice("start", used[::3] if big else used)
    fin = {x: ctx.bool(f"f{x}") if not big or i % 3 == 1 else i == 2 for i, x in enumerate(names)}
    kw = dict(Constructor=IncidenceAutomaton) if cls == "incidence" else {}
    g = make_automaton(list(trs), q0, make_func_property_map(lambda x: fin[x]), **kw)
    ctx.check(type(g) is (IncidenceAutomaton if cls == "incidence" else Automaton), "the class is the one asked for")
    ctx.check(g.num_vertices() == len(used), "one state per name")
    d = {}
    for q, r, a in trs:
        if (q, a) in d and d[q, a] != r:
            ctx.cover("duplicate")
        d.setdefault((q, a), r)      # a second transition is refused by add_edge
    ctx.check(g.num_edges() == len(d), "one transition per (state, letter)")
    named_language(ctx, g, alpha, d, q0, fin, 4 if big else T)


def named_language(ctx, g, alpha, d, q0, fin, L):
    qs, dd, f, i0 = read_dfa(g, alpha)
    for m in range(L + 1):
        w = ctx.word(f"w{m}", m, alpha=list(alpha))
        S = {q0: True}
        for a in w:
            Z = {}
            for q, c in S.items():
                for b in alpha:
                    if (q, b) in d:
                        r = d[q, b]
                        Z[r] = Or(Z.get(r, False), And(c, Eq(a, b)))
            S = Z
        want = Or([And(c, fin[q]) for q, c in S.items()] or [False])
        if m:
            ctx.cover("accepted", want)
        ctx.cover("rejected", Not(want))
        ctx.check(Iff(dfa_accepts(qs, dd, f, i0, w), want), "the automaton recognizes the words the transitions spell")


@job("C41",
     quick=[dict(T=2, N=3, k=2), dict(T=3, N=2, k=2)],
     thorough=[dict(T=3, N=3, k=2), dict(T=4, N=2, k=2)],
     covers=("accepted", "duplicate", "rejected"))
def build_node_automaton(ctx, T, N, k):
    """make_node_automaton on every list of T transitions between N named states,
    every labelling of the states, every initial state and every set of finals."""
    from pybgl.node_automaton import make_node_automaton, NodeAutomaton
    names, alpha = NAMES[:N], "ab"[:k]
    trs = [(ctx.choice(f"q{i}", names), ctx.choice(f"r{i}", names)) for i in range(T)]
    used = sorted({q for q, _ in trs} | {r for _, r in trs})
    lab = {x: ctx.choice(f"l{x}", alpha) for x in used}
    q0 = ctx.choice("start", used)
    fin = {x: ctx.bool(f"f{x}") for x in names}
    g = make_node_automaton(list(trs), make_func_property_map(lambda x: lab[x]), q0, make_func_property_map(lambda x: fin[x]))
    ctx.check(type(g) is NodeAutomaton and g.num_vertices() == len(used), "one state per name")
    ctx.check(sorted(g.symbol(q) for q in g.vertices()) == sorted(lab.values()), "each state carries the symbol of its name")
    d = {}
    for q, r in trs:
        if (q, lab[r]) in d and d[q, lab[r]] != r:
            ctx.cover("duplicate")
        d.setdefault((q, lab[r]), r)
    ctx.check(g.num_edges() == len(d), "one transition per (state, symbol)")
    named_language(ctx, g, alpha, d, q0, fin, T)
