"""C04-C07: the automaton containers and DFA runs.

State before the operations: an arbitrary deterministic automaton whose
letters are *unbounded symbolic symbols* (only equality is known about them)
and whose transition targets are symbolic states; it is built through the
public API of the real class.
"""
from .common import *


class AModel:
    """Abstract automaton: per state, a list of [descriptor, letter, target]."""

    def __init__(self, n):
        self.V = list(range(n))
        self.size = n
        self.tr = {q: [] for q in range(n)}
        self.fin = {}
        self.gone = set()
        self.q0 = 0
        self.letters = None
        self.pick = None        # the states concerned by the operations (None: all of them)

    @property
    def P(self):
        return self.V if self.pick is None else [q for q in self.V if q in self.pick or q >= self.size]

    def all(self):
        return [(q, t) for q in self.V for t in self.tr[q]]


def build(ctx, g, n, m, counts=None, letters=None):
    """Up to m transitions per state, with symbolic letters and targets."""
    M = AModel(n)
    M.letters = letters
    for q in range(n):
        j = ctx.choice(f"j{q}", range((counts or {}).get(q, m) + 1))
        ls = []
        for i in range(j):
            a = ctx.sym(f"a{q}_{i}", letters)
            for b in ls:
                ctx.assume(Not(Eq(a, b)))
            ls.append(a)
            r = ctx.int(f"t{q}_{i}", 0, n - 1)
            e, ok = g.add_edge(q, r, a)
            ctx.check(ok is True, "add_edge accepts a new (state, letter)")
            if e is None:
                return M
            M.tr[q].append([e, a, r])
        f = ctx.bool(f"f{q}")
        g.set_final(q, f)
        M.fin[q] = f
    return M


def has(M, q, a):
    return Or([Eq(a, x[1]) for x in M.tr[q]] or [False])


def a_op(ctx, i, g, M, free, kinds):
    from pybgl import automaton as A
    from pybgl import graph as G
    kind = ctx.choice(f"op{i}", kinds if M.P else ["none", "add_vertex"])
    ctx.cover(kind)
    if kind == "add_vertex":
        w = g.add_vertex()
        ctx.check(w not in M.V and w not in M.gone, "add_vertex returns a fresh state")
        M.V.append(w)
        M.tr[w] = []
        M.fin[w] = False
    elif kind == "add_edge":
        q = ctx.choice(f"q{i}", M.P)
        r = ctx.choice(f"r{i}", M.P)
        a = ctx.sym(f"x{i}", M.letters)
        dup = has(M, q, a)
        ctx.cover("duplicate", dup)
        e, ok = A.add_edge(q, r, a, g) if free else g.add_edge(q, r, a)
        ctx.check(Iff(ok, Not(dup)), "add_edge succeeds iff (q, a) has no transition yet")
        if ok:
            ctx.check(And(e.source == q, Eq(e.target, r), Eq(g.label(e), a)), "add_edge describes the new transition")
            M.tr[q].append([e, a, r])
        else:
            ctx.check(e is None, "a refused add_edge returns None")
    elif kind == "remove_edge":
        q = ctx.choice(f"q{i}", M.P)
        if not M.tr[q]:
            return
        k = ctx.choice(f"k{i}", range(len(M.tr[q])))
        e = M.tr[q][k][0]
        G.remove_edge(e, g) if free else g.remove_edge(e)
        ctx.cover("removed")
        del M.tr[q][k]
    elif kind == "remove_vertex":
        u = ctx.choice(f"u{i}", M.P)
        g.remove_vertex(u)
        M.V.remove(u)
        M.gone.add(u)
        del M.tr[u]
        for q in M.V:
            M.tr[q] = [t for t in M.tr[q] if not (t[2] == u)]
    elif kind == "set_final":
        q = ctx.choice(f"q{i}", M.P)
        f = ctx.bool(f"sf{i}")
        A.set_final(q, g, f) if free else g.set_final(q, f)
        M.fin[q] = f
    elif kind == "set_initial":
        q = ctx.choice(f"q{i}", M.P)
        if ctx.bool(f"si{i}"):
            A.set_initial(q, g) if free else g.set_initial(q)
            M.q0 = q
        else:
            A.set_initial(q, g, False) if free else g.set_initial(q, False)
            if M.q0 == q:
                M.q0 = None
    elif kind == "clear":
        g.clear()
        M.V, M.tr, M.fin, M.gone = [], {}, {}, set()
        M.q0 = g.initial()              # (unspecified)
    if not M.V and kind in ("clear", "remove_vertex"):
        # what is added to an empty automaton does not inherit anything
        w = g.add_vertex()
        ctx.check(w not in M.gone, "add_vertex returns a fresh state")
        M.V, M.tr[w], M.fin[w] = [w], [], False


def same_tr(x, y):
    return And(x[0] == y[0], Eq(x[1], y[1]), Eq(x[2], y[2]))


def triples(g, es):
    return [(g.source(e), g.label(e), g.target(e)) for e in es]


def set_is(ctx, got, want, what):
    """`got` (a set of letters) equals the letters of the list `want`."""
    got = list(got)
    ctx.check(Distinct(got), f"{what}: no duplicate")
    ctx.check(And([Or([Eq(a, b) for b in want] or [False]) for a in got] or [True]), f"{what}: nothing extra")
    ctx.check(And([Or([Eq(a, b) for b in got] or [False]) for a in want] or [True]), f"{what}: nothing missing")


def a_observe(ctx, g, M, free, kinds, labelled=True):
    from pybgl import automaton as A
    from pybgl import graph as G
    o = ctx.choice("obs", kinds)
    ctx.cover("obs:" + o)
    if o == "vertices":
        ctx.check(sorted(g.vertices()) == sorted(M.V), "vertices()")
        ctx.check(g.num_vertices() == len(M.V), "num_vertices()")
        return
    if o == "edges":
        es = triples(g, list(G.edges(g) if free else g.edges()))
        want = [(q, t[1], t[2]) for q, t in M.all()]
        ctx.check(same_multiset(es, want, same_tr), "edges() are exactly the transitions")
        ctx.check(g.num_edges() == len(want), "num_edges()")
        return
    if o == "alphabet":
        set_is(ctx, A.alphabet(g) if free else g.alphabet(), [t[1] for q, t in M.all()], "alphabet()")
        return
    if o == "finals":
        got = list(A.finals(g) if free else g.finals())
        for q in M.V:
            ctx.check(Iff(q in got, M.fin[q]), "finals() are the states marked final")
        ctx.check(len(set(got)) == len(got) and set(got) <= set(M.V), "finals() are states")
        return
    if o == "initial":
        ctx.check((A.initial(g) if free else g.initial()) == M.q0, "initial()")
        for q in M.V:
            ctx.check((A.is_initial(q, g) if free else g.is_initial(q)) == (q == M.q0), "is_initial(q)")
        return
    if o == "complete":
        c = A.is_complete(g) if free else g.is_complete()
        al = [t[1] for q, t in M.all()]
        ctx.check(Iff(c, And([has(M, q, a) for q in M.V for a in al] or [True])),
                  "is_complete() iff every state has a successor for every letter of the alphabet")
        return
    if not M.P:
        return
    q = ctx.choice("oq", M.P)
    if o == "is_final":
        ctx.check(Iff(A.is_final(q, g) if free else g.is_final(q), M.fin[q]), "is_final(q)")
    elif o == "delta":
        b = ctx.sym("y", M.letters)
        r = A.delta(q, b, g) if free else g.delta(q, b)
        if r is None:
            ctx.check(Not(has(M, q, b)), "delta is undefined only without a transition")
        else:
            ctx.check(has(M, q, b), "delta is defined only with a transition")
            for t in M.tr[q]:
                ctx.check(Implies(Eq(b, t[1]), Eq(r, t[2])), "delta(q, a) is the target of the a-transition of q")
        ctx.observe("delta", r)
    elif o == "out_edges":
        es = triples(g, list(G.out_edges(q, g) if free else g.out_edges(q)))
        ctx.check(same_multiset(es, [(q, t[1], t[2]) for t in M.tr[q]], same_tr), "out_edges(q)")
        ctx.check(g.out_degree(q) == len(M.tr[q]), "out_degree(q)")
    elif o == "in_edges":
        es = triples(g, list(G.in_edges(q, g) if free else g.in_edges(q)))
        want = [(p, t[1], t[2]) for p, t in M.all() if t[2] == q]
        ctx.check(same_multiset(es, want, same_tr), "in_edges(q) are exactly the transitions into q")
        ctx.check(g.in_degree(q) == len(want), "in_degree(q)")
    elif o == "sigma":
        set_is(ctx, A.sigma(q, g) if free else g.sigma(q), [t[1] for t in M.tr[q]], "sigma(q)")
    elif o == "edge":
        r = ctx.choice("or", M.P)
        b = ctx.sym("y", M.letters)
        e, found = A.edge(q, r, b, g) if free else g.edge(q, r, b)
        ctx.check(Iff(found, Or([And(Eq(b, t[1]), Eq(r, t[2])) for t in M.tr[q]] or [False])),
                  "edge(q, r, a) succeeds iff that transition exists")
        if found:
            ctx.check(And(g.source(e) == q, Eq(g.target(e), r), Eq(g.label(e), b)), "edge(q, r, a) describes it")


OPS = ["none", "add_vertex", "add_edge", "remove_edge", "remove_vertex", "set_final", "set_initial", "clear"]
OBS = ["vertices", "edges", "alphabet", "finals", "initial", "complete", "is_final", "delta", "out_edges", "sigma", "edge"]


@job("C04",
     quick=[dict(n=2, m=2, ops=1), dict(n=3, m=1, ops=1), dict(n=2, m=1, ops=2), dict(n=2, m=2, ops=1, free=True), dict(n=3, m=1, ops=1, free=True),
            dict(n=2, m=1, ops=1, ctor="q0"), dict(n=2, m=1, ops=1, ctor="pmap"),
            dict(n=2, m=2, ops=1, letters=["", 0]), dict(n=2, m=1, ops=2, twice=True), dict(n=2, m=2, ops=1, twice=True, free=True)],
     thorough=[dict(n=2, m=3, ops=1), dict(n=3, m=2, ops=1), dict(n=2, m=2, ops=2), dict(n=2, m=1, ops=3),
               dict(n=2, m=2, ops=1, free=True)],
     covers=["add_edge", "duplicate", "remove_edge", "removed", "remove_vertex", "set_final", "set_initial"])
def automaton_histories(ctx, n, m, ops, free=False, ctor=None, letters=None, twice=False):
    """Automaton: arbitrary DFA with n states, up to m transitions per state
    over unbounded letters, `ops` arbitrary operations, any observer (twice:
    which also runs before the operations)."""
    from pybgl.automaton import Automaton
    from pybgl.property_map import make_assoc_property_map
    from collections import defaultdict
    mine = defaultdict(bool)
    g = Automaton(n) if not ctor else Automaton(n, q0=n - 1) if ctor == "q0" else \
        Automaton(n, 0, make_assoc_property_map(mine))
    M = build(ctx, g, n, m, letters=letters)
    if ctor == "q0":
        M.q0 = n - 1
    if twice:
        ctx = Again(ctx)
        a_observe(ctx, g, M, free, OBS)
    for i in range(ops):
        a_op(ctx, i, g, M, free, OPS)
    a_observe(ctx, g, M, free, OBS)
    if ctor == "pmap":
        for q in M.V:
            ctx.check(Iff(mine[q], M.fin[q]), "the property map passed by the caller holds the final states")


@job("C05",
     quick=[dict(n=2, m=2, ops=1), dict(n=3, m=1, ops=1), dict(n=2, m=1, ops=2), dict(n=2, m=2, ops=1, letters=["", 0]),
            dict(n=2, m=1, ops=2, twice=True), dict(n=2, m=2, ops=1, twice=True)],
     thorough=[dict(n=2, m=3, ops=1), dict(n=3, m=2, ops=1), dict(n=2, m=2, ops=2), dict(n=2, m=1, ops=3)],
     covers=["add_edge", "duplicate", "removed", "remove_vertex", "obs:in_edges"])
def incidence_automaton_histories(ctx, n, m, ops, letters=None, twice=False):
    """IncidenceAutomaton: as C04, observed through in_edges / out_edges / delta."""
    from pybgl.incidence_automaton import IncidenceAutomaton
    g = IncidenceAutomaton(n)
    M = build(ctx, g, n, m, letters=letters)
    if twice:
        ctx = Again(ctx)
        a_observe(ctx, g, M, False, ["in_edges", "out_edges", "edges", "delta", "vertices"])
    for i in range(ops):
        a_op(ctx, i, g, M, False, ["none", "add_vertex", "add_edge", "remove_edge", "remove_vertex", "clear"])
    a_observe(ctx, g, M, False, ["in_edges", "out_edges", "edges", "delta", "vertices"])


# transitions of bigger automata
BIG = {
    "ring": (7, [(q, "a", (q + 1) % 7) for q in range(7)] + [(3, "b", 5), (5, "b", 3), (0, "b", 0), (4, "c", 5), (2, "c", 5)]),
    "tree": (8, [(0, "a", 1), (0, "b", 2), (1, "a", 3), (1, "b", 4), (2, "a", 5), (2, "c", 6), (6, "a", 7), (6, "b", 6), (3, "c", 0), (7, "c", 2)]),
}


@job("C04", quick=[dict(shape=x, ops=2) for x in BIG] + [dict(shape="ring", ops=1, free=True)], thorough=[dict(shape=x, ops=3) for x in BIG])
@job("C05", quick=[dict(shape=x, ops=2, inc=True) for x in BIG], thorough=[dict(shape=x, ops=3, inc=True) for x in BIG])
def big_automaton_histories(ctx, shape, ops, free=False, inc=False):
    """An automaton of 7 or 8 states, the final states of which are arbitrary:
    `ops` arbitrary operations concerning two or three of its states, then an
    arbitrary observer."""
    from pybgl.automaton import Automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    n, trs = BIG[shape]
    g = (IncidenceAutomaton if inc else Automaton)(n)
    M = AModel(n)
    M.letters = ["a", "b", "c"]
    M.pick = [0, 3, 5] if ops == 1 else [2, 5]
    for q, a, r in trs:
        e, ok = g.add_edge(q, r, a)
        ctx.check(ok is True, "add_edge accepts a new (state, letter)")
        M.tr[q].append([e, a, r])
    for q in range(n):
        M.fin[q] = ctx.bool(f"f{q}") if q in M.pick else q % 2 == 0
        g.set_final(q, M.fin[q])
    for i in range(ops):
        a_op(ctx, i, g, M, free, [k for k in OPS if k not in ("clear", "none") or i + 1 == ops])
    a_observe(ctx, g, M, free, OBS + (["in_edges"] if inc else []))


# ----------------------------------------------------------- node automata
@job("C06",
     quick=[dict(n=3, src=1, ops=1, inc=False), dict(n=3, src=1, ops=1, inc=True),
            dict(n=2, src=2, ops=1, inc=False), dict(n=2, src=2, ops=1, inc=True),
            dict(n=2, src=1, ops=2, inc=False), dict(n=2, src=1, ops=2, inc=True),
            dict(n=2, src=1, ops=1, inc=False, ctor=True), dict(n=2, src=1, ops=1, inc=True, ctor=True),
            dict(n=2, src=2, ops=1, inc=False, letters=["", 0]), dict(n=2, src=2, ops=1, inc=True, letters=["", 0]),
            dict(n=2, src=2, ops=1, inc=False, free=True), dict(n=2, src=1, ops=1, inc=True, free=True),
            dict(n=2, src=2, ops=1, inc=False, twice=True), dict(n=2, src=2, ops=1, inc=True, twice=True)],
     thorough=[dict(n=3, src=2, ops=1, inc=False), dict(n=3, src=2, ops=1, inc=True),
               dict(n=3, src=1, ops=2, inc=False), dict(n=3, src=1, ops=2, inc=True),
               dict(n=2, src=2, ops=2, inc=False), dict(n=2, src=2, ops=2, inc=True)],
     covers=["add_edge", "refused", "removed", "remove_vertex", "obs:out_edges"])
def node_automaton_histories(ctx, n, src, ops, inc, ctor=False, letters=None, free=False, twice=False):
    """NodeAutomaton / IncidenceNodeAutomaton: states with unbounded symbolic
    symbols, arbitrary transitions from the first `src` states, `ops`
    operations, any observer."""
    from pybgl import automaton as A, graph as G, node_automaton as N
    from pybgl.node_automaton import NodeAutomaton
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    from pybgl.property_map import make_assoc_property_map
    from collections import defaultdict
    cls = IncidenceNodeAutomaton if inc else NodeAutomaton
    m_sy, m_fin = defaultdict(lambda: None), defaultdict(bool)
    if ctor:
        g = cls(0, q0=1, pmap_vfinal=make_assoc_property_map(m_fin), pmap_vsymbol=make_assoc_property_map(m_sy))
        ctx.check(g.initial() == 1, "the constructor sets the initial state")
    else:
        g = cls(0)
        ctx.check(g.initial() == 0, "the initial state is 0 by default")
    V, sy, fin, tr, gone = [], {}, {}, {}, set()
    for q in range(n):
        a = ctx.sym(f"s{q}", letters)
        u = N.add_vertex(a, g) if free else g.add_vertex(a)
        V.append(u)
        sy[u] = a
        tr[u] = {}
        fin[u] = ctx.bool(f"f{u}")
        g.set_final(u, fin[u])

    def add(q, r):
        clash = Or([Eq(sy[r], sy[x]) for x in tr[q]] or [False])
        ctx.cover("refused", clash)
        e, ok = N.add_edge(q, r, g) if free else g.add_edge(q, r)
        ctx.check(Iff(ok, Not(clash)), "add_edge(q, r) succeeds iff q has no successor carrying r's symbol")
        if ok:
            ctx.check(g.source(e) == q and g.target(e) == r, "add_edge describes the transition")
            ctx.check(Eq(g.label(e), sy[r]), "a transition is labelled by the symbol of its target")
            tr[q][r] = e
        else:
            ctx.check(e is None, "a refused add_edge returns None")

    def look(ctx):
        o = ctx.choice("obs", ["vertices", "symbol", "out_edges", "edges", "delta", "edge", "sigma", "finals"] + (["in_edges"] if inc else []))
        ctx.cover("obs:" + o)
        if o == "vertices":
            ctx.check(sorted(g.vertices()) == sorted(V), "vertices()")
        elif o == "finals":
            got = A.finals(g) if free else g.finals()
            for q in V:
                ctx.check(Iff(q in got, fin[q]), "finals()")
                if ctor:
                    ctx.check(Iff(m_fin[q], fin[q]), "the property map passed by the caller holds the final states")
                    ctx.check(Eq(m_sy[q], sy[q]), "the property map passed by the caller holds the symbols")
            ctx.check(set(got) <= set(V), "finals() are states")
        elif o == "edges":
            es = list(G.edges(g) if free else g.edges())
            ctx.check(sorted((e.source, e.target) for e in es) == sorted((q, r) for q in V for r in tr[q]), "edges()")
            ctx.check(And([Eq(g.label(e), sy[e.target]) for e in es] or [True]), "labels of edges()")
            ctx.check(g.num_edges() == sum(len(tr[q]) for q in V), "num_edges()")
        elif V:
            q = ctx.choice("oq", V)
            if o == "symbol":
                ctx.check(Eq(N.symbol(q, g) if free else g.symbol(q), sy[q]), "symbol(q)")
            elif o == "out_edges":
                es = list(G.out_edges(q, g) if free else g.out_edges(q))
                ctx.check(sorted((e.source, e.target) for e in es) == sorted((q, r) for r in tr[q]), "out_edges(q)")
                ctx.check(g.out_degree(q) == len(tr[q]), "out_degree(q)")
            elif o == "in_edges":
                es = list(G.in_edges(q, g) if free else g.in_edges(q))
                ctx.check(sorted((e.source, e.target) for e in es) == sorted((p, q) for p in V if q in tr[p]), "in_edges(q)")
                ctx.check(g.in_degree(q) == len(es), "in_degree(q)")
            elif o == "delta":
                b = ctx.sym("y", letters)
                r = A.delta(q, b, g) if free else g.delta(q, b)
                m = Or([Eq(b, sy[x]) for x in tr[q]] or [False])
                ctx.check(Iff(r is not None, m), "delta(q, a) is defined iff q has a successor carrying a")
                if r is not None:
                    ctx.check(And(r in tr[q], Eq(sy[r], b)), "delta(q, a) is that successor")
            elif o == "edge":
                r = ctx.choice("or", V)
                e, found = N.edge(q, r, g) if free else g.edge(q, r)
                ctx.check(found == (r in tr[q]), "edge(q, r)")
                if found:
                    ctx.check((g.source(e), g.target(e)) == (q, r), "edge(q, r) descriptor")
            elif o == "sigma":
                set_is(ctx, A.sigma(q, g) if free else g.sigma(q), [sy[r] for r in tr[q]], "sigma(q)")

    for q in list(V)[:src]:
        for r in list(V):
            if ctx.choice(f"e{q}_{r}", [False, True]):
                add(q, r)
    if twice:
        ctx = Again(ctx)
        look(ctx)
    for i in range(ops):
        kind = ctx.choice(f"op{i}", ["none", "add_edge", "remove_edge", "remove_vertex", "add_vertex", "clear"])
        ctx.cover(kind)
        if kind == "clear":
            g.clear()
            V, sy, fin, tr, gone = [], {}, {}, {}, set()
            kind = "add_vertex"
        if kind == "add_edge":
            add(ctx.choice(f"q{i}", V), ctx.choice(f"r{i}", V)) if V else None
        elif kind == "remove_edge":
            q = ctx.choice(f"q{i}", V) if V else None
            if q is None or not tr[q]:
                continue
            r = ctx.choice(f"r{i}", sorted(tr[q]))
            G.remove_edge(tr[q][r], g) if free else g.remove_edge(tr[q][r])
            ctx.cover("removed")
            del tr[q][r]
        elif kind == "remove_vertex":
            if not V:
                continue
            u = ctx.choice(f"u{i}", V)
            G.remove_vertex(u, g) if free else g.remove_vertex(u)
            V.remove(u)
            gone.add(u)
            del tr[u]
            for q in V:
                tr[q].pop(u, None)
        elif kind == "add_vertex":
            a = ctx.sym(f"ns{i}", letters)
            u = N.add_vertex(a, g) if free else g.add_vertex(a)
            ctx.check(u not in V and u not in gone, "add_vertex returns a fresh state")
            V.append(u)
            sy[u] = a
            tr[u] = {}
            fin[u] = False
    look(ctx)


# --------------------------------------------------------------- DFA runs
@job("C07",
     quick=[dict(n=2, m=2, L=2), dict(n=3, m=1, L=3), dict(n=3, m=2, L=1), dict(n=2, m=2, L=2, letters=["", 0]), dict(n=2, m=1, L=2, twice=True)],
     thorough=[dict(n=2, m=2, L=2, twice=True), dict(n=3, m=2, L=2), dict(n=2, m=2, L=4), dict(n=4, m=1, L=4)],
     covers=["accepted", "rejected", "stuck"])
def dfa_runs(ctx, n, m, L, free=False, letters=None, twice=False):
    """delta_word / accepts / delta_best_effort on an arbitrary DFA (n states,
    up to m transitions per state, unbounded letters) and an arbitrary word of
    length <= L, from an arbitrary state (twice: and then again, after one
    arbitrary modification of the DFA)."""
    from pybgl import automaton as A
    g = A.Automaton(n)
    M = build(ctx, g, n, m, letters=letters)
    q0 = ctx.choice("q0", range(n))
    g.set_initial(q0)
    M.q0 = q0
    if twice:
        ctx = Again(ctx)
        look_at_runs(ctx, g, M, L, letters)
        a_op(ctx, 9, g, M, False, ["add_edge", "remove_edge", "remove_vertex", "set_final", "set_initial"])
        if M.q0 not in M.V:
            return
    look_at_runs(ctx, g, M, L, letters)


@job("C07", quick=[dict(shape=x, L=9, free=3) for x in BIG], thorough=[dict(shape=x, L=14, free=5) for x in BIG], covers=["accepted", "rejected", "stuck"])
def long_runs(ctx, shape, L, free):
    """Long words (all letters are the same but for `free` consecutive ones,
    anywhere) over the automata of 7 or 8 states, the final states of which are
    arbitrary, from any state, some transitions being missing."""
    from pybgl.automaton import Automaton
    n, trs = BIG[shape]
    g = Automaton(n)
    M = AModel(n)
    for i, (q, a, r) in enumerate(trs):
        if i % 4 == 3 and ctx.choice(f"no{i}", [False, True]):
            continue
        e, ok = g.add_edge(q, r, a)
        M.tr[q].append([e, a, r])
    for q in range(n):
        M.fin[q] = ctx.bool(f"f{q}")
        g.set_final(q, M.fin[q])
    M.q0 = ctx.choice("q0", [0, 2, n - 1])
    g.set_initial(M.q0)
    b = ctx.choice("b", ["a", "b"])
    look_at_runs(ctx, g, M, L, None, long_word(ctx, "w", L, free, ["a", "b", "c"], b))


def look_at_runs(ctx, g, M, L, letters, w=None):
    from pybgl import automaton as A
    q0, V = M.q0, list(M.V)
    if w is None:
        w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=letters)
    # the run, as formulas: S[i][q] = "after i letters the run is in q"
    S = [{q: q == q0 for q in V}]
    for a in w:
        S.append({r: Or([And(S[-1][q], Eq(a, t[1]), Eq(t[2], r)) for q in V for t in M.tr[q]] or [False])
                  for r in V})
    alive = [Or([s[q] for q in V]) for s in S]
    kind = ctx.choice("kind", ["accepts", "delta_word", "best_effort", "method"])
    acc = Or([And(S[-1][q], M.fin[q]) for q in V])
    ctx.cover("accepted", And(acc, len(w) > 0))
    ctx.cover("rejected", And(alive[-1], Not(acc)))
    ctx.cover("stuck", Not(alive[-1]))
    if kind == "accepts":
        ctx.check(Iff(A.accepts(w, g), acc), "accepts(w) iff the run over w ends in a final state")
    elif kind == "method":
        ctx.check(Iff(g.accepts(w), acc), "accepts(w) iff the run over w ends in a final state")
    elif kind == "delta_word":
        r = A.delta_word(q0, w, g)
        ctx.check(Iff(r is None, Not(alive[-1])), "delta_word is undefined iff the run gets stuck")
        if r is not None:
            ctx.check(And([Implies(S[-1][q], Eq(r, q)) for q in V]), "delta_word returns the reached state")
    else:
        r, i = A.delta_best_effort(g, w)
        ctx.check(0 <= i <= len(w), "delta_best_effort consumes a prefix")
        ctx.check(alive[i], "the consumed prefix can be run")
        if i < len(w):
            ctx.check(Not(alive[i + 1]), "delta_best_effort consumes the longest prefix")
        ctx.check(And([Implies(S[i][q], Eq(r, q)) for q in V]), "delta_best_effort returns the state reached")
        ctx.observe("best", (r, i))
