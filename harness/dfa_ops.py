"""C10-C15, C40: operations on deterministic automata.

The operands are arbitrary DFAs: every transition delta(q, a) and every final
flag is a symbolic cell, decided only when the real code looks at it.
"""
from .common import *

AB = ["a", "b"]


def dfa(ctx, n, k, tag, q0=0, **kw):
    return SymDfa(ctx, n, AB[:k], tag=tag, q0=q0, **kw)


def dfa_skel(ctx, name, tag, **kw):
    return SymDfa(ctx, None, AB, tag=tag, skel=SKELETON_DFAS[name], **kw)


def pair(ctx, n1, n2, k, q0s=False):
    a = ctx.choice("q01", [0, n1 - 1] if q0s and n1 > 1 else [0])
    b = ctx.choice("q02", [0, n2 - 1] if q0s and n2 > 1 else [0])
    return dfa(ctx, n1, k, "d", a), dfa(ctx, n2, k, "e", b)


class NodeDfa(SymDfa):
    """An arbitrary NodeAutomaton behind the interface of SymDfa: the symbols
    of the states and the transitions are decided when it is built."""

    def __init__(self, ctx, n, alpha, tag, acyclic=False):
        from pybgl.node_automaton import NodeAutomaton
        self.ctx, self.n, self.alpha, self.q0 = ctx, n, list(alpha), 0
        self.g = NodeAutomaton(0)
        sy = [ctx.choice(f"{tag}s{q}", alpha) for q in range(n)]
        for q in range(n):
            self.g.add_vertex(sy[q])
        self.d = {(q, a): 0 for q in range(n) for a in alpha}
        for q in range(n):
            for r in range(q + 1 if acyclic else 0, n):
                if self.d[q, sy[r]] == 0 and ctx.choice(f"{tag}e{q}_{r}", [False, True]):
                    self.g.add_edge(q, r)
                    self.d[q, sy[r]] = r + 1
        self.f = {q: ctx.bool(f"{tag}f{q}") for q in range(n)}
        for q in range(n):
            self.g.set_final(q, self.f[q])


def operands(ctx, n1, n2, k, q0s, kind):
    """Automaton instances, or NodeAutomaton instances on either side"""
    if kind is None:
        return pair(ctx, n1, n2, k, q0s)
    if "," in kind:
        a, b = kind.split(",")
        return dfa_skel(ctx, a, "d"), dfa_skel(ctx, b, "e")
    one = {"N": lambda n, t: NodeDfa(ctx, n, AB[:k], t), "D": lambda n, t: NodeDfa(ctx, n, AB[:k], t, True),
           "A": lambda n, t: dfa(ctx, n, k, t, 0)}
    return one[kind[0]](n1, "d"), one[kind[1]](n2, "e")


def dd(D, q, a, r):
    return r is None if q is None else D.D(q, a, r)


def product_reach(D1, D2):
    """{(q1, q2): formula: some word leads the two runs there}, dead runs being
    None; (None, None) is left out."""
    P = [(p, q) for p in [*range(D1.n), None] for q in [*range(D2.n), None] if (p, q) != (None, None)]
    R = {p: p == (D1.q0, D2.q0) for p in P}
    T = {}
    for p in P:
        for r in P:
            T[p, r] = Or([And(dd(D1, p[0], a, r[0]), dd(D2, p[1], a, r[1])) for a in D1.alpha])
    for w in range(len(P)):
        S = {r: Or([R[r]] + [And(R[p], T[p, r]) for p in P if p != r]) for r in P}
        if all(S[p] is R[p] for p in P):
            break
        R = S
    return R


def fin(D, q):
    return False if q is None else D.F(q)


def check_language(ctx, g, alpha, L, spec, what):
    """`g` accepts a word of length <= L over alpha iff spec(word)."""
    qs, d, f, q0 = read_dfa(g, alpha)
    ctx.check(q0 in qs, "the initial state of the result is one of its states")
    n = ctx.choice("len", range(L + 1))
    w = ctx.word("w", n, alpha=alpha)
    want = spec(w)
    ctx.cover("accepted", And(n > 0, want))
    ctx.cover("rejected", Not(want))
    ctx.check(Iff(dfa_accepts(qs, d, f, q0, w), want), what)
    return qs, d, f, q0


@job("C10",
     quick=[dict(n1=2, n2=2, k=1, L=5, q0s=True), dict(n1=2, n2=1, k=2, L=3), dict(n1=1, n2=2, k=2, L=3), dict(n1=3, n2=2, k=1, L=6),
            dict(n1=2, n2=2, k=2, L=1),
            dict(n1=2, n2=2, k=2, L=3, kind="NA"), dict(n1=2, n2=2, k=2, L=3, kind="NN"), dict(n1=3, n2=3, k=2, L=3, kind="DD"),
            dict(L=8, kind="mod3,line5"), dict(L=8, kind="mod4,mod3")],
     thorough=[dict(n1=2, n2=2, k=2, L=5), dict(n1=3, n2=3, k=1, L=8, q0s=True), dict(n1=3, n2=1, k=2, L=4), dict(n1=1, n2=3, k=2, L=4)],
     covers=["accepted", "rejected"])
def union(ctx, n1=None, n2=None, k=2, L=None, q0s=False, kind=None):
    """deterministic_union of two arbitrary DFAs (n1 and n2 states, k letters):
    the result accepts exactly the words (length <= L) one of them accepts."""
    from pybgl.deterministic_union import deterministic_union
    from pybgl.automaton import Automaton
    D1, D2 = operands(ctx, n1, n2, k, q0s, kind)
    g12 = Automaton()
    g = deterministic_union(D1.g, D2.g, g12)
    ctx.check(g is g12, "the automaton passed by the caller is the result")
    check_language(ctx, g, D1.alpha, L, lambda w: Or(D1.accepts(w), D2.accepts(w)), "union: w in L12 iff w in L1 or w in L2")


@job("C11",
     quick=[dict(n1=2, n2=2, k=1, L=5, q0s=True), dict(n1=2, n2=1, k=2, L=3), dict(n1=1, n2=2, k=2, L=3), dict(n1=3, n2=2, k=1, L=6),
            dict(n1=2, n2=2, k=2, L=2),
            dict(n1=2, n2=2, k=2, L=3, kind="NA"), dict(n1=2, n2=2, k=2, L=3, kind="NN"), dict(n1=3, n2=3, k=2, L=3, kind="DD"),
            dict(L=8, kind="mod3,line5"), dict(L=8, kind="mod4,mod3")],
     thorough=[dict(n1=2, n2=2, k=2, L=5, q0s=True), dict(n1=3, n2=3, k=1, L=8, q0s=True), dict(n1=3, n2=1, k=2, L=4), dict(n1=1, n2=3, k=2, L=4),
               dict(n1=3, n2=2, k=2, L=3)],
     covers=["accepted", "rejected"])
def intersection(ctx, n1=None, n2=None, k=2, L=None, q0s=False, kind=None):
    """deterministic_intersection of two arbitrary DFAs: the result accepts
    exactly the words (length <= L) both accept."""
    from pybgl.deterministic_intersection import deterministic_intersection
    D1, D2 = operands(ctx, n1, n2, k, q0s, kind)
    g = deterministic_intersection(D1.g, D2.g)
    check_language(ctx, g, D1.alpha, L, lambda w: And(D1.accepts(w), D2.accepts(w)), "intersection: w in L12 iff w in L1 and w in L2")


@job("C12",
     quick=[dict(n1=2, n2=2, k=1, q0s=True), dict(n1=2, n2=1, k=2), dict(n1=1, n2=2, k=2), dict(n1=3, n2=2, k=1), dict(n1=2, n2=2, k=2),
            dict(n1=2, n2=2, k=2, kind="NA"), dict(n1=2, n2=2, k=2, kind="AN"), dict(n1=2, n2=2, k=2, kind="NN"), dict(n1=3, n2=3, k=2, kind="DD"),
            dict(kind="mod3,line5"), dict(kind="mod4,mod3")],
     thorough=[dict(n1=3, n2=3, k=1, q0s=True), dict(n1=3, n2=1, k=2), dict(n1=1, n2=3, k=2)],
     covers=["equal", "less", "greater", "incomparable"])
def inclusion(ctx, n1=None, n2=None, k=2, q0s=False, kind=None):
    """deterministic_inclusion of two arbitrary DFAs, against the language
    inclusion (words of every length, by reachability in the product)."""
    from pybgl.deterministic_inclusion import deterministic_inclusion
    D1, D2 = operands(ctx, n1, n2, k, q0s, kind)
    r = deterministic_inclusion(D1.g, D2.g)
    R = product_reach(D1, D2)
    x = Or([And(R[p], fin(D1, p[0]), Not(fin(D2, p[1]))) for p in R])      # L1 - L2 is not empty
    y = Or([And(R[p], fin(D2, p[1]), Not(fin(D1, p[0]))) for p in R])
    ctx.cover("equal", r == 0)
    ctx.cover("less", r == 1)
    ctx.cover("greater", r == -1)
    ctx.cover("incomparable", r is None)
    ctx.check(r in (0, 1, -1, None), "the result is 0, 1, -1 or None")
    ctx.check(Iff(r == 0, And(Not(x), Not(y))), "0 iff L1 = L2")
    ctx.check(Iff(r == 1, And(Not(x), y)), "1 iff L1 is a proper subset of L2")
    ctx.check(Iff(r == -1, And(x, Not(y))), "-1 iff L2 is a proper subset of L1")
    ctx.check(Iff(r is None, And(x, y)), "None iff neither language includes the other")


# ------------------------------------------------------------- minimisation
def reads(g, alpha):
    """-> states, {(q, a): r}, final?, initial: read with plain values"""
    qs, d, f, q0 = read_dfa(g, alpha)
    return qs, d, {q: bool(f[q]) for q in qs}, q0


def equivalent_pair(qs, d, f, alpha):
    """Two distinct states no word tells apart (by definedness or finality)."""
    cls = {q: f[q] for q in qs}
    while True:
        new = {q: (cls[q],) + tuple(None if (q, a) not in d else cls[d[q, a]] for a in alpha) for q in qs}
        ids = {}
        new = {q: ids.setdefault(new[q], len(ids)) for q in qs}
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    for i, p in enumerate(qs):
        for q in qs[:i]:
            if new[p] == new[q]:
                return p, q
    return None


def reachable(qs, d, q0):
    seen, todo = {q0}, [q0]
    while todo:
        q = todo.pop()
        for (p, a), r in d.items():
            if p == q and r not in seen:
                seen.add(r)
                todo.append(r)
    return seen


def permuted_initial(ctx, n):
    return ctx.choice("q0", sorted({0, n - 1}))


@job("C13",
     quick=[dict(n=3, k=1, L=5), dict(n=2, k=2, L=3), dict(n=3, k=2, L=0, complete=True), dict(n=4, k=1, L=0),
            dict(skel="ring", L=8), dict(skel="complete", L=6), dict(skel="tree", L=5), dict(skel="chain", L=7)],
     thorough=[dict(n=3, k=2, L=4), dict(n=4, k=1, L=6), dict(n=5, k=1, L=0, complete=True), dict(n=4, k=2, L=0, complete=True, q0=False),
               dict(n=2, k=3, L=2)],
     covers=["accepted", "rejected", "smaller", "same size"])
def hopcroft(ctx, n=None, k=2, L=0, complete=False, q0=True, skel=None):
    """hopcroft_minimize on an arbitrary DFA (complete or not): same language
    (words of length <= L), no two equivalent states left, no state added,
    states all reachable if they were."""
    from pybgl.hopcroft_minimize import hopcroft_minimize
    from pybgl.incidence_automaton import IncidenceAutomaton
    q0 = permuted_initial(ctx, n) if q0 and not skel else 0
    D = dfa_skel(ctx, skel, "d", cls=IncidenceAutomaton) if skel else \
        SymDfa(ctx, n, (AB + ["c"])[:k], cls=IncidenceAutomaton, q0=q0, complete=complete)
    n = D.n
    g = hopcroft_minimize(D.g)
    L = L or n
    check_language(ctx, g, D.alpha, L, D.accepts, "the minimized automaton accepts the same words")
    qs, d, f, i = reads(g, D.alpha)
    p = equivalent_pair(qs, d, f, D.alpha)
    ctx.check(p is None, f"the minimized automaton has no two equivalent states")
    ctx.check(len(qs) <= n, "the minimized automaton is not larger")
    ctx.cover("smaller", len(qs) < n)
    ctx.cover("same size", len(qs) == n)
    if len(reachable(qs, d, i)) < len(qs):
        R = D.reach()[q0]
        ctx.check(Not(And([R[q] for q in range(n)])), "reachable states stay reachable")


ACYCLIC = {
    "trie": (9, {(0, "a"): [1], (0, "b"): [2], (1, "a"): [3], (1, "b"): [4, None], (2, "a"): [5, 3], (2, "b"): [4, 6], (3, "a"): [7], (4, "a"): [8, 7], (5, "a"): [7, 8, None], (5, "b"): [6], (6, "b"): [8, None], (7, "b"): [8]},
             {0: False, 1: None, 2: None, 3: False, 4: None, 5: None, 6: None, 7: True, 8: None}),
    "ladder": (8, {(0, "a"): [1], (0, "b"): [2], (1, "a"): [3], (1, "b"): [4, None], (2, "a"): [3, 4], (2, "b"): [4, None], (3, "a"): [5], (3, "b"): [6], (4, "a"): [5, 6], (4, "b"): [6, None, 5], (5, "a"): [7], (6, "a"): [7, None], (6, "b"): [7, None]},
               {0: False, 1: False, 2: None, 3: False, 4: False, 5: None, 6: None, 7: True}),
}


@job("C14",
     quick=[dict(n=4, k=2, L=3), dict(n=4, k=2, L=3, rev=True), dict(n=5, k=1, L=4),
            dict(n=5, k=2, L=3, layers=[0, 1, 1, 2, 2]),
            dict(n=4, k=2, L=3, given=True, layers=[0, 1, 1, 2]), dict(n=4, k=1, L=3, given=True),
            dict(n=9, k=2, L=4, skel="trie"), dict(n=8, k=2, L=6, skel="ladder")],
     thorough=[dict(n=6, k=2, L=4, layers=[0, 1, 1, 2, 2, 3]), dict(n=5, k=2, L=4), dict(n=4, k=3, L=3), dict(n=5, k=2, L=4, rev=True)],
     covers=["accepted", "rejected", "smaller", "same size"])
def revuz(ctx, n, k, L, rev=False, layers=None, given=False, skel=None):
    """revuz_minimize on an arbitrary acyclic IncidenceAutomaton whose states
    are all reachable (layers: whose transitions go from a layer to the next
    one; skel: of 8 or 9 states, part of which is fixed): same language (words of every possible length), no two
    equivalent states left, returns the height.  given: with the labels, the
    leaves and a visitor passed by the caller, and labelled states (two states
    carrying different labels are not equivalent)."""
    from pybgl.revuz_minimize import revuz_minimize, revuz_height, DefaultRevuzMinimizeVisitor
    from pybgl.property_map import make_func_property_map, make_assoc_property_map
    from collections import defaultdict
    from pybgl.incidence_automaton import IncidenceAutomaton
    q0 = n - 1 if rev else 0
    D = SymDfa(ctx, n, (AB + ["c"])[:k], cls=IncidenceAutomaton, q0=q0, lazy=False, skel=ACYCLIC.get(skel),
               targets=lambda q: [r for r in range(n) if layers[r] == layers[q] + 1] if layers else range(q) if rev else range(q + 1, n))
    order = list(range(n))[::-1] if rev else list(range(n))
    par = {}
    tr = [(q, a, D.target(q, a)) for q in order for a in D.alpha if D.target(q, a) is not None]
    ctx.assume(reachable(order, {(q, a): r for q, a, r in tr}, q0) == set(order))
    height = {}
    for q in reversed(order):
        height[q] = max([0] + [1 + height[r] for p, a, r in tr if p == q])
    vl = {q: 0 for q in order}
    if given:
        kw = {}
        leaves = {q for q in order if height[q] == 0}
        forms = ctx.choice("given", ["vlabel", "elabel", "leaves", "visitor", "all"])
        if forms in ("vlabel", "all"):
            vl = {q: ctx.choice(f"vl{q}", [0, 1]) for q in order}
            kw["pmap_vlabel"] = make_func_property_map(lambda q: vl[q])
        if forms in ("elabel", "all"):
            kw["pmap_elabel"] = make_func_property_map(lambda e: e.distinguisher)
        if forms in ("leaves", "all"):
            kw["leaves"] = set(leaves)
        log = []
        back = {q: q for q in order}       # the state that stands for q

        class V(DefaultRevuzMinimizeVisitor):
            def merging_states(self, q1, q2, g):
                ctx.check(g is D.g and q1 != q2 and {q1, q2} <= set(g.vertices()), "merging_states: two states of the automaton")
                log.append(("merging", q1, q2))
                back.update({q: q1 for q in back if back[q] == q2})

            def move_transition(self, e_old, e_new, g):
                q1, q2 = log[-1][1:]
                ctx.check(log[-1][0] == "merging", "move_transition between merging_states and remove_vertex")
                ctx.check((e_old.source, e_old.target, e_old.distinguisher) == (e_new.source, q2, e_new.distinguisher) and
                          e_new.target == q1, "the transition is moved from q2 to q1")
                ctx.check(g.delta(e_new.source, e_new.distinguisher) == q1, "the transition has been moved")

            def remove_vertex(self, u, g):
                ctx.check(log[-1][0] == "merging" and log[-1][2] == u and u in set(g.vertices()), "remove_vertex comes just before the removal of q2")
                ctx.check(not list(g.in_edges(u)), "every transition into q2 has been moved")
                log.append(("remove", *log[-1][1:]))

            def states_merged(self, q1, q2, g):
                ctx.check(log[-1] == ("remove", q1, q2) and q2 not in set(g.vertices()), "states_merged comes after the removal of q2")
                log.append(("merged", q1, q2))

        if forms in ("visitor", "all"):
            kw["vis"] = V()
        mh = defaultdict(int)
        pre = "auto" if forms in ("vlabel", "visitor") else "leaves"
        hh = revuz_height(D.g, make_assoc_property_map(mh)) if pre == "auto" else \
            revuz_height(D.g, make_assoc_property_map(mh), set(leaves))
        ctx.check(hh == height[q0] and dict(mh) == height, "revuz_height computes the height of every state")
        h = revuz_minimize(D.g, **kw)
        if "vis" in kw:
            ctx.check([x[0] for x in log] == ["merging", "remove", "merged"] * (n - len(list(D.g.vertices()))), "the visitor is told about every merge")
            ctx.check(set(back.values()) == set(D.g.vertices()), "the states left are those nothing was merged into another")
            for q in order:
                ctx.check(Iff(D.F(q), D.F(back[q])), "merged states agree on finality")
                ctx.check(vl[q] == vl[back[q]], "merged states carry the same label")
                ctx.check({(a, back[r]) for p, a, r in tr if p == q} == {(a, back[r]) for p, a, r in tr if p == back[q]},
                          "merged states have the same transitions, up to merges")
    else:
        h = revuz_minimize(D.g)
    ctx.check(h == height[q0], "revuz_minimize returns the height of the automaton")
    check_language(ctx, D.g, D.alpha, L, D.accepts, "the minimized automaton accepts the same words")
    qs, d, f, i = reads(D.g, D.alpha)
    ctx.check(equivalent_pair(qs, d, {q: (f[q], vl[q]) for q in qs}, D.alpha) is None, "the minimized automaton has no two equivalent states")
    ctx.check(reachable(qs, d, i) == set(qs), "reachable states stay reachable")
    ctx.check(len(qs) <= n, "the minimized automaton is not larger")
    ins = sorted((e.source, e.target, e.distinguisher) for q in D.g.vertices() for e in D.g.in_edges(q))
    ctx.check(ins == sorted((q, r, a) for (q, a), r in d.items()), "in_edges still mirror the transitions")
    ctx.cover("smaller", len(qs) < n)
    ctx.cover("same size", len(qs) == n)


@job("C14",
     quick=[dict(n=3), dict(n=4)],
     thorough=[dict(n=4), dict(n=5, maxdeg=2)],
     covers=["smaller", "same size"])
def revuz_node(ctx, n, maxdeg=None):
    """revuz_minimize on an arbitrary acyclic IncidenceNodeAutomaton (unbounded
    symbols on the states), all states reachable from the initial one."""
    from pybgl.revuz_minimize import revuz_minimize
    from pybgl.incidence_node_automaton import IncidenceNodeAutomaton
    g = IncidenceNodeAutomaton(0)
    sy, f, E = {}, {}, {}
    for q in range(n):
        sy[q] = ctx.sym(f"s{q}")
        ctx.check(g.add_vertex(sy[q]) == q, "fresh automaton: states are numbered from 0")
    g.set_initial(0)
    tr = []
    for q in range(n):
        for r in range(q + 1, n):
            if maxdeg is not None and sum(1 for p, x in tr if p == q) >= maxdeg:
                continue
            if ctx.choice(f"e{q}_{r}", [False, True]):
                for p, x in tr:
                    if p == q:
                        ctx.assume(Not(Eq(sy[x], sy[r])))
                g.add_edge(q, r)
                tr.append((q, r))
    ctx.assume(reachable(list(range(n)), {(q, r): r for q, r in tr}, 0) == set(range(n)))
    for q in range(n):
        f[q] = ctx.bool(f"f{q}")
        g.set_final(q, f[q])
    revuz_minimize(g)
    # spec: right language of (symbol, finality) trees
    def equiv(p, q):
        cp, cq = [r for x, r in tr if x == p], [r for x, r in tr if x == q]
        if len(cp) != len(cq):
            return False
        return And([Eq(sy[p], sy[q]), Iff(f[p], f[q])] +
                   [Or([equiv(a, b) for b in cq] or [False]) for a in cp])
    left = sorted(g.vertices())
    ctx.check(0 in left and g.is_initial(0), "the initial state is kept")
    for i, p in enumerate(left):
        for q in left[:i]:
            ctx.check(Not(equiv(p, q)), "no two equivalent states are left")
    # the kept automaton is a quotient of the original
    for q in range(n):
        ctx.check(Or([equiv(q, p) for p in left]), "every state is represented by an equivalent one")
    es = sorted((e.source, e.target) for e in g.edges())
    for p in left:
        succ = [r for q, r in es if q == p]
        old = [r for q, r in tr if q == p]
        ctx.check(len(succ) == len(old), "a kept state keeps as many transitions")
        for r in old:
            ctx.check(Or([equiv(r, x) for x in succ] or [False]), "a transition leads to the representative of its target")
        ctx.check(Iff(g.is_final(p), f[p]), "finality is kept")
        ctx.check(Eq(g.symbol(p), sy[p]), "symbols are kept")
    ctx.check(sorted((e.source, e.target) for q in left for e in g.in_edges(q)) == es, "in_edges still mirror the transitions")
    ctx.cover("smaller", len(left) < n)
    ctx.cover("same size", len(left) == n)


@job("C15",
     quick=[dict(n=3, k=1, L=5), dict(n=4, k=1, L=5), dict(n=2, k=2, L=3),
            dict(skel="chain", L=6), dict(skel="tree", L=4)],
     thorough=[dict(n=3, k=2, L=4), dict(n=5, k=1, L=5), dict(n=2, k=3, L=3)],
     covers=["pruned", "kept all", "empty language"])
def prune(ctx, n=None, k=2, L=None, skel=None):
    """prune_incidence_automaton on an arbitrary DFA: the states left are those
    reachable from the initial state that can reach a final state; their
    transitions, the orientation of the graph and the language are unchanged."""
    from pybgl.prune_incidence_automaton import prune_incidence_automaton
    from pybgl.incidence_automaton import IncidenceAutomaton
    q0 = 0 if skel else permuted_initial(ctx, n)
    D = dfa_skel(ctx, skel, "d", cls=IncidenceAutomaton) if skel else SymDfa(ctx, n, (AB + ["c"])[:k], cls=IncidenceAutomaton, q0=q0)
    n = D.n
    R = D.reach()
    prune_incidence_automaton(D.g)
    g = D.g
    left = list(g.vertices())
    useful = {q: And(R[q0][q], Or([And(R[q][f], D.F(f)) for f in range(n)])) for q in range(n)}
    ctx.check(set(left) <= set(range(n)), "no state is added")
    for q in range(n):
        ctx.check(Iff(q in left, useful[q]), "a state is kept iff it is reachable and can reach a final state")
    for q in left:
        for a in D.alpha:
            r = g.delta(q, a)
            ctx.check(r is None or r in left, "no dangling transition")
            for p in left:
                ctx.check(Iff(r == p, D.D(q, a, p)), "the transitions between kept states are unchanged")
        ctx.check(Iff(g.is_final(q), D.F(q)), "final states are unchanged")
        ctx.check(sorted((e.source, e.target, e.distinguisher) for e in g.in_edges(q)) ==
                  sorted((g.source(e), g.target(e), g.label(e)) for e in g.edges() if g.target(e) == q), "in_edges mirror the transitions")
        ctx.check(sorted((g.source(e), g.label(e)) for e in g.out_edges(q)) == sorted((q, a) for a in D.alpha if g.delta(q, a) is not None),
                  "the orientation of the transitions is restored")
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=D.alpha)
    if ctx.symbolic:
        from pybgl.automaton import BOTTOM
    ctx.cover("pruned", 0 < len(left) < n)
    ctx.cover("kept all", len(left) == n)
    ctx.cover("empty language", len(left) == 0)
    if left:
        ctx.check(g.initial() == q0, "the initial state is unchanged")
        qs, d, f, i = read_dfa(g, D.alpha)
        ctx.check(Iff(dfa_accepts(qs, d, f, i, w), D.accepts(w)), "the language is unchanged")
    else:
        ctx.check(Not(D.accepts(w)), "only an automaton accepting nothing becomes empty")


# ------------------------------------------------------------- parallel BFS
@job("C40",
     quick=[dict(skel=("mod4", "mod3")), dict(skel=("line5", "mod4")), dict(n1=2, n2=2, k=2), dict(n1=3, n2=2, k=1, push=True), dict(n1=3, n2=3, k=1), dict(n1=3, n2=1, k=2, push=True), dict(n1=1, n2=2, k=2, push=True)],
     thorough=[dict(n1=3, n2=2, k=2), dict(n1=2, n2=3, k=2, push=True), dict(n1=4, n2=3, k=1)],
     covers=["gray", "black", "one side dead"])
def parallel_bfs(ctx, n1=None, n2=None, k=2, push=False, skel=None):
    """parallel_breadth_first_search over two arbitrary DFAs with an arbitrary
    if_push predicate: visitor protocol, pairs visited, colours."""
    from pybgl.parallel_breadth_first_search import parallel_breadth_first_search, ParallelBreadthFirstSearchVisitor
    from pybgl.property_map import make_assoc_property_map
    from pybgl.graph_traversal import WHITE, GRAY, BLACK
    from collections import defaultdict
    if skel:
        D1, D2 = dfa_skel(ctx, skel[0], "d"), dfa_skel(ctx, skel[1], "e")
    else:
        D1, D2 = dfa(ctx, n1, k, "d", sym_final=False), dfa(ctx, n2, k, "e", sym_final=False)
    n1, n2 = D1.n, D2.n
    g1, g2 = D1.g, D2.g
    color = defaultdict(int)
    st = dict(open=None, sym=None, edge=None)
    events = []
    started, discovered, examined, finished = [], [], [], []
    refused = set()
    letters = {}

    def ok(c, m):
        ctx.check(c, m)

    def graphs(a, b):
        ok(a is g1 and b is g2, "the visitor receives the two automata in order")

    class V(ParallelBreadthFirstSearchVisitor):
        def start_vertex(self, s1, a, s2, b):
            graphs(a, b)
            started.append((s1, s2))

        def examine_vertex(self, q1, a, q2, b):
            graphs(a, b)
            ok(st["open"] is None, "examine_vertex only between two vertices")
            ok((q1, q2) not in examined, "a pair is examined once")
            # first in, first out
            queue = [p for p in started + discovered if p not in refused]
            ok(queue[len(examined)] == (q1, q2), "pairs are examined in order of discovery")
            examined.append((q1, q2))
            st["open"] = (q1, q2)
            letters[q1, q2] = []

        def examine_symbol(self, q1, a, q2, b, x):
            graphs(a, b)
            ok(st["open"] == (q1, q2), "examine_symbol concerns the current pair")
            ok(x not in letters[q1, q2], "a symbol is examined once per pair")
            letters[q1, q2].append(x)
            st["sym"] = x

        def _edge(self, e1, a, e2, b, x):
            graphs(a, b)
            q1, q2 = st["open"]
            ok(x == st["sym"], "the edges carry the current symbol")
            if q1 is None:
                ok(e1 is None, "no transition from a dead run")
            else:
                ok(And(e1.source == q1, e1.distinguisher == x, dd(D1, q1, x, e1.target)), "e1 is the transition of g1")
            if q2 is None:
                ok(e2 is None, "no transition from a dead run")
            else:
                ok(And(e2.source == q2, e2.distinguisher == x, dd(D2, q2, x, e2.target)), "e2 is the transition of g2")
            return (None if e1 is None else e1.target, None if e2 is None else e2.target)

        def examine_edge(self, e1, a, e2, b, x):
            ok(st["edge"] is None or st["kind"] is not None, "every examined transition is classified")
            st["edge"] = self._edge(e1, a, e2, b, x)
            st["kind"] = None

        def _kind(self, kind, e1, a, e2, b, x):
            r = self._edge(e1, a, e2, b, x)
            ok(r == st["edge"], "the classified transition is the examined one")
            ok(st["kind"] is None, "a transition is classified once")
            st["kind"] = kind
            return r

        def tree_edge(self, e1, a, e2, b, x):
            r = self._kind("tree", e1, a, e2, b, x)
            ok(r not in discovered and r not in started, "tree_edge leads to a new pair")

        def discover_vertex(self, q1, a, q2, b):
            graphs(a, b)
            ok((q1, q2) == st["edge"] and st["kind"] == "tree", "discover_vertex follows tree_edge")
            ok((q1, q2) not in discovered and (q1, q2) not in started, "a pair is discovered once")
            discovered.append((q1, q2))

        def gray_target(self, e1, a, e2, b, x):
            r = self._kind("gray", e1, a, e2, b, x)
            ctx.cover("gray")
            ok(r in discovered + started and r not in finished, "gray_target: discovered and not finished")

        def black_target(self, e1, a, e2, b, x):
            r = self._kind("black", e1, a, e2, b, x)
            ctx.cover("black")
            ok(r in finished, "black_target: finished")

        def finish_vertex(self, q1, a, q2, b):
            graphs(a, b)
            ok(st["open"] == (q1, q2), "finish_vertex closes the current pair")
            ok(st["edge"] is None or st["kind"] is not None, "every examined transition is classified")
            st["edge"] = None
            finished.append((q1, q2))
            st["open"] = None

    P = {}
    if push:
        for p in [*range(n1), None]:
            for q in [*range(n2), None]:
                P[p, q] = ctx.bool(f"p{p}{q}")

    def if_push(e1, a, e2, b):
        graphs(a, b)
        r = (None if e1 is None else e1.target, None if e2 is None else e2.target)
        if P[r]:
            return True
        refused.add(r)
        return False

    prior = ctx.choice("prior", ["colors", "default", "no visitor"]) if n1 * n2 <= 3 or not push else "colors"
    if prior == "default":         # no colors given, after another search
        parallel_breadth_first_search(g2, g1)
        parallel_breadth_first_search(g1, g2)
        parallel_breadth_first_search(g1, g2, vis=V(), if_push=if_push if push else None)
    elif prior == "no visitor":
        parallel_breadth_first_search(g1, g2, pmap_vcolor=make_assoc_property_map(color), if_push=if_push if push else None)
        todo, seen = [(0, 0)], {(0, 0)}
        while todo:
            p = todo.pop()
            ok(color[p] == BLACK, "without visitor, the pairs reached end black")
            for x in D1.alpha:
                r = (None if p[0] is None else D1.target(p[0], x), None if p[1] is None else D2.target(p[1], x))
                if r not in seen and r != (None, None):
                    seen.add(r)
                    if not push or P[r]:
                        todo.append(r)
        ok(seen == {p for p, c in color.items() if c != WHITE}, "without visitor, the pairs reached are the same")
        for c in ("gray", "black", "one side dead"):
            ctx.cover(c)
        return
    else:
        parallel_breadth_first_search(g1, g2, pmap_vcolor=make_assoc_property_map(color), vis=V(), if_push=if_push if push else None)
    ok(started == [(0, 0)], "start_vertex is called once, with the initial states")
    ok(st["open"] is None and examined == finished, "every examined pair is finished")
    ok(set(examined) == (set(started) | set(discovered)) - refused, "every discovered pair is examined unless if_push refuses it")
    for (q1, q2), xs in letters.items():
        for a in D1.alpha:
            ok(Iff(a in xs, Or(False if q1 is None else Not(D1.D(q1, a, None)), False if q2 is None else Not(D2.D(q2, a, None)))),
               "every symbol leaving the pair is examined")
        if None in (q1, q2):
            ctx.cover("one side dead")
    # exactly the pairs reachable through pushed pairs
    todo, seen = [(0, 0)], {(0, 0)}
    while todo:
        p = todo.pop()
        for x in letters.get(p, []):
            r = (None if p[0] is None else D1.target(p[0], x), None if p[1] is None else D2.target(p[1], x))
            if r not in seen:
                seen.add(r)
                if r not in refused:
                    todo.append(r)
    ok(seen == set(started) | set(discovered), "the pairs discovered are those reachable")
    for p in finished if prior == "colors" else ():
        ok(color[p] == BLACK, "finished pairs are black")
    for p in discovered if prior == "colors" else ():
        ok(p in finished or color[p] == GRAY, "discovered pairs are not white")
