"""C08 (Nfa store and runs), C09 (moore_determination), C16 (Thompson operators).

Letters are unbounded symbolic symbols, transition targets symbolic states;
the automata are built through the public API.
"""
from .common import *
from .automata_store import set_is


class NModel:
    """Abstract NFA: tr = [[descriptor, source, letter or None (epsilon), target]]"""

    def __init__(self, n):
        self.V = list(range(n))
        self.tr = []
        self.fin = {}
        self.init = {0}

    def clo(self, S):
        eps = [(q, r) for e, q, a, r in self.tr if a is None]
        for _ in self.V:
            T = dict(S)
            for q, r in eps:
                for v in self.V:
                    T[v] = Or(T[v], And(S[q], Eq(r, v)))
            if all(T[v] is S[v] for v in self.V):
                break
            S = T
        return S

    def post(self, S, a):
        return {v: Or([And(S[q], Eq(a, b), Eq(r, v)) for e, q, b, r in self.tr if b is not None] or [False]) for v in self.V}

    def run(self, w, S=None):
        S = self.clo({q: q in self.init for q in self.V} if S is None else S)
        for a in w:
            S = self.clo(self.post(S, a))
        return S

    def acc(self, w):
        S = self.run(w)
        return Or([And(S[q], self.fin[q]) for q in self.V] or [False])

    def triples(self):
        return [(q, a, r) for e, q, a, r in self.tr]


def same(x, y):
    if x[0] is not None and y[0] is not None and (x[1] is None) != (y[1] is None):
        return False
    return And(Eq(x[0], y[0]), True if x[1] is None else Eq(x[1], y[1]), Eq(x[2], y[2]))


def norm(g, es):
    return [(g.source(e), None if e.distinguisher[0] == g.epsilon else g.label(e), g.target(e)) for e in es]


def build_nfa(ctx, n, T, tag="", eps=True, exact=None, letters=None, tgt=None, final=True, g=None):
    from pybgl.nfa import Nfa
    g = Nfa(n) if g is None else g
    M = NModel(n)
    k = ctx.choice(f"{tag}T", range(T + 1)) if exact is None else exact
    q = 0
    for i in range(k):
        q = ctx.choice(f"{tag}s{i}", range(q, n))
        a = None
        if not eps or ctx.choice(f"{tag}k{i}", ["letter", "eps"]) == "letter":
            a = ctx.sym(f"{tag}a{i}", letters)
        r = ctx.int(f"{tag}t{i}", 0, n - 1)
        for x in M.tr:
            ctx.assume(Not(same((x[1], x[2], x[3]), (q, a, r))))
        e, ok = g.add_edge(q, r, g.epsilon if a is None else a)
        ctx.check(ok is True, "add_edge adds the transition")
        if e is None:
            continue
        M.tr.append([e, q, a, r])
    for q in range(n):
        if final:
            f = ctx.bool(f"{tag}f{q}")
            g.set_final(q, f)
        else:
            f = False
        M.fin[q] = f
    return g, M


# letters, one of which is the default symbol of epsilon
OWN = ["a", "\u03b5"]
NOPS = ["none", "add_edge", "remove_edge", "remove_vertex", "set_final", "set_initial", "set_initials", "add_vertex", "clear"]
NOBS = ["edges", "out_edges", "alphabet", "sigma", "delta", "delta_epsilon", "word", "finals", "initials"]


@job("C08",
     quick=[dict(n=2, T=2, ops=1, L=1), dict(n=2, T=1, ops=2, L=1), dict(n=3, T=2, ops=0, L=2), dict(n=2, T=3, ops=0, L=2),
            dict(n=2, T=1, ops=1, L=2, free=True), dict(n=3, T=3, ops=0, L=1, obs=["sigma", "delta", "delta_epsilon"]),
            dict(n=2, T=2, ops=1, L=1, ctor=True), dict(n=2, T=3, ops=1, L=1, ops_ok=["remove_edge"], obs=["edges", "delta", "alphabet", "sigma"]),
            dict(n=2, T=2, ops=1, L=1, twice=True)],
     thorough=[dict(n=3, T=2, ops=1, L=2), dict(n=2, T=3, ops=1, L=2), dict(n=2, T=2, ops=2, L=2), dict(n=3, T=3, ops=0, L=3),
               dict(n=2, T=2, ops=1, L=2, free=True)],
     covers=["obs:word", "obs:delta"])
def nfa_histories(ctx, n, T, ops, L, free=False, obs=None, ctor=False, ops_ok=NOPS, twice=False):
    """Nfa: arbitrary NFA (n states, up to T transitions, unbounded letters and
    epsilon), `ops` operations, any observer (twice: which also runs before the
    operations); words of length <= L."""
    from pybgl import nfa as N, automaton as A, graph as G
    letters = None
    if ctor:
        # another epsilon symbol: the default one is a letter like any other
        from pybgl.property_map import make_assoc_property_map
        from collections import defaultdict
        letters = ["a", "\u03b5", ""]
        g, M = build_nfa(ctx, n, T, letters=letters,
                         g=N.Nfa(n, {n - 1}, make_assoc_property_map(defaultdict(bool)), epsilon="E"))
        M.init = {n - 1}
        ctx.check(N.epsilon(g) == "E", "epsilon(nfa) is the symbol given to the constructor")
    else:
        g, M = build_nfa(ctx, n, T)

    def look(ctx):
        o = ctx.choice("obs", obs or NOBS)
        ctx.cover("obs:" + o)
        if o == "edges":
            es = list(g.edges())
            ctx.check(same_multiset(norm(g, es), M.triples(), same), "edges() are exactly the transitions")
            ctx.check(len(set(es)) == len(es), "edges() are distinct")
            ctx.check(g.num_edges() == len(M.tr), "num_edges()")
            ctx.check(sorted(g.vertices()) == sorted(M.V), "vertices()")
        elif o == "alphabet":
            set_is(ctx, A.alphabet(g) if free else g.alphabet(), [t[2] for t in M.tr if t[2] is not None], "alphabet()")
        elif o == "finals":
            got = list(g.finals())
            for q in M.V:
                ctx.check(Iff(q in got, M.fin[q]), "finals()")
                ctx.check(Iff(g.is_final(q), M.fin[q]), "is_final(q)")
            ctx.check(set(got) <= set(M.V), "finals() are states")
        elif o == "initials":
            got = list(N.initials(g))
            ctx.check(sorted(got) == sorted(M.init), "initials()")
            for q in M.V:
                ctx.check(g.is_initial(q) == (q in M.init), "is_initial(q)")
        elif o == "word":
            w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=letters)
            S = M.run(w)
            if ctx.choice("wk", ["accepts", "delta_word"]) == "accepts":
                r = A.accepts(w, g) if free else g.accepts(w)
                ctx.check(Iff(r, Or([And(S[q], M.fin[q]) for q in M.V] or [False])), "accepts(w) iff some run over w ends in a final state")
            else:
                R = N.delta_word(w, g) if free else g.delta_word(w)
                for q in M.V:
                    ctx.check(Iff(q in R, S[q]), "delta_word(w) is the set of states reachable over w")
        else:
            q = ctx.choice("oq", M.V)
            one = {v: v == q for v in M.V}
            if o == "out_edges":
                es = list(g.out_edges(q))
                ctx.check(same_multiset(norm(g, es), [t for t in M.triples() if t[0] == q], same), "out_edges(q)")
                ctx.check(len(set(es)) == len(es) == g.out_degree(q), "out_degree(q)")
            elif o == "sigma":
                C = M.clo(one)
                got = list(A.sigma(q, g) if free else g.sigma(q))
                ctx.check(Distinct(got), "sigma(q) has no duplicate")
                ctx.check(And([Or([And(C[t[1]], Eq(a, t[2])) for t in M.tr if t[2] is not None] or [False]) for a in got] or [True]),
                          "sigma(q): every symbol can be read from q")
                ctx.check(And([Implies(C[t[1]], Or([Eq(a, t[2]) for a in got] or [False])) for t in M.tr if t[2] is not None] or [True]),
                          "sigma(q): every symbol that can be read from q")
            elif o == "delta":
                a = ctx.sym("y", letters)
                R = A.delta(q, a, g) if free else g.delta(q, a)
                S = M.run([a], one)
                for v in M.V:
                    ctx.check(Iff(v in R, S[v]), "delta(q, a) = closure . a-step . closure")
            elif o == "delta_epsilon":
                T2 = {v for v in M.V if ctx.choice(f"de{v}", [False, True])}
                R = g.delta_epsilon(T2)
                C = M.clo({v: v in T2 for v in M.V})
                for v in M.V:
                    ctx.check(Iff(v in R, C[v]), "delta_epsilon(qs) is the epsilon-closure of qs")

    if twice:
        ctx = Again(ctx)
        look(ctx)
    gone = set()
    for i in range(ops):
        kind = ctx.choice(f"op{i}", ops_ok)
        if kind == "add_edge":
            q = ctx.choice(f"q{i}", M.V)
            r = ctx.choice(f"r{i}", M.V)
            a = ctx.sym(f"x{i}", letters) if ctx.choice(f"xk{i}", ["letter", "eps"]) == "letter" else None
            dup = Or([same((x[1], x[2], x[3]), (q, a, r)) for x in M.tr] or [False])
            e, ok = g.add_edge(q, r, g.epsilon if a is None else a)
            ctx.check(ok is True, "add_edge succeeds")
            ctx.check(same(norm(g, [e])[0], (q, a, r)), "add_edge describes the transition")
            ctx.check(N.is_epsilon_transition(e, g) == (a is None), "is_epsilon_transition")
            if not dup:
                M.tr.append([e, q, a, r])
        elif kind == "remove_edge":
            if not M.tr:
                continue
            k = ctx.choice(f"rk{i}", range(len(M.tr)))
            G.remove_edge(M.tr[k][0], g) if free else g.remove_edge(M.tr[k][0])
            del M.tr[k]
        elif kind == "remove_vertex":
            # (the states marked initial stay so)
            u = ctx.choice(f"u{i}", [v for v in M.V if v not in M.init] or [None])
            if u is None:
                continue
            g.remove_vertex(u)
            M.V.remove(u)
            gone.add(u)
            M.tr = [t for t in M.tr if not (t[1] == u) and not (t[3] == u)]
        elif kind == "add_vertex":
            u = g.add_vertex()
            ctx.check(u not in M.V and u not in gone, "add_vertex returns a fresh state")
            M.V.append(u)
            M.fin[u] = False
        elif kind == "set_final":
            q = ctx.choice(f"q{i}", M.V)
            f = ctx.bool(f"sf{i}")
            A.set_final(q, g, f) if free else g.set_final(q, f)
            M.fin[q] = f
        elif kind == "set_initial":
            q = ctx.choice(f"q{i}", M.V)
            b = ctx.choice(f"sb{i}", [True, False])
            g.set_initial(q, b)
            M.init = M.init | {q} if b else M.init - {q}
        elif kind == "set_initials":
            s = {q for q in M.V if ctx.choice(f"si{i}_{q}", [False, True])}
            N.set_initials(s, g) if free else g.set_initials(s)
            M.init = set(s)
            s ^= set(M.V)               # the set of the caller stays the caller's
        elif kind == "clear":
            g.clear()
            g.set_initials({0})
            u = g.add_vertex()
            M.V, M.tr, M.fin, M.init, gone = [u], [], {u: False}, {0}, set()
    look(ctx)


def edges_of(g):
    return [(g.source(e), g.label(e), g.target(e)) for e in g.edges()]


def run_dfa(edges, fin, q0, w):
    """formula: the DFA with these (concrete states, symbolic letters)
    transitions accepts w; None-safe."""
    S = {q0: True}
    for a in w:
        T = {}
        for q, b, r in edges:
            if q in S:
                c = And(S[q], Eq(a, b))
                if c is not False:
                    T[r] = Or(T.get(r, False), c)
        S = T
    return Or([And(c, fin(q)) for q, c in S.items()] or [False])


# bigger NFAs: (states, transitions, possible transitions, initial states)
NFAS = {
    # the third letter from the end is an a
    "third": (5, [(0, "a", 0), (0, "b", 0), (0, "a", 1), (1, "a", 2), (1, "b", 2), (2, "a", 3), (2, "b", 3)],
              [(3, "a", 4), (4, "b", 1), (3, None, 0), (2, None, 4), (1, "b", 0)], {0}),
    # a circuit of epsilons with several ways out
    "eps": (6, [(0, None, 1), (1, None, 2), (2, None, 0), (1, "a", 3), (2, "b", 4), (4, None, 5)],
            [(3, None, 0), (5, "a", 4), (3, "b", 5), (0, "a", 4), (5, None, 3)], {0}),
    # several initial states, two of which read a common suffix
    "starts": (6, [(0, "a", 2), (1, "b", 2), (2, "a", 3), (4, "a", 5), (5, "a", 4)],
               [(3, "b", 1), (2, "a", 4), (0, None, 4), (5, None, 2), (1, "b", 5)], {0, 1, 4}),
}


@job("C08", quick=[dict(name=x, L=7, free=2) for x in NFAS], thorough=[dict(name=x, L=12, free=4) for x in NFAS], covers=["accepted", "rejected"])
def nfa_long(ctx, name, L, free):
    """Long words (all letters are the same but for `free` consecutive ones,
    anywhere) over NFAS of 5 or 6 states, part of the transitions of which are
    fixed, the other ones being arbitrarily present; arbitrary final states."""
    g, M = skeleton_nfa(ctx, name, 3)
    w = long_word(ctx, "w", L, free, ["a", "b"], ctx.choice("b", ["a", "b"]))
    acc = M.acc(w)
    ctx.cover("accepted", acc)
    ctx.cover("rejected", Not(acc))
    ctx.check(Iff(g.accepts(w), acc), "a word is accepted iff a path reads it from an initial state to a final one")
    qs, last = set(g.delta_word(w)), M.run(w)
    ctx.check(And([Iff(q in qs, last[q]) for q in M.V]), "delta_word: the states reached")


def skeleton_nfa(ctx, name, step=1):
    from pybgl.nfa import Nfa
    n, fixed, free, init = NFAS[name]
    g, M = Nfa(n), NModel(n)
    for i, (q, a, r) in enumerate(fixed + free):
        if i >= len(fixed) and not ctx.choice(f"t{i}", [False, True]):
            continue
        e, ok = g.add_edge(q, r, g.epsilon if a is None else a)
        M.tr.append([e, q, a, r])
    finals = ctx.choice("finals", [[q, (q + 1) % n] for q in range(0, n, step)])
    for q in range(n):
        M.fin[q] = q in finals and ctx.bool(f"f{q}")
        g.set_final(q, M.fin[q])
    g.set_initials(set(init))
    M.init = init
    return g, M


@job("C09", quick=[dict(name=x) for x in NFAS], thorough=[dict(name=x, L=4) for x in NFAS], covers=["word accepted", "word rejected"])
def determination_big(ctx, name, L=3):
    """moore_determination on NFAs of 5 or 6 states, part of the transitions of
    which are fixed, the other ones being arbitrarily present; arbitrary final
    states: the states reached simulate the subsets, for every word."""
    from pybgl.moore_determination import moore_determination
    g, M = skeleton_nfa(ctx, name)
    complete = ctx.choice("complete", [False, True])
    before = norm(g, list(g.edges()))
    d = moore_determination(g, complete=complete)
    ctx.check(norm(g, list(g.edges())) == before, "the input is left as it was")
    live = lambda S: frozenset(v for v in S if S[v])
    S0 = live(M.run(""))
    sub, todo = {d.initial(): S0}, [d.initial()]
    al = sorted({a for e, q, a, r in M.tr if a is not None})
    while todo:
        q = todo.pop()
        ctx.check(Iff(d.is_final(q), Or([M.fin[v] for v in sub[q]] or [False])), "a state is final iff it holds a final state of the NFA")
        ctx.check(set(d.sigma(q)) <= set(al), "no other letter")
        for a in al:
            T = live(M.run(a, {v: v in sub[q] for v in M.V}))
            r = d.delta(q, a)
            if r is None or (not T and not complete):
                ctx.check(r is None and not T and not complete, "a transition is missing iff no state of the NFA is reached (and completion is not asked for)")
                continue
            if r not in sub:
                sub[r] = T
                todo.append(r)
            ctx.check(sub[r] == T, "a state reached stands for the subset of states reached")
    ctx.check(len(set(sub.values())) == len(sub), "one state per reachable subset of states")
    ctx.check(set(sub) == set(d.vertices()), "every state of the result is reachable")
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=al)
    acc = M.acc(w)
    ctx.cover("word accepted", And(len(w) > 0, acc))
    ctx.cover("word rejected", Not(acc))
    ctx.check(Iff(g.accepts(w), acc), "the NFA accepts the words its transitions read")


@job("C09",
     quick=[dict(n=2, T=2, L=3), dict(n=2, T=3, L=2), dict(n=3, T=2, L=2), dict(n=2, T=2, L=2, inits=True),
            dict(n=5, T=1, L=2, inits=True), dict(n=2, T=2, L=2, own=True)],
     thorough=[dict(n=2, T=3, L=4), dict(n=2, T=4, L=3), dict(n=3, T=3, L=3), dict(n=2, T=3, L=3, inits=True), dict(n=4, T=3, L=2)],
     covers=["word accepted", "word rejected", "merged states"])
def determination(ctx, n, T, L, inits=False, own=False):
    """moore_determination on an arbitrary NFA (n states, T transitions over
    unbounded letters and epsilon, arbitrary final and initial states): same
    language on every word of length <= L, every state reachable, one state
    per reachable subset, completeness when asked for.  own: another symbol for
    epsilon, the default one being a letter like any other."""
    from pybgl.moore_determination import moore_determination
    from pybgl.nfa import Nfa
    letters = OWN if own else None
    g, M = build_nfa(ctx, n, T, letters=letters, g=Nfa(n, epsilon="E") if own else None)
    if inits:
        s = {q for q in M.V if ctx.choice(f"i{q}", [False, True])}
        g.set_initials(s)
        M.init = s
    complete = ctx.choice("complete", [False, True])
    before = norm(g, list(g.edges()))
    d = moore_determination(g, complete=complete) if ctx.choice("given", [False, True]) is False else None
    if d is None:
        from pybgl.automaton import Automaton
        mine = Automaton()
        d = moore_determination(g, mine, complete=complete)
        ctx.check(d is mine, "the automaton passed by the caller is the result")
    ctx.check(same_multiset(norm(g, list(g.edges())), before, same), "the input is left as it was")
    es = edges_of(d)
    Q = list(d.vertices())
    q0 = d.initial()
    ctx.check(q0 in Q, "the initial state is a state")
    for i, x in enumerate(es):
        for y in es[:i]:
            ctx.check(Not(And(x[0] == y[0], Eq(x[1], y[1]))), "the result is deterministic")
    # a word leading to each state
    word, todo = {q0: []}, [q0]
    while todo:
        q = todo.pop(0)
        for x in es:
            if x[0] == q and x[2] not in word:
                word[x[2]] = word[q] + [x[1]]
                todo.append(x[2])
    ctx.check(set(word) == set(Q), "every state of the result is reachable")
    sub = {q: M.run(word[q]) for q in Q if q in word}
    for i, q in enumerate(sub):
        for p in list(sub)[:i]:
            ctx.check(Or([Xor(sub[p][v], sub[q][v]) for v in M.V]), "one state per reachable subset of states")
        if not complete and q != q0:
            ctx.check(Or([sub[q][v] for v in M.V]), "no trash state unless a complete automaton is asked for")
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=letters)
    acc = M.acc(w)
    ctx.cover("word accepted", And(len(w) > 0, acc))
    ctx.cover("word rejected", Not(acc))
    ctx.cover("merged states", any(d.num_vertices() != 1 and x[2] == x[0] for x in es))
    ctx.check(Iff(run_dfa(es, d.is_final, q0, w), acc), "the DFA accepts the words the NFA accepts")
    if complete:
        al = [t[2] for t in M.tr if t[2] is not None]
        for q in Q:
            for a in al:
                ctx.check(Or([And(x[0] == q, Eq(x[1], a)) for x in es] or [False]), "complete: every state has a successor for every letter")
    ctx.observe("dfa", (len(Q), len(es)))


# ------------------------------------------------------- Thompson operators
def build_triple(ctx, n, T, tag, eps=True, letters=None, epsilon=None):
    """An arbitrary NFA with one initial and one final state (any of them)."""
    from pybgl.nfa import Nfa
    q0 = ctx.choice(f"{tag}q0", range(n))
    f = ctx.choice(f"{tag}f", range(n))
    g, M = build_nfa(ctx, n, T, tag=tag, eps=eps, final=False, letters=letters,
                     g=None if epsilon is None else Nfa(n, epsilon=epsilon))
    g.set_initials({q0})
    M.init = {q0}
    g.set_final(f)
    M.fin = {q: q == f for q in range(n)}
    return g, q0, f, M


def result_model(ctx, t):
    """Check the shape of an operator's result, and read it back."""
    g, q0, f = t
    M = NModel(0)
    M.V = sorted(g.vertices())
    M.tr = [[None, q, a, r] for q, a, r in norm(g, list(g.edges()))]
    M.init = set(g.initials)
    M.fin = {q: g.is_final(q) for q in M.V}
    ctx.check(M.init == {q0}, "the result has one initial state, the one returned")
    ctx.check({q for q in M.V if M.fin[q]} == {f}, "the result has one final state, the one returned")
    return M


def lang(M, w):
    """A[i][j]: formula `M accepts w[i:j]`"""
    n = len(w)
    return [[M.acc(w[i:j]) if j >= i else False for j in range(n + 1)] for i in range(n + 1)]


def power(A, n, k):
    """formulas P[j]: w[0:j] is in L^k"""
    P = [j == 0 for j in range(n + 1)]
    for _ in range(k):
        P = [Or([And(P[i], A[i][j]) for i in range(j + 1)]) for j in range(n + 1)]
    return P


def star(A, n):
    P = [True] + [False] * n
    for j in range(1, n + 1):
        P[j] = Or([And(P[i], A[i][j]) for i in range(j)])
    return P


def repeat(A, n, lo, hi):
    """formula: w is in the union of L^k, lo <= k <= hi (None: no bound)"""
    if hi is None:
        S = star(A, n)
        P = power(A, n, lo)
        # L^lo . L*
        B = [[None] * (n + 1) for _ in range(n + 1)]
        res = []
        for i in range(n + 1):
            sub = [[A[i + x][i + y] for y in range(n - i + 1)] for x in range(n - i + 1)]
            res.append(And(P[i], star(sub, n - i)[n - i]))
        return Or(res)
    return Or([power(A, n, k)[n] for k in range(lo, hi + 1)])


@job("C16",
     quick=[dict(n=2, T=2, L=3), dict(n=3, T=2, L=2, few=True), dict(n=2, T=2, L=2, own=True)],
     thorough=[dict(n=3, T=2, L=2), dict(n=2, T=3, L=2), dict(n=2, T=3, L=4), dict(n=3, T=3, L=3), dict(n=3, T=2, L=4), dict(n=2, T=2, L=3, own=True)],
     covers=["accepted", "rejected"])
def thompson_unary(ctx, n, T, L, own=False, few=False):
    """zero_or_one, zero_or_more, one_or_more, repetition, repetition_range on
    an arbitrary NFA (one initial, one final state): the language is the
    expected one on every word of length <= L, and the result has again one
    initial and one final state.  own: another symbol for epsilon, the default
    one being a letter like any other.  few: with fewer bounds."""
    X = module("thompson_compile_nfa")
    letters = OWN if own else None
    g, q0, f, M = build_triple(ctx, n, T, "", letters=letters, epsilon="E" if own else None)
    op = ctx.choice("op", ["?", "*", "+", "n", "range"])
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=letters)
    A = lang(M, w)
    if op == "?":
        t, (lo, hi) = X.zero_or_one(g, q0, f), (0, 1)
    elif op == "*":
        t, (lo, hi) = X.zero_or_more(g, q0, f), (0, None)
    elif op == "+":
        t, (lo, hi) = X.one_or_more(g, q0, f), (1, None)
    elif op == "n":
        lo = hi = ctx.choice("m", [0, 2] if few else [0, 1, 2, 3])
        t = X.repetition(g, q0, f, lo)
    else:
        lo, hi = ctx.choice("mn", [(0, 0), (0, 2), (1, 3), (2, None)] if few else [(0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (2, 4), (3, 3), (0, None), (1, None), (2, None), (3, None)])
        t = X.repetition_range(g, q0, f, lo, hi)
    if own:
        ctx.check(t[0].epsilon == "E", "the symbol of epsilon is kept")
    R = result_model(ctx, t)
    want = repeat(A, len(w), lo, hi)
    ctx.cover("accepted", And(want, len(w) > 0))
    ctx.cover("rejected", Not(want))
    ctx.check(Iff(R.acc(w), want), f"L({op}) is the repetition of L")


@job("C16",
     quick=[dict(n1=2, n2=2, T1=2, T2=1, L=2), dict(n1=2, n2=2, T1=1, T2=2, L=2),
            dict(n1=2, n2=2, T1=1, T2=1, L=2, own="EE"), dict(n1=2, n2=2, T1=1, T2=1, L=2, own="EF")],
     thorough=[dict(n1=3, n2=2, T1=1, T2=1, L=2), dict(n1=2, n2=2, T1=2, T2=2, L=3), dict(n1=3, n2=2, T1=2, T2=1, L=2), dict(n1=2, n2=3, T1=1, T2=2, L=2)],
     covers=["accepted", "rejected"])
def thompson_binary(ctx, n1, n2, T1, T2, L, own=None):
    """concatenation and alternation of two arbitrary NFAs (own: with these
    symbols for epsilon, the default one being a letter like any other)."""
    X = module("thompson_compile_nfa")
    letters = OWN if own else None
    g1, q1, f1, M1 = build_triple(ctx, n1, T1, "x", letters=letters, epsilon=own and own[0])
    g2, q2, f2, M2 = build_triple(ctx, n2, T2, "y", letters=letters, epsilon=own and own[1])
    w = ctx.word("w", ctx.choice("len", range(L + 1)), alpha=letters)
    n = len(w)
    before = norm(g2, list(g2.edges()))
    if ctx.choice("op", [".", "|"]) == ".":
        t = X.concatenation(g1, q1, f1, g2, q2, f2)
        want = Or([And(M1.acc(w[:i]), M2.acc(w[i:])) for i in range(n + 1)])
    else:
        t = X.alternation(g1, q1, f1, g2, q2, f2)
        want = Or(M1.acc(w), M2.acc(w))
    R = result_model(ctx, t)
    ctx.cover("accepted", And(want, n > 0))
    ctx.cover("rejected", Not(want))
    ctx.check(Iff(R.acc(w), want), "the result accepts the concatenation / alternation")
    ctx.check(same_multiset(norm(g2, list(g2.edges())), before, same), "the second operand is left as it was")


# bigger operands: (states, transitions, possible transitions, initial state, final state)
TRIPLES = {
    "loop": (5, [(2, "a", 0), (0, "b", 1), (1, None, 2), (1, "a", 4)], [(4, "b", 2), (0, None, 4), (2, "b", 3), (3, "a", 4)], 2, 4),
    "line": (4, [(0, "a", 1), (1, "b", 2), (2, "a", 3)], [(3, "b", 0), (1, None, 3), (2, "a", 2), (3, "a", 3)], 0, 3),
    "same": (3, [(1, None, 2), (2, "a", 1), (0, "b", 2)], [(1, "b", 1), (2, None, 0), (1, "a", 0), (0, "a", 0)], 1, 1),
}


def skeleton_triple(ctx, name, tag):
    from pybgl.nfa import Nfa
    n, fixed, free, q0, f = TRIPLES[name]
    g, M = Nfa(n), NModel(n)
    for i, (q, a, r) in enumerate(fixed + free):
        if i < len(fixed) or ctx.choice(f"{tag}{i}", [False, True]):
            e, ok = g.add_edge(q, r, g.epsilon if a is None else a)
            M.tr.append([e, q, a, r])
    g.set_initials({q0})
    M.init = {q0}
    g.set_final(f)
    M.fin = {q: q == f for q in range(n)}
    return g, q0, f, M


@job("C16", quick=[dict(x="loop"), dict(x="same", L=4), dict(x="loop", y="line"), dict(x="same", y="same", L=4)],
     thorough=[dict(x=x, L=6) for x in TRIPLES] + [dict(x=x, y=y) for x in TRIPLES for y in TRIPLES], covers=["accepted", "rejected"])
def thompson_big(ctx, x, y=None, L=5):
    """The operators on NFAs of 3 to 5 states, part of the transitions of which
    are fixed, the other ones being arbitrarily present, and on longer words;
    two operators in a row (n + *, then repeated)."""
    X = module("thompson_compile_nfa")
    w = ctx.word("w", ctx.choice("len", [1, 2, 3, L]), alpha=["a", "b"])
    n = len(w)
    g, q0, f, M = skeleton_triple(ctx, x, "x")
    A = lang(M, w)
    if y is None:
        lo, hi = ctx.choice("mn", [(0, 1), (1, 1), (0, None), (1, None), (2, None), (3, None), (0, 3), (2, 4), (4, 4), (3, 5), (1, 6)])
        t = X.zero_or_one(g, q0, f) if hi == 1 and lo == 0 else X.zero_or_more(g, q0, f) if (lo, hi) == (0, None) else \
            X.one_or_more(g, q0, f) if (lo, hi) == (1, None) else X.repetition(g, q0, f, lo) if lo == hi else X.repetition_range(g, q0, f, lo, hi)
        want = repeat(A, n, lo, hi)
        if ctx.choice("more", [False, True]):
            t = X.zero_or_more(*t)
            full = [[repeat([[A[i + u][i + v] for v in range(j - i + 1)] for u in range(j - i + 1)], j - i, lo, hi) if i <= j else False
                     for j in range(n + 1)] for i in range(n + 1)]
            want = star(full, n)[n]
    else:
        g2, q2, f2, M2 = skeleton_triple(ctx, y, "y")
        B = lang(M2, w)
        before = norm(g2, list(g2.edges()))
        if ctx.choice("op", [".", "|"]) == ".":
            t = X.concatenation(g, q0, f, g2, q2, f2)
            C = [[Or([And(A[i][k], B[k][j]) for k in range(i, j + 1)] or [False]) for j in range(n + 1)] for i in range(n + 1)]
        else:
            t = X.alternation(g, q0, f, g2, q2, f2)
            C = [[Or(A[i][j], B[i][j]) for j in range(n + 1)] for i in range(n + 1)]
        ctx.check(same_multiset(norm(g2, list(g2.edges())), before, same), "the second operand is left as it was")
        want = C[0][n]
        if ctx.choice("more", [False, True]):
            t = X.one_or_more(*t)
            want = star(C, n)[n] if n else C[0][0]
    R = result_model(ctx, t)
    ctx.cover("accepted", And(want, n > 0))
    ctx.cover("rejected", Not(want))
    ctx.check(Iff(R.acc(w), want), "the result accepts the language the operators define")


@job("C16", quick=[dict(n=3, L=2)], covers=["accepted", "rejected"])
def thompson_leaves(ctx, n, L):
    """literal(a) and bracket(chars) with arbitrary letters."""
    X = module("thompson_compile_nfa")
    w = ctx.word("w", ctx.choice("len", range(L + 1)))
    cs = [ctx.sym(f"c{i}") for i in range(ctx.choice("k", range(n + 1)))]
    if len(cs) == 1 and ctx.choice("literal", [True, False]):
        t = X.literal(cs[0])
    else:
        t = X.bracket(cs)
    R = result_model(ctx, t)
    want = Or([Eq(w[0], c) for c in cs] or [False]) if len(w) == 1 else False
    ctx.cover("accepted", want)
    ctx.cover("rejected", Not(want))
    ctx.check(Iff(R.acc(w), want), "exactly the one-letter words of the set")
