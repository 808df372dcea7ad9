"""One object in two roles: an operation of two operands given the same object
twice (the properties do not ask the operands to be distinct objects)."""
from .common import *
from .dfa_ops import dfa, check_language
from .words import words, prefixes, weq, check_trie, first_of, edges_of

DFAS = [dict(n=2, k=2), dict(n=3, k=1)]
BIG = [dict(n=3, k=2)]


@job("C10", quick=DFAS, thorough=BIG, covers=["accepted", "rejected"])
def union_itself(ctx, n, k):
    """deterministic_union of an arbitrary DFA and itself (the same object):
    its language, the automaton being left as it was."""
    from pybgl.deterministic_union import deterministic_union
    D = dfa(ctx, n, k, "d")
    g = deterministic_union(D.g, D.g)
    check_language(ctx, g, D.alpha, 3, D.accepts, "the union of an automaton and itself has its language")
    check_language(Renamed(ctx, "then_"), D.g, D.alpha, 2, D.accepts, "the automaton is left as it was")


@job("C11", quick=DFAS, thorough=BIG, covers=["accepted", "rejected"])
def intersection_itself(ctx, n, k):
    """deterministic_intersection of an arbitrary DFA and itself (the same
    object): its language, the automaton being left as it was."""
    from pybgl.deterministic_intersection import deterministic_intersection
    D = dfa(ctx, n, k, "d")
    g = deterministic_intersection(D.g, D.g)
    check_language(ctx, g, D.alpha, 3, D.accepts, "the intersection of an automaton and itself has its language")
    check_language(Renamed(ctx, "then_"), D.g, D.alpha, 2, D.accepts, "the automaton is left as it was")


@job("C12", quick=DFAS, thorough=BIG)
def inclusion_itself(ctx, n, k):
    """deterministic_inclusion of an arbitrary DFA and itself (the same object)."""
    from pybgl.deterministic_inclusion import deterministic_inclusion
    D = dfa(ctx, n, k, "d")
    ctx.check(deterministic_inclusion(D.g, D.g) == 0, "an automaton has the same language as itself")


@job("C24", quick=[dict(k=2, L=2), dict(k=1, L=4)], thorough=[dict(k=2, L=3)], covers=["in", "out"])
def fusion_itself(ctx, k, L):
    """A trie inserted into itself is unchanged."""
    from pybgl.trie import Trie
    t = Trie()
    ws = words(ctx, "x", k, L)
    for w in ws:
        t.insert(w)
    t.insert(t)
    check_trie(ctx, t, ws, "a trie inserted into itself")


@job("C25", quick=[dict(k=2, L=2), dict(k=1, L=5)], thorough=[dict(k=2, L=3)], covers=["both", "prefix"])
def matching_itself(ctx, k, L):
    """trie_matching of a trie and itself (the same object): its words are
    common, its other prefixes are words of none."""
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    t = Trie()
    ws = words(ctx, "x", k, L)
    for w in ws:
        t.insert(w)
    c = trie_matching(t, t)
    P = prefixes(ws)
    first = first_of(P)
    word = [Or([weq(x, w) for w in ws]) for x in P]
    both = Sum([And(f, a) for f, a in zip(first, word)])
    rest = Sum([And(f, Not(a)) for f, a in zip(first, word)])
    ctx.cover("both", both > 0)
    ctx.cover("prefix", rest > 0)
    ctx.check(And(c[1] == 0, c[2] == 0), "no word is specific to one side")
    ctx.check(Eq(c[3], both), "every word is common")
    ctx.check(Eq(c[0], rest), "the other prefixes are words of none")


@job("C40", quick=DFAS, thorough=BIG, covers=["several"])
def lockstep_itself(ctx, n, k):
    """parallel_breadth_first_search of an arbitrary DFA and itself (the same
    object): both sides are in the same state all along."""
    from pybgl.parallel_breadth_first_search import parallel_breadth_first_search, ParallelBreadthFirstSearchVisitor
    D = dfa(ctx, n, k, "d", sym_final=False)
    seen, done, moves = [], [], []

    class V(ParallelBreadthFirstSearchVisitor):
        def start_vertex(self, p, g1, q, g2):
            seen.append((p, q))

        def discover_vertex(self, p, g1, q, g2):
            seen.append((p, q))

        def examine_edge(self, e, g1, f, g2, a):
            moves.append((e, f, a))

        def finish_vertex(self, p, g1, q, g2):
            done.append((p, q))
    parallel_breadth_first_search(D.g, D.g, vis=V())
    ctx.check(all(p == q for p, q in seen), "both sides are in the same state")
    ctx.check(len(set(seen)) == len(seen) and done == seen, "each pair is seen once, in that order")
    ctx.check(all(e == f and e.distinguisher == a for e, f, a in moves), "both sides follow the same transition")
    ctx.cover("several", len(seen) > 1)
    got = sorted((e.source, a) for e, f, a in moves)
    for p, _ in seen:
        for a in D.alpha:
            r = D.g.delta(p, a)
            ctx.check((p, a) in got if r is not None else (p, a) not in got, "the letters that can be read")
            ctx.check(r is None or (r, r) in seen, "what can be reached is")
    ctx.check(len(set(got)) == len(got), "each letter is read once in each state")


@job("C39", quick=[dict(n=2, k=2), dict(n=3, k=2, loops=False)], thorough=[dict(n=2, k=3)], covers=["visible"])
def view_itself(ctx, n, k, loops=True):
    """GraphView combined with itself (the same object): v | v and v & v show
    what v shows, v - v shows no vertex."""
    from pybgl.graph_view import GraphView
    from pybgl.property_map import make_func_property_map
    S = sym_digraph(ctx, n, loops=loops, k=k)
    V = {u: ctx.bool(f"v{u}") for u in range(n)}
    v = GraphView(S.g, make_func_property_map(lambda u: V[u]))
    op = ctx.choice("op", ["or", "and", "sub"])
    w = v | v if op == "or" else v & v if op == "and" else v - v
    us, es = list(w.vertices()), [key(e) for e in w.edges()]
    if op == "sub":
        ctx.check(us == [] and es == [], "nothing is left")
    else:
        ctx.check(us == list(v.vertices()), "the same vertices")
        ctx.check(sorted(es) == sorted(key(e) for e in v.edges()), "the same edges")
        ctx.cover("visible", len(es) > 0)


@job("C46", quick=[dict(n=3)], thorough=[dict(n=4)], covers=["twice"])
def visitor_twice(ctx, n):
    """An aggregated visitor made of the same visitor twice forwards each event
    twice, as many visitors of that number would get."""
    from pybgl.aggregated_visitor import AggregatedVisitor
    from pybgl.breadth_first_search import breadth_first_search, DefaultBreadthFirstSearchVisitor
    S = sym_digraph(ctx, n, loops=False, k=2)
    log, one = [], []

    class V(DefaultBreadthFirstSearchVisitor):
        def __init__(self, log):
            self.log = log

        def discover_vertex(self, u, g):
            self.log.append(("d", u))

        def examine_edge(self, e, g):
            self.log.append(("e", key(e)))

        def finish_vertex(self, u, g):
            self.log.append(("f", u))
    v = V(log)
    breadth_first_search(0, S.g, vis=AggregatedVisitor([v, v]))
    breadth_first_search(0, S.g, vis=V(one))
    ctx.check(log == [x for x in one for _ in range(2)], "each event is forwarded twice in a row")
    ctx.cover("twice", len(log) > 4)
