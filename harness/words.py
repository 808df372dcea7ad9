"""C20-C27: string distances, BK-trees, tries, digital sequences.

Words have a concrete length and symbolic letters of an unbounded alphabet.
"""
from fractions import Fraction
from .common import *
from .nfa import edges_of, run_dfa


def two_words(ctx, L, total=None):
    n = ctx.choice("n", range(L + 1))
    m = ctx.choice("m", range(L + 1)) if total is None else ctx.choice("m", [k for k in range(L + 1) if n + k <= total])
    return ctx.word("x", n), ctx.word("y", m)


def edit(x, y, sub=True, swap=False):
    """The dynamic program over prefixes, as one formula."""
    D = [[None] * (len(y) + 1) for _ in range(len(x) + 1)]
    for i in range(len(x) + 1):
        for j in range(len(y) + 1):
            if not i or not j:
                D[i][j] = i + j
                continue
            c = [D[i - 1][j] + 1, D[i][j - 1] + 1]
            e = Eq(x[i - 1], y[j - 1])
            c.append(Ite(e, D[i - 1][j - 1], D[i - 1][j - 1] + (1 if sub else 2)))
            if swap and i > 1 and j > 1:
                t = And(Eq(x[i - 1], y[j - 2]), Eq(x[i - 2], y[j - 1]))
                c.append(Ite(t, D[i - 2][j - 2] + 1, i + j))
            D[i][j] = Min(c)
    return D[len(x)][len(y)]


def distance_check(ctx, f, naive, L, total, sub, swap):
    x, y = two_words(ctx, L, total)
    which = ctx.choice("impl", ["memo", "naive"])
    got = (f if which == "memo" else naive)(x, y)
    want = edit(x, y, sub, swap)
    ctx.cover("far", len(x) > 1 and len(y) > 1 and want > 1)
    ctx.cover("near", And(len(x) > 1, Eq(want, 1)))
    ctx.check(Eq(got, want), "the distance is the minimal number of operations")
    if which == "memo" and ctx.choice("axiom", [False, True]):
        ctx.check(Eq(f(y, x), got), "the distance is symmetric")
        ctx.check(Iff(Eq(got, 0), x == y if len(x) == len(y) else False), "the distance is 0 iff the words are equal")


DQ = [dict(L=4), dict(L=7, total=8)]
DT = [dict(L=5), dict(L=9, total=10)]


@job("C20", quick=DQ, thorough=DT, covers=["far", "near"])
def levenshtein(ctx, L, total=None):
    """levenshtein_distance (and the naive version) of two arbitrary words."""
    M = module("levenshtein_distance")
    distance_check(ctx, M.levenshtein_distance, M.levenshtein_distance_naive, L, total, True, False)


@job("C21", quick=DQ, thorough=DT, covers=["far", "near"])
def lcs(ctx, L, total=None):
    """lcs_distance (and the naive version) of two arbitrary words."""
    M = module("lcs_distance")
    distance_check(ctx, M.lcs_distance, M.lcs_distance_naive, L, total, False, False)


@job("C22", quick=DQ, thorough=DT, covers=["far", "near"])
def damerau(ctx, L, total=None):
    """damerau_levenshtein_distance (and the naive version) of two arbitrary
    words, against the optimal string alignment distance."""
    M = module("damerau_levenshtein_distance")
    distance_check(ctx, M.damerau_levenshtein_distance, M.damerau_levenshtein_distance_naive, L, total, True, True)


def edited(ctx, w, k, alpha="abc"):
    """w after at most k edits, at arbitrary positions with arbitrary letters."""
    w, at = list(w), 0
    for t in range(k):
        kind = ctx.choice(f"kind{t}", ["none", "insert", "delete", "substitute", "swap"])
        if kind == "none":
            break
        last = {"insert": len(w) + 1, "swap": len(w) - 1}.get(kind, len(w))
        if at >= last:
            break
        i = ctx.choice(f"at{t}", range(at, last))
        if kind == "insert":
            w.insert(i, ctx.sym(f"letter{t}", list(alpha)))
        elif kind == "delete":
            del w[i]
        elif kind == "substitute":
            w[i] = ctx.sym(f"letter{t}", list(alpha))
        else:
            w[i], w[i + 1] = w[i + 1], w[i]
        at = i
    return glue(w)


LQ = [dict(base="abcabb", edits=2), dict(base="aababcbbcacc", edits=1, also="cbabba")]
LT = [dict(base="abcaabcbacb", edits=2), dict(base="abcabb", edits=3), dict(base="aababcbbcaccabab", edits=1, also="cbabbacca")]


def long_check(ctx, f, base, edits, also, sub, swap):
    x = base
    y = edited(ctx, base, edits)
    if also is not None and ctx.choice("also", [False, True]):
        x = also        # a word which has little to do with y
    if ctx.choice("turn", [False, True]):
        x, y = y, x
    ctx.check(Eq(f(x, y), edit(x, y, sub, swap)), "the distance is the minimal number of operations (long words)")


@job("C20", quick=LQ, thorough=LT)
def levenshtein_long(ctx, base, edits, also=None):
    """levenshtein_distance of a long word and the same word after a few
    arbitrary edits (or of an unrelated word)."""
    long_check(ctx, module("levenshtein_distance").levenshtein_distance, base, edits, also, True, False)


@job("C21", quick=LQ, thorough=LT)
def lcs_long(ctx, base, edits, also=None):
    """lcs_distance of a long word and the same word after a few arbitrary
    edits (or of an unrelated word)."""
    long_check(ctx, module("lcs_distance").lcs_distance, base, edits, also, False, False)


@job("C22", quick=LQ, thorough=LT)
def damerau_long(ctx, base, edits, also=None):
    """damerau_levenshtein_distance of a long word and the same word after a few
    arbitrary edits (or of an unrelated word)."""
    long_check(ctx, module("damerau_levenshtein_distance").damerau_levenshtein_distance, base, edits, also, True, True)


# ------------------------------------------------------------------ BK-tree
@job("C23",
     quick=[dict(n=4, D=3), dict(n=5, D=2), dict(n=4, D=3, mode="radius"), dict(n=4, D=2, mode="from"),
            dict(n=3, D=3, mode="radius", real=True), dict(n=3, D=2, mode="under")],
     thorough=[dict(n=5, D=3), dict(n=6, D=2), dict(n=5, D=3, mode="radius"), dict(n=5, D=3, mode="from"), dict(n=4, D=5),
               dict(n=4, D=3, mode="radius", real=True), dict(n=4, D=3, real=True), dict(n=5, D=3, mode="under")],
     covers=["found", "missing", "collision"])
def bk_search(ctx, n, D, mode="all", real=False):
    """BKTree over an arbitrary metric (symbolic integer -- or real --
    distances up to D satisfying the metric axioms) on n elements + a query:
    insertion in order, then search, unbounded, within a symbolic radius, or
    from a given node; "under": every element is inserted from a node chosen by
    the caller."""
    from symex.values import OpaqueNum
    from pybgl.bk_tree import BKTree, make_bk_tree
    names = [""] + [f"w{i}" for i in range(1, n)]      # (an element may be falsy)
    q = "q"
    d = {}
    every = names + [q]
    for i, a in enumerate(every):
        d[a, a] = 0
        for b in every[:i]:
            if real:
                x = ctx.real(f"d_{b}_{a}", 0 if a == q else Fraction(1, 8), D)
            else:
                x = ctx.int(f"d_{b}_{a}", 0 if a == q else 1, D)
            d[a, b] = d[b, a] = x
    for a in every:
        for b in every:
            for c in every:
                if a < c and b not in (a, c):
                    ctx.assume(d[a, c] <= d[a, b] + d[b, c])

    def dist(a, b):
        x = d[a, b]
        return OpaqueNum(x.t) if isinstance(x, SymNum) else x
    k = ctx.choice("k", range(n + 1))
    some = names[:k]
    dup = ctx.choice("dup", [False, True]) if mode == "all" and k else False
    if mode == "under":
        from pybgl.bk_tree import bk_tree_insert
        t = BKTree(dist)
        up = {}
        for i, w in enumerate(some):
            at = ctx.choice(f"at{i}", [None, *range(i)])
            u = bk_tree_insert(w, t, at)
            ctx.check(t.element(u) == w, "insert returns the node of the element")
            ctx.check(t.insert(w, at) == u and t.num_vertices() == i + 1 and t.insert(w, u) == u and t.num_vertices() == i + 1,
                      "inserting it again, from there or from its node, changes nothing")
            es = [e for e in t.edges() if t.target(e) == u]
            ctx.check(len(es) == (i > 0), "the node is a leaf of the tree")
            for e in es:
                up[u] = v = t.source(e)
                anc = [v]
                while anc[-1] in up:
                    anc.append(up[anc[-1]])
                start = t.root if at is None else at
                ctx.check(start in anc, "the element is below the node it is inserted from")
                path = [u] + anc[:anc.index(start) + 1]
                for p, c in zip(path[1:], path):
                    x = [t.label(f) for f in t.out_edges(p) if t.target(f) == c]
                    ctx.check(Eq(x[0], d[w, t.element(p)]), "the edges followed are labelled by the distances")
        if k:
            ctx.check(sorted(t.element(u) for u in t.vertices()) == sorted(some), "the nodes hold the elements")
        for c in ("found", "missing", "collision"):
            ctx.cover(c)
        return
    if ctx.choice("make", [True, False]):
        t = make_bk_tree(some, dist)
    else:
        t = BKTree(dist)
        for w in some:
            u = t.insert(w)
            ctx.check(t.element(u) == w, "insert returns the node of the element")
    if dup:
        j = ctx.choice("which", range(k))
        u = t.insert(some[j])
        ctx.check(t.element(u) == some[j], "inserting again returns the node of the element")
    ctx.check(t.num_vertices() == k, "one node per element")
    if k:
        ctx.check(sorted(t.element(u) for u in t.vertices()) == sorted(some), "the nodes hold the elements")
    # structure: every element below the edge labelled x from u is at distance x of u
    below = {}

    def walk(u):
        r = [u]
        for e in t.out_edges(u):
            sub = walk(t.target(e))
            for v in sub:
                ctx.check(Eq(t.label(e), d[t.element(u), t.element(v)]), "the elements below an edge are at its distance")
            r += sub
        below[u] = r
        return r
    if k:
        ctx.check(len(walk(t.root)) == k, "the nodes form a tree")
    ctx.cover("collision", k > 2 and len(list(t.out_edges(t.root))) == 1)
    lim, root = D + 1, None
    limited = mode == "from" and ctx.choice("limited", [False, True])
    if mode == "radius" or limited:
        lim = ctx.int("radius", 0, D)
    if mode == "from" and k:
        root = ctx.choice("root", sorted(t.vertices()))
    if k == 0:
        ctx.check(t.search(q) is None, "nothing is found in an empty tree")
        return
    r = t.search(q, lim) if mode == "radius" else t.search(q, lim, root) if limited else t.search(q) if root is None else t.search(q, r=root)
    pool = [t.element(v) for v in below[t.root if root is None else root]]
    best = Min([d[q, w] for w in pool])
    if r is None:
        ctx.cover("missing", best > lim)
        ctx.check(best > lim, "None only if no element is within the radius")
    else:
        ctx.cover("found")
        w, x = r
        ctx.check(w in pool, "the element found belongs to the (sub)tree")
        ctx.check(And(Eq(x, d[q, w]), Eq(x, best), x <= lim), "the element found is the closest one, with its distance")



@job("C23", quick=[dict(L=3, n=2), dict(L=2, n=3)], thorough=[dict(L=3, n=3), dict(L=2, n=4)])
def bk_words(ctx, L, n):
    """make_bk_tree with the default (Levenshtein) distance on words with
    symbolic letters; search of an arbitrary word."""
    from pybgl.bk_tree import make_bk_tree
    ws = [ctx.word(f"w{i}", ctx.choice(f"n{i}", range(L + 1))) for i in range(n)]
    q = ctx.word("q", ctx.choice("nq", range(L + 1)))
    t = make_bk_tree(ws)
    w, x = t.search(q)
    best = Min([edit(q, v) for v in ws])
    ctx.check(And(Eq(x, best), Eq(edit(q, w), best)), "the word found is the closest one")
    ctx.check(Or([w == v for v in ws if len(v) == len(w)] or [False]), "the word found was inserted")


@job("C23", quick=[dict(k=7), dict(k=10, radius=True)], thorough=[dict(k=10, edits=2), dict(k=10, edits=2, radius=True)], covers=["found"])
def bk_lexicon(ctx, k, edits=1, radius=False):
    """make_bk_tree on k fixed words (in two orders) and one more, obtained
    from any of them by arbitrary edits; search of another edited word, within
    any radius."""
    from pybgl.bk_tree import make_bk_tree
    ws = LEXICON[:k]
    if ctx.choice("reversed", [False, True]):
        ws = ws[::-1]
    w = ctx.choice("which", ws[::3])
    if not radius:
        w = edited(ctx, w, 1)
    q = edited(Renamed(ctx, "q"), ctx.choice("near", ["abcab", "cab", "bcabcac"]), edits)
    every = ws[:k // 2] + [w] + ws[k // 2:]
    t = make_bk_tree(every)
    best = Min([edit(q, v) for v in every])
    lim = ctx.choice("radius", range(5)) if radius else None
    r = t.search(q, lim) if radius else t.search(q)
    if r is None:
        ctx.check(False if lim is None else best > lim, "None only if no word is within the radius")
        return
    ctx.cover("found")
    ctx.check(And(Eq(r[1], best), Eq(edit(q, r[0]), best), True if lim is None else best <= lim), "the word found is the closest one")
    ctx.check(Or([weq(r[0], v) for v in every]), "the word found was inserted")


# -------------------------------------------------------------------- tries
def weq(x, y):
    return And([Eq(a, b) for a, b in zip(x, y)] or [True]) if len(x) == len(y) else False


def prefixes(ws):
    return [w[:i] for w in ws for i in range(len(w) + 1)]


def count_distinct(xs, eq=weq):
    """Number of distinct items, a term."""
    return Sum([Not(Or([eq(x, y) for y in xs[:i]] or [False])) for i, x in enumerate(xs)])


def first_of(P):
    """for each word of the list, whether it is the first of its kind"""
    return [Not(Or([weq(x, y) for y in P[:i]] or [False])) for i, x in enumerate(P)]


def words(ctx, tag, k, L):
    return [ctx.word(f"{tag}{i}", ctx.choice(f"{tag}n{i}", range(L + 1))) for i in range(k)]


def check_trie(ctx, t, ws, what, probe=True, L=None):
    """t is the trie of the words: its language is the set of the words, its
    states are their prefixes."""
    P = prefixes(ws) + [ws[0][:0] if ws else ""]
    ctx.check(Eq(t.num_vertices(), count_distinct(P)), what + ": one state per prefix")
    ctx.check(t.num_edges() == t.num_vertices() - 1, what + ": num_edges()")
    es = edges_of(t)
    ctx.check(len(es) == t.num_vertices() - 1 and len({r for q, a, r in es}) == len(es), what + ": the transitions form a tree")
    ctx.check(t.initial() == 0 or t.is_initial(t.initial()), what + ": initial state")
    word = {t.initial(): ()}
    todo = [t.initial()]
    while todo:
        q = todo.pop()
        for p, a, r in es:
            if p == q and r not in word:
                word[r] = word[q] + (a,)
                todo.append(r)
    ctx.check(len(word) == t.num_vertices(), what + ": every state is below the initial one")
    for q, x in word.items():
        ctx.check(Iff(t.is_final(q), Or([weq(x, w) for w in ws] or [False])), what + ": a state is final iff it is an inserted word")
    if probe:
        n = ctx.choice("probe", range((L if L is not None else max([len(w) for w in ws] + [0])) + 1))
        x = ctx.word("probew", n)
        want = Or([weq(x, w) for w in ws] or [False])
        ctx.cover("in", want)
        ctx.cover("out", Not(want))
        ctx.check(Iff(t.accepts(x), want), what + ": accepts exactly the inserted words")


@job("C24",
     quick=[dict(k=3, L=2), dict(k=2, L=3), dict(k=4, L=1), dict(k=1, L=6), dict(k=4, L=2, probe=False)],
     thorough=[dict(k=4, L=2), dict(k=3, L=3), dict(k=2, L=5), dict(k=5, L=1), dict(k=5, L=2, probe=False)],
     covers=["in", "out"])
def trie_insert(ctx, k, L, probe=True):
    """Trie.insert / automaton_insert_string of up to k arbitrary words of
    length <= L, then an arbitrary probe word."""
    from pybgl.trie import Trie
    from pybgl.automaton import automaton_insert_string, delta_word
    t = Trie()
    ws = words(ctx, "w", k, L)
    how = ctx.choice("how", ["insert", "function", "sequence"])
    for w in ws:
        if how == "insert":
            t.insert(w)
        elif how == "function":
            q = automaton_insert_string(t, w)
            ctx.check(t.is_final(q) and delta_word(t.initial(), w, t) == q, "automaton_insert_string returns the state of the word")
        else:
            from pybgl.digital_sequence import DigitalSequence
            t.insert(DigitalSequence(w))
    if not probe:
        ctx.cover("in")
        ctx.cover("out")
    check_trie(ctx, t, ws, "trie", probe)


LEXICON = ["abca", "abcb", "abb", "ba", "baabca", "", "c", "abcabb", "bab", "cc"]


@job("C24", quick=[dict(k=7), dict(k=10, fusion=True)], thorough=[dict(k=10), dict(k=10, fusion=True, edits=2)], covers=["in", "out"])
def trie_lexicon(ctx, k, fusion=False, edits=1):
    """A trie of k fixed words (in two orders) and of one more, obtained from
    any of them by arbitrary edits; the probe is edited too.  fusion: the words
    are split between two tries, which are merged."""
    from pybgl.trie import Trie
    ws = LEXICON[:k]
    if ctx.choice("reversed", [False, True]):
        ws = ws[::-1]
    w = edited(ctx, ctx.choice("which", ws), edits)
    if fusion:
        t, u = Trie(), Trie()
        cut = ctx.choice("cut", [1, len(ws) // 2, len(ws) - 1])
        for x in ws[:cut]:
            t.insert(x)
        for x in ws[cut:]:
            u.insert(x)
        (u if ctx.choice("side", [False, True]) else t).insert(w)
        t.insert(u)
    else:
        t = Trie()
        at = ctx.choice("at", [0, k // 2, k])
        for x in ws[:at] + [w] + ws[at:]:
            t.insert(x)
    every = ws + [w]
    check_trie(ctx, t, every, "big trie", probe=False)
    x = ctx.choice("probe", [None, "abcab", "baabcab", "bb"])
    x = w if x is None else x
    want = Or([weq(x, y) for y in every])
    ctx.cover("in", want)
    ctx.cover("out", Not(want))
    ctx.check(Iff(t.accepts(x), want), "big trie: accepts exactly the inserted words")


@job("C24", quick=[dict(n=2, k=2, L=3, P=3), dict(n=3, k=1, L=4, P=5, q0s=True), dict(n=2, k=2, L=2, P=3, q0s=True, inc=True)],
     thorough=[dict(n=3, k=2, L=3, P=4, q0s=True), dict(n=4, k=1, L=6, P=8, q0s=True), dict(n=2, k=3, L=3, P=4)],
     covers=["new states", "known", "accepted"])
def insert_anywhere(ctx, n, k, L, P, q0s=False, inc=False):
    """automaton_insert_string in an arbitrary DFA (n states, k letters, cycles
    allowed, any initial state): it follows the longest readable prefix, adds
    one state per remaining letter and makes the last state final; every word of
    at most P letters is then accepted iff it was, or iff it now ends there."""
    from pybgl.automaton import automaton_insert_string
    from pybgl.incidence_automaton import IncidenceAutomaton
    A = ["a", "b", "c"][:k]
    q0 = ctx.choice("q0", range(n)) if q0s else 0
    D = SymDfa(ctx, n, A, q0=q0, cls=IncidenceAutomaton if inc else None)
    g = D.g
    w = ctx.word("w", ctx.choice("n", range(L + 1)), alpha=A)
    q = automaton_insert_string(g, w) if ctx.choice("how", [False, True]) else g.automaton_insert_string(w)
    new = g.num_vertices() - n
    ctx.check(0 <= new <= len(w), "at most one new state per letter")
    i = len(w) - new
    R = D.run(w[:i])
    ctx.check(Or([R[p] for p in range(n)]), "the letters kept were readable")
    if new:
        ctx.check(Not(Or([D.run(w[:i + 1])[p] for p in range(n)])), "the longest readable prefix is kept")
        ctx.cover("new states")
    else:
        ctx.check(q in range(n) and R[q], "the state returned is the one reached")
        ctx.cover("known", And(len(w) > 0, Not(D.F(q))))
    ctx.check(g.is_final(q), "the state returned is final")
    ctx.check(g.initial() == q0, "the initial state is unchanged")
    qs, d, fin, s = read_dfa(g, A)
    ctx.check(len(qs) == n + new, "the states")
    x = ctx.word("x", ctx.choice("nx", range(P + 1)), alpha=A)
    want = D.accepts(x)
    u = len(x) - new
    if u >= 0:
        S = D.run(x[:u])
        ends = And(weq(x[u:], w[i:]), Or([And(R[p], S[p]) for p in range(n)]))
        # a word which leaves the old states ends in a new one only if it goes on as w does
        want = Or(want, ends)
        ctx.cover("accepted", And(ends, Not(D.accepts(x)), u != i))
    ctx.check(Iff(dfa_accepts(qs, d, fin, s, x), want), "accepted after iff accepted before or ending as the inserted word")


@job("C24",
     quick=[dict(k1=2, k2=1, L=2), dict(k1=1, k2=2, L=2), dict(k1=1, k2=1, L=3), dict(k1=2, k2=2, L=2, probe=False), dict(k1=2, k2=2, L=1),
            dict(k1=1, k2=2, L=4, L1=1, probe=False), dict(k1=2, k2=1, L=1, L1=4, probe=False)],
     thorough=[dict(k1=2, k2=2, L=2), dict(k1=1, k2=2, L=3), dict(k1=2, k2=1, L=3), dict(k1=1, k2=1, L=5), dict(k1=3, k2=2, L=2, probe=False)],
     covers=["in", "out"])
def trie_fusion(ctx, k1, k2, L, probe=True, L1=None):
    """Trie.insert(trie): g1 becomes the trie of both sets of words, g2 is
    left as it was."""
    from pybgl.trie import Trie, trie_deterministic_fusion
    t1, t2 = Trie(), Trie()
    ws1, ws2 = words(ctx, "x", k1, L1 or L), words(ctx, "y", k2, L)
    for w in ws1:
        t1.insert(w)
    for w in ws2:
        t2.insert(w)
    before = edges_of(t2)
    if ctx.choice("how", ["insert", "function"]) == "insert":
        t1.insert(t2)
    else:
        trie_deterministic_fusion(t1, t2)
    after = edges_of(t2)
    ctx.check(len(after) == len(before) and all(x[0] == y[0] and x[2] == y[2] for x, y in zip(before, after)), "the merged trie is left as it was")
    if not probe:
        ctx.cover("in")
        ctx.cover("out")
    check_trie(ctx, t1, ws1 + ws2, "fusion", probe)


@job("C25",
     quick=[dict(k1=2, k2=2, L=2), dict(k1=3, k2=1, L=2), dict(k1=1, k2=1, L=5)],
     thorough=[dict(k1=3, k2=2, L=2), dict(k1=2, k2=2, L=3), dict(k1=1, k2=1, L=8)],
     covers=["both", "only1", "only2"])
def matching(ctx, k1, k2, L):
    """trie_matching of two tries of arbitrary words: the four counters."""
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching, TrieMatchingVisitor
    t1, t2 = Trie(), Trie()
    ws1, ws2 = words(ctx, "x", k1, L), words(ctx, "y", k2, L)
    for w in ws1:
        t1.insert(w)
    for w in ws2:
        t2.insert(w)
    given = ctx.choice("given", ["default", "again", "visitor"])
    if given == "again":
        trie_matching(t2, t1)
    log = []

    class V(TrieMatchingVisitor):
        def discover_vertex(self, q1, g1, q2, g2):
            ctx.check(g1 is t1 and g2 is t2, "the visitor receives the tries in order")
            log.append((q1, q2))
            super().discover_vertex(q1, g1, q2, g2)

    vis = V() if given == "visitor" else None
    c = trie_matching(t1, t2, vis) if vis is not None else trie_matching(t1, t2)
    P = prefixes(ws1) + prefixes(ws2)
    first = first_of(P)
    in1 = [Or([weq(x, w) for w in ws1] or [False]) for x in P]
    in2 = [Or([weq(x, w) for w in ws2] or [False]) for x in P]
    both = Sum([And(f, a, b) for f, a, b in zip(first, in1, in2)])
    o1 = Sum([And(f, a, Not(b)) for f, a, b in zip(first, in1, in2)])
    o2 = Sum([And(f, Not(a), b) for f, a, b in zip(first, in1, in2)])
    no = Sum([And(f, Not(a), Not(b)) for f, a, b in zip(first, in1, in2)])
    ctx.cover("both", both > 0)
    ctx.cover("only1", o1 > 0)
    ctx.cover("only2", o2 > 0)
    ctx.check(len(c) == 4, "four counters")
    if vis is not None:
        ctx.check(c == vis.counters if isinstance(c, list) else True, "the counters are those of the visitor")
        ctx.check(Eq(1 + len(log), Sum(first)), "the visitor passed by the caller sees every prefix")
    ctx.check(Eq(c[1], o1), "number of words of g1 only")
    ctx.check(Eq(c[2], o2), "number of words of g2 only")
    ctx.check(Eq(c[3], both), "number of words of both")
    ctx.check(Eq(c[0], no), "number of other prefixes")


@job("C25", quick=[dict(k=10)], thorough=[dict(k=10, edits=2)], covers=["both", "only1", "only2"])
def matching_lexicon(ctx, k, edits=1):
    """trie_matching of two tries of several fixed words, to one of which a word
    is added, obtained from a fixed one by arbitrary edits."""
    from pybgl.trie import Trie
    from pybgl.trie_matching import trie_matching
    ws = LEXICON[:k]
    w = edited(ctx, ctx.choice("which", ws), edits)
    cut = ctx.choice("cut", [3, 5, 8])
    ws1, ws2 = ws[:cut], ws[cut - 2:]
    (ws2 if ctx.choice("side", [False, True]) else ws1).append(w)
    t1, t2 = Trie(), Trie()
    for x in ws1:
        t1.insert(x)
    for x in ws2:
        t2.insert(x)
    c = trie_matching(t1, t2)
    P = prefixes(ws1) + prefixes(ws2)
    first = first_of(P)
    in1 = [Or([weq(x, w) for w in ws1]) for x in P]
    in2 = [Or([weq(x, w) for w in ws2]) for x in P]
    for i, (a, b) in enumerate([(False, False), (True, False), (False, True), (True, True)]):
        want = Sum([And(f, Iff(x, a), Iff(y, b)) for f, x, y in zip(first, in1, in2)])
        if i:
            ctx.cover(["only1", "only2", "both"][i - 1], want > 0)
        ctx.check(Eq(c[i], want), "the counters of two big tries")


@job("C26", quick=[dict(base="abaababa"), dict(base="abcabcab")], thorough=[dict(base="abaababaabaab"), dict(base="abcabcabcaab", edits=2)], covers=["bounded"])
def suffix_long(ctx, base, edits=1):
    """make_suffix_trie / factors of a long word after arbitrary edits."""
    from pybgl.suffix_trie import make_suffix_trie, factors
    w = edited(ctx, base, edits)
    n = len(w)
    ml = ctx.choice("max_len", [None, 1, 3, n - 2, n - 1, n])
    ctx.cover("bounded", ml is not None)
    F = [w[i:j] for i in range(n) for j in range(i + 1, n + 1) if ml is None or j - i <= ml] + [w[:0]]
    got = list(factors(w, ml))
    ctx.check(len(got) == len(F) and And([Eq(Sum([weq(x, f) for x in got]), Sum([weq(y, f) for y in F])) for f in F]),
              "factors() are the factors of the word (long word)")
    t = make_suffix_trie(w, ml)
    ctx.check(Eq(t.num_vertices(), count_distinct(F)), "one state per distinct factor (long word)")
    ctx.check(And([t.accepts(f) for f in F]), "every factor is accepted (long word)")
    x = glue(list(w[:2]) + list(w[3:5]))
    ctx.check(Iff(t.accepts(x), Or([weq(x, f) for f in F])), "accepted iff a factor (long word)")


@job("C26", quick=[dict(L=5), dict(L=4, probe=True), dict(L=2, probe=True, given=2)],
     thorough=[dict(L=7), dict(L=6, probe=True), dict(L=3, probe=True, given=3)], covers=["in", "out", "bounded"])
def suffix_tries(ctx, L, probe=False, given=None):
    """make_suffix_trie / factors / slices of an arbitrary word of length <= L,
    any max_len: exactly the factors no longer than max_len; given: the caller
    passes a trie whose initial state is arbitrary, which holds the prefixes of
    an arbitrary word of length <= given."""
    from pybgl.suffix_trie import make_suffix_trie, factors, slices
    from pybgl.trie import Trie
    n = ctx.choice("n", range(L + 1))
    w = ctx.word("w", n)
    ml = ctx.choice("max_len", [None, *range(L + 2)])
    ctx.cover("bounded", ml is not None and ml < n)
    F = [(i, j) for i in range(n) for j in range(i + 1, n + 1) if ml is None or j - i <= ml]
    FW = [w[:0]] + [w[i:j] for i, j in F]
    if not probe:
        what = ctx.choice("what", ["factors", "trie", "given"])
        if what == "factors":
            ctx.cover("in")
            ctx.cover("out")
            ctx.check(sorted(slices(n, ml)) == sorted([(0, 0)] + F), "slices() are the intervals of the factors, once each")
            got = list(factors(w, ml))
            ctx.check(len(got) == len(FW) and And([Eq(Sum([weq(x, f) for x in got]), Sum([weq(y, f) for y in FW])) for f in FW]),
                      "factors() are the factors of the word")
            return
        if what == "given":
            g = Trie()
            t = make_suffix_trie(w, ml, g)
            ctx.check(t is g, "the trie passed by the caller is the result")
        else:
            t = make_suffix_trie(w, ml)
            ctx.check(And([t.is_final(q) for q in t.vertices()]), "every state is final")
        ctx.check(Eq(t.num_vertices(), count_distinct(FW)), "one state per distinct factor")
        ctx.check(t.num_edges() == t.num_vertices() - 1, "a tree")
        return
    if given:
        from pybgl.property_map import make_func_property_map
        q0 = ctx.choice("q0", [0, 1])
        g = Trie(num_vertices=2, q0=q0, pmap_vfinal=make_func_property_map(lambda q: q is not None))
        v = ctx.word("v", ctx.choice("nv", range(given + 1)))
        q = q0
        for a in v:
            r = g.add_vertex()
            g.add_edge(q, r, a)
            q = r
        FW += [v[:i] for i in range(len(v) + 1)]
        t = make_suffix_trie(w, ml, g)
        ctx.check(t is g, "the trie passed by the caller is the result")
        ctx.check(t.initial() == q0, "the initial state is unchanged")
    else:
        t = make_suffix_trie(w, ml)
    k = ctx.choice("probe", range(max(L, given or 0) + 1))
    x = ctx.word("x", k)
    want = Or([weq(x, f) for f in FW])
    ctx.cover("in", And(k > 0, want))
    ctx.cover("out", Not(want))
    ctx.check(Iff(t.accepts(x), want), "the trie accepts exactly the factors")


@job("C27", quick=[dict(L=6), dict(L=12, free=3)], thorough=[dict(L=10), dict(L=20, free=4)], covers=["in", "out", "immutable"])
def digital_sequence(ctx, L, free=None):
    """DigitalSequence(w) for an arbitrary word: the automaton whose states are
    the positions of w; every observer; immutability. free: words of L letters,
    all the same but for `free` consecutive ones, anywhere."""
    from pybgl.digital_sequence import DigitalSequence
    from pybgl import automaton as A
    if free:
        n = L
        i, b = ctx.choice("at", range(L - free + 1)), ctx.word("b", 1)
        w = ctx.word("m", free)
        for k in range(L - free):
            w = b + w if k < i else w + b
    else:
        n = ctx.choice("n", range(L + 1))
        w = ctx.word("w", n)
    g = DigitalSequence(w)
    o = ctx.choice("obs", ["word", "state", "all", "mutate"])
    if o == "word":
        x = ctx.word("x", ctx.choice("k", range(L - 1 if free else 0, L + 1)))
        ctx.cover("in", weq(x, w))
        ctx.cover("out", Not(weq(x, w)))
        ctx.check(Iff(g.accepts(x), weq(x, w)), "accepts exactly w")
        q, i = g.delta_best_effort(x)
        pre = lambda k: weq(x[:k], w[:k]) if k <= n else False
        ctx.check(q == i, "delta_best_effort: state = number of letters read")
        ctx.check(And(pre(i), Not(pre(i + 1)) if i < len(x) else True), "delta_best_effort: the longest common prefix")
    elif o == "state":
        q = ctx.choice("q", range(n + 1))
        a = ctx.sym("a")
        r = g.delta(q, a)
        ok = Eq(a, w[q]) if q < n else False
        ctx.check(Iff(r is not None, ok), "delta(q, a) is defined iff a is the letter at q")
        ctx.check(r is None or r == q + 1, "delta(q, a) = q + 1")
        s = list(g.sigma(q))
        ctx.check(len(s) == (q < n) and And([Eq(b, w[q]) for b in s]), "sigma(q)")
        oe, ie = list(g.out_edges(q)), list(g.in_edges(q))
        ctx.check([(e.source, e.target) for e in oe] == ([(q, q + 1)] if q < n else []), "out_edges(q)")
        ctx.check([(e.source, e.target) for e in ie] == ([(q - 1, q)] if q else []), "in_edges(q)")
        ctx.check(And([Eq(g.label(e), w[g.source(e)]) for e in oe + ie]), "label(e)")
        ctx.check(g.out_degree(q) == (q < n) and g.in_degree(q) == (q > 0), "degrees")
        ctx.check(g.is_initial(q) == (q == 0) and g.is_final(q) == (q == n), "initial and final states")
        ctx.check(A.is_final(q, g) == (q == n) and A.is_initial(q, g) == (q == 0), "is_final(q, g)")
    elif o == "all":
        ctx.check(list(g.vertices()) == list(range(n + 1)) and g.num_vertices() == n + 1, "vertices()")
        es = list(g.edges())
        ctx.check([(e.source, e.target) for e in es] == [(i, i + 1) for i in range(n)] and g.num_edges() == n, "edges()")
        ctx.check(And([Eq(g.label(e), w[i]) for i, e in enumerate(es)] or [True]), "the labels of the edges spell w")
        al = list(g.alphabet())
        ctx.check(Distinct(al), "alphabet(): no duplicate")
        ctx.check(And([Or([Eq(a, b) for b in al] or [False]) for a in w] or [True]) if n else not al, "alphabet(): the letters of w")
        ctx.check(g.initial() == 0 and list(g.finals()) == [n], "initial() and finals()")
    else:
        f = ctx.choice("f", [lambda: g.add_vertex(), lambda: g.add_edge(0, 1, "a"), lambda: g.remove_vertex(0),
                             lambda: g.insert("a"), lambda: g.remove_edge(None)])
        try:
            f()
            ok = False
        except RuntimeError:
            ok = True
        ctx.cover("immutable")
        ctx.check(ok, "a digital sequence is immutable")
        ctx.check(g.num_vertices() == n + 1, "it is left as it was")
