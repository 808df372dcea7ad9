"""Symbolic graphs and automata behind the real pybgl classes.

The *contents* of a container are symbolic and decided lazily: the row dict of
a real graph is replaced by a LazyDict whose keys are resolved (by forking the
path) only when the real code looks at them.  What is stored for a resolved
key is produced by the real add_edge / remove_edge on a template graph.

If the representation does not look as expected (somebody refactored it), or
when replaying concretely, the same contents are built eagerly through the
public API.
"""
import copy

from .values import Engine, SymBool, SymNum, OpaqueNum, SymSym, And, Or, Not, Eq, Ite, Implies, Iff, Sum, is_sym

_MISS = object()


class LazyDict(dict):
    """A dict whose initial content is undecided.

    order: the candidate keys, in the order they have if present.
    resolve(key) -> (present, value); asked at most once per key.
    """

    def __init__(self, order, resolve):
        dict.__init__(self)
        self._order = list(order)
        self._todo = {k: True for k in order}
        self._resolve = resolve
        self._init = {}          # keys initially present and not deleted since
        self._late = {}          # keys added later, chronological
        self._dirty = False

    def _one(self, k):
        if k in self._todo:
            present, v = self._resolve(k)
            del self._todo[k]
            if present:
                dict.__setitem__(self, k, v)
                self._init[k] = True
                self._dirty = True

    def _all(self):
        for k in self._order:
            if k in self._todo:
                self._one(k)
        if self._dirty:
            vals = {k: dict.__getitem__(self, k) for k in dict.keys(self)}
            dict.clear(self)
            for k in self._order:
                if k in self._init:
                    dict.__setitem__(self, k, vals[k])
            for k in self._late:
                dict.__setitem__(self, k, vals[k])
            self._dirty = False

    def _key(self, k):
        return k.concretize() if is_sym(k) else k

    def __contains__(self, k):
        k = self._key(k)
        self._one(k)
        return dict.__contains__(self, k)

    def __getitem__(self, k):
        k = self._key(k)
        self._one(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        k = self._key(k)
        self._one(k)
        return dict.get(self, k, d)

    def __setitem__(self, k, v):
        k = self._key(k)
        self._one(k)
        if not dict.__contains__(self, k):
            self._late[k] = True
        dict.__setitem__(self, k, v)

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def __delitem__(self, k):
        k = self._key(k)
        self._one(k)
        dict.__delitem__(self, k)
        self._init.pop(k, None)
        self._late.pop(k, None)

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d:
            return d[0]
        raise KeyError(k)

    def popitem(self):
        self._all()
        ks = list(dict.keys(self))
        if not ks:
            raise KeyError("popitem(): dictionary is empty")
        k = ks[-1]
        return k, self.pop(k)

    def clear(self):
        self._todo.clear()
        self._init.clear()
        self._late.clear()
        dict.clear(self)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def copy(self):
        self._all()
        return dict(dict.items(self))

    __copy__ = copy

    def __deepcopy__(self, memo):
        return {k: copy.deepcopy(v, memo) for k, v in self.items()}

    def __reduce_ex__(self, p):
        self._all()
        return (dict, (list(dict.items(self)),))

    def keys(self):
        self._all()
        return dict.keys(self)

    def values(self):
        self._all()
        return dict.values(self)

    def items(self):
        self._all()
        return dict.items(self)

    def __iter__(self):
        self._all()
        return dict.__iter__(self)

    def __reversed__(self):
        self._all()
        return dict.__reversed__(self)

    def __len__(self):
        self._all()
        return dict.__len__(self)

    def __bool__(self):
        for k in self._order:
            if k in self._todo:
                if dict.__len__(self):
                    return True
                self._one(k)
        return dict.__len__(self) > 0

    def __eq__(self, o):
        self._all()
        if isinstance(o, LazyDict):
            o._all()
        return dict.__eq__(self, o)

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None

    def __or__(self, o):
        return self.copy() | o

    def __ror__(self, o):
        return o | self.copy()

    def __repr__(self):
        return f"LazyDict({dict.__repr__(self)}, undecided={list(self._todo)})"


# ----------------------------------------------------------------- graphs
class Cells:
    """One symbolic cell per key; a cell takes one of `k` values (0: absent)."""

    def __init__(self, ctx, keys, k, tag, fixed=None):
        self.ctx = ctx
        self.k = k
        self.vars = {}
        for key in keys:
            if fixed is not None and key in fixed:
                self.vars[key] = fixed[key]
                continue
            n = f"{tag}{'_'.join(map(str, key))}" if isinstance(key, tuple) else f"{tag}{key}"
            self.vars[key] = ctx.bool(n) if k == 2 else ctx.int(n, 0, k - 1)

    def present(self, key):
        """Boolean term: the cell is not 0 (never forks)."""
        v = self.vars.get(key, False)
        if self.k == 2:
            return v
        return v > 0

    def count(self, key):
        """The value of the cell as a number term (never forks)."""
        v = self.vars.get(key, 0)
        return Ite(v, 1, 0) if isinstance(v, (bool, SymBool)) else v

    def is_(self, key, i):
        v = self.vars.get(key)
        if v is None:
            return i == 0
        if self.k == 2:
            return v if i == 1 else Not(v)
        return Eq(v, i)

    def resolve(self, key):
        """The concrete value (forks the path)."""
        v = self.vars[key]
        if self.k == 2:
            return 1 if v else 0
        return v.concretize() if isinstance(v, SymNum) else int(v)


def play(g, u, v, ids):
    """Build the parallel edges of (u, v) through the public API so that those
    numbered `ids` (in order of insertion) are the live ones; their descriptors."""
    es = [g.add_edge(u, v)[0] for _ in range(max(ids) + 1)] if ids else []
    for i, e in enumerate(es):
        if i not in ids:
            g.remove_edge(e)
    return [es[i] for i in ids]


def _state(g, names=()):
    return {k: v for k, v in vars(g).items() if k not in names}


def _unfit(ctx, wanted):
    """Note that the representation is not the expected one: the content is
    built through the public API, i.e. enumerated."""
    if ctx.symbolic and wanted and not getattr(ctx, "eager", False):
        ctx.stats.unfit += 1


def _attr(g, shape):
    """The name of the attribute of the graph holding the given rows."""
    for k, v in vars(g).items():
        if type(v) is dict and shape(v):
            return k
    return None


class SymGraph:
    """A real graph `g` with symbolic content + the abstract view of it.

    Each (ordered) pair of vertices carries 0 .. k-1 live parallel edges.  With
    `ids`=B their distinguishers are arbitrary distinct symbolic numbers in
    0..B-1 (any state a history of insertions and removals can leave behind);
    otherwise they are the first ones.
    """

    def __init__(self, ctx, n, cls, pairs, k=2, undirected=False, tag="e", fixed=None, lazy=True, ids=0):
        self.ctx = ctx
        self.n = n
        self.k = k
        self.undirected = undirected
        self.pairs = list(pairs)
        self.ids = ids
        self.cells = Cells(ctx, self.pairs, k, tag, fixed)
        self.tag = tag
        self.live = {}
        self.g = cls(n)
        self.cls = cls
        self.lazy = bool(ctx.symbolic and lazy and not getattr(ctx, "eager", False) and self._probe() and self._install())
        if not self.lazy:
            _unfit(ctx, lazy)
            for p in self.pairs:
                nums = self._numbers(p, self.cells.resolve(p))
                nums = [int(x) for x in nums]
                self.live[p] = play(self.g, p[0], p[1], nums)

    def _numbers(self, p, count):
        """The distinguishers of the `count` live edges of a cell."""
        if not self.ids:
            return list(range(count))
        xs = []
        for i in range(count):       # x0 < x1 < ..., each with some slack
            d = self.ctx.int(f"n{self.tag}{p[0]}_{p[1]}_{i}", 0, self.ids - count)
            xs.append(d if i == 0 else xs[-1] + 1 + d)
        if len(xs) > 1:
            self.ctx.assume(xs[-1] < self.ids)
        return xs

    # -- representation probe: an edge may be recorded only in
    #    g.adjacencies[u][v] (and g.in_adjacencies[v][u]), as a set of numbers
    def _probe(self):
        try:
            from pybgl.graph import EdgeDescriptor
            if not self.pairs:
                return False
            (u, v) = next(((a, b) for a, b in self.pairs if a != b), self.pairs[0])
            t = self.cls(self.n)
            before = copy.deepcopy(_state(t))
            e, _ = t.add_edge(u, v)
            f, _ = t.add_edge(u, v)
            self.adj = _attr(t, lambda x: self._rows(x, {u: {v}} if not self.undirected else {u: {v}, v: {u}}))
            self.radj = None
            if not self.undirected and u != v:
                self.radj = _attr(t, lambda x: self._rows(x, {v: {u}}))
            names = (self.adj, self.radj)
            before = {k: x for k, x in before.items() if k not in names}
            if _state(t, names) != before or e != EdgeDescriptor(u, v, 0) or f != EdgeDescriptor(u, v, 1):
                return False
            return self.adj is not None
        except Exception:
            return False

    def _rows(self, adj, rows):
        return (
            type(adj) is dict and list(adj) == list(range(self.n)) and
            all(type(adj[w]) is dict and set(adj[w]) == rows.get(w, set()) for w in adj) and
            all(type(x) is set and x == {0, 1} for w in adj for x in adj[w].values())
        )

    def _key(self, u, v):
        return (min(u, v), max(u, v)) if self.undirected else (u, v)

    def _install(self):
        from pybgl.graph import EdgeDescriptor

        def resolve_cell(p):
            if p not in self.live:
                xs = self._numbers(p, self.cells.resolve(p))
                xs = [OpaqueNum(x.t) if isinstance(x, SymNum) else x for x in xs]
                self.live[p] = [EdgeDescriptor(p[0], p[1], x) for x in xs]
            return self.live[p]

        def resolver(u, backward=False):
            def f(v):
                es = resolve_cell((v, u) if backward else self._key(u, v))
                return bool(es), {e.distinguisher for e in es}
            return f

        self._resolve_cell = resolve_cell
        for u in range(self.n):
            if self.undirected:
                # order in which the eager construction inserts the keys
                order = [q for p in self.pairs for q in
                         ([p[1]] if p[0] == u else [p[0]] if p[1] == u else [])]
            else:
                order = [v for (a, v) in self.pairs if a == u]
            getattr(self.g, self.adj)[u] = LazyDict(order, resolver(u))
            if self.radj:
                getattr(self.g, self.radj)[u] = LazyDict([a for (a, b) in self.pairs if b == u], resolver(u, True))
        return True

    # -- abstract view -----------------------------------------------------
    def E(self, u, v):
        """Boolean: is there an edge from u to v initially (no fork)."""
        return self.cells.present(self._key(u, v))

    def descriptors(self, u, v):
        """The live edge descriptors of the cell, as add_edge returned them."""
        p = self._key(u, v)
        if p not in self.cells.vars:
            return []
        if p not in self.live:
            self._resolve_cell(p)
        return self.live[p]


def all_pairs(n, loops=True):
    return [(u, v) for u in range(n) for v in range(n) if loops or u != v]


def upper_pairs(n, loops=False):
    return [(u, v) for u in range(n) for v in range(u if loops else u + 1, n)]


def sym_digraph(ctx, n, loops=True, k=2, cls=None, tag="e", pairs=None, lazy=True, ids=0, fixed=None):
    if cls is None:
        from pybgl.graph import DirectedGraph as cls
    return SymGraph(ctx, n, cls, pairs if pairs is not None else all_pairs(n, loops), k, False, tag, lazy=lazy, ids=ids, fixed=fixed)


def sym_ugraph(ctx, n, loops=False, k=2, tag="e", lazy=True, ids=0, pairs=None, fixed=None):
    from pybgl.graph import UndirectedGraph
    return SymGraph(ctx, n, UndirectedGraph, pairs if pairs is not None else upper_pairs(n, loops), k, True, tag, lazy=lazy, ids=ids, fixed=fixed)


# bigger automata, part of which is fixed
SKELETON_DFAS = {
    # a ring of 7 states, from which one may jump back
    "ring": (7, {**{(q, "a"): [(q + 1) % 7] for q in range(7)}, (1, "b"): [None, 4], (2, "b"): [0, 5], (4, "b"): [1, None], (5, "b"): [0, 2], (6, "a"): [0, 3]},
             {0: None, 1: False, 2: None, 3: None, 4: False, 5: None, 6: False}),
    # a tree of depth 3 with possible loops
    "tree": (7, {(0, "a"): [1], (0, "b"): [2], (1, "a"): [3], (1, "b"): [4, 3], (2, "a"): [5], (2, "b"): [6, 5], (3, "a"): [None, 0], (4, "b"): [None, 4],
                 (5, "a"): [None, 0], (6, "b"): [None, 6, 4]}, {0: False, 1: None, 2: None, 3: None, 4: True, 5: None, 6: True}),
    # complete, 6 states
    "complete": (6, {**{(q, "a"): [(q + 2) % 6] for q in range(6)}, **{(q, "b"): [(q * 5 + 1) % 6] for q in range(6)}, (0, "b"): [1, 3], (3, "b"): [4, 2], (5, "a"): [1, 0], (2, "a"): [4, 2]},
                 {0: None, 1: None, 2: None, 3: None, 4: False, 5: None}),
    # a long chain, with a dead end and an unreachable part
    "chain": (8, {(0, "a"): [1], (1, "a"): [2], (2, "a"): [3], (3, "a"): [4], (4, "a"): [5, None], (1, "b"): [6, 4], (6, "a"): [6, None], (7, "a"): [3], (7, "b"): [7, 0],
                  (3, "b"): [1, 6], (5, "b"): [2, None]}, {0: False, 1: False, 2: None, 3: False, 4: None, 5: None, 6: None, 7: False}),
    # small ones, for products
    "mod3": (3, {(0, "a"): [1], (1, "a"): [2], (2, "a"): [0, None], (0, "b"): [None, 0], (2, "b"): [1, None]}, {0: None, 1: None, 2: None}),
    "mod4": (4, {(0, "a"): [1], (1, "a"): [2], (2, "a"): [3], (3, "a"): [0, 1], (1, "b"): [None, 3], (3, "b"): [0]}, {0: False, 1: None, 2: None, 3: None}),
    "line5": (5, {(0, "a"): [1], (1, "a"): [2], (2, "a"): [3], (3, "a"): [4, None], (4, "a"): [None, 2], (2, "b"): [4]}, {0: False, 1: None, 2: None, 3: False, 4: None}),
}


# bigger graphs, part of which is fixed: {name: (vertices, arcs, possible arcs)}
SKELETONS = {
    "chain": (7, [(i, i + 1) for i in range(6)], [(2, 0), (4, 1), (6, 3), (5, 5), (0, 3), (1, 5), (6, 2), (3, 1)]),
    "down": (7, [(i + 1, i) for i in range(6)], [(4, 6), (2, 5), (0, 3), (1, 1), (6, 3), (5, 1), (0, 4), (3, 5)]),
    "tree": (7, [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (2, 6)], [(3, 0), (4, 3), (3, 4), (5, 1), (6, 5), (4, 6), (6, 2), (5, 0)]),
    "rings": (8, [(0, 1), (1, 2), (2, 0), (5, 4), (4, 3), (3, 5), (6, 7)], [(2, 3), (5, 6), (7, 6), (4, 0), (6, 4), (7, 1), (0, 6), (3, 7)]),
    # no circuit
    "dag": (7, [(6, 2), (2, 4), (2, 0), (0, 5), (4, 5), (1, 3)], [(6, 1), (4, 0), (0, 3), (5, 1), (6, 5), (2, 3), (4, 1), (5, 3)]),
}


def skeleton(name, undirected=False):
    """-> n, pairs, fixed pairs"""
    n, fixed, free = SKELETONS[name]
    if undirected:
        fixed, free = [[(min(p), max(p)) for p in x] for x in (fixed, free)]
    return n, list(dict.fromkeys(fixed + free)), {p: True for p in fixed}


# ------------------------------------------------------- graph-level formulas
def closure(n, E, reflexive=True, through=None):
    """R[u][v]: formula `v is reachable from u`, by repeated squaring.

    through(w): formula restricting the intermediate vertices."""
    R = [[Or(E(u, v), u == v) if reflexive else E(u, v) for v in range(n)] for u in range(n)]
    for w in range(n):                      # Warshall
        t = True if through is None else through(w)
        R = [[Or(R[u][v], And(t, R[u][w], R[w][v])) for v in range(n)] for u in range(n)]
    return R


def is_acyclic(n, E):
    R = closure(n, E, reflexive=False)
    return And([Not(R[u][u]) for u in range(n)])


# ----------------------------------------------------------------- automata
class SymDfa:
    """A real (Incidence)Automaton with symbolic transitions and final states.

    delta(q, a) is an integer cell: 0 = no transition, r + 1 = state r.
    """

    def __init__(self, ctx, n, alpha, cls=None, tag="d", complete=False, q0=0, lazy=True,
                 targets=None, sym_final=True, finals_tag="f", skel=None):
        """skel: (number of states, {(q, a): possible targets, None included},
        {q: final or not, or None if arbitrary})"""
        from pybgl.automaton import Automaton
        allowed, finals = {}, {}
        if skel is not None:
            n, allowed, finals = skel
        self.ctx = ctx
        self.n = n
        self.alpha = list(alpha)
        self.cls = cls or Automaton
        self.q0 = q0
        self.d = {}
        lo = 1 if complete else 0
        for q in range(n):
            for a in self.alpha:
                tg = range(n) if targets is None else targets(q)
                tg = list(tg)
                if skel is not None:
                    vs = [0 if r is None else r + 1 for r in allowed.get((q, a), [None])]
                    if len(vs) == 1:
                        self.d[q, a] = vs[0]
                        continue
                    v = ctx.int(f"{tag}{q}{a}", 0, len(vs) - 1)
                    for i, x in reversed(list(enumerate(vs))):
                        t = x if i == len(vs) - 1 else Ite(Eq(v, i), x, t)
                    self.d[q, a] = t
                    continue
                v = ctx.int(f"{tag}{q}{a}", lo, n)
                if targets is not None:
                    ctx.assume(Or([Eq(v, 0)] + [Eq(v, r + 1) for r in tg]))
                self.d[q, a] = v
        self.f = {q: (finals[q] if finals.get(q) is not None else ctx.bool(f"{finals_tag}{tag}{q}") if sym_final else False) for q in range(n)}
        self.lazy = bool(ctx.symbolic and lazy and not getattr(ctx, "eager", False) and self._probe())
        if self.lazy:
            from pybgl.property_map import make_assoc_property_map
            from collections import defaultdict
            self.g = self.cls(n, q0)
            rows = {}
            for q in range(n):
                def resolver(a, q=q):
                    r = self.target(q, a)
                    return (r is not None), r
                getattr(self.g, self.adj)[q] = LazyDict(self.alpha, resolver)
            if self.radj is not None:
                for r in range(n):
                    def backward(q, r=r):
                        As = {a for a in self.alpha if self.leads(q, a, r)}
                        return bool(As), As
                    getattr(self.g, self.radj)[r] = LazyDict(list(range(n)), backward)
        else:
            _unfit(ctx, lazy)
            self.g = self.cls(n, q0)
            for q in range(n):
                for a in self.alpha:
                    r = self.target(q, a)
                    if r is not None:
                        self.g.add_edge(q, r, a)
        if sym_final:
            if self.ctx.symbolic and not getattr(ctx, "eager", False):
                for q in range(n):
                    self.g.set_final(q, self.f[q])
            else:
                for q in range(n):
                    if self.f[q]:
                        self.g.set_final(q)

    def target(self, q, a):
        v = self.d[q, a]
        v = v.concretize() if isinstance(v, SymNum) else int(v)
        return None if v == 0 else v - 1

    def leads(self, q, a, r):
        """whether delta(q, a) = r (decided now)"""
        return bool(Eq(self.d[q, a], r + 1))

    def _probe(self):
        try:
            t = self.cls(self.n)
            before = copy.deepcopy({k: v for k, v in vars(t).items() if k not in ("pmap_vfinal",)})
            r = self.n - 1
            t.add_edge(0, r, self.alpha[0])
            self.adj = _attr(t, lambda x: x.get(0) == {self.alpha[0]: r} and type(x[0]) is dict and
                             all(x[w] == {} for w in range(1, self.n)) and list(x) == list(range(self.n)))
            # an automaton may also record the transitions backward: {r: {q: {a}}}
            self.radj = _attr(t, lambda x: x.get(r) == {0: {self.alpha[0]}} and type(x[r]) is dict and type(x[r][0]) is set and
                              all(x[w] == {} for w in range(self.n) if w != r) and list(x) == list(range(self.n)))
            names = (self.adj, self.radj, "pmap_vfinal")
            if _state(t, names) != {k: v for k, v in before.items() if k not in names}:
                return False
            return self.adj is not None
        except Exception:
            return False

    # -- formulas (no fork)
    def D(self, q, a, r):
        """formula: delta(q, a) == r   (r None: undefined)"""
        return Eq(self.d[q, a], 0 if r is None else r + 1)

    def F(self, q):
        return self.f[q]

    def step(self, S, a):
        """S: {state: formula}.  One transition by a fixed or symbolic letter."""
        out = {}
        for r in range(self.n):
            c = []
            for q in range(self.n):
                if S[q] is False:
                    continue
                for b in self.alpha:
                    e = Eq(a, b)
                    if e is False:
                        continue
                    c.append(And(S[q], e, self.D(q, b, r)))
            out[r] = Or(c or [False])
        return out

    def start(self):
        return {q: q == self.q0 for q in range(self.n)}

    def run(self, w):
        S = self.start()
        for a in w:
            S = self.step(S, a)
        return S

    def accepts(self, w):
        """formula: the word (fixed length, symbolic letters) is accepted"""
        S = self.run(w)
        return Or([And(S[q], self.f[q]) for q in range(self.n)])

    def reach(self):
        """{q: formula: q reachable from q0}"""
        E = lambda q, r: Or([self.D(q, a, r) for a in self.alpha])
        return closure(self.n, E)


def read_dfa(g, alpha):
    """Read a concrete resulting DFA through the public API.
    -> (states, {(q,a): r}, finals formula map, initial)"""
    qs = list(g.vertices())
    d = {}
    for q in qs:
        for a in alpha:
            r = g.delta(q, a)
            if r is not None:
                d[q, a] = r
    return qs, d, {q: g.is_final(q) for q in qs}, g.initial()


def dfa_accepts(qs, d, fin, q0, w):
    """formula: the concrete DFA accepts the word w with symbolic letters."""
    if q0 is None or q0 not in qs:
        return False
    S = {q0: True}
    for a in w:
        T = {}
        for q, c in S.items():
            for (p, b), r in d.items():
                if p == q:
                    e = And(c, Eq(a, b))
                    if e is not False:
                        T[r] = Or(T.get(r, False), e)
        S = T
    return Or([And(c, fin[q]) for q, c in S.items()] or [False])
