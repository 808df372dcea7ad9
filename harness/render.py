"""C42, C45-C48: Graphviz export and import, colours, visitors, property maps,
weight operators."""
import contextlib
import io
import json
import re as _re
from collections import defaultdict
from .common import *
from pybgl.property_map import make_assoc_property_map, make_func_property_map


# ------------------------------------------------------- a reader of dot text
def parse_attrs(s):
    """'[k="v"; k=<v>]' -> dict"""
    s = s.strip()
    if not s:
        return {}
    assert s[0] == "[" and s[-1] == "]", s
    out = {}
    i, s = 0, s[1:-1]
    while i < len(s):
        j = s.index("=", i)
        k = s[i:j].strip()
        if s[j + 1] == '"':
            e = s.index('"', j + 2)
            out[k] = s[j + 2:e]
        else:
            assert s[j + 1] == "<", s
            depth, e = 1, j + 2
            while depth:
                depth += {"<": 1, ">": -1}.get(s[e], 0)
                e += 1
            e -= 1
            out[k] = s[j + 2:e]
        i = e + 1
        while i < len(s) and s[i] in "; ":
            i += 1
    return out


def parse_dot(s):
    """-> (type, [(u, attrs)], [(u, v, attrs)], {prefix: attrs}, other lines)"""
    s = str(s)
    kind, rest = s.split(" G {", 1)
    assert rest.rstrip().endswith("}"), s
    vs, es, styles, other = [], [], defaultdict(dict), []
    arc = "->" if kind == "digraph" else "--"
    for line in rest.rstrip()[:-1].split("\n"):
        line = line.strip()
        if not line:
            continue
        assert line.endswith(";"), line
        line = line[:-1]
        m = _re.fullmatch(r"(\w+) (->|--) (\w+) (\[.*\])?", line)
        if m:
            assert m.group(2) == arc, line
            es.append((m.group(1), m.group(3), parse_attrs(m.group(4) or "")))
            continue
        m = _re.fullmatch(r"(\w+) (\[.*\])?", line)
        if m and m.group(1) not in ("graph", "node", "edge"):
            vs.append((m.group(1), parse_attrs(m.group(2) or "")))
            continue
        # style instructions: graph [..]; node [..]; edge [..]
        if _re.match(r"(graph|node|edge) \[", line):
            for x in _re.findall(r"(graph|node|edge) (\[[^\]]*\])", line):
                styles[x[0]].update(parse_attrs(x[1]))
        else:
            other.append(line)
    return kind, vs, es, styles, other


@job("C42",
     quick=[dict(n=2, k=3), dict(n=3, k=2), dict(n=3, k=3, und=True), dict(n=3, k=2, loops=False, removed=True)],
     thorough=[dict(n=3, k=3), dict(n=4, k=2, loops=False), dict(n=3, k=3, und=True, removed=True), dict(n=4, k=2, und=True), dict(n=3, k=2, removed=True)],
     covers=("parallel", "no edge", "read back"))
def dot_graph(ctx, n, k, loops=True, und=False, removed=False):
    """to_dot of every (un)directed multigraph with n vertices (removed: after
    an arbitrary vertex was removed), read by an independent reader, and back by
    read_graphviz (directed graphs)."""
    from pybgl.graph import DirectedGraph, UndirectedGraph
    from pybgl.graphviz import read_graphviz, GraphvizVisitor
    S = sym_ugraph(ctx, n, loops=loops, k=k) if und else sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    gone = None
    if removed:
        gone = ctx.choice("gone", range(n))
        g.remove_vertex(gone)
    V = [u for u in range(n) if u != gone]
    style = ctx.choice("style", ["default", "none"])
    s = g.to_dot() if style == "default" else g.to_dot(graphviz_style="")
    kind, vs, es, styles, other = parse_dot(s)
    ctx.check(kind == ("graph" if und else "digraph"), "the type of the graph")
    ctx.check([int(u) for u, _ in vs] == V, "one node per vertex")
    ctx.check(not other and bool(styles) is (style == "default"), "the default style comes with the graph, nothing else")
    got = defaultdict(int)
    for u, v, a in es:
        u, v = int(u), int(v)
        got[S._key(u, v)] += 1
    ctx.check(not any(a for *_, a in es + vs), "no attribute is invented")
    ctx.cover("parallel", any(x > 1 for x in got.values()))
    ctx.cover("no edge", not got)
    ctx.check(all(u in V and v in V for u, v in got), "the edges link vertices of the graph")
    for p in S.pairs:
        ctx.check(Eq(got[p], S.cells.count(p) if gone not in p else 0), "one edge of the text per edge of the graph")
    if und:
        ctx.cover("read back")
        return
    how = ctx.choice("how", ["str", "lines", "visitor", "undirected"])
    if how == "visitor":
        # every line goes to one callback, in order
        log = []

        class V(GraphvizVisitor):
            def on_vertex(self, line, u, h, opts):
                log.append(("v", u, line))
                ctx.check(h is g and not opts, "the visitor receives the graph passed by the caller")

            def on_edge(self, line, u, v, h, opts):
                log.append(("e", u, v, line))
                ctx.check(h is g and not opts, "the visitor receives the graph passed by the caller")

            def on_else(self, line):
                log.append(("?", line))

        m = sorted(map(key, g.edges()))
        lines = [*s.splitlines(), "  # the end", "12 -> ;"]
        read_graphviz(lines, g, V())
        ctx.check([x[-1] for x in log] == [x.strip() for x in lines], "every line goes to one callback of the visitor, in order")
        ctx.check([x[1:-1] for x in log if x[0] == "v"] == [(u,) for u, _ in vs], "on_vertex is called for every node")
        ctx.check([x[1:-1] for x in log if x[0] == "e"] == [(u, v) for u, v, _ in es], "on_edge is called for every edge")
        ctx.check(sorted(map(key, g.edges())) == m, "the base visitor leaves the graph as it was")
        ctx.cover("read back")
        return
    if how == "undirected":
        h = UndirectedGraph()
        read_graphviz(s, h)
        ctx.cover("read back")
        ctx.check(sorted(h.vertices()) == list(range(len(V))), "read_graphviz: one vertex per node")
        back, ren = defaultdict(int), {u: i for i, u in enumerate(V)}
        for e in h.edges():
            back[min(e.source, e.target), max(e.source, e.target)] += 1
        for i, u in enumerate(V):
            for v in V[i:]:
                ctx.check(Eq(back[ren[u], ren[v]], Sum([S.cells.count(p) for p in S.pairs if p in ((u, v), (v, u))])),
                          "read_graphviz rebuilds the edges, in an undirected graph as well")
        return
    h = DirectedGraph()
    read_graphviz(s if how == "str" else s.splitlines(), h)
    ctx.cover("read back")
    ctx.check(sorted(h.vertices()) == list(range(len(V))), "read_graphviz: one vertex per node")
    ren = {u: i for i, u in enumerate(V)}
    back = defaultdict(int)
    for e in h.edges():
        back[e.source, e.target] += 1
    for u, v in S.pairs:
        if gone not in (u, v):
            ctx.check(Eq(back[ren[u], ren[v]], S.cells.count((u, v))), "read_graphviz rebuilds the edges")
    ctx.check(sum(back.values()) == len(es), "read_graphviz adds nothing else")


@job("C42", quick=[dict(n=2, k=3), dict(n=2, k=3, und=True)], thorough=[dict(n=3, k=2, loops=False), dict(n=3, k=2, und=True)],
     covers=("edge", "named", "default"))
def dot_options(ctx, n, k, und=False, loops=True):
    """to_dot of every multigraph with n vertices with any subset of the other
    options (identifiers, styles, extra instructions) and the functions which
    export one vertex or one edge."""
    from pybgl.graphviz_impl import vertex_to_graphviz, edge_to_graphviz
    from pybgl.graphviz import to_dot
    S = sym_ugraph(ctx, n, loops=loops, k=k) if und else sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    ident = (lambda u: f"v{u}") if ctx.choice("ident", [False, True]) else None
    name = ident or str
    props = ctx.choice("props", [False, True])
    dpv = {"color": make_func_property_map(lambda u: f"c{u}")} if props else None
    dpe = {"color": make_func_property_map(lambda e: f"c{e.distinguisher}")} if props else None
    arc = "--" if und else "->"
    what = ctx.choice("what", ["graph", "method", "elements"])
    va = lambda u: {"color": f"c{u}"} if props else {}
    ea = lambda e: {"color": f"c{e.distinguisher}"} if props else {}
    ctx.cover("named" if ident else "default")
    if what == "elements":
        kw = {"vertex_to_str": ident} if ident else {}
        for u in range(n):
            x = vertex_to_graphviz(u, g, **({"dpv": dpv} if props else {}), **kw).split(" ", 1)
            ctx.check(x[0] == name(u) and parse_attrs(x[1] if len(x) > 1 else "") == va(u), "vertex_to_graphviz: the identifier and the properties")
        for e in g.edges():
            x = edge_to_graphviz(e, g, **({"dpe": dpe} if props else {}), **kw).split(" ", 3)
            ctx.check(x[:3] == [name(e.source), arc, name(e.target)] and parse_attrs(x[3] if len(x) > 3 else "") == ea(e),
                      "edge_to_graphviz: the identifiers, the direction and the properties")
            ctx.cover("edge")
        return
    kw = {}
    if props:
        kw.update(dpv=dpv, dpe=dpe)
    if ident:
        kw["vertex_to_str"] = ident
    styles = {}
    for a, p in (("dg", "graph"), ("dv", "node"), ("de", "edge")):
        form = ctx.choice(a, ["absent", "given"]) if a == "dv" else ctx.choice("dg", ["absent", "empty", "given"]) if a == "dg" else kw.get("dv")
        if form == "empty":
            kw[a] = {}
        elif form not in ("absent", None):
            kw[a] = {"style": a, "zero": 0}
            styles[p] = {"style": a, "zero": "0"}
    base = ctx.choice("base", ["default", "none", "mine"])
    if base != "default":
        kw["graphviz_style"] = "" if base == "none" else "ratio=0"
    if ctx.choice("extra", [False, True]):
        kw["extra_style"] = "splines=line"
    before = {a: dict(x) for a, x in kw.items() if isinstance(x, dict)}
    s = to_dot(g, **kw) if what == "graph" else g.to_dot(**kw)
    ctx.check(before == {a: x for a, x in kw.items() if isinstance(x, dict)}, "the dictionaries of the caller are left alone")
    kind, vs, es, got, other = parse_dot(s)
    ctx.check(kind == ("graph" if und else "digraph"), "the type of the graph")
    ctx.check(vs == [(name(u), va(u)) for u in range(n)], "every vertex, with its identifier and its properties")
    want = sorted((*sorted([name(e.source), name(e.target)]), str(ea(e))) if und else (name(e.source), name(e.target), str(ea(e))) for e in g.edges())
    ctx.check(sorted((*(sorted([u, v]) if und else [u, v]), str(a)) for u, v, a in es) == want, "every edge, with its identifiers and its properties")
    if base == "default":
        for p, d in styles.items():
            ctx.check(set(d.items()) <= set(got[p].items()), "the styles given are exported, on top of the default ones")
    else:
        ctx.check(dict(got) == styles, "the styles given are exported, and no other")
    ctx.check(other == ["ratio=0"] * (base == "mine") + ["splines=line"] * ("extra_style" in kw), "the extra instructions are exported")


@job("C42",
     quick=[dict(n=2, k=3, view=False), dict(n=3, k=2, view=False, loops=False), dict(n=2, k=3, view=True)],
     thorough=[dict(n=3, k=3, view=False, loops=False), dict(n=3, k=2, view=True, loops=False)],
     covers=("restricted", "edge drawn", "vertex hidden"))
def dot_parts(ctx, n, k, view, loops=True):
    """to_dot(vs=, es=) of a graph, and to_dot of a GraphView: exactly the
    chosen vertices and edges, each with the properties of dpv and dpe."""
    from pybgl.graph_view import GraphView
    from pybgl.graph import DirectedGraph
    S = sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    V = {u: ctx.bool(f"v{u}") for u in range(n)}
    E = {p + (i,): ctx.bool(f"r{p[0]}_{p[1]}_{i}") for p in S.pairs for i in range(k - 1)}
    col = {u: ctx.bool(f"c{u}") for u in range(n)} if not view else {u: u % 2 == 0 for u in range(n)}
    # a property may be falsy: only None means that there is no property
    dpv = {"color": make_func_property_map(lambda u: "red" if col[u] else None),
           "rank": make_func_property_map(lambda u: [0, "", None][u % 3])}
    dpe = {"label": make_func_property_map(lambda e: f"{e.source}/{e.target}/{e.distinguisher}")}
    if view:
        h = GraphView(g, make_func_property_map(lambda u: V[u]), make_func_property_map(lambda e: E[key(e)]))
        kw = {}
        part = ctx.choice("part", ["all", "list", "set", "iter"])
        if part != "all":
            # the caller may choose among the elements of the view
            coll = {"list": list, "set": set, "iter": iter}[part]
            kw = dict(vs=coll([u for u in range(n) if u != 0]), es=coll([e for e in g.edges() if e.distinguisher == 0]))
        s = h.to_dot(dpv=dpv, dpe=dpe, **kw)
        vis = lambda p, i, V=dict(V): And(S.cells.count(p) > i, E[p + (i,)], V[p[0]], V[p[1]], part == "all" or i == 0)
        if part != "all":
            V = {u: And(V[u], u != 0) for u in V}
    else:
        vs = [u for u in g.vertices() if V[u]]
        es = [e for e in g.edges() if E[key(e)]]
        s = g.to_dot(vs=vs, es=es, dpv=dpv, dpe=dpe)
        vis = lambda p, i: And(S.cells.count(p) > i, E[p + (i,)])
    ctx.cover("restricted")
    kind, vs, es, styles, other = parse_dot(s)
    us = [int(u) for u, _ in vs]
    ctx.check(len(set(us)) == len(us), "each vertex once")
    for u in range(n):
        ctx.check(Iff(u in us, V[u]), "the vertices drawn are those chosen")
        ctx.cover("vertex hidden", Not(V[u]))
    for u, a in vs:
        rank = [{"rank": "0"}, {"rank": ""}, {}][int(u) % 3]
        ctx.check(Iff(a == {"color": "red", **rank}, col[int(u)]), "a vertex has the attributes of its property maps")
        ctx.check(Iff(a == rank, Not(col[int(u)])), "a property equal to None is left out")
    labels = [a.get("label") for _, _, a in es]
    ctx.check(len(set(labels)) == len(labels), "each edge once")
    for (u, v, a) in es:
        ctx.check(a.get("label", "").startswith(f"{u}/{v}/") and list(a) == ["label"], "an edge has the attributes of its property maps")
    for p in S.pairs:
        for i in range(k - 1):
            ctx.check(Iff(f"{p[0]}/{p[1]}/{i}" in labels, vis(p, i)), "the edges drawn are those chosen")
            ctx.cover("edge drawn", vis(p, i))


@job("C42",
     quick=[dict(n=2, k=2, own=False), dict(n=2, k=1, own=True), dict(n=3, k=1, own=False)],
     thorough=[dict(n=3, k=2, own=False), dict(n=3, k=1, own=True), dict(n=2, k=2, own=True)],
     covers=("final", "not final", "transition"))
def dot_automaton(ctx, n, k, own):
    """to_dot of every DFA with n states and k letters: final states are double
    circles, transitions carry their letter; own: the caller passes its own
    properties, then the same arguments serve for a second automaton."""
    from pybgl.automaton import Automaton
    cls = Automaton
    D = SymDfa(ctx, n, (ctx.choice("letters", [["a", "<"], [0, "a"], ["", 0], [False, "<"]]))[:k], tag="d", cls=cls)
    g = D.g
    kw = {}
    if own:
        what = ctx.choice("own", ["color", "shape", "label"])
        dpv, dpe = {}, {}
        if what == "label":
            dpe = {"label": make_func_property_map(lambda e: "mine")}
        else:
            dpv = {what: make_func_property_map(lambda u: "box")}
        kw = dict(dpv=dpv, dpe=dpe)
    texts = [(D, g.to_dot(**kw))]
    if own:
        ctx.check(set(dpv) <= {what} and set(dpe) <= {what}, "the dictionaries of the caller are left alone")
        D2 = SymDfa(ctx, 2, ["a"], tag="e", cls=cls)
        texts.append((D2, D2.g.to_dot(**kw)))
    for X, s in texts:
        kind, vs, es, styles, other = parse_dot(s)
        ctx.check([int(u) for u, _ in vs] == list(range(X.n)), "one node per state")
        for u, a in vs:
            a = dict(a)
            if own and what == "shape":
                ctx.check(a.pop("shape", None) == "box", "the properties of the caller have priority")
            else:
                sh = a.pop("shape", None)
                ctx.check(Iff(sh == "doublecircle", X.F(int(u))), "the final states are double circles")
                ctx.check(Iff(sh == "circle", Not(X.F(int(u)))), "the other states are circles")
                ctx.cover("final", X.F(int(u)))
                ctx.cover("not final", Not(X.F(int(u))))
            if own and what == "color":
                ctx.check(a.pop("color", None) == "box", "the properties of the caller are drawn")
            ctx.check(not a, "no attribute is invented")
        want = lambda a: "&#60;" if a == "<" else str(a)
        for q in range(X.n):
            for a in X.alpha:
                for r in range(X.n):
                    lab = "mine" if own and what == "label" else want(a)
                    c = sum(1 for (u, v, at) in es if (u, v) == (str(q), str(r)) and at == {"label": lab})
                    if own and what == "label":
                        ctx.check(Eq(c, Sum([Ite(X.D(q, b, r), 1, 0) for b in X.alpha])), "one edge per transition")
                    else:
                        ctx.check(Iff(c == 1, X.D(q, a, r)), "one edge per transition, labelled by its letter")
                    ctx.cover("transition", X.D(q, a, r))
        ctx.check(Eq(len(es), Sum([Ite(X.D(q, a, None), 0, 1) for q in range(X.n) for a in X.alpha])), "nothing else is drawn")


@job("C42", quick=[dict(n=2, T=2), dict(n=3, T=1)], thorough=[dict(n=3, T=2), dict(n=2, T=3)], covers=("epsilon", "letter", "final"))
def dot_nfa(ctx, n, T):
    """to_dot of every NFA with n states and up to T transitions."""
    from .nfa import build_nfa
    g, M = build_nfa(ctx, n, T, letters=["a", "<"])
    kind, vs, es, styles, other = parse_dot(g.to_dot())
    ctx.check(kind == "digraph" and [int(u) for u, _ in vs] == list(range(n)), "one node per state")
    for u, a in vs:
        ctx.cover("final", M.fin[int(u)])
        ctx.check(Iff(a == {"shape": "doublecircle"}, M.fin[int(u)]), "the final states are double circles")
        ctx.check(Iff(a == {"shape": "circle"}, Not(M.fin[int(u)])), "the other states are circles")
    text = lambda a: "<i>\u03b5</i>" if a is None else {"a": "a", "<": "&#60;"}[str(a)]
    want = [(str(q), str(r), {"label": text(a)}) for q, a, r in M.triples()]
    ctx.cover("epsilon", any(x[1] is None for x in M.triples()))
    ctx.cover("letter", any(x[1] is not None for x in M.triples()))
    key = lambda x: (x[0], x[1], sorted(x[2].items()))
    ctx.check(sorted(es, key=key) == sorted(want, key=key), "one edge per transition, labelled by its letter")


@job("C42", quick=[dict(n=2), dict(n=3)], covers=("transition", "final"))
def dot_node_automaton(ctx, n):
    """to_dot of every node automaton with n states: the initial state bears ^,
    the other ones their symbol."""
    from pybgl.node_automaton import NodeAutomaton
    g = NodeAutomaton()
    V = list(range(n))
    sy = {u: ctx.choice(f"s{u}", ["a", "b", 0, ""]) for u in V}
    for u in V:
        g.add_vertex(sy[u])
    q0 = ctx.choice("q0", V)
    g.set_initial(q0)
    tr = []
    for u in V:
        f = ctx.bool(f"f{u}")
        g.set_final(u, f)
        ctx.cover("final", f)
        for v in V:
            if n == 2 or v != u:
                if ctx.bool(f"e{u}_{v}") and g.add_edge(u, v)[1]:
                    tr.append((str(u), str(v)))
    kind, vs, es, styles, other = parse_dot(g.to_dot())
    ctx.check([int(u) for u, _ in vs] == V, "one node per state")
    for u, a in vs:
        u = int(u)
        ctx.check(a.get("label") == ("^" if u == q0 else str(sy[u])), "a state bears its symbol, ^ for the initial one")
        ctx.check(Iff(a.get("shape") == "doublecircle", g.is_final(u)), "the final states are double circles")
    ctx.cover("transition", bool(tr))
    ctx.check(sorted((u, v) for u, v, _ in es) == sorted(tr), "one edge per transition")


@job("C42", quick=[dict(n=3)], thorough=[dict(n=4)], covers=("depth 2", "own"))
def dot_trees(ctx, n):
    """to_dot of every BK-tree of n elements (any distances in 1..3) and of every
    abstract syntax tree with n nodes: each node bears its element (its number
    and its symbol), each edge of a BK-tree its distance."""
    from pybgl.bk_tree import BKTree
    from pybgl.shunting_yard_postfix import Ast
    own = ctx.choice("own", [False, True])
    kw = {"dpv": {"color": make_func_property_map(lambda u: "red")}} if own else {}
    ctx.cover("own", own)
    up = {}
    if ctx.choice("tree", ["bk", "ast"]) == "bk":
        names = ["w%d<" % i for i in range(n)]
        from symex.values import OpaqueNum
        num = lambda x: OpaqueNum(x.t) if isinstance(x, SymNum) else x
        d = {(i, j): num(ctx.int(f"d{j}_{i}", 1, 3)) for i in range(n) for j in range(i)}
        t = BKTree(lambda a, b: 0 if a == b else d[max(names.index(a), names.index(b)), min(names.index(a), names.index(b))])
        at = {}
        for i, w in enumerate(names):      # the insertion, followed by hand
            at[i] = t.insert(w)
            j = 0
            while i != j:
                sub = [x for x, (p, l) in up.items() if p == j and l == d[i, j]]
                if not sub:
                    up[i] = (j, d[i, j])
                    break
                j = sub[0]
        label = lambda i: names[i].replace("<", "&#60;")
        edge = {(at[p], at[i]): {"label": str(l)} for i, (p, l) in up.items()}
    else:
        t = Ast()
        sy = [ctx.choice(f"s{i}", ["+", "&"]) for i in range(n)]
        at = {i: t.add_vertex(a) for i, a in enumerate(sy)}
        for i in range(1, n):
            up[i] = (ctx.choice(f"p{i}", range(i)), None)
            t.add_edge(at[up[i][0]], at[i])
        label = lambda i: f"{at[i]} {sy[i]}".replace("&", "&#38;")
        edge = {(at[p], at[i]): {} for i, (p, _) in up.items()}
    ctx.cover("depth 2", any(p in up for p, _ in up.values()))
    kind, vs, es, styles, other = parse_dot(t.to_dot(**kw))
    ctx.check(list(kw.get("dpv", {"color": 0})) == ["color"], "the dictionaries of the caller are left alone")
    got = {int(u): a for u, a in vs}
    ctx.check(len(vs) == n and set(got) == set(at.values()), "one node per element")
    for i in at:
        a = got[at[i]]
        ctx.check(a.get("label") == label(i), "a node bears its element")
        ctx.check(a.get("color") == ("red" if own else None), "a node bears the properties of the caller")
    ctx.check(len(es) == n - 1 and {(int(u), int(v)): a for u, v, a in es} == edge, "the edges of the tree, with their distance")


TAGS = {"b", "/b", "br", "br/", "font", "/font", "hr", "/hr", "i", "/i", "img", "/img", "o", "/o", "s", "/s", "sub", "/sub",
        "sup", "/sup", "table", "/table", "td", "/td", "tr", "/tr", "u", "/u", "vr", "/vr"}
CODES = {"&#38;": "&", "&#60;": "<", "&#62;": ">", "&#91;": "[", "&#93;": "]", "&#123;": "{", "&#125;": "}", "\\n": "\n", "\\t": "\t", "\\r": "\r"}


def is_tag(s):
    """formula: the letters between < and > name a supported tag"""
    body = s
    i = 0
    while i < len(body) and body[i] == " ":
        i += 1
    j = i
    while j < len(body) and body[j] != " ":
        j += 1
    name = "".join(str(c) for c in body[i:j]).lower()
    if name not in TAGS:
        return False
    return not name.startswith("/") or all(c == " " for c in body[j:])


@job("C42",
     quick=[dict(L=4, alpha="<b/>"), dict(L=4, alpha="<i> &"), dict(L=3, alpha="<>[]{}&\n\tx"), dict(L=2, alpha="&#3 8;\r\x01")],
     thorough=[dict(L=6, alpha="<b/>"), dict(L=6, alpha="<i> "), dict(L=4, alpha="<>[]{}&\n\tx"), dict(L=5, alpha="<br/>"), dict(L=5, alpha="<I b>")],
     covers=("tag", "escaped", "plain"))
def escape_html(ctx, L, alpha):
    """graphviz_escape_html of every word of length <= L over `alpha`: the
    supported tags are kept and everything else is escaped, without loss."""
    from pybgl.graphviz_impl import graphviz_escape_html
    if alpha not in ("<b/>", "<i> &", "<i> ", "<br/>", "<I b>"):
        ctx.cover("tag")
    m = ctx.choice("len", range(L + 1))
    w = ctx.word("w", m, alpha=list(alpha))
    out = str(graphviz_escape_html(w))
    s = [str(c) for c in w]
    want, i = "", 0
    code = {v: k for k, v in CODES.items()}
    while i < len(s):
        if s[i] == "<" and ">" in s[i:]:
            j = s.index(">", i)
            if is_tag(s[i + 1:j]):
                want += "".join(s[i:j + 1])
                i = j + 1
                ctx.cover("tag")
                continue
        want += code.get(s[i], s[i] if ord(s[i]) >= 32 else "\\x%02x;" % ord(s[i]))
        ctx.cover("escaped" if s[i] in code else "plain")
        i += 1
    ctx.check(out == want, "the supported tags are kept and the other special characters are escaped")


@job("C48",
     quick=[dict(n=2, k=2), dict(n=2, k=2, und=True)],
     thorough=[dict(n=3, k=2, loops=False), dict(n=2, k=3), dict(n=3, k=2, und=True)],
     covers=("edge", "extra style", "given"))
def graph_dp(ctx, n, k, loops=True, und=False):
    """GraphDp over every multigraph with n vertices: the text holds the graph,
    its properties and its styles; the arguments of to_dot have priority; the
    dictionaries of the caller are left alone; to_json yields valid JSON with
    the same content."""
    from pybgl.graph_dp import GraphDp
    S = sym_ugraph(ctx, n, loops=loops, k=k) if und else sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    lab = {u: ctx.choice(f"l{u}", ["x", 'y"\\'] if u == 0 else ["z"]) for u in range(n)}
    dpv = {"label": make_func_property_map(lambda u: lab[u])}
    dpe = {"color": make_func_property_map(lambda e: f"c{e.distinguisher}")}
    dg, dv, de = {"rankdir": "TB"}, {"shape": "box"}, {"penwidth": "2"}
    which = ctx.choice("which", ["dot", "json"])
    extra = ctx.choice("extra", ["none", "one"]) if which == "dot" else "none"
    # every dictionary may be left out
    props = ctx.choice("props", ["both", "dpv", "dpe", "none"])
    if props in ("dpe", "none"):
        dpv = {}
    if props in ("dpv", "none"):
        dpe = {}
    styled = ctx.choice("styled", ["all", "dg", "dv", "de", "none"]) if which == "dot" else "all"
    if styled not in ("all", "dg"):
        dg = None
    if styled not in ("all", "dv"):
        dv = None
    if styled not in ("all", "de"):
        de = None
    gdp = GraphDp(g, dpv=dpv or None, dpe=dpe or None, dg=dg, dv=dv, de=de, extra_style=None if extra == "none" else ["splines=line"])
    ctx.check(gdp.get_dpv() == dpv and gdp.get_dpe() == dpe, "get_dpv() and get_dpe()")
    for mine, got in ((dg, gdp.get_dg()), (dv, gdp.get_dv()), (de, gdp.get_de())):
        ctx.check(mine is None or got == mine, "get_dg(), get_dv() and get_de()")
    dpv0, dpe0, dv0 = list(dpv), list(dpe), None if dv is None else dict(dv)

    def count_edges(es):
        got = defaultdict(int)
        for u, v in es:
            got[S._key(int(u), int(v))] += 1
        for p in S.pairs:
            ctx.check(Eq(got[p], S.cells.count(p)), "one edge per edge of the graph")
            ctx.cover("edge", S.cells.present(p))
        ctx.check(sum(got.values()) == sum(got[p] for p in S.pairs), "no other edge")

    if which == "json":
        ctx.cover("extra style")
        ctx.cover("given")
        d = json.loads(gdp.to_json())
        ctx.check(d["graph_type"] == ("graph" if und else "digraph"), "the type of the graph")
        ctx.check(d["vertices"] == [{"id": u, **({"label": lab[u]} if dpv else {})} for u in range(n)], "each vertex with its properties")
        count_edges([(x["source"], x["target"]) for x in d["edges"]])
        ctx.check(all(set(x) == {"source", "target", *dpe} and (not dpe or x["color"] in {f"c{i}" for i in range(k - 1)}) for x in d["edges"]),
                  "each edge with its properties")
        return
    if 'y"\\' in lab.values():
        return
    given = ctx.choice("given", ["none", "dv", "dpv"])
    kw = {}
    mine = {}
    if given == "dv":
        mine = {"shape": "oval"}
        kw["dv"] = mine
    elif given == "dpv":
        mine = {"label": make_func_property_map(lambda u: "mine")}
        kw["dpv"] = mine
    before = dict(mine)
    kind, vs, es, styles, other = parse_dot(gdp.to_dot(**kw))
    ctx.cover("given", given != "none")
    ctx.check(mine == before and (list(dpv), list(dpe), dv) == (dpv0, dpe0, dv0), "the dictionaries of the caller are left alone")
    ctx.check([(int(u), a) for u, a in vs] == [(u, {"label": "mine"} if given == "dpv" else {"label": lab[u]} if dpv else {}) for u in range(n)],
              "each vertex with its properties")
    count_edges([(u, v) for u, v, _ in es])
    ctx.check(all(set(a) == set(dpe) and (not dpe or a["color"] in {f"c{i}" for i in range(k - 1)}) for _, _, a in es), "each edge with its properties")
    ctx.check((given != "dv" and dv is None or styles["node"]["shape"] == ("oval" if given == "dv" else "box")) and
              (dg is None or styles["graph"]["rankdir"] == "TB") and
              (de is None or styles["edge"]["penwidth"] == "2"), "the styles are drawn, the arguments of to_dot first")
    if extra == "one":
        ctx.cover("extra style")
        ctx.check(other == ["splines=line"], "the extra style is drawn")
    else:
        ctx.check(not other, "nothing else is drawn")


@job("C48", quick=[dict()], covers=("kept", "added"))
def enrich(ctx):
    """enrich_kwargs: every default that the caller did not choose is added to a
    copy; two calls with the same arguments give the same result."""
    from pybgl.graphviz_impl import enrich_kwargs
    keys = ["a", "b", "c"]
    dflt = {x: i for i, x in enumerate(keys) if ctx.bool(f"d{x}")}
    mine = {x: 10 + i for i, x in enumerate(keys) if ctx.bool(f"m{x}")}
    absent = ctx.bool("absent")
    kw = {"other": 1}
    if not absent:
        kw["dpv"] = mine
    before = dict(mine)
    r = enrich_kwargs(dflt, "dpv", **kw)
    ctx.check(mine == before, "the dictionary of the caller is left alone")
    ctx.check(r["other"] == 1, "the other arguments are kept")
    want = {**dflt, **({} if absent else before)}
    ctx.check(r.get("dpv", {}) == want, "the caller's choices first, then the defaults")
    ctx.cover("kept", any(x in before for x in dflt))
    ctx.cover("added", any(x not in before for x in dflt))


@contextlib.contextmanager
def kept_style():
    """puts the global style back at the end"""
    from pybgl.graphviz import GraphvizStyle
    names = ("graph", "node", "edge")
    saved = {k: dict(getattr(GraphvizStyle, k)) for k in names}
    extra = list(GraphvizStyle.extra_style)
    try:
        yield GraphvizStyle
    finally:
        for k in names:
            d = getattr(GraphvizStyle, k)
            d.clear()
            d.update(saved[k])
        GraphvizStyle.extra_style[:] = extra


@job("C48", quick=[dict(ops=3)], thorough=[dict(ops=4)], covers=("fg", "bg", "own", "extra"))
def global_style(ctx, ops):
    """GraphvizStyle, after any `ops` changes of the colours and of the styles
    handed out by GraphDp instances: the exports follow the last colours set, a
    GraphDp owns its copy of the style."""
    from pybgl.graph import DirectedGraph
    from pybgl.graph_dp import GraphDp
    with kept_style() as G:
        start = {k: dict(getattr(G, k)) for k in ("graph", "node", "edge")}
        fg = bg = extra = None
        g = DirectedGraph(1)
        old = GraphDp(g)
        for i in range(ops):
            op = ctx.choice(f"op{i}", ["fg", "bg", "own", "extra"])
            ctx.cover(op)
            if op == "fg":
                fg = f"fg{i}"
                (G if i % 2 else G()).set_fg_color(fg)
            elif op == "bg":
                bg = f"bg{i}"
                (G if i % 2 else G()).set_bg_color(bg)
            elif op == "extra":
                extra = f"splines=s{i}"
                G.extra_style[:] = [extra]
            else:
                mine = GraphDp(g)
                for d in (mine.get_dg(), mine.get_dv(), mine.get_de()):
                    d["color"] = d["fontcolor"] = d["bgcolor"] = "mine"
                mine.extra_style.append("mine")
        want = {k: dict(v) for k, v in start.items()}
        if fg is not None:
            for k, a in (("graph", "fontcolor"), ("node", "color"), ("node", "fontcolor"), ("edge", "color"), ("edge", "fontcolor")):
                want[k][a] = fg
        if bg is not None:
            want["graph"]["bgcolor"] = bg
        s = g.to_dot()
        ctx.check(G() is G(), "the style is a singleton")
        kind, vs, es, styles, other = parse_dot(s if extra is None else s.replace("; " + extra, ""))
        ctx.check((extra is None) or extra in s, "the extra style is exported")
        ctx.check({k: styles[k] for k in want} == want, "the export follows the last colours")
        ctx.check("mine" not in s, "a GraphDp owns its style")
        new = GraphDp(g)
        ctx.check((new.get_dg(), new.get_dv(), new.get_de()) == (want["graph"], want["node"], want["edge"]), "a new GraphDp starts from the current style")
        ctx.check((old.get_dg(), old.get_dv(), old.get_de()) == (start["graph"], start["node"], start["edge"]), "a GraphDp keeps its style")
        ctx.check(old.extra_style == [] and new.extra_style == ([extra] if extra else []), "a GraphDp keeps its extra style")


@job("C48", quick=[dict(n=2, k=3), dict(n=2, k=2, view=True)], thorough=[dict(n=3, k=2, loops=False), dict(n=3, k=2, view=True, loops=False)],
     covers=("vertex hidden", "edge hidden", "edge"))
def json_parts(ctx, n, k, loops=True, view=False):
    """GraphDp.to_json(vs, es) of every multigraph with n vertices, and of every
    GraphView of it: exactly the chosen vertices and edges with their
    properties; and to_dot of a GraphDp of the view."""
    from pybgl.graph_dp import GraphDp
    from pybgl.graph_view import GraphView
    S = sym_digraph(ctx, n, loops=loops, k=k)
    V = {u: ctx.bool(f"v{u}") for u in range(n)}
    E = {p + (i,): ctx.bool(f"r{p[0]}_{p[1]}_{i}") for p in S.pairs for i in range(k - 1)}
    dpv = {"label": make_func_property_map(lambda u: f'n"{u}')}
    dpe = {"label": make_func_property_map(lambda e: f"{e.source}/{e.target}/{e.distinguisher}")}
    if view:
        h = GraphView(S.g, make_func_property_map(lambda u: bool(V[u])), make_func_property_map(lambda e: bool(E[key(e)])))
        gdp = GraphDp(h, dpv=dpv, dpe=dpe)
        if ctx.choice("what", ["json", "dot"]) == "dot":
            kind, vs, es, styles, other = parse_dot(gdp.to_dot())
            us = [int(u) for u, _ in vs]
            labels = [a.get("label") for *_, a in es]
        else:
            d = json.loads(gdp.to_json())
            us = [x["id"] for x in d["vertices"]]
            labels = [x["label"] for x in d["edges"]]
        vis = lambda p, i: And(S.cells.count(p) > i, E[p + (i,)], V[p[0]], V[p[1]])
    else:
        gdp = GraphDp(S.g, dpv=dpv, dpe=dpe)
        coll = ctx.choice("coll", [list, iter])
        d = json.loads(gdp.to_json(vs=coll([u for u in S.g.vertices() if V[u]]), es=coll([e for e in S.g.edges() if E[key(e)]])))
        us = [x["id"] for x in d["vertices"]]
        labels = [x["label"] for x in d["edges"]]
        ctx.check(all(x["label"] == f'n"{x["id"]}' and set(x) == {"id", "label"} for x in d["vertices"]), "each vertex with its properties")
        ctx.check(all(x["label"].startswith(f'{x["source"]}/{x["target"]}/') for x in d["edges"]), "each edge with its ends")
        vis = lambda p, i: And(S.cells.count(p) > i, E[p + (i,)])
    ctx.check(len(set(us)) == len(us) and len(set(labels)) == len(labels), "each vertex and each edge once")
    for u in range(n):
        ctx.check(Iff(u in us, V[u]), "exactly the vertices chosen")
        ctx.cover("vertex hidden", Not(V[u]))
    for p in S.pairs:
        for i in range(k - 1):
            ctx.check(Iff(f"{p[0]}/{p[1]}/{i}" in labels, vis(p, i)), "exactly the edges chosen")
            ctx.cover("edge", vis(p, i))
            ctx.cover("edge hidden", And(S.cells.count(p) > i, Not(vis(p, i))))


# ------------------------------------------------------------------- C45
from fractions import Fraction
TOL = Fraction(1, 10 ** 9)      # rounding is no defect


def close(a, b):
    return And(a - b <= TOL, b - a <= TOL)


@job("C45", quick=[dict()], covers=("black", "white", "grey", "color"), path_s=20)
def colors(ctx):
    """hsv_to_hsl and hsl_to_hsv over all colours (real components in [0, 1])."""
    from pybgl.color import hsv_to_hsl, hsl_to_hsv, normalize_color_tuple
    h, s, x = ctx.real("h", 0, 1), ctx.real("s", 0, 1), ctx.real("x", 0, 1)
    way = ctx.choice("way", ["hsv", "hsl", "normalize"])
    if way == "normalize":
        H, S, X = ctx.real("H", 0, 360), ctx.real("S", 0, 100), ctx.real("X", 0, 100)
        a, b, c = normalize_color_tuple(H, S, X)
        ctx.check(And(close(a * 360, H), close(b * 100, S), close(c * 100, X)), "normalize_color_tuple maps (360, 100, 100) to (1, 1, 1)")
        return
    if way == "hsv":
        h2, s2, l = hsv_to_hsl(h, s, x)
        v, sv = x, s
        sl = s2
    else:
        h2, s2, v = hsl_to_hsv(h, s, x)
        l, sl = x, s
        sv = s2
    ctx.cover("black", Eq(x, 0))
    ctx.cover("white", And(Eq(x, 1), Eq(s, 0)))
    ctx.cover("grey", And(Eq(s, 0), x > 0, x < 1))
    ctx.cover("color", And(s > 0, x > 0, x < 1))
    ctx.check(close(h2, h), "the hue is the same")
    ctx.check(And(s2 >= -TOL, s2 <= 1 + TOL), "the saturation stays in [0, 1]")
    # the same colour: same greatest and same least component
    c = Min(l, 1 - l)
    ctx.check(close(v, l + sl * c), "both triples have the same greatest component")
    ctx.check(close(v - v * sv, l - sl * c), "both triples have the same least component")
    back = hsl_to_hsv(h2, s2, l) if way == "hsv" else hsv_to_hsl(h2, s2, v)
    ctx.check(close(back[2], x), "the conversions are inverse of each other")
    ctx.check(Implies(And(x > 0, x < 1), close(back[1], s)), "the conversions are inverse of each other (saturation)")


@contextlib.contextmanager
def numbers_as_text(ctx, M, read):
    """Lets the module M read symbolic numbers from a text and write them: `read`
    maps the placeholders of the text to the numbers; what M writes is read by
    the function given to the caller.  (Symbolic exploration only.)"""
    out = []
    if not ctx.symbolic or getattr(ctx, "eager", False):
        yield lambda s: Fraction(s) if "e" not in s else Fraction(float(s))
        return

    def number(s=0, *a):
        from symex.values import SymWord, SymSym
        if isinstance(s, SymWord):
            if any(isinstance(c, SymSym) for c in s.strip()):
                s = s.strip()
                w, x = read[""]
                return x if len(s) == len(w) and all(a is b for a, b in zip(s, w)) else digits_value(s)
            s = "".join(s.chars)
        n = int(s, *a) if not isinstance(s, str) else int(float(s))
        return read.get(n, n)

    def text(x):
        out.append(x)
        return f"{90000000 + len(out)}.5"

    def back(s):
        x = float(s)
        i = int(x) - 90000001
        return out[i] if 0 <= i < len(out) else Fraction(s)
    saved = {k: M.__dict__[k] for k in ("int", "float") if k in M.__dict__}
    SymNum.text = staticmethod(text)
    M.int = M.float = number
    try:
        yield back
    finally:
        SymNum.text = None
        for k in ("int", "float"):
            M.__dict__.pop(k, None)
            if k in saved:
                M.__dict__[k] = saved[k]


def digits_value(w):
    from .regex import digit
    return Sum([digit(c) * 10 ** (len(w) - 1 - i) for i, c in enumerate(w)])


@job("C45", quick=[dict()], covers=("hsl", "digits", "other"), path_s=20)
def html_colors(ctx):
    """html_color_to_graphviz of every colour hsl(h, s%, l%) (integers, one of
    them spelt by symbolic digits), however it is spaced: the three numbers are
    the normalized HSV triple of the colour; any other colour is left as it is."""
    M = module("color")
    w = ctx.choice("other", ["no", "#40e0d0", "turquoise", "", "0.2 0.3 0.4"])
    if w != "no":
        ctx.cover("other")
        ctx.check(M.html_color_to_graphviz(w) == w, "a colour which is no hsl(...) is left as it is")
        return
    ctx.cover("hsl")
    num = [ctx.int("H", 0, 360), ctx.int("S", 0, 100), ctx.int("L", 0, 100)]
    spelt = ctx.choice("spelt", [None, 0, 1, 2])
    txt = None
    if spelt is not None:
        ctx.cover("digits")
        txt = ctx.word("digits", ctx.choice("len", [1, 2, 3]), alpha=list("0123456789"))
        ctx.assume(Eq(num[spelt], digits_value(txt)))
    H, S, L = num
    form = ctx.choice("form", ["hsl(%s, %s%%, %s%%)", "hsl(%s,%s%%,%s%%)", "hsl( %s , %s%% , %s%% )"])
    marks = {90000001: H, 90000002: S, 90000003: L}
    symbolic = ctx.symbolic and not getattr(ctx, "eager", False)
    if symbolic and txt is not None:
        marks[""] = (txt, num[spelt])
    color, parts = "", form.replace("%%", "%").split("%s")
    for i, p in enumerate(parts):
        color = color + p
        if i < 3:
            color = color + (txt if i == spelt else str(list(marks)[i] if symbolic else num[i]))
    with numbers_as_text(ctx, M, marks) as back:
        r = M.html_color_to_graphviz(color)
        parts = [x for x in r.replace(",", " ").split()]
        ctx.check(len(parts) == 3, "three numbers")
        h, s, v = [back(x) for x in parts]
    l, sl = L / Fraction(100), S / Fraction(100)
    ctx.check(close(h * 360, H), "the hue")
    ctx.check(And(s >= -TOL, s <= 1 + TOL, v >= -TOL, v <= 1 + TOL), "components in [0, 1]")
    c = Min(l, 1 - l)
    ctx.check(close(v, l + sl * c), "the same greatest component")
    ctx.check(close(v - v * s, l - sl * c), "the same least component")


# ------------------------------------------------------------------- C46
@job("C46", quick=[dict(n=3, k=2)], thorough=[dict(n=3, k=3, loops=False), dict(n=4, k=2, loops=False)], covers=("bfs", "dfs", "dijkstra"))
def aggregated(ctx, n, k, loops=True):
    """AggregatedVisitor over traversals of every multigraph with n vertices:
    each visitor sees the events it would see alone, in the order of the list."""
    from pybgl.aggregated_visitor import AggregatedVisitor
    from pybgl.breadth_first_search import breadth_first_search, DefaultBreadthFirstSearchVisitor
    from pybgl.depth_first_search import depth_first_search, DefaultDepthFirstSearchVisitor
    from pybgl.dijkstra_shortest_paths import dijkstra_shortest_paths, DijkstraVisitor
    S = sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    algo = ctx.choice("algo", ["bfs", "dfs", "dijkstra"])
    ctx.cover(algo)
    base = dict(bfs=DefaultBreadthFirstSearchVisitor, dfs=DefaultDepthFirstSearchVisitor, dijkstra=DijkstraVisitor)[algo]
    ticks = []
    back = ctx.choice("back", [None, True, "x"])       # (what the events return is nobody's concern)

    def spy(log):
        class Spy(base):
            pass
        for name in [x for x in dir(base) if not x.startswith("_")]:
            def f(self, x, h, name=name):
                log.append((name, x, h is g))
                ticks.append(log)
                return back
            setattr(Spy, name, f)
        return Spy()

    def run(vis):
        ticks.clear()
        if algo == "bfs":
            breadth_first_search(0, g, vis=vis)
        elif algo == "dfs":
            depth_first_search(0, g, vis=vis)
        else:
            dijkstra_shortest_paths(g, 0, make_assoc_property_map(defaultdict(lambda: 1)),
                                    make_assoc_property_map(defaultdict(set)), make_assoc_property_map(defaultdict(int)), vis=vis)

    alone, l1, l2 = [], [], []
    run(spy(alone))
    v1, v2 = spy(l1), spy(l2)
    run(AggregatedVisitor([v1, v2]))
    ctx.check(bool(alone) and l1 == alone and l2 == alone, "each visitor sees every event, with its arguments")
    ctx.check(len(ticks) == 2 * len(alone) and all(t is (l1 if i % 2 == 0 else l2) for i, t in enumerate(ticks)), "the visitors are called in order, event by event")
    ctx.check(And([Implies(And(S.E(0, v), v != 0), any(e[0] == "discover_vertex" and e[1] == v for e in l2)) for v in range(n)]),
              "the successors of the source are discovered")


@job("C46", quick=[dict()], covers=("keyword", "found", "missing"))
def aggregated_api(ctx):
    """AggregatedVisitor: positional and keyword arguments, keys(), get()."""
    from pybgl.aggregated_visitor import AggregatedVisitor
    a, b = ctx.int("a"), ctx.int("b")
    log = []

    class A:
        pass

    class B:
        pass

    class AB:
        pass

    class BA:
        pass
    # (names may look like one another)
    named = ctx.choice("named", [("A", "B", "AB", "BA"), ("_A", "A", "A_", "__A__"), ("a", "A", "Aa", "aA"), ("V", "VV", "V1", "V_1")])
    for c, x in zip((A, B, AB, BA), named):
        c.__name__ = c.__qualname__ = x
    inner = ctx.choice("inner", [False, True])
    for c in (A, B, AB, BA):
        c.__module__ = "m.n" if inner else "__main__"
    A.f = lambda self, x, y=0: log.append((named[0], x, y))
    B.f = lambda self, x, y=0: log.append((named[1], x, y))
    AB.f = lambda self, x, y=0: log.append((named[2], x, y))
    BA.f = lambda self, x, y=0: log.append((named[3], x, y))
    va, vb, vab, vba = A(), B(), AB(), BA()
    m = ctx.choice("visitors", range(7))
    lst = [[], [va], [va, vb], [vb, va, va], [vab, va], [vba, va, vab], [vba, vab]][m]
    agg = AggregatedVisitor(lst)
    how = ctx.choice("how", ["positional", "keyword"])
    if how == "keyword":
        agg.f(a, y=b)
        ctx.cover("keyword")
    else:
        agg.f(a, b)
    want = [(type(v).__name__, a, b) for v in lst]
    ctx.check(len(log) == len(want), "every visitor is called once")
    for x, y in zip(log, want):
        ctx.check(And(x[0] == y[0], Eq(x[1], y[1]), Eq(x[2], y[2])), "every visitor receives the arguments, in order")
    ctx.check(agg.keys() == {AggregatedVisitor.type_to_key(v) for v in lst}, "keys() holds one key per type")
    for v in (va, vb, vab, vba):
        with contextlib.redirect_stdout(io.StringIO()):
            got = agg.get(AggregatedVisitor.type_to_key(v), "none")
        ctx.check(got is v if v in lst else got == "none", "get() retrieves the visitor of that type")
        ctx.cover("found" if v in lst else "missing")


# ------------------------------------------------------------------- C47
@job("C47", quick=[dict(ops=3)], thorough=[dict(ops=5)], covers=("absorbed", "combined", "write", "default"))
def maps_and_operators(ctx, ops):
    """Property maps under every history of `ops` writes and reads of symbolic
    values; the weight operators on arbitrary numbers."""
    from pybgl import property_map as P
    from pybgl import algebra as A
    part = ctx.choice("part", ["assoc", "read only", "operators", "relations"])
    if part == "assoc":
        d = defaultdict(lambda: -1)
        m = P.make_assoc_property_map(d)
        ref = {}
        for i in range(ops):
            k = ctx.choice(f"k{i}", ["x", "y"])
            op = ctx.choice(f"op{i}", ["write", "put", "read", "get"])
            if op in ("write", "put"):
                v = ctx.int(f"v{i}")
                if op == "write":
                    m[k] = v
                else:
                    P.put(m, k, v)
                ref[k] = v
                ctx.cover("write")
            else:
                got = m[k] if op == "read" else P.get(m, k)
                ctx.check(Eq(got, ref.get(k, -1)), "a property map returns the last value written, or the default one")
                ctx.cover("default", k not in ref)
        for k, v in ref.items():
            ctx.check(Eq(d[k], v), "the wrapped dictionary holds the values written")
        try:
            P.make_assoc_property_map({})
            ctx.fail("make_assoc_property_map refuses a plain dict")
        except TypeError:
            pass
    elif part == "read only":
        x, c = ctx.int("x"), ctx.int("c")
        for m, want in ((P.make_func_property_map(lambda k: k * 2 + c), 2 * x + c), (P.identity_property_map(), x),
                        (P.make_constant_property_map(c), c)):
            ctx.check(Eq(m[x], want), "a read-only property map returns its value")
            ctx.check(Eq(P.get(m, x), want), "get() returns the same value")
            for f in (lambda: P.put(m, x, 1), lambda: m.__setitem__(x, 1)):
                try:
                    f()
                    ctx.fail("a read-only property map refuses to be written")
                except RuntimeError:
                    pass
            try:
                del m[x]
                ctx.fail("a property map refuses deletions")
            except RuntimeError:
                pass
    elif part == "operators":
        name = ctx.choice("op", ["plus", "time", "max", "min"])
        op, f = {"plus": (A.ClosedPlus, lambda a, b: a + b), "time": (A.ClosedTime, lambda a, b: a * b),
                 "max": (A.ClosedMax, lambda a, b: Max(a, b)), "min": (A.ClosedMin, lambda a, b: Min(a, b))}[name]
        ab = ctx.choice("absorbing", ["default", "given"])
        z = (0 if name == "min" else A.INFINITY) if ab == "default" else ctx.real("z", 0)
        o = op() if ab == "default" else op(z)
        x, y = ctx.real("x", 0), ctx.real("y", 0)
        r = o(x, y)
        isz = Or(Eq(x, z), Eq(y, z))
        ctx.cover("absorbed", isz)
        ctx.cover("combined", Not(isz))
        ctx.check(Implies(isz, Eq(r, z)), "the absorbing element absorbs")
        ctx.check(Implies(Not(isz), Eq(r, f(x, y))), "otherwise the operator is the usual one")
        ctx.check(Eq(o(y, x), r), "the operator is commutative")
    else:
        x, y = ctx.real("x"), ctx.real("y")
        ctx.check(Iff(A.Less()(x, y), x < y), "Less is <")
        ctx.check(Iff(A.GreaterThan()(x, y), x > y), "GreaterThan is >")


@job("C50", quick=[dict(n=2, k=3), dict(n=3, k=2, loops=False)], thorough=[dict(n=3, k=3, loops=False), dict(n=3, k=2)],
     covers=("edge", "parallel", "no value", "ignored"))
def read_back(ctx, n, k, loops=True):
    """read_graphviz_dp of the export of every directed multigraph with n
    vertices: the vertices, the edges and the values of the properties the
    caller asks for; a property may have no value or the empty string, a name may
    have capitals."""
    from pybgl.graph import DirectedGraph
    from pybgl.graphviz import read_graphviz_dp
    S = sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    col = {u: ctx.choice(f"c{u}", ["red", "", None, "a; b=c"] if u == 0 else ["x y", None]) for u in range(n)}
    wt = {i: ctx.choice(f"w{i}", [0, None]) if i == 0 else i for i in range(k - 1)}
    s = g.to_dot(dpv={"color": make_func_property_map(lambda u: col[u]), "URL": make_func_property_map(lambda u: u)},
                 dpe={"weight": make_func_property_map(lambda e: wt[e.distinguisher]),
                      "headURL": make_func_property_map(lambda e: f"{e.source}/{e.target}")})
    what = ctx.choice("what", ["all", "some", "none"])
    mk = lambda: make_assoc_property_map(defaultdict(lambda: None))
    keys_v, keys_e = {"all": (["color", "URL"], ["weight", "headURL"]), "some": (["color"], ["headURL"]), "none": ([], [])}[what]
    ctx.cover("ignored", what != "all")
    dpv, dpe = {x: mk() for x in keys_v}, {x: mk() for x in keys_e}
    h = DirectedGraph()
    lines = s if ctx.choice("how", ["str", "lines"]) == "str" else s.splitlines()
    if what == "none":
        read_graphviz_dp(lines, h)
    else:
        read_graphviz_dp(lines, h, dpv, dpe)
    ctx.check(list(h.vertices()) == list(range(n)), "the vertices are read back")
    ctx.cover("no value", None in col.values())
    string = lambda x: None if x is None else str(x)
    for u in range(n):
        if "color" in dpv:
            ctx.check(dpv["color"][u] == col[u], "the values of the vertices are read back")
        if "URL" in dpv:
            ctx.check(dpv["URL"][u] == str(u), "the values of the vertices are read back")
    es = defaultdict(list)
    for e in h.edges():
        es[e.source, e.target].append(e)
    for p in S.pairs:
        l = es.pop(p, [])
        ctx.cover("edge", len(l) > 0)
        ctx.cover("parallel", len(l) > 1)
        ctx.check(Eq(len(l), S.cells.count(p)), "the edges are read back")
        for e in l:
            if "headURL" in dpe:
                ctx.check(dpe["headURL"][e] == f"{p[0]}/{p[1]}", "the values of the edges are read back")
        if "weight" in dpe:
            got = sorted(str(dpe["weight"][e]) for e in l)
            ctx.check(got == sorted(str(string(wt[i])) for i in range(len(l))), "the values of the edges are read back")
    ctx.check(not es, "no other edge is read")
    if what == "some":
        ctx.check(set(dpv) == {"color"} and set(dpe) == {"headURL"}, "the attributes without property map are ignored")


# ------------------------------------------------------------------- C51
@contextlib.contextmanager
def graphviz_program(status, out):
    """Stands in for the program `dot`: records its command lines and its input,
    answers `out` and `status`."""
    import subprocess
    G = module("graphviz")
    calls = []

    class Program:
        def __init__(self, args, *a, **kw):
            self.args = args
            self.returncode = None
            self.text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding"))
            self.stdin, self.stdout, self.stderr = io.BytesIO(), io.BytesIO(out), io.BytesIO(b"complaint")
            calls.append([args, None])

        def communicate(self, input=None, timeout=None):
            calls[-1][1] = input.encode("utf-8") if isinstance(input, str) else input
            self.returncode = status
            return (out.decode("utf-8"), "complaint") if self.text else (out, b"complaint")

        def wait(self, timeout=None):
            self.returncode = status
            return status

        def poll(self):
            return self.wait()

        def kill(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    saved = [(m, m.Popen) for m in (subprocess, G) if hasattr(m, "Popen")]
    try:
        for m, _ in saved:
            m.Popen = Program
        with contextlib.redirect_stderr(io.StringIO()):
            yield calls
    finally:
        for m, f in saved:
            m.Popen = f


@contextlib.contextmanager
def notebook():
    """Stands in for IPython: records what is displayed."""
    import sys
    import types
    shown = []
    d = types.ModuleType("IPython.display")
    d.HTML = lambda s=None, data=None: s if s is not None else data
    d.display = lambda *xs: shown.extend(xs)
    top = types.ModuleType("IPython")
    top.display = d
    saved = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
    sys.modules["IPython"], sys.modules["IPython.display"] = top, d
    try:
        yield shown
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def option(args, name):
    """the value of the option: -Xvalue or -X value"""
    for i, a in enumerate(args):
        if a == name:
            return args[i + 1] if i + 1 < len(args) else None
        if a.startswith(name):
            return a[len(name):]
    return None


@job("C51", quick=[dict(n=2, k=2), dict(n=2, k=2, und=True)], thorough=[dict(n=3, k=2, loops=False), dict(n=2, k=3)],
     covers=("failure", "svg", "binary", "notebook"))
def rendering(ctx, n, k, und=False, loops=True):
    """The functions which call the program dot (replaced by a stand-in whose
    exit status is symbolic): every multigraph with n vertices, any engine, svg
    or a binary format; files, HTML strings and notebooks."""
    import os
    import shutil
    import tempfile
    G = module("graphviz")
    I = module("ipynb")
    from pybgl.html import html
    S = sym_ugraph(ctx, n, loops=loops, k=k) if und else sym_digraph(ctx, n, loops=loops, k=k)
    g = S.g
    what = ctx.choice("what", ["run", "write", "svg", "html", "display", "display_svg", "display_body"])
    engine = ctx.choice("engine", [None, "neato"])
    fmt = ctx.choice("format", ["svg", "png"]) if what in ("run", "write") else "svg"
    out = '<?xml version="1.0"?>\n<svg w="50%">\u00e9 %s</svg>\n'.encode("utf-8") if fmt == "svg" else b"\x89PNG\r\n\x1a\n\xff\x00%d\n"
    status = ctx.int("status", -2, 2)
    kw = {"dpv": {"label": make_func_property_map(lambda u: "\u00e9" if u else "v")}} if what in ("html", "display") and ctx.bool("kw") else {}
    dot = g.to_dot(**kw)
    text = out.decode("utf-8") if fmt == "svg" else None
    color = ctx.choice("color", [None, "white", "hsl(1, 2%, 3%)"]) if what.startswith("display") else None
    to = ctx.choice("to", ["path", "file", "text file"]) if what == "write" else None
    # the arguments that equal the defaults may be left out
    short = engine is None and fmt == "svg" and ctx.choice("short", [False, True])
    tmp = tempfile.mkdtemp(prefix="c51")
    path = os.path.join(tmp, "x." + fmt)
    r, failed, content = None, False, None
    try:
        with graphviz_program(status, out) as calls, notebook() as shown:
            try:
                if what == "run":
                    r = G.run_graphviz(dot) if short else G.run_graphviz(dot, engine, fmt)
                elif what == "write":
                    raw = io.BytesIO()
                    f = path if to == "path" else io.TextIOWrapper(raw, "utf-8") if to == "text file" else \
                        io.StringIO() if fmt == "svg" else io.BytesIO()
                    r = G.write_graphviz(dot, f) if short else G.write_graphviz(dot, f, engine or "dot", fmt)
                    if to == "file":
                        content = f.getvalue()
                        content = content.encode("utf-8") if fmt == "svg" else content
                    elif to == "text file":
                        ctx.check(not f.closed, "the file of the caller is left open")
                        f.flush()
                        content = raw.getvalue()
                elif what == "svg":
                    r = G.dot_to_svg(dot) if short else G.dot_to_svg(dot, engine or "dot")
                elif what == "html":
                    r = (G.dotstr_to_html(dot) if short else G.dotstr_to_html(dot, engine)) if not kw and ctx.choice("text", [False, True]) else \
                        G.graph_to_html(g, **kw) if short else G.graph_to_html(g, engine, **kw)
                elif what == "display_body":
                    if short:
                        I.display_body(text, path)
                        color = None
                    else:
                        I.display_body(text, path, color)
                elif what == "display":
                    I.ipynb_display_graph(g, background_color=color, **({"engine": engine} if engine else {}), **kw)
                else:
                    I.display_svg(text, path, background_color=color)
            except RuntimeError:
                failed = True
        if os.path.exists(path):
            with open(path, "rb") as f:
                content = f.read()
    finally:
        shutil.rmtree(tmp)
    if what in ("display_svg", "display_body"):
        ctx.cover("notebook")
        ctx.check(not calls and not failed, "display_svg does not call dot")
        page = content is not None and content.decode("utf-8").strip()
        if what == "display_body":
            ctx.check(page and page.startswith("<html>") and page.endswith("</html>") and page.count(f"<body>{text}</body>") == 1, "the page is written to the file")
            ctx.check(page in shown[-1], "the page is displayed")
        else:
            ctx.check(page == text.strip(), "the SVG is written to the file")
        ctx.check(len(shown) == 2 and path in shown[0], "a link to the file is displayed")
        ctx.check(text in shown[-1] and (color or "") in shown[-1] and "%%" not in shown[-1], "the SVG is displayed on the given background")
        return
    ctx.check(len(calls) == 1, "dot is called once")
    args, data = calls[0]
    args = args.split() if isinstance(args, str) else list(args)
    prog = os.path.basename(args[0])
    ctx.check(prog in ("dot", engine) and option(args[1:], "-T") == fmt and (option(args[1:], "-K") or prog) == (engine or "dot"), "dot is given the format and the engine")
    ctx.check(data == dot.encode("utf-8"), "dot is given exactly the text")
    ctx.check(Iff(failed, Not(Eq(status, 0))), "a RuntimeError tells that dot failed, and nothing else does")
    ctx.cover("failure", failed)
    if failed:
        ctx.check(not shown and not content, "nothing is written or displayed when dot fails")
        return
    if what == "run":
        ctx.cover("svg" if fmt == "svg" else "binary")
        ctx.check(r == (text if fmt == "svg" else out), "the result is the output of dot")
    elif what == "write":
        ctx.check(r is True, "write_graphviz tells that it succeeded")
        ctx.check(content is not None and (content.strip() == out.strip() if fmt == "svg" else content == out), "the file holds the output of dot")
    elif what == "svg":
        ctx.check(r == text[text.index("<svg"):], "dot_to_svg: the svg element")
    elif what == "html":
        ctx.check(r == text, "graph_to_html: the output of dot")
    else:
        ctx.cover("notebook")
        ctx.check(len(shown) == 1 and text in shown[0] and (color or "") in shown[0] and "%%" not in shown[0], "the graph is displayed once, on the given background")


@job("C51", quick=[dict()], covers=("beside", "notebook", "elsewhere"))
def notebook_helpers(ctx):
    """in_ipynb in and out of a notebook, background_template_html, beside."""
    import sys
    import types
    from pybgl.html import beside
    I = module("ipynb")
    texts = {x: ctx.choice(x, [f"<{x} w='5%'>%s %(title)s", ""] if x in ("contents1", "title") else [f"<{x} w='5%'>%d"]) for x in
             ("contents1", "contents2", "title", "title1", "title2")}
    full = ctx.choice("full", [False, True])
    r = beside(*texts.values()) if full else beside(texts["contents1"], texts["contents2"])
    pos = {x: r.find(t) for x, t in texts.items() if full or x.startswith("contents")}
    ctx.cover("beside")
    ctx.check(min(pos.values()) >= 0 and "%%" not in r, "both contents and the titles are part of the result, as they are")
    if texts["contents1"]:
        ctx.check(pos["contents1"] < pos["contents2"], "the contents come in order")
    if full:
        ctx.check(pos["title1"] < pos["title2"], "the titles come in order")
        if texts["title"]:
            ctx.check(pos["title"] < pos["title1"], "the title comes first")
    else:
        ctx.check("title" not in r.replace("%(title)s", ""), "no title is added")
    color = ctx.choice("color", [None, "", "white", "hsl(1, 2%, 3%)"])
    t = I.background_template_html(color) if color is not None or full else I.background_template_html()
    ctx.check(t % "50%" == (f"<div style='background-color:{color}'>50%</div>" if color else "50%"), "the template nests the content in the background")
    where = ctx.choice("where", ["no IPython", "terminal", "notebook"])
    old = {k: sys.modules.get(k) for k in ("IPython", "IPython.display")}
    top = None
    if where != "no IPython":
        top = types.ModuleType("IPython")
        shell = type("ZMQInteractiveShell" if where == "notebook" else "TerminalInteractiveShell", (),
                     {"__module__": "ipykernel.zmqshell" if where == "notebook" else "IPython.terminal.interactiveshell"})
        top.get_ipython = lambda: shell()
    sys.modules["IPython"] = top          # (None: the import fails)
    try:
        got = I.in_ipynb()
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    ctx.cover("notebook" if where == "notebook" else "elsewhere")
    ctx.check(got is (where == "notebook"), "in_ipynb tells notebooks from anything else")
