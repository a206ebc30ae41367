"""C06: pregroup trees and diagrams, and the reader that goes through them."""
import contextlib
import io
import random
import types as py

from hypothesis import strategies as st
import networkx as nx
import torch

from lambeq.backend import grammar as G
from lambeq.oncilla import BertForSentenceToTree, SentenceToTreeBertConfig
from lambeq.oncilla.parser import SentenceToTreeOutput
from lambeq.text2diagram.model_based_reader.oncilla_parser import (
    OncillaParseError, OncillaParser)
from lambeq.text2diagram.pregroup_tree import (PregroupTreeNode,
                                               PregroupTreeNodeError)
from lambeq.text2diagram.pregroup_tree_converter import (
    diagram2tree, generate_tree, remove_cycles, tree2diagram)
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.c03 import deriv, mk

P = 'C06'
prop(P, ['wires of a word linked to one another are not generated',
         'the neural model of Oncilla is a stand-in that returns generated '
         'types and parents'])

NAMES = ['a', 'b', 'the', 'é', 'x.y', "o'er"]


def ty(draw, mx=2):
    return draw(st.lists(st.tuples(st.sampled_from('ns'), st.sampled_from(
        [0, 0, 0, 1, -1, 2])).map(list), min_size=1, max_size=mx))


@st.composite
def trees(draw, maxn=7, lo=1):
    """{'w': words, 't': types, 'p': parents} of a tree; children of a node
    come in the order 'o'."""
    n = draw(st.integers(lo, maxn))
    p = [-1] * n
    if draw(st.booleans()):
        def rec(lo, hi, up):
            k = draw(st.integers(lo, hi - 1))
            p[k] = up
            for a, b in ((lo, k), (k + 1, hi)):
                while a < b:
                    m = draw(st.integers(a + 1, b))
                    rec(a, m, k)
                    a = m
        rec(0, n, -1)
    else:
        order = draw(st.permutations(range(n)))
        for k, i in enumerate(order[1:], 1):
            p[i] = order[draw(st.integers(0, k - 1))]
    return {'w': [draw(st.sampled_from(NAMES)) for _ in range(n)],
            't': [ty(draw) for _ in range(n)], 'p': p,
            'o': draw(st.booleans())}


def build(x, gaps=None):
    ind = gaps or range(len(x['w']))
    ns = [PregroupTreeNode(w, ind=i, typ=gr.mk_ty(t))
          for w, i, t in zip(x['w'], ind, x['t'])]
    root = None
    kids = [[] for _ in ns]
    for n, q in zip(ns, x['p']):
        if q < 0:
            root = n
        else:
            kids[q].append(n)
    for n, k in zip(ns, kids):
        n.children = k[::-1] if x['o'] else k
        n.__post_init__()
    return root


def crossing(x):
    es = [(min(i, q), max(i, q)) for i, q in enumerate(x['p']) if q >= 0]
    es.append((x['p'].index(-1), len(x['p'])))
    return any(a < c < b < d for a, b in es for c, d in es)


def plain(t):
    return [t.word, t.ind, gr.p_ty(t.typ),
            sorted((plain(c) for c in t.children), key=lambda c: c[1])]


def model(x, k=None):
    if k is None:
        k = x['p'].index(-1)
    return [x['w'][k], k, x['t'][k],
            [model(x, i) for i, q in enumerate(x['p']) if q == k]]


def view(D):
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'{D!r}: {why}')
    seen = [b for _, b, _ in p['layers'] if b['cls'] == 'Word']
    links, loops = ccg.trace(
        p, lambda b: next(i for i, w in enumerate(seen) if w is b))
    expect(loops == 0, 'there are closed loops')
    return p, seen, links


def words(D):
    return [[b['name'], b['cod']] for b in view(D)[1]]


@check(P, 'tree', trees, quick=2500, shards=2,
       rule='a tree of >= 4 words with crossing branches')
def tree(x, ctx):
    n = len(x['w'])
    cr = crossing(x)
    ctx.label('crossing' if cr else 'projective')
    ctx.nontrivial(n >= 4 and cr)
    T = build(x)
    expect(plain(T) == model(x), 'the tree is not as built')
    D = tree2diagram(T, x['w'])
    p, ws, links = view(D)
    expect(plain(T) == model(x), 'the tree changes')
    expect([w['name'] for w in ws] == x['w'], 'words')
    expect(p['dom'] == [] and [b for _, b, _ in p['layers']][:n] == ws,
           'the words are not at the top')
    root = x['p'].index(-1)
    expect(p['cod'] == x['t'][root],
           lambda: f"the type of the root is {x['t'][root]}, that of the "
           f"diagram {p['cod']}")
    # what every wire of a word is linked to
    to = {}
    for g in links:
        expect(len(g) == 2, lambda: f'linked: {g}')
        for a, b in (g, g[::-1]):
            to[tuple(a)] = tuple(b)
    for i, w in enumerate(ws):
        ends = [to[i, k] for k in range(len(w['cod']))]
        todo = {q: c for c, q in enumerate(x['p']) if q == i}
        todo = [c for c, q in enumerate(x['p']) if q == i] + [x['p'][i]]
        groups = []
        for k, e in enumerate(ends):
            other = -1 if e[0] == 'cod' else e[0]
            if not groups or groups[-1][0] != other:
                groups.append([other, []])
            groups[-1][1].append((w['cod'][k], e[1]))
        expect(sorted(g[0] for g in groups) == sorted(todo),
               lambda: f'word {i} is linked to {groups}, not to {todo}')
        for other, wires in groups:
            t = x['t'][i] if other == x['p'][i] else gr.rot_ty(
                x['t'][other], 1 if other < i else -1)
            expect([a for a, _ in wires] == t,
                   lambda: f'word {i} has {wires} for {other}, not {t}')
            at = [b for _, b in wires]
            d = 1 if other == -1 else -1
            expect(at == list(range(at[0], at[0] + d * len(at), d)),
                   lambda: f'word {i}: wires to {other}: {wires}')
    # and back
    B = diagram2tree(D)
    expect(plain(B) == model(x),
           lambda: f'{plain(B)} comes back for {model(x)}')
    expect(gr.p_diag(T.to_diagram(x['w'])) == p, 'to_diagram')
    only = gr.p_diag(tree2diagram(T, x['w'], no_morphisms=True))
    expect([b for _, b, _ in only['layers']]
           == [b for _, b, _ in p['layers']][:n], 'no_morphisms')
    if n > 1:
        try:
            T.to_diagram(x['w'][:-1])
        except PregroupTreeNodeError as e:
            expect(' '.join(x['w'][:-1]) in str(e), 'message')
        else:
            expect(False, 'a token less is accepted')


# ---- diagrams ------------------------------------------------------------

@st.composite
def planar(draw):
    """A planar pregroup diagram: words, and cups as pairs of wires."""
    nw = draw(st.integers(1, 6))
    n = draw(st.integers(nw - 1, nw + 2)) if nw > 1 else 0
    free = draw(st.integers(0, 2)) if n else draw(st.integers(1, 2))
    r = random.Random(draw(st.integers(0, 10**6)))
    while True:
        seq, op, left, f = [], 0, n, free
        while left or op:
            if op == 0 and f and r.random() < .3:
                seq.append('f')
                f -= 1
            elif left and (op == 0 or r.random() < .55):
                seq.append('(')
                left, op = left - 1, op + 1
            else:
                seq.append(')')
                op -= 1
        seq += 'f' * f
        m = len(seq)
        if m < nw:
            free, n = free + (nw == 1), n + (nw > 1)
            continue
        cuts = r.sample(range(1, m), nw - 1)
        wid = [sum(c <= i for c in cuts) for i in range(m)]
        st_, pairs, fr = [], [], []
        for i, c in enumerate(seq):
            if c == '(':
                st_.append(i)
            elif c == ')':
                pairs.append([st_.pop(), i])
            else:
                fr.append(i)
        if any(wid[a] == wid[b] for a, b in pairs):
            continue
        g = nx.Graph()
        g.add_nodes_from(range(nw))
        g.add_edges_from((wid[a], wid[b]) for a, b in pairs)
        if nx.is_connected(g):
            break
    tys = [None] * m
    for a, b in pairs:
        z = r.choice([0, 0, -1, 1])
        a_ = r.choice('ns')
        tys[a], tys[b] = [a_, z], [a_, z + 1]
    for i in fr:
        tys[i] = [r.choice('ns'), r.choice([0, 0, 1])]
    return {'w': [[draw(st.sampled_from(NAMES)),
                   [tys[i] for i in range(m) if wid[i] == k]]
                  for k in range(nw)],
            'cups': pairs, 'wid': wid, 'free': fr}


def draw_planar(x):
    D = G.Id().tensor(*[G.Word(w, gr.mk_ty(t)) for w, t in x['w']])
    at = list(range(len(x['wid'])))
    for a, b in sorted(x['cups'], key=lambda p: p[1] - p[0]):
        k = at.index(a)
        c = D.cod
        D >>= G.Id(c[:k]) @ G.Cup(c[k:k+1], c[k+1:k+2]) @ G.Id(c[k+2:])
        at[k:k+2] = []
    return D


def edges(t):
    for c in t.children:
        yield from edges(c)
        yield t.ind, c.ind, gr.p_ty(c.typ)


def from_diagram(D, p, ws, links, ctx, exact):
    """The tree of a diagram holds every link once."""
    n = len(ws)
    T = diagram2tree(D)
    free = sorted((g for g in links if g[0][0] == 'cod'), key=lambda g: g[0])
    expect(p['cod'] == gr.p_ty(T.typ) or not free,
           lambda: f'{T!r} for a diagram of type {p["cod"]}')
    if free:
        expect(T.ind == free[0][1][0], lambda: f'root {T!r}')
    # atoms linked between each two words, whichever is above
    want, got = {}, {}
    for g in links:
        if g[0][0] == 'cod':
            continue
        (i, a), (j, b) = g
        want.setdefault(tuple(sorted((i, j))), []).append(
            [ws[i]['cod'][a], ws[j]['cod'][b]] if i < j
            else [ws[j]['cod'][b], ws[i]['cod'][a]])
    for q, c, t in edges(T):
        for atom in t:
            o = [atom[0], atom[1] + (1 if c < q else -1)]
            got.setdefault(tuple(sorted((q, c))), []).append(
                [atom, o] if c < q else [o, atom])
    for d in (want, got):
        for k in d:
            # crossed wires may link types that are not adjoint
            d[k] = sorted([x if exact else x[0] for x in g] for g in d[k])
    expect(got == want, lambda: f'links {got} in the tree, {want} in the '
           'diagram')
    names = {(x.word, x.ind) for x in T._get_nodes_flat()}
    expect(names == {(w['name'], i) for i, w in enumerate(ws)},
           lambda: f'words {names}')
    is_tree = len(want) == n - 1
    ctx.label('tree' if is_tree else 'cyclic')
    B = diagram2tree(D, break_cycles=True)
    flat = B._get_nodes_flat()
    expect([x.ind for x in flat] == list(range(n)),
           lambda: f'words {[x.ind for x in flat]} after breaking cycles')
    expect(B.ind == T.ind and gr.p_ty(B.typ) == gr.p_ty(T.typ), 'root')
    es = list(edges(T))
    for e in edges(B):
        expect(e in es, lambda: f'{e} appears as cycles are broken')
    for x in flat:
        expect((x.parent is None) == (x is B)
               and (x.parent is None or any(x is c for c
                                            in x.parent.children)), 'parent')
    # the types of auxiliary verbs are put into an order of their own
    aux = any(w['cod'][-2:] == [['n', 1], ['s', 0]]
              and all(g[0][0] == i for g in links
                      if i in (g[0][0], g[1][0]))
              for i, w in enumerate(ws))
    if is_tree:
        expect(plain(B) == plain(T), 'a cycle is broken where there is none')
        if exact and not aux:
            E = tree2diagram(T, [w['name'] for w in ws])
            _, w2, l2 = view(E)
            expect([[b['name'], b['cod']] for b in w2]
                   == [[b['name'], b['cod']] for b in ws] and l2 == links,
                   lambda: f'{E!r} comes back for {D!r}')
    return is_tree


@check(P, 'diagram', planar, quick=2500, shards=2,
       rule='>= 3 words and >= 2 links between two of them')
def diagram(x, ctx):
    D = draw_planar(x)
    p, ws, links = view(D)
    ctx.nontrivial(len(ws) >= 3 and len(x['cups']) >= len(ws))
    if len({x['wid'][i] for i in x['free']}) > 1:
        ctx.label('free wires on several words')
        try:
            diagram2tree(D)
        except ValueError:
            return
        expect(False, 'a tree comes from free wires on several words')
    if not x['free']:
        ctx.label('no free wires')
    from_diagram(D, p, ws, links, ctx, True)


@check(P, 'derivation', lambda: deriv(change=False), quick=2000, shards=2,
       rule='a derivation of >= 3 words with caps or swaps')
def derivation(d, ctx):
    D = mk(d).to_diagram()
    p, ws, links = view(D)
    cls = {b['cls'] for _, b, _ in p['layers']}
    ctx.nontrivial(len(ws) >= 3 and cls & {'Cap', 'Swap'})
    for c in sorted(cls & {'Cap', 'Swap'}):
        ctx.label(c)
    if len({g[1][0] for g in links if g[0][0] == 'cod'}) > 1:
        ctx.label('free wires on several words')
        try:
            diagram2tree(D)
        except ValueError:
            return
        expect(False, 'a tree comes from free wires on several words')
    from_diagram(D, p, ws, links, ctx, not cls & {'Swap'})


# ---- nodes ---------------------------------------------------------------

def shown(text):
    """The tree drawn in a text, as nested lists of labels."""
    stack, root = [], None
    for line in text.split('\n'):
        k = max(line.find('├'), line.find('└'))
        x = [line[k + 2:] if k >= 0 else line, []]
        if root is None:
            expect(k < 0, 'the root is drawn as a branch')
            root, stack = x, [(-1, x, False)]
            continue
        while stack and stack[-1][0] >= k:
            stack.pop()
        expect(stack, lambda: f'drawn:\n{text}')
        expect(k < 0 or line[k + 1] == ' ', 'no space after a branch')
        stack[-1][1][1].append(x + [line[k], k])
        stack.append((k, x, False))
    return root


def lab(T):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        T.draw()
    text = out.getvalue()
    expect(text.endswith('\n'), 'draw')

    def tidy(x):
        for i, c in enumerate(x[1]):
            expect(c[2] == ('└' if i == len(x[1]) - 1 else '├')
                   and c[3] == x[1][0][3], lambda: f'branches:\n{text}')
        return [x[0], [tidy(c) for c in x[1]]]
    return tidy(shown(text[:-1]))


class M:
    """Model of a node."""

    def __init__(self, w, i, t):
        self.w, self.i, self.t, self.c, self.up = w, i, t, [], None

    def all(self):
        yield self
        for c in self.c:
            yield from c.all()

    def height(self):
        return 1 + max((c.height() for c in self.c), default=0)

    def lab(self):
        return [f'{self.w}_{self.i} ({gr.mk_ty(self.t)})',
                [c.lab() for c in self.c]]

    def plain(self):
        return [self.w, self.i, self.t, [c.plain() for c in self.c]]


@st.composite
def node_case(draw):
    x = draw(trees(6))
    n = len(x['w'])
    gaps, k = [], 0
    for _ in range(n):
        k += draw(st.sampled_from([0, 0, 0, 1]))
        gaps.append(k)
        k += 1
    x['ind'] = gaps
    if draw(st.booleans()):
        x['t'] = [x['t'][0]] * n
    x['ops'] = draw(st.lists(st.tuples(
        st.sampled_from(['merge', 'merge', 'loop', 'loops', 'drop']),
        st.integers(0, n - 1)).map(list), max_size=5))
    return x


def whole(x):
    return lambda: f'{x}'


@check(P, 'nodes', node_case, quick=1500,
       rule='a tree changes')
def nodes(x, ctx):
    T = build(x, x['ind'])
    ms = [M(w, i, t) for w, i, t in zip(x['w'], x['ind'], x['t'])]
    order = range(len(ms))[::-1] if x['o'] else range(len(ms))
    for k in order:
        if x['p'][k] >= 0:
            ms[k].up = ms[x['p'][k]]
            ms[k].up.c.append(ms[k])
    R = ms[x['p'].index(-1)]

    def pair(t, m):
        expect(len(t.children) == len(m.c), lambda: f'children of {t!r}')
        yield t, m
        for a, b in zip(t.children, m.c):
            yield from pair(a, b)

    def look():
        ps = list(pair(T, R))
        for t, m in ps:
            expect([t.word, t.ind, gr.p_ty(t.typ)] == [m.w, m.i, m.t],
                   lambda: f'{t!r} for {m.lab()}')
            expect((t.parent is None) == (m.up is None) and (
                m.up is None or any(t.parent is a for a, b in ps
                                    if b is m.up)), lambda: f'parent: {t!r}')
            expect(t.height == m.height(),
                   lambda: f'{t!r} has height {t.height}, not {m.height()}')
            expect(lab(t) == m.lab(), lambda: f'drawn: {lab(t)}')
            expect(t.get_root() is T, 'root')
            below = sorted(m.all(), key=lambda a: a.i)
            inds = sorted({b.i for b in below})
            by = [[b for b in below if b.i == i] for i in inds]
            if m.up is None or all(len(b) == 1 for b in by):
                expect(t.get_words() == [b[0].w for b in by]
                       and t.get_word_indices() == inds, 'words')
                expect([sorted(map(str, a)) for a in t.get_types()]
                       == [sorted(str(gr.mk_ty(c.t)) for c in b)
                           for b in by], 'types')
                expect([sorted(map(str, a))
                        for a in t.get_types(as_str=False)]
                       == [sorted(str(gr.mk_ty(c.t)) for c in b)
                           for b in by], 'types')
                expect([sorted(a) for a in t.get_parents()]
                       == [sorted(c.up.i if c.up else -1 for c in b)
                           for b in by], 'parents')
                expect([[c.ind for c in a] for a in t.get_nodes()]
                       == [[i] * len(b) for i, b in zip(inds, by)], 'nodes')
        if len({m.i for _, m in ps}) == len(ps):
            for t, m in ps:
                d, up = 0, m
                chain = []
                while up is not None:
                    chain.append(up)
                    up = up.up
                expect(t.get_depth() == len(chain) - 1, 'depth')
                for t2, m2 in ps:
                    want = chain.index(m2) if m2 in chain else -1
                    expect(t.get_depth(t2) == want, 'depth')
                    expect((t == t2) == (t is t2) and (t != t2) == (
                        t is not t2), 'equality')
                    expect((t < t2) == (m.i < m2.i)
                           and (t > t2) == (m.i > m2.i), 'order')
                    expect(t.is_same_word(t2) == (t is t2), 'same word')
    look()
    expect(T == build(x, x['ind']) and build(x, x['ind']) == T, 'equality')
    for op, k in x['ops']:
        ps = list(pair(T, R))
        t, m = ps[k % len(ps)]
        if op == 'merge':
            c = m.c[0] if len(m.c) == 1 else None
            ok = c is not None and c.t == m.t and abs(c.i - m.i) == 1
            with contextlib.redirect_stdout(io.StringIO()):
                t.merge()
            if ok:
                ctx.nontrivial(True)
                ctx.label('merge')
                m.w = f'{m.w} {c.w}' if m.i < c.i else f'{c.w} {m.w}'
                m.i = min(m.i, c.i)
                m.c = c.c
                for b in m.c:
                    b.up = m
        elif op in ('loop', 'loops'):
            for t, m in [(t, m)] if op == 'loop' else ps[k % 3 == 1:]:
                s = M(m.w, m.i, m.t)
                s.up = m
                at = k % (len(m.c) + 1)
                m.c.insert(at, s)
                t.children.insert(at, PregroupTreeNode(
                    m.w, ind=m.i, typ=gr.mk_ty(m.t), parent=t))
        else:
            t.remove_self_cycles()
            for b in m.all():
                if any((c.w, c.i) == (b.w, b.i) for c in b.c):
                    ctx.nontrivial(True)
                    ctx.label('remove_self_cycles')
                b.c = [c for c in b.c if (c.w, c.i) != (b.w, b.i)]
        look()


# ---- trees from types and parents ----------------------------------------

@st.composite
def graph(draw, lo=2):
    """Parents, mostly a tree, and perhaps several, or cycles."""
    n = draw(st.integers(lo, 7))
    kind = draw(st.sampled_from(['tree', 'several', 'forest', 'any', 'bad']))
    order = draw(st.permutations(range(n)))
    p = [None] * n
    for k, i in enumerate(order):
        if k == 0 or (kind == 'forest' and draw(st.integers(0, 3)) == 0):
            p[i] = [-1]
            continue
        m = draw(st.integers(1, 2)) if kind == 'several' else 1
        p[i] = draw(st.lists(st.sampled_from(order[:k]), min_size=1,
                             max_size=m, unique=True))
        if kind == 'any':
            p[i] = [draw(st.sampled_from([j for j in range(n) if j != i]))]
    if kind == 'any':
        i = order[0]
        p[i] = [draw(st.sampled_from([j for j in range(-1, n) if j != i]))]
    if kind == 'bad':
        i = draw(st.integers(0, n - 1))
        p[i] = [draw(st.sampled_from([i, n, n + 1, -2]))]
    return {'kind': kind, 'p': p,
            'w': [draw(st.sampled_from(NAMES)) for _ in range(n)],
            't': [[ty(draw) for _ in q] for q in p]}


def generated(x):
    return generate_tree(x['w'], [[str(gr.mk_ty(t)) for t in ts]
                                  for ts in x['t']], x['p'])


def nodes_of(roots):
    for r in roots:
        yield from r._get_nodes_flat()


@check(P, 'generate', graph, quick=2000,
       rule='several parents, several roots or a cycle')
def generate(x, ctx):
    n, kind, p = len(x['w']), x['kind'], x['p']
    ctx.label(kind)
    if kind == 'bad':
        try:
            generated(x)
        except ValueError:
            return
        expect(False, 'impossible parents are accepted')
    roots, by = generated(x)
    expect([{a.ind for a in b} for b in by] == [{i} for i in range(n)],
           'nodes by word')
    flat = list(nodes_of(roots))
    expect({(a.ind, a.word) for a in flat} == set(enumerate(x['w'])),
           lambda: f'words {flat}')
    expect(len(flat) == sum(map(len, by)) and all(
        any(a is b for b in by[a.ind]) for a in flat), 'nodes by word')
    g = nx.Graph((i, q) for i, qs in enumerate(p) for q in qs if q >= 0)
    g.add_nodes_from(range(n))
    cyc = set()
    if kind == 'any':
        d = nx.DiGraph((i, q) for i, qs in enumerate(p) for q in qs)
        cyc = {i for c in nx.simple_cycles(d) for i in c}
    comps = list(nx.connected_components(g))
    expect(len(roots) == len(comps) and all(
        any(r.ind in c for r in roots) for c in comps),
        lambda: f'roots {roots}')
    ctx.nontrivial(kind in ('several', 'forest') and max(
        map(len, p)) + len(comps) > 2 or cyc)
    if cyc:
        ctx.label('cycle')
        expect(all(r.ind in cyc or p[r.ind] == [-1] for r in roots),
               lambda: f'roots {roots}')
    for i in range(n):
        if i in cyc:
            continue
        got = sorted([a.parent.ind if a.parent else -1, gr.p_ty(a.typ)]
                     for a in flat if a.ind == i)
        expect(got == sorted(map(list, zip(p[i], x['t'][i]))),
               lambda: f'word {i} has parents and types {got}')
    if len(roots) > 1 or cyc:
        return
    T = roots[0]
    expect([sorted(q) for q in T.get_parents()] == [sorted(q) for q in p]
           and T.get_words() == x['w'], 'parents')
    es = list(edges(T))
    remove_cycles(T)
    flat = T._get_nodes_flat()
    expect([a.ind for a in flat] == list(range(n)),
           lambda: f'words {flat} after breaking cycles')
    expect(all(e in es for e in edges(T)), 'breaking cycles adds edges')


# ---- Oncilla -------------------------------------------------------------

@st.composite
def batch(draw):
    xs = []
    for k in range(draw(st.integers(1, 4))):
        x = draw(st.one_of(graph(1), st.just(None), trees().map(
            lambda t: {'w': t['w'], 't': [[a] for a in t['t']],
                       'p': [[q] for q in t['p']], 'kind': 'tree'})))
        if x is not None:
            x['w'] = [f'{w}{i}of{k}' for i, w in enumerate(x['w'])]
            x['dot'] = draw(st.booleans())
        xs.append(x)
    return {'xs': xs, 'tok': draw(st.booleans())}


class Model:
    def __init__(self, xs):
        self.xs, self.seen = {tuple(x['w']): x for x in xs if x}, []

    def _sentence2pred(self, sent, tokenizer):
        self.seen.append(list(sent))
        x = self.xs[tuple(sent)]
        return py.SimpleNamespace(
            words=list(sent), parents=[list(q) for q in x['p']],
            types=[[str(gr.mk_ty(t)) for t in ts] for ts in x['t']])


def parser(model, tokenizer=None):
    o = OncillaParser.__new__(OncillaParser)
    o.verbose, o.model, o.tokenizer = 'suppress', model, tokenizer
    return o


@check(P, 'oncilla', batch, quick=1000,
       rule='>= 2 sentences, of which one fails and one does not')
def oncilla(c, ctx):
    want, fail = [], []
    for x in c['xs']:
        D = None
        if x is not None:
            try:
                roots, _ = generated(x)
                if len(roots) == 1:
                    D = roots[0].to_diagram(x['w'])
            except (ValueError, PregroupTreeNodeError):
                pass
        want.append(D)
        fail.append(D is None)
        if x and x['kind'] == 'tree':
            expect(D is not None and words(D) and [
                w for w, _ in words(D)] == x['w'], 'no diagram of a tree')
    ctx.nontrivial(len(want) > 1 and any(fail) and not all(fail))
    sents = [[] if x is None else x['w'] + ['.'] * x['dot']
             for x in c['xs']]
    if not c['tok']:
        sents = [' '.join(s) for s in sents]
    kw = {'tokenised': c['tok']}
    model = Model(c['xs'])
    before = repr(sents)
    got = parser(model).sentences2diagrams(
        sents, suppress_exceptions=True, **kw)
    expect(repr(sents) == before, 'the sentences change')
    expect(model.seen == [x['w'] for x in c['xs'] if x],
           lambda: f'the model gets {model.seen}')
    expect(len(got) == len(want) and all(
        (a is None) == (b is None) and a == b for a, b in zip(got, want)),
        lambda: f'{got}, expected {want}')
    for x, s, D in zip(c['xs'], sents, want):
        o = parser(Model([x]))
        expect(o.sentence2diagram(s, suppress_exceptions=True, **kw) == D,
               'sentence2diagram')
        try:
            E = o.sentence2diagram(s, **kw)
        except (OncillaParseError if x else ValueError) as e:
            ctx.label('empty' if x is None else 'refused')
            expect(D is None, lambda: f'refused: {e}')
            expect(x is None or ' '.join(x['w']) in str(e),
                   lambda: f'message {e}')
        else:
            expect(D is not None and E == D, lambda: f'{E!r}, not {D!r}')
    try:
        parser(model).sentences2diagrams(sents, **kw)
    except (OncillaParseError, ValueError):
        expect(any(fail), 'an exception for good sentences')
    else:
        expect(not any(fail), 'no exception for a bad sentence')
    for bad, kwb in ((c['xs'] and ['a b'], {'tokenised': True}),
                     ([['a', 'b']], {'tokenised': False})):
        try:
            parser(model).sentences2diagrams(bad, **kwb)
        except ValueError:
            pass
        else:
            expect(False, f'{bad} is accepted with {kwb}')


class Tokens(dict):
    def word_ids(self):
        return self.ids


class Net(BertForSentenceToTree):
    """The model with random scores in place of those of the encoders."""

    def forward(self, input_ids=None, n_tokens=None, word_ids=None, **kw):
        if not hasattr(self, 'raw'):
            m = input_ids.shape[1]
            self.raw = (torch.randn(1, m, len(self.config.types)),
                        torch.randn(1, m, 32))
        t, p = self.raw
        return SentenceToTreeOutput(
            type_logits=t, parent_logits=self.restrict_parent_options(
                p, None, n_tokens, word_ids))


def tokeniser(cut, rng):
    def tokenise(words, **kw):
        ids = [None]
        for i, _ in enumerate(words):
            ids += [i] * (cut[i - 1] if i else 1)
        ids.append(None)
        t = Tokens(input_ids=torch.tensor(
            [[rng.randrange(20) for _ in ids]]),
            token_type_ids=torch.zeros(1, len(ids), dtype=torch.int64),
            attention_mask=torch.ones(1, len(ids), dtype=torch.int64))
        t.ids = ids
        return t
    return tokenise


@check(P, 'model', lambda: st.fixed_dictionaries({
    'seed': st.integers(0, 10**6),
    'cut': st.lists(st.integers(1, 3), min_size=1, max_size=6)}), quick=300,
    rule='>= 3 words, and the root has to be forced')
def network(c, ctx):
    types = ['unk', 'n', 's', 'n.r @ s', 'n.l']
    torch.manual_seed(c['seed'])
    net = Net(SentenceToTreeBertConfig(
        types=types, vocab_size=20, hidden_size=8, num_hidden_layers=1,
        num_attention_heads=2, intermediate_size=8,
        max_position_embeddings=32)).eval()
    n = len(c['cut'])
    sent = [f'w{i}' for i in range(n)]

    def tok():
        return tokeniser(c['cut'], random.Random(c['seed']))
    out = net._sentence2pred(sent, tok())
    expect(out.words == sent and len(out.types) == len(out.parents) == n,
           'lengths')
    t = tok()([''] + sent)
    first = [t.ids.index(i + 1) for i in range(n)]
    expect(out.types == [[types[int(net.raw[0][0, k].argmax())]]
                         for k in first], 'types')
    L = net.raw[1][0, first, :n + 1].clone()
    for i in range(n):
        L[i, i + 1] = -torch.inf
    best = [int(L[i].argmax()) - 1 for i in range(n)]
    if best.count(-1) != 1:
        ctx.label('forced root')
        ctx.nontrivial(n >= 3)
        k = int(L[:, 0].argmax())
        best = [-1 if i == k else int(L[i, 1:].argmax())
                for i in range(n)]
    expect(out.parents == [[b] for b in best],
           lambda: f'parents {out.parents}, the scores ask for {best}')
    expect(all(b != i for i, b in enumerate(best)), 'own parent')
    o = parser(net, tok())
    try:
        D = o.sentence2diagram(sent, tokenised=True)
    except OncillaParseError:
        return
    expect([w for w, _ in words(D)] == sent, lambda: f'{D!r}')
