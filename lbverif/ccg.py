"""Plain-data CCG categories and wirings.

Category: atom name, or [result, slash, argument].
"""
from __future__ import annotations

from hypothesis import strategies as st

from lambeq.text2diagram import ccg_type as CT
from lbverif import gram as gr

ATOMS = ['n', 's', 'np', 'p', 'x']


@st.composite
def cats(draw, depth=3, atoms=ATOMS):
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(atoms))
    return [draw(cats(depth - 1, atoms)), draw(st.sampled_from('/\\')),
            draw(cats(depth - 1, atoms))]


def mk(t):
    if isinstance(t, str):
        return CT.CCGType(t)
    return CT.CCGType(result=mk(t[0]), direction=t[1], argument=mk(t[2]))


def plain(c):
    """Through the public attributes only."""
    if c.is_complex:
        return [plain(c.result), c.direction, plain(c.argument)]
    return c.name if c.is_atomic else None


def gram(t):
    """The pregroup type: X/Y is X Y.l and X\\Y is Y.r X."""
    if isinstance(t, str):
        return [[t, 0]]
    r, d, a = gram(t[0]), t[1], gram(t[2])
    return r + gr.rot_ty(a, -1) if d == '/' else gr.rot_ty(a, 1) + r


def show(t, pretty=False):
    if isinstance(t, str):
        return t
    r, a = [x if isinstance(y, str) else f'({x})'
            for x, y in ((show(t[0], pretty), t[0]),
                         (show(t[2], pretty), t[2]))]
    if not pretty:
        return r + t[1] + a
    return f'{r}↢{a}' if t[1] == '/' else f'{a}↣{r}'


def subst(t, old, new):
    if t == old:
        return new
    if isinstance(t, str):
        return t
    return [subst(t[0], old, new), t[1], subst(t[2], old, new)]


def size(t):
    return 1 if isinstance(t, str) else size(t[0]) + size(t[2])


class Bad(Exception):
    pass


def read(text, conj=True):
    """Reference parser of the documented grammar; Bad if refused."""
    is_conj = conj and text.endswith('[conj]')
    if is_conj:
        text = text[:-6]
    pos = 0

    def bracketed():
        nonlocal pos
        if pos < len(text) and text[pos] == '(':
            pos += 1
            t = compound()
            if pos >= len(text) or text[pos] != ')':
                raise Bad
            pos += 1
            return t
        start = pos
        while pos < len(text) and text[pos] not in '()/\\':
            pos += 1
        if start == pos:
            raise Bad
        return text[start:pos]

    def compound():
        nonlocal pos
        t = bracketed()
        if pos < len(text) and text[pos] in '/\\':
            d = text[pos]
            pos += 1
            t = [t, d, bracketed()]
        return t
    t = compound()
    if pos != len(text):
        raise Bad
    return [t, '\\', t] if is_conj else t


# ---- wirings -------------------------------------------------------------

class Wiring:
    """How the ends of the wires of a structural diagram are linked.

    Ends are arbitrary labels; every box other than cup, cap and swap gets
    labels (occurrence, side, index)."""

    def __init__(self):
        self.up = {}

    def find(self, a):
        self.up.setdefault(a, a)
        while self.up[a] != a:
            a = self.up[a]
        return a

    def join(self, a, b):
        self.up[self.find(a)] = self.find(b)

    def pairs(self, keep=lambda a: True):
        groups = {}
        for a in list(self.up):
            if keep(a):
                groups.setdefault(self.find(a), []).append(a)
        return norm(groups.values())


def norm(pairs):
    return sorted((sorted(g, key=repr) for g in pairs), key=repr)


def trace(p, name=lambda b: b['name']):
    """Pairs of linked ends of a plain diagram: ('dom', i), ('cod', i),
    (word name, i); and the number of closed loops."""
    w = Wiring()
    scan = [('dom', i) for i in range(len(p['dom']))]
    for a in scan:
        w.find(a)
    fresh = 0
    for l, b, _ in p['layers']:
        k = len(l)
        nd = len(b['dom'])
        if b['cls'] == 'Cup':
            w.join(scan[k], scan[k + 1])
            new = []
        elif b['cls'] == 'Cap':
            fresh += 1
            new = [('cap', fresh, 0), ('cap', fresh, 1)]
            w.join(*new)
        elif b['cls'] == 'Swap':
            new = [scan[k + 1], scan[k]]
        else:
            for i in range(nd):
                w.join(scan[k + i], (name(b), 'in', i))
            new = [(name(b), i) for i in range(len(b['cod']))]
            for a in new:
                w.find(a)
        scan[k:k + nd] = new
    for i, a in enumerate(scan):
        w.join(a, ('cod', i))
    real = w.pairs(lambda a: a[0] != 'cap')
    roots = {w.find(a) for a in w.up if a[0] != 'cap'}
    loops = len({w.find(a) for a in w.up} - roots)
    return real, loops
