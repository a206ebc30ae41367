"""A02: tensor ansaetze give the tensor network they describe."""
import re

import numpy as np
from hypothesis import strategies as st

from lambeq import ansatz as A
from lambeq.backend import grammar as G
from lambeq.backend import tensor as T
from lambeq.backend.symbol import Symbol
from lbverif import gram as gr
from lbverif.core import Skip, check, expect, prop

P = 'A02'
prop(P, ['the factors of a split box are numbered from left to right'])


@st.composite
def ans_case(draw):
    kind = draw(st.sampled_from(['Tensor', 'MPS', 'MPS', 'Spider',
                                 'Spider']))
    return {'kind': kind,
            'ob': {a: draw(st.sampled_from([[2], [2], [3], [2, 3], [1], []]))
                   for a in 'nsp'},
            'order': draw(st.sampled_from([3, 3, 4] if kind == 'MPS'
                                           else [2, 2, 3, 4])),
            'bond': draw(st.integers(1, 3)), 'left': draw(st.booleans()),
            'd': draw(gr.diagrams(kinds=gr.ALL + ('box', 'word'), minl=1,
                                  maxl=4, maxw=5, maxdom=2,
                                  bz=(0, 0, 0, 0, 1, -1))),
            'seed': draw(st.integers(0, 10 ** 6))}


def mk_ansatz(s):
    ob = {G.Ty(a): T.Dim(*d) for a, d in s['ob'].items()}
    if s['kind'] == 'Tensor':
        return A.TensorAnsatz(ob)
    if s['kind'] == 'MPS':
        return A.MPSAnsatz(ob, bond_dim=s['bond'], max_order=s['order'],
                           uncurry_left=s['left'])
    return A.SpiderAnsatz(ob, max_order=s['order'], uncurry_left=s['left'])


def dims(s, t):
    # a wire of dimension one is no wire
    return [d for d in gr.wires_of(t, lambda n: s['ob'][n]) if d != 1]


def factors(s, b):
    """Shapes of the factors of an unrotated box: [(number, dims)], and a
    function from their tensors to that of the box (axes dom + cod)."""
    dom, cod = b['dom'], b['cod']
    if s['kind'] == 'Tensor':
        return [dims(s, dom) + dims(s, cod)], lambda ts: ts[0]
    if len(dom) + len(cod) <= s['order']:
        return [dims(s, dom) + dims(s, cod)], lambda ts: ts[0]
    if dom:
        # a state on both sides of which the domain has been bent
        if s['left']:
            word = gr.rot_ty(dom, 1) + cod
        else:
            word = cod + gr.rot_ty(dom, -1)
        nd, nc = len(dims(s, dom)), len(dims(s, cod))
        shapes, make = factors(s, dict(b, dom=[], cod=word))

        def bent(ts):
            t = make(ts)
            if s['left']:
                return t.transpose(list(range(nd))[::-1]
                                   + list(range(nd, nd + nc)))
            return t.transpose(list(range(nc, nc + nd))[::-1]
                               + list(range(nc)))
        return shapes, bent
    if s['kind'] == 'MPS':
        step = s['order'] - 2
        chunks = [cod[i:i + step] for i in range(0, len(cod), step)]
        bond = [s['bond']] if s['bond'] != 1 else []
        shapes = [(bond if i else []) + dims(s, c)
                  + (bond if i < len(chunks) - 1 else [])
                  for i, c in enumerate(chunks)]

        def make(ts):
            t = ts[0]
            for u in ts[1:]:
                t = np.tensordot(t, u, 1 if bond else 0)
            return t
        return shapes, make
    step = s['order'] - 1
    starts = list(range(0, len(cod) - 1, step))
    shapes = [dims(s, cod[i:i + step + 1]) for i in starts]
    total = dims(s, cod)

    def make(ts):
        t = np.ones(total, dtype=complex)
        for i, u in zip(starts, ts):
            before = len(dims(s, cod[:i]))
            t = t * u.reshape([1] * before + list(u.shape)
                              + [1] * (len(total) - before - u.ndim))
        return t
    return shapes, make


def size(shape):
    return int(np.prod(shape, dtype=int))


@check(P, 'meaning', ans_case, quick=1600, shards=4,
       rule='>= 2 boxes, one of which is split')
def meaning(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    bases = []
    for _, b, _ in p['layers']:
        while b['cls'] == 'Daggered':
            b = b['box']
        if b['cls'] in ('Box', 'Word'):
            bases.append(dict(b, dom=gr.rot_ty(b['dom'], -b['z']),
                              cod=gr.rot_ty(b['cod'], -b['z']), z=0))
    a = mk_ansatz(s)
    C = a(D)
    expect(gr.p_diag(D) == p, 'the ansatz changed the diagram')
    ctx.label(s['kind'])
    expect(list(C.dom.dim) == dims(s, p['dom'])
           and list(C.cod.dim) == dims(s, p['cod']),
           lambda: f'{C.dom} -> {C.cod}')
    expect(mk_ansatz(s)(gr.mk_diag(s['d'])) == C, 'another instance of the '
           'ansatz gives another diagram')
    rng = np.random.default_rng(s['seed'])
    vals, owner, built, split = {}, {}, {}, False
    for b in bases:
        key = repr([b['name'], b['dom'], b['cod']])
        B = G.Word(b['name'], gr.mk_ty(b['cod'])) if b['cls'] == 'Word' \
            else G.Box(b['name'], gr.mk_ty(b['dom']), gr.mk_ty(b['cod']))
        shapes, make = factors(s, b)
        split |= len(shapes) > 1
        syms = list(a(B.to_diagram()).free_symbols)
        expect(len(syms) == len(shapes), lambda: f'{B!r} gets the '
               f'parameters {syms}, expected {len(shapes)}')
        if s['kind'] != 'Tensor':
            syms.sort(key=lambda x: int(re.match(
                re.escape(b['name']) + r'_(\d+)_', x.name).group(1)))
        for x, shape in zip(syms, shapes):
            expect(x.name.startswith(b['name']), 'name of a parameter')
            expect(x.size == size(shape),
                   lambda: f'{x.name} has {x.size} entries, not '
                   f'{size(shape)}')
            # factors of equal shape are shared by the types of one word
            who = key if s['kind'] == 'Tensor' else b['name']
            expect(owner.setdefault(x.name, who) == who,
                   lambda: f'{x.name} is shared by {owner[x.name]} and {who}')
            vals.setdefault(x.name, rng.normal(size=x.size)
                            + 1j * rng.normal(size=x.size))
        if s['kind'] == 'Tensor':
            # the flow goes from rotated to plain wires
            x, = syms
            fd = [w for w in b['dom'] if w[1] % 2 == 0] \
                + [w for w in b['cod'] if w[1] % 2]
            fc = [w for w in b['cod'] if w[1] % 2 == 0] \
                + [w for w in b['dom'] if w[1] % 2]
            expect((x.directed_dom, x.directed_cod)
                   == (size(dims(s, fd)), size(dims(s, fc))),
                   lambda: f'{B!r} is directed {x.directed_dom} -> '
                   f'{x.directed_cod}')
        built[key] = make([np.asarray(vals[x.name]).reshape(shape)
                           for x, shape in zip(syms, shapes)])
    ctx.nontrivial(split and len(bases) > 1)
    syms = sorted(C.free_symbols)
    expect({x.name for x in syms} == set(vals),
           lambda: f'parameters {syms}, expected {set(vals)}')
    if not C.boxes and not C.dom:
        return

    def table(b, shape):
        return built[repr([b['name'], b['dom'], b['cod']])]
    want = gr.semantics(p, lambda n: [d for d in s['ob'][n] if d != 1],
                        table)
    if want.size > 5e4:
        raise Skip
    got = C.lambdify(*syms)(*[vals[x.name] for x in syms]).eval()
    expect(got.shape == want.shape and gr.same(got, want, 1e-7),
           lambda: f'{C!r} evaluates to {got}, not {want}')


@st.composite
def bad_case(draw):
    return {'d': draw(gr.diagrams(kinds=('box', 'word', 'frame'), minl=1,
                                  maxl=3, depth=1)),
            'order': draw(st.integers(-1, 4)), 'bond': draw(st.booleans())}


@check(P, 'refusals', bad_case, quick=200, shards=1,
       rule='a diagram with a frame')
def refusals(s, ctx):
    D = gr.mk_diag(s['d'])
    frames = any(b['k'] == 'frame' for _, b in s['d']['layers'])
    ctx.nontrivial(frames)
    ob = {G.Ty(x): T.Dim(2) for x in 'nsp'}
    for make in (lambda: A.TensorAnsatz(ob),
                 lambda: A.MPSAnsatz(ob, bond_dim=2),
                 lambda: A.SpiderAnsatz(ob)):
        try:
            make()(D)
            expect(not frames, 'a diagram with frames is accepted')
        except RuntimeError:
            expect(frames, 'a diagram without frames is refused')
    for cls, low, kw in ((A.MPSAnsatz, 3, {'bond_dim': 2}),
                         (A.SpiderAnsatz, 2, {})):
        try:
            cls(ob, max_order=s['order'], **kw)
            expect(s['order'] >= low, 'a maximum order that is too low')
        except ValueError:
            expect(s['order'] < low, 'a good maximum order is refused')
    if s['bond']:
        try:
            A.MPSAnsatz({**ob, G.Ty('B'): T.Dim(2)}, bond_dim=2)
            expect(False, 'the bond type is accepted as an object')
        except ValueError:
            pass
