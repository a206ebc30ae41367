"""D01: diagrams move to and from DisCoPy unchanged."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar as G, quantum as Q, tensor as T
from lambeq.backend.symbol import Symbol
from lbverif import gram as gr, qc, tens as te
from lbverif.core import Skip, check, expect, prop

P = 'D01'
prop(P, ['the installed DisCoPy 1.2; circuits of the boxes that both sides '
         'have', 'rotated boxes are compared by structure: DisCoPy reads '
         'their rotation as a transpose, not as a conjugate'])


def discopy():
    warnings.simplefilter('ignore')
    from discopy import quantum as dq, tensor as dt
    from discopy.grammar import pregroup as dg
    return dg, dt, dq


def ty(t):
    return [[x.name, x.z] for x in t.inside]


def undo(b):
    """The specs of the box without its dagger."""
    return dict(b, dag=False, dom=gr.box_cod(b), cod=gr.box_dom(b))


def dg_box(b, x, dg):
    """Why the DisCoPy box x is not that of the spec b, or None."""
    k = b['k']
    if b.get('dag'):
        if not x.is_dagger:
            return 'not a dagger'
        if k == 'word':
            return dg_box(dict(b, dag=False), x.dagger(), dg)
        return dg_box(undo(b), x.dagger(), dg)
    if x.is_dagger:
        return 'a dagger'
    cls = {'box': dg.Box, 'word': dg.Word, 'cup': dg.Cup, 'cap': dg.Cap,
           'swap': dg.Swap, 'spider': dg.Spider}[k]
    if type(x) is not cls:
        return f'a {type(x).__name__}'
    if k in ('box', 'word') and (x.name, x.z) != (b['n'], b.get('z', 0)):
        return f'{x.name}, z={x.z}'
    if k == 'spider' and ty(x.typ) != [b['t']]:
        return f'of type {x.typ}'
    if (ty(x.dom), ty(x.cod)) != ([list(a) for a in gr.box_dom(b)],
                                  [list(a) for a in gr.box_cod(b)]):
        return f'from {x.dom} to {x.cod}'
    return None


@check(P, 'grammar', gr.diagrams, quick=600, shards=2,
       rule='>= 3 layers, one of them a rotated or daggered box')
def grammar(s, ctx):
    dg, _, _ = discopy()
    d = gr.mk_diag(s)
    bs = [b for _, b in s['layers']]
    ctx.nontrivial(len(bs) > 2 and any(b.get('z') or b.get('dag')
                                       for b in bs))
    x = d.to_discopy()
    expect(isinstance(x, dg.Diagram), lambda: f'a {type(x)}')
    expect(ty(x.dom) == s['dom'] and ty(x.cod) == gr.diag_cod(s),
           lambda: f'a diagram from {x.dom} to {x.cod}')
    expect(len(x.boxes) == len(bs), 'number of boxes')
    for i, ((off, b), y, o) in enumerate(zip(s['layers'], x.boxes,
                                             x.offsets)):
        why = dg_box(b, y, dg)
        expect(not why and o == off, lambda: f'box {i} at {o} is {y!r}, '
               f'expected {b} at {off}: {why}')
    back = G.Diagram.from_discopy(x)
    expect(back == d and gr.p_diag(back) == gr.p_diag(d),
           lambda: f'{d} comes back as {back}')


@check(P, 'tensor', te.diagrams, quick=500, shards=2,
       rule='>= 3 layers, no rotated box')
def tensor(s, ctx):
    _, dt, _ = discopy()
    d = te.mk_diag(s)
    x = d.to_discopy()
    expect(isinstance(x, dt.Diagram), lambda: f'a {type(x)}')
    dims = [(y.dom.inside, y.cod.inside) for y in x.boxes]

    def drop(v):
        return tuple(i for i in v if i != 1)
    want = [(drop(te.box_dom(b)), drop(te.box_cod(b)))
            for _, b in s['layers']]
    expect(dims == want and x.offsets == [o for o, _ in s['layers']],
           lambda: f'{x.boxes} at {x.offsets}')
    back = T.Diagram.from_discopy(x)
    expect(back.dom == d.dom and back.cod == d.cod, 'types')
    if not s['layers']:
        return
    a, b = te.ref_eval(s), None
    with np.errstate(all='ignore'):
        b = np.asarray(back.eval())
    expect(b.shape == a.shape and np.allclose(a, b, atol=1e-6),
           lambda: f'{d} comes back as {back}, which denotes another tensor')
    expect(len(back.boxes) == len(d.boxes) and all(
        type(p) is type(q) and (p.name, p.dom, p.cod, p.z) == (
            q.name, q.dom, q.cod, q.z)
        for p, q in zip(back.boxes, d.boxes)), lambda: f'{d} comes back as '
        f'{back}')
    if not any(b.get('z') for _, b in s['layers']):
        ctx.nontrivial(len(s['layers']) > 2)
        got = np.asarray(x.eval(dtype=complex).array)
        expect(got.size == a.size and np.allclose(
            got.ravel(), a.ravel(), atol=1e-6),
            'DisCoPy evaluates the tensor otherwise')


KINDS = ('gate', 'gate', 'gate', 'ctrl', 'ctrl', 'ket', 'bra', 'swap',
         'scalar', 'sqrt', 'discard', 'measure', 'encode')


@st.composite
def circuit(draw):
    d = draw(qc.circuits(kinds=KINDS, wires='qqqb', bit_swaps=False, minl=3,
                         rot=draw(st.sampled_from([True, False, False]))))
    return {'d': d, 'sym': draw(st.booleans())}


def rotated(b):
    return b.get('z') or 'of' in b and rotated(b['of'])


@check(P, 'quantum', circuit, quick=700, shards=3,
       rule='>= 3 layers, no rotated box, >= 1 controlled or daggered gate')
def quantum(s, ctx):
    _, _, dq = discopy()
    d = s['d']
    memo = {}

    def phase(b):
        return (Symbol(f'x{b["p"]}', scale=2.) if s['sym'] else b['p'])
    c = qc.mk_diag(d, phase)
    x = c.to_discopy()
    expect(isinstance(x, dq.Circuit), lambda: f'a {type(x)}')
    bs = [b for _, b in d['layers']]
    io = [tuple(map(len, qc.box_io(b))) for b in bs]
    expect([(len(y.dom), len(y.cod)) for y in x.boxes] == io
           and x.offsets == [o for o, _ in d['layers']],
           lambda: f'{x.boxes} at {x.offsets}')

    def bits(t):
        return ''.join('b' if len(w) and w == dq.bit else 'q' for w in t)
    expect(bits(x.dom) == d['dom'] and bits(x.cod) == qc.diag_cod(d),
           lambda: f'a circuit from {x.dom} to {x.cod}')
    back = Q.Diagram.from_discopy(x)
    expect(back.dom == c.dom and back.cod == c.cod
           and len(back.boxes) == len(c.boxes), 'types of the circuit that '
           'comes back')
    syms = c.free_symbols
    expect(back.free_symbols == syms, 'symbols')
    if syms:
        at = list(syms)
        f, g = c.lambdify(*at), back.lambdify(*at)
        v = [math.fmod(float(a.name[1:]), 1) for a in at]
        c, back, p = f(*v), g(*v), None
        ctx.label('symbols')
    mixed = qc.is_mixed(d)
    for p, q in zip(c.boxes, back.boxes):
        if p == q:
            continue
        # equal up to how it is written
        p, q = (np.asarray(z.to_diagram().eval()) for z in (p, q))
        expect(p.shape == q.shape and np.allclose(p, q, atol=1e-6),
               lambda: f'{c} comes back as {back}')
    if s['sym'] or not bs or any(map(rotated, bs)):
        return
    ctx.nontrivial(len(bs) > 2 and any(b['k'] == 'ctrl' or b.get('dag')
                                       for b in bs))
    try:
        want = qc.mixed_eval(d) if mixed else qc.pure_eval(d)
    except Skip:
        return
    ctx.label('mixed' if mixed else 'pure')
    got = np.asarray(back.eval())
    expect(np.allclose(got.ravel(), np.asarray(want).ravel(), atol=1e-6),
           'the circuit that comes back denotes another tensor')
    # DisCoPy forgets the dagger of a controlled gate when it evaluates
    if not mixed and 'b' not in d['dom'] and not any(
            b['k'] == 'ctrl' and "'dag': True" in str(b) for b in bs):
        got = np.asarray(x.eval().array)
        expect(np.allclose(got.ravel(), np.asarray(want).ravel(), atol=1e-6),
               'DisCoPy evaluates the circuit otherwise')


# ------------------------------------------------ circuits made by DisCoPy

@st.composite
def foreign(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(0, 8))):
        k = draw(st.sampled_from(['H', 'X', 'Y', 'Z', 'S', 'T', 'Rx', 'Ry',
                                  'Rz', 'CX', 'CZ', 'CRz', 'CRx', 'ctrl',
                                  'SWAP', 'scalar', 'sqrt', 'cap']))
        ops.append([k, draw(st.integers(0, 3)),
                    round(draw(st.floats(-1, 1)), 2),
                    draw(st.sampled_from([1, 1, 2, -1])),
                    draw(st.booleans())])
    return {'n': n, 'ops': ops, 'bits': draw(st.lists(
        st.integers(0, 1), min_size=8, max_size=8)),
        'end': draw(st.sampled_from(['', 'bra', 'discard', 'measure',
                                     'each']))}


@check(P, 'from_discopy', foreign, quick=500, shards=2,
       rule='>= 2 qubits and >= 3 gates')
def from_discopy(s, ctx):
    """Circuits written in DisCoPy denote the same in lambeq."""
    _, _, dq = discopy()
    n = s['n']
    q = dq.qubit
    x = dq.Ket(*s['bits'][:n])
    ref = [[i, {'k': 'ket', 'v': v}] for i, v in enumerate(s['bits'][:n])]

    def g(name, p=0, dag=False):
        return {'k': 'gate', 'g': name, 'p': p, 'dag': dag}
    for k, i, p, dist, dag in s['ops']:
        if k == 'scalar':
            b = dq.scalar(complex(p, dist))
            r = {'k': 'scalar', 're': p, 'im': -dist if dag else dist}
        elif k == 'sqrt':
            b = dq.sqrt(2 + p)
            r = {'k': 'sqrt', 're': 2 + p}
        elif k in ('CX', 'CZ', 'CRz', 'CRx'):
            b = getattr(dq, k)
            b = b(p) if 'R' in k else b
            r = {'k': 'ctrl', 'of': g(k[1:], p), 'd': 1, 'dag': dag}
        elif k == 'ctrl':
            b = dq.Controlled([dq.S, dq.Y, dq.Rx(p)][i % 3], dist)
            r = {'k': 'ctrl', 'of': g(['S', 'Y', 'Rx'][i % 3], p), 'd': dist,
                 'dag': dag}
        elif k == 'cap':
            if n > 3:
                continue
            b = dq.Circuit.caps(q, q)
        elif k == 'SWAP':
            b, r = dq.SWAP, {'k': 'swap', 'l': 'q', 'r': 'q'}
        else:
            b = getattr(dq, k)
            b = b(p) if k[0] == 'R' else b
            r = g(k, p, dag)
        w = len(b.dom)
        if w > n:
            continue
        i %= n - w + 1
        if k == 'cap':
            ref += [[i, {'k': 'ket', 'v': 0}], [i, {'k': 'ket', 'v': 0}],
                    [i, g('H')], [i, {'k': 'ctrl', 'of': g('X'), 'd': 1}],
                    [i, {'k': 'sqrt', 're': 2}]]
        else:
            ref.append([i, r])
            if dag:
                b = b.dagger()
        x = x >> dq.Id(q ** i) @ b @ dq.Id(q ** (n - i - w))
        n += len(b.cod) - w
    if s['end'] == 'bra':
        x = x >> dq.Bra(*s['bits'][-n:])
        ref += [[0, {'k': 'bra', 'v': v}] for v in s['bits'][-n:]]
    elif s['end'] == 'discard':
        x = x >> dq.Discard(n)
        ref += [[0, {'k': 'discard'}]] * n
    elif s['end'] == 'measure':
        x = x >> dq.Measure(n)
        ref += [[i, {'k': 'measure'}] for i in range(n)]
    elif s['end'] == 'each':
        m = [dq.Discard() if b else dq.Measure() for b in s['bits'][:n]]
        x = x >> dq.Id().tensor(*m)
        i = 0
        for b in s['bits'][:n]:
            ref.append([i, {'k': 'discard' if b else 'measure'}])
            i += 1 - b
    ctx.nontrivial(n > 1 and len(s['ops']) > 2)
    ctx.label(s['end'])
    c = Q.Diagram.from_discopy(x)
    ref = {'dom': '', 'layers': ref}
    expect(isinstance(c, Q.Diagram) and c.cod == qc.ty(qc.diag_cod(ref))
           and len(c.dom) == 0, 'types')
    want = np.asarray((qc.mixed_eval if qc.is_mixed(ref) else qc.pure_eval)(
        ref))
    got = np.asarray(c.eval())
    expect(got.size == want.size and np.allclose(
        got.ravel(), want.ravel(), atol=1e-6),
        lambda: f'{x} denotes {want}, {c} denotes {got}')
    expect(Q.Diagram.from_discopy(c.to_discopy()) == c,
           'a second round trip changes the circuit')
