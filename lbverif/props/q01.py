"""Q01: pure circuits evaluate to the product of their gates' matrices."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend import quantum as Q
from lambeq.backend.symbol import Symbol
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop

P = 'Q01'
prop(P, ['the reference applies textbook matrices one gate at a time',
         'Sqrt is used with positive numbers only'])


def case(**kw):
    return st.builds(lambda d: {'d': d}, qc.circuits(minl=1, **kw))


def rich(d):
    ks = [b['k'] for _, b in d['layers']]
    return len(ks) >= 3 and ('ctrl' in ks or 'u' in ks)


@check(P, 'eval', case, quick=1200, shards=4,
       rule='>= 3 layers with a controlled gate or a box on 2 qubits')
def eval_(s, ctx):
    d = s['d']
    want = qc.pure_eval(d)
    ctx.nontrivial(rich(d))
    for _, b in d['layers']:
        ctx.label(b['k'])
    D = qc.mk_diag(d)
    got = D.eval()
    expect(gr.same(got, want, 1e-8),
           lambda: f'{D!r} evaluates to\n{got}\nnot\n{want}')
    expect(not D.is_mixed, 'a pure circuit says it is mixed')
    n = len(d['dom'])
    if want.ndim <= 7:
        m = len(qc.diag_cod(d))
        both = np.multiply.outer(want, np.conj(want))
        ax = list(range(n)) + [n + m + i for i in range(n)] \
            + list(range(n, n + m)) + [2 * n + m + i for i in range(m)]
        got = D.eval(mixed=True)
        expect(gr.same(got, both.transpose(ax), 1e-8), 'eval(mixed=True)')


@st.composite
def law_case(draw):
    f = draw(qc.circuits(minl=1, maxl=4, maxw=3, maxdom=2))
    g = draw(qc.circuits(minl=1, maxl=4, maxw=3, dom=qc.diag_cod(f)))
    h = draw(qc.circuits(minl=1, maxl=3, maxw=2, maxdom=2))
    return {'f': f, 'g': g, 'h': h, 'z': draw(st.integers(-2, 3))}


@check(P, 'laws', law_case, quick=500, shards=3,
       rule='f, g, h have >= 4 layers together')
def laws(s, ctx):
    F, G, H = (qc.mk_diag(s[k]) for k in 'fgh')
    f, g, h = (qc.pure_eval(s[k]) for k in 'fgh')
    nf, nh = len(s['f']['dom']), len(s['h']['dom'])
    ctx.nontrivial(sum(len(s[k]['layers']) for k in 'fgh') >= 4)

    def is_(D, t, what):
        got = D.eval()
        expect(gr.same(got, t, 1e-8), lambda: f'{what}: {D!r} evaluates to '
               f'{got}, expected {t}')
    k = f.ndim - nf
    is_(F >> G, np.tensordot(f, g, axes=(list(range(nf, nf + k)),
                                         list(range(k)))), 'f >> g')
    fh = np.multiply.outer(f, h)
    o = f.ndim
    is_(F @ H, fh.transpose(
        list(range(nf)) + list(range(o, o + nh)) + list(range(nf, o))
        + list(range(o + nh, fh.ndim))), 'f @ h')
    fd = np.conj(f.transpose(list(range(nf, o)) + list(range(nf))))
    is_(F.dagger(), fd, 'dagger')
    is_(F.dagger().dagger(), f, 'double dagger')
    r = f
    if s['z'] % 2:
        r = np.conj(f.transpose(list(range(nf))[::-1]
                                + list(range(nf, o))[::-1]))
    is_(F.rotate(s['z']), r, f'rotate({s["z"]})')
    is_(F.dagger().rotate(s['z']), np.conj(r.transpose(
        list(range(nf, o)) + list(range(nf)))), 'rotated dagger')


@st.composite
def fluent_case(draw):
    n = draw(st.integers(1, 5))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        gs = ['H', 'S', 'T', 'X', 'Y', 'Z', 'Rx', 'Ry', 'Rz']
        if n > 1:
            gs += ['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP'] * 2
        if n > 2:
            gs += ['CCX', 'CCZ'] * 4
        g = draw(st.sampled_from(gs))
        k = 3 if g.startswith('CC') else 2 if g[0] == 'C' or g == 'SWAP' \
            else 1
        ops.append([g, draw(qc.PHASES) if 'R' in g else None,
                    list(draw(st.permutations(range(n))))[:k]])
    return {'n': n, 'ops': ops}


@check(P, 'fluent', fluent_case, quick=700, shards=2,
       rule='a gate on two or more qubits that are not neighbours')
def fluent(s, ctx):
    n = s['n']
    D = Q.Id(n)
    state = np.eye(2 ** n).reshape([2] * (2 * n)).astype(complex)
    for g, p, qs in s['ops']:
        ctx.nontrivial(len(qs) > 1 and max(qs) - min(qs) >= len(qs))
        ctx.label(g)
        if g == 'SWAP':
            state = np.swapaxes(state, n + qs[0], n + qs[1])
        else:
            t, base = qs[-1], g.lstrip('C')
            u = qc.FIXED[base] if p is None else qc.rot_matrix(base, p)
            new = np.moveaxis(np.tensordot(u, state, axes=(1, n + t)),
                              0, n + t)
            on = np.ones([2] * (2 * n), dtype=bool)
            for c in qs[:-1]:
                idx = [slice(None)] * (2 * n)
                idx[n + c] = 0
                on[tuple(idx)] = False
            state = np.where(on, new, state)
        D = getattr(D, g)(*([] if p is None else [p]), *qs)
    expect(D.dom == D.cod == Q.qubit ** n, 'types')
    got = D.eval()
    expect(gr.same(got, state, 1e-8),
           lambda: f'{s["ops"]} gives {D!r} which evaluates wrongly')


@st.composite
def struct_case(draw):
    return {'n': draw(st.integers(1, 3)), 'i': draw(st.integers(0, 4)),
            'o': draw(st.integers(0, 4)),
            'perm': list(draw(st.permutations(range(
                draw(st.integers(1, 4))))))}


@check(P, 'structure', struct_case, quick=200, shards=1,
       rule='two or more qubits, or a spider with >= 3 legs')
def structure(s, ctx):
    n, i, o = s['n'], s['i'], s['o']
    ctx.nontrivial(n > 1 or i + o > 2)

    def is_(D, t, what):
        got = D.eval()
        expect(gr.same(got, t, 1e-8), lambda: f'{what} evaluates to {got}')
    q = Q.qubit ** n
    pairs = gr.nested_pairs([2] * n)
    is_(Q.Diagram.cups(q, q), pairs, 'cups')
    is_(Q.Diagram.caps(q, q), pairs, 'caps')
    if i + o:
        is_(Q.Diagram.special_boxes['spider'](Q.qubit, i, o), gr.delta(i + o, 2), 'spider')
    p = s['perm']
    k = len(p)
    eye = np.eye(2 ** k).reshape([2] * (2 * k))
    is_(Q.Diagram.permutation(Q.qubit ** k, p),
        eye.transpose(list(range(k)) + [k + x for x in p]), 'permutation')
    bits = [x % 2 for x in p]
    ket = np.zeros([2] * k)
    ket[tuple(bits)] = 1
    is_(Q.Ket(*bits).to_diagram(), ket, 'Ket')
    is_(Q.Bra(*bits).to_diagram(), ket, 'Bra')
    is_(Q.Bit(*bits).to_diagram(), ket, 'Bit')


@st.composite
def sym_case(draw):
    d = draw(qc.circuits(minl=1, gates=('Rx', 'Ry', 'Rz', 'Rx', 'H', 'S'),
                         kinds=('gate', 'ctrl', 'ctrl', 'ket', 'swap',
                                'scalar')))
    return {'d': d, 'names': draw(st.lists(st.sampled_from('abc'),
                                           min_size=24, max_size=24)),
            'order': list(draw(st.permutations('abcz'))),
            'vals': draw(st.lists(qc.PHASES, min_size=4, max_size=4)),
            'scales': draw(st.lists(st.sampled_from(
                [1, 1, -1, 2, 0.5]), min_size=24, max_size=24))}


@check(P, 'symbolic', sym_case, quick=600, shards=3,
       rule='>= 2 distinct symbols, with a dagger, a rotation, a control or '
       'a scale')
def symbolic(s, ctx):
    d = s['d']
    seen = []
    val = dict(zip(s['order'], s['vals']))

    def visit(b):
        """Number the rotations, give each its phase by value."""
        if b['k'] == 'ctrl':
            return dict(b, of=visit(b['of']))
        if b['k'] == 'gate' and b['g'] not in qc.FIXED:
            n = len(seen)
            seen.append(n)
            return dict(b, i=n, p=val[s['names'][n % 24]]
                        * s['scales'][n % 24])
        return b
    num = {'dom': d['dom'], 'layers': [[o, visit(b)]
                                       for o, b in d['layers']]}
    want = qc.pure_eval(num)
    D = qc.mk_diag(num, phase=lambda b: s['scales'][b['i'] % 24]
                   * Symbol(s['names'][b['i'] % 24]))
    names = {s['names'][n % 24] for n in seen}
    expect(D.free_symbols == {Symbol(n) for n in names},
           lambda: f'free symbols {D.free_symbols}, expected {names}')
    before = repr(D)
    ctx.nontrivial(len(names) > 1)
    order = [Symbol(n) for n in s['order']]
    L = D.lambdify(*order)
    C = L(*s['vals'])
    expect(gr.same(C.eval(), want, 1e-8),
           lambda: f'{D!r} at {val} evaluates to {C.eval()}, not {want}')
    expect(not C.free_symbols, 'symbols are left')
    other = [v + 0.3 for v in s['vals']]
    L(*other)
    expect(gr.same(C.eval(), want, 1e-8), 'the first result has changed')
    expect(repr(D) == before and D.free_symbols == {
        Symbol(n) for n in names}, 'the symbolic circuit was changed')
    X = D.dagger().lambdify(*order)(*s['vals'])
    n = len(d['dom'])
    expect(gr.same(X.eval(), np.conj(want.transpose(
        list(range(n, want.ndim)) + list(range(n)))), 1e-8),
        'dagger of the symbolic circuit')
