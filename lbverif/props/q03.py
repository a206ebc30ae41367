"""Q03: conversion to and from tket keeps the meaning of a circuit."""
import pickle

import numpy as np
import pytket as tk
from hypothesis import strategies as st
from pytket.circuit import Op, OpType

from lambeq.backend import quantum as Q
from lambeq.backend.converters import tk as ltk
from lambeq.backend.symbol import Symbol
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop
from lbverif.props.q04 import closed

P = 'Q03'
prop(P, ['gates tket knows: H X Y Z S T, rotations, CX CY CZ CRx CRy CRz '
         'CCX, SWAP and their daggers; Y and its controlled form are not '
         'rotated',
         'post-selected and discarded qubits are not mixed in one circuit '
         'with more than one bit (see KNOWN_FINDINGS.txt)',
         'a measured bit is not swapped with a qubit'])

CTRL = ['X', 'Y', 'Z', 'Rx', 'Ry', 'Rz']


@st.composite
def tk_circuits(draw, discards=False, rot=True, **kw):
    """Circuits within the gate set."""
    kinds = ['gate', 'gate', 'ctrl', 'ctrl', 'ctrl', 'ket', 'swap',
             'scalar', 'sqrt', 'measure']
    kinds += ['discard', 'discard'] if discards else ['bra', 'bra']
    d = draw(qc.started(qc.circuits(minl=1, maxl=9, maxw=4, kinds=kinds,
                                    rot=rot, bit_swaps=False, ctrl_depth=1,
                                    **kw)))

    def fit(b):
        """Bring the gate within the set."""
        if b['k'] == 'gate':
            return dict(b, z=0) if b['g'] == 'Y' else b
        if b['k'] == 'ctrl':
            g = b['of']
            if g['g'] not in CTRL:
                g = {'k': 'gate', 'g': {'H': 'X', 'S': 'Z',
                                        'T': 'Z'}[g['g']]}
            b = dict(b, of=fit(g))
            if g['g'] == 'Y':
                b = dict(b, z=0)
            return b
        return b
    d['layers'] = [[o, fit(b)] for o, b in d['layers']]
    # Toffoli gates
    w = d['dom']
    out = []
    for o, b in d['layers']:
        i, c = qc.box_io(b)
        if b['k'] == 'ctrl' and b['of']['g'] == 'X' and abs(b['d']) > 1 \
                and draw(st.booleans()):
            k = draw(st.integers(1, abs(b['d']) - 1)) \
                * draw(st.sampled_from([1, -1]))
            rest = abs(b['d']) - abs(k)
            b = {'k': 'ctrl', 'd': rest if b['d'] > 0 else -rest,
                 'of': {'k': 'ctrl', 'd': k, 'of': b['of']},
                 'dag': b.get('dag', False), 'z': b.get('z', 0)}
        out.append([o, b])
    return {'dom': w, 'layers': out}


def case():
    return st.builds(lambda d: {'d': d}, st.one_of(
        tk_circuits(), tk_circuits(), tk_circuits(discards=True)))


def run_tk(circ, params=None):
    """Reference for pytket circuits: probabilities of the bits (axes)."""
    n = circ.n_qubits
    psi = np.zeros([2] * n, dtype=complex)
    psi[(0,) * n] = 1
    read = {}
    for cmd in circ.get_commands():
        if cmd.op.type == OpType.Measure:
            read[cmd.bits[0].index[0]] = cmd.qubits[0].index[0]
            continue
        qs = [q.index[0] for q in cmd.qubits]
        expect(not set(qs) & set(read.values()),
               'a gate after a measurement')
        u = cmd.op.get_unitary().reshape([2] * (2 * len(qs)))
        psi = np.tensordot(u, psi, axes=(
            list(range(len(qs), 2 * len(qs))), qs))
        psi = np.moveaxis(psi, list(range(len(qs))), qs)
    phase = circ.phase
    expect(not getattr(phase, 'free_symbols', None), 'symbolic phase')
    expect(sorted(read) == list(range(len(circ.bits))),
           lambda: f'bits {sorted(read)} of {len(circ.bits)} are read')
    p = np.abs(psi) ** 2
    order = [read[b] for b in sorted(read)]
    rest = [q for q in range(n) if q not in order]
    p = p.transpose(order + rest)
    return p.reshape(p.shape[:len(order)] + (-1,)).sum(-1)


def selected(circ, p):
    """Apply post-selection (keyed by bit) and scale."""
    idx = [slice(None)] * p.ndim
    for b, v in circ.post_selection.items():
        expect(0 <= b < p.ndim, lambda: f'post-selection on bit {b} of '
               f'{p.ndim}')
        idx[b] = v
    return p[tuple(idx)] * circ.scalar


@check(P, 'to_tk', case, quick=900, shards=4,
       rule='>= 4 layers with a post-selection or measurement after a gate '
       'on two qubits')
def to_tk(s, ctx):
    d = s['d']
    want = qc.mixed_eval(closed(d))
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(len(ks) > 3 and 'ctrl' in ks and any(
        k in ks[ks.index('ctrl'):] for k in ('bra', 'measure', 'discard')))
    for _, b in d['layers']:
        ctx.label(b['k'])
    D = qc.mk_diag(d)
    before = repr(D)
    C = D.to_tk()
    expect(repr(D) == before, 'to_tk changed the circuit')
    post = set(C.post_selection)
    nb = sum(k in ('bra', 'measure') for k in ks)
    expect(len(C.bits) == nb and len(post) == ks.count('bra'),
           'number of bits or post-selections')
    open_q = qc.diag_cod(d).count('q')
    if not (open_q or 'discard' in ks) or not post:
        got = selected(C, run_tk(C))
        expect(gr.same(got, want.real, 1e-7),
               lambda: f'{C!r} gives {got}, not {want.real}')
    else:
        # keys of the post-selection are qubits here
        pos = {}
        for cmd in C.get_commands():
            if cmd.op.type == OpType.Measure:
                pos[cmd.qubits[0].index[0]] = cmd.bits[0].index[0]
        p = run_tk(C)
        idx = [slice(None)] * p.ndim
        for q, v in C.post_selection.items():
            expect(q in pos, lambda: f'post-selected {q} is not read')
            idx[pos[q]] = v
        got = p[tuple(idx)] * C.scalar
        expect(gr.same(got, want.real, 1e-7),
               lambda: f'{C!r} gives {got}, not {want.real}')
    C2 = pickle.loads(pickle.dumps(C))
    expect(C2.post_selection == C.post_selection
           and C2.scalar == C.scalar
           and gr.same(run_tk(C2), run_tk(C)), 'pickle')


@st.composite
def back_case(draw):
    return {'d': draw(tk_circuits(discards=draw(st.booleans())))}


@check(P, 'round_trip', back_case, quick=600, shards=3,
       rule='>= 4 layers with a gate on two qubits')
def round_trip(s, ctx):
    """from_tk(to_tk(c)) denotes what c does."""
    d = s['d']
    ks = [b['k'] for _, b in d['layers']]
    D = qc.mk_diag(d)
    C = D.to_tk()
    open_q = qc.diag_cod(d).count('q')
    if (open_q or 'discard' in ks) and C.post_selection \
            or not C.n_qubits:
        ctx.label('no qubits, or post-selection and discards')
        return
    ctx.nontrivial(len(ks) > 3 and 'ctrl' in ks)
    want = qc.mixed_eval(closed(d)).real
    B = ltk.from_tk(C)
    got = B.eval(mixed=True)
    expect(not B.dom and got.shape == want.shape
           and gr.same(got, want, 1e-7),
           lambda: f'{C!r} becomes {B!r}, which evaluates to {got}, not '
           f'{want}')


@st.composite
def sym_case(draw):
    d = draw(tk_circuits(gates=('Rx', 'Ry', 'Rz', 'Rx', 'H')))
    return {'d': d, 'names': draw(st.lists(st.sampled_from('abc'),
                                           min_size=10, max_size=10)),
            'scales': draw(st.lists(st.sampled_from([1, 1, -1, 2, 0.5]),
                                    min_size=10, max_size=10)),
            'vals': draw(st.lists(qc.PHASES, min_size=3, max_size=3))}


@check(P, 'symbolic', sym_case, quick=400, shards=3,
       rule='>= 2 distinct symbols')
def symbolic(s, ctx):
    """Symbols survive both conversions."""
    seen = []
    val = dict(zip('abc', s['vals']))

    def visit(b):
        if b['k'] == 'ctrl':
            return dict(b, of=visit(b['of']))
        if b['k'] == 'gate' and b['g'] not in qc.FIXED:
            n = len(seen) % 10
            seen.append(n)
            return dict(b, i=n, p=val[s['names'][n]] * s['scales'][n])
        return b
    d = {'dom': s['d']['dom'], 'layers': [[o, visit(b)]
                                          for o, b in s['d']['layers']]}
    if qc.diag_cod(d).count('q'):
        w = qc.diag_cod(d)
        for i in reversed(range(len(w))):
            if w[i] == 'q':
                d['layers'].append([i, {'k': 'measure'}])
    want = qc.mixed_eval(closed(d)).real
    D = qc.mk_diag(d, phase=lambda b: s['scales'][b['i']]
                   * Symbol(s['names'][b['i']]))
    names = sorted({s['names'][n] for n in seen})
    ctx.nontrivial(len(names) > 1)
    C = D.to_tk()
    expect(sorted(map(str, C.free_symbols())) == names,
           lambda: f'{C!r} has symbols {C.free_symbols()}, not {names}')
    if not C.n_qubits:
        return
    B = ltk.from_tk(C)
    expect(B.free_symbols == {Symbol(n) for n in names},
           lambda: f'{B.free_symbols} are free after from_tk, not {names}')
    L = B.lambdify(*map(Symbol, 'abc'))(*s['vals'])
    got = L.eval(mixed=True)
    expect(gr.same(got, want, 1e-7),
           lambda: f'{B!r} at {val} evaluates to {got}, not {want}')
    import sympy
    C.symbol_substitution({sympy.Symbol(k): v for k, v in val.items()})
    expect(gr.same(selected(C, run_tk(C)), want, 1e-7),
           lambda: f'{C!r} (substituted)')


@st.composite
def pytket_case(draw):
    n = draw(st.integers(1, 4))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        gs = ['H', 'X', 'Y', 'Z', 'S', 'T', 'Sdg', 'Tdg', 'Rx', 'Ry', 'Rz']
        if n > 1:
            gs += ['CX', 'CY', 'CZ', 'CRx', 'CRy', 'CRz', 'SWAP'] * 2
        if n > 2:
            gs += ['CCX'] * 6
        g = draw(st.sampled_from(gs))
        k = 3 if g == 'CCX' else 2 if g[0] == 'C' or g == 'SWAP' else 1
        ops.append([g, draw(qc.PHASES) if 'R' in g else None,
                    list(draw(st.permutations(range(n))))[:k]])
    reads = list(draw(st.permutations(range(n))))[
        :draw(st.integers(0, n))]
    sel = [b for b in range(len(reads)) if draw(st.booleans())]
    return {'n': n, 'ops': ops, 'reads': reads,
            'sel': [[b, draw(st.integers(0, 1))] for b in sel],
            'scale': draw(st.sampled_from([1, 1, 2, 0.25]))}


@check(P, 'from_tk', pytket_case, quick=600, shards=3,
       rule='a gate on several qubits that are not in order')
def from_tk(s, ctx):
    C = ltk.Circuit(s['n'], len(s['reads']))
    for g, p, qs in s['ops']:
        ctx.nontrivial(len(qs) > 1 and qs != sorted(qs))
        args = ([2 * p] if p is not None else []) + qs
        getattr(C, g)(*args)
    for b, q in enumerate(s['reads']):
        C.Measure(q, b)
    C.post_select(dict(map(tuple, s['sel'])))
    C.post_processing = Q.Id(Q.bit ** (len(s['reads']) - len(s['sel'])))
    C.scale(s['scale'])
    want = selected(C, run_tk(C))
    D = ltk.from_tk(C)
    got = D.eval(mixed=True)
    expect(gr.same(got, want, 1e-7),
           lambda: f'{C!r} becomes {D!r}, which evaluates to {got}, not '
           f'{want}')
