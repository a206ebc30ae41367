"""Q05: PennyLane circuits compute what the lambeq circuit denotes."""
import contextlib
import io
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop

P = 'Q05'
prop(P, ['gates H X Y Z S T, rotations, CX CY CZ CRx CRy CRz, SWAP and '
         'their daggers, on the default.qubit simulator',
         'circuits with measurements are refused, as documented'])

CTRL = ['X', 'Y', 'Z', 'Rx', 'Ry', 'Rz']


@st.composite
def pl_circuits(draw, extra=(), rot=True, **kw):
    d = draw(qc.started(qc.circuits(minl=1, maxl=9, maxw=4, kinds=(
        'gate', 'gate', 'ctrl', 'ctrl', 'ket', 'bra', 'swap', 'scalar',
        'sqrt') + extra, rot=rot, ctrl_depth=1, **kw)))

    def fit(b):
        if b['k'] == 'gate':
            return dict(b, z=0) if b['g'] == 'Y' else b
        if b['k'] == 'ctrl':
            g = b['of']
            if g['g'] not in CTRL:
                g = {'k': 'gate', 'g': 'X'}
            b = dict(b, of=fit(g))
            return dict(b, z=0) if g['g'] == 'Y' else b
        return b
    return {'dom': d['dom'], 'layers': [[o, fit(b)]
                                        for o, b in d['layers']]}


def n_qubits(d):
    return len(d['dom']) + sum(b['k'] == 'ket' for _, b in d['layers'])


def quiet(f, *a, **k):
    with contextlib.redirect_stderr(io.StringIO()):
        return f(*a, **k)


@st.composite
def case(draw):
    return {'d': draw(pl_circuits()), 'names': draw(st.lists(
        st.sampled_from('abc'), min_size=10, max_size=10)),
        'scales': draw(st.lists(st.sampled_from([1, 1, -1, 2, 0.5]),
                                min_size=10, max_size=10)),
        'vals': draw(st.lists(qc.PHASES, min_size=3, max_size=3)),
        'sym': draw(st.booleans())}


def with_symbols(s):
    """(numeric spec, phase function, names used)"""
    seen = []
    val = dict(zip('abc', s['vals']))

    def visit(b):
        if b['k'] == 'ctrl':
            return dict(b, of=visit(b['of']))
        if b['k'] == 'gate' and b['g'] not in qc.FIXED:
            n = len(seen) % 10
            seen.append(n)
            return dict(b, i=n, p=val[s['names'][n]] * s['scales'][n])
        return b
    d = {'dom': s['d']['dom'],
         'layers': [[o, visit(b)] for o, b in s['d']['layers']]}
    return d, (lambda b: s['scales'][b['i']] * Symbol(s['names'][b['i']])
               ), sorted({s['names'][n] for n in seen}), val


@check(P, 'pure', case, quick=500, shards=4,
       rule='>= 4 layers with a controlled gate and a ket or bra')
def pure(s, ctx):
    d, phase, names, val = with_symbols(s)
    if not n_qubits(d):
        return
    # the state of the circuit on inputs 0
    want = qc.pure_eval(d)
    for _ in d['dom']:
        want = want[0]
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(len(ks) > 3 and 'ctrl' in ks
                   and ('bra' in ks or 'ket' in ks))
    for k in set(ks):
        ctx.label(k)
    D = qc.mk_diag(d, phase if s['sym'] else None)
    before = repr(D)
    for probs in (False, True):
        C = quiet(D.to_pennylane, probabilities=probs)
        if s['sym'] and names:
            C.initialise_concrete_params(
                {Symbol(k): torch.tensor(v) for k, v in val.items()})
        got = quiet(C.eval)
        t = np.abs(want) ** 2 if probs else want
        got = np.asarray(got.resolve_conj().detach().numpy())
        expect(gr.same(got.reshape(t.shape), t, 1e-5),
               lambda: f'{D!r} (probabilities={probs}) gives {got}, '
               f'expected {t}')
    expect(repr(D) == before, 'the circuit was changed')


@st.composite
def mixed_case(draw):
    return {'d': draw(pl_circuits(extra=('discard', 'discard')))}


@check(P, 'mixed', mixed_case, quick=300, shards=3,
       rule='>= 4 layers with a discard and a post-selection')
def mixed(s, ctx):
    """With discards, the probability of the post-selection."""
    d = s['d']
    ks = [b['k'] for _, b in d['layers']]
    if 'discard' not in ks or not n_qubits(d):
        return
    w = qc.diag_cod(d)
    c = {'dom': '', 'layers': [
        [i, {'k': 'ket', 'v': 0}] for i in range(len(d['dom']))]
        + d['layers'] + [[i, {'k': 'discard'}]
                         for i in reversed(range(len(w)))]}
    want = qc.mixed_eval(c).real
    ctx.nontrivial(len(ks) > 3 and 'bra' in ks)
    D = qc.mk_diag(d)
    C = quiet(D.to_pennylane)
    got = quiet(C.eval).detach().numpy()
    expect(gr.same(np.asarray(got).reshape(()), want, 1e-5),
           lambda: f'{D!r} gives {got}, expected {want}')


@check(P, 'measure', lambda: mixed_case(), quick=60, shards=1,
       rule='every circuit, with a measurement added at the end')
def measure(s, ctx):
    d = s['d']
    w = qc.diag_cod(d)
    if not w:
        return
    ctx.nontrivial()
    D = qc.mk_diag({'dom': d['dom'], 'layers': d['layers']
                    + [[0, {'k': 'measure'}]]})
    try:
        quiet(D.to_pennylane)
    except ValueError:
        return
    expect(False, 'a circuit with a measurement is accepted')
