"""Q07: running circuits on shot-based backends."""
import copy

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import quantum as Q
from lambeq.backend.symbol import Symbol
from lambeq.training import TketModel
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop
from lbverif.props.q03 import run_tk, tk_circuits
from lbverif.props.q04 import closed

P = 'Q07'
prop(P, ['the backend is a stand-in that returns the exact distribution '
         'of the circuit it was given as counts, or the seeded Aer '
         'simulator within six standard deviations',
         'circuits with discards and post-selections together have no '
         'other bit (see KNOWN_FINDINGS.txt)'])


class Exact:
    """A pytket backend that returns exact expected counts."""

    def __init__(self):
        self.calls = []
        self.emptied = 0

    def process_circuits(self, circuits, n_shots=None, seed=None, **kw):
        circuits = list(circuits)
        self.calls.append((len(circuits), n_shots, seed))
        return [(run_tk(c), n_shots) for c in circuits]

    def get_result(self, handle):
        p, n = handle

        class R:
            @staticmethod
            def get_counts():
                return {tuple(map(int, i)): float(p[i]) * n
                        for i in np.ndindex(p.shape) if p[i] > 1e-12}
        return R

    def default_compilation_pass(self):
        return Passes()

    def empty_cache(self):
        self.emptied += 1


class Passes:
    """A compilation pass that only notes what it is applied to."""

    def __init__(self):
        self.seen = []

    def apply(self, circuit):
        self.seen.append(circuit)


def measured(d):
    """Measure every open qubit."""
    w = qc.diag_cod(d)
    ls = list(d['layers'])
    for i in range(len(w)):
        if w[i] == 'q':
            ls.append([i, {'k': 'measure'}])
    return {'dom': d['dom'], 'layers': ls}


def nbits(d):
    return len(qc.diag_cod(d))


@st.composite
def runs(draw):
    ds = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(tk_circuits(discards=draw(st.booleans()), maxdom=2))
        ds.append(measured(d))
    return {'ds': ds, 'shots': draw(st.sampled_from([1, 10, 1024])),
            'seed': draw(st.integers(0, 5)),
            'compile': draw(st.booleans())}


@check(P, 'eval', runs, quick=500, shards=3,
       rule='>= 2 circuits, one with a post-selection')
def eval_(s, ctx):
    ds = s['ds']
    Ds = [qc.mk_diag(d) for d in ds]
    reprs = list(map(repr, Ds))
    wants = [qc.mixed_eval(closed(d)).real for d in ds]
    ctx.nontrivial(len(ds) > 1 and any(
        b['k'] == 'bra' for d in ds for _, b in d['layers']))
    be = Exact()
    kw = {'backend': be, 'n_shots': s['shots'], 'seed': s['seed']}
    ps = Passes()
    if s['compile']:
        kw['compilation'] = ps
    got = Ds[0].eval(*Ds[1:], **kw)
    expect(be.calls == [(len(ds), s['shots'], s['seed'])],
           lambda: f'the backend was called with {be.calls}')
    expect(len(ps.seen) == (len(ds) if s['compile'] else 0),
           'compilation passes applied')
    expect(list(map(repr, Ds)) == reprs, 'eval changed the circuits')
    if len(ds) == 1:
        got = [got]
    expect(len(got) == len(ds), 'number of results')
    for d, D, g, w in zip(ds, Ds, got, wants):
        expect(g.shape == w.shape and gr.same(g, w, 1e-7),
               lambda: f'{D!r} evaluates to {g}, not {w}')


@st.composite
def count_case(draw):
    return {'d': measured(draw(tk_circuits(maxdom=2))),
            'shots': draw(st.sampled_from([10, 1024])),
            'scale': draw(st.booleans()), 'norm': draw(st.booleans()),
            'post': draw(st.booleans())}


@check(P, 'counts', count_case, quick=500, shards=2,
       rule='post-selection or scale, and an option switched off')
def counts(s, ctx):
    """get_counts applies exactly the requested steps."""
    d = s['d']
    C = qc.mk_diag(d).to_tk()
    opts = [s['scale'], s['norm'], s['post']]
    ctx.nontrivial((C.post_selection or C.scalar != 1) and not all(opts))
    got, = C.get_counts(backend=Exact(), n_shots=s['shots'],
                        scale=s['scale'], normalize=s['norm'],
                        post_select=s['post'])
    # bras become measured bits
    ref = {'dom': d['dom'], 'layers': []}
    scale = 1
    for o, b in d['layers']:
        if b['k'] in ('scalar', 'sqrt'):
            scale *= abs(complex(qc.pure_eval(
                {'dom': '', 'layers': [[0, b]]}))) ** 2
        else:
            ref['layers'].append([o, b])
    p = qc.mixed_eval(closed(ref)).real
    total = {}
    if s['post']:
        total = {i: p[i] for i in np.ndindex(p.shape)}
        expect(all(len(k) == p.ndim for k in got),
               lambda: f'keys {list(got)} for {p.ndim} bits')
        for i, v in total.items():
            w = v * (1 if s['norm'] else s['shots']) \
                * (scale if s['scale'] else 1)
            expect(abs(got.get(i, 0) - w) < 1e-7 * max(1, w),
                   lambda: f'{C!r}: count of {i} is {got.get(i, 0)}, not {w}')
    else:
        expect(all(len(k) == len(C.bits) for k in got), 'keys')
        w = (1 if s['norm'] else s['shots']) * (scale if s['scale'] else 1)
        expect(abs(sum(got.values()) - w) < 1e-7 * max(1, w),
               lambda: f'{C!r}: counts add up to {sum(got.values())}, not '
               f'{w}')


@st.composite
def model_case(draw):
    ds = []
    for _ in range(draw(st.integers(1, 3))):
        d = draw(tk_circuits(gates=('Rx', 'Ry', 'Rz', 'H'), maxdom=0,
                             discards=draw(st.sampled_from(
                                 [False, False, True]))))
        ds.append({'dom': '', 'layers': [x for x in d['layers']]})
    w = len(qc.diag_cod(measured(ds[0])))
    return {'ds': ds, 'w': w, 'seed': draw(st.integers(0, 1000)),
            'shots': draw(st.sampled_from([100, 333]))}


def symbolise(ds):
    """Name the symbols of rotations; returns (diagrams, names)."""
    names = []

    def phase(b):
        n = f'p{int(b["p"] * 1000) % 5}__q'
        names.append(n)
        return Symbol(n)
    return [qc.mk_diag(d, phase=phase) for d in ds], names


@check(P, 'model', model_case, quick=300, shards=2,
       rule='>= 2 circuits with symbols')
def model(s, ctx):
    """TketModel gives normalised distributions of the codomain."""
    ds = [d for d in s['ds']
          if len(qc.diag_cod(d)) == len(qc.diag_cod(s['ds'][0]))
          and 'b' not in qc.diag_cod(d)]
    if not ds:
        return
    Ds, names = symbolise(ds)
    names = sorted(set(names))
    be = Exact()
    cfg = {'backend': be, 'compilation': None, 'shots': s['shots']}
    m = TketModel.from_diagrams(Ds, backend_config=cfg)
    expect(m.symbols == [Symbol(n) for n in names],
           lambda: f'symbols {m.symbols}, not {names}')
    if not names:
        return
    ctx.nontrivial(len(ds) > 1)
    m.initialise_weights()
    expect(len(m.weights) == len(names), 'number of weights')
    vals = np.random.default_rng(s['seed']).random(len(names))
    m.weights = vals
    val = dict(zip(names, vals))
    reprs = list(map(repr, Ds))
    got = m(Ds)
    expect(list(map(repr, Ds)) == reprs, 'the model changed the circuits')
    expect([c[:2] for c in be.calls] == [(len(ds), s['shots'])],
           lambda: f'the backend was asked {be.calls}, not for '
           f'{s["shots"]} shots')
    expect(be.emptied > 0, 'the cache of the backend is not emptied')

    def bind(b):
        if b['k'] == 'ctrl':
            return dict(b, of=bind(b['of']))
        if b['k'] == 'gate' and b['g'] not in qc.FIXED:
            return dict(b, p=val[f'p{int(b["p"] * 1000) % 5}__q'])
        return b
    expect(len(got) == len(ds), 'number of predictions')
    for d, D, g in zip(ds, Ds, got):
        c = measured({'dom': '', 'layers': [[o, bind(b)]
                                            for o, b in d['layers']]})
        p = qc.mixed_eval(c).real
        w = p / max(p.sum(), 1e-9) if p.ndim else abs(p)
        expect(g.shape == w.shape and gr.same(g, w, 1e-6),
               lambda: f'{D!r} at {val} is predicted as {g}, not {w}')


AER = {}


@check(P, 'aer', count_case, quick=40, shards=1,
       rule='a distribution over two or more outcomes')
def aer(s, ctx):
    """The same through pytket's simulator and compiler."""
    from pytket.extensions.qiskit import AerBackend
    if not AER:
        b = AerBackend()
        AER['b'] = b, b.default_compilation_pass()
    b, cp = AER['b']
    d = s['d']
    if not nbits(d):
        return
    want = qc.mixed_eval(closed(d)).real
    D = qc.mk_diag(d)
    n = 4096
    if not any(x['k'] in ('ket', 'gate', 'ctrl') for _, x in d['layers']) \
            and not d['dom']:
        return
    C = D.to_tk()
    if not C.n_qubits or not C.bits:
        return
    ctx.nontrivial((want > 1e-9).sum() > 1)
    got = D.eval(backend=b, compilation=cp, n_shots=n, seed=7)
    scale = C.scalar
    p = want / scale if scale else want
    tol = 6 * np.sqrt(np.clip(p * (1 - p), 0, 1) / n) + 6 / n
    expect(got.shape == want.shape
           and (np.abs(got - want) <= tol * abs(scale) + 1e-9).all(),
           lambda: f'{D!r} gives {got}, expected {want} +- {tol * scale}')


@st.composite
def both_case(draw):
    d = draw(tk_circuits(maxdom=2, discards=False))
    w = qc.diag_cod(d)
    ls = list(d['layers'])
    for i in reversed(range(len(w))):
        if w[i] == 'q':
            ls.append([i, draw(st.sampled_from([
                {'k': 'discard'}, {'k': 'measure'}]))])
    return {'d': {'dom': d['dom'], 'layers': ls}}


@check(P, 'discards', both_case, quick=300, shards=1,
       rule='a discarded and a post-selected qubit')
def discards(s, ctx):
    """Circuits that discard some qubits and post-select others."""
    d = s['d']
    ks = [b['k'] for _, b in d['layers']]
    want = qc.mixed_eval(closed(d)).real
    ctx.nontrivial('discard' in ks and 'bra' in ks)
    D = qc.mk_diag(d)
    C = D.to_tk()
    # what reading the keys of the post-selection as bits gives
    p = run_tk(C)
    keys = C.post_selection
    known = 'discard' in ks and 'bra' in ks
    # are the keys those of the bits that read the post-selected qubits?
    where = {}
    for cmd in C.get_commands():
        if cmd.op.type.name == 'Measure':
            where[cmd.qubits[0].index[0]] = cmd.bits[0].index[0]
    known = known and all(q in where for q in keys) and any(
        where[q] != q for q in keys)
    sig = 'post-selection keyed by qubit' if known else None
    try:
        got = D.eval(backend=Exact())
    except IndexError:
        expect(not known, 'post-selection of a bit that is not there', sig)
        raise
    if known and all(q < p.ndim for q in keys):
        idx = [slice(None)] * p.ndim
        for q, v in keys.items():
            idx[q] = v
        if not gr.same(got, p[tuple(idx)] * C.scalar, 1e-7):
            sig = None
    expect(got.shape == want.shape and gr.same(got, want, 1e-7),
           lambda: f'{D!r} ({C!r}) gives {got}, not {want}', sig)
