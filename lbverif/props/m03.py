"""M03: PennyLaneModel predicts what the circuits denote."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.training import PennyLaneModel
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import Skip, check, expect, prop
from lbverif.props import m01
from lbverif.props.m01 import refused
from lbverif.props.q05 import CTRL, quiet

P = 'M03'
prop(P, ['default.qubit simulator; circuits without measurements',
         'normalised states are compared up to a positive factor: the tests '
         'pin a division by the squared norm',
         'circuits of total weight below 1e-4 are not judged (single '
         'precision)'])


def fit(d):
    """Keep to the gates PennyLane circuits are built from."""
    def go(b, inner=False):
        if b['k'] == 'gate':
            if inner and b['g'] not in CTRL:
                b = {'k': 'gate', 'g': 'X'}
            return dict(b, z=0) if b['g'] == 'Y' else b
        if b['k'] == 'ctrl':
            b = dict(b, of=go(b['of'], True))
            return dict(b, z=0) if b['of']['g'] == 'Y' else b
        return b
    return {'dom': d['dom'], 'layers': [[o, go(b)] for o, b in d['layers']]}


PURE = tuple(k for k in m01.PURE if k != 'u')


@st.composite
def closed(draw, width):
    d = draw(m01.closed(width, kinds=PURE, mixed=False, ctrl_depth=1))
    if width == 0 and draw(st.booleans()):
        # throw some qubits away instead
        d = copy.deepcopy(d)
        for x in d['layers']:
            if x[1]['k'] == 'bra' and draw(st.booleans()):
                x[1] = {'k': 'discard'}
    return fit(d)


@st.composite
def case(draw):
    s = draw(m01.batch(closed))
    s['ds'] = [fit(d) for d in s['ds']]
    return dict(s, probs=draw(st.booleans()), norm=draw(st.booleans()),
                cfg=draw(st.sampled_from([None] * 3 + CONFIGS)),
                diff=draw(st.sampled_from(['best', 'best', 'backprop',
                                           'parameter-shift'])))


CONFIGS = [{'backend': 'default.qubit'},
           {'backend': 'default.qubit', 'shots': None},
           {'backend': 'default.mixed'}]


def target(d, probs):
    """What the circuit gives: amplitudes, or probabilities."""
    if qc.is_mixed(d):
        return np.real(qc.mixed_eval(d))
    t = qc.pure_eval(d)
    return np.abs(t) ** 2 if probs else t


def agrees(got, want, s, mixed):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return False
    if s['norm'] and (s['probs'] or mixed):
        want = want / want.sum() if s['probs'] or not mixed else want
    if s['norm'] and not s['probs']:
        k = np.linalg.norm(got)
        if not k > 0:
            return False
        got, want = got / k, want / np.linalg.norm(want)
    size = max(1, np.abs(want).max(initial=0))
    return np.allclose(got, want, atol=2e-4 * size, rtol=2e-4)


@check(P, 'outputs', case, quick=800, shards=4,
       rule='>= 2 circuits and >= 2 symbols')
def outputs(s, ctx):
    cs, val = m01.prepare(s)
    names = sorted(val)
    Ds = [D for _, D in cs]
    wants = [target(d, s['probs']) for d, _ in cs]
    weights = [np.sum(np.abs(t) ** (2 if not s['probs']
                                    and not qc.is_mixed(d) else 1))
               for t, (d, _) in zip(wants, cs)]
    if min(weights) < 1e-4:
        raise Skip
    if not names:
        return
    kinds = [qc.is_mixed(d) for d, _ in cs]
    ctx.nontrivial(len(Ds) > 1 and len(val) > 1)
    ctx.label(f'probabilities={s["probs"]} normalize={s["norm"]}')
    if any(kinds):
        ctx.label('with discards')
    before = [repr(D) for D in Ds]
    cfg = s.get('cfg') and dict(s['cfg'])
    kw = {'backend_config': cfg} if cfg else {}
    if s['probs'] and 'mixed' not in str(cfg):
        kw['diff_method'] = s.get('diff', 'best')
    if not s['probs'] and 'mixed' in str(cfg):
        refused(lambda: quiet(PennyLaneModel.from_diagrams, Ds,
                              probabilities=False, **kw), ValueError,
                'a device without states is taken for states')
        return
    m = quiet(PennyLaneModel.from_diagrams, Ds, probabilities=s['probs'],
              normalize=s['norm'], **kw)
    expect(cfg == s.get('cfg'), lambda: f'the configuration is now {cfg}')
    expect(list(m.symbols) == [Symbol(k) for k in names],
           lambda: f'symbols are {m.symbols}, expected {names}')
    m.initialise_weights()
    w = [float(x) for x in m.weights]
    expect(len(w) == len(names) and all(0 <= x < 1 for x in w),
           'initial weights are not in [0, 1)')
    with torch.no_grad():
        for x, k in zip(m.weights, names):
            x.copy_(torch.tensor(val[k]))

    def compare(got, wants, what):
        expect(tuple(got.shape) == (len(wants),) + (2,) * s['width'],
               lambda: f'{what}: shape {tuple(got.shape)} for '
               f'{len(wants)} circuits with {s["width"]} outputs')
        got = got.detach().resolve_conj().numpy()
        for i, t in enumerate(wants):
            expect(agrees(got[i], t, s, kinds[i]),
                   lambda: f'{Ds[i]!r} ({what}) gives\n{got[i]}\nnot\n{t}')
    got = m(Ds)
    compare(got, wants, 'first weights')
    # one by one
    i = s['seed'] % len(Ds)
    one = m.get_diagram_output([Ds[i]])
    expect(one.shape == got[i:i + 1].shape and np.allclose(
        one.detach().numpy(), got[i:i + 1].detach().numpy(), atol=1e-5),
        'a circuit alone has another prediction than in a batch')
    if s['probs'] and not any(kinds) and s['width']:
        # gradients
        ctx.label('gradient')
        g = gr.key_tensor(['g', s['seed']], tuple(got.shape)).real
        (got * torch.tensor(g, dtype=got.dtype)).sum().backward()
        j = s['seed'] % len(names)
        e = 1e-4

        def total(v):
            ps = [target(d, True) for d, _ in m01.prepare(s, vals=v)[0]]
            if s['norm']:
                ps = [p / p.sum() for p in ps]
            return sum(float((g[i] * p).sum()) for i, p in enumerate(ps))
        at = m01.NAMES.index(names[j])
        vs = [[v + sgn * e * (i == at) for i, v in enumerate(s['vals'])]
              for sgn in (1, -1)]
        want = (total(vs[0]) - total(vs[1])) / (2 * e)
        have = float(m.weights[j].grad)
        # relative to the weight of the circuits when normalised
        tol = 0.02 * max(1, abs(want)) / min(1, *weights) ** .5
        expect(abs(have - want) < tol,
               lambda: f'{Ds} at {val}: gradient for {names[j]} is {have}, '
               f'expected {want}')
    # new weights, as a whole
    vals = [round(v * 0.5 + 0.3, 3) for v in s['vals']]
    cs2, val2 = m01.prepare(s, vals=vals)
    wants2 = [target(d, s['probs']) for d, _ in cs2]
    if min(np.sum(np.abs(t)) for t in wants2) > 1e-2:
        if s['seed'] % 2:
            m.weights = torch.nn.ParameterList([
                torch.nn.Parameter(torch.tensor(val2[k])) for k in names])
        else:
            # as an optimiser does
            ctx.label('in place')
            with torch.no_grad():
                for x, k in zip(m.weights, names):
                    x.copy_(torch.tensor(val2[k]))
        compare(m(Ds), wants2, 'second weights')
        if s['probs'] and not any(kinds) and s['width']:
            # and the gradients belong to these weights
            m.zero_grad()
            got = m(Ds)
            (got * torch.tensor(g, dtype=got.dtype)).sum().backward()
            again = [float(x.grad) for x in m.weights]
            fresh = quiet(PennyLaneModel.from_diagrams, Ds,
                          probabilities=True, normalize=s['norm'], **kw)
            fresh.weights = torch.nn.ParameterList([
                torch.nn.Parameter(torch.tensor(val2[k])) for k in names])
            got = fresh(Ds)
            (got * torch.tensor(g, dtype=got.dtype)).sum().backward()
            have = [float(x.grad) for x in fresh.weights]
            expect(np.allclose(again, have, rtol=1e-3, atol=1e-3 * max(
                1, np.abs(have).max())), lambda: f'gradients are {again} '
                f'after a change of weights, {have} in a new model')
    expect([repr(D) for D in Ds] == before, 'a circuit was changed')
    refused(lambda: m([Ds[0] @ qc.Q.Ket(0)]), KeyError,
            'a circuit the model was not built from is accepted')
