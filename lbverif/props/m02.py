"""M02: the PyTorch models contract to the meaning of each diagram."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.training import PytorchModel, PytorchQuantumModel
from lambeq.training.tn_path_optimizer import (CachedTnPathOptimizer,
                                               TnPathOptimizer)
from lbverif import gram as gr
from lbverif import tens
from lbverif.core import Skip, check, expect, prop
from lbverif.props import m01
from lbverif.props.m01 import refused
from lbverif.props.t02 import sym_of

P = 'M02'
prop(P, ['single-precision weights, symbolic boxes and single-precision '
         'concrete boxes; outputs of a batch have one shape'])

ALGS = ['auto', 'greedy', 'cached-auto', 'cached-greedy', 'default']


def optimiser(name):
    if name == 'default':
        return None
    kind, _, alg = name.rpartition('-')
    return (CachedTnPathOptimizer if kind else TnPathOptimizer)(alg)


@st.composite
def tensor_batch(draw, k=3):
    cod = draw(st.lists(st.sampled_from([2, 2, 3]), max_size=2))
    ds = []
    for _ in range(draw(st.integers(1, k))):
        d = draw(tens.diagrams(minl=2, maxl=7, maxw=4, maxdom=0,
                               names=('f', 'g', 'h', 'k')))
        w = tens.diag_cod(d)
        if w != cod:
            i = draw(st.integers(0, len(w)))
            if w[:i] and draw(st.booleans()):   # in two pieces
                d['layers'].append([0, {'k': 'box', 'n': 'x', 'dom': w[:i],
                                        'cod': [], 'z': 0,
                                        'dag': draw(st.booleans())}])
                w = w[i:]
            d['layers'].append([0, {'k': 'box', 'n': 'o', 'dom': w,
                                    'cod': cod,
                                    'z': draw(st.sampled_from([0, 0, 1])),
                                    'dag': draw(st.booleans())}])
        ds.append(d)
    if draw(st.booleans()):         # the same network, other boxes
        d = copy.deepcopy(ds[0])
        for _, b in d['layers']:
            if b['k'] == 'box':
                b['n'] = draw(st.sampled_from('fghx'))
        ds.append(d)
    n = sum(len(d['layers']) for d in ds)
    return {'ds': ds, 'cod': cod, 'alg': draw(st.sampled_from(ALGS)),
            'scales': draw(st.lists(st.sampled_from([1, 1, 1, -1, 2, 0.5]),
                                    min_size=n, max_size=n)),
            'seed': draw(st.integers(0, 999))}


def values(sym, k=0):
    """Values for a symbol, as single-precision numbers."""
    t = gr.key_tensor([str(sym.name), k], (sym.size,)).real
    return np.round(t, 3).astype(np.float32)


def conc(b):
    return b['n'] == 'k'


def build(s, k=0):
    """(diagrams, values by symbol, reference function of the values)"""
    scale, syms, Ds = {}, {}, []
    it = iter(s['scales'])
    for d in s['ds']:
        for _, b in d['layers']:
            scale[id(b)] = next(it)
            if b['k'] == 'box' and not conc(b):
                x = sym_of(b)
                syms[x.name] = x

    def data(b):
        if conc(b):
            return tens.base_data(b, True).astype(np.float32)
        return sym_of(b) * scale[id(b)] if scale[id(b)] != 1 else sym_of(b)
    Ds = [tens.mk_diag(d, data=data) for d in s['ds']]

    def ref(d, vals):
        def value(b):
            if conc(b):
                return tens.base_data(b, True)
            return vals[sym_of(b).name] * scale[id(b)]
        return tens.ref_eval(d, data=value)
    return Ds, [syms[k] for k in sorted(syms)], ref


def magnitude(s, Ds, syms, ref, vals):
    """A scale for rounding errors: the same network of absolute values."""
    return max(float(np.abs(ref(d, vals)).max(initial=0)) for d in s['ds'])


def close(got, want, tol=2e-3):
    got = np.asarray(got, dtype=float)
    want = np.real(want)
    size = max(1.0, float(np.abs(want).max(initial=0)))
    return got.shape == want.shape and np.allclose(got, want, rtol=tol,
                                                   atol=tol * size)


@check(P, 'tensor', tensor_batch, quick=500, shards=4,
       rule='>= 2 symbols, >= 4 layers and a cup or a spider')
def tensor(s, ctx):
    Ds, syms, ref = build(s)
    vals = {x.name: values(x).astype(float) for x in syms}
    wants = [ref(d, vals) for d in s['ds']]
    if max(np.abs(w).max(initial=0) for w in wants) > 1e4:
        raise Skip
    ks = {b['k'] for d in s['ds'] for _, b in d['layers']}
    ctx.nontrivial(len(syms) > 1 and ks & {'cup', 'spider'} and any(
        len(d['layers']) > 3 for d in s['ds']))
    ctx.label(s['alg'])
    before = [repr(D) for D in Ds]
    m = PytorchModel.from_diagrams(
        Ds, tn_path_optimizer=optimiser(s['alg']))
    expect(list(m.symbols) == syms,
           lambda: f'symbols are {m.symbols}, expected {syms}')
    if not syms:
        refused(m.initialise_weights, ValueError,
                'weights without symbols are initialised')
        return
    refused(lambda: m(Ds), KeyError,
            'a model without weights gives predictions')
    m.initialise_weights()
    expect([tuple(w.shape) for w in m.weights] == [(x.size,) for x in syms],
           'shapes of the initial weights')
    ws = [torch.tensor(vals[x.name], dtype=torch.float32) for x in syms]
    m.weights = torch.nn.ParameterList(ws)
    got = m(Ds)
    expect(tuple(got.shape) == (len(Ds), *s['cod']),
           lambda: f'shape {got.shape}')
    for i, w in enumerate(wants):
        expect(close(got[i].detach(), w),
               lambda: f'{Ds[i]!r} gives\n{got[i]}\nnot\n{w}')
    order = [int(i) for i in
             np.random.default_rng(s['seed']).permutation(len(Ds))] + [0]
    again = m.get_diagram_output([Ds[i] for i in order]).detach()
    expect(close(again, got.detach()[order].numpy()),
           'another order of the batch gives other predictions')
    # gradients
    g = gr.key_tensor(['g', s['seed']], tuple(got.shape)).real
    (got * torch.tensor(g, dtype=torch.float32)).sum().backward()

    def total(v):
        return sum(float((g[i] * ref(d, v).real).sum())
                   for i, d in enumerate(s['ds']))
    for x, w in zip(syms, m.weights):
        j = s['seed'] % x.size
        e = 1e-4
        up, down = ({**vals, x.name: vals[x.name]
                     + sgn * e * np.eye(x.size)[j]} for sgn in (1, -1))
        want = (total(up) - total(down)) / (2 * e)
        have = 0.0 if w.grad is None else float(w.grad[j])
        expect(abs(have - want) < 5e-3 * max(1, abs(want), *(
            float(np.abs(q).max(initial=0)) for q in wants)),
            lambda: f'gradient for {x}[{j}] is {have}, expected {want}')
    # other values
    vals = {x.name: values(x, 1).astype(float) for x in syms}
    with torch.no_grad():
        for x, w in zip(syms, m.weights):
            w.copy_(torch.tensor(vals[x.name]))
    got = m(Ds)
    for i, d in enumerate(s['ds']):
        w = ref(d, vals)
        expect(close(got[i].detach(), w),
               lambda: f'{Ds[i]!r} (second weights) gives\n{got[i]}\nnot'
               f'\n{w}')
    expect([repr(D) for D in Ds] == before
           and all(isinstance(b.data, Symbol) for D in Ds for b in D.boxes
                   if b.name in 'fgh'), 'a diagram was changed')
    m.symbols, m.weights = m.symbols[:-1], m.weights[:-1]
    refused(lambda: m(Ds), KeyError, 'an unknown symbol is accepted')


@st.composite
def quantum_case(draw):
    s = draw(m01.batch(lambda w: m01.closed(w)))
    s['alg'] = draw(st.sampled_from(ALGS[:4]))
    return s


def tiny(c):
    """Single precision: stay clear of tiny norms."""
    d = c[0]
    t = np.abs(m01.qc.mixed_eval(d)) if m01.qc.is_mixed(d) \
        else np.abs(m01.qc.pure_eval(d)) ** 2
    return 1e-13 < t.sum() < 1e-2


@check(P, 'quantum', quantum_case, quick=300, shards=4,
       rule='>= 2 circuits and >= 2 symbols')
def quantum(s, ctx):
    cs, val = m01.prepare(s)
    Ds = [D for _, D in cs]
    wants = [m01.distribution(d) for d, _ in cs]
    if any(map(tiny, cs)):
        raise Skip
    ctx.nontrivial(len(Ds) > 1 and len(val) > 1)
    m = PytorchQuantumModel.from_diagrams(
        Ds, tn_path_optimizer=optimiser(s['alg']))
    names = sorted(val)
    expect(list(m.symbols) == [Symbol(k) for k in names], 'symbols')
    if not val:
        return
    m.initialise_weights()
    w = m.weights.detach().numpy()
    expect(w.shape == (len(val),) and (w >= 0).all() and (w < 1).all(),
           'initial weights are not in [0, 1)')
    m.weights = torch.nn.Parameter(torch.tensor([val[k] for k in names]))
    before = [repr(D) for D in Ds]
    got = m(Ds)
    expect(tuple(got.shape) == (len(Ds),) + (2,) * s['width'],
           lambda: f'shape {got.shape}')
    for i, w in enumerate(wants):
        expect(close(got[i].detach(), w, 2e-4),
               lambda: f'{Ds[i]!r} at {val} predicts\n{got[i]}\nnot\n{w}')
    order = [int(i) for i in
             np.random.default_rng(s['seed']).permutation(len(Ds))] + [0]
    again = m.get_diagram_output([Ds[i] for i in order]).detach()
    expect(close(again, got.detach()[order].numpy(), 2e-4),
           'another order of the batch gives other predictions')
    # gradients, at a smooth point
    g = gr.key_tensor(['g', s['seed']], tuple(got.shape)).real
    (got * torch.tensor(g, dtype=torch.float32)).sum().backward()
    grad = m.weights.grad.numpy()
    j = s['seed'] % len(names)
    e = 1e-4

    def total(v):
        cs, _ = m01.prepare(s, vals=v)
        ps = [m01.distribution(d) for d, _ in cs]
        if any(p is None for p in ps):
            raise Skip
        return sum(float((g[i] * p).sum()) for i, p in enumerate(ps))
    at = m01.NAMES.index(names[j])
    vs = [[v + sgn * e * (i == at) for i, v in enumerate(s['vals'])]
          for sgn in (1, -1)]
    want = (total(vs[0]) - total(vs[1])) / (2 * e)
    # the modulus of an amplitude near 0 has no reliable gradient in
    # single precision
    if all(np.min(w, initial=1) > 1e-3 for w in wants):
        ctx.label('gradient')
        expect(abs(grad[j] - want) < 0.02 * max(1, abs(want)),
               lambda: f'{Ds} at {val}: gradient for {names[j]} is '
               f'{grad[j]}, expected {want}')
    # other weights, as an optimiser sets them
    vals = [round(v * 0.5 + 0.3, 3) for v in s['vals']]
    cs, val2 = m01.prepare(s, vals=vals)
    ws2 = [m01.distribution(d) for d, _ in cs]
    with torch.no_grad():
        m.weights.copy_(torch.tensor([val2[k] for k in names]))
    got = m(Ds)
    for i, w in enumerate(ws2):
        if not tiny(cs[i]):
            ctx.label('second weights')
            expect(close(got[i].detach(), w, 1e-3),
                   lambda: f'{Ds[i]!r} at {val2} (second weights) predicts'
                   f'\n{got[i]}\nnot\n{w}')
    expect([repr(D) for D in Ds] == before, 'a circuit was changed')


@st.composite
def init_case(draw):
    return {'dims': draw(st.lists(st.tuples(
        st.integers(1, 4), st.integers(1, 40)).map(list), min_size=1,
        max_size=4)), 'seed': draw(st.integers(0, 10 ** 6))}


@check(P, 'initial', init_case, quick=30, shards=2,
       rule='>= 2 symbols of different sizes')
def initial(s, ctx):
    """Initial weights: the vectors a symbol holds have norm 1 on
    average."""
    syms = [Symbol(f's{i}', *d) for i, d in enumerate(s['dims'])]
    ctx.nontrivial(len(set(map(tuple, s['dims']))) > 1)
    m = PytorchModel()
    m.symbols = syms
    torch.manual_seed(s['seed'])
    norms = {x.name: [] for x in syms}
    for _ in range(400):
        m.initialise_weights()
        for x, w in zip(syms, m.weights):
            w = w.detach().numpy()
            expect(w.shape == (x.size,), 'size')
            norms[x.name].append(np.linalg.norm(
                w.reshape(x.directed_dom, x.directed_cod)[0]))
    for x in syms:
        n = np.mean(norms[x.name])
        expect(abs(n - 1) < 0.2, lambda: f'the average norm of a vector of '
               f'{x.directed_cod} initial weights is {n}')
