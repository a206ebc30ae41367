"""M08: optimisers take the steps of the algorithms they are named after."""
import copy
import warnings

import numpy as np
from hypothesis import strategies as st

from lambeq.backend.quantum import CX, H, Id, Ket, Rx, Ry, Rz, qubit
from lambeq.backend.symbol import Symbol
from lambeq.training import (NelderMeadOptimizer, NumpyModel,
                             RotosolveOptimizer, SPSAOptimizer)
from lambeq.training.quantum_model import QuantumModel
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.m01 import refused

P = 'M08'
prop(P, ['a stand-in quantum model whose predictions are a smooth function '
         'of the weights of the symbols in each circuit; NumpyModel for '
         'Rotosolve', 'SciPy is the reference for Nelder-Mead, without '
         'bounds or with an initial simplex within them'])


class Stub(QuantumModel):
    """Predicts a smooth function of the weights; notes its calls."""

    def __init__(self, seed, trig=False):
        super().__init__()
        self.seed, self.trig = seed, trig
        self.seen = []

    def get_diagram_output(self, diagrams):
        self.seen.append(np.array(self.weights))
        return np.array([self.value(d, self.weights) for d in diagrams])

    forward = get_diagram_output

    def value(self, d, w):
        while not hasattr(d, 'boxes'):      # nested data points
            d = next(iter(d.values() if isinstance(d, dict) else d))
        ks = [i for i, s in enumerate(self.symbols) if s in d.free_symbols]
        c = gr.key_tensor([self.seed, ks], (4, 1 + len(ks))).real
        x = np.array([w[i] for i in ks])
        if self.trig:       # a sinusoid of period 1 in every weight
            return c[0][0] + sum(
                c[j][0] * np.prod(np.cos(2 * np.pi * (x + c[j][1:])))
                for j in range(1, 4))
        return (c[0][0] + c[1][1:] @ x + (1 + c[2][1:] ** 2) @ x ** 2
                + np.sin(c[3][1:] @ x))


def circuit(names, order):
    d = Ket(0)
    for i, n in enumerate(names):
        d = d >> (Rx, Ry, Rz)[(i + order) % 3](Symbol(n))
    return d


def loss_fn(y, t):
    return float(np.mean((y - t) ** 2))


NAMES = ['a', 'b', 'c', 'd']
wrap = st.sampled_from(['', '', 'list', 'dict', 'tuple'])


@st.composite
def problem(draw, all_symbols=False):
    n = draw(st.integers(1, 4))
    subsets = [draw(st.lists(st.integers(0, n - 1), unique=True,
                             max_size=n))
               for _ in range(draw(st.integers(1, 4)))]
    if all_symbols:
        subsets[0] = list(range(n))
    kind = draw(st.sampled_from(['none', 'none', 'wide', 'tight', 'frozen',
                                 'away']))
    return {'n': n, 'subsets': subsets, 'bounds': kind,
            'wrap': draw(wrap), 'seed': draw(st.integers(0, 10 ** 6)),
            'batches': draw(st.lists(st.lists(
                st.integers(0, len(subsets) - 1), min_size=1, max_size=3),
                min_size=1, max_size=6))}


def setup(s, cls=Stub, **kw):
    """(model, data points, targets, bounds or None)"""
    rng = np.random.default_rng(s['seed'])
    m = cls(s['seed'], **kw)
    m.symbols = [Symbol(x) for x in NAMES[:s['n']]]
    m.weights = np.round(rng.random(s['n']), 3)
    points = []
    for i, sub in enumerate(s['subsets']):
        d = circuit([NAMES[k] for k in sub], i)
        points.append({'': d, 'list': [d], 'dict': {'x': d},
                       'tuple': (d, 'text')}[s['wrap']])
    targets = np.round(rng.normal(size=len(points)), 2)
    w = m.weights
    lo, hi = {'none': (None, None), 'wide': (w - 5, w + 5),
              'tight': (w - 0.03, w + 0.02),
              'frozen': (w, w + [0.3 * (i % 2) for i in range(s['n'])]),
              'away': (w + 1, w + 1.5)}[s['bounds']]
    bounds = None if lo is None else np.stack([lo, hi], 1)
    return m, points, targets, bounds


def clip(x, bounds):
    return x if bounds is None else np.clip(x, bounds[:, 0], bounds[:, 1])


def close(a, b, tol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, atol=tol, rtol=tol)


def relevant(s, batch):
    ks = {k for i in batch for k in s['subsets'][i]} or set(range(s['n']))
    return np.array([k in ks for k in range(s['n'])])


@st.composite
def spsa_case(draw):
    s = draw(problem())
    s['hyper'] = {'a': draw(st.sampled_from([0.01, 0.2, 1])),
                  'c': draw(st.sampled_from([0.01, 0.06, 0.3])),
                  'A': draw(st.sampled_from([0, 0.01, 2, 10]))}
    s['twice'] = draw(st.lists(st.sampled_from(['', '', 'add', 'zero']),
                               min_size=6, max_size=6))
    s['save'] = draw(st.integers(0, 5))
    return s


@check(P, 'spsa', spsa_case, quick=1200, shards=3,
       rule='>= 2 symbols and >= 2 steps, one batch without some symbol')
def spsa(s, ctx):
    m, points, targets, bounds = setup(s)
    h = s['hyper']
    masks = [relevant(s, b) for b in s['batches']]
    ctx.nontrivial(s['n'] > 1 and len(masks) > 1
                   and not all(k.all() for k in masks))
    ctx.label(s['bounds'])
    opt = SPSAOptimizer(model=m, loss_fn=loss_fn, hyperparams=dict(h),
                        bounds=None if bounds is None else bounds.tolist())
    np.random.seed(s['seed'])
    twin = None
    for k, (b, mask) in enumerate(zip(s['batches'], masks), 1):
        ak = h['a'] / (k + h['A']) ** 0.602
        ck = h['c'] / k ** 0.101
        x = np.array(m.weights)
        if np.abs(x).max() > 50:
            break           # diverges; rounding dominates
        batch = ([points[i] for i in b], targets[b])
        grad = np.zeros(s['n'])
        if k == s['save'] + 1:
            # another optimiser goes on from here
            m2, *_ = setup(s)
            m2.weights = x.copy()
            twin = SPSAOptimizer(
                model=m2, loss_fn=loss_fn, bounds=bounds,
                hyperparams={'a': 0.5, 'c': 0.5, 'A': 1})
            twin.load_state_dict(copy.deepcopy(opt.state_dict()))
        state = np.random.get_state()

        def backward(opt, m):
            m.seen.clear()
            loss = opt.backward(batch)
            expect(len(m.seen) == 2, lambda: f'{len(m.seen)} evaluations')
            expect(np.array_equal(m.weights, x),
                   'backward changes the weights')
            return loss, *m.seen
        steps = 2 if s['twice'][k - 1] else 1
        for j in range(steps):
            loss, p, q = backward(opt, m)
            up, down = clip(x + ck, bounds), clip(x - ck, bounds)
            a = np.isclose(p, up, 0, 1e-9) & np.isclose(q, down, 0, 1e-9)
            c = np.isclose(q, up, 0, 1e-9) & np.isclose(p, down, 0, 1e-9)
            expect((a | c).all(), lambda: f'step {k}: the weights {x} are '
                   f'perturbed to {p} and {q}, not by {ck}')
            lp, lq = (loss_fn(np.array([m.value(d, w) for d in batch[0]]),
                              batch[1]) for w in (p, q))
            expect(close(loss, (lp + lq) / 2), lambda: f'loss {loss}, '
                   f'expected {(lp + lq) / 2}')
            diff = p - q
            with np.errstate(all='ignore'):
                grad += np.where(mask & (diff != 0), (lp - lq) / diff, 0)
            if j == 0 and s['twice'][k - 1] == 'zero':
                opt.zero_grad()
                grad *= 0
        opt.step()
        want = clip(x - ak * grad, bounds)
        expect(np.isfinite(m.weights).all() and close(m.weights, want, 1e-6),
               lambda: f'step {k} from {x} leads to {m.weights}, expected '
               f'{want}')
        if twin:
            after = np.random.get_state()
            np.random.set_state(state)
            for j in range(steps):
                backward(twin, twin.model)
                if j == 0 and s['twice'][k - 1] == 'zero':
                    twin.zero_grad()
            twin.step()
            np.random.set_state(after)
            expect(close(twin.model.weights, m.weights, 1e-9),
                   lambda: f'an optimiser that loaded the state after step '
                   f'{s["save"]} goes to {twin.model.weights} in step {k}, '
                   f'the original one to {m.weights}')
    for key in 'acA':
        refused(lambda: SPSAOptimizer(
            model=m, loss_fn=loss_fn,
            hyperparams={k: v for k, v in h.items() if k != key}),
            ValueError, 'missing hyperparameters are accepted')
    refused(lambda: SPSAOptimizer(
        model=m, loss_fn=loss_fn, hyperparams=h,
        bounds=[[0, 1]] * (s['n'] + 1)), ValueError,
        'bounds of another length are accepted')


@st.composite
def signs_case(draw):
    return {'n': draw(st.integers(2, 4)), 'seed': draw(st.integers(0, 9999))}


@check(P, 'directions', signs_case, quick=12, shards=1, rule='all')
def directions(s, ctx):
    """SPSA perturbs all weights independently and symmetrically."""
    ctx.nontrivial()
    n = s['n']
    m = Stub(0)
    m.symbols = [Symbol(x) for x in NAMES[:n]]
    m.weights = np.zeros(n)
    opt = SPSAOptimizer(model=m, loss_fn=loss_fn,
                        hyperparams={'a': 0.1, 'c': 1, 'A': 0})
    np.random.seed(s['seed'])
    d = circuit(NAMES[:n], 0)
    k = 1000
    for _ in range(k):
        opt.backward(([d], np.zeros(1)))
    x = np.sign(np.array(m.seen[::2]))
    mean = np.abs(x.mean(0)).max()
    corr = np.abs(x.T @ x / k - np.eye(n)).max()
    expect(mean < 6 / k ** .5 and corr < 6 / k ** .5,
           lambda: f'mean {mean} and correlation {corr} of the directions')


@st.composite
def roto_case(draw):
    s = draw(problem(all_symbols=draw(st.booleans())))
    s['bounds'] = 'none'
    s['real'] = draw(st.booleans())
    s['offset'] = draw(st.sampled_from([0, 0, -3, 2]))
    s['layers'] = draw(st.lists(st.tuples(
        st.integers(0, 2), st.sampled_from(['Rx', 'Ry', 'Rz', 'H', 'CX'])
    ).map(list), min_size=3, max_size=8))
    return s


def rotations(s):
    """A circuit on three qubits with every symbol at most once."""
    names = iter(NAMES[:s['n']])
    d = Ket(0, 0, 0) >> H @ Rx(0.1) @ Ry(0.2)
    for q, g in s['layers']:
        if g == 'CX':
            q %= 2
        elif g == 'H':
            pass
        else:
            n = next(names, None)
            if n is None:
                continue
            g = {'Rx': Rx, 'Ry': Ry, 'Rz': Rz}[g](Symbol(n))
        g = {'CX': CX, 'H': H}.get(g, g) if isinstance(g, str) else g
        d = d >> Id(qubit ** q) @ g @ Id(qubit ** (3 - q - len(g.dom)))
    return d


@check(P, 'rotosolve', roto_case, quick=500, shards=3,
       rule='>= 2 symbols and a weight that wraps around')
def rotosolve(s, ctx):
    """Every sweep minimises a sinusoidal loss in each weight in turn."""
    if s['real']:
        d = rotations(s)
        syms = sorted(d.free_symbols)
        if not syms:
            return
        m, other = NumpyModel(), NumpyModel()
        m.symbols = other.symbols = syms
        w = np.random.default_rng(s['seed']).random(len(syms))
        m.weights = np.array(w)
        y = gr.key_tensor([s['seed']], (1, 2, 2, 2)).real
        batches = [([d], y)] * 2

        def at(w, batch):
            other.weights = np.array(w)
            return float(np.sum(other(batch[0]) * batch[1]))
    else:
        m, points, targets, _ = setup(s, trig=True)
        batches = [([points[i] for i in b], targets[b])
                   for b in s['batches']]

        def at(w, batch):
            return float(np.sum(np.array(
                [m.value(d, w) for d in batch[0]]) * batch[1]))
    m.weights = m.weights + s['offset']
    ctx.label('circuits' if s['real'] else 'stand-in')
    opt = RotosolveOptimizer(
        model=m, loss_fn=lambda y, t: float(np.sum(y * t)),
        hyperparams=None)
    for k, batch in enumerate(batches):
        w = np.array(m.weights)
        before = at(w, batch)
        loss = opt.backward(batch)
        opt.step()
        opt.zero_grad()
        got = np.array(m.weights)
        expect(close(loss, at(got, batch)),
               'the loss is not that of the weights')
        expect(((0 <= got) & (got <= 1)).all(),
               lambda: f'weights {got} are not in [0, 1]')
        expect(loss <= before + 1e-7 * max(1, abs(before)),
               lambda: f'a sweep raises the loss from {before} to {loss}')
        # the same sweep by hand
        for i in range(len(w)):
            def f(x):
                v = w.copy()
                v[i] = x
                return at(v, batch)
            a, b, c = f(0), f(0.25), f(0.5)     # mean + A cos + B sin
            mean = (a + c) / 2
            A, B = a - mean, b - mean
            if np.hypot(A, B) < 1e-6 * max(1, abs(mean)):
                # any value will do: take the optimiser's
                w[i] = got[i]
                continue
            low = np.arctan2(-B, -A) / (2 * np.pi)
            ctx.nontrivial(len(w) > 1 and low < 0)
            w[i] = low % 1
            gap = abs(got[i] - w[i])
            expect(min(gap, 1 - gap) < 1e-4,
                   lambda: f'weight {i} goes to {got[i]}, the loss has its '
                   f'minimum at {w[i]}')
            w[i] = got[i]
    expect(opt.state_dict() == {}, 'state')
    opt.load_state_dict(opt.state_dict())


@st.composite
def nelder_case(draw):
    s = draw(problem(all_symbols=True))
    s['bounds'] = draw(st.sampled_from(['none', 'none', 'wide', 'tight',
                                        'away']))
    s['hyper'] = {}
    if draw(st.booleans()):
        s['hyper']['adaptive'] = True
    if draw(st.booleans()):
        s['hyper']['xatol'] = s['hyper']['fatol'] = draw(
            st.sampled_from([1e-6, 1e-2]))
    s['simplex'] = draw(st.booleans())
    s['zero'] = draw(st.booleans())
    s['steps'] = draw(st.integers(1, 25))
    s['save'] = draw(st.integers(0, 10))
    return s


@check(P, 'nelder_mead', nelder_case, quick=500, shards=3,
       rule='>= 2 symbols and >= 5 steps')
def nelder_mead(s, ctx):
    import scipy.optimize
    m, points, targets, bounds = setup(s)
    n = s['n']
    ctx.label(s['bounds'])
    ctx.nontrivial(n > 1 and s['steps'] >= 5)
    batch = (points, targets)
    if s['zero']:
        m.weights[0] = 0
    start = np.array(m.weights)
    hyper = dict(s['hyper'])
    if s['simplex']:
        rng = np.random.default_rng(s['seed'])
        sim = start + rng.normal(size=(n + 1, n))
        hyper['initial_simplex'] = clip(sim, bounds).tolist()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        opt = NelderMeadOptimizer(
            model=m, loss_fn=loss_fn, hyperparams=dict(hyper),
            bounds=None if bounds is None else bounds.tolist())

        def f(w):
            return loss_fn(np.array([m.value(d, w) for d in points]),
                           targets)
        history = []
        twin = None
        for k in range(s['steps']):
            if k == s['save']:
                m2, *_ = setup(s)
                m2.weights = np.array(m.weights)
                twin = NelderMeadOptimizer(model=m2, loss_fn=loss_fn,
                                           bounds=bounds)
                state = opt.state_dict()
                keep = copy.deepcopy(state)
            loss = opt.backward(batch)
            expect(all((np.abs(clip(x, bounds) - x) < 1e-9).all()
                       for x in m.seen), 'an evaluation out of bounds')
            opt.step()
            opt.zero_grad()
            w = np.array(m.weights)
            expect(close(f(w), loss), lambda: f'the loss {loss} is not that '
                   f'of the weights, {f(w)}')
            expect((np.abs(clip(w, bounds) - w) < 1e-9).all(),
                   lambda: f'weights {w} out of bounds')
            expect(not history or loss <= history[-1][0] + 1e-12,
                   lambda: f'the loss rises from {history[-1][0]} to {loss}')
            expect(close(loss, min(map(f, m.seen))),
                   'the best weights that were tried are not kept')
            history.append((loss, w))
        if twin:
            expect(str(state) == str(keep),
                   'the state that was read changes with the optimiser')
            twin.load_state_dict(state)
            for k in range(s['save'], s['steps']):
                loss = twin.backward(batch)
                twin.step()
                expect(close(loss, history[k][0], 1e-12)
                       and close(m2.weights, history[k][1], 1e-12),
                       lambda: f'an optimiser that loaded the state after '
                       f'step {s["save"]} has loss {loss} in step {k}, the '
                       f'original one {history[k][0]}')
        if s['bounds'] == 'none' or s['simplex']:
            for k in sorted({1, s['steps'] // 2 + 1, s['steps']}):
                r = scipy.optimize.minimize(
                    f, clip(start, bounds), method='Nelder-Mead',
                    bounds=bounds, options={
                        'maxiter': k + 1, 'maxfev': 10 ** 6,
                        'adaptive': hyper.get('adaptive', False),
                        'xatol': hyper.get('xatol', 1e-4),
                        'fatol': hyper.get('fatol', 1e-4),
                        'initial_simplex': hyper.get('initial_simplex')})
                loss, w = history[min(k, s['steps']) - 1]
                expect(close(loss, r.fun, 1e-6), lambda: f'after {k} steps '
                       f'the loss is {loss} at {w}, SciPy has {r.fun} at '
                       f'{r.x}')
        refused(lambda: NelderMeadOptimizer(
            model=m, loss_fn=loss_fn, bounds=[[0, 1]] * (n + 1)),
            ValueError, 'bounds of another length are accepted')
        refused(lambda: NelderMeadOptimizer(
            model=m, loss_fn=loss_fn, bounds=[[1, 0]] * n), ValueError,
            'reversed bounds are accepted')
        refused(lambda: NelderMeadOptimizer(
            model=m, loss_fn=loss_fn,
            hyperparams={'initial_simplex': np.zeros((n + 2, n))}),
            ValueError, 'a simplex of the wrong shape is accepted')


@st.composite
def absent_case(draw):
    s = draw(problem())
    s['bounds'] = 'none'
    return s


@check(P, 'nelder_absent', absent_case, quick=150, shards=1,
       rule='a batch without some symbol')
def nelder_absent(s, ctx):
    """Nelder-Mead keeps the weights of symbols that are not in the
    batch."""
    m, points, targets, _ = setup(s)
    opt = NelderMeadOptimizer(model=m, loss_fn=loss_fn)
    b = s['batches'][0]
    mask = relevant(s, b)
    ctx.nontrivial(not mask.all())
    w = np.array(m.weights)
    loss = opt.backward(([points[i] for i in b], targets[b]))
    opt.step()
    y = np.array([m.value(points[i], m.weights) for i in b])
    expect(close(loss_fn(y, targets[b]), loss),
           'the loss is not that of the weights')
    expect(((m.weights != 0) | mask | (w == 0)).all(),
           lambda: f'weights {w} become {m.weights} by a batch with the '
           f'symbols {mask}', sig='absent symbols zeroed')
