"""M11: trainers take the steps of the optimiser they are given."""
import contextlib
import io
import random
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.training import (Dataset, NelderMeadOptimizer, PytorchModel,
                             PytorchTrainer, QuantumTrainer,
                             RotosolveOptimizer, SPSAOptimizer)
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props import m05
from lbverif.props.m04 import array

P = 'M11'
prop(P, ['losses and metrics are deterministic functions of predictions and '
         'targets', 'predictions of QuantumTrainer during a training step '
         'are those of the optimiser'])

TORCH = {
    'default': (None, {}),
    'sgd': (torch.optim.SGD, {'momentum': 0.9, 'nesterov': True}),
    'plain': (torch.optim.SGD, {}),
    'adam': (torch.optim.Adam, {'betas': (0.5, 0.9)}),
    'adamw': (torch.optim.AdamW, {'weight_decay': 0.5}),
    'rms': (torch.optim.RMSprop, {'momentum': 0.5, 'alpha': 0.3}),
    'max': (torch.optim.Adam, {'maximize': True})}
QUANTUM = {'spsa': SPSAOptimizer, 'nm': NelderMeadOptimizer,
           'roto': RotosolveOptimizer, 'numpy': SPSAOptimizer}
KINDS = ['spsa', 'nm', 'roto', 'numpy', 'torch', 'torch', 'torch', 'hybrid',
         'hybrid', 'quantum', 'pennylane']


class Hybrid(PytorchModel):
    """A linear layer after the contraction, some of it frozen."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.net = torch.nn.Sequential(torch.nn.Linear(2, 3),
                                       torch.nn.Linear(3, 2))
        self.net[1].bias.requires_grad = False

    def forward(self, x):
        return self.net(super().forward(x))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    n = draw(st.integers(1, 5))
    return {
        'kind': kind, 'epochs': draw(st.integers(1, 4)), 'n': n,
        'b': draw(st.integers(0, 3)), 'v': draw(st.integers(0, 3)),
        'vb': draw(st.integers(0, 2)),
        'syms': [draw(st.lists(st.integers(0, 3), unique=True, min_size=1,
                               max_size=3)) for _ in range(n)],
        'eval': draw(st.sampled_from([1, 1, 2])),
        'mode': draw(st.sampled_from(['epoch', 'step'])),
        'on_train': draw(st.booleans()),
        # the others blow the rounding of vanishing gradients up
        'optim': draw(st.sampled_from(
            ['sgd', 'plain'] if kind in ('quantum', 'pennylane')
            else sorted(TORCH))),
        'lr': draw(st.sampled_from([None, 0.5, 0.1, 1e-3])),
        'hyper': {'a': draw(st.sampled_from([0.2, 0.05])),
                  'c': draw(st.sampled_from([0.1, 0.02])),
                  'A': draw(st.sampled_from([1, 0.5]))},
        'adaptive': draw(st.booleans()),
        'bounds': draw(st.booleans()),
        'shuffle': draw(st.booleans()),
        'seed': draw(st.sampled_from([0, 1, 42]) | st.integers(2, 10 ** 6))}


def build(s):
    data = [m05.Run.point(s, i) for i in range(s['n'])]
    torchy = s['kind'] not in QUANTUM
    ys = np.round(gr.key_tensor([s['seed'], 'y'], (s['n'],)).real * 4) / 4
    targets = torch.tensor(ys) if torchy else ys
    m = Hybrid.from_diagrams(data) if s['kind'] == 'hybrid' \
        else m05.Run.make(s, data)
    return m, data, targets


def loss_torch(y, t):
    y = torch.tanh(y.abs())
    return ((y.reshape(len(y), -1)[:, 0] - t) ** 2).mean()


def loss_numpy(y, t):
    y = np.asarray(y)
    y = np.abs(y.reshape(len(y), -1)[:, 0])
    return float(np.mean((y - t) ** 2))


def optimiser(s, m):
    """How the user would set the optimiser up."""
    if s['kind'] in QUANTUM:
        args = {'bounds': [[-0.5, 1.5]] * len(m.symbols)} \
            if s['bounds'] and s['kind'] != 'roto' else {}
        hyper = {'spsa': s['hyper'], 'numpy': s['hyper'],
                 'nm': {'adaptive': s['adaptive']}}.get(s['kind'])
        return QUANTUM[s['kind']], hyper, args
    opt, args = TORCH[s['optim']]
    return opt, s['lr'], args


def trainer(s, m, log_dir, metrics):
    kw = {'evaluate_functions': metrics, 'evaluate_on_train': s['on_train'],
          'log_dir': log_dir, 'verbose': 'suppress', 'seed': s['seed']}
    opt, h, args = optimiser(s, m)
    if s['kind'] in QUANTUM:
        return QuantumTrainer(m, loss_numpy, s['epochs'], opt, h,
                              optimizer_args=args or None, **kw)
    if opt is None:     # AdamW, learning rate 1e-3
        return PytorchTrainer(m, loss_torch, s['epochs'], **kw)
    return PytorchTrainer(m, loss_torch, s['epochs'], optimizer=opt,
                          learning_rate=h, optimizer_args=args or None, **kw)


def state(m):
    if isinstance(m, torch.nn.Module):
        return [p.detach().numpy().copy() for p in m.parameters()]
    return [np.array(m.weights)]


def close(a, b):
    return len(a) == len(b) and all(
        np.shape(x) == np.shape(y) and np.allclose(
            x, y, rtol=1e-5, atol=1e-5, equal_nan=True)
        for x, y in zip(a, b))


def split(n, b):
    b = b or n
    return [range(i, min(n, i + b)) for i in range(0, n, b)]


def reference(s, m, start, rng, data, targets):
    """The plain loop: costs, evaluations, weights."""
    m.initialise_weights()
    k = min(s['v'], s['n'])
    val = [([data[i] for i in ix], targets[list(ix)])
           for ix in split(k, s['vb'])] if k else []
    train = [([data[i] for i in ix], targets[list(ix)])
             for ix in split(s['n'], s['b'])]
    every = s['eval'] * (len(train) if s['mode'] == 'epoch' else 1)
    out = {'train': [], 'val': [], 'f': [], 'tf': []}
    pending, step = [], 0

    def mean(pairs):
        return sum(n * x for n, x in pairs) / sum(n for n, _ in pairs)
    opt, h, args = optimiser(s, m)
    if s['kind'] in QUANTUM:
        m.weights = np.array(start[0])
        np.random.set_state(rng)
        o = opt(model=m, loss_fn=loss_numpy, hyperparams=h, **args)
    else:
        with torch.no_grad():
            for p, v in zip(m.parameters(), start):
                p.copy_(torch.tensor(v))
        if opt is None:
            o = torch.optim.AdamW(m.parameters(), lr=1e-3)
        else:
            if h is not None:
                args = dict(args, lr=h)
            o = opt(m.parameters(), **args)
    for _ in range(s['epochs']):
        for x, y in train:
            if s['kind'] in QUANTUM:
                loss = o.backward((x, y))
                o.step()
                o.zero_grad()
            else:
                p = m.get_diagram_output(x) if s['kind'] != 'hybrid' \
                    else m.net(m.get_diagram_output(x))
                z = loss_torch(p, y)
                o.zero_grad()
                z.backward()
                o.step()
                loss = z.item()
                pending.append((len(x), m05.Run.f(p.detach(), y)))
            out['train'].append(loss)
            step += 1
            if step % every:
                continue
            if pending:
                out['tf'].append(mean(pending))
                pending = []
            ls, fs = [], []
            for x, y in val:
                if s['kind'] in QUANTUM:
                    p = m.get_diagram_output(x)
                    ls.append((len(x), loss_numpy(p, y)))
                else:
                    with torch.no_grad():
                        p = m.get_diagram_output(x)
                        if s['kind'] == 'hybrid':
                            p = m.net(p)
                    ls.append((len(x), loss_torch(p, y).item()))
                fs.append((len(x), m05.Run.f(p, y)))
            if val:
                out['val'].append(mean(ls))
                out['f'].append(mean(fs))
    return out, state(m)


@check(P, 'steps', case, quick=420, shards=6, hang=300,
       rule='>= 3 steps, with validation')
def steps(s, ctx):
    tmp = tempfile.mkdtemp(prefix='lbverif')
    state0 = random.getstate(), np.random.get_state(), torch.get_rng_state()
    try:
        if s['kind'] not in QUANTUM:
            # adaptive steps blow the rounding of small gradients up
            torch.set_default_dtype(torch.float64)
        with contextlib.redirect_stderr(io.StringIO()):
            run(s, ctx, tmp)
    finally:
        torch.set_default_dtype(torch.float32)
        random.setstate(state0[0])
        np.random.set_state(state0[1])
        torch.set_rng_state(state0[2])
        shutil.rmtree(tmp)


def run(s, ctx, tmp):
    ctx.label(s['kind'])
    calls = []

    def f(y, t):
        calls.append((array(y), array(t)))
        return m05.Run.f(y, t)
    m, data, targets = build(s)
    tr = trainer(s, m, tmp, {'f': f})
    start, rng = state(m), np.random.get_state()
    k = min(s['v'], s['n'])
    kw = {'eval_interval': s['eval'], 'eval_mode': s['mode']}
    tr.fit(Dataset(data, targets, batch_size=s['b'], shuffle=False),
           Dataset(data[:k], targets[:k], batch_size=s['vb'],
                   shuffle=False) if k else None, **kw)
    # by hand
    m2, data, targets = build(s)
    want, end = reference(s, m2, start, rng, data, targets)
    ctx.nontrivial(len(want['train']) > 2 and bool(want['val']))
    expect(close(tr.train_costs, want['train']),
           lambda: f'{s["kind"]}: training losses {tr.train_costs}, by hand '
           f'{want["train"]}')
    expect(close(state(m), end),
           lambda: f'{s["kind"]}: weights {state(m)}, by hand {end}')
    expect(close(tr.val_costs, want['val']),
           lambda: f'{s["kind"]}: validation losses {tr.val_costs}, by hand '
           f'{want["val"]}')
    expect(close(tr.val_eval_results['f'], want['f']),
           lambda: f'{s["kind"]}: metric {tr.val_eval_results["f"]}, by hand '
           f'{want["f"]}')
    if s['kind'] not in QUANTUM and s['on_train']:
        expect(close(tr.train_eval_results['f'], want['tf']),
               lambda: f'{s["kind"]}: metric in training '
               f'{tr.train_eval_results["f"]}, by hand {want["tf"]}')
    # again, with the same seed: the same run
    m3, data, targets = build(s)
    if s['shuffle']:
        ctx.label('shuffled')
    runs = []
    for m3 in (m3, build(s)[0]):
        t3 = trainer(s, m3, tmp, {'f': m05.Run.f})
        expect(close(state(m3), start), lambda: f'{s["kind"]}: the seed does '
               f'not fix the initial weights: {state(m3)}, {start}')
        t3.fit(Dataset(data, targets, batch_size=s['b'],
                       shuffle=s['shuffle']),
               Dataset(data[:k], targets[:k], batch_size=s['vb'],
                       shuffle=False) if k else None, **kw)
        runs.append((t3.train_costs, t3.val_costs,
                     t3.val_eval_results['f'], *state(m3)))
    expect(close(*runs), lambda: f'{s["kind"]}: two runs with the same seed '
           f'differ: {runs}')
    if not s['shuffle']:
        expect(close(runs[0][3:], end), f'{s["kind"]}: the run is not '
               'repeated')
