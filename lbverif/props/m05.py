"""M05: interrupted and resumed training ends as uninterrupted training."""
import contextlib
import io
import os
import random
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.backend.quantum import CX, H, Id, Ket, Rx, Ry, Rz, qubit
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Dim
from lambeq.training import (Checkpoint, Dataset, NelderMeadOptimizer,
                             NumpyModel, PennyLaneModel, PytorchModel,
                             PytorchQuantumModel, PytorchTrainer,
                             QuantumTrainer, RotosolveOptimizer,
                             SPSAOptimizer)
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.m04 import array
from lbverif.props.m08 import Stub, circuit

P = 'M05'
prop(P, ['a seed is given and interrupted runs are resumed with the same '
         'data and settings', 'a crash is an exception from the loss or a '
         'metric; checkpoint files are written whole',
         'the runs before the last interruption do not stop early'])

KINDS = ['spsa', 'spsa', 'nm', 'roto', 'numpy', 'torch', 'torch', 'hybrid',
         'hybrid', 'quantum', 'pennylane']
TORCH = {'sgd': (torch.optim.SGD, {'momentum': 0.9}),
         'adam': (torch.optim.Adam, {}),
         'adamw': (torch.optim.AdamW, {'weight_decay': 0.1}),
         'rms': (torch.optim.RMSprop, {'momentum': 0.5})}


class Crash(Exception):
    pass


class Hybrid(PytorchModel):
    """A linear layer and dropout after the contraction."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.net = torch.nn.Sequential(torch.nn.Linear(2, 3),
                                       torch.nn.Dropout(0.4),
                                       torch.nn.Linear(3, 2))

    def forward(self, x):
        return self.net(super().forward(x))


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    big = kind not in ('numpy', 'quantum', 'pennylane')
    n = draw(st.integers(1, 6 if big else 3))
    epochs = draw(st.integers(2, 5 if big else 3))
    return {
        'kind': kind, 'epochs': epochs, 'n': n,
        'b': draw(st.integers(0, 3)), 'shuffle': draw(st.booleans()),
        'v': draw(st.integers(0, 3)), 'vb': draw(st.integers(0, 2)),
        'vshuffle': draw(st.booleans()),
        'syms': [draw(st.lists(st.integers(0, 3), unique=True, min_size=1,
                               max_size=3)) for _ in range(n)],
        'eval': draw(st.sampled_from([None, 1, 1, 2, 3])),
        'mode': draw(st.sampled_from(['epoch', 'step'])),
        'metrics': draw(st.sampled_from([None, ['f'], ['f', 'g']])),
        'on_train': draw(st.booleans()),
        'criterion': draw(st.sampled_from([None, None, 'f'])),
        'stop': draw(st.sampled_from([None, None, 1, 2])),
        'min': draw(st.booleans()),
        'optim': draw(st.sampled_from(sorted(TORCH))),
        'seed': draw(st.integers(0, 10 ** 6)),
        'bounds': draw(st.booleans()), 'adaptive': draw(st.booleans()),
        # the interruptions: stop after an epoch, or crash at a call of
        # the loss of this run
        'cuts': [[draw(st.sampled_from(['epoch', 'crash', 'crash'])),
                  draw(st.integers(0, 11))]
                 for _ in range(draw(st.integers(1, 3)))],
        'verbose': draw(st.sampled_from(['suppress', 'text', 'progress']))}


class Run:
    """Everything one run of training needs, made anew."""

    def __init__(self, s, log_dir, epochs, resume, crash=None):
        self.calls = 0
        torchy = s['kind'] in ('torch', 'hybrid', 'quantum', 'pennylane')
        data = [self.point(s, i) for i in range(s['n'])]
        ys = np.round(gr.key_tensor([s['seed'], 'y'], (s['n'],)).real, 2)
        targets = torch.tensor(ys) if torchy else ys
        kw = {'evaluate_functions': None if s['metrics'] is None else {
            k: getattr(self, k) for k in s['metrics']},
            'evaluate_on_train': s['on_train'], 'log_dir': log_dir,
            'from_checkpoint': resume, 'verbose': s['verbose'],
            'seed': s['seed']}

        def loss(y, t):
            self.calls += 1
            if self.calls == crash:
                raise Crash
            if torchy:
                y = y.abs() ** 2
                return ((y.reshape(len(y), -1)[:, 0] - t) ** 2).mean()
            y = np.asarray(y)
            y = np.abs(y.reshape(len(y), -1)[:, 0])
            return float(np.mean((y - t) ** 2))
        self.model = m = self.make(s, data)
        if torchy:
            opt, args = TORCH[s['optim']]
            self.trainer = PytorchTrainer(
                m, loss, epochs, optimizer=opt, learning_rate=0.1,
                optimizer_args=dict(args), **kw)
        else:
            opt, hyper = {
                'spsa': (SPSAOptimizer, {'a': 0.2, 'c': 0.1, 'A': 1}),
                'numpy': (SPSAOptimizer, {'a': 0.2, 'c': 0.1, 'A': 1}),
                'nm': (NelderMeadOptimizer, {'adaptive': s['adaptive']}),
                'roto': (RotosolveOptimizer, None)}[s['kind']]
            args = {}
            if s['bounds'] and s['kind'] != 'roto':
                args['bounds'] = [[-0.5, 1.5]] * len(m.symbols)
            self.trainer = QuantumTrainer(
                m, loss, epochs, opt, hyper, optimizer_args=args, **kw)
        self.train = Dataset(data, targets, batch_size=s['b'],
                             shuffle=s['shuffle'])
        self.val = None
        if s['v']:
            k = min(s['v'], s['n'])
            self.val = Dataset(data[:k], targets[:k], batch_size=s['vb'],
                               shuffle=s['vshuffle'])
        self.kw = {'eval_interval': s['eval'], 'eval_mode': s['mode'],
                   'minimize_criterion': s['min'],
                   'early_stopping_interval': s['stop'] if s['v'] else None}
        if s['metrics']:
            self.kw['early_stopping_criterion'] = s['criterion']

    @staticmethod
    def f(y, t):
        return float(array(y).reshape(-1).real.sum().round(6))

    @staticmethod
    def g(y, t):
        return float(len(t)) + float(t[0])

    @staticmethod
    def point(s, i):
        names = ['abcd'[k] for k in s['syms'][i]]
        if s['kind'] in ('torch', 'hybrid'):
            d = Box('start', Dim(1), Dim(2), [1., 2.])
            for n in names:
                d = d >> Box(n, Dim(2), Dim(2), Symbol(
                    n, directed_dom=2, directed_cod=2))
            return d
        if s['kind'] in ('spsa', 'nm', 'roto'):
            return circuit(names, i)
        d = Ket(0, 0) >> H @ Ry(0.2)
        for k, n in enumerate(names):
            d = d >> Id(qubit ** (k % 2)) @ (Rx, Ry, Rz)[(i + k) % 3](
                Symbol(n)) @ Id(qubit ** (1 - k % 2)) >> CX
        return d

    @staticmethod
    def make(s, data):
        cls = {'numpy': NumpyModel, 'torch': PytorchModel, 'hybrid': Hybrid,
               'quantum': PytorchQuantumModel, 'pennylane': PennyLaneModel
               }.get(s['kind'])
        if cls:
            return cls.from_diagrams(data)
        m = Stub(s['seed'] % 1000)
        m.symbols = sorted(set().union(*(d.free_symbols for d in data)))
        return m

    def fit(self):
        self.trainer.fit(self.train, self.val, **self.kw)


def flat(x):
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in flat(x[k])]
    if isinstance(x, (list, tuple, torch.nn.ParameterList)):
        return [z for y in x for z in flat(y)]
    return [array(x)]


def same(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(
        np.shape(x) == np.shape(y) and np.allclose(x, y, 1e-6, 1e-7,
                                                   equal_nan=True)
        for x, y in zip(a, b))


HISTORY = ['train_costs', 'train_epoch_costs', 'train_eval_results',
           'val_costs', 'val_eval_results']
DURATIONS = ['train_durations', 'train_epoch_durations', 'val_durations']


@check(P, 'resume', case, quick=330, shards=6,
       rule='>= 2 steps after resuming, and data that is shuffled, an '
       'optimiser with a state or a metric')
def resume(s, ctx):
    tmp = tempfile.mkdtemp(prefix='lbverif')
    keep = (random.getstate(), np.random.get_state(), torch.get_rng_state())
    try:
        with contextlib.redirect_stderr(io.StringIO()), np.errstate(
                all='ignore'):
            # adaptive steps blow the rounding of small gradients up
            torch.set_default_dtype(torch.float64)
            run(s, ctx, tmp)
    finally:
        torch.set_default_dtype(torch.float32)
        shutil.rmtree(tmp)
        random.setstate(keep[0])
        np.random.set_state(keep[1])
        torch.set_rng_state(keep[2])


def disturb(i):
    random.seed(i)
    np.random.seed(i)
    torch.manual_seed(i)


def run(s, ctx, tmp):
    whole, parts = os.path.join(tmp, 'a'), os.path.join(tmp, 'b')
    disturb(1)
    ref = Run(s, whole, s['epochs'], False)
    ref.fit()
    epochs = len(ref.trainer.train_epoch_costs)
    ctx.label(s['kind'])
    if epochs < s['epochs']:
        ctx.label('stops early')
    done, last = 0, None
    for i, (how, x) in enumerate(s['cuts']):
        disturb(17 + i)
        resumed = os.path.exists(os.path.join(parts, 'model.lt'))
        if how == 'epoch':
            if epochs - 1 <= done:
                continue
            done += 1 + x % (epochs - 1 - done)
            last = Run(s, parts, done, resumed)
            last.fit()
        else:
            last = Run(s, parts, s['epochs'], resumed, crash=x + 1)
            try:
                last.fit()
            except Crash:
                ctx.label('crash')
            else:
                break           # no call was left
            if os.path.exists(os.path.join(parts, 'model.lt')):
                done = Checkpoint.from_file(
                    os.path.join(parts, 'model.lt'))['epoch']
            last = None
    else:
        if done < epochs:
            disturb(99)
            resumed = os.path.exists(os.path.join(parts, 'model.lt'))
            before = done
            last = Run(s, parts, s['epochs'], resumed)
            last.fit()
            ctx.nontrivial(
                before and len(last.trainer.train_costs) > 1
                and (s['shuffle'] or s['metrics'] is not None
                     or s['kind'] in ('spsa', 'nm', 'numpy', 'hybrid')))
        elif last is None:      # cannot be: it crashed after the end
            return
    for name in HISTORY:
        a, b = getattr(ref.trainer, name), getattr(last.trainer, name)
        expect(same(a, b), lambda: f'{name} of resumed training: {b}, '
               f'expected {a}')
    for name in DURATIONS:
        a, b = getattr(ref.trainer, name), getattr(last.trainer, name)
        expect(len(a) == len(b), lambda: f'{len(b)} {name}, expected '
               f'{len(a)}')
    expect(list(ref.model.symbols) == list(last.model.symbols), 'symbols')
    expect(same(ref.model.weights, last.model.weights),
           lambda: f'weights {last.model.weights} after resumed training, '
           f'expected {ref.model.weights}')
    if isinstance(ref.model, torch.nn.Module):
        expect(same(dict(ref.model.state_dict()),
                    dict(last.model.state_dict())), 'state of the model')
    expect(sorted(os.listdir(whole)) == sorted(os.listdir(parts)),
           lambda: f'files {os.listdir(parts)}, expected '
           f'{os.listdir(whole)}')
    for name in os.listdir(whole):
        a, b = (Checkpoint.from_file(os.path.join(x, name))
                for x in (whole, parts))
        for k in ['epoch', 'step', 'model_weights', *HISTORY]:
            expect(same(a[k], b[k]), lambda: f'{name} has {k} {b[k]} after '
                   f'resumed training, expected {a[k]}')
