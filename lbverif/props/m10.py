"""M10: fitting evaluates, logs, keeps the best model and stops as asked."""
import contextlib
import io
import math
import os
import re
import shutil
import tempfile
import time
from unittest import mock

import numpy as np
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.core.utils import normalise_duration
from lambeq.training import Checkpoint, Dataset, Trainer
from lambeq.training.quantum_model import QuantumModel
from lbverif.core import check, expect, prop
from lbverif.props.m01 import refused

P = 'M10'
prop(P, ['a trainer whose steps give scripted losses and metrics and move a '
         'scripted clock', 'ties in the early stopping criterion may stop or '
         'not'])


class Counter(QuantumModel):
    """Its weight is the number of training steps."""

    def get_diagram_output(self, diagrams):
        return np.array([self.weights[0]] * len(diagrams))

    forward = get_diagram_output


class Scripted(Trainer):
    def play(self, train, val, clock):
        self.script = {'train': train, 'val': val}
        self.n = {'train': 0, 'val': 0}
        self.clock = clock
        self.sizes = {'train': [], 'val': []}
        self.backends = set()

    def run(self, kind, batch, weight):
        i = self.n[kind]
        self.n[kind] += 1
        loss, dt = self.script[kind][i % len(self.script[kind])]
        self.clock[0] += dt
        self.sizes[kind].append(len(batch[0]))
        return (kind, i), loss

    def training_step(self, batch):
        y, loss = self.run('train', batch, 0)
        self.model.weights = self.model.weights + 1
        self.train_costs.append(loss)
        return y, loss

    def validation_step(self, batch):
        return self.run('val', batch, 0)

    def _add_extra_checkpoint_info(self, checkpoint):
        checkpoint['extra'] = self.n['train']

    def _load_extra_checkpoint_info(self, checkpoint):
        self.extra = checkpoint['extra']


@st.composite
def case(draw):
    step = draw(st.booleans())
    s = {
        'epochs': draw(st.integers(1, 6)),
        'n': draw(st.integers(1, 7)), 'b': draw(st.integers(0, 3)),
        'v': draw(st.sampled_from([None, 1, 2, 3, 4])),
        'vb': draw(st.integers(0, 2)),
        'mode': 'step' if step else 'epoch',
        'eval': draw(st.sampled_from([None, 'default', 1, 2, 3, 4])),
        'log': draw(st.sampled_from([None, 'default', 1, 2, 3])),
        'metrics': draw(st.sampled_from([None, [], ['f'], ['f', 'g']])),
        'on_train': draw(st.booleans()),
        'criterion': draw(st.sampled_from([None, None, 'f', 'g'])),
        'stop': draw(st.sampled_from([None, None, 1, 2, 3])),
        'min': draw(st.booleans()),
        'verbose': draw(st.sampled_from(['text', 'suppress', 'progress'])),
        'timing': draw(st.booleans()),
        'losses': draw(st.lists(st.integers(0, 5), min_size=3, max_size=12)),
        'vlosses': draw(st.lists(st.integers(0, 5), min_size=3,
                                 max_size=12)),
        'f': draw(st.lists(st.integers(0, 4), min_size=3, max_size=9)),
        'times': draw(st.lists(st.sampled_from([0, 1, 2, 61]), min_size=2,
                               max_size=5))}
    if draw(st.integers(0, 2)) == 0:
        # long waits: each evaluation has a value of its own
        s.update(
            epochs=draw(st.integers(5, 14)), eval=1, v=draw(
                st.integers(1, 3)), vb=draw(st.sampled_from([0, 0, 1])),
            stop=draw(st.integers(2, 5)),
            vlosses=draw(st.lists(st.integers(0, 40), min_size=8,
                                  max_size=20, unique=True)),
            f=draw(st.lists(st.integers(0, 40), min_size=8, max_size=20,
                            unique=True)))
        if s['criterion']:
            s['metrics'] = ['f', 'g']
    return s


def mean(pairs):
    return sum(n * x for n, x in pairs) / sum(n for n, _ in pairs)


def sizes(n, b):
    b = b or n
    return [min(b, n - i) for i in range(0, n, b)]


@check(P, 'fit', case, quick=1200, shards=3,
       rule='>= 2 evaluations of validation data in several batches')
def fit(s, ctx):
    tmp = tempfile.mkdtemp(prefix='lbverif')
    try:
        run(s, ctx, tmp)
    finally:
        shutil.rmtree(tmp)


def run(s, ctx, tmp):
    clock = [1000.0]
    model = Counter()
    model.symbols = [Symbol('a')]
    f = {'train': s['f'], 'val': s['f'][::-1]}
    metric = {
        'f': lambda y, t: f[y[0]][y[1] % len(s['f'])],
        'g': lambda y, t: len(t) + y[1] % 3}
    metrics = None if s['metrics'] is None else {
        k: metric[k] for k in s['metrics']}
    data = Dataset([f'x{i}' for i in range(s['n'])], [[i] for i in
                                                      range(s['n'])],
                   batch_size=s['b'], shuffle=False)
    val = None if s['v'] is None else Dataset(
        ['y'] * s['v'], [0] * s['v'], batch_size=s['vb'])
    losses = [(x, s['times'][i % len(s['times'])])
              for i, x in enumerate(s['losses'])]
    vlosses = [(x, s['times'][-1 - i % len(s['times'])])
               for i, x in enumerate(s['vlosses'])]
    tr = Scripted(model, lambda y, t: 0, s['epochs'],
                  evaluate_functions=metrics,
                  evaluate_on_train=s['on_train'], log_dir=tmp,
                  verbose=s['verbose'], seed=3)
    tr.play(losses, vlosses, clock)
    model.weights = np.zeros(1)
    kw = {'eval_mode': s['mode'], 'minimize_criterion': s['min'],
          'early_stopping_criterion': s['criterion'],
          'early_stopping_interval': s['stop'],
          'full_timing_report': s['timing']}
    if s['eval'] != 'default':
        kw['eval_interval'] = s['eval']
    if s['log'] != 'default':
        kw['log_interval'] = s['log']
    err = io.StringIO()

    def go():
        with contextlib.redirect_stderr(err), \
                mock.patch.object(time, 'time', lambda: clock[0]), \
                mock.patch.object(time, 'perf_counter', lambda: clock[0]):
            tr.fit(data, val, **kw)
    if s['criterion'] and s['criterion'] not in (metrics or {}):
        refused(go, ValueError, 'an unknown criterion is accepted')
        expect(tr.n == {'train': 0, 'val': 0}, 'training has begun')
        return
    go()
    # the reference
    ts, vs = sizes(s['n'], s['b']), s['v'] and sizes(s['v'], s['vb'])
    per = len(ts)
    unit = per if s['mode'] == 'epoch' else 1
    every = {'default': unit, None: per}.get(
        s['eval'], (s['eval'] if isinstance(s['eval'], int) else 0) * unit)
    log = {'default': every, None: per}.get(
        s['log'], (s['log'] if isinstance(s['log'], int) else 0) * every)
    names = s['metrics'] or []
    step = k = 0
    costs, epochs, vcosts, ev, tev = [], [], [], {}, {}
    ev = {x: [] for x in names}
    tev = {x: [] for x in names}
    pending = {x: [] for x in names}
    best, best_at, stopped = math.inf, None, False
    t_times, v_times, lines, when = [], [], [], 1000.0
    sign = 1 if s['min'] else -1
    for epoch in range(1, s['epochs'] + 1):
        here = []
        for n in ts:
            loss, dt = losses[step % len(losses)]
            t_times.append(dt)
            costs.append(loss)
            here.append((n, loss))
            if s['on_train']:
                for x in names:
                    pending[x].append((n, s['f'][step % len(s['f'])]
                                       if x == 'f' else n + step % 3))
            step += 1
            if step % every == 0:
                if s['on_train']:
                    for x in names:
                        tev[x].append(mean(pending[x]))
                        pending[x] = []
                if vs:
                    vl, rs = [], {x: [] for x in names}
                    for n in vs:
                        loss, dt = vlosses[k % len(vlosses)]
                        v_times.append(dt)
                        vl.append((n, loss))
                        for x in names:
                            rs[x].append((
                                n, s['f'][::-1][k % len(s['f'])]
                                if x == 'f' else n + k % 3))
                        k += 1
                    vcosts.append(mean(vl))
                    for x in names:
                        ev[x].append(mean(rs[x]))
                    crit = ev[s['criterion']] if s['criterion'] else vcosts
                    c = [sign * x for x in crit]
                    if c[-1] < best:
                        best, best_at = c[-1], (epoch, step, len(vcosts))
                    if s['stop'] and len(c) > s['stop']:
                        old, new = c[-s['stop'] - 1], min(c[-s['stop']:])
                        stopped = old < new - 1e-9 or (
                            abs(old - new) < 1e-9       # either is fine
                            and tr.n['train'] == step
                            and (step < per * s['epochs']
                                 or 'Early stopping' in err.getvalue()))
            if step % log == 0:
                nv = max(1, log // every) * len(vs or [])
                lines.append((epoch, step, costs[-1],
                              vcosts[-1] if vcosts else None,
                              sum(t_times[-log:]),
                              sum(v_times[-nv:]) if vs and v_times else None,
                              dict((x, y[-1]) for x, y in tev.items() if y),
                              dict((x, y[-1]) for x, y in ev.items() if y),
                              sum(t_times[-log:]) / (log / unit),
                              sum(v_times[-nv:]) / max(1, log // every)
                              if vs and v_times else None))
            if stopped:
                break
        epochs.append(mean(here))
        if stopped:
            break
    ctx.nontrivial(len(vcosts) > 1 and len(vs) > 1)
    if stopped:
        ctx.label('stopped early')

    def same(name, got, want):
        expect(len(got) == len(want) and np.allclose(got, want),
               lambda: f'{name}: {got}, expected {want}')
    expect(tr.n == {'train': step, 'val': k},
           lambda: f'{tr.n} steps, expected {step} and {k}')
    expect(tr.sizes['train'] == (ts * s['epochs'])[:step]
           and (not vs or tr.sizes['val'] == vs * (k // len(vs))),
           'sizes of the batches')
    same('train_costs', tr.train_costs, costs)
    same('train_epoch_costs', tr.train_epoch_costs, epochs)
    same('val_costs', tr.val_costs, vcosts)
    same('train_durations', tr.train_durations, t_times)
    same('val_durations', tr.val_durations, v_times)
    expect(set(tr.train_eval_results) == set(names)
           == set(tr.val_eval_results), 'names of the metrics')
    for x in names:
        same(f'train {x}', tr.train_eval_results[x], tev[x])
        same(f'valid {x}', tr.val_eval_results[x], ev[x])
    # files
    want = ['model.lt'] + ['best_model.lt'] * bool(best_at)
    expect(sorted(os.listdir(tmp)) == sorted(want),
           lambda: f'files {os.listdir(tmp)}, expected {want}')
    expect(model.weights[0] == step, 'the model is not the last one')
    c = Checkpoint.from_file(os.path.join(tmp, 'model.lt'))
    expect(c['model_weights'][0] == step and c['step'] == step
           and c['epoch'] == len(epochs) and c['val_costs'] == tr.val_costs,
           'the last checkpoint is not that of the last epoch')
    if best_at:
        c = Checkpoint.from_file(os.path.join(tmp, 'best_model.lt'))
        expect((c['epoch'], c['step'], len(c['val_costs'])) == best_at
               and c['model_weights'][0] == best_at[1],
               lambda: f'the best model is of epoch {c["epoch"]}, step '
               f'{c["step"]}, expected {best_at}')
        expect(Counter.from_checkpoint(os.path.join(
            tmp, 'best_model.lt')).weights[0] == best_at[1],
            'the best model')
    # the log
    text = err.getvalue()
    for word, total in [('train/time', sum(t_times)),
                        ('valid/time', sum(v_times) if v_times else None)]:
        expect(f'{word}: {normalise_duration(total)}' in text.splitlines()[-1]
               + ' ', lambda: f'total {word} of {total} in {text}')
    if s['verbose'] == 'text':
        check_log(s, text, lines, names)
        expect(('Early stopping' in text) == stopped, 'early stopping notice')
        if stopped:
            expect(f'(epoch={best_at[0]}, step={best_at[1]})' in text,
                   lambda: f'{best_at} is best: {text}')
    elif s['verbose'] == 'suppress':
        expect(len(text.splitlines()) == 1, lambda: f'output {text}')
    with contextlib.redirect_stderr(err):
        refused(lambda: tr.fit(data, val, eval_mode='never'), ValueError,
                'an unknown evaluation mode is accepted')


def check_log(s, text, lines, names):
    word = s['mode'].capitalize()
    got = [x for x in text.splitlines() if re.match(rf'{word} \d+:', x)]
    expect(len(got) == len(lines), lambda: f'{len(got)} lines of log, '
           f'expected {len(lines)}: {text}')
    for x, (epoch, step, loss, vloss, t, vt, tev, ev, tm, vm) in zip(
            got, lines):
        head, _, rest = x.partition(':')
        expect(head == f'{word} {epoch if s["mode"] == "epoch" else step}',
               lambda: f'log line {x} in epoch {epoch}, step {step}')
        d = dict(y.split(': ', 1) for y in re.split(r'\s{3,}', rest.strip()))

        def num(v):
            return '-----' if v is None else f'{v:.4f}'

        def dur(v):
            return '-----' if v is None else normalise_duration(v)
        want = {'train/loss': num(loss), 'valid/loss': num(vloss),
                'train/time': dur(t), 'valid/time': dur(vt)}
        if s['timing'] and t:
            want[f'train/time_per_{s["mode"]}'] = dur(tm)
        if s['timing'] and vt:
            want['valid/time_per_eval'] = dur(vm)
        for n in names:
            if s['on_train']:
                want[f'train/{n}'] = num(tev.get(n))
            want[f'valid/{n}'] = num(ev.get(n))
        expect(d == want, lambda: f'log line {x}, expected {want}')
