"""M06: datasets give every pair exactly once per epoch."""
import random

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar
from lambeq.backend import numerical_backend as nb
from lambeq.training import Dataset
from lambeq.training.dataset import flatten
from lbverif.core import check, expect, prop
from lbverif.props.m01 import refused

P = 'M06'
prop(P, ['at least one data point; targets are nested lists of numbers of '
         'one shape; numpy, JAX and PyTorch backends'])

BACKENDS = ['numpy', 'numpy', 'jax', 'pytorch']


def kind(x):
    return type(x).__module__.split('.')[0].replace('jaxlib', 'jax')


def target(i, shape, seed):
    rng = np.random.default_rng([seed, i])
    t = np.array(np.round(rng.normal(size=shape), 2))
    t.flat[:1] = i + 0.5           # distinct
    return t.tolist()


@st.composite
def case(draw):
    n = draw(st.integers(1, 12))
    return {'n': n, 'shape': draw(st.sampled_from([[], [], [2], [2, 3]])),
            'batch': draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5, n, n + 1])),
            'shuffle': draw(st.sampled_from([True, True, False, None])),
            'backend': draw(st.sampled_from(BACKENDS)),
            'outer': draw(st.sampled_from(BACKENDS)),
            'seed': draw(st.integers(0, 10 ** 6)),
            'ops': draw(st.lists(st.sampled_from(
                ['epoch', 'epoch', 'partial', 'two', 'item', 'slice',
                 'seeded']), min_size=2, max_size=6)),
            'same': draw(st.booleans())}


@check(P, 'batches', case, quick=1500, shards=2,
       rule='>= 3 points in more than one batch, the last one smaller')
def batches(s, ctx):
    n, shape = s['n'], s['shape']
    data = ['x' if s['same'] else f'x{i}' for i in range(n)]
    if not s['same']:
        data = [[x] for x in data]      # identity matters
    targets = [target(i, shape, s['seed']) for i in range(n)]
    kw = {}
    if s['batch'] is not None:
        kw['batch_size'] = s['batch']
    if s['shuffle'] is not None:
        kw['shuffle'] = s['shuffle']
    D, T = list(data), [list(t) if shape else t for t in targets]
    ds = Dataset(D, T, **kw)
    size = s['batch'] or n
    shuffle = s['shuffle'] is not False
    number = -(-n // size)
    ctx.nontrivial(n > 2 and number > 1 and n % size)
    ctx.label(s['backend'])
    expect(len(ds) == n and ds.batches_per_epoch == number
           and ds.batch_size == size, lambda: f'{n} points in batches of '
           f'{s["batch"]}: {len(ds)}, {ds.batches_per_epoch}, '
           f'{ds.batch_size}')

    def judge(bs, backend):
        got = []
        expect(len(bs) == number, lambda: f'{len(bs)} batches, not {number}')
        for i, (x, y) in enumerate(bs):
            want = size if i < n // size else n % size
            expect(isinstance(x, list) and len(x) == want,
                   lambda: f'batch {i} of {number} has {len(x)} points')
            expect(kind(y) == {'pytorch': 'torch'}.get(backend, backend),
                   lambda: f'{backend}: targets are a {type(y)}')
            expect(str(y.dtype).endswith('float32'), 'dtype')
            y = np.asarray(y)
            expect(y.shape == (want, *shape),
                   lambda: f'targets of shape {y.shape}')
            got += [(p, t.tolist()) for p, t in zip(x, y)]
        want = [(p, np.asarray(t, np.float32).tolist())
                for p, t in zip(data, targets)]
        if shuffle:
            got.sort(key=lambda p: np.ravel(p[1])[0])
        expect(got == want, lambda: f'the batches hold {got}, expected '
               f'{want}')
        expect(all(any(p is q for q in data) for p, _ in got),
               'a data point was replaced')

    random.seed(s['seed'])
    with nb.backend(s['outer']), nb.backend(s['backend']):
        for op in s['ops']:
            if op == 'epoch':
                judge(list(ds), s['backend'])
            elif op == 'partial':       # abandon an epoch
                for _ in ds:
                    break
            elif op == 'two':           # interleaved epochs
                a, b = [], []
                for p, q in zip(iter(ds), iter(ds)):
                    a.append(p)
                    b.append(q)
                judge(a, s['backend'])
                judge(b, s['backend'])
            elif op == 'seeded':
                random.seed(s['seed'])
                a = [x for x, _ in ds]
                random.seed(s['seed'])
                expect([x for x, _ in ds] == a,
                       'the order is not that of the random seed')
            elif op == 'item':
                i = s['seed'] % (2 * n) - n
                x, y = ds[i]
                expect(x is data[i] and kind(y) == {'pytorch': 'torch'}.get(
                    s['backend'], s['backend'])
                    and np.allclose(np.asarray(y), targets[i]), 'item')
            else:
                sl = slice(s['seed'] % 3, n - s['seed'] % 2,
                           1 + s['seed'] % 2)
                x, y = ds[sl]
                expect(x == data[sl] and np.allclose(
                    np.asarray(y), np.array(targets[sl])), 'slice')
    expect(D == data and T == targets and list(ds.data) == data,
           'the data or the targets were changed')
    refused(lambda: Dataset(data, targets[1:], **kw), ValueError,
            'lengths that differ are accepted')
    refused(lambda: Dataset(data[1:], targets, **kw), ValueError,
            'lengths that differ are accepted')


@st.composite
def order_case(draw):
    return {'n': draw(st.integers(3, 5)), 'b': draw(st.integers(0, 3)),
            'seed': draw(st.integers(0, 10 ** 6))}


@check(P, 'order', order_case, quick=20, shards=1, rule='all')
def order(s, ctx):
    """Every point takes every position about equally often."""
    n = s['n']
    ctx.nontrivial()
    ds = Dataset(list(range(n)), [[0, 1]] * n, batch_size=s['b'])
    random.seed(s['seed'])
    k = 1000
    seen = np.zeros((n, n))
    for _ in range(k):
        for i, x in enumerate(x for b, _ in ds for x in b):
            seen[i, x] += 1
    # six standard deviations
    far = np.abs(seen / k - 1 / n).max()
    expect(far < 6 * (1 / n / k) ** .5,
           lambda: f'positions of {n} points in {k} epochs:\n{seen}')


@st.composite
def nested(draw, depth=3):
    k = draw(st.integers(0, 6 if depth else 1))
    if k <= 1:
        return draw(st.integers(0, 3))
    if k == 2:
        return draw(st.sampled_from(['s', '', 1.5, None, True]))
    xs = draw(st.lists(nested(depth=depth - 1), max_size=4))
    return [['list', 'tuple', 'dict', 'gen'][k - 3], xs]


def grow(x, boxes):
    if isinstance(x, list):
        k, xs = x
        xs = [grow(y, boxes) for y in xs]
        return {'list': list, 'tuple': tuple, 'gen': iter,
                'dict': lambda v: {f'k{i * 7 % 10}': y for i, y in enumerate(v)}
                }[k](xs)
    return boxes[x] if type(x) is int else x


def leaves(x):
    if isinstance(x, list):
        return [z for y in x[1] for z in leaves(y)]
    return [x] if type(x) is int else []


@st.composite
def flat_case(draw):
    return {'xs': draw(st.lists(nested(), min_size=1, max_size=4))}


@check(P, 'flatten', flat_case, quick=500, shards=1,
       rule='>= 2 diagrams, nested')
def flat(s, ctx):
    """All diagrams of nested data, in order."""
    n = grammar.Ty('n')
    boxes = [grammar.Box(f'b{i}', n, n).to_diagram() for i in range(4)]
    want = [z for x in s['xs'] for z in leaves(x)]
    ctx.nontrivial(len(want) > 1 and any(isinstance(x, list)
                                         for x in s['xs']))
    got = list(flatten(grow(x, boxes) for x in s['xs']))
    expect(len(got) == len(want)
           and all(g is boxes[i] for g, i in zip(got, want)),
           lambda: f'{s["xs"]} flattens to {got}')
