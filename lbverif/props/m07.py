"""M07: loss functions are the textbook ones."""
import numpy as np
from hypothesis import strategies as st

from lambeq.training import (BinaryCrossEntropyLoss, CrossEntropyLoss,
                             MSELoss)
from lbverif.core import check, expect, prop
from lbverif.props.m01 import refused

P = 'M07'
prop(P, ['non-negative predictions; float32 under JAX'])


@st.composite
def case(draw):
    kind = draw(st.sampled_from(['ce', 'ce', 'bce', 'sparse', 'mse']))
    return {'kind': kind, 'n': draw(st.integers(1, 6)),
            'c': 2 if kind == 'bce' else draw(st.integers(2, 5)),
            'jax': draw(st.booleans()),
            'eps': draw(st.sampled_from([None, 1e-9, 1e-3, 0.1])),
            'scale': draw(st.sampled_from([1, 1, 3])),
            'extreme': draw(st.booleans()), 'soft': draw(st.booleans()),
            'shape': draw(st.sampled_from([[], [2], [2, 3]])),
            'f32': draw(st.booleans()),
            'seed': draw(st.integers(0, 10 ** 6))}


def arrays(s):
    rng = np.random.default_rng(s['seed'])
    n, c = s['n'], s['c']
    if s['kind'] == 'mse':
        shape = [n] + s['shape']
        return rng.normal(size=shape), rng.normal(size=shape)
    if s['kind'] == 'sparse':
        p = rng.random(n)
        t = rng.integers(0, 2, n).astype(float)
        if s['extreme']:
            p[0] = rng.integers(0, 2)
        return p, t
    p = rng.random((n, c)) + 0.01
    if s['extreme']:
        p[0] = np.eye(c)[rng.integers(c)]
    p *= s['scale'] / p.sum(1, keepdims=True)
    t = np.eye(c)[rng.integers(c, size=n)]
    if s['soft']:
        t = rng.random((n, c))
        t /= t.sum(1, keepdims=True)
    return p, t


def reference(s, p, t, eps):
    total = 0.0
    if s['kind'] == 'mse':
        return float(sum((a - b) ** 2 for a, b in zip(p.flat, t.flat))
                     / p.size)
    if s['kind'] == 'sparse':
        p = np.array([[1 - x, x] for x in p])
        t = np.array([[1 - x, x] for x in t])
    for x, y in zip(p, t):
        z = sum(float(v) + eps for v in x)
        for v, w in zip(x, y):
            total -= float(w) * np.log((float(v) + eps) / z)
    return total / len(p)


@check(P, 'values', case, quick=1500, shards=2,
       rule='>= 2 rows and a smoothing constant or an extreme prediction')
def values(s, ctx):
    p, t = arrays(s)
    ctx.label(s['kind'])
    ctx.nontrivial(s['n'] > 1 and (s['extreme'] or s['eps']))
    kw = {'use_jax': s['jax']}
    eps = 1e-9
    if s['kind'] != 'mse' and s['eps']:
        eps = kw['epsilon'] = s['eps']
    if s['kind'] == 'sparse':
        kw['sparse'] = True
    loss = {'ce': CrossEntropyLoss, 'bce': BinaryCrossEntropyLoss,
            'sparse': BinaryCrossEntropyLoss, 'mse': MSELoss}[s['kind']](**kw)
    P_, T_ = p.copy(), t.copy()
    if s['f32']:
        p, t = p.astype(np.float32), t.astype(np.float32)
    tol = 1e-3 if s['jax'] or s['f32'] else 1e-9
    if s['jax']:
        from jax import numpy as jnp
        p, t = jnp.array(p), jnp.array(t)
    want = reference(s, P_, T_, eps)
    single = (s['jax'] or s['f32'])
    if single and s['kind'] == 'sparse':
        # 1 - p is rounded
        P_ = np.asarray(p, np.float32).astype(float)
        want = reference(s, P_, T_, eps)

    def close(a, b):
        return abs(float(a) - float(b)) < tol * max(1, abs(float(b)))
    got = loss(p, t)
    expect(np.shape(got) == () and close(got, want),
           lambda: f'{s["kind"]} loss is {got}, expected {want}')
    expect(close(loss.calculate_loss(p, t), want), 'calculate_loss')
    # the order of the batch does not matter, and it is an average
    rng = np.random.default_rng(s['seed'])
    o = rng.permutation(s['n'])
    expect(close(loss(p[o], t[o]), want), 'the loss depends on the order')
    o = np.concatenate([o, o])
    expect(close(loss(p[o], t[o]), want), 'the loss is not an average')
    # the truth is optimal
    best = loss(t, t)
    expect(s['scale'] != 1 or eps > 1e-3
           or float(best) <= float(got) + 0.02 + tol * max(1, abs(want)),
           lambda: f'loss {got} below {best}, that of the true values')
    expect(np.allclose(np.asarray(p), P_, atol=1e-6)
           and np.allclose(np.asarray(t), T_, atol=1e-6),
           'the arrays were changed')
    refused(lambda: loss(p[1:] if s['n'] > 1 else p[:, None], t), ValueError,
            'shapes that differ are accepted')
