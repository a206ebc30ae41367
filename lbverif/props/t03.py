"""T03: the numerical backend in force follows the nesting of contexts."""
from hypothesis import strategies as st

from lambeq.backend import numerical_backend as nb
from lbverif.core import check, expect, prop

P = 'T03'
prop(P, ['one thread; TensorFlow is not installed'])

NAMES = ['numpy', 'jax', 'pytorch']


@st.composite
def programs(draw, depth=4):
    ops = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from(['with', 'with', 'get', 'set', 'raise',
                                  'bad', 'none']))
        if k in ('with', 'none'):
            ops.append([k, draw(st.sampled_from(NAMES)),
                        draw(programs(depth=depth - 1)) if depth else []])
        elif k == 'set':
            ops.append([k, draw(st.sampled_from(NAMES))])
        elif k == 'raise' and draw(st.booleans()):
            ops.append([k])
        else:
            ops.append(['bad' if k == 'bad' else 'get'])
    return ops


def case():
    return st.builds(lambda p: {'p': p}, programs())


class Boom(Exception):
    pass


MOD = {'numpy': 'numpy', 'jax': 'jax.numpy', 'pytorch': 'torch'}


@check(P, 'contexts', case, quick=600, shards=2,
       rule='a backend context inside another one')
def contexts(s, ctx):
    stack = ['numpy']
    seen = {'depth': 0}

    def now(what):
        b = nb.get_backend()
        expect(b.name == stack[-1] and b.module.__name__ == MOD[stack[-1]],
               lambda: f'{what}: the backend is {b.name}, expected '
               f'{stack[-1]}')
        x = b.array([1.5, 2.5])
        expect(type(x) is type(b.array([1.])) and float(b.sum(x)) == 4.0
               and {'numpy': 'numpy', 'jax': 'jaxlib', 'pytorch':
                    'torch'}[stack[-1]] in type(x).__module__,
               lambda: f'{what}: arrays are {type(x)}')

    def run(ops, depth):
        seen['depth'] = max(seen['depth'], depth)
        for op in ops:
            if op[0] in ('with', 'none'):
                name = op[1] if op[0] == 'with' else None
                stack.append(name or stack[-1])
                try:
                    with (nb.backend(name) if name else nb.backend()) as b:
                        expect(b.name == stack[-1], 'the context gives '
                               f'{b.name}, expected {stack[-1]}')
                        now('inside')
                        run(op[2], depth + 1)
                finally:
                    stack.pop()
                now('after a context')
            elif op[0] == 'set':
                nb.set_backend(op[1])
                stack[-1] = op[1]
                now('after set_backend')
            elif op[0] == 'raise':
                raise Boom
            elif op[0] == 'bad':
                try:
                    with nb.backend('nothing'):
                        expect(False, 'an unknown backend is accepted')
                except KeyError:
                    pass
                now('after an unknown backend')
            else:
                now('get')
    try:
        try:
            run(s['p'], 0)
        except Boom:
            pass
        now('at the end')
    finally:
        nb.set_backend('numpy')
    ctx.nontrivial(seen['depth'] > 1)
