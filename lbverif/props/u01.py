"""U01: numerical backend in force, copies of objects, durations."""
import copy
from fractions import Fraction
import os
import pickle
import re
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import numerical_backend as NB
from lambeq.backend import tensor as TN
from lambeq.core import utils as U
from lbverif import gram as gr
from lbverif import qc, tens
from lbverif.core import check, expect, prop
from lbverif.props.c03 import deriv, mk
from lbverif.props.q07 import symbolise

P = 'U01'
prop(P, ['backends numpy, jax and pytorch (tensorflow is not installed)',
         'durations of at least 0 seconds'])

NAMES = ['numpy', 'jax', 'pytorch']


# ---- durations -----------------------------------------------------------

@st.composite
def secs(draw):
    unit = draw(st.sampled_from([1, 60, 3600, 86400]))
    k = draw(st.integers(0, 60))
    off = draw(st.one_of(
        st.floats(-1, 1), st.floats(-0.01, 0.01),
        st.sampled_from([0, 0.5, -0.5, 0.005, -0.005, -0.001, -0.3])))
    if draw(st.booleans()):
        return draw(st.one_of(st.integers(0, 10**6), st.floats(0, 10**6)))
    return max(0, unit * k + off)


@check(P, 'duration', lambda: st.lists(secs(), min_size=1, max_size=5),
       quick=3000, rule='a duration within a second of a full minute')
def duration(xs, ctx):
    expect(U.normalise_duration(None) == 'None', 'None')
    for x in xs:
        ctx.nontrivial(x > 30 and min(x % 60, 60 - x % 60) < 1)
        s = U.normalise_duration(x)
        m = re.fullmatch(r'(\d+)\.(\d\d)s', s)
        if m:
            v, unit = Fraction(int(m[1] + m[2]), 100), Fraction(1, 100)
            expect(v < 60, lambda: f'{x!r} s is written {s}')
        else:
            m = re.fullmatch(r'(?:(\d+)d)?(?:(\d+)h)?(?:(\d+)m)?(\d+)s', s)
            expect(m and any(m.groups()[:3]),
                   lambda: f'{x!r} s is written {s}')
            d, h, mi, se = (int(g or 0) for g in m.groups())
            expect(h < 24 and mi < 60 and se < 60
                   and '0' not in m.groups()[:3],
                   lambda: f'{x!r} s is written {s}')
            v, unit = Fraction(((d * 24 + h) * 60 + mi) * 60 + se), 1
            expect(v >= 60, lambda: f'{x!r} s is written {s}')
        expect(abs(v - Fraction(x)) <= Fraction(unit) / 2,
               lambda: f'{x!r} s is written {s}')


# ---- backend -------------------------------------------------------------

LEAF = st.one_of(
    st.sampled_from(NAMES).map(lambda n: ['set', n]),
    st.just(['look']), st.just(['look']), st.just(['bad']),
    st.just(['fail']))
PROG = st.recursive(
    st.lists(LEAF, max_size=4),
    lambda p: st.lists(st.one_of(
        LEAF, st.tuples(st.just('in'), st.sampled_from(NAMES + [None]),
                        p).map(list)), max_size=4), max_leaves=12)


class Stop(Exception):
    pass


BOX = TN.Box('A', TN.Dim(2), TN.Dim(2), data=[[1.0, 2.0], [3.0, 4.0]]).to_diagram()


def kind(a):
    m = type(a).__module__
    return 'pytorch' if m.startswith('torch') else \
        'jax' if m.startswith('jax') else 'numpy'


def look(want, b=None):
    g = NB.get_backend()
    expect(g.name == want and (b is None or b.name == want),
           lambda: f'the backend is {g.name}, expected {want}')
    expect(kind(g.array([1.0])) == want, lambda: f'arrays of {want}')
    r = (BOX >> BOX).eval()
    expect(kind(r) == want, lambda: f'evaluates to {type(r)} in {want}')
    expect(np.allclose(np.asarray(r), [[7, 10], [15, 22]]), 'value')
    with NB.backend() as c:
        expect(c.name == want, 'backend() is not the backend in force')


def play(prog, cur, deep, ctx):
    """Returns the default backend afterwards and whether it failed."""
    for c in prog:
        if c[0] == 'set':
            NB.set_backend(c[1])
            cur = c[1]
        elif c[0] == 'look':
            look(cur)
        elif c[0] == 'bad':
            try:
                with NB.backend('nothing'):
                    pass
            except KeyError:
                pass
            else:
                expect(False, 'unknown backend accepted')
            expect(NB.get_backend().name == cur, 'after an unknown backend')
        elif c[0] == 'fail':
            if deep:
                ctx.label('exception')
                raise Stop
        else:
            inner = c[1] or cur
            try:
                with NB.backend(c[1]) as b:
                    look(inner, b)
                    play(c[2], inner, deep + 1, ctx)
            except Stop:
                pass
            g = NB.get_backend().name
            expect(g == cur, lambda: f'the backend is {g} after the context, '
                                     f'expected {cur}')
    return cur


def depth(p):
    return 1 + max([depth(c[2]) for c in p if c[0] == 'in'], default=-1)


@check(P, 'backend', lambda: PROG, quick=700, shards=2,
       rule='nested contexts with different backends')
def back(prog, ctx):
    ctx.nontrivial(depth(prog) >= 2)
    NB.set_backend('numpy')
    try:
        look('numpy')
        look(play(prog, 'numpy', 0, ctx))
    finally:
        NB.set_backend('numpy')


# ---- copies --------------------------------------------------------------

@st.composite
def objs(draw):
    k = draw(st.sampled_from(['gram', 'gram', 'tens', 'qc', 'qc', 'qc',
                              'ccg']))
    if k == 'gram':
        d = draw(gr.diagrams(kinds=gr.ALL + ('frame',), minl=1))
    elif k == 'tens':
        d = draw(tens.diagrams(minl=1))
    elif k == 'qc':
        d = draw(qc.circuits(minl=1, maxl=6, kinds=qc.PURE + (
            'discard', 'measure', 'encode')))
    else:
        d = draw(deriv(depth=3))
    return {'k': k, 'd': d, 'sym': draw(st.booleans())}


def build(o):
    k, d = o['k'], o['d']
    if k == 'gram':
        return gr.mk_diag(d)
    if k == 'tens':
        if o['sym']:
            from lambeq.backend.symbol import Symbol
            return tens.mk_diag(d, data=lambda b: Symbol(
                b.get('n', 'x'), directed_dom=2, directed_cod=3, scale=2))
        return tens.mk_diag(d)
    if k == 'qc':
        if o['sym']:
            return symbolise([d])[0][0]
        return qc.mk_diag(d)
    return mk(d)


def view(o, D):
    """What is observed of an object, as text."""
    if o['k'] == 'ccg':
        return repr([D.to_json(), D.deriv()])
    r = [repr(D), str(D.dom), str(D.cod), [
        [repr(b), getattr(b, 'z', None), str(getattr(b, 'name', None)),
         str(b.dom), str(b.cod), repr(getattr(b, 'data', None)),
         repr(getattr(b, 'controlled', None)),
         getattr(b, 'distance', None), type(b).__name__]
        for b in D.boxes], [len(l.left) for l in D.layers]]
    if o['k'] == 'gram':
        r.append(gr.p_diag(D))
    if getattr(D, 'free_symbols', None) is not None:
        r.append(sorted(repr((s.name, s.directed_dom, s.directed_cod,
                              s.scale)) for s in D.free_symbols))
    return repr(r)


@check(P, 'copies', objs, quick=1500, shards=2, rule='>= 2 boxes')
def copies(o, ctx):
    D = build(o)
    ctx.label(o['k'] + (' symbols' if o['sym'] and o['k'] in ('qc', 'tens')
                        else ''))
    ctx.nontrivial(o['k'] == 'ccg' or len(D.boxes) > 1)
    before = view(o, D)
    ds = [D]
    for name, f in (('deepcopy', copy.deepcopy), ('copy', copy.copy),
                    ('pickle', lambda x: pickle.loads(pickle.dumps(x))),
                    ('fast_deepcopy', U.fast_deepcopy)):
        C = f(D)
        got = view(o, C)
        expect(got == before, lambda: f'{name} of {before} is {got}')
        expect(C == D and not C != D, lambda: f'{name} of {D!r} is unequal')
        if o['k'] != 'ccg':
            expect(hash(C) == hash(D), lambda: f'{name}: hash')
            ds.append(C >> type(D).id(C.cod) if o['k'] != 'qc'
                      else C.dagger().dagger() if not any(
                          type(b).__name__ in 'Discard Measure Encode'
                          for b in C.boxes) else C)
    expect(view(o, D) == before, 'copying changes the object')
    for C in ds:
        expect(view(o, C) == before, 'composition of the copy')


SUB = '''
import sys, pickle
sys.path[:0] = %r
from lbverif.props import u01
from lbverif import deps
specs, data = pickle.load(sys.stdin.buffer)
out = []
for o, p in zip(specs, data):
    try:
        D, E = pickle.loads(p), u01.build(o)
        out.append([u01.view(o, D) == u01.view(o, E), D == E,
                    o['k'] == 'ccg' or hash(D) == hash(E), D in [E],
                    o['k'] == 'ccg' or len({D, E}) == 1,
                    pickle.dumps(D)])
    except Exception as e:
        out.append(repr(e))
sys.stdout.buffer.write(pickle.dumps(out))
'''


@check(P, 'process', lambda: st.lists(objs(), min_size=20, max_size=40),
       quick=6, shards=3, thorough=40, rule='always')
def process(os_, ctx):
    """Objects unpickled in another process equal those built there."""
    ctx.nontrivial(True)
    Ds = [build(o) for o in os_]
    data = [pickle.dumps(D) for D in Ds]
    env = dict(os.environ, PYTHONHASHSEED=str(len(data[0]) % 1000 + 1))
    r = subprocess.run(
        [sys.executable, '-c', SUB % (sys.path,)],
        input=pickle.dumps((os_, data)), capture_output=True, env=env,
        timeout=100)
    if r.returncode:
        raise RuntimeError(r.stderr.decode()[-2000:])
    res = pickle.loads(r.stdout)
    for o, D, x in zip(os_, Ds, res):
        expect(not isinstance(x, str), lambda: f'{D!r} in another process: '
                                               f'{x}')
        expect(all(x[:5]), lambda: f'{D!r} unpickled in another process '
                                   f'differs: {x[:5]}')
        B = pickle.loads(x[5])
        expect(B == D and view(o, B) == view(o, D)
               and (o['k'] == 'ccg' or hash(B) == hash(D)),
               lambda: f'{D!r} comes back from another process as {B!r}')
