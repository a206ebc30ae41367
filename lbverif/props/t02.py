"""T02: symbols, free symbols and lambdify."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.backend.symbol import lambdify
from lbverif import gram as gr
from lbverif import tens
from lbverif.core import check, expect, prop

P = 'T02'
prop(P, ['the values given for a symbol are flat arrays of the size the '
         'symbol announces'])

SCALES = [1, 1.0, -1, 2, 0.5, -0.25, 3, 0]


@st.composite
def lam_case(draw):
    d = draw(tens.diagrams(minl=1, maxl=6, names=('f', 'g', 'h', 'k')))
    n = len(d['layers'])
    return {'d': d,
            'scales': draw(st.lists(st.sampled_from(SCALES), min_size=n,
                                    max_size=n)),
            'concrete': draw(st.lists(st.booleans(), min_size=n,
                                      max_size=n)),
            'order': draw(st.integers(0, 1000)),
            'keep': draw(st.integers(0, 1000)),
            'extra': draw(st.booleans())}


def sym_of(b):
    dom, cod = tens.base_sig(b)
    p = [int(np.prod(x, dtype=int)) for x in (dom, cod)]
    return Symbol(f'{b["n"]}{dom}{cod}', *p)


@check(P, 'lambdify', lam_case, quick=700, shards=3,
       rule='>= 2 distinct symbols, one of them scaled')
def lambdify_(s, ctx):
    d = s['d']
    idx = {id(b): i for i, (_, b) in enumerate(d['layers'])}

    def is_conc(b):
        return s['concrete'][idx[id(b)]] and b['n'] == 'k'

    def data(b):
        if is_conc(b):
            return tens.base_data(b)
        return sym_of(b) * s['scales'][idx[id(b)]]

    def value(b):
        if is_conc(b):
            return tens.base_data(b)
        return tens.base_data(b) * s['scales'][idx[id(b)]]
    boxes = [b for _, b in d['layers'] if b['k'] == 'box'
             and not is_conc(b)]
    syms = sorted({sym_of(b).name: sym_of(b) for b in boxes}.values(),
                  key=lambda x: x.name)
    vals = {sym_of(b).name: tens.base_data(b).reshape(-1) for b in boxes}
    ctx.nontrivial(len(syms) > 1 and any(
        s['scales'][idx[id(b)]] != 1 for b in boxes))
    D = tens.mk_diag(d, data=data)
    before = repr(D)
    expect(D.free_symbols == set(syms),
           lambda: f'free symbols are {D.free_symbols}, expected {syms}')
    expect(all(x.scale == 1 and x.size == len(vals[x.name])
               for x in D.free_symbols), 'scale or size of the symbols')
    want = tens.ref_eval(d, data=value)
    # any order, and symbols the diagram does not have
    rng = np.random.default_rng(s['order'])
    order = list(syms)
    if s['extra']:
        order.append(Symbol('zz', 2, 3))
    rng.shuffle(order)
    L = D.lambdify(*order)
    C = L(*[vals.get(x.name, np.zeros(6)) for x in order])
    expect(gr.same(C.eval(dtype=np.complex128), want, 1e-8),
           lambda: f'{D!r} with values evaluates to '
           f'{C.eval(dtype=np.complex128)}, expected {want}')
    expect(not C.free_symbols, 'symbols are left')
    expect(C.dom == D.dom and C.cod == D.cod, 'dimensions')
    # the function can be called again with other values
    C2 = L(*[2 * vals.get(x.name, np.zeros(6)) for x in order])
    k = 2.0 ** len(boxes)
    expect(gr.same(C2.eval(dtype=np.complex128), want * k, 1e-8),
           'second call')
    expect(gr.same(C.eval(dtype=np.complex128), want, 1e-8),
           'the first result changed with the second call')
    expect(repr(D) == before and D.free_symbols == set(syms),
           'the symbolic diagram was changed')
    # in two steps
    part = [x for i, x in enumerate(syms) if s['keep'] >> i & 1]
    rest = [x for x in syms if x not in part]
    H = D.lambdify(*part)(*[vals[x.name] for x in part])
    expect(H.free_symbols == set(rest),
           lambda: f'after giving {part}, {H.free_symbols} are free, '
           f'expected {rest}')
    C = H.lambdify(*rest)(*[vals[x.name] for x in rest])
    expect(gr.same(C.eval(dtype=np.complex128), want, 1e-8), 'two steps')


@st.composite
def sym_case(draw):
    ops = st.tuples(st.sampled_from(['mul', 'rmul', 'neg', 'unscaled']),
                    st.sampled_from(SCALES)).map(list)
    sym = st.tuples(st.sampled_from(['a', 'b', 'a__n.r@s_0', '']),
                    st.integers(1, 3), st.integers(1, 3)).map(list)
    return {'syms': draw(st.lists(sym, min_size=2, max_size=2)),
            'ops': draw(st.lists(st.lists(ops, max_size=4), min_size=2,
                                 max_size=2)),
            'x': draw(st.floats(-3, 3))}


@check(P, 'symbol', sym_case, quick=600, shards=1,
       rule='a symbol with >= 2 operations')
def symbol(s, ctx):
    out = []
    ctx.nontrivial(max(map(len, s['ops'])) > 1)
    for (n, a, b), ops in zip(s['syms'], s['ops']):
        x, k = Symbol(n, a, b), 1.0
        for op, v in ops:
            y = {'mul': lambda: x * v, 'rmul': lambda: v * x,
                 'neg': lambda: -x, 'unscaled': lambda: x.unscaled}[op]()
            k = {'mul': k * v, 'rmul': k * v, 'neg': -k,
                 'unscaled': 1.0}[op]
            x = y
        expect((x.name, x.directed_dom, x.directed_cod) == (n, a, b)
               and x.size == a * b, 'name or size lost')
        expect(abs(x.scale - k) < 1e-12, lambda: f'scale {x.scale}, not {k}')
        expect(x.unscaled == Symbol(n, a, b), 'unscaled')
        got = lambdify([Symbol('q'), Symbol(n, a, b)], x)(7.0, s['x'])
        expect(abs(got - k * s['x']) < 1e-9,
               lambda: f'{x!r} at {s["x"]} is {got}')
        if n:
            import sympy
            e = x.to_sympy()
            got = float(e.subs(sympy.Symbol(n), s['x']))
            expect(abs(got - k * s['x']) < 1e-9, 'sympy value')
        out.append((x, k, n, a, b))
    (x, *kx), (y, *ky) = out
    expect((x == y) == (kx == ky), 'equality')
    if x == y:
        expect(hash(x) == hash(y), 'hash')
    expect((x < y) == ((kx[1], kx[0]) < (ky[1], ky[0])), 'order')
