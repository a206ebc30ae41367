"""M01: NumpyModel predicts the normalised outcome distribution."""
import copy

import numpy as np
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.training import NumpyModel
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import Skip, check, expect, prop

P = 'M01'
prop(P, ['circuits without inputs; pure ones leave qubits open, mixed ones '
         'only bits, so that the prediction is a distribution',
         'a circuit of total weight between 0 and 1e-6 is not judged: the '
         'model leaves it unnormalised on purpose'])

NAMES = ['a', 'b', 'c__n_0', 'a_10', 'a_2']
ROT = ('Rx', 'Ry', 'Rz') * 4 + ('H', 'X', 'Y', 'Z', 'S', 'T')
PURE = ('gate',) * 4 + ('ctrl',) * 4 + ('ket', 'bra', 'swap', 'swap', 'u',
                                        'scalar', 'sqrt')
SCALES = [1, 1, -1, 2, 0.5]


def rotations(d):
    """The rotations of a circuit spec, outermost first."""
    out = []

    def visit(b):
        if b['k'] == 'ctrl':
            visit(b['of'])
        elif b['k'] == 'gate' and b['g'] not in qc.FIXED:
            out.append(b)
    for _, b in d['layers']:
        visit(b)
    return out


@st.composite
def closed(draw, width, kinds=PURE, mixed=None, rot=True, dag=True,
           gates=ROT, **kw):
    """A circuit without inputs and with `width` outputs."""
    mixed = draw(st.sampled_from([False, False, True])) \
        if mixed is None else mixed
    n = draw(st.integers(max(width, 1), 4))
    d = draw(qc.circuits(
        kinds=kinds + (('discard', 'measure', 'encode', 'bit')
                       if mixed else ()),
        minl=draw(st.integers(2, 6)), maxl=9, maxw=5, dom='q' * n,
        rot=rot, dag=dag, gates=gates, **kw))
    kets = [[i, {'k': 'ket', 'v': draw(st.integers(0, 1))}]
            for i in range(n)]
    kets += [[i, {'k': 'gate', 'g': 'H'}] for i in range(n)
             if draw(st.integers(0, 2))]
    w = qc.diag_cod(d)
    end = []
    while mixed and 'q' in w:
        i = w.index('q')
        b = {'k': draw(st.sampled_from(['measure', 'measure', 'discard']))}
        end.append([i, b])
        w = w[:i] + qc.box_io(b)[1] + w[i + 1:]
    if mixed and len(w) > width:
        # bits cannot be thrown away: encode and discard
        for i in range(len(w) - width):
            end += [[0, {'k': 'encode'}], [0, {'k': 'discard'}]]
        w = w[len(w) - width:]
    while len(w) > width:
        i = draw(st.integers(0, len(w) - 1))
        end.append([i, {'k': 'bra', 'v': draw(st.integers(0, 1))}])
        w = w[:i] + w[i + 1:]
    while len(w) < width:
        i = draw(st.integers(0, len(w)))
        b = {'k': 'bit' if mixed else 'ket', 'v': draw(st.integers(0, 1))}
        end.append([i, b])
        w = w[:i] + qc.box_io(b)[1] + w[i:]
    return {'dom': '', 'layers': kets + d['layers'] + end}


@st.composite
def near(draw, d):
    """A circuit that differs from d in one small respect."""
    d = copy.deepcopy(d)
    spots = []

    def visit(b):
        if b['k'] == 'ctrl':
            spots.append(('d', b))
            visit(b['of'])
        elif b['k'] == 'gate':
            spots.append(('z', b))
            spots.append(('dag', b))
            if b['g'] not in qc.FIXED:
                spots.extend([('g', b), ('sym', b)])
        elif b['k'] in ('ket', 'bra', 'bit'):
            spots.append(('v', b))
        elif b['k'] == 'scalar':
            spots.append(('re', b))
    for _, b in d['layers']:
        visit(b)
    what = sorted({k for k, _ in spots})
    what += [k for k in what if k in 'd'] * len(what)
    if not what:
        return d
    kind = draw(st.sampled_from(what))
    b = draw(st.sampled_from([b for k, b in spots if k == kind]))
    if kind == 'd':
        b['d'] = -b['d']
    elif kind == 'z':
        b['z'] = b.get('z', 0) + 1 if b['g'] != 'Y' else b.get('z', 0)
    elif kind == 'dag':
        b['dag'] = not b.get('dag')
    elif kind == 'g':
        b['g'] = draw(st.sampled_from([g for g in qc.PAULI
                                       if g != b['g']]))
    elif kind == 'sym':
        b['near'] = True
    elif kind == 'v':
        b['v'] = 1 - b['v']
    else:
        b['re'] = b['re'] + 1
    return d


@st.composite
def batch(draw, one, k=3, names=NAMES, nears=0):
    """A list of circuits with symbols and values for the symbols."""
    width = draw(st.integers(0, 2))
    ds = [draw(one(width))]
    for _ in range(draw(st.integers(1 if draw(st.integers(0, 5)) else 0, k - 1))):
        ds.append(draw(near(ds[0])) if nears or draw(st.booleans())
                  else draw(one(width)))
    n = max([len(rotations(d)) for d in ds] + [1])
    return {'ds': ds, 'width': width,
            'names': draw(st.lists(st.sampled_from(names), min_size=n,
                                   max_size=n)),
            'scales': draw(st.lists(st.sampled_from(SCALES), min_size=n,
                                    max_size=n)),
            'conc': draw(st.lists(st.sampled_from([0, 0, 0, 1]), min_size=n,
                                  max_size=n)),
            'vals': draw(st.lists(st.floats(-1, 1).map(
                lambda x: round(x, 3)), min_size=len(names),
                max_size=len(names))),
            'share': draw(st.booleans()),
            'seed': draw(st.integers(0, 999))}


def prepare(s, names=NAMES, vals=None):
    """[(numeric spec, lambeq circuit)], {symbol name: value in use}"""
    val = dict(zip(names, vals or s['vals']))
    used = set()
    out = []
    memo = {} if s.get('share') else None
    for d in s['ds']:
        d = copy.deepcopy(d)
        for i, b in enumerate(rotations(d)):
            b['name'], b['scale'] = s['names'][i], s['scales'][i]
            if b.get('near'):
                b['scale'] = -b['scale']
            if s['conc'][i]:
                b['name'] = None
            else:
                b['p'] = val[b['name']] * b['scale']
                used.add(b['name'])
        out.append((d, qc.mk_diag(d, phase, memo)))
    return out, {k: v for k, v in val.items() if k in used}


def phase(b):
    return b['p'] if b['name'] is None else b['scale'] * Symbol(b['name'])


def distribution(d):
    """(normalised distribution or None if it cannot be judged)"""
    t = np.abs(qc.mixed_eval(d)) if qc.is_mixed(d) \
        else np.abs(qc.pure_eval(d)) ** 2
    if not t.ndim:
        return t
    n = t.sum()
    if 1e-13 < n < 1e-6:
        return None
    return t / n if n > 1e-13 else t * 0


def refused(f, exc, what):
    try:
        f()
    except exc:
        return
    expect(False, what)


@st.composite
def case(draw):
    return draw(batch(lambda w: closed(w)))


@check(P, 'outputs', case, quick=500, shards=4,
       rule='>= 2 circuits and >= 2 symbols, one of them scaled')
def outputs(s, ctx, cls=NumpyModel, tol=1e-7, kw={}):
    cs, val = prepare(s)
    wants = [distribution(d) for d, _ in cs]
    Ds = [D for _, D in cs]
    if any(w is None for w in wants):
        raise Skip
    for d, _ in cs:
        ctx.label('mixed' if qc.is_mixed(d) else 'pure')
    ctx.nontrivial(len(Ds) > 1 and len(val) > 1)
    before = [repr(D) for D in Ds]
    m = cls.from_diagrams(Ds, **kw)
    expect(list(m.symbols) == [Symbol(k) for k in sorted(val)],
           lambda: f'symbols are {m.symbols}, expected {sorted(val)}')
    if not val:
        refused(m.initialise_weights, ValueError,
                'weights without symbols are initialised')
        refused(lambda: m(Ds), ValueError,
                'a model without symbols gives predictions')
        return
    refused(lambda: m(Ds), ValueError,
            'a model without weights gives predictions')
    m.initialise_weights()
    w = np.asarray(m.weights)
    expect(w.shape == (len(val),) and (w >= 0).all() and (w < 1).all(),
           'initial weights are not in [0, 1)')
    m.weights = np.array([val[k] for k in sorted(val)])
    got = np.asarray(m(Ds))
    expect(got.shape == (len(Ds),) + (2,) * s['width'],
           lambda: f'shape {got.shape}')
    for i, w in enumerate(wants):
        expect(gr.same(got[i], w, tol),
               lambda: f'{Ds[i]!r} at {val} predicts\n{got[i]}\nnot\n{w}')
    # a batch is its items, in any order, again and again
    rng = np.random.default_rng(s['seed'])
    order = [int(i) for i in rng.permutation(len(Ds))] + [0]
    again = np.asarray(m.get_diagram_output([Ds[i] for i in order]))
    expect(gr.same(again, got[order], tol), 'another order of the batch '
           'gives other predictions')
    # other weights
    vals = [round(v * 0.5 + 0.3, 3) for v in s['vals']]
    cs2, val2 = prepare(s, vals=vals)
    wants2 = [distribution(d) for d, _ in cs2]
    if s['seed'] % 2:
        m.weights = np.array([val2[k] for k in sorted(val2)])
    else:
        m.weights[:] = [val2[k] for k in sorted(val2)]
    got = np.asarray(m(Ds))
    for i, w in enumerate(wants2):
        if w is not None:
            expect(gr.same(got[i], w, tol),
                   lambda: f'{Ds[i]!r} at {val2} (second weights) predicts'
                   f'\n{got[i]}\nnot\n{w}')
    expect([repr(D) for D in Ds] == before, 'a circuit was changed')
    # a circuit the model was not built from is fine, unknown symbols not
    some = Symbol('zz')
    from lambeq.backend.quantum import Ket, Rx
    U = Ket(0) >> Rx(some)
    if s['width'] == 1:
        refused(lambda: m([U]), KeyError, 'an unknown symbol is accepted')


@st.composite
def jit_case(draw):
    return draw(batch(lambda w: closed(w), k=2, nears=1))


@check(P, 'jit', jit_case, quick=160, shards=6, hang=300,
       rule='>= 2 circuits and >= 2 symbols')
def jit(s, ctx):
    cs, _ = prepare(s)
    for d, _ in cs:         # single precision: stay clear of tiny norms
        t = np.abs(qc.mixed_eval(d)) if qc.is_mixed(d) \
            else np.abs(qc.pure_eval(d)) ** 2
        if 1e-13 < t.sum() < 1e-2:
            raise Skip
    outputs(s, ctx, tol=2e-4, kw={'use_jit': True})
