"""M04: a saved model and the model loaded from it are the same."""
import os
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from lambeq.backend import quantum as Q, tensor
from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Dim
from lambeq.training import (Checkpoint, NumpyModel, PennyLaneModel,
                             PytorchModel, PytorchQuantumModel, TketModel)
from lambeq.training.tn_path_optimizer import CachedTnPathOptimizer
from lbverif import qc
from lbverif.core import Skip, check, expect, prop
from lbverif.props import m01, m02, m03
from lbverif.props.m01 import refused
from lbverif.props.q05 import quiet
from lbverif.props.q07 import Exact

P = 'M04'
prop(P, ['the file system of a scratch directory; Exact stand-in backend for '
         'TketModel; default.qubit for PennyLaneModel'])

KINDS = ['numpy', 'jit', 'tket', 'quantum', 'tensor', 'pennylane',
         'pennylane']


class Tket(TketModel):
    """Predicts from exact counts of the outcomes."""


def array(w):
    if isinstance(w, torch.Tensor):
        return w.detach().resolve_conj().numpy()
    if isinstance(w, (list, torch.nn.ParameterList)):
        return [array(x) for x in w]
    return np.asarray(w)


def same(a, b):
    a, b = array(a), array(b)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def near(a, b):
    a, b = array(a), array(b)
    return a.shape == b.shape and np.allclose(a, b, atol=1e-5, rtol=1e-5)


@st.composite
def light(draw, width):
    """A circuit for PennyLane that is unlikely to vanish."""
    n = draw(st.integers(width, width + 1))

    def turns():
        return [[i, {'k': 'gate', 'g': draw(st.sampled_from(['Rx', 'Ry'])),
                     'p': draw(qc.PHASES)}] for i in range(n)]
    d = draw(qc.circuits(kinds=('gate', 'gate', 'ctrl', 'swap'), minl=2,
                         maxl=6, dom='q' * n, ctrl_depth=1, gates=m01.ROT))
    return m03.fit({'dom': '', 'layers': [
        [i, {'k': 'ket', 'v': draw(st.integers(0, 1))}] for i in range(n)]
        + turns() + d['layers'] + turns()
        + [[i, {'k': draw(st.sampled_from(['bra', 'bra', 'discard'])),
                'v': 0}] for i in range(n)[width:]]})


@st.composite
def case(draw):
    kind = draw(st.sampled_from(KINDS))
    if kind == 'tensor':
        s = draw(m02.tensor_batch())
        o = draw(m02.tensor_batch(k=1))
    else:
        one = m01.closed
        kw = {}
        if kind == 'tket':
            def one(w):
                return m01.closed(w, mixed=False, kinds=('gate',) * 4 + (
                    'ket', 'bra', 'swap'), dag=False)
        if kind == 'pennylane':
            def one(w):
                return light(max(w, 1))
        s = draw(m01.batch(one, **kw))
        o = draw(m01.batch(one, k=2))
    return {'kind': kind, 's': s, 'o': o,
            'alg': draw(st.sampled_from(['greedy', 'cached-greedy', 'kept'])),
            'alg2': draw(st.sampled_from(['cached-greedy', 'kept'])),
            'probs': draw(st.booleans()), 'norm': draw(st.booleans()),
            'used': draw(st.booleans()), 'used2': draw(st.booleans()),
            'shots': draw(st.sampled_from([64, 1000])),
            'both': draw(st.booleans()), 'more': draw(st.booleans()),
            'again': draw(st.booleans()), 'rebuild': draw(st.booleans())}


def optimiser(name):
    if name == 'kept':
        return CachedTnPathOptimizer('greedy', save_checkpoints=True)
    return m02.optimiser(name)


def extra(kind, n):
    """A circuit with a symbol of its own."""
    if kind == 'tensor':
        return tensor.Box('A', Dim(1), Dim(2), Symbol(n, 1, 2))
    return Q.Ket(0) >> Q.Rx(Symbol(n)) >> Q.Bra(0)


def make(kind, s, c, alg, more=''):
    """(a model with weights, its diagrams, how to build an empty one)"""
    if kind == 'tensor':
        Ds, syms, _ = m02.build(s)
        kw = {'tn_path_optimizer': optimiser(alg)}
        cls = PytorchModel
        if more:
            syms = sorted(syms + [Symbol(n, 1, 2) for n in more])
        vals = [torch.tensor(m02.values(x)) for x in syms]
    else:
        cs, val = m01.prepare(s)
        Ds = [D for _, D in cs]
        val.update((n, 0.3) for n in more)
        vals = [val[k] for k in sorted(val)]
        kw = {}
        if kind == 'quantum':
            cls = PytorchQuantumModel
            kw = {'tn_path_optimizer': optimiser(alg)}
        elif kind == 'pennylane':
            cls = PennyLaneModel
            kw = {'probabilities': c['probs'], 'normalize': c['norm']}
        elif kind == 'tket':
            cls = TketModel
            kw = {'backend_config': {'backend': Exact(), 'compilation': None,
                                     'shots': c['shots']}}
        else:
            cls = NumpyModel
            kw = {'use_jit': kind == 'jit'}
    Ds = Ds + [extra(kind, n) for n in more]
    m = quiet(cls.from_diagrams, Ds, **kw)
    if not m.symbols:
        raise Skip
    m.initialise_weights()
    if kind in ('numpy', 'jit', 'tket'):
        m.weights = np.array(vals)
    elif kind == 'quantum':
        m.weights = torch.nn.Parameter(torch.tensor(vals))
    elif kind == 'tensor':
        m.weights = torch.nn.ParameterList(vals)
    else:
        with torch.no_grad():
            for w, v in zip(m.weights, vals):
                w.copy_(torch.tensor(v))

    def empty(of=cls):
        if kind in ('tensor', 'quantum'):
            return {'tn_path_optimizer': optimiser(c['alg2'])}
        return kw if kind in ('tket', 'numpy', 'jit') else {}
    return m, Ds, cls, empty


def healthy(kind, s):
    """Predictions do not hinge on the rounding of tiny norms."""
    if kind == 'tensor':
        _, syms, ref = m02.build(s)
        vals = {x.name: m02.values(x).astype(float) for x in syms}
        return max(np.abs(ref(d, vals)).max(initial=0)
                   for d in s['ds']) < 1e4
    for d, _ in m01.prepare(s)[0]:
        t = np.abs(qc.mixed_eval(d)) if qc.is_mixed(d) \
            else np.abs(qc.pure_eval(d)) ** 2
        if t.sum() < 1e-2 and (kind == 'pennylane' or t.sum() > 1e-13):
            return False
    return True


def predictions(m, Ds):
    """One by one: the diagrams need not agree in shape."""
    return [array(m([D])) for D in Ds]


@check(P, 'models', case, quick=260, shards=4, hang=300,
       rule='>= 2 symbols, and loaded over a model with other symbols')
def models(c, ctx):
    kind = c['kind']
    if not (healthy(kind, c['s']) and healthy(kind, c['o'])):
        raise Skip
    m, Ds, cls, empty = make(kind, c['s'], c, c['alg'],
                             'z' if c['more'] else '')
    other, Os, _, _ = make(
        kind, c['s'] if c['both'] else c['o'],
        dict(c, probs=not c['probs'], norm=not c['norm']), c['alg2'],
        'A' if c['both'] else '')
    ctx.label(kind)
    ctx.nontrivial(len(m.symbols) > 1 and list(m.symbols)
                   != list(other.symbols))
    tmp = tempfile.mkdtemp(prefix='lbverif')
    try:
        save_load(c, ctx, m, Ds, cls, empty, other, Os, tmp)
    finally:
        shutil.rmtree(tmp)


def save_load(c, ctx, m, Ds, cls, empty, other, Os, tmp):
    kind = c['kind']
    path = os.path.join(tmp, 'model.lt')
    if c['used2'] or kind == 'jit':
        predictions(m, Ds)
    want = predictions(m, Ds) if c['used2'] else None
    syms = list(m.symbols)
    weights = [np.array(x) for x in array(m.weights)]
    m.save(path)
    if c['again']:      # over a previous file
        other.save(path)
        m.save(path)
    expect(os.listdir(tmp) == ['model.lt'], 'saving writes other files')
    expect(list(m.symbols) == syms and same(list(array(m.weights)), weights),
           'saving changes the symbols or the weights')
    got = predictions(m, Ds)
    want = want or got
    expect(all(map(near, got, want)), 'saving changes the predictions')

    def judge(x, how):
        expect(list(x.symbols) == syms,
               lambda: f'{kind}: {how} has symbols {x.symbols}, not {syms}')
        expect([s.size for s in x.symbols] == [s.size for s in syms],
               f'{kind}: {how}: sizes of the symbols')
        expect(same(list(array(x.weights)), weights),
               lambda: f'{kind}: {how} has weights {x.weights}, not '
               f'{weights}')
        Es = Ds
        if c['rebuild']:    # the diagrams of another session
            Es = m02.build(c['s'])[0] if kind == 'tensor' else [
                D for _, D in m01.prepare(c['s'])[0]]
            Es = Es + Ds[len(Es):]
        got = predictions(x, Es)
        for D, g, w in zip(Es, got, want):
            expect(near(g, w), lambda: f'{kind}: {how} predicts\n{g}\nfor '
                   f'{D!r}, the saved model\n{w}')
        if isinstance(x, torch.nn.Module):
            ps, qs = list(m.parameters()), list(x.parameters())
            expect(same(ps, qs) and [p.requires_grad for p in ps]
                   == [p.requires_grad for p in qs],
                   f'{kind}: {how}: parameters')
    x = quiet(cls.from_checkpoint, path, **empty())
    expect(type(x) is cls, 'type of the loaded model')
    judge(x, 'a model from the checkpoint')
    # over a model that is (or is not) in use
    if c['used']:
        predictions(other, Os)
        ctx.label('loaded over a used model')
    quiet(other.load, path)
    judge(other, 'a model that loads the checkpoint')
    # the copies are independent
    x.initialise_weights()
    expect(same(list(array(m.weights)), weights)
           and same(list(array(other.weights)), weights),
           'initialising the weights of one copy changes another')
    got = predictions(m, Ds)
    expect(all(map(near, got, want)),
           f'{kind}: the saved model changed')
    # and can be saved in turn
    again = os.path.join(tmp, 'again.lt')
    other.save(again)
    judge(quiet(cls.from_checkpoint, again, **empty()),
          'a model saved, loaded, saved and loaded')
    # missing files and folders
    nope = os.path.join(tmp, 'nope', 'model.lt')
    for f in (lambda: m.save(nope), lambda: m.load(nope),
              lambda: cls.from_checkpoint(nope, **empty())):
        try:
            f()
        except FileNotFoundError as e:
            expect(nope in str(e), lambda: f'the message does not name the '
                   f'path: {e}')
        else:
            expect(False, 'a missing folder goes unnoticed')
    expect(same(list(array(m.weights)), weights)
           and list(m.symbols) == syms, 'a failed load changes the model')


VALUE = st.recursive(
    st.integers(-3, 3) | st.sampled_from(['a', '', None, True]) | st.floats(
        allow_nan=False, width=32),
    lambda v: st.lists(v, max_size=3), max_leaves=4)
OPS = st.one_of(
    st.tuples(st.just('set'), st.sampled_from('abcd'), VALUE),
    st.tuples(st.just('many'), st.dictionaries(
        st.sampled_from('abcd'), VALUE, max_size=3), st.booleans()),
    st.tuples(st.just('file'), st.sampled_from('xy'), st.none()),
    st.tuples(st.just('load'), st.sampled_from('xyz'), st.none()),
    st.tuples(st.just('bad'), st.sampled_from(['n/x', 'n/y']), st.none()),
).map(list)


@st.composite
def history(draw):
    return {'ops': draw(st.lists(OPS, min_size=2, max_size=12))}


@check(P, 'history', history, quick=1500, shards=1,
       rule='a file is loaded after it was written twice or more entries '
       'were set')
def checkpoints(s, ctx):
    """A checkpoint is a mapping that moves to and from files."""
    tmp = tempfile.mkdtemp(prefix='lbverif')
    try:
        run_history(s['ops'], ctx, tmp)
    finally:
        shutil.rmtree(tmp)


def run_history(ops, ctx, tmp):
    c, model, files = Checkpoint(), {}, {}
    writes = 0
    for op, a, b in ops:
        if op == 'set':
            c[a] = b
            model[a] = b
        elif op == 'many':
            if b:
                d = Checkpoint()
                d.add_many(a)
                c.add_many(d)
                expect(dict(d) == a, 'add_many changes its argument')
            else:
                c.add_many(a)
            model.update(a)
        elif op == 'file':
            c.to_file(os.path.join(tmp, a))
            files[a], model = model, {}
            writes += 1
        elif op == 'bad':
            refused(lambda: c.to_file(os.path.join(tmp, a)),
                    FileNotFoundError, 'a missing folder goes unnoticed')
        elif a in files:
            ctx.nontrivial(writes > 1)
            c = Checkpoint.from_file(os.path.join(tmp, a))
            model = dict(files[a])
        else:
            refused(lambda: Checkpoint.from_file(os.path.join(tmp, a)),
                    FileNotFoundError, 'a missing file goes unnoticed')
        expect(len(c) == len(model) and list(c) == list(model)
               and dict(c) == model and list(c.items())
               == list(model.items()),
               lambda: f'after {op} {a}: {dict(c)}, expected {model}')
        for k in 'abcd':
            expect((k in c) == (k in model), 'membership')
            if k in model:
                expect(c[k] == model[k] and c.get(k) == model[k], 'entry')
            else:
                refused(lambda: c[k], KeyError, 'an absent key has a value')
        expect(sorted(os.listdir(tmp)) == sorted(files), 'files')
