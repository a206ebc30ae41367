"""M09: path optimisers change how networks are contracted, never the
result, and reuse the paths they know."""
import os
import shutil
import tempfile
from pathlib import Path

import numpy as np
import opt_einsum as oe
import tensornetwork as tn
from hypothesis import strategies as st

from lambeq.backend.symbol import Symbol
from lambeq.backend.tensor import Box, Dim
from lambeq.training import Checkpoint, PytorchModel
from lambeq.training.tn_path_optimizer import (CachedTnPathOptimizer,
                                               TnPathOptimizer,
                                               ordered_nodes_contractor)
from lbverif.core import check, expect, prop
from lbverif.props.m01 import refused

P = 'M09'
prop(P, ['NumPy einsum is the reference; the file system of a scratch '
         'directory'])

ALGORITHMS = ['greedy', 'auto', 'auto-hq', 'optimal', 'branch-2', 'dp',
              'random-greedy', 'eager']


@st.composite
def network(draw):
    n = draw(st.integers(1, 5))
    return {'n': n, 'edges': [
        [draw(st.integers(0, n - 1)), draw(st.integers(-1, n - 1)),
         draw(st.sampled_from([1, 2, 2, 3]))]
        for _ in range(draw(st.integers(0, 8)))],
        'order': draw(st.permutations(range(8))),
        'seed': draw(st.integers(0, 3))}


def build(s, backend='numpy'):
    """(nodes, dangling edges, their reference tensor)"""
    axes = [[] for _ in range(s['n'])]
    for k, (i, j, _) in enumerate(s['edges']):
        axes[i].append(k)
        if j >= 0:
            axes[j].append(k)
    rng = np.random.default_rng(s['seed'])
    nodes, data, places = [], [], {}
    for i, ks in enumerate(axes):
        ks = axes[i] = [ks[j] for j in rng.permutation(len(ks))]
        x = rng.normal(size=[s['edges'][k][2] for k in ks])
        data.append(x)
        if backend == 'pytorch':
            import torch
            x = torch.tensor(x)
        nodes.append(tn.Node(x, name=f'n{i}', backend=backend))
        for j, k in enumerate(ks):
            places.setdefault(k, []).append((i, j))
    free, labels = [], []
    for k in s['order']:
        if k not in places:
            continue
        (i, a), *rest = places[k]
        if rest:
            j, b = rest[0]
            nodes[i][a] ^ nodes[j][b]
        else:
            free.append(nodes[i][a])
            labels.append(k)
    args = [y for x, ks in zip(data, axes) for y in (x, ks)]
    return nodes, free, np.einsum(*args, labels)


def contract(s, opt, backend='numpy', loose=False):
    nodes, free, want = build(s, backend)
    if loose:
        got = ordered_nodes_contractor(nodes, opt, ignore_edge_order=True)
        expect(set(got.edges) == set(free), 'free edges')
        got = got.reorder_edges(free)
    elif len(free) < 2 and s['seed'] % 2:
        got = ordered_nodes_contractor(nodes, opt)
    else:
        got = ordered_nodes_contractor(nodes, opt, free)
    expect(list(got.edges) == free,
           'the edges are not in the order that was asked for')
    got = np.asarray(got.tensor)
    expect(got.shape == want.shape and np.allclose(got, want),
           lambda: f'the network has the tensor {got}, expected {want}')


@st.composite
def case(draw):
    nets = draw(st.lists(network(), min_size=1, max_size=3))
    return {'nets': nets, 'alg': draw(st.sampled_from(ALGORITHMS)),
            'cached': draw(st.booleans()),
            'use': draw(st.lists(st.integers(0, len(nets) - 1), min_size=1,
                                 max_size=5)),
            'mutate': draw(st.lists(st.sampled_from(
                [None, None, 'dims', 'swap', 'move']), min_size=5,
                max_size=5)),
            'backend': draw(st.sampled_from(['numpy', 'numpy', 'pytorch'])),
            'loose': draw(st.booleans())}


def mutate(s, how, i):
    """A network that looks like another one."""
    s = {**s, 'edges': [list(e) for e in s['edges']]}
    if not s['edges']:
        return s
    e = s['edges'][i % len(s['edges'])]
    if how == 'dims':
        e[2] = e[2] % 3 + 1
    elif how == 'swap' and e[1] >= 0:
        e[0], e[1] = e[1], e[0]
    elif how == 'move':
        e[1] = (e[1] + 2) % (s['n'] + 1) - 1
    return s


@check(P, 'contraction', case, quick=900, shards=3,
       rule='>= 3 nodes and >= 4 edges')
def contraction(s, ctx):
    kw = {}
    if s['alg'] == 'random-greedy':
        kw = {'max_repeats': 2}
    opt = (CachedTnPathOptimizer if s['cached'] else TnPathOptimizer)(
        s['alg'], **kw)
    ctx.label(s['alg'])
    for i, (k, m) in enumerate(zip(s['use'], s['mutate'])):
        net = s['nets'][k]
        ctx.nontrivial(net['n'] > 2 and len(net['edges']) > 3)
        if m:
            net = mutate(net, m, i)
        contract(net, opt, s['backend'], s['loose'])
    nodes, free, _ = build(s['nets'][0])
    if len(free) > 1:
        refused(lambda: ordered_nodes_contractor(nodes, opt), ValueError,
                'no order for the free edges is accepted')
        refused(lambda: ordered_nodes_contractor(nodes, opt, free[1:]),
                ValueError, 'an order of some free edges is accepted')


COUNT = [0]


def counted(inputs, output, sizes, memory_limit=None, **kw):
    COUNT[0] += 1
    return oe.paths.greedy(inputs, output, sizes, memory_limit)


if 'lbverif' not in oe.paths._PATH_OPTIONS:
    oe.paths.register_path_fn('lbverif', counted)


@st.composite
def cache_case(draw):
    nets = draw(st.lists(network(), min_size=1, max_size=3))
    op = st.one_of(
        st.tuples(st.just('use'), st.integers(0, len(nets) - 1),
                  st.integers(0, 1)),
        st.tuples(st.just('use'), st.integers(0, len(nets) - 1),
                  st.integers(0, 1)),
        st.tuples(st.just('new'), st.integers(0, 2), st.integers(0, 1)),
        st.tuples(st.just('checkpoint'), st.integers(0, 1),
                  st.integers(0, 1))).map(list)
    return {'nets': nets, 'ops': draw(st.lists(op, min_size=3, max_size=9)),
            'where': draw(st.sampled_from(['f', 'f', 'a/b/f', 'empty'])),
            'save': draw(st.booleans()), 'save2': draw(st.booleans())}


@check(P, 'cache', cache_case, quick=500, shards=3,
       rule='a network used again after the cache moved to a new optimiser')
def cache(s, ctx):
    """A path is searched for once, then taken from the optimiser, its
    file or a checkpoint."""
    tmp = tempfile.mkdtemp(prefix='lbverif')
    try:
        run(s, ctx, tmp)
    finally:
        shutil.rmtree(tmp)


def run(s, ctx, tmp):
    file = Path(tmp, s['where'])
    if s['where'] == 'empty':
        file.touch()
    on_file = set()         # networks whose paths the file knows

    saves = s['save'], s['save2']

    def new(with_file, b):
        opt = CachedTnPathOptimizer(
            'lbverif', save_file=file if with_file else None,
            save_checkpoints=saves[b])
        return [opt, set(on_file) if with_file else set(), with_file]
    slots = [new(False, 0), new(True, 1)]
    for op, a, b in s['ops']:
        if op == 'use':
            opt, known, filed = slots[b]
            COUNT[0] = 0
            contract(s['nets'][a], opt)
            _, free, _ = build(s['nets'][a])
            if a in known:
                expect(COUNT[0] == 0, 'the path of a network that was '
                       'contracted before is searched for again')
                if ctx.labels:
                    ctx.nontrivial()
            known.add(a)
            if filed and COUNT[0]:
                on_file.clear()         # the file holds what opt knows
                on_file.update(known)
                expect(file.is_file(), 'no file was written')
        elif op == 'new':
            slots[b] = new(a > 0, b)
            if slots[b][1]:
                ctx.label('from file')
        else:
            empty = set(Checkpoint())
            c = slots[a][0].store_to_checkpoint(Checkpoint())
            path = os.path.join(tmp, 'c.lt')
            c['x'] = 1
            c.to_file(path)
            slots[b][0].restore_from_checkpoint(Checkpoint.from_file(path))
            if saves[a]:
                slots[b][1] = set(slots[a][1])
                ctx.label('from checkpoint')
            else:
                expect(set(c) - {'x'} == empty, 'paths are saved unasked')


@st.composite
def model_case(draw):
    return {'w': draw(st.lists(st.integers(1, 3), min_size=1, max_size=4)),
            'save': draw(st.booleans()), 'seed': draw(st.integers(0, 99))}


@check(P, 'model', model_case, quick=60, shards=1, rule='>= 3 boxes')
def model(s, ctx):
    """PytorchModel reuses the paths of its checkpoint."""
    dims = [1] + s['w'] + [1]
    ctx.nontrivial(len(dims) > 3)
    d = None
    for i, (a, b) in enumerate(zip(dims, dims[1:])):
        box = Box(f'f{i}', Dim(a), Dim(b), Symbol(
            f's{i}', directed_dom=a, directed_cod=b))
        d = box.to_diagram() if d is None else d >> box

    def optimiser(saves=s['save']):
        return CachedTnPathOptimizer('lbverif', save_checkpoints=saves)
    tmp = tempfile.mkdtemp(prefix='lbverif')
    try:
        m = PytorchModel.from_diagrams([d], tn_path_optimizer=optimiser())
        m.initialise_weights()
        y = m([d])
        path = os.path.join(tmp, 'm.lt')
        m.save(path)
        m2 = PytorchModel.from_checkpoint(
            path, tn_path_optimizer=optimiser(s['seed'] % 2 > 0))
        COUNT[0] = 0
        y2 = m2([d])
        expect(not s['save'] or COUNT[0] == 0,
               'the loaded model searches for a path it has saved')
        expect(np.allclose(y.detach(), y2.detach()), 'predictions differ')
    finally:
        shutil.rmtree(tmp)
