"""T01: tensor diagrams evaluate to the tensor they denote."""
import numpy as np
import tensornetwork as tn
from hypothesis import strategies as st

from lambeq.backend import tensor as T
from lambeq.backend.numerical_backend import backend, get_backend
from lbverif import gram as gr
from lbverif import tens
from lbverif.core import check, expect, prop

P = 'T01'
prop(P, ['the reference contracts the layers one by one with numpy',
         'comparison tolerance 1e-8 (float64), 1e-4 (float32)'])


@st.composite
def eval_case(draw):
    return {'d': draw(tens.diagrams(minl=1)),
            'real': draw(st.booleans()),
            'con': draw(st.sampled_from(['auto', 'greedy', 'auto']))}


@check(P, 'eval', eval_case, quick=900, shards=4,
       rule='>= 3 layers, with a box')
def eval_(s, ctx):
    d, real = s['d'], s['real']
    want = tens.ref_eval(d, real)
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(len(ks) >= 3 and 'box' in ks)
    for k in set(ks):
        ctx.label(k)
    D = tens.mk_diag(d, real)
    expect(D.dom.dim == tuple(d['dom'])
           and D.cod.dim == tuple(tens.diag_cod(d)), 'dimensions')
    con = getattr(tn.contractors, s['con'])
    got = D.eval(contractor=con,
                 dtype=np.float64 if real else np.complex128)
    expect(gr.same(got, want, 1e-8),
           lambda: f'evaluates to\n{got}\ninstead of\n{want}')
    got = D.eval()
    expect(gr.same(got, want, 1e-4), 'evaluation with the default dtype')


@st.composite
def law_case(draw):
    f = draw(tens.diagrams(minl=1, maxl=3, maxw=3, maxdom=2))
    g = draw(tens.diagrams(minl=1, maxl=3, maxw=4, dom=tens.diag_cod(f)))
    h = draw(tens.diagrams(minl=1, maxl=2, maxw=2, maxdom=2))
    return {'f': f, 'g': g, 'h': h, 'z': draw(st.integers(-2, 3))}


@check(P, 'laws', law_case, quick=400, shards=3,
       rule='f, g and h contain >= 3 boxes with data')
def laws(s, ctx):
    F, G, H = (tens.mk_diag(s[k]) for k in 'fgh')
    f, g, h = (tens.ref_eval(s[k]) for k in 'fgh')
    nf, nh = len(s['f']['dom']), len(s['h']['dom'])
    ctx.nontrivial(sum(b['k'] == 'box' for k in 'fgh'
                       for _, b in s[k]['layers']) >= 3)

    def is_(D, t, what):
        got = D.eval(dtype=np.complex128)
        expect(gr.same(got, t, 1e-8), lambda: f'{what}: {D!r} evaluates to '
               f'{got}, expected {t}')
    k = f.ndim - nf
    fg = np.tensordot(f, g, axes=(list(range(nf, nf + k)), list(range(k))))
    is_(F >> G, fg, 'f >> g')
    fh = np.multiply.outer(f, h)
    if fh.size < 1e5:
        o = f.ndim
        is_(F @ H, fh.transpose(
            list(range(nf)) + list(range(o, o + nh)) + list(range(nf, o))
            + list(range(o + nh, fh.ndim))), 'f @ h')
    is_(F.dagger(), np.conj(f.transpose(list(range(nf, f.ndim))
                                        + list(range(nf)))), 'dagger')
    r = f
    if s['z'] % 2:
        r = np.conj(f.transpose(list(range(nf))[::-1]
                                + list(range(nf, f.ndim))[::-1]))
    is_(F.rotate(s['z']), r, f'rotate({s["z"]})')
    is_(F.rotate(s['z']).dagger(), np.conj(r.transpose(
        list(range(nf, f.ndim)) + list(range(nf)))), 'rotated dagger')


@st.composite
def struct_case(draw):
    ds = st.lists(st.sampled_from([2, 3, 4]), max_size=3)
    a, b = draw(ds), draw(ds)
    return {'a': a, 'b': b, 'i': draw(st.integers(0, 3)),
            'o': draw(st.integers(0, 3)), 'ones': draw(st.booleans()),
            'p': list(draw(st.permutations(range(len(a)))))}


@check(P, 'structure', struct_case, quick=400, shards=2,
       rule='a type of >= 2 wires or of dimension > 2')
def structure(s, ctx):
    a, b = s['a'], s['b']
    ctx.nontrivial(len(a) > 1 or max(a, default=0) > 2)
    # dimensions of 1 are dropped
    A = T.Dim(*(x for y in a for x in ((1, y) if s['ones'] else (y,))))
    B = T.Dim(*b)
    expect(A.dim == tuple(a) and len(A) == len(a)
           and A.product == int(np.prod(a, dtype=int))
           and (A @ B).dim == tuple(a + b)
           and A.l.dim == tuple(a[::-1]) and A.r.dim == tuple(a[::-1])
           and A == T.Dim(*a) and hash(A) == hash(T.Dim(*a))
           and (A == B) == (a == b) and (A @ B)[:len(a)] == A
           and (A @ T.Dim(1)) == A, lambda: f'Dim arithmetic on {a}, {b}')

    def is_(D, t, what):
        D = D.to_diagram()
        got = D.eval(dtype=np.float64)
        expect(gr.same(got, t), lambda: f'{what} evaluates to {got}, '
               f'expected {t}')
    if a and np.prod(a) <= 30:
        pairs = gr.nested_pairs(a)
        is_(T.Diagram.cups(A, A.r), pairs, 'cups')
        is_(T.Diagram.caps(A, A.l), pairs, 'caps')
        eye = np.eye(int(np.prod(a))).reshape(a + a)
        is_(T.Diagram.caps(A, A.l) @ A >> A @ T.Diagram.cups(A.l, A), eye,
            'left snake')
        is_(A @ T.Diagram.caps(A.r, A) >> T.Diagram.cups(A, A.r) @ A, eye,
            'right snake')
        is_(T.Diagram.id(A), eye, 'identity')
        n = len(a)
        is_(T.Diagram.permutation(A, s['p']),
            eye.transpose(list(range(n)) + [n + k for k in s['p']]),
            'permutation')
        for x in a[:1]:
            for X, t in ((T.Cup(T.Dim(x), T.Dim(x)), np.eye(x)),
                         (T.Cap(T.Dim(x), T.Dim(x)), np.eye(x)),
                         (T.Cup(T.Dim(x), T.Dim(x)).dagger(), np.eye(x)),
                         (T.Cap(T.Dim(x), T.Dim(x)).dagger(), np.eye(x)),
                         (T.Cap(T.Dim(x), T.Dim(x)).r, np.eye(x))):
                is_(X, t, repr(X))
    if a and b and np.prod(a + b) <= 150:
        t = np.eye(int(np.prod(a + b))).reshape(a + b + a + b)
        n, k = len(a + b), len(a)
        is_(T.Swap(A, B), t.transpose(
            list(range(n)) + list(range(n + k, 2 * n))
            + list(range(n, n + k))), 'swap')
    i, o = s['i'], s['o']
    if a and i + o and np.prod(a) ** (i + o) <= 4000:
        t = np.array(1.0)
        for d in a:
            t = np.multiply.outer(t, gr.delta(i + o, d))
        t = t.transpose([c * (i + o) + leg for leg in range(i + o)
                         for c in range(len(a))])
        is_(T.Spider(A, i, o), t, 'spider')


@check(P, 'backends', eval_case, quick=160, shards=2, hang=300,
       rule='>= 2 layers, with a box')
def backends(s, ctx):
    """PyTorch and JAX give what numpy gives."""
    import torch
    d, real = s['d'], s['real']
    want = tens.ref_eval(d, real)
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(len(ks) >= 2 and 'box' in ks)

    def tdata(b):
        return torch.as_tensor(tens.base_data(b, real))
    D = tens.mk_diag(d, data=tdata)
    with backend('pytorch'):
        expect(get_backend().name == 'pytorch', 'the backend is not set')
        got = D.eval(dtype=np.float64 if real else np.complex128)
    expect(torch.is_tensor(got), 'the PyTorch backend gives no tensor')
    expect(gr.same(got.resolve_conj().numpy(), want, 1e-8),
           'PyTorch evaluation')
    expect(get_backend().name == 'numpy', 'the backend is not restored')
    J = tens.mk_diag(d, real)
    with backend('jax'):
        got = J.eval(dtype=np.float32 if real else np.complex64)
    expect(gr.same(np.asarray(got), want, 1e-4), 'JAX evaluation')


@st.composite
def eq_case(draw):
    """Two boxes or diagrams that are the same or nearly so."""
    d = draw(tens.diagrams(minl=1, maxl=3, kinds=('box', 'box', 'cup',
                                                  'swap', 'spider')))
    e = {'dom': d['dom'], 'layers': [[o, dict(b)] for o, b in d['layers']]}
    boxes = [i for i, (_, b) in enumerate(d['layers']) if b['k'] == 'box']
    if boxes:
        b = e['layers'][draw(st.sampled_from(boxes))][1]
        k = draw(st.sampled_from(['z', 'dag', 'n', 'same', 'same']))
        if k == 'n':
            b['n'] = draw(st.sampled_from(['f', 'g', 'h']))
        elif k == 'z':
            b['z'] = draw(st.sampled_from([0, 1, 2]))
        elif k == 'dag':
            b['dag'] = not b['dag']
    return {'d': d, 'e': e}


@check(P, 'equality', eq_case, quick=600, shards=2,
       rule='two diagrams that differ in one box')
def equality(s, ctx):
    """Equal diagrams have equal values and hashes."""
    def norm(d):
        out = []
        for o, b in d['layers']:
            b = dict(b)
            if b['k'] == 'box':
                b['z'] %= 2
            out.append([o, b])
        return out
    D, E = tens.mk_diag(s['d']), tens.mk_diag(s['e'])
    same = norm(s['d']) == norm(s['e'])
    ctx.nontrivial(not same)
    expect(D == tens.mk_diag(s['d']), 'a copy is not equal')
    if same:
        expect(D == E and hash(D) == hash(E),
               'equal diagrams, or their hashes, differ')
    elif D == E:
        expect(gr.same(tens.ref_eval(s['d']), tens.ref_eval(s['e'])),
               lambda: f'{D!r} == {E!r} but they evaluate differently')
