"""Q02: mixed circuits evaluate to the channel they denote."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend import quantum as Q
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop

P = 'Q02'
prop(P, ['axes are ordered bits, kets, bras on each side',
         'MixedState is the identity matrix without normalisation'])


@st.composite
def case(draw):
    return {'d': draw(qc.circuits(minl=1, maxl=8, maxw=4, wires='qqb',
                                  kinds=qc.MIXED))}


@check(P, 'eval', case, quick=1200, shards=4,
       rule='a measurement, discard or mixed state and >= 3 layers')
def eval_(s, ctx):
    d = s['d']
    want = qc.mixed_eval(d)
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(qc.is_mixed(d) and len(ks) > 2)
    for k in set(ks):
        ctx.label(k)
    D = qc.mk_diag(d)
    expect(D.is_mixed == qc.is_mixed(d), 'is_mixed')
    if set(d['dom'] + qc.diag_cod(d)) <= {'q'} or D.is_mixed:
        got = D.eval(mixed=True)
        expect(gr.same(got, want, 1e-8),
               lambda: f'{D!r} evaluates to\n{got}\nnot\n{want}')
    if D.is_mixed:
        expect(gr.same(D.eval(), want, 1e-8), 'eval() of a mixed circuit')


@st.composite
def law_case(draw):
    f = draw(qc.circuits(minl=1, maxl=4, maxw=3, maxdom=2, wires='qqb',
                         kinds=qc.MIXED))
    h = draw(qc.circuits(minl=1, maxl=3, maxw=2, maxdom=1, wires='qqb',
                         kinds=qc.MIXED))
    return {'f': f, 'h': h}


def sig(d):
    """Names of the axes of mixed_eval."""
    out = []
    for side, w in (('i', d['dom']), ('o', qc.diag_cod(d))):
        out += [(side, i, 'c') for i, c in enumerate(w) if c == 'b']
        out += [(side, i, 'k') for i, c in enumerate(w) if c == 'q']
        out += [(side, i, 'r') for i, c in enumerate(w) if c == 'q']
    return out


@check(P, 'laws', law_case, quick=500, shards=3,
       rule='f is mixed and has >= 2 layers')
def laws(s, ctx):
    f, h = s['f'], s['h']
    tf, th = qc.mixed_eval(f), qc.mixed_eval(h)
    F, H = qc.mk_diag(f), qc.mk_diag(h)
    ctx.nontrivial(qc.is_mixed(f) and len(f['layers']) > 1)
    sf, sh = sig(f), sig(h)
    nd, nc = len(f['dom']), len(qc.diag_cod(f))
    # tensor
    both = np.multiply.outer(tf, th)
    if both.ndim <= 16 and (F @ H).is_mixed:
        names = sf + [(a, i + (nd if a == 'i' else nc), c)
                      for a, i, c in sh]
        w = {'i': f['dom'] + h['dom'],
             'o': qc.diag_cod(f) + qc.diag_cod(h)}
        order = [(a, i, c) for a in 'io' for c in 'ckr'
                 for i, x in enumerate(w[a]) if (x == 'b') == (c == 'c')]
        t = both.transpose([names.index(x) for x in order])
        got = (F @ H).eval()
        expect(gr.same(got, t, 1e-8), lambda: f'{F @ H!r} (tensor)')
    # dagger
    if F.is_mixed and all(b['k'] != 'bit' for _, b in f['layers']):
        n = sum(a == 'i' for a, _, _ in sf)
        t = np.conj(tf.transpose(list(range(n, tf.ndim)) + list(range(n))))
        got = F.dagger().eval()
        expect(gr.same(got, t, 1e-8), lambda: f'{F!r} (dagger)')
    # every input initialised, every qubit output discarded
    X = F.init_and_discard()
    expect(not X.dom and all(x == Q.bit for x in X.cod)
           and len(X.cod) == qc.diag_cod(f).count('b'),
           'init_and_discard: types')
    t = tf
    for a, i, c in [x for x in sf if x[0] == 'i']:
        t = t[0]
    rest = [x for x in sf if x[0] == 'o']
    for a, i, c in [x for x in rest if x[2] == 'k']:
        t = np.trace(t, axis1=rest.index((a, i, 'k')),
                     axis2=rest.index((a, i, 'r')))
        rest = [x for x in rest if x[1] != i]
    if X.is_mixed or not X.cod:
        got = X.eval()
        if not X.is_mixed:          # nothing was discarded: an amplitude
            got = np.abs(got) ** 2
        expect(gr.same(got, t, 1e-8), lambda: f'{F!r} with initialised '
               f'inputs and discarded outputs gives {got}, not {t}')
