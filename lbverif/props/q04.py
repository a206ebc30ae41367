"""Q04: to_circuital keeps the meaning of a circuit."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend import quantum as Q
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop

P = 'Q04'
prop(P, ['circuits of gates, controlled gates, kets, bras, swaps of qubits, '
         'scalars, discards and measurements, on qubit inputs; a measured '
         'bit is not swapped with a qubit'])

MOVES = ('gate', 'gate', 'swap', 'swap', 'swap', 'ket', 'ket', 'bra')
KINDS = ('gate', 'gate', 'ctrl', 'ctrl', 'ctrl', 'ket', 'ket', 'bra',
         'bra', 'swap', 'scalar', 'sqrt')


def case():
    return st.builds(lambda d: {'d': d}, qc.started(st.one_of(
        qc.circuits(minl=1, maxl=9, maxw=4, maxdom=3, kinds=KINDS,
                    rot=False),
        qc.circuits(minl=3, maxl=9, maxw=4, maxdom=2, kinds=MOVES,
                    rot=False),
        qc.circuits(minl=1, maxl=9, maxw=4, maxdom=3, rot=False,
                    kinds=KINDS + ('discard', 'discard')),
        qc.circuits(minl=1, maxl=9, maxw=4, maxdom=3, rot=False,
                    bit_swaps=False,
                    kinds=KINDS + ('discard', 'measure', 'measure')))))


def closed(d):
    """The circuit with inputs set to 0 and open qubits discarded."""
    pre = [[i, {'k': 'ket', 'v': 0}] for i in range(len(d['dom']))]
    post = []
    w = qc.diag_cod(d)
    for i in reversed(range(len(w))):
        if w[i] == 'q':
            post.append([i, {'k': 'discard'}])
    return {'dom': '', 'layers': pre + d['layers'] + post}


@check(P, 'meaning', case, quick=1200, shards=4,
       rule='a ket or bra after the first gate of >= 4 layers')
def meaning(s, ctx):
    d = s['d']
    want = qc.mixed_eval(closed(d))
    ks = [b['k'] for _, b in d['layers']]
    g = [i for i, k in enumerate(ks) if k in ('gate', 'ctrl')]
    ctx.nontrivial(len(ks) >= 4 and bool(g) and any(
        k in ('ket', 'bra') for k in ks[g[0]:]))
    D = qc.mk_diag(d)
    before = repr(D)
    C = Q.to_circuital(D)
    expect(repr(D) == before and gr.same(D.eval(mixed=True),
                                         qc.mixed_eval(d), 1e-8),
           'to_circuital changed the circuit it was given')
    expect(C.is_circuital, lambda: f'{C!r} is not circuital')
    got = C.eval(mixed=True)
    expect(gr.same(got, want, 1e-8),
           lambda: f'{D!r}\nbecomes\n{C!r}\nwhich evaluates to {got}, not '
           f'{want}')
