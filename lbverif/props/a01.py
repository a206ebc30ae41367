"""A01: circuit ansaetze give the circuit they describe."""
import re

import numpy as np
from hypothesis import strategies as st

from lambeq import ansatz as A
from lambeq.backend import grammar as G
from lambeq.backend import quantum as Q
from lambeq.backend.symbol import Symbol
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import Skip, check, expect, prop

P = 'A01'
prop(P, ['the parameters of a box are numbered in the order of the layout '
         'given in the documentation of the ansatz',
         'names of words and types contain no underscore'])

KINDS = ['IQP', 'Sim4', 'Sim9', 'Sim9Cx', 'Sim14', 'Sim15',
         'StronglyEntangling']
BASES = {'id': [], 'h': [{'k': 'gate', 'g': 'H'}],
         'rx': [{'k': 'gate', 'g': 'Rx', 'p': 0.3}]}


# ---- reference layouts: [gate, parameter index or None, qubits] ---------

def layout(kind, n, L, ranges=None):
    """Gates of the block on n >= 2 qubits and the number of parameters."""
    ops, k = [], 0

    def rot(g, qs=None):
        nonlocal k
        for q in (range(n) if qs is None else qs):
            ops.append([g, k, [q]])
            k += 1

    if kind == 'IQP':
        for _ in range(L):
            ops += [['H', None, [q]] for q in range(n)]
            for q in range(n - 1):
                ops.append(['CRz', k, [q, q + 1]])
                k += 1
        if L:
            ops += [['H', None, [q]] for q in range(n)]
    elif kind == 'Sim4':
        for _ in range(L):
            rot('Rx')
            rot('Rz')
            for q in range(n - 1):
                ops.append(['CRx', k, [q, q + 1]])
                k += 1
    elif kind in ('Sim9', 'Sim9Cx'):
        for _ in range(L):
            ops += [['H', None, [q]] for q in range(n)]
            for q in range(n - 1):
                ops.append(['CZ' if kind == 'Sim9' else 'CX', None,
                            [q, q + 1]])
            rot('Rx')
    elif kind in ('Sim14', 'Sim15'):
        # two rings of controlled gates in opposite orientation
        for _ in range(L):
            rot('Ry')
            c = 'CRx' if kind == 'Sim14' else 'CX'
            for q in range(n):
                ops.append([c, k if kind == 'Sim14' else None,
                            [q, (q - 1) % n]])
                k += kind == 'Sim14'
            rot('Ry')
            # the second ring starts at the first qubit and goes down
            for j in range(n):
                q = (n - j) % n
                i = None
                if kind == 'Sim14':
                    i = k + j
                ops.append([c, i, [q, (q + 1) % n]])
            if kind == 'Sim14':
                k += n
    else:
        for layer in range(L):
            for q in range(n):
                for g in ('Rz', 'Ry', 'Rz'):
                    ops.append([g, k, [q]])
                    k += 1
            r = ranges[layer] if ranges else layer % (n - 1) + 1
            for q in range(n):
                ops.append(['CX', None, [q, (q + r) % n]])
    return ops, k


def to_spec(ops, vals):
    out = []
    for g, i, qs in ops:
        b = {'k': 'gate', 'g': g[1:] if len(qs) == 2 else g}
        if i is not None:
            b['p'] = vals[i]
        if len(qs) == 2:
            b = {'k': 'ctrl', 'of': b, 'd': qs[1] - qs[0]}
        out.append([min(qs), b])
    return out


def box_spec(s, name, dom, cod, vals=None):
    """(circuit spec, number of parameters) of an unrotated box."""
    q = s['ob']
    nd = sum(q[a] for a, _ in dom)
    nc = sum(q[a] for a, _ in cod)
    anc = ancillas(s, name, dom, cod)
    n = max(nd, nc) + anc
    if n == 0:
        ops, k = [], 0
    elif n == 1:
        rs = s['rots'] if s['kind'] != 'StronglyEntangling' \
            else ['Rz', 'Ry']
        k = s['single']
        ops = [[rs[i % len(rs)], i, [0]] for i in range(k)]
    else:
        ops, k = layout(s['kind'], n, s['layers'], s['ranges'])
    if vals is None:
        vals = [0] * k
    ls = [[j, {'k': 'ket', 'v': 0}] for j in range(nd, n)]
    ls += to_spec(ops, vals)
    basis = BASES[s['basis']] if s['kind'] != 'StronglyEntangling' else []
    for j in reversed(range(nc, n)):
        if s['discard']:
            ls.append([j, {'k': 'discard'}])
        else:
            ls += [[j, b] for b in basis] + [[j, {'k': 'bra', 'v': 0}]]
    return {'dom': 'q' * nd, 'layers': ls}, k


def ancillas(s, name, dom, cod):
    how, n = s['anc']
    if how == 'int':
        return n
    # boxes with one name and different types have different numbers
    return n if name in ('f', 'w') and (len(dom) + len(cod)) % 2 else 0


@st.composite
def ans_case(draw):
    kind = draw(st.sampled_from(KINDS))
    L = draw(st.integers(0, 3))
    ob = {a: draw(st.sampled_from([1, 1, 2, 2, 3, 0])) for a in 'nsp'}
    s = {'kind': kind, 'layers': L, 'ob': ob,
         'single': draw(st.integers(0, 4)),
         'rots': draw(st.lists(st.sampled_from(['Rx', 'Ry', 'Rz']),
                               min_size=1, max_size=3)),
         'basis': draw(st.sampled_from(['id', 'id', 'h', 'rx'])),
         'discard': draw(st.sampled_from([False, False, True])),
         'anc': [draw(st.sampled_from(['int', 'dict', 'call'])),
                 draw(st.sampled_from([0, 0, 1, 1]))],
         'ranges': draw(st.lists(st.integers(1, 3), min_size=L,
                                 max_size=L)) if draw(st.booleans())
         and kind == 'StronglyEntangling' else None,
         'ty': draw(st.booleans()),
         'd': draw(gr.diagrams(kinds=gr.ALL + ('box', 'word'), minl=1,
                               maxl=4, maxw=4, maxdom=2,
                               bz=(0, 0, 0, 0, 1, -1))),
         'seed': draw(st.integers(0, 10 ** 6))}
    if s['anc'][1] and draw(st.booleans()):     # namesakes
        for _, b in s['d']['layers']:
            if b['k'] in ('box', 'word'):
                b['n'] = 'f'
    return s


def mk_ansatz(s):
    kw = {}
    how, n = s['anc']
    if how == 'int':
        kw['n_ancillas'] = n
    elif how == 'call':
        kw['n_ancillas'] = lambda box: ancillas(
            s, box.name, box.dom, box.cod)
    else:
        m = {}
        for b in s['boxes']:
            if ancillas(s, b.name, b.dom, b.cod):
                m[b] = n
        kw['n_ancillas'] = m
    if s['kind'] == 'StronglyEntangling':
        kw['ranges'] = s['ranges']
    else:
        kw['postselection_basis'] = {'id': Q.Id(Q.qubit), 'h': Q.H,
                                     'rx': Q.Rx(0.3)}[s['basis']]
        kw['single_qubit_rotations'] = [getattr(Q, r) for r in s['rots']]
    ob = {G.Ty(a): (Q.qubit ** k if s['ty'] else k)
          for a, k in s['ob'].items()}
    return getattr(A, s['kind'] + 'Ansatz')(
        ob, n_layers=s['layers'], n_single_qubit_params=s['single'],
        discard=s['discard'], **kw)


def bases_of(p):
    """Plain unrotated boxes of a plain diagram."""
    out = []
    for _, b, _ in p['layers']:
        while b['cls'] == 'Daggered':
            b = b['box']
        if b['cls'] in ('Box', 'Word'):
            out.append(dict(b, dom=gr.rot_ty(b['dom'], -b['z']),
                            cod=gr.rot_ty(b['cod'], -b['z']), z=0))
    return out


def numbered(symbols):
    """Names of symbols that differ in a trailing number, in order."""
    names = sorted((x.name for x in symbols),
                   key=lambda x: int(re.search(r'(\d+)$', x).group()))
    return names


@check(P, 'meaning', ans_case, quick=900, shards=4,
       rule='>= 2 boxes, one of which takes >= 2 qubits')
def meaning(s, ctx):
    p0 = gr.p_diag(gr.mk_diag(s['d']))
    bases = bases_of(p0)
    s = dict(s, boxes=[
        G.Word(b['name'], gr.mk_ty(b['cod'])) if b['cls'] == 'Word' else
        G.Box(b['name'], gr.mk_ty(b['dom']), gr.mk_ty(b['cod']))
        for b in bases])
    for b in bases:
        n = sum(s['ob'][a] for a, _ in b['dom'])
        m = sum(s['ob'][a] for a, _ in b['cod'])
        if (n + m + 2 * ancillas(s, b['name'], b['dom'], b['cod'])
                > (5 if s['discard'] else 8)):
            raise Skip
    a = mk_ansatz(s)
    D = gr.mk_diag(s['d'])
    before = gr.p_diag(D)
    widths = [max(sum(s['ob'][x] for x, _ in b['dom']),
                  sum(s['ob'][x] for x, _ in b['cod']))
              + ancillas(s, b['name'], b['dom'], b['cod']) for b in bases]
    wide = any(b['k'] == 'spider' and s['ob'][b['t'][0]] > 1
               for _, b in s['d']['layers'])
    too_far = s['ranges'] and s['kind'] == 'StronglyEntangling' and any(
        w > 1 and r >= w for w in widths for r in s['ranges'])
    if too_far:
        try:
            a(D)
        except ValueError:
            ctx.label('range too large')
            return
        except NotImplementedError:
            if wide:
                return
            raise
        expect(False, 'a range of more than the number of qubits is '
               'accepted')
    try:
        C = a(D)
    except NotImplementedError:
        # spiders on several qubits are refused, as documented
        if not wide:
            raise
        ctx.label('spider on several qubits')
        return
    ctx.label(s['kind'])
    ctx.nontrivial(len(bases) > 1 and max(widths) > 1)
    expect(gr.p_diag(D) == before, 'the ansatz changed the diagram')
    q = s['ob']
    nd = sum(q[x] for x, _ in s['d']['dom'])
    nc = sum(q[x] for x, _ in gr.diag_cod(s['d']))
    expect(C.dom == Q.qubit ** nd and C.cod == Q.qubit ** nc,
           lambda: f'{C.dom} -> {C.cod}, expected {nd} -> {nc} qubits')
    for t in (D.dom, D.cod):
        expect(a.ob_size(t) == len(a(G.Diagram.id(t)).dom), 'ob_size')
    # parameters: those of each box, named after the box
    rng = np.random.default_rng(s['seed'])
    vals, owner = {}, {}
    params = {}
    for b, B in zip(bases, s['boxes']):
        key = repr([b['name'], b['dom'], b['cod']])
        _, k = box_spec(s, b['name'], b['dom'], b['cod'])
        syms = a(B.to_diagram()).free_symbols
        expect(len(syms) == k, lambda: f'{B!r} gets {len(syms)} parameters, '
               f'expected {k}')
        names = numbered(syms)
        expect(all(b['name'] in n for n in names), 'name of a parameter')
        for n in names:
            expect(owner.setdefault(n, key) == key,
                   lambda: f'{n} is shared by {owner[n]} and {key}')
            vals.setdefault(n, round(float(rng.uniform(-1, 1)), 3))
        params[key] = names
    expect({x.name for x in C.free_symbols} == set(vals),
           lambda: f'parameters {C.free_symbols}, expected {set(vals)}')
    expect(mk_ansatz(s)(gr.mk_diag(s['d'])) == C, 'another instance of the '
           'ansatz gives another circuit')
    names = sorted(vals)
    num = C.lambdify(*map(Symbol, names))(*[vals[n] for n in names])
    mixed = num.is_mixed

    def table(b, shape):
        key = repr([b['name'], b['dom'], b['cod']])
        c, _ = box_spec(s, b['name'], b['dom'], b['cod'],
                        [vals[n] for n in params[key]])
        if not mixed:
            return qc.pure_eval(c)
        t = qc.mixed_eval(c)
        i, o = len(c['dom']), len(shape) - len(c['dom'])
        # kets in, bras in, kets out, bras out -> pairs
        perm = [x for j in range(i) for x in (j, i + j)]
        perm += [2 * i + x for j in range(o) for x in (j, o + j)]
        return t.transpose(perm).reshape([4] * (i + o))
    dims = 4 if mixed else 2
    want = gr.semantics(p0, lambda n: [dims] * q[n], table)
    if mixed:
        if want.ndim > 5:
            raise Skip
        want = want.reshape([2] * (2 * want.ndim))
        perm = [2 * j for j in range(nd)] + [2 * j + 1 for j in range(nd)]
        perm += [2 * nd + 2 * j for j in range(nc)]
        perm += [2 * nd + 2 * j + 1 for j in range(nc)]
        want = want.transpose(perm)
    if not num.boxes and not num.dom:
        return
    got = num.eval(mixed=mixed)
    expect(got.shape == want.shape and gr.same(got, want, 1e-7),
           lambda: f'{C!r} at {vals} evaluates to {got}, not {want}')


@st.composite
def bad_case(draw):
    return {'kind': draw(st.sampled_from(KINDS)),
            'd': draw(gr.diagrams(kinds=('box', 'word', 'frame'), minl=1,
                                  maxl=3, depth=1)),
            'L': draw(st.integers(0, 3)), 'r': draw(st.integers(0, 3))}


@check(P, 'refusals', bad_case, quick=200, shards=1,
       rule='a diagram with a frame')
def refusals(s, ctx):
    D = gr.mk_diag(s['d'])
    a = getattr(A, s['kind'] + 'Ansatz')({G.Ty(x): 1 for x in 'nsp'},
                                         n_layers=1)
    frames = any(b['k'] == 'frame' for _, b in s['d']['layers'])
    ctx.nontrivial(frames)
    try:
        a(D)
        expect(not frames, 'a diagram with frames is accepted')
    except RuntimeError:
        expect(frames, 'a diagram without frames is refused')
    try:
        A.StronglyEntanglingAnsatz({G.Ty('n'): 1}, n_layers=s['L'],
                                   ranges=[1] * s['r'])
        expect(s['L'] == s['r'], 'the number of ranges is not checked')
    except ValueError:
        expect(s['L'] != s['r'], 'the right number of ranges is refused')
