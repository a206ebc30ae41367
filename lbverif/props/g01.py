"""G01: types and diagrams form a strict monoidal category."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lambeq.core.utils import fast_deepcopy
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'G01'
prop(P, ['types/diagrams are observed through their public attributes '
         '(name, z, dom, cod, layers, left, box, right)',
         'the reference semantics reads wires as finite-dimensional '
         'self-dual spaces'])


# ---- types ------------------------------------------------------------

@st.composite
def ty_case(draw):
    a, b, c = draw(gr.types(0, 4)), draw(gr.types(0, 3)), draw(gr.types(0, 3))
    return {'a': a, 'b': b, 'c': c, 'z': draw(st.integers(-3, 3)),
            'y': draw(st.integers(-3, 3)), 'n': draw(st.integers(0, 3)),
            'i': draw(st.integers(-5, 5)), 'j': draw(st.integers(-5, 5)),
            'k': draw(st.sampled_from([None, None, 1, -1, 2]))}


@check(P, 'types', ty_case, quick=1500, shards=2,
       rule='type of >= 2 wires and a non-zero rotation')
def types(s, ctx):
    a, b, c = s['a'], s['b'], s['c']
    A, B, C = map(gr.mk_ty, (a, b, c))
    ctx.nontrivial(len(a) > 1 and s['z'] != 0)

    def is_(t, plain, what):
        expect(gr.p_ty(t) == plain, lambda: f'{what}: got {t!r}, the model '
               f'gives {plain}')
        expect(t == gr.mk_ty(plain) and hash(t) == hash(gr.mk_ty(plain)),
               lambda: f'{what}: not equal (or different hash) to the same '
               f'type built directly: {t!r}')
        expect(t.is_empty == (len(plain) == 0)
               and t.is_atomic == (len(plain) == 1)
               and t.is_complex == (len(plain) > 1)
               and len(t) == len(plain) and bool(len(t)) == (not t.is_empty),
               lambda: f'{what}: emptiness/atomicity/len of {t!r}')

    is_(A, a, 'constructor')
    is_(A @ B, a + b, 'a @ b')
    is_(A @ B @ C, a + b + c, '(a @ b) @ c')
    is_(A @ (B @ C), a + b + c, 'a @ (b @ c)')
    is_(A.tensor(B, C), a + b + c, 'a.tensor(b, c)')
    is_(G.Ty().tensor([A, B, C]), a + b + c, 'Ty().tensor([a, b, c])')
    is_(A @ G.Ty(), a, 'a @ unit')
    is_(G.Ty() @ A, a, 'unit @ a')
    z, y = s['z'], s['y']
    is_(A.rotate(z), gr.rot_ty(a, z), f'a.rotate({z})')
    is_(A.rotate(z).rotate(y), gr.rot_ty(a, z + y), 'two rotations')
    is_((A @ B).rotate(z), gr.rot_ty(a + b, z), '(a @ b).rotate')
    is_(A.l, gr.rot_ty(a, -1), 'a.l')
    is_(A.r, gr.rot_ty(a, 1), 'a.r')
    is_(A.l.r, a, 'a.l.r')
    is_(A.r.l, a, 'a.r.l')
    is_(A << B, a + gr.rot_ty(b, -1), 'a << b')
    is_(A >> B, gr.rot_ty(a, 1) + b, 'a >> b')
    is_(A ** s['n'], a * s['n'], 'a ** n')
    is_(A.repeat(s['n']), a * s['n'], 'a.repeat(n)')
    expect([gr.p_ty(t) for t in A] == [[x] for x in a], 'iteration')
    i, j, k = s['i'], s['j'], s['k']
    is_(A[i:j:k], a[i:j:k], f'a[{i}:{j}:{k}]')
    is_(A[:i], a[:i], f'a[:{i}]')
    is_(A[i:], a[i:], f'a[{i}:]')
    if -len(a) <= i < len(a):
        is_(A[i], [a[i]], f'a[{i}]')
    else:
        try:
            A[i]
        except IndexError:
            pass
        else:
            expect(False, f'a[{i}] out of range did not raise')
    for nm, zz in {tuple(x) for x in a + b}:
        expect(A.count(G.Ty(nm, z=zz)) == sum(x == [nm, zz] for x in a),
               lambda: f'count of {nm},{zz} in {A!r}')
    for idx in range(len(a)):
        is_(A.replace(B, idx), a[:idx] + b + a[idx + 1:],
            f'a.replace(b, {idx})')
    for idx in range(len(a) + 1):
        is_(A.insert(B, idx), a[:idx] + b + a[idx:], f'a.insert(b, {idx})')
    for idx in (len(a) + 1, len(a) + 3):
        for op in ('insert', 'replace'):
            try:
                getattr(A, op)(B, idx)
            except IndexError:
                pass
            else:
                expect(False, f'{op} at {idx} of {A!r} did not raise')
    expect((A == B) == (a == b), lambda: f'equality of {A!r} and {B!r}')
    expect(a == b or repr(A) != repr(B), 'two types print the same')
    for cp in (copy.deepcopy(A), pickle.loads(pickle.dumps(A)),
               fast_deepcopy(A)):
        is_(cp, a, 'copy')
    is_(A, a, 'a after all operations (it was changed in place)')


# ---- diagrams ---------------------------------------------------------

KINDS = gr.ALL + ('frame',)


def m_then(p, q):
    return {'dom': p['dom'], 'cod': q['cod'],
            'layers': p['layers'] + q['layers']}


def m_tensor(p, q):
    return {'dom': p['dom'] + q['dom'], 'cod': p['cod'] + q['cod'],
            'layers': [[l, b, r + q['dom']] for l, b, r in p['layers']]
            + [[p['cod'] + l, b, r] for l, b, r in q['layers']]}


def m_id(t):
    return {'dom': t, 'cod': t, 'layers': []}


def m_box_rot(b, z):
    """Rotation of a plain box."""
    c = b['cls']
    out = dict(b, dom=gr.rot_ty(b['dom'], z), cod=gr.rot_ty(b['cod'], z),
               z=b['z'] + z)
    if c in ('Cup', 'Cap'):
        out['z'] = (b['z'] + z) % 2
    if c in ('Swap', 'Spider'):
        out['z'] = 0
    if c in ('Daggered', 'DaggeredFrame'):
        out['box'] = m_box_rot(b['box'], z)
    if c == 'Frame':
        cs = b['comps'][::-1] if z % 2 else b['comps']
        out['comps'] = [m_rot(x, z) for x in cs]
    return out


def m_rot(p, z):
    if 'layers' not in p:
        return m_box_rot(p, z)
    flip = z % 2
    return {'dom': gr.rot_ty(p['dom'], z), 'cod': gr.rot_ty(p['cod'], z),
            'layers': [[gr.rot_ty(r if flip else l, z), m_box_rot(b, z),
                        gr.rot_ty(l if flip else r, z)]
                       for l, b, r in p['layers']]}


def m_box_dag(b):
    c = b['cls']
    if c in ('Daggered', 'DaggeredFrame'):
        return b['box']
    if c in ('Cup', 'Cap'):
        l, r = (b['dom'] or b['cod'])
        cls = 'Cap' if c == 'Cup' else 'Cup'
        return {'cls': cls, 'name': cls.upper(), 'z': 1 - b['z'],
                'dom': b['cod'], 'cod': b['dom']}
    if c in ('Swap', 'Spider'):
        return dict(b, dom=b['cod'], cod=b['dom'])
    if c == 'Frame':
        return {'cls': 'DaggeredFrame', 'name': b['name'] + '†',
                'z': b['z'], 'dom': b['cod'], 'cod': b['dom'], 'box': b}
    return {'cls': 'Daggered', 'name': b['name'] + '†', 'z': b['z'],
            'dom': b['cod'], 'cod': b['dom'], 'box': b}


def m_dag(p):
    if 'layers' not in p:
        return m_box_dag(p)
    return {'dom': p['cod'], 'cod': p['dom'],
            'layers': [[l, m_box_dag(b), r] for l, b, r in p['layers'][::-1]]}


def bounds(p):
    out = [p['dom']]
    for l, b, r in p['layers']:
        out.append(l + b['cod'] + r)
    return out


@st.composite
def algebra_case(draw):
    """A small straight-line program over diagrams."""
    base = draw(st.lists(gr.diagrams(kinds=KINDS, maxl=4, maxw=4),
                         min_size=1, max_size=2))
    # composable continuation of the first one
    nxt = draw(gr.diagrams(kinds=KINDS, maxl=3, maxw=5,
                           dom=gr.diag_cod(base[0])))
    return {'d': base + [nxt], 'ops': draw(st.lists(st.tuples(
        st.sampled_from(['tensor', 'then', 'dag', 'rot', 'slice', 'rev',
                         'id', 'l', 'r', 'layer', 'partrev', 'tensor_ty',
                         'pack']),
        st.integers(0, 9), st.integers(0, 9), st.integers(-5, 6),
        st.integers(-5, 6)).map(list), min_size=1, max_size=5))}


def same_plain(D, m, what):
    got = gr.p_diag(D)
    expect(got == m, lambda: f'{what}: got {got}\nexpected {m}')
    why = gr.wellformed(got)
    expect(why is None, lambda: f'{what}: ill-typed result: {why}')


@check(P, 'algebra', algebra_case, quick=900, shards=3,
       rule='a program that composes or tensors, on >= 3 boxes')
def algebra(s, ctx):
    objs = [gr.mk_diag(d) for d in s['d']]
    mods = [gr.p_diag(o) for o in objs]
    start = [gr.p_diag(o) for o in objs]
    for m in mods:
        assert gr.wellformed(m) is None
    n_start = len(objs)
    for op, x, y, i, j in s['ops']:
        ctx.label(op)
        x, y = x % len(objs), y % len(objs)
        X, mx, Y, my = objs[x], mods[x], objs[y], mods[y]
        if len(mx['layers']) + len(my['layers']) > 30 \
                or len(mx['dom']) > 12:
            continue
        if op == 'tensor':
            R, m = X @ Y, m_tensor(mx, my)
            ctx.nontrivial(len(m['layers']) >= 3)
        elif op == 'pack':
            R, m = X.tensor(Y, X), m_tensor(m_tensor(mx, my), mx)
        elif op == 'tensor_ty':
            t = my['cod']
            R, m = X @ gr.mk_ty(t), m_tensor(mx, m_id(t))
            L = gr.mk_ty(t) @ X
            same_plain(L, m_tensor(m_id(t), mx), 'type @ diagram')
        elif op == 'then':
            if mx['cod'] == my['dom']:
                R, m = X >> Y, m_then(mx, my)
                ctx.nontrivial(len(m['layers']) >= 3)
            else:
                for f in (lambda: X >> Y, lambda: X.then(Y)):
                    try:
                        f()
                    except ValueError:
                        pass
                    else:
                        expect(False, f'composing {mx["cod"]} with '
                               f'{my["dom"]} did not raise')
                continue
        elif op == 'dag':
            R, m = X.dagger(), m_dag(mx)
            same_plain(R.dagger(), mx, 'double dagger')
        elif op == 'rot':
            z = i % 5 - 2
            R, m = X.rotate(z), m_rot(mx, z)
            same_plain(R.rotate(-z), mx, f'rotate({z}) then back')
            same_plain(X.rotate(z).rotate(1), m_rot(mx, z + 1),
                       f'rotate({z}).rotate(1)')
        elif op == 'l':
            R, m = X.l, m_rot(mx, -1)
        elif op == 'r':
            R, m = X.r, m_rot(mx, 1)
        elif op == 'id':
            R, m = G.Diagram.id(X.dom), m_id(mx['dom'])
            expect(R.is_id and not len(R), 'identity is not an identity')
            same_plain(R >> X, mx, 'id >> f')
            same_plain(X >> X.id(X.cod), mx, 'f >> id')
            same_plain(X @ X.id(), mx, 'f @ id()')
            same_plain(X.id() @ X, mx, 'id() @ f')
        elif op == 'slice':
            lo, hi, _ = slice(i, j).indices(len(mx['layers']))
            bs = bounds(mx)
            hi = max(lo, hi)
            R = X[i:j]
            m = {'dom': bs[lo], 'cod': bs[hi], 'layers': mx['layers'][lo:hi]}
            same_plain(X[:lo] >> X[lo:], mx, f'd[:{lo}] >> d[{lo}:]')
        elif op == 'layer':
            n = len(mx['layers'])
            if -n <= i < n:
                k = i % n
                R = X[i]
                m = {'dom': bounds(mx)[k], 'cod': bounds(mx)[k + 1],
                     'layers': [mx['layers'][k]]}
            else:
                try:
                    X[i]
                except IndexError:
                    pass
                else:
                    expect(False, f'd[{i}] of {n} layers did not raise')
                continue
        elif op == 'rev':
            R, m = X[::-1], m_dag(mx)
        else:
            start_, stop, _ = slice(i, j, -1).indices(len(mx['layers']))
            stop = min(start_, stop)
            bs = bounds(mx)
            R = X[i:j:-1]
            m = {'dom': bs[start_ + 1], 'cod': bs[stop + 1],
                 'layers': [[l, m_box_dag(b), r]
                            for l, b, r in mx['layers'][i:j:-1]]}
        same_plain(R, m, op)
        expect(R.offsets == [len(l) for l, _, _ in m['layers']]
               and len(R) == len(m['layers'])
               and [gr.p_box(b) for b in R.boxes]
               == [b for _, b, _ in m['layers']]
               and R.is_id == (not m['layers']), 'offsets/boxes/len')
        objs.append(R)
        mods.append(m)
    for k in range(n_start):
        expect(gr.p_diag(objs[k]) == start[k],
               'an operand was changed by an operation')
    for A, ma in zip(objs, mods):
        for cp in (copy.deepcopy(A), pickle.loads(pickle.dumps(A)),
                   fast_deepcopy(A)):
            same_plain(cp, ma, 'copy')
            expect(cp == A and hash(cp) == hash(A), 'copy is not equal')
        for B, mb in zip(objs, mods):
            if ma == mb:
                expect(A == B and hash(A) == hash(B),
                       lambda: f'equal diagrams compare different: {A!r}')
            else:
                expect(A != B, lambda: f'different diagrams compare equal: '
                       f'{ma} / {mb}')


# ---- semantics of the operations --------------------------------------

@st.composite
def sem_case(draw):
    f = draw(gr.diagrams(maxl=4, maxw=4, maxdom=2))
    g = draw(gr.diagrams(maxl=3, maxw=4, dom=gr.diag_cod(f)))
    h = draw(gr.diagrams(maxl=2, maxw=2, maxdom=1))
    return {'f': f, 'g': g, 'h': h, 'z': draw(st.integers(-3, 3)),
            'at': draw(st.integers(0, 4))}


def compose(tf, nf, tg):
    k = tf.ndim - nf
    return np.tensordot(tf, tg, axes=(list(range(nf, nf + k)),
                                      list(range(k))))


@check(P, 'semantics', sem_case, quick=700, shards=2,
       rule='>= 3 boxes in the composite')
def semantics(s, ctx):
    F, Gd, H = (gr.mk_diag(s[k]) for k in 'fgh')
    ctx.nontrivial(len(F) + len(Gd) + len(H) >= 3)
    tf, tg, th = (gr.semantics(gr.p_diag(x)) for x in (F, Gd, H))
    nf, ng, nh = len(F.dom), len(Gd.dom), len(H.dom)

    def is_(D, t, what):
        p = gr.p_diag(D)
        why = gr.wellformed(p)
        expect(why is None, lambda: f'{what}: {why}')
        expect(gr.same(gr.semantics(p), t),
               lambda: f'{what}: the meaning differs: {D!r}')

    is_(F >> Gd, compose(tf, nf, tg), 'f >> g')
    fh = np.multiply.outer(tf, th)
    o = tf.ndim
    perm = (list(range(nf)) + list(range(o, o + nh)) + list(range(nf, o))
            + list(range(o + nh, fh.ndim)))
    is_(F @ H, fh.transpose(perm), 'f @ h')
    perm = list(range(nf, o)) + list(range(nf))
    is_(F.dagger(), np.conj(tf.transpose(perm)), 'dagger')
    z = s['z']
    rot = tf
    if z % 2:
        rot = np.conj(tf.transpose(list(range(nf))[::-1]
                                   + list(range(nf, o))[::-1]))
    is_(F.rotate(z), rot, f'rotate({z})')
    # interchange law: (f @ 1) >> (1 @ h) = (1 @ h) >> (f @ 1)
    i1 = (F @ H.dom) >> (F.cod @ H)
    i2 = (F.dom @ H) >> (F @ H.cod)
    expect(gr.same(gr.semantics(gr.p_diag(i1)),
                   gr.semantics(gr.p_diag(i2))), 'interchange law')
    # h applied at an index of the codomain of f
    at = s['at'] % (len(F.cod) + 1)
    D = gr.mk_diag({'dom': gr.p_ty(F.cod[at:]), 'layers': []})
    E = F.then_at(G.Box('k', F.cod[at:at + 2], G.Ty('p')), at)
    want = F >> (G.Diagram.id(F.cod[:at])
                 @ G.Box('k', F.cod[at:at + 2], G.Ty('p'))
                 @ G.Diagram.id(F.cod[at + 2:]))
    expect(gr.p_diag(E) == gr.p_diag(want), 'then_at')
    # the transpose bends all wires: left and right transposes
    if tf.size > 150:
        return
    for left in (False, True):
        T = F.transpose(left=left)
        full = list(range(nf, o))[::-1] + list(range(nf))[::-1]
        is_(T, tf.transpose(full), f'transpose(left={left})')
        zz = -1 if left else 1
        expect(T.dom == F.cod.rotate(zz) and T.cod == F.dom.rotate(zz),
               'type of the transpose')
