"""G05: cups, caps, swaps, spiders, permutations, currying on any type."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import Skip, check, expect, prop

P = 'G05'
prop(P, ['the meaning of a diagram is its tensor with self-dual wires; '
         'atoms have dimensions 2 (n, p) and 3 (s)'])


@st.composite
def struct_case(draw):
    a = draw(gr.types(0, 3))
    b = draw(gr.types(0, 3))
    return {'a': a, 'b': b, 'rev': draw(st.booleans()),
            'i': draw(st.integers(0, 3)), 'o': draw(st.integers(0, 3)),
            'z': draw(st.integers(-2, 2)), 'bad': draw(gr.types(0, 3))}


def boxes_ok(p, allowed):
    return all(b['cls'] in allowed for _, b, _ in p['layers'])


def is_(D, dom, cod, t, what, allowed=None):
    D = D.to_diagram()
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'{what}: {why}')
    expect(p['dom'] == dom and p['cod'] == cod,
           lambda: f'{what}: {p["dom"]} -> {p["cod"]}, expected '
           f'{dom} -> {cod}')
    if allowed:
        expect(boxes_ok(p, allowed), lambda: f'{what} is built from {p}')
    if t is not None:
        expect(gr.same(gr.semantics(p), t),
               lambda: f'{what} means something else: {D!r}')


def dims(t):
    return gr.wires_of(t, gr.std_val)


def block_swap(da, db):
    t = np.eye(int(np.prod(da + db, dtype=int))).reshape(da + db + da + db)
    n, k = len(da + db), len(da)
    return t.transpose(list(range(n)) + list(range(n + k, 2 * n))
                       + list(range(n, n + k)))


@check(P, 'cups_caps', struct_case, quick=700, shards=2,
       rule='a type of >= 2 wires')
def cups_caps(s, ctx):
    a, rev = s['a'], s['rev']
    A = gr.mk_ty(a)
    ctx.nontrivial(len(a) > 1)
    d = dims(a)
    pairs = gr.nested_pairs(d)
    ar, al = gr.rot_ty(a, 1), gr.rot_ty(a, -1)
    # plain cup: a @ a.r -> 1, reversed: a @ a.l -> 1
    R = gr.mk_ty(al if rev else ar)
    is_(G.Cup(A, R, rev), a + gr.p_ty(R), [], pairs, 'cup', {'Cup'})
    is_(G.Diagram.cups(A, R, rev), a + gr.p_ty(R), [], pairs, 'cups',
        {'Cup'})
    is_(G.Cup.to_right(A, rev), a + gr.p_ty(R), [], pairs, 'Cup.to_right')
    L = gr.mk_ty(ar if rev else al)
    is_(G.Cup.to_left(A, rev), gr.p_ty(L) + a, [],
        gr.nested_pairs(dims(gr.p_ty(L))), 'Cup.to_left')
    # plain cap: 1 -> a @ a.l, reversed: 1 -> a @ a.r
    K = gr.mk_ty(ar if rev else al)
    is_(G.Cap(A, K, rev), [], a + gr.p_ty(K), pairs, 'cap', {'Cap'})
    is_(G.Diagram.caps(A, K, rev), [], a + gr.p_ty(K), pairs, 'caps',
        {'Cap'})
    is_(G.Cap.to_right(A, rev), [], a + gr.p_ty(K), pairs, 'Cap.to_right')
    J = gr.mk_ty(al if rev else ar)
    is_(G.Cap.to_left(A, rev), [], gr.p_ty(J) + a,
        gr.nested_pairs(dims(gr.p_ty(J))), 'Cap.to_left')
    z = s['z']
    for X, dom, cod in ((G.Cup(A, R, rev), a + gr.p_ty(R), []),
                        (G.Cap(A, K, rev), [], a + gr.p_ty(K))):
        X = X.to_diagram()
        tot = gr.rot_ty(dom + cod, z)
        is_(X.rotate(z), gr.rot_ty(dom, z), gr.rot_ty(cod, z),
            gr.nested_pairs(dims(tot[:len(tot) // 2])), 'rotated cup/cap',
            {'Cup', 'Cap'})
        is_(X.dagger(), cod, dom, pairs, 'dagger of a cup/cap',
            {'Cup', 'Cap'})
    # only adjoint types are accepted
    B = gr.mk_ty(s['bad'])
    for f, good in ((lambda: G.Cup(A, B), s['bad'] == ar),
                    (lambda: G.Cup(A, B, True), s['bad'] == al),
                    (lambda: G.Cap(A, B), s['bad'] == al),
                    (lambda: G.Cap(A, B, True), s['bad'] == ar)):
        try:
            f()
            ok = True
        except ValueError:
            ok = False
        expect(ok == good, lambda: f'cup/cap on {A!r}, {B!r}: '
               f'accepted={ok}, should be {good}')
    # snake equations, straightened by remove_snakes too
    if len(a) and np.prod(d) < 20:
        eye = np.eye(int(np.prod(d))).reshape(d + d)
        s1 = G.Cap(A, A.l) @ A >> A @ G.Cup(A.l, A)
        s2 = A @ G.Cap(A.r, A) >> G.Cup(A, A.r) @ A
        for S in (s1, s2):
            is_(S, a, a, eye, 'snake')
            is_(S.remove_snakes(), a, a, eye, 'straightened snake')
            expect(S.remove_snakes().is_id, 'the snake was not straightened')


@check(P, 'swaps_spiders', struct_case, quick=700, shards=2,
       rule='a type of >= 2 wires, or a spider with >= 3 legs')
def swaps_spiders(s, ctx):
    a, b = s['a'], s['b']
    A, B = gr.mk_ty(a), gr.mk_ty(b)
    i, o = s['i'], s['o']
    ctx.nontrivial(len(a) > 1 or i + o >= 3)
    da, db = dims(a), dims(b)
    if np.prod(da + db) <= 200:
        t = block_swap(da, db)
        is_(G.Swap(A, B), a + b, b + a, t, 'swap', {'Swap'})
        is_(G.Diagram.swap(A, B), a + b, b + a, t, 'Diagram.swap', {'Swap'})
        is_(G.Swap(A, B).to_diagram().dagger(), b + a, a + b,
            block_swap(db, da), 'dagger of a swap', {'Swap'})
        is_(G.Swap(A, B).to_diagram().r, gr.rot_ty(a + b, 1),
            gr.rot_ty(b + a, 1),
            block_swap(db[::-1], da[::-1]), 'rotated swap')
    if i + o and a and np.prod(da) ** (i + o) <= 3000:
        k = len(a)
        t = np.array(1.0)
        for d in da:
            t = np.multiply.outer(t, gr.delta(i + o, d))
        t = t.transpose([c * (i + o) + leg for leg in range(i + o)
                         for c in range(k)])
        S = G.Spider(A, i, o)
        is_(S, a * i, a * o, t, f'spider({A!r}, {i}, {o})',
            {'Spider', 'Swap'})
        S = S.to_diagram()
        is_(S.dagger(), a * o, a * i,
            t.transpose(list(range(k * i, t.ndim)) + list(range(k * i))),
            'dagger of a spider')
        # fusion
        if i and np.prod(da) ** (i + o) <= 600:
            f = G.Spider(A, 2, 1) @ A ** (i - 1) >> S
            if np.prod(da) ** (i + 1 + o) <= 3000:
                is_(f, a * (i + 1), a * o, gr.semantics(gr.p_diag(
                    G.Spider(A, i + 1, o).to_diagram())), 'fused spider')


@st.composite
def perm_case(draw):
    t = draw(gr.types(0, 6, names='np'))
    p = draw(st.permutations(range(len(t))))
    q = draw(st.permutations(range(len(t))))
    return {'t': t, 'p': list(p), 'q': list(q),
            'bad': draw(st.lists(st.integers(-1, 5), max_size=5))}


@check(P, 'permutation', perm_case, quick=500, shards=1,
       rule='a permutation that is not the identity, of >= 3 wires')
def permutation(s, ctx):
    t, p, q = s['t'], s['p'], s['q']
    T = gr.mk_ty(t)
    ctx.nontrivial(len(t) > 2 and p != sorted(p))
    d = dims(t)
    eye = np.eye(int(np.prod(d, dtype=int))).reshape(d + d)

    def ten(p):
        n = len(p)
        return eye.transpose(list(range(n)) + [n + k for k in p])
    is_(G.Diagram.permutation(T, p), t, [t[k] for k in p], ten(p),
        f'permutation {p}', {'Swap'})
    D = G.Diagram.id(T).permuted(p).permuted(q)
    pq = [p[k] for k in q]
    is_(D, t, [t[k] for k in pq], ten(pq), f'permuted {p} then {q}')
    bad = s['bad']
    try:
        G.Diagram.permutation(T, bad)
        ok = True
    except ValueError:
        ok = False
    expect(ok == (sorted(bad) == list(range(len(t)))),
           f'permutation {bad} of {len(t)} wires: accepted={ok}')


@st.composite
def curry_case(draw):
    d = draw(gr.diagrams(maxl=3, maxw=4, maxdom=3))
    return {'d': d, 'n': draw(st.integers(1, 3)), 'left': draw(st.booleans()),
            'x': draw(gr.types(0, 2)), 'y': draw(gr.types(0, 2)),
            'w': draw(gr.types(0, 2))}


@check(P, 'curry', curry_case, quick=600, shards=2,
       rule='>= 2 wires are bent, or a diagram of >= 2 boxes')
def curry(s, ctx):
    D = gr.mk_diag(s['d'])
    if len(D.dom) == 0:
        ctx.label('closed')
        n = 0
    n = min(s['n'], len(D.dom))
    if n:
        p = gr.p_diag(D)
        t = gr.semantics(p)
        if t.size > 1500:
            raise Skip
        k = len(p['dom'])
        ctx.nontrivial(n > 1 or len(D) > 1)
        C = D.curry(n, s['left'])
        if s['left']:
            ex = p['dom'][k - n:]
            perm = (list(range(k - n)) + list(range(k, t.ndim))
                    + list(range(k - n, k))[::-1])
            is_(C, p['dom'][:k - n], p['cod'] + gr.rot_ty(ex, -1),
                t.transpose(perm), f'curry({n}, left)')
            E = gr.mk_ty(ex)
            U = C @ E >> D.cod @ G.Cup(E.l, E)
        else:
            ex = p['dom'][:n]
            perm = (list(range(n, k)) + list(range(n))[::-1]
                    + list(range(k, t.ndim)))
            is_(C, p['dom'][n:], gr.rot_ty(ex, 1) + p['cod'],
                t.transpose(perm), f'curry({n}, right)')
            E = gr.mk_ty(ex)
            U = E @ C >> G.Cup(E, E.r) @ D.cod
        is_(U, p['dom'], p['cod'], t, 'uncurried')
    # the categorial combinators
    x, y, w = s['x'], s['y'], s['w']
    X, Y, W = map(gr.mk_ty, (x, y, w))
    if np.prod(dims(x + y + w)) > 60:
        return
    idx, idy, idw = (np.eye(int(np.prod(dims(q), dtype=int))).reshape(
        dims(q) + dims(q)) for q in (x, y, w))

    def L(q):
        return gr.rot_ty(q, -1)

    def R(q):
        return gr.rot_ty(q, 1)
    Dg = G.Diagram

    def tens(*parts):
        """parts: (tensor, number of inputs); juxtaposition."""
        t, ins, outs, o = np.array(1.0), [], [], 0
        for m, k in parts:
            t = np.multiply.outer(t, m)
            ins += range(o, o + k)
            outs += range(o + k, o + m.ndim)
            o += m.ndim
        return t.transpose(ins + outs)
    cup = {k: (gr.nested_pairs(dims(k_)), 2 * len(k_))
           for k, k_ in (('y', y), ('yl', L(y)))}
    ix, iw = (idx, len(x)), (idw, len(w))
    is_(Dg.fa(X, Y), x + L(y) + y, x, tens(ix, cup['yl']), 'fa', {'Cup'})
    is_(Dg.ba(Y, X), y + R(y) + x, x, tens(cup['y'], ix), 'ba', {'Cup'})
    lw = (np.eye(int(np.prod(dims(w), dtype=int))).reshape(
        dims(L(w)) + dims(L(w))), len(w))
    rx = (np.eye(int(np.prod(dims(x), dtype=int))).reshape(
        dims(R(x)) + dims(R(x))), len(x))
    is_(Dg.fc(X, Y, W), x + L(y) + y + L(w), x + L(w),
        tens(ix, cup['yl'], lw), 'fc', {'Cup'})
    is_(Dg.bc(X, Y, W), R(x) + y + R(y) + w, R(x) + w,
        tens(rx, cup['y'], iw), 'bc', {'Cup'})
    # crossed composition: the two functors' results pass each other
    F = Dg.fx(X, Y, W)
    is_(F, x + L(y) + R(w) + y, R(w) + x, None, 'fx', {'Cup', 'Swap'})
    dw = dims(R(w))
    iw_ = np.eye(int(np.prod(dw, dtype=int))).reshape(dw + dw)
    # x, y.l, w.r, y -> w.r, x
    t = np.array(1.0)
    nx, ny, nw = len(x), len(y), len(w)
    t = np.multiply.outer(np.multiply.outer(idx, cup['yl'][0]), iw_)
    ax = list(range(2 * nx))
    ay = list(range(2 * nx, 2 * nx + 2 * ny))
    aw = list(range(2 * nx + 2 * ny, t.ndim))
    is_(F, x + L(y) + R(w) + y, R(w) + x, t.transpose(
        ax[:nx] + ay[:ny] + aw[:nw] + ay[ny:] + aw[nw:] + ax[nx:]), 'fx')
    B = Dg.bx(X, Y, W)
    # y, x.l, y.r, w -> w, x.l
    dx = dims(L(x))
    ix_ = np.eye(int(np.prod(dx, dtype=int))).reshape(dx + dx)
    t = np.multiply.outer(np.multiply.outer(ix_, cup['y'][0]), idw)
    ax = list(range(2 * nx))
    ay = list(range(2 * nx, 2 * nx + 2 * ny))
    aw = list(range(2 * nx + 2 * ny, t.ndim))
    is_(B, y + L(x) + R(y) + w, w + L(x), t.transpose(
        ay[:ny] + ax[:nx] + ay[ny:] + aw[:nw] + aw[nw:] + ax[nx:]), 'bx',
        {'Cup', 'Swap'})
