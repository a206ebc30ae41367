"""G03: functors are strict monoidal functors that respect the structure."""
import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'G03'
prop(P, ['images of generators are given by the test; the reference is '
         'the tensor meaning of the source diagram computed with the '
         'meanings of those images'])

TARGET = 'abc'


@st.composite
def functor_case(draw):
    ob = {n: draw(gr.types(0, 2, names=TARGET,
                           zs=(0, 0, 1, -1))) for n in 'nsp'}
    f = draw(gr.diagrams(maxl=4, maxw=4, maxdom=2))
    g = draw(gr.diagrams(maxl=3, maxw=4, dom=gr.diag_cod(f)))
    h = draw(gr.diagrams(maxl=2, maxw=2, maxdom=1))
    return {'ob': ob, 'style': draw(st.dictionaries(
        st.sampled_from(['f', 'g', 'h', 'w', 'v']), st.integers(0, 6))),
        'f': f, 'g': g, 'h': h, 'z': draw(st.integers(-2, 2))}


def ob_of(s, t):
    out = []
    for n, z in t:
        out += gr.rot_ty(s['ob'][n], z)
    return out


def image(s, name, dom, cod, cls):
    """Image of an unrotated generator, with the given target types."""
    D, C = gr.mk_ty(dom), gr.mk_ty(cod)
    style = s['style'].get(name, 0)
    nm = f'F{cls}{name}'
    if style == 0:
        return G.Box(nm, D, C)
    if style == 1:
        M = G.Ty('b')
        return G.Box(nm + '1', D, M) >> G.Box(nm + '2', M, C)
    if style == 2:
        perm = list(range(len(cod)))[::-1]
        B = G.Box(nm, D, G.Ty().tensor(gr.mk_ty([cod[i]]) for i in perm))
        return B.to_diagram().permuted(perm)
    if style == 3:
        return G.Box(nm, C, D).dagger()
    if style == 4:
        return G.Box(nm, D.l, C.l).r
    if style == 5:
        if not dom and cod:
            return G.Word(nm, C)
        return G.Box(nm, D, C)
    a = G.Ty('a')
    return (G.Diagram.id(D) @ G.Cap(a, a.l)
            >> G.Box(nm, D @ a @ a.l, C))


def mk_functor(s, bad=False):
    def ob(F, t):
        assert isinstance(F, G.Functor)
        return gr.mk_ty(s['ob'][t.name])

    def ar(F, b):
        cls = type(b).__name__
        return image(s, b.name, ob_of(s, gr.p_ty(b.dom)),
                     ob_of(s, gr.p_ty(b.cod)), cls)
    return G.Functor(G.grammar, ob, ar)


def meaning(s, p):
    """Reference meaning of F(p), from p and the images only."""
    def val(n):
        ds = []
        for a, z in s['ob'][n]:
            ds.append(gr.DIMS.get(a, 2))
        return ds

    def table(b, shape):
        img = image(s, b['name'], ob_of(s, b['dom']), ob_of(s, b['cod']),
                    b['cls'])
        return gr.semantics(gr.p_diag(img.to_diagram()))
    return gr.semantics(p, val, table)


@check(P, 'laws', functor_case, quick=900, shards=3,
       rule='>= 3 boxes, some generator mapped to several wires or to none')
def laws(s, ctx):
    F = mk_functor(s)
    f, g, h = (gr.mk_diag(s[k]) for k in 'fgh')
    ctx.nontrivial(len(f) + len(g) + len(h) >= 3
                   and any(len(t) != 1 for t in s['ob'].values()))
    imgs = []
    for D in (f, g, h, f.dagger(), f.rotate(s['z'])):
        p = gr.p_diag(D)
        R = F(D)
        q = gr.p_diag(R)
        why = gr.wellformed(q)
        expect(why is None, lambda: f'image of {D!r}: {why}')
        expect(q['dom'] == ob_of(s, p['dom'])
               and q['cod'] == ob_of(s, p['cod']),
               lambda: f'type of the image of {D!r}: {R.dom!r} -> {R.cod!r}')
        expect(gr.p_ty(F(D.dom)) == q['dom']
               and gr.p_ty(F(D.cod)) == q['cod'], 'action on types')
        expect(gr.same(gr.semantics(q), meaning(s, p)),
               lambda: f'the image of {D!r} means something else: {R!r}')
        imgs.append(q)
        again = F(D)
        expect(gr.p_diag(again) == q, 'second application differs')
        # what is done to a result must not leak into the next one
        again.layers.clear()
        expect(gr.p_diag(F(D)) == q, 'a result shares state with the cache')
        expect(gr.p_diag(mk_functor(s)(D)) == q,
               'a fresh functor gives another image')
    expect(gr.p_diag(F(f >> g)) == gr.p_diag(F(f) >> F(g)), 'F(f >> g)')
    expect(gr.p_diag(F(f @ h)) == gr.p_diag(F(f) @ F(h)), 'F(f @ h)')
    i = G.Diagram.id(f.dom)
    expect(gr.p_diag(F(i)) == {'dom': imgs[0]['dom'],
                               'cod': imgs[0]['dom'], 'layers': []},
           'F(id)')
    for b in (f >> g).boxes:
        R = F(b).to_diagram()
        expect(gr.same(gr.semantics(gr.p_diag(R)),
                       meaning(s, gr.p_diag(b.to_diagram()))),
               lambda: f'image of the box {b!r}')


@st.composite
def bad_case(draw):
    return {'dom': draw(gr.types(0, 2)), 'cod': draw(gr.types(0, 2)),
            'dom2': draw(gr.types(0, 2)), 'cod2': draw(gr.types(0, 2)),
            'n': draw(st.integers(2, 3)), 'z': draw(st.integers(-1, 1)),
            'dag': draw(st.booleans()), 'in': draw(st.booleans())}


@check(P, 'illtyped', bad_case, quick=400, shards=1,
       rule='the given image of the generator has the wrong type')
def illtyped(s, ctx):
    """An image of the wrong type is refused, every time."""
    def ar(F, b):
        return G.Box('k', gr.mk_ty(s['dom2']), gr.mk_ty(s['cod2']))
    F = G.Functor(G.grammar, lambda _, t: t, ar)
    b = G.Box('f', gr.mk_ty(s['dom']), gr.mk_ty(s['cod'])).rotate(s['z'])
    if s['dag']:
        b = b.dagger()
    x = G.Diagram.id(b.dom) >> b if s['in'] else b
    ok = s['dom'] == s['dom2'] and s['cod'] == s['cod2']
    ctx.nontrivial(not ok)
    for i in range(s['n']):
        try:
            r = F(x)
        except TypeError:
            expect(not ok, 'a well-typed image was refused')
        except ValueError:
            # composition can notice first
            expect(not ok and s['in'], 'a well-typed image was refused')
        else:
            expect(ok, lambda: f'application {i + 1} accepted an image '
                   f'{r.dom!r} -> {r.cod!r} of {b!r}')
