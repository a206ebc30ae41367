"""R02: rewriters of whole diagrams."""
import numpy as np
from hypothesis import strategies as st

from lambeq import rewrite as R
from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.r01 import plain_boxes

P = 'R02'
prop(P, ['the meaning of a diagram is its tensor with self-dual wires'])


# ---- removal of cups -----------------------------------------------------

@st.composite
def cup_case(draw):
    """Words, cups and other boxes; half of them planar sentences."""
    if draw(st.booleans()):
        d = {'dom': [], 'layers': []}
        wires = []
        for _ in range(draw(st.integers(1, 4))):
            cod = draw(gr.types(1, 3, names='ns', zs=(0, 0, 1, -1)))
            if wires and draw(st.integers(0, 2)):
                # make it contract with what is there
                k = draw(st.integers(1, min(3, len(wires))))
                cod = gr.rot_ty(wires[-k:], 1) + cod[:1]
            if len(wires) + len(cod) > 8:
                break
            b = {'k': 'word', 'n': draw(st.sampled_from('uvw')), 'cod': cod,
                 'z': 0}
            d['layers'].append([len(wires), b])
            wires += cod
    else:
        d = draw(gr.diagrams(kinds=('word', 'word', 'box', 'cup'), maxw=6,
                             maxl=3, maxdom=2, names='ns',
                             zs=(0, 0, 1, -1)))
    wires = gr.diag_cod(d)
    kinds = draw(st.sampled_from([('cup',), ('cup', 'cup', 'cup', 'box',
                                             'swap', 'word')]))
    for _ in range(draw(st.integers(1, 6))):
        cups = [i for i in range(len(wires) - 1)
                if wires[i][0] == wires[i + 1][0]
                and abs(wires[i][1] - wires[i + 1][1]) == 1]
        if not wires or (kinds == ('cup',) and not cups):
            break
        off, b = draw(gr.box_at(wires, kinds=kinds, names='ns', maxw=8,
                                zs=(0, 0, 1, -1)))
        d['layers'].append([off, b])
        wires[off:off + len(gr.box_dom(b))] = gr.box_cod(b)
    return {'d': d, 'list': draw(st.booleans())}


def ncups(p):
    return sum(b['cls'] == 'Cup' for _, b, _ in p['layers'])


@check(P, 'remove_cups', cup_case, quick=1500, shards=4,
       rule='>= 2 cups, at least one of which is removed')
def remove_cups(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    rw = R.RemoveCupsRewriter()
    W, = rw([D]) if s['list'] else [rw(D)]
    expect(gr.p_diag(D) == p, 'the rewriter changed its argument')
    q = gr.p_diag(W)
    ctx.nontrivial(ncups(p) > 1 and ncups(q) < ncups(p))
    why = gr.wellformed(q)
    expect(why is None, lambda: f'{D!r} becomes {W!r}: {why}')
    expect(q['dom'] == p['dom'] and q['cod'] == p['cod'],
           lambda: f'{D!r} becomes {W!r}: another type')
    expect(gr.same(gr.semantics(q), gr.semantics(p)),
           lambda: f'{D!r} becomes {W!r}, which means something else')
    expect(ncups(q) <= ncups(p), lambda: f'{D!r} gets more cups: {W!r}')
    expect(sorted((b['name'], b['cls']) for b in plain_boxes(q))
           == sorted((b['name'], b['cls']) for b in plain_boxes(p)),
           'boxes are lost or added')
    expect(gr.p_diag(rw(D)) == q, 'second application')


# ---- codomain -----------------------------------------------------------

@st.composite
def cod_case(draw):
    return {'ds': draw(st.lists(gr.diagrams(maxl=3, maxw=4), min_size=1,
                                max_size=3)),
            'out': draw(st.one_of(st.none(), gr.types(0, 2)))}


@check(P, 'unify', cod_case, quick=500, shards=1,
       rule='a diagram that needs a box and one that does not, or a given '
       'output type')
def unify(s, ctx):
    out = [['s', 0]] if s['out'] is None else s['out']
    rw = R.UnifyCodomainRewriter() if s['out'] is None \
        else R.UnifyCodomainRewriter(gr.mk_ty(out))
    Ds = [gr.mk_diag(d) for d in s['ds']]
    ps = [gr.p_diag(D) for D in Ds]
    ctx.nontrivial(s['out'] is not None or len({p['cod'] == out
                                                for p in ps}) > 1)
    Ws = rw(Ds)
    expect(isinstance(Ws, list) and len(Ws) == len(Ds), 'a list is returned')
    for D, p, W in zip(Ds, ps, Ws):
        q = gr.p_diag(W)
        expect(gr.p_diag(D) == p, 'argument changed')
        expect(gr.p_diag(rw(D)) == q, 'one by one')
        expect(q['cod'] == out and q['dom'] == p['dom'],
               lambda: f'{D!r} becomes {W!r}')
        expect(gr.wellformed(q) is None, lambda: f'{W!r} is ill-formed')
        if p['cod'] == out:
            expect(q == p, lambda: f'{D!r} becomes {W!r}')
        else:
            expect(q['layers'][:-1] == p['layers'], 'layers')
            b = q['layers'][-1][1]
            expect(b['dom'] == p['cod'] and b['cod'] == out,
                   lambda: f'{b} is added')
    # the box only depends on the codomain
    names = {}
    for p, W in zip(ps, Ws):
        if p['cod'] != out:
            k = repr(p['cod'])
            expect(names.setdefault(k, W.boxes[-1]) == W.boxes[-1],
                   'two boxes for one codomain')
    expect(len({b.name for b in names.values()}) == len(names),
           'one name for two codomains')


# ---- removal of swaps ----------------------------------------------------

@st.composite
def swap_case(draw):
    words, wires = [], []
    for i in range(draw(st.integers(1, 5))):
        cod = draw(gr.types(1, 3, names='ns', zs=(0, 0, 1, -1)))
        if len(wires) + len(cod) > 10:
            break
        words.append({'k': 'word', 'n': f'w{i}', 'cod': cod, 'z': 0})
        wires += cod
    d = {'dom': [], 'layers': []}
    off = 0
    for b in words:
        d['layers'].append([off, b])
        off += len(b['cod'])
    for _ in range(draw(st.integers(0, 8))):
        if len(wires) < 2:
            break
        off, b = draw(gr.box_at(wires, kinds=('cup', 'cup', 'swap'),
                                names='ns'))
        d['layers'].append([off, b])
        wires[off:off + 2] = gr.box_cod(b)
    return {'d': d}


def expected(d):
    """Words and links after swapping types and dropping detached cups."""
    words, types, owner = [], [], []
    scan = []
    links = []
    for off, b in d['layers']:
        if b['k'] == 'word':
            owner += [len(words)] * len(b['cod'])
            words.append(b['n'])
            types += b['cod']
            scan = list(range(len(types)))
        elif b['k'] == 'swap':
            i, j = scan[off:off + 2]
            types[i], types[j] = types[j], types[i]
        else:
            links.append((scan[off], scan[off + 1]))
            del scan[off:off + 2]
    inner = {x for i, j in links if owner[i] == owner[j] for x in (i, j)}
    return words, types, owner, links, inner, scan


@check(P, 'remove_swaps', swap_case, quick=1500, shards=3,
       rule='>= 1 swap and >= 1 cup')
def remove_swaps(s, ctx):
    d = s['d']
    D = gr.mk_diag(d)
    ks = [b['k'] for _, b in d['layers']]
    words, types, owner, links, inner, out = expected(d)
    ctx.nontrivial('swap' in ks and 'cup' in ks)
    W = R.RemoveSwapsRewriter()(D)
    q = gr.p_diag(W)
    why = gr.wellformed(q)
    expect(why is None, lambda: f'{D!r} becomes {W!r}: {why}')
    expect({b['cls'] for _, b, _ in q['layers']} <= {'Word', 'Cup'},
           lambda: f'{D!r} becomes {W!r}')
    expect(q['cod'] == [types[i] for i in out] == gr.p_diag(D)['cod'],
           lambda: f'the codomain of {D!r} becomes {q["cod"]}')
    # merged words
    want, label = [], []
    for w, nm in enumerate(words):
        label.append(nm)
        left = [i for i in range(len(types)) if owner[i] == w
                and i not in inner]
        if left:
            want.append([' '.join(label), left])
            label = []
    if label and want:
        want[-1][0] += ' ' + ' '.join(label)
    elif label:
        # nothing to merge with: the last word keeps its cups
        left = [i for i in range(len(types))
                if owner[i] == len(words) - 1]
        want.append([' '.join(label), left])
        inner -= set(left)
    got = [[b['name'], b['cod']] for _, b, _ in q['layers']
           if b['cls'] == 'Word']
    expect([x[0] for x in got] == [x[0] for x in want]
           and [x[1] for x in got] == [[types[i] for i in x[1]]
                                       for x in want],
           lambda: f'{D!r} becomes {W!r}: expected the words {want}')
    pos = [i for x in want for i in x[1]]
    scan = list(range(len(pos)))
    cups = []
    for l, b, _ in q['layers']:
        if b['cls'] == 'Cup':
            i, j = scan[len(l)], scan[len(l) + 1]
            cups.append((pos[i], pos[j]))
            del scan[len(l):len(l) + 2]
    expect(sorted(cups) == sorted(x for x in links if x[0] not in inner),
           lambda: f'{D!r} becomes {W!r}: other words are linked')
