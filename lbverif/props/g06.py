"""G06: pregroup diagrams from words and a list of cups and swaps."""
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'G06'
prop(P, ['swaps are generated between wires of one type only: the meaning '
         'of the indices after a swap of different types is not documented'])


@st.composite
def pregroup_case(draw):
    """Random planar reductions: build the wire list from a matching."""
    # a random sequence of open/close/free wires with a stack
    n = draw(st.integers(1, 9))
    wires, stack, pairs = [], [], []
    for _ in range(n):
        if stack and draw(st.booleans()):
            i = stack.pop()
            t = wires[i]
            pairs.append([i, len(wires)])
            wires.append([t[0], t[1] + 1])
        else:
            stack.append(len(wires))
            wires.append(draw(gr.atoms('ns', zs=(0, 0, -1, 1))))
    # a pair can only be contracted once everything inside is contracted
    left = list(pairs)
    order = []
    while left:
        ready = [p for p in left
                 if all(any(k in q for q in order)
                        for k in range(p[0] + 1, p[1]))]
        if not ready:
            break
        p = draw(st.sampled_from(ready))
        order.append(p)
        left.remove(p)
    cuts = sorted(draw(st.sets(st.integers(1, max(1, len(wires) - 1)),
                               max_size=3)))
    cuts = [c for c in cuts if c < len(wires)]
    words = [wires[a:b] for a, b in zip([0] + cuts, cuts + [len(wires)])]
    swaps = draw(st.lists(st.integers(0, 8), max_size=2))
    return {'words': words, 'cups': order, 'swaps': swaps}


@check(P, 'create', pregroup_case, quick=1500, shards=3,
       rule='>= 2 cups, at least one not at the left end')
def create(s, ctx):
    words = [G.Word(f'w{i}', gr.mk_ty(t)) for i, t in enumerate(s['words'])]
    wires = sum(s['words'], [])
    # swaps of neighbouring wires of equal type come first, then the cups
    morphs, label = [], list(range(len(wires)))
    for k in s['swaps']:
        if k + 1 < len(wires) and wires[k] == wires[k + 1]:
            morphs.append((G.Swap, k, k + 1))
            label[k], label[k + 1] = label[k + 1], label[k]
    ctx.label('swap' if morphs else 'no swap')
    cups = [tuple(c) for c in s['cups']]
    morphs += [(G.Cup, a, b) for a, b in cups]
    ctx.nontrivial(len(cups) > 1 and max(c[0] for c in cups) > 0)
    D = G.Diagram.create_pregroup_diagram(words, morphs)
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'ill-typed: {why}')
    free = [i for i in range(len(wires)) if all(i not in c for c in cups)]
    expect(p['dom'] == [] and p['cod'] == [wires[i] for i in free],
           lambda: f'the open wires are {p["cod"]}, expected '
           f'{[wires[i] for i in free]}')
    names = [b['name'] for _, b, _ in p['layers'] if b['cls'] == 'Word']
    expect(names == [f'w{i}' for i in range(len(words))], 'word order')
    expect(len(p['layers']) == len(words) + len(morphs), 'layers')
    expect(D.is_pregroup, 'the result is not a pregroup diagram')
    # meaning: follow which word wires meet in each cup
    cur = []
    met = set()
    for l, b, r in p['layers']:
        o = len(l)
        if b['cls'] == 'Word':
            k = int(b['name'][1:])
            base = sum(len(w) for w in s['words'][:k])
            cur[o:o] = range(base, base + len(b['cod']))
        elif b['cls'] == 'Swap':
            cur[o], cur[o + 1] = cur[o + 1], cur[o]
        else:
            met.add((cur[o], cur[o + 1]))
            del cur[o:o + 2]
    expect(met == {(label[a], label[b]) for a, b in cups},
           lambda: f'cups join {sorted(met)}, asked for {cups}')
    expect(cur == [label[i] for i in free], 'open wires')


@st.composite
def is_case(draw):
    d = draw(gr.diagrams(kinds=('word', 'word', 'word', 'cup', 'cup',
                                'swap', 'cap', 'box'),
                         maxl=5, maxw=6,
                         dom=draw(st.sampled_from([[], [], [],
                                                   [['n', 0]]]))))
    return {'d': d}


@check(P, 'is_pregroup', is_case, quick=800, shards=1,
       rule='a diagram of >= 3 boxes with words and other boxes')
def is_pregroup(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    cls = [b['cls'] for _, b, _ in p['layers']]
    ctx.nontrivial(len(cls) >= 3 and len(set(cls)) > 1)
    k = 0
    while k < len(cls) and cls[k] == 'Word':
        k += 1
    want = (not p['dom'] and all(c in ('Cup', 'Swap') for c in cls[k:])
            and all(not r for _, _, r in p['layers'][:k]))
    ctx.label(str(want))
    expect(bool(D.is_pregroup) == want,
           lambda: f'is_pregroup is {D.is_pregroup}, expected {want}: {D!r}')
