"""G04: snake removal and normal forms are sound and complete."""
import collections

from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'G04'
prop(P, ['wires of the reference semantics are self-dual, so every cup/cap '
         'equation holds in it'])

SNAKY = ('cap',) * 4 + ('cup',) * 12 + ('box', 'word', 'spider', 'swap')


@st.composite
def yank_case(draw):
    """A planar diagram in which caps are later met by cups."""
    d = draw(gr.diagrams(kinds=SNAKY, minl=3, maxl=11, maxw=6, maxdom=3,
                         names=draw(st.sampled_from(['n', 'np'])),
                         zs=(0, 0, 1, -1)))
    return {'d': d, 'left': draw(st.booleans())}


def trace_wire(layers, i, j):
    """Where output wire j of layer i goes: (layer, input position)."""
    for k in range(i + 1, len(layers)):
        l, b, r = layers[k]
        o, n, c = len(l), len(b['dom']), len(b['cod'])
        if j < o:
            continue
        if j < o + n:
            return k, j - o
        j += c - n
    return None, None


def snakes(p):
    """Cap/cup pairs that the snake equation removes."""
    out = []
    for i, (l, b, r) in enumerate(p['layers']):
        if b['cls'] != 'Cap':
            continue
        for leg in (0, 1):
            k, pos = trace_wire(p['layers'], i, len(l) + leg)
            if k is None or p['layers'][k][1]['cls'] != 'Cup':
                continue
            # the cap's left leg must enter the cup's right input, and
            # the right leg the left input
            if pos == 1 - leg:
                other, _ = trace_wire(p['layers'], i, len(l) + 1 - leg)
                # the wire that is left must have one type
                cup = p['layers'][k][1]
                if other != k and b['cod'][1 - leg] == cup['dom'][leg]:
                    out.append((i, k))
    return out


def census(p):
    return collections.Counter(
        repr(b) for _, b, _ in p['layers']
        if b['cls'] not in ('Cup', 'Cap'))


def count(p, cls):
    return sum(b['cls'] == cls for _, b, _ in p['layers'])


def check_same(p, q, what):
    why = gr.wellformed(q)
    expect(why is None, lambda: f'{what}: ill-typed result: {why}')
    expect(q['dom'] == p['dom'] and q['cod'] == p['cod'],
           lambda: f'{what} changes the type')
    expect(census(p) == census(q),
           lambda: f'{what} changes the boxes: {q}')
    expect(gr.same(gr.semantics(p), gr.semantics(q)),
           lambda: f'{what} changes the meaning: {p}\n->\n{q}')


@check(P, 'remove_snakes', yank_case, quick=4000, shards=4,
       rule='at least one cap/cup pair was removed', hang=60)
def remove_snakes(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    k = len(snakes(p))
    R = D.remove_snakes(left=s['left'])
    q = gr.p_diag(R)
    removed = count(p, 'Cap') - count(q, 'Cap')
    ctx.nontrivial(removed >= 1)
    ctx.label(f'removed={min(removed, 3)}')
    check_same(p, q, 'remove_snakes')
    expect(removed == count(p, 'Cup') - count(q, 'Cup') and removed >= 0,
           'cups and caps are not removed in pairs')
    expect(not snakes(q), lambda: f'a snake is left: {q}')
    if k == 0:
        expect(q == p, 'no snake, but the diagram changed')
    expect(gr.p_diag(R.remove_snakes(left=s['left'])) == q,
           'removing snakes twice')
    expect(gr.p_diag(D) == p, 'the diagram was changed in place')


def connected(p):
    """Whether all boxes and boundary wires hang together."""
    n = len(p['layers'])
    if n == 0:
        return True
    parent = list(range(n))

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x
    wires = [None] * len(p['dom'])
    for i, (l, b, r) in enumerate(p['layers']):
        o, k = len(l), len(b['dom'])
        for w in wires[o:o + k]:
            if w is not None:
                parent[find(w)] = find(i)
        wires[o:o + k] = [i] * len(b['cod'])
    return len({find(i) for i in range(n)}) == 1 and None not in wires


@st.composite
def normal_case(draw):
    """Mostly connected diagrams: a last box swallows all wires."""
    kinds = draw(st.sampled_from([('box', 'word', 'spider'),
                                  ('box', 'word', 'box'),
                                  ('box', 'cap', 'cap', 'cup', 'cup')]))
    d = draw(gr.diagrams(kinds=kinds, minl=1, maxl=6, maxw=5, maxdom=2,
                         names='n', zs=(0, 0, 1, -1), bz=(0, 0, 1)))
    if draw(st.integers(0, 9)):
        # every box must keep a wire to the last one, or it floats
        wires = gr.diag_cod(d)
        cod = draw(gr.types(0, 2, names='n', zs=(0,)))
        d['layers'].append([0, {'k': 'box', 'n': 'end', 'dom': wires,
                                'cod': cod, 'z': 0, 'dag': False}])
        if cod and draw(st.booleans()):
            off = draw(st.integers(0, len(cod) - 1))
            d['layers'].append([off, {
                'k': 'box', 'n': 'tail', 'dom': cod[off:off + 1],
                'cod': draw(gr.types(0, 2, names='n', zs=(0,))),
                'z': 0, 'dag': False}])
    return {'d': d, 'left': draw(st.booleans()),
            'moves': draw(st.lists(st.tuples(
                st.integers(0, 8), st.booleans()), min_size=1, max_size=8)
                .map(lambda m: [list(x) for x in m]))}


def ref_interchanges(p):
    """All positions i where layers i and i+1 commute, with the results."""
    out = []
    for i in range(len(p['layers']) - 1):
        (l0, b0, r0), (l1, b1, r1) = p['layers'][i:i + 2]
        o0, o1 = len(l0), len(l1)
        if o1 >= o0 + len(b0['cod']):
            mid = l1[o0 + len(b0['cod']):]
            new = [[l0 + b0['dom'] + mid, b1, r1],
                   [l0, b0, mid + b1['cod'] + r1]]
            out.append((i, new))
        if o0 >= o1 + len(b1['dom']):
            mid = l0[o1 + len(b1['dom']):]
            new = [[l1, b1, mid + b0['dom'] + r0],
                   [l1 + b1['cod'] + mid, b0, r0]]
            out.append((i, new))
    return out


def from_plain(p, boxes):
    """Rebuild a diagram from a plain one, given the real boxes."""
    return G.Diagram(gr.mk_ty(p['dom']), gr.mk_ty(p['cod']),
                     [G.Layer(left=gr.mk_ty(l), box=boxes[repr(b)],
                              right=gr.mk_ty(r)) for l, b, r in p['layers']])


@check(P, 'normal_form', normal_case, quick=5000, shards=4,
       rule='connected, >= 3 boxes and the normal form differs from the '
       'given diagram', hang=60)
def normal_form(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    conn = connected(p)
    ctx.label('connected' if conn else 'disconnected')
    try:
        R = D.normal_form(left=s['left'])
    except NotImplementedError:
        expect(not connected(gr.p_diag(D.remove_snakes(left=s['left']))),
               'normal_form gives up on a connected diagram')
        return
    q = gr.p_diag(R)
    ctx.nontrivial(conn and len(q['layers']) >= 3 and q != p)
    check_same(p, q, 'normal_form')
    expect(not snakes(q), 'a snake is left in the normal form')
    expect(gr.p_diag(R.normal_form(left=s['left'])) == q,
           'the normal form is not normal')
    # in normal form no box can move up in the preferred direction
    for i in range(len(q['layers']) - 1):
        (l0, b0, _), (l1, b1, _) = q['layers'][i:i + 2]
        movable = (len(l1) >= len(l0) + len(b0['cod']) if s['left']
                   else len(l0) >= len(l1) + len(b1['dom']))
        expect(not movable, lambda: f'boxes {i} and {i + 1} of the normal '
               f'form can be interchanged: {q}')
    if not conn or any(b['cls'] in ('Cup', 'Cap') for _, b, _ in p['layers']):
        return
    # deformations of the diagram have the same normal form
    m = p
    boxes = {repr(gr.p_box(b)): b for b in D.boxes}
    for k, pick in s['moves']:
        opts = ref_interchanges(m)
        if not opts:
            break
        i, new = opts[k % len(opts)]
        m = dict(m, layers=m['layers'][:i] + new + m['layers'][i + 2:])
    if m != p:
        ctx.label('deformed')
        E = from_plain(m, boxes)
        assert gr.wellformed(m) is None
        expect(gr.p_diag(E.normal_form(left=s['left'])) == q,
               lambda: f'two deformations have different normal forms:\n'
               f'{p}\n{m}')


@st.composite
def pregroup_case(draw):
    words = draw(st.lists(gr.types(1, 3, names='ns', zs=(0, 0, 1, -1)),
                          min_size=1, max_size=3))
    wires = sum(words, [])
    rest = draw(gr.diagrams(kinds=('cup', 'cup', 'swap', 'cap', 'box'),
                            maxl=4, maxw=7, dom=wires,
                            names='ns', zs=(0, 1, -1)))
    order = draw(st.permutations(range(len(words))))
    return {'words': words, 'rest': rest, 'order': list(order)}


@check(P, 'pregroup_normal_form', pregroup_case, quick=500, shards=2,
       rule='>= 2 words and a cup', hang=60)
def pregroup_normal_form(s, ctx):
    # the words are laid out in any order
    layers, done = [], []
    for w in s['order']:
        off = sum(len(s['words'][v]) for v in done if v < w)
        layers.append([off, {'k': 'word', 'n': f'w{w}',
                             'cod': s['words'][w]}])
        done.append(w)
    D = gr.mk_diag({'dom': [], 'layers': layers + s['rest']['layers']})
    p = gr.p_diag(D)
    ctx.nontrivial(len(s['words']) > 1 and count(p, 'Cup') > 0)
    try:
        R = D.pregroup_normal_form()
    except NotImplementedError:
        expect(not connected(gr.p_diag(D.remove_snakes())),
               'gives up on a connected diagram')
        return
    check_same(p, gr.p_diag(R), 'pregroup_normal_form')
