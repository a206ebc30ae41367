"""R01: sentence rewrite rules replace the right boxes by the right meaning."""
import collections

import numpy as np
from hypothesis import strategies as st

from lambeq import rewrite as R
from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import Skip, check, expect, prop

P = 'R01'
prop(P, ['the meaning of a diagram is its tensor with self-dual wires',
         'rules see words and boxes that are neither rotated nor daggered; '
         'their rotations and daggers follow'])

n, s_ = ['n', 0], ['s', 0]


def r(t, z):
    return gr.rot_ty(t, z)


E2, E3 = np.eye(gr.DIMS['n']), np.eye(gr.DIMS['s'])
D3 = gr.delta(3, gr.DIMS['n'])
ONE = np.ones(gr.DIMS['s'])
N, S = [n], [s_]
NS = r(N, 1) + S                       # N >> S
SS = r(S, 1) + S                       # S >> S
LEFT = S + r(S, -1)                    # S << S


def word(name, cod):
    return gr.key_tensor(['Word', name, [], cod],
                         tuple(gr.wires_of(cod, gr.std_val)))


AUX = ['am', 'are', 'be', 'been', 'being', 'is', 'was', 'were', 'did', 'do',
       'does', "'d", 'had', 'has', 'have', 'may', 'might', 'will']
CONN = ['and', 'but', 'however', 'if', 'that', 'whether']
REL = ['that', 'which', 'who', 'whom', 'whose']
# name: (words or None, codomain, meaning of the replacement)
RULES = {
    'auxiliary': (AUX, NS + r(NS, -1), lambda w: np.einsum(
        'ad,bc->abcd', E2, E3)),
    'connector': (CONN, LEFT, lambda w: E3),
    'determiner': (['a', 'an', 'the'], N + r(N, -1), lambda w: E2),
    'postadverb': (None, r(NS, 1) + NS, lambda w: np.einsum(
        'ad,bc->abcd', word(w, SS), E2)),
    'preadverb': (None, NS + r(NS, -1), lambda w: np.einsum(
        'ad,bc->abcd', E2, word(w, LEFT))),
    'prepositional_phrase': (
        None, r(NS, 1) + NS + r(N, -1), lambda w: np.einsum(
            'ade,bc->abcde', word(w, SS + r(N, -1)), E2)),
    'object_rel_pronoun': (
        REL, [['n', 1], n, ['n', -2], ['s', -1]],
        lambda w: np.einsum('abc,d->abcd', D3, ONE)),
    'subject_rel_pronoun': (
        REL, [['n', 1], n, ['s', -1], n],
        lambda w: np.einsum('abd,c->abcd', D3, ONE)),
}
DEFAULT = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb',
           'prepositional_phrase']
WORDS = ['and', 'that', 'the', 'does', 'who', 'will', 'cat', 'in']
CASES = [str.lower, str.lower, str.lower, str.capitalize, str.upper]


@st.composite
def name(draw, pool=WORDS):
    return draw(st.sampled_from(CASES))(draw(st.sampled_from(pool)))


def put(d, words, draw, extra=3, kinds=('cup', 'cup', 'cup', 'box', 'swap'),
        maxw=10, **kw):
    """Append words at random places, then some other boxes."""
    wires = gr.diag_cod(d)
    for b in words:
        off = draw(st.sampled_from([len(wires), len(wires), 0]))
        d['layers'].append([off, b])
        wires[off:off] = gr.box_cod(b)
    for _ in range(draw(st.integers(0, extra))):
        if not wires:
            break
        off, b = draw(gr.box_at(wires, kinds=kinds, names='ns', maxw=maxw,
                                depth=1, **kw))
        d['layers'].append([off, b])
        wires[off:off + len(gr.box_dom(b))] = gr.box_cod(b)
    return d


def rotated(b, z):
    return dict(b, cod=gr.rot_ty(b['cod'], z), z=z)


@st.composite
def rule_case(draw):
    words = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from(list(RULES) + ['', '']))
        pool, cod, _ = RULES.get(k, (None, None, None))
        if cod is None:
            cod = draw(gr.types(1, 3, names='ns', zs=(0, 0, 1, -1)))
        nm = draw(name(WORDS if pool is None or draw(st.integers(0, 3)) == 0
                       else pool))
        if draw(st.integers(0, 6)) == 0:
            b = {'k': 'box', 'n': nm, 'dom': [], 'cod': cod, 'z': 0}
        else:
            b = {'k': 'word', 'n': nm, 'cod': cod, 'z': 0}
            b = rotated(b, draw(st.sampled_from([0, 0, 0, 0, 1, -1])))
        words.append(b)
    d = put({'dom': [], 'layers': []}, words, draw)
    if draw(st.booleans()):
        nm = draw(name())
        w = gr.diag_cod(d)
        k = draw(st.sampled_from(list(RULES)))
        cod = RULES[k][1]
        if w and len(w) + len(cod) < 10:
            # a box with a domain is not a word
            d['layers'].append([0, {'k': 'box', 'n': nm, 'dom': w[:1],
                                    'cod': cod, 'z': 0}])
    rules = None
    if draw(st.integers(0, 2)):
        rules = draw(st.lists(st.sampled_from(list(RULES)), max_size=5))
    return {'d': d, 'rules': rules, 'add': draw(st.sampled_from([0, 1, 2]))}


def which(rules, b):
    """The first rule that applies to a plain unrotated box."""
    for k in rules:
        words, cod, t = RULES[k]
        if b['cod'] == cod and not b['dom'] and (
                words is None or b['name'].lower() in words):
            return k
    return None


def plain_boxes(p):
    out = []
    for _, b, _ in p['layers']:
        while b['cls'] == 'Daggered':
            b = b['box']
        if b['cls'] in ('Box', 'Word'):
            out.append(dict(b, dom=gr.rot_ty(b['dom'], -b['z']),
                            cod=gr.rot_ty(b['cod'], -b['z']), z=0))
    return out


def compare(D, W, table, what):
    """W denotes D with the tensors of its boxes given by `table`."""
    p, q = gr.p_diag(D), gr.p_diag(W.to_diagram())
    why = gr.wellformed(q)
    expect(why is None, lambda: f'{what}: {why}')
    expect(q['dom'] == p['dom'] and q['cod'] == p['cod'],
           lambda: f'{what}: the type becomes {q["dom"]} -> {q["cod"]}')
    want = gr.semantics(p, table=table)
    expect(gr.same(gr.semantics(q), want),
           lambda: f'{what}: {D!r} becomes {W!r}, which means something else')
    return q


def key(b, shape):
    return gr.key_tensor([b['cls'], b['name'], b['dom'], b['cod']], shape)


@check(P, 'rules', rule_case, quick=900, shards=3,
       rule='a word that a rule rewrites and one that no rule rewrites')
def rules(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    names = DEFAULT if s['rules'] is None else s['rules']
    if s['rules'] is None:
        rw = R.Rewriter()
    elif s['add']:
        rw = R.Rewriter(s['rules'][:1])
        if s['add'] > 1:    # used before
            rw(D)
        rw.add_rules(*s['rules'][1:])
    else:
        rw = R.Rewriter(s['rules'])
    W = rw(D)
    expect(gr.p_diag(D) == p, 'the rewriter changed its argument')
    hits = [which(names, b) for b in plain_boxes(p)]
    for k in hits:
        ctx.label(k or 'none')
    ctx.nontrivial(any(hits) and not all(hits))

    def table(b, shape):
        k = which(names, b)
        return RULES[k][2](b['name']) if k else key(b, shape)
    q = compare(D, W, table, names)
    if not any(hits):
        expect(q == p, 'a diagram without matches is changed')
    expect(gr.p_diag(rw(D)) == q, 'second application')


@st.composite
def simple_case(draw):
    cod = draw(gr.types(1, 2, names='ns', zs=(0, 1, -1)))
    words = draw(st.one_of(st.none(), st.lists(name(), max_size=3)))
    ws = []
    for _ in range(draw(st.integers(1, 3))):
        c = cod if draw(st.integers(0, 3)) else draw(
            gr.types(1, 2, names='ns'))
        b = {'k': 'word', 'n': draw(name(WORDS + (words or []))), 'cod': c,
             'z': 0}
        ws.append(rotated(b, draw(st.sampled_from([0, 0, 1]))))
    inner = draw(gr.types(1, 2, names='ns', zs=(0, 1)))
    return {'cod': cod, 'words': words, 'case': draw(st.booleans()),
            'as': draw(st.sampled_from(['list', 'set', 'tuple'])),
            'inner': inner, 'other': draw(st.booleans()),
            'd': put({'dom': [], 'layers': []}, ws, draw)}


@check(P, 'simple', simple_case, quick=600, shards=2,
       rule='a list of words, compared with or without case')
def simple(s, ctx):
    D = gr.mk_diag(s['d'])
    p = gr.p_diag(D)
    words = s['words']
    box = G.Box('t', gr.mk_ty(s['inner']), gr.mk_ty(s['cod']))
    tmpl = R.SimpleRewriteRule.placeholder(gr.mk_ty(s['inner'])) >> box
    if s['other']:
        tmpl = tmpl @ G.Word('extra', G.Ty('n')) \
            >> G.Id(gr.mk_ty(s['cod'])) @ G.Word('extra',
                                                 G.Ty('n')).dagger()
    given = words and {'list': list, 'set': set, 'tuple': tuple}[s['as']](
        words)
    rule = R.SimpleRewriteRule(gr.mk_ty(s['cod']), tmpl, given, s['case'])

    def hit(b):
        if b['cod'] != s['cod'] or b['dom']:
            return False
        if words is None:
            return True
        if s['case']:
            return b['name'] in words
        return b['name'].lower() in [w.lower() for w in words]

    ctx.nontrivial(bool(words))
    extra = word('extra', N)

    def table(b, shape):
        if not hit(b):
            return key(b, shape)
        w = word(b['name'], s['inner'])
        t = gr.key_tensor(['Box', 't', s['inner'], s['cod']], tuple(
            gr.wires_of(s['inner'] + s['cod'], gr.std_val)))
        out = np.tensordot(w, t, len(s['inner']))
        return out * (np.vdot(extra, extra) if s['other'] else 1)
    compare(D, R.Rewriter([rule])(D), table, f'words {words}')
    for b in D.boxes:
        if isinstance(b, G.Word) and b.z == 0:
            pb = gr.p_box(b)
            expect(rule.matches(b) == hit(pb)
                   and (rule(b) is not None) == hit(pb), 'matches')


@st.composite
def coord_case(draw):
    words = draw(st.one_of(st.none(), st.lists(name(), max_size=2)))
    ws = []
    for _ in range(draw(st.integers(1, 2))):
        a = draw(gr.types(1, 2, names='ns', zs=(0, 0, 1, -1)))
        l, m, rr = r(a, 1), a, r(a, -1)
        bad = draw(st.integers(0, 3))
        if bad == 0:
            l = draw(gr.types(1, 2, names='ns'))
        b = {'k': 'word', 'n': draw(name(['and', 'or', 'the'])),
             'cod': l + m + rr, 'z': 0}
        ws.append(rotated(b, draw(st.sampled_from([0, 0, 0, 1]))))
    d = put({'dom': [], 'layers': []}, ws, draw)
    w = gr.diag_cod(d)
    if w and len(w) < 8 and draw(st.booleans()):
        a = draw(gr.types(0, 1, names='ns'))
        d['layers'].append([0, {'k': 'box', 'n': 'and', 'dom': w[:1],
                                'cod': r(a, 1) + a + r(a, -1), 'z': 0}])
    return {'words': words, 'd': d}


@check(P, 'coordination', coord_case, quick=500, shards=2,
       rule='a conjunction of a type of >= 2 wires')
def coordination(s, ctx):
    D = gr.mk_diag(s['d'])
    words = ['and'] if s['words'] is None else s['words']

    def hit(b):
        c = b['cod']
        k = len(c) // 3
        return b['name'] in words and len(c) % 3 == 0 and not b['dom'] \
            and k and r(c[2 * k:], 1) == c[k:2 * k] == r(c[:k], -1)
    rule = R.CoordinationRewriteRule(s['words'])
    bs = plain_boxes(gr.p_diag(D))
    ctx.nontrivial(any(hit(b) and len(b['cod']) > 3 for b in bs))

    def table(b, shape):
        if not hit(b):
            return key(b, shape)
        k = len(b['cod']) // 3
        t = np.zeros(shape)
        for i in np.ndindex(shape[k:2 * k]):
            t[i[::-1] + i + i[::-1]] = 1
        return t
    q = compare(D, R.Rewriter([rule])(D), table, f'words {words}')
    expect(not [b for b in plain_boxes(q) if hit(b)], 'not rewritten')


@st.composite
def bend_case(draw):
    ws = []
    for _ in range(draw(st.integers(1, 3))):
        cod = [['n', z] for z in sorted(draw(st.lists(
            st.sampled_from([1, 2]), max_size=2)))]
        cod += draw(gr.types(0, 2, names='ns', zs=(0, 0, 0, 1, -1)))
        cod += draw(gr.types(0, 2, names='ns', zs=(-1, -1, -2)))
        b = {'k': 'word', 'n': draw(st.sampled_from('vw')),
             'cod': cod[:4] or [n], 'z': 0}
        ws.append(rotated(b, draw(st.sampled_from([0, 0, 0, 1]))))
    d = put({'dom': draw(gr.types(0, 2, names='ns')), 'layers': []}, ws,
            draw, extra=4, kinds=('cup', 'cup', 'box', 'box', 'swap',
                                  'spider'), maxw=9)
    return {'d': d, 'left': draw(st.booleans())}


@check(P, 'curry', bend_case, quick=700, shards=3,
       rule='a box of which wires are bent, on either side')
def curry(s, ctx):
    """A box with adjoint wires becomes one with these wires as inputs."""
    D = gr.mk_diag(s['d'])
    bent = []

    def table(b, shape):
        c, nd = b['cod'], len(b['dom'])
        i, j = 0, len(c)
        while i < len(c) and c[i][1] > 0:
            i += 1
        while j > i and c[j - 1][1] < 0:
            j -= 1
        if not (c and (c[0][1] or c[-1][1])):
            return key(b, shape)
        bent.append((i, len(c) - j))
        left, mid, right = c[:i], c[i:j], c[j:]
        dom = r(left, -1) + b['dom'] + r(right, 1)
        t = gr.key_tensor(['Box', b['name'], dom, mid], tuple(
            gr.wires_of(dom + mid, gr.std_val)))
        # axes: left reversed, dom, right reversed, mid
        l, k, e = len(left), len(right), len(mid)
        perm = list(range(l, l + nd)) + list(range(l))[::-1]
        perm += list(range(l + nd + k, l + nd + k + e))
        perm += list(range(l + nd, l + nd + k))[::-1]
        return t.transpose(perm)
    q = compare(D, R.Rewriter(['curry'])(D), table, 'curry')
    ctx.nontrivial(any(a or b for a, b in bent))
    for b in plain_boxes(q):
        expect(not b['cod'] or not (b['cod'][0][1] > 0
                                    or b['cod'][-1][1] < 0),
               lambda: f'{b} still has adjoint outputs')
    W = R.Rewriter(['curry'])(D)
    F = W.to_diagram()
    try:
        nf = F.pregroup_normal_form()
    except (ValueError, NotImplementedError):
        return
    expect(gr.same(gr.semantics(gr.p_diag(nf)),
                   gr.semantics(gr.p_diag(F))), 'normal form of the result')


@check(P, 'collapse', bend_case, quick=700, shards=3,
       rule='a box with a domain of >= 2 wires')
def collapse(s, ctx):
    D = gr.mk_diag(s['d'])
    bs = plain_boxes(gr.p_diag(D))
    ctx.nontrivial(any(len(b['dom']) > 1 for b in bs))

    def table(b, shape):
        if not b['dom']:
            return key(b, shape)
        nd, nc = len(b['dom']), len(b['cod'])
        if s['left']:
            cod = r(b['dom'], 1) + b['cod']
            perm = list(range(nd))[::-1] + list(range(nd, nd + nc))
        else:
            cod = b['cod'] + r(b['dom'], -1)
            perm = list(range(nc, nc + nd))[::-1] + list(range(nc))
        t = gr.key_tensor(['Box', b['name'], [], cod], tuple(
            gr.wires_of(cod, gr.std_val)))
        return t.transpose(perm)
    rule = R.CollapseDomainRewriteRule(s['left'])
    q = compare(D, R.Rewriter([rule])(D), table,
                f'collapse, left={s["left"]}')
    expect(not any(b['dom'] for b in plain_boxes(q)), 'a domain is left')


@st.composite
def unk_case(draw):
    pool = [{'k': 'word', 'n': draw(name(['the', 'cat', 'in'])),
             'cod': draw(gr.types(1, 2, names='ns', zs=(0, 0, 1))),
             'z': 0} for _ in range(draw(st.integers(1, 4)))]

    def some():
        ws = [rotated(draw(st.sampled_from(pool)),
                      draw(st.sampled_from([0, 0, 0, 0, 1])))
              for _ in range(draw(st.integers(0, 4)))]
        return put({'dom': [], 'layers': []}, ws, draw)
    return {'train': [some() for _ in range(draw(st.integers(0, 3)))],
            'd': some(), 'min': draw(st.integers(1, 3)),
            'ignore': draw(st.booleans()),
            'tok': draw(st.sampled_from(['<UNK>', 'UNK', 'the']))}


@check(P, 'unknown', unk_case, quick=600, shards=2,
       rule='a known and an unknown word')
def unknown(s, ctx):
    train = [gr.mk_diag(d) for d in s['train']]
    D = gr.mk_diag(s['d'])
    kw = {} if s['tok'] == '<UNK>' else {'unk_token': s['tok']}
    rule = R.UnknownWordsRewriteRule.from_diagrams(
        train, min_freq=s['min'], ignore_types=s['ignore'], **kw)
    count = collections.Counter()
    for d in s['train']:
        for _, b in d['layers']:
            if b['k'] == 'word':
                count[b['n'] if s['ignore'] else repr(
                    [b['n'], b['cod']])] += 1
    seen = []

    def table(b, shape):
        if b['cls'] != 'Word':
            return key(b, shape)
        known = count[b['name'] if s['ignore'] else repr(
            [b['name'], b['cod']])] >= s['min']
        seen.append(known)
        return word(b['name'] if known else s['tok'], b['cod'])
    compare(D, R.Rewriter([rule])(D), table, 'unknown words')
    ctx.nontrivial(True in seen and False in seen)
    # a vocabulary given by hand
    voc = ['the', ('cat', G.Ty('n'))]
    rule = R.UnknownWordsRewriteRule(voc)

    def table2(b, shape):
        if b['cls'] != 'Word':
            return key(b, shape)
        known = b['name'] == 'the' or (b['name'] == 'cat'
                                       and b['cod'] == [['n', 0]])
        return word(b['name'] if known else '<UNK>', b['cod'])
    compare(D, R.Rewriter([rule])(D), table2, 'given vocabulary')
