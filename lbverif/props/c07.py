"""C07: the chart parser of Bobcat, its supertagger and their trees."""
import contextlib
import io
import itertools
import json
import math
import random
import re
import tempfile
import types as py
from unittest import mock

from hypothesis import strategies as st
import torch

from lambeq.bobcat import (Category, ChartParser, Grammar, Sentence,
                           Supertag, Tagger)
from lambeq.bobcat.lexicon import Atom, Feature
from lambeq.bobcat.parser import Cell
from lambeq.bobcat.tagger import (BertForChartClassification,
                                  ChartClassifierConfig)
from lambeq.bobcat.tree import Lexical
from lambeq.text2diagram.model_based_reader.bobcat_parser import (
    BobcatParseError, BobcatParser)
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.c03 import collapse

P = 'C07'
prop(P, ['a grammar of 29 lexical categories stands for that of the model, '
         'which cannot be downloaded',
         'the neural network of the tagger is small and has random weights, '
         'its tokeniser is a stand-in',
         'derivations of equal score in one cell are not told apart'])

LEX = r'''N{_}
NP{_}
PP{_}
S[dcl]{_}
(N{Y}/N{Y}<1>){_}
(NP[nb]{Y}/N{Y}<1>){_}
(NP{Y}\NP{Y}<1>){_}
((NP{Y}\NP{Y}<1>){_}/NP{Z}<2>){_}
(S[dcl]{_}\NP{Y}<1>){_}
((S[dcl]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}
(((S[dcl]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}/NP{W}<3>){_}
(((S[dcl]{_}\NP{Y}<1>){_}/PP{Z}<2>){_}/NP{W}<3>){_}
((S[dcl]{_}\NP{Y}<1>){_}/(S[to]{Z}<2>\NP{Y*}){Z}){_}
((S[dcl]{_}\NP{Y}<1>){_}/(S[b]{Z}<2>\NP{Y*}){Z}){_}
((S[to]{Z}\NP{Y}){Z}/(S[b]{Z}<1>\NP{Y*}){Z}){_}
(S[b]{_}\NP{Y}<1>){_}
((S[b]{_}\NP{Y}<1>){_}/NP{Z}<2>){_}
((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}<1>\NP{Z}){Y}){_}
(((S[X]{Y}\NP{Z}){Y}\(S[X]{Y}<1>\NP{Z}){Y}){_}/NP{W}<2>){_}
((S[X]{Y}\NP{Z}){Y}/(S[X]{Y}<1>\NP{Z}){Y}){_}
(S[X]{Y}/S[X]{Y}<1>){_}
(S[X]{Y}\S[X]{Y}<1>){_}
(PP{_}/NP{Y}<1>){_}
((NP{Y}\NP{Y}<1>){_}/(S[dcl]{Z}<2>\NP{Y*}){Z}){_}
((NP{Y}\NP{Y}<1>){_}/(S[dcl]{Z}<2>/NP{Y*}){Z}){_}
conj{_}
,{_}
;{_}
.{_}'''.split('\n')
RAISE = [['NP', r'(S[X]{Y}/(S[X]{Y}\NP{_}){Y}){Y}', '+'],
         ['NP', r'((S[X]{Y}\NP{Z}){Y}\((S[X]{Y}\NP{Z}){Y}/NP{_}){Y}){Y}',
          '+'],
         ['PP', r'((S[X]{Y}\NP{Z}){Y}\((S[X]{Y}\NP{Z}){Y}/PP{_}){Y}){Y}',
          '+']]
CHANGE = [[1, 'N', None, 'NP', False],
          [2, r'S[dcl]/NP', None, r'NP\NP', True],
          [3, r'S[to]\NP', None, r'NP\NP', True],
          [4, r'S[to]\NP', None, r'(S[X]\NP)\(S[X]\NP)', False],
          [50, 'S[dcl]', ',', 'S[X]/S[X]', False],
          [51, ',', 'NP', r'(S[X]\NP)\(S[X]\NP)', False]]


# ---- plain categories: [atom, feature] or [result, slash, argument] ------

def pc(c):
    """Through the public attributes only."""
    if c.complex:
        return [pc(c.result), c.dir, pc(c.argument)]
    return [str(c.atom), str(c.feature)]


def atomic(t):
    return len(t) == 2


def show(t, top=True):
    if atomic(t):
        return t[0] + (f'[{t[1]}]' if t[1] else '')
    s = show(t[0], False) + t[1] + show(t[2], False)
    return s if top else f'({s})'


def read(s):
    """Plain category of a string without marks."""
    def go(i):
        if s[i] == '(':
            t, i = go(i + 1)
            while s[i] != ')':
                d = s[i]
                u, i = go(i + 1)
                t = [t, d, u]
            return t, i + 1
        m = re.compile(r'([A-Z]+|conj|[,.;:])(\[(\w+)\])?').match(s, i)
        return [m[1], m[3] or ''], m.end()
    t, i = go(0)
    while i < len(s):
        d = s[i]
        u, i = go(i + 1)
        t = [t, d, u]
    return t


def bare(t):
    return re.sub(r'\{\w\*?\}|<\d>', '', t)


def plain_of(markup):
    s = bare(markup)
    return s[1:-1] if s.startswith('(') else s


def same(a, b):
    """Equality of categories: S and S[X] are the same."""
    if atomic(a) != atomic(b):
        return False
    if atomic(a):
        f = [('' if x == 'X' and y == 'S' else x) for y, x in (a, b)]
        return a[0] == b[0] and f[0] == f[1]
    return a[1] == b[1] and same(a[0], b[0]) and same(a[2], b[2])


def fits(a, b):
    """Whether the pattern a covers b: no feature stands for any."""
    if atomic(a) != atomic(b):
        return False
    if atomic(a):
        return a[0] == b[0] and a[1] in ('', b[1])
    return a[1] == b[1] and fits(a[0], b[0]) and fits(a[2], b[2])


def covers(a, b):
    return same(a, b) or fits(a, b)


def unify(a, b, feats):
    """Whether a and b unify; collects the features that X takes."""
    if atomic(a) != atomic(b):
        return False
    if atomic(a):
        if a[0] != b[0]:
            return False
        if a[0] == 'S':
            if a[1] == 'X':
                feats.append(b[1])
            elif b[1] == 'X':
                feats.append(a[1])
            elif a[1] != b[1]:
                return False
        return True
    return (a[1] == b[1] and unify(a[0], b[0], feats)
            and unify(a[2], b[2], feats))


def subst(t, f):
    if atomic(t):
        return [t[0], f if t[1] == 'X' and f else t[1]]
    return [subst(t[0], f), t[1], subst(t[2], f)]


def is_fwd(t):
    return not atomic(t) and t[1] == '/'


def is_bwd(t):
    return not atomic(t) and t[1] == '\\'


def punct(t):
    return atomic(t) and t[0] in ',;:.'


VP = [['S', ''], '\\', ['NP', '']]
SS = [['S', 'dcl'], '\\', ['S', 'dcl']]


def binary(l, r, lr=None, rr=None, enf=False):
    """All rule instances for two categories: [rule, category, strict];
    lr and rr are the rules that made them."""
    out = []
    conj = {'CONJ'}
    fixed = {'CONJ', 'FTR', 'BTR'}

    def put(rule, a, b, build):
        feats = []
        if unify(a, b, feats):
            for f in {*feats, ''} if len(set(feats)) > 1 else {
                    (feats or [''])[-1]}:
                out.append([rule, build(lambda t: subst(t, f))])
    L, R = l, r
    if is_bwd(R) and lr not in fixed and not (
            enf and rr in ('BC', 'GBC')):
        put('BA', L, R[2], lambda s: s(R[0]))
    if is_fwd(L) and rr not in fixed and not (enf and lr in ('FC', 'GFC')):
        put('FA', R, L[2], lambda s: s(L[0]))
    if is_fwd(L) and is_fwd(R) and not (enf and lr in ('FC', 'GFC')):
        put('FC', R[0], L[2], lambda s: [s(L[0]), '/', s(R[2])])
        if fits(VP, L[2]) and is_fwd(R[0]):
            put('GFC', R[0][0], L[2],
                lambda s: [[s(L[0]), R[0][1], s(R[0][2])], R[1], s(R[2])])
            if is_fwd(R[0][0]):
                put('GFC', R[0][0][0], L[2], lambda s: [
                    [[s(L[0]), R[0][0][1], s(R[0][0][2])], R[0][1],
                     s(R[0][2])], R[1], s(R[2])])
    if is_bwd(L) and is_bwd(R) and lr not in conj and rr not in conj and not (
            enf and rr in ('BC', 'GBC')):
        put('BC', L[0], R[2], lambda s: [s(R[0]), '\\', s(L[2])])
        if fits(SS, L[0]):
            put('GBC', L[0][0], R[2], lambda s: L)
    if is_fwd(L) and is_bwd(R) and rr not in conj and not (
            atomic(R[2]) and R[2][0] in ('N', 'NP')):
        put('BX', L[0], R[2], lambda s: [s(R[0]), '/', s(L[2])])
        if fits(VP, R[2]) and is_fwd(L[0]):
            put('GBX', L[0][0], R[2],
                lambda s: [[s(R[0]), L[0][1], s(L[0][2])], L[1], s(L[2])])
            if is_fwd(L[0][0]):
                put('GBX', L[0][0][0], R[2], lambda s: [
                    [[s(R[0]), L[0][0][1], s(L[0][0][2])], L[0][1],
                     s(L[0][2])], L[1], s(L[2])])
    ok = not punct(R) and R[0] != 'conj'
    if L[0] == 'conj' and ok and rr not in fixed:
        out.append(['CONJ', [R, '\\', R]])
    if L[0] == 'conj' and R[0] == 'N':
        out.append(['ADJ_CONJ', R])
    if punct(L) and ok:
        if rr not in fixed:
            out.append(['LP', R])
            if L[0] in ',;':
                out.append(['CONJ', [R, '\\', R]])
        out.extend(['LP', read(c[3])] for c in CHANGE
                   if c[1] == L[0] and covers(read(c[2]), R))
    ok = not punct(L) and L[0] != 'conj'
    if punct(R) and ok:
        if lr not in fixed:
            out.append(['RP', L])
        if lr not in conj:
            out.extend(['RP', read(c[3])] for c in CHANGE
                       if c[2] == R[0] and covers(read(c[1]), L))
    return out


def unary(t):
    return [['U', read(c[3])] for c in CHANGE
            if c[2] is None and covers(read(c[1]), t)], [
        ['FTR' if is_fwd(x) else 'BTR', x]
        for k, m, _ in RAISE for x in [read(plain_of(m))]
        if covers(read(k), t)]


def size(t):
    return 1 if atomic(t) else size(t[0]) + size(t[2])


def universe():
    """Categories that lexical ones can make."""
    cats = {plain_of(m): read(plain_of(m)) for m in LEX}
    for t in [read(c[3]) for c in CHANGE] + [
            read(plain_of(m)) for _, m, _ in RAISE]:
        cats[show(t)] = t
    new = dict(cats)
    for _ in range(2):
        fresh = {}
        for a, b in itertools.product(cats.values(), repeat=2):
            if show(a) not in new and show(b) not in new:
                continue
            for rule, t in binary(a, b):
                if size(t) <= 5 and show(t) not in cats:
                    fresh[show(t)] = t
        cats.update(fresh)
        new = fresh
    return cats


UNI = universe()
PAIRS = None


def pairs():
    global PAIRS
    if PAIRS is None:
        PAIRS = [(show(a), show(b)) for a, b in itertools.product(
            UNI.values(), repeat=2) if binary(a, b)]
    return PAIRS


# ---- categories ----------------------------------------------------------

def atom_st():
    return st.tuples(
        st.sampled_from(['S', 'N', 'NP', 'S', 'S', 'PP', 'conj', ',', '.']),
        st.sampled_from(['', '', 'X', 'dcl', 'nb', 'b'])).map(list)


def cat_st(depth=3):
    return st.recursive(atom_st(), lambda x: st.tuples(
        x, st.sampled_from('/\\'), x).map(list), max_leaves=5)


@check(P, 'categories', lambda: st.tuples(cat_st(), cat_st(), st.integers(
    0, 10**6)).map(list), quick=2000,
    rule='two complex categories which are the same up to features')
def categories(xs, ctx):
    a, b, seed = xs
    r = random.Random(seed)
    if seed % 2:
        def other(t):
            if atomic(t):
                f = [t[1], t[1], t[1], '', 'X']
                if t[0] == 'S' and t[1] in ('', 'X'):
                    f = ['', 'X']
                return [t[0], r.choice(f)]
            return [other(t[0]), t[1], other(t[2])]
        b = other(a)
    A, B = Category.parse(show(a)), Category.parse(show(b))
    for c, t in ((A, a), (B, b)):
        expect(pc(c) == t, lambda: f'{show(t)} is parsed as {c}')
        expect(str(c) == show(t), lambda: f'{show(t)} is written {c}')
        expect(pc(Category.parse(str(c))) == t, 'round trip')
        expect(Category.parse(f'({show(t)})') == c if not atomic(t) else True,
               'brackets')
        expect(c.bwd == is_bwd(t) and c.fwd == is_fwd(t)
               and c.atomic == atomic(t) and c.complex != c.atomic, 'kind')
        expect(c == c and c.matches(c) and hash(c) == hash(
            Category.parse(show(t))), 'reflexive')
        f = r.choice(['dcl', 'b', ''])
        u = c.translate({0: 0}, Feature(f))
        expect(pc(u) == subst(t, f), lambda: f'{c} with X={f!r}: {u}')
    eq = same(a, b)
    ctx.nontrivial(eq and not atomic(a) and a != b)
    expect((A == B) == eq and (B == A) == eq and (A != B) != eq,
           lambda: f'{A} == {B}: {A == B}')
    expect(not eq or hash(A) == hash(B), lambda: f'hash: {A}, {B}')
    expect(A.matches(B) == fits(a, b) or a == b,
           lambda: f'{A} matches {B}: {A.matches(B)}')
    S = A.slash('/', B)
    expect(pc(S) == [a, '/', b] and str(S) == show([a, '/', b]), 'slash')


# ---- cells ---------------------------------------------------------------

@check(P, 'cell', lambda: st.fixed_dictionaries({
    'beam': st.integers(1, 4),
    'adds': st.lists(st.lists(st.tuples(
        st.integers(0, 7), st.integers(-6, 0)).map(list), max_size=5),
        min_size=1, max_size=6)}), quick=2000,
    rule='the beam cuts a tree, and a tree replaces one of its category')
def cell(x, ctx):
    C = Cell(x['beam'])
    best, cut, rep = {}, False, False
    for ts in x['adds']:
        C.add([py.SimpleNamespace(cat=k, score=s) for k, s in ts])
        for k, s in ts:
            rep |= k in best and s > best[k]
            best[k] = max(s, best.get(k, s))
        order = sorted(best.values(), reverse=True)
        low = order[x['beam'] - 1] if len(order) >= x['beam'] else -math.inf
        want = {k: s for k, s in best.items() if s >= low}
        cut |= len(want) < len(best)
        got = [t.score for t in C.trees]
        expect(got == sorted(got, reverse=True), lambda: f'scores {got}')
        expect(sorted((t.cat, t.score) for t in C.trees)
               == sorted(want.items()),
               lambda: f'{[(t.cat, t.score) for t in C.trees]} are kept, '
               f'expected {want}')
        expect({k: t.score for k, t in C.trees_map.items()} == want
               and C.min_score == low, 'the least score of the cell')
    ctx.nontrivial(cut and rep)


# ---- rules ---------------------------------------------------------------

def grammar(drop=0, seed=0):
    r = random.Random(seed)
    ps = pairs()
    if drop:
        ps = [p for p in ps if r.random() >= drop]
    return Grammar({**{plain_of(m): m for m in LEX},
                    r'S[X]/S[X]': LEX[20]}, ps,
                   [list(c) for c in CHANGE], [list(x) for x in RAISE])


PARSERS = {}


def make(enf, drop=0, seed=0, **kw):
    for c in kw.get('root_cats') or ():
        Category.parse(c)
    key = (enf, drop, seed if drop else 0)
    if key not in PARSERS or kw:
        g = grammar(drop, seed)
        kw = {'cats': CATS, 'root_cats': None, 'max_parse_trees': 10**6,
              'beam_size': 10**6, 'input_tag_score_weight': 1.,
              'missing_cat_score': 1e-4, 'missing_span_score': 1e-3, **kw}
        p = ChartParser(g, eisner_normal_form=enf, **kw)
        if len(PARSERS) > 50:
            PARSERS.clear()
        PARSERS[key] = p
    return PARSERS[key]


CATS = (['', 'S[dcl]', r'S[dcl]\NP', 'NP', 'N', 'NP[conj]', r'S[dcl]\NP[conj]',
         'NP::N', r'S/(S\NP)::NP', r'S/(S\NP)::NP::N', 'PP', r'NP\NP',
         r'(S\NP)\(S\NP)', r'(S[dcl]\NP)/NP', 'S[dcl]/NP', r'NP\NP::S[dcl]/NP',
         r'S[to]\NP', r'NP\NP::S[to]\NP', r'S[b]\NP', 'N/N'])[1:]


def lex(markup, k=0):
    return Lexical(Category.parse(markup), f'w{k}', k + 1)


@check(P, 'combine', lambda: st.tuples(
    st.sampled_from(LEX), st.sampled_from(LEX), st.booleans()).map(list),
    quick=1200, rule='two words with a result')
def combine(x, ctx):
    m, n, enf = x
    R = make(enf).rules
    l, r = read(plain_of(m)), read(plain_of(n))
    got = [[t.rule.name, pc(t.cat)] for t in R.combine(lex(m), lex(n, 1))]
    want = binary(l, r)
    names = {w[0] for w in want}
    # one rule only, in this order
    for a, bs in (('BA', {'FA', 'FC', 'GFC', 'BC', 'GBC', 'BX', 'GBX'}),
                  ('FA', {'FC', 'GFC', 'BX', 'GBX'}), ('FC', {'GFC'}),
                  ('BC', {'GBC'}), ('BX', {'GBX'})):
        if a in names:
            want = [w for w in want if w[0] not in bs]
            names = {w[0] for w in want}
    ctx.nontrivial(got)
    for g in got:
        ctx.label(g[0])
    expect(all(g in want for g in got),
           lambda: f'{show(l)} and {show(r)} make '
           f'{[(a, show(b)) for a, b in got]}')
    expect(all(w in got for w in want),
           lambda: f'{show(l)} and {show(r)} make '
           f'{[(a, show(b)) for a, b in got]} only, not '
           f'{[(a, show(b)) for a, b in want]}')
    for y in (m, n):
        t = read(plain_of(y))
        us, trs = unary(t)
        w = lex(y)
        expect([[a.rule.name, pc(a.cat)] for a in R.type_change([w])] == us
               and [[a.rule.name, pc(a.cat)] for a in R.type_raise([w])]
               == trs, lambda: f'type changes of {show(t)}')


# ---- parses --------------------------------------------------------------

SAY = [['the', [5]], ['cat', [0]], ['dogs', [0, 1]], ['big', [4]],
       ['sleep', [8, 15]], ['see', [9, 16]], ['give', [10, 11]],
       ['want', [12]], ['to', [14, 22]], ['today', [17]], ['in', [18, 7]],
       ['never', [19]], ['so', [20]], ['who', [23]], ['that', [24]],
       ['and', [25]], [',', [26]], [';', [27]], ['.', [28]], ['will', [13]],
       ['you', [1]], ['then', [21]]]
FRAMES = ['cat sleep', 'the cat see dogs', 'dogs sleep and sleep today',
          'the cat see dogs in dogs .', 'dogs and dogs sleep',
          'dogs , dogs and dogs sleep', 'cat want to sleep',
          'the dogs that you see sleep', 'you see and you see dogs',
          'you never give dogs the big cat', 'so , dogs sleep today .',
          'you will give dogs to dogs', 'big and big cat sleep',
          'cat sleep , and sleep', 'dogs who sleep see the cat then']
WORDS = dict(SAY)


@st.composite
def sentences(draw):
    if draw(st.integers(0, 3)):
        ws = draw(st.sampled_from(FRAMES)).split()
        if draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, len(ws) - 1))
            ws[i] = draw(st.sampled_from(SAY))[0]
        if draw(st.integers(0, 3)) == 0:
            i = draw(st.integers(0, len(ws)))
            ws.insert(i, draw(st.sampled_from(SAY))[0])
    else:
        ws = [w for w, _ in draw(st.lists(st.sampled_from(SAY), min_size=1,
                                          max_size=5))]
    few = len(ws) <= 5
    return {
        'ws': ws, 'seed': draw(st.integers(0, 10**6)),
        'more': [draw(st.lists(st.integers(0, 24), max_size=1 + few))
                 for _ in ws],
        'roots': draw(st.sampled_from([
            None, None, ['S[dcl]'], ['S', 'NP'], [r'S\NP', 'S[dcl]', 'N']])),
        'enf': draw(st.booleans()),
        'beam': draw(st.sampled_from([1, 2, 5, 10**6, 10**6])),
        'drop': draw(st.sampled_from([0, 0, 0, .1, .5])),
        'gap': draw(st.sampled_from([0, 0, 0, .2])),
        'weight': draw(st.sampled_from([1, .5]))}


def tags_of(x):
    r = random.Random(x['seed'])
    out = []
    for w, more in zip(x['ws'], x['more']):
        ids = dict.fromkeys(WORDS[w] + more)
        out.append([[plain_of(LEX[i]), math.log(r.uniform(.01, 1))]
                    for i in ids])
    n = len(out)
    spans = {}
    for i in range(n):
        for j in range(i, n):
            if j > i and j - i < n - 1 and r.random() < x['gap']:
                continue
            spans[i, j] = {k: math.log(r.uniform(.01, 1))
                           for k in range(len(CATS)) if r.random() < .7}
    return out, spans


def cat_id(t):
    """What the score of a derivation is looked up by."""
    c = pc(t.cat)
    if t.right is not None:
        if t.rule.name == 'CONJ':
            keys = [s for s in CATS if s.endswith('[conj]') and same(
                c, [read(s[:-6]), '\\', read(s[:-6])])]
        else:
            plain = [s for s in CATS if '::' not in s
                     and not s.endswith('[conj]')]
            keys = [s for s in plain if same(c, read(s))]
            if not keys and c[0] == 'NP':
                keys = ['NP']
    else:
        chain = [c, pc(t.left.cat)]
        if t.left.right is None and t.left.left is not None:
            chain.append(pc(t.left.left.cat))
        keys = [s for s in CATS if s.count('::') == len(chain) - 1
                and all(same(read(a), b)
                        for a, b in zip(s.split('::'), chain))]
    return CATS.index(keys[0]) if keys else None


def base(t):
    while t.right is None and t.left is not None:
        t = t.left
    return t


def score(t, i, x, tags, spans):
    """Score of a derivation that starts at word i; and its length."""
    b = base(t)
    if b.left is None:
        for tag, p in tags[i]:
            if same(read(tag), pc(b.cat)):
                break
        s, n = x['weight'] * p, 1
    else:
        s1, n1 = score(b.left, i, x, tags, spans)
        s2, n2 = score(b.right, i + n1, x, tags, spans)
        s, n = s1 + s2, n1 + n2
    if t.left is not None:
        sc = spans[i, i + n - 1]
        k = cat_id(t)
        s += (math.log(1e-4) if k is None else sc.get(k, math.log(1e-3)))
    return s, n


def leaves(t):
    if t.left is None:
        return [t]
    return leaves(t.left) + (leaves(t.right) if t.right else [])


def every(t):
    yield t
    for c in (t.left, t.right):
        if c is not None:
            yield from every(c)


def reference(p, x, tags, spans):
    """All cells, as lists of derivations; None if scores tie."""
    n = len(tags)
    top = (lambda ts: ts) if x['roots'] is None else (
        lambda ts: [t for t in ts if any(
            fits(read(c), pc(t.cat)) for c in x['roots'])])
    cells = {}

    def keep(i, j, ts):
        for t in ts:
            t.score = score(t, i, x, tags, spans)[0]
        by = {}
        for t in ts:
            by.setdefault(show(subst(pc(t.cat), ''))
                          .replace('[X]', ''), []).append(t)
        out = []
        for g in by.values():
            g.sort(key=lambda t: -t.score)
            if len(g) > 1 and abs(g[0].score - g[1].score) < 1e-9:
                return False
            out.append(g[0])
        out.sort(key=lambda t: -t.score)
        b = x['beam']
        if len(out) > b and abs(out[b - 1].score - out[b].score) < 1e-9:
            return False
        if out:
            cells[i, j] = out[:b]
        return True
    for i in range(n):
        ts = [Lexical(p.categories[t], x['ws'][i], i + 1) for t, _ in tags[i]]
        if n > 1 and (i, i) in spans:
            ts += p.rules.type_change(ts)
            ts += p.rules.type_raise(ts)
        if not keep(i, i, ts if n > 1 else top(ts)):
            return None
    for m in range(1, n):
        for i in range(n - m):
            if (i, i + m) not in spans:
                continue
            ts = []
            for k in range(i, i + m):
                for a in cells.get((i, k), []):
                    for b in cells.get((k + 1, i + m), []):
                        new = p.rules.combine(a, b)
                        if m < n - 1:
                            new += p.rules.type_change(new)
                            new += p.rules.type_raise(new)
                        ts += new
            if not keep(i, i + m, ts if m < n - 1 else top(ts)):
                return None
    return cells


def ccg_plain(t):
    names = {'N': 'n', 'NP': None, 'S': 's', 'PP': 'p', 'conj': 'conj'}
    if atomic(t):
        return 'punc' if punct(t) else names[t[0]] or ccg.plain(
            BobcatParser._to_biclosed(Category.parse('NP')))
    return [ccg_plain(t[0]), t[1], ccg_plain(t[2])]


def judge(t, x, g, ctx):
    """Whether a derivation is one of the grammar."""
    allowed = {(show(read(a)).replace('[X]', ''),
                show(read(b)).replace('[X]', '')) for a, b in g} \
        if g is not None else None
    for a in every(t):
        c = pc(a.cat)
        if a.left is None:
            continue
        if a.right is None:
            us, trs = unary(pc(a.left.cat))
            expect([a.rule.name, c] in us + trs,
                   lambda: f'{a.rule.name}: {a.left.cat} becomes {a.cat}')
            ok = a.left.rule.name == 'U' and [a.rule.name, c] in trs \
                or a.left.right is not None or a.left.left is None
            expect(ok, lambda: f'{a.rule.name} above {a.left.rule.name}')
            continue
        l, r = pc(a.left.cat), pc(a.right.cat)
        expect([a.rule.name, c] in binary(
            l, r, a.left.rule.name, a.right.rule.name, x['enf']),
            lambda: f'{a.rule.name}: {a.left.cat} ({a.left.rule.name}) and '
            f'{a.right.cat} ({a.right.rule.name}) become {a.cat}')
        ctx.label(a.rule.name)
        expect(allowed is None or tuple(
            show(q).replace('[X]', '') for q in (l, r)) in allowed,
            lambda: f'{a.left.cat} and {a.right.cat} are no pair of the '
            'grammar')


@check(P, 'parse', sentences, quick=2400, shards=6,
       rule='a parse of >= 4 words')
def parse(x, ctx):
    tags, spans = tags_of(x)
    n = len(tags)
    p = make(x['enf'], x['drop'], x['seed'], beam_size=x['beam'],
             root_cats=x['roots'], input_tag_score_weight=x['weight'])
    sent = Sentence(list(x['ws']),
                    [[Supertag(t, s) for t, s in ts] for ts in tags],
                    {k: dict(v) for k, v in spans.items()})
    res = p(sent)
    expect(bool(res) == (len(res) > 0), 'truth')
    got = list(res[:])
    ctx.nontrivial(n >= 4 and got)
    g = None
    if x['drop']:
        r = random.Random(x['seed'])
        g = [q for q in pairs() if r.random() >= x['drop']]
    last = math.inf
    for t in got:
        ls = leaves(t)
        expect([a.word for a in ls] == x['ws'], 'words')
        for i, a in enumerate(ls):
            expect(any(same(read(tag), pc(a.cat)) for tag, _ in tags[i]),
                   lambda: f'{a.word} has the category {a.cat}')
        judge(t, x, g, ctx)
        c = pc(t.cat)
        expect(x['roots'] is None or any(fits(read(q), c)
                                         for q in x['roots']),
               lambda: f'the root is {t.cat}')
        expect(n == 1 or t.right is not None, 'a type change at the root')
        s, _ = score(t, 0, x, tags, spans)
        expect(abs(s - t.score) < 1e-6,
               lambda: f'score {t.score}, expected {s}')
        expect(t.score <= last, 'parses are not sorted')
        last = t.score
    ref = reference(p, x, tags, spans)
    if ref is None:
        ctx.label('ties')
    else:
        want = ref.get((0, n - 1), [])
        expect(len(got) == len(want) and all(
            abs(a.score - b.score) < 1e-6 for a, b in zip(got, want))
            and all(any(same(pc(a.cat), pc(b.cat)) and abs(
                a.score - b.score) < 1e-6 for b in want) for a in got),
            lambda: f'{[(str(a.cat), a.score) for a in got]} are found, '
            f'{[(str(a.cat), a.score) for a in want]} exist')
    for t in got[:3]:
        tree(t, x, ctx)


def tree(t, x, ctx):
    """The CCG tree and the diagram of a parse."""
    T = BobcatParser._build_ccgtree(t)

    def walk(a, b):
        kids = [c for c in (b.left, b.right) if c is not None]
        want = b.rule.name if b.rule.name != 'ADJ_CONJ' else 'FA'
        expect(str(a.rule.value) == want and len(a.children) == len(kids)
               and ccg.plain(a.biclosed_type) == ccg_plain(pc(b.cat)),
               lambda: f'{a.rule} {a.biclosed_type} for {b.rule} {b.cat}')
        expect(a.metadata['original'] is b, 'metadata')
        for c, d in zip(a.children, kids):
            walk(c, d)
    walk(T, t)
    expect(T.text.split() == x['ws'], lambda: f'text {T.text!r}')
    odd = any(a.right is None
              and a.rule.name == 'U' and pc(a.cat)[0] != 'NP'
              or a.rule.name in ('LP', 'RP')
              and not (same(pc(a.cat), pc(a.left.cat))
                       or same(pc(a.cat), pc(a.right.cat)))
              for a in every(t))
    if odd:
        ctx.label('type changes with no diagram')
        return
    D = T.to_diagram()
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'{D!r}: {why}')
    cod = collapse(ccg_plain(pc(t.cat)))
    expect(p['cod'] == ([] if cod == 'punc' else ccg.gram(cod)),
           lambda: f"{t.cat} becomes a diagram of type {p['cod']}")
    ws = [b['name'] for _, b, _ in p['layers'] if b['cls'] == 'Word']
    it = iter(x['ws'])
    expect(all(w in it for w in ws), lambda: f'words {ws}')
    ctx.label('diagram')


# ---- the tagger and the reader -------------------------------------------

NPUN = len(CATS) + 1


def tokenise(inputs, is_split_into_words, return_offsets_mapping, **kw):
    """Words of k vowels have k + 1 tokens."""
    rows = []
    for sent in inputs:
        row = [(1, (0, 0))]
        for w in sent:
            m = 1 + sum(c in 'aeiou' for c in w)
            row += [(3 + (sum(map(ord, w)) * 7 + j) % 40, (j, j + 1))
                    for j in range(m)]
        rows.append(row + [(2, (0, 0))])
    n = max(map(len, rows))
    out = {'input_ids': [[t for t, _ in r] + [0] * (n - len(r))
                         for r in rows],
           'attention_mask': [[1] * len(r) + [0] * (n - len(r))
                              for r in rows]}
    if return_offsets_mapping:
        out['offset_mapping'] = [[o for _, o in r] + [(0, 0)] * (n - len(r))
                                 for r in rows]
    return out


NETS = {}


class Net(BertForChartClassification):
    """Installed versions of transformers have another way to initialise."""

    def init_weights(self):
        pass


def net(seed, scale):
    if seed not in NETS:
        torch.manual_seed(seed)
        m = Net(ChartClassifierConfig(
            tags=[plain_of(t) for t in LEX], cats=['', *CATS], vocab_size=50,
            hidden_size=16, num_hidden_layers=1, num_attention_heads=2,
            intermediate_size=16, max_position_embeddings=64)).eval()
        NETS[seed] = m
    m = NETS[seed]
    torch.manual_seed(seed)
    with torch.no_grad():
        for c in (m.tag_classifier, m.span_classifier):
            c.weight.normal_(0, scale)
            c.bias.normal_(0, .5)
        m.span_classifier.bias[0] += seed % 3 * 2
    return m


@st.composite
def tagging(draw):
    strat = st.sampled_from(['relative', 'absolute'])
    thr = st.sampled_from([0, .01, .05, .1, .5, 1])
    return {
        'sents': draw(st.lists(st.lists(st.sampled_from(
            [w for w, _ in SAY]), min_size=1, max_size=7), min_size=1,
            max_size=5)), 'seed': draw(st.integers(0, 7)),
        'scale': draw(st.sampled_from([.1, 1, 3])),
        'batch': draw(st.integers(1, 4)),
        'kw': {'tag_top_k': draw(st.sampled_from([0, 1, 2, 5, 100])),
               'tag_prob_threshold': draw(thr),
               'tag_prob_threshold_strategy': draw(strat),
               'span_top_k': draw(st.sampled_from([0, 1, 3, 100])),
               'span_prob_threshold': draw(thr),
               'span_prob_threshold_strategy': draw(strat)}}


def close(a, b):
    return len(a) == len(b) and all(
        i == j and abs(p - q) < 1e-4 for (i, p), (j, q) in zip(a, b))


def select(logits, top, thr, strategy):
    """What is kept of a row of scores; None if rounding decides."""
    v = logits.double()
    lp = (v - torch.logsumexp(v, -1)).tolist()
    order = sorted(range(len(lp)), key=lambda i: -lp[i])
    if top:
        if top < len(order) and abs(
                lp[order[top - 1]] - lp[order[top]]) < 1e-4:
            return None
        order = order[:top]
    if thr:
        low = math.log(thr) + (lp[order[0]] if strategy == 'relative' else 0)
        if any(abs(lp[i] - low) < 1e-4 and not (
                i == order[0] and strategy == 'relative') for i in order):
            return None
        order = [i for i in order if lp[i] >= low - 1e-6]
    if any(abs(lp[a] - lp[b]) < 1e-4 for a, b in zip(order, order[1:])):
        return None
    return [(i, lp[i]) for i in order]


def rows_of(model, sent):
    """Scores of a sentence on its own: per word and per span."""
    e = tokenise([sent], True, True)
    first = [k for k, (a, b) in enumerate(e['offset_mapping'][0])
             if a == 0 and b]
    with torch.no_grad():
        h = model.bert(
            input_ids=torch.tensor(e['input_ids']),
            attention_mask=torch.tensor(e['attention_mask']))[0][0, first]
        words = model.tag_classifier(h)
        n = len(sent)
        spans = {(i, j): model.span_classifier(torch.cat([h[i], h[j]]))
                 for i in range(n) for j in range(i, n)}
    return words, spans


def ordered(out, n):
    return [(a, b) for a, b, _ in out], sorted(
        (a, b) for a in range(n) for b in range(a, n))


@check(P, 'tagger', tagging, quick=400, shards=2,
       rule='>= 2 sentences of different length in one batch')
def tagger(x, ctx):
    m = net(x['seed'], x['scale'])
    ls = {len(s) for s in x['sents'][:x['batch']]}
    ctx.nontrivial(len(ls) > 1)
    with torch.no_grad():
        out = Tagger(m, tokenise, batch_size=x['batch'], **x['kw'])(
            x['sents'], verbose='suppress')
    expect(out.tags == [plain_of(t) for t in LEX] and out.cats == ['', *CATS]
           and [s.words for s in out.sentences] == x['sents'], 'sentences')
    kw = x['kw']
    for sent, o in zip(x['sents'], out.sentences):
        words, spans = rows_of(m, sent)
        expect(len(o.tags) == len(sent), 'tags')
        for w, row, got in zip(sent, words, o.tags):
            want = select(row, kw['tag_top_k'], kw['tag_prob_threshold'],
                          kw['tag_prob_threshold_strategy'])
            expect(want is None or close(got, want),
                   lambda: f'{w} has the tags {got}, expected {want}')
        got = {(i, j): v for i, j, v in o.spans}
        expect(len(got) == len(o.spans) and set(got) <= set(spans), 'spans')
        for (i, j), row in spans.items():
            want = select(row, kw['span_top_k'], kw['span_prob_threshold'],
                          kw['span_prob_threshold_strategy'])
            if want is not None:
                want = [w for w in want if w[0] != 0]
                expect(close(got.get((i, j), []), want)
                       and ((i, j) in got) == bool(want),
                       lambda: f'span {i, j} has {got.get((i, j))}, '
                       f'expected {want}')


def bobcat(tag, roots=None, **kw):
    b = BobcatParser.__new__(BobcatParser)
    b.verbose, b.tagger = 'suppress', tag
    b.parser = make(True, root_cats=roots, **kw)
    return b


class Tags:
    """A tagger that gives the words of frames their categories."""

    def __init__(self, xs):
        self.xs = {tuple(x['ws']): x for x in xs if x}
        self.seen = []

    def __call__(self, sents, verbose=None):
        self.seen += [list(s) for s in sents]
        tags = [plain_of(t) for t in LEX]
        out = []
        for s in sents:
            x = self.xs[tuple(s)]
            ts, spans = tags_of(x)
            ts = [[(tags.index(t), p) for t, p in w] for w in ts]
            if x['bare'] is not None:
                ts[x['bare'] % len(ts)] = []
            out.append(py.SimpleNamespace(
                words=list(s), tags=ts,
                spans=[(i, j, list(v.items()))
                       for (i, j), v in spans.items()]))
        return py.SimpleNamespace(tags=tags, cats=['', *CATS],
                                  sentences=out)


@st.composite
def reading(draw):
    xs = []
    for _ in range(draw(st.integers(1, 4))):
        x = draw(st.one_of(sentences(), sentences(), st.none()))
        if x:
            x['bare'] = draw(st.sampled_from([None, None, None, 0, 1, 2, 3]))
            if any(y and y['ws'] == x['ws'] for y in xs):
                continue
        xs.append(x)
    return {'xs': xs, 'tok': draw(st.booleans()),
            'roots': draw(st.sampled_from([None, ['S[dcl]'],
                                           ['S[dcl]', 'NP']]))}


def plain_tree(T):
    return [str(T.rule.value), ccg.plain(T.biclosed_type),
            T.text if not T.children else None,
            [plain_tree(c) for c in T.children]]


@check(P, 'reader', reading, quick=500, shards=2,
       rule='>= 2 sentences, of which one fails and one does not')
def reader(c, ctx):
    want = []
    b = bobcat(None, c['roots'])
    for x in c['xs']:
        T = None
        if x and x['bare'] is None:
            tags, spans = tags_of(x)
            res = b.parser(Sentence(
                list(x['ws']),
                [[Supertag(t, s) for t, s in ts] for ts in tags], spans))
            if res:
                T = plain_tree(BobcatParser._build_ccgtree(res[0]))
        want.append(T)
        if x and x['bare'] is not None:
            ctx.label('a word without tags')
    fail = [w is None for w in want]
    ctx.nontrivial(len(want) > 1 and any(fail) and not all(fail))
    sents = [x['ws'] if x else [] for x in c['xs']]
    if not c['tok']:
        sents = [' '.join(s) for s in sents]
    b.tagger = Tags(c['xs'])

    def view(ts):
        return [t and plain_tree(t) for t in ts]
    got = view(b.sentences2trees(sents, tokenised=c['tok'],
                                 suppress_exceptions=True))
    expect(got == want, lambda: f'{got}, expected {want}')
    expect(b.tagger.seen == [x['ws'] for x in c['xs'] if x],
           'words that are tagged')
    for x, s, w in zip(c['xs'], sents, want):
        b.tagger = Tags([x])
        try:
            t = b.sentence2tree(s, tokenised=c['tok'])
        except (BobcatParseError if x else ValueError) as e:
            expect(w is None, lambda: f'refused: {e}')
            expect(x is None or ' '.join(x['ws']) in str(e), 'message')
        else:
            expect(plain_tree(t) == w, lambda: f'{plain_tree(t)}, not {w}')


# ---- a model on disk -----------------------------------------------------

DEFAULTS = {
    'tagger': {'batch_size': 2, 'tag_top_k': 3, 'tag_prob_threshold': .01,
               'tag_prob_threshold_strategy': 'relative', 'span_top_k': 2,
               'span_prob_threshold': .01,
               'span_prob_threshold_strategy': 'relative'},
    'parser': {'eisner_normal_form': True, 'max_parse_trees': 10**6,
               'beam_size': 10**6, 'input_tag_score_weight': 1.,
               'missing_cat_score': 1e-3, 'missing_span_score': 1e-4}}
OTHER = {'batch_size': [1, 4], 'tag_top_k': [0, 1, 2, 100],
         'tag_prob_threshold': [.05, .5],
         'tag_prob_threshold_strategy': ['absolute'], 'span_top_k': [0, 1, 3],
         'span_prob_threshold': [.1],
         'span_prob_threshold_strategy': ['absolute'],
         'eisner_normal_form': [False], 'max_parse_trees': [3],
         'beam_size': [1, 2], 'input_tag_score_weight': [0., 2.5],
         'missing_cat_score': [0, .5], 'missing_span_score': [0, .9]}


@st.composite
def directory(draw):
    def some(k):
        return {n: draw(st.sampled_from(OTHER[n])) for n in draw(st.lists(
            st.sampled_from(sorted(OTHER)), unique=True, max_size=k))}
    return {
        'seed': draw(st.integers(0, 7)),
        'scale': draw(st.sampled_from([.1, 1, 3])),
        'disk': some(4), 'kw': some(4),
        'wrong': draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1])),
        'drop': draw(st.sampled_from([0, 0, .3])),
        'roots': draw(st.sampled_from([None, None, ['S[dcl]'],
                                       ['NP', 'S[dcl]']])),
        'verbose': draw(st.sampled_from(['suppress', 'text', 'progress'])),
        'sents': draw(st.lists(st.lists(st.sampled_from(
            [w for w, _ in SAY]), max_size=4), min_size=1, max_size=4))}


def simple(x):
    return {k: v for k, v in vars(x).items()
            if isinstance(v, (int, float, str))}


@check(P, 'directory', directory, quick=240, shards=3,
       rule='a sentence is parsed, and an option of the caller overrides one '
       'on disk')
def load(x, ctx):
    m = net(x['seed'], x['scale'])
    conf = {k: {n: x['disk'].get(n, v) for n, v in part.items()}
            for k, part in DEFAULTS.items()}
    full = {k: {n: x['kw'].get(n, v) for n, v in part.items()}
            for k, part in conf.items()}
    g = grammar(x['drop'], x['seed'])
    used = []

    def model(path, *a, **kw):
        used.append(['model', str(path)])
        return m

    def toks(path, *a, **kw):
        used.append(['tokeniser', str(path)])
        return tokenise
    where = 'lambeq.text2diagram.model_based_reader.bobcat_parser.'
    kw = dict(x['kw'])
    if x['wrong']:
        kw['beam_width'] = 3
    with tempfile.TemporaryDirectory(prefix='lbverif-c07') as tmp, \
            mock.patch(where + 'BertForChartClassification.from_pretrained',
                       model), \
            mock.patch(where + 'AutoTokenizer.from_pretrained', toks), \
            mock.patch.object(m.config, 'cats', [';', *CATS]), \
            contextlib.redirect_stderr(io.StringIO()):
        with open(f'{tmp}/pipeline_config.json', 'w') as f:
            json.dump(conf, f)
        with open(f'{tmp}/grammar.json', 'w') as f:
            json.dump({'categories': g.categories,
                       'binary_rules': g.binary_rules,
                       'type_changing_rules': g.type_changing_rules,
                       'type_raising_rules': g.type_raising_rules}, f)
        roots = x['roots'] and list(x['roots'])
        try:
            b = BobcatParser(tmp, root_cats=roots, verbose=x['verbose'], **kw)
        except TypeError as e:
            expect(x['wrong'] and 'beam_width' in str(e)
                   and not any(repr(k) in str(e) for k in x['kw']),
                   lambda: f'{e}')
            ctx.label('unknown option')
            return
        expect(not x['wrong'], 'an unknown option is taken')
        expect(sorted(used) == [['model', tmp], ['tokeniser', tmp]],
               lambda: f'{used}')
        with torch.no_grad():
            T2 = Tagger(m, tokenise, **full['tagger'])
            P2 = ChartParser(g, [';', *CATS], x['roots'], **full['parser'])
            for a, c in ((b.tagger, T2), (b.parser, P2)):
                a, c = simple(a), simple(c)
                expect(a == c, lambda: f'{a} with {full}, rather than {c}')
            out = T2([s for s in x['sents'] if s], verbose='suppress')
        res = iter(out.sentences)
        want = []
        for s in x['sents']:
            T = None
            if s:
                o = next(res)
                try:
                    T = P2(Sentence(o.words, [
                        [Supertag(out.tags[i], p) for i, p in w]
                        for w in o.tags], {
                            (i, j): dict(v) for i, j, v in o.spans}))[0]
                except (IndexError, KeyError, ValueError):
                    pass
                T = T and plain_tree(BobcatParser._build_ccgtree(T))
            want.append(T)
        ctx.nontrivial(any(want) and any(
            full[k][n] != conf[k][n] for k in full for n in full[k]))
        with torch.no_grad():
            got = b.sentences2trees(x['sents'], tokenised=True,
                                    suppress_exceptions=True)
        got = [t and plain_tree(t) for t in got]
        expect(got == want, lambda: f'with {full} there should be {want}, '
               f'not {got}')
