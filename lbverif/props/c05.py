"""C05: readers combine all words of a sentence in the announced shape."""
from hypothesis import strategies as st

from lambeq import text2diagram as T2D
from lambeq.backend import grammar as G
from lambeq.text2diagram.ccg_parser import CCGParser
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.c03 import (collapse, deriv, mk, nodes, swapped,
                               words as leaves)

P = 'C05'
prop(P, ['the parser of the tree reader is a stand-in that returns generated '
         'derivations'])

WORDS = ['the', 'cat', 'Sat', "o'er", 'é', 'a-b', 'cat']
S = ['s', 0]


@st.composite
def sent(draw):
    ws = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=6))
    seps = draw(st.lists(st.sampled_from([' ', '  ', '\t', ' \n']),
                         min_size=6, max_size=6))
    txt = ''.join(a + b for a, b in zip(ws, seps))
    if draw(st.booleans()):
        txt = ' ' + txt
    k = draw(st.integers(1, 2))
    wt = draw(gr.types(1, 2, names='ns', zs=(0, 0, 1)))
    return {'ws': ws, 'txt': txt, 'wt': wt, 'k': k,
            'ins': draw(st.integers(2, 3)),
            'start': draw(st.sampled_from([None, None, 'word', 'box'])),
            'tok': draw(st.booleans()), 'sp': draw(st.booleans())}


def view(D):
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'{D!r}: {why}')
    return p


def read(r, s, **kw):
    return (r.sentence2diagram(s['ws'], tokenised=True, **kw) if s['tok']
            else r.sentence2diagram(s['txt'], **kw))


def flat(p):
    return [[b['cls'], b['name'], len(l)] for l, b, _ in p['layers']]


@check(P, 'linear', sent, quick=1500, shards=2,
       rule='>= 3 words')
def linear(s, ctx):
    ws, n = s['ws'], len(s['ws'])
    ctx.nontrivial(n >= 3)
    # cups: START w1 ... wn linked in a chain
    p = view(read(T2D.cups_reader, s))
    expect(p['dom'] == [] and p['cod'] == [S], 'cups: type')
    expect(flat(p) == [['Word', 'START', 0]]
           + [['Word', w, 1 + 2 * i] for i, w in enumerate(ws)]
           + [['Cup', 'CUP', 0]] * n, lambda: f'cups: {flat(p)}')
    expect([b['cod'] for _, b, _ in p['layers'][:n + 1]]
           == [[S]] + [[['s', 1], S]] * n, 'cups: types of words')
    # stairs
    p = view(read(T2D.stairs_reader, s))
    expect(flat(p) == [['Word', w, i] for i, w in enumerate(ws)]
           + [['Box', 'STAIR', 0]] * (n - 1) and p['cod'] == [S],
           lambda: f'stairs: {flat(p)}')
    # spiders: one leg for every word
    p = view(read(T2D.spiders_reader, s))
    expect(p['dom'] == [] and p['cod'] == [S], 'spiders: type')
    expect(flat(p)[:n] == [['Word', w, i] for i, w in enumerate(ws)],
           lambda: f'spiders: {flat(p)}')
    rest = p['layers'][n:]
    expect(len(rest) <= 1 and all(b['cls'] == 'Spider' for _, b, _ in rest)
           and (rest or n == 1), lambda: f'spiders: {flat(p)}')
    if rest:
        expect(rest[0][1]['dom'] == [S] * n and rest[0][1]['cod'] == [S],
               'spiders: legs')
    expect(T2D.bag_of_words_reader is T2D.spiders_reader
           and T2D.word_sequence_reader is T2D.cups_reader, 'aliases')
    # any combining diagram
    wt = s['wt']
    k = s['ins']
    start = {None: G.Id(), 'word': G.Word('GO', gr.mk_ty(wt)).to_diagram(),
             'box': G.Box('GO', G.Ty(), gr.mk_ty(wt)).to_diagram()}[
        s['start']]
    tot = len(wt) * (n + (s['start'] is not None))
    if (tot - 1) % (k - 1) == 0 and all(w == wt[0] for w in wt):
        # k wires become one until one is left
        C = G.Box('C', gr.mk_ty([wt[0]] * k), gr.mk_ty(wt[:1]))
        R = T2D.LinearReader(C.to_diagram(), gr.mk_ty(wt), start)
        p = view(read(R, s))
        pre = [] if s['start'] is None else [
            [s['start'].capitalize(), 'GO', 0]]
        off = len(wt) * len(pre)
        expect(flat(p) == pre + [['Word', w, off + len(wt) * i]
                                 for i, w in enumerate(ws)]
               + [['Box', 'C', 0]] * ((tot - 1) // (k - 1))
               and p['cod'] == wt[:1], lambda: f'combining: {flat(p)}')
        ctx.label(f'{k} to 1')
    # batches and wrong arguments
    for R in (T2D.cups_reader, T2D.stairs_reader, T2D.spiders_reader):
        got = R.sentences2diagrams([s['txt'], 'a b'])
        expect(got == [R.sentence2diagram(s['txt']),
                       R.sentence2diagram('a b')], 'batch')
        got = R.sentences2diagrams([ws, ['a b']], tokenised=True)
        expect(got == [R.sentence2diagram(ws, tokenised=True),
                       R.sentence2diagram(['a b'], tokenised=True)], 'batch')
        expect(gr.p_diag(R.sentence2diagram(ws, tokenised=True))
               == gr.p_diag(R.sentence2diagram(s['txt'])), 'tokens')
        for bad, tok in ((ws, False), (s['txt'], True)):
            try:
                R.sentence2diagram(bad, tokenised=tok)
            except ValueError:
                continue
            expect(False, f'{bad!r} is accepted with tokenised={tok}')


class Fixed(CCGParser):
    """Returns given trees, or fails."""

    def __init__(self, trees):
        super().__init__()
        self.trees, self.seen = trees, []

    def sentences2trees(self, sentences, tokenised=False,
                        suppress_exceptions=False, verbose=None):
        self.seen += [(s, tokenised) for s in sentences]
        out = []
        for s in sentences:
            k = ''.join(s)
            if k not in self.trees:
                if not suppress_exceptions:
                    raise KeyError(k)
                out.append(None)
            else:
                out.append(self.trees[k])
        return out


@st.composite
def tree_case(draw):
    return {'d': draw(deriv(depth=4)), 'wt': draw(gr.types(1, 2)),
            'col': draw(st.booleans()), 'tok': draw(st.booleans()),
            'call': draw(st.booleans())}


def shown(t):
    if t is None:
        return '()'
    if isinstance(t, str):
        return t
    l, r = [shown(x) if not isinstance(x, list) else f'({shown(x)})'
            for x in (t[0], t[2])]
    return l + t[1] + r


def resolved(d):
    """The derivation after type changes: [rule, type, children]."""
    if 'w' in d:
        return ['L', d['o'], d['w']]
    if d['r'] == 'U' and not swapped(d):
        return resolved(d['c'][0])
    r = d['r']
    if r == 'CONJ':
        r = 'FA' if d['c'][0]['t'] in ('conj', 'punc') else 'BA'
    return [r, d['o'], [resolved(c) for c in d['c']]]


def height(t):
    return 0 if t[0] == 'L' else 1 + max(map(height, t[2]))


def tree_layers(t, wt, mode):
    """Boxes of the tree diagram: words, then rule boxes bottom up; as a
    term of nested lists."""
    if t[0] == 'L':
        return ['Word', t[2]]
    name = {'NO_TYPE': 'UNIBOX', 'RULE_ONLY': t[0],
            'HEIGHT': f'layer_{height(t)}'}.get(
        mode, f'{t[0]}({", ".join(shown(c[1]) for c in t[2])})')
    return ['Box', name] + [tree_layers(c, wt, mode) for c in t[2]]


def term(p, wt):
    """Read the diagram back as a term, or None."""
    k = len(wt)
    stack = []
    for l, b, r in p['layers']:
        if len(l) % k or len(b['dom']) % k or b['cod'] != wt:
            return None
        i, n = len(l) // k, len(b['dom']) // k
        if b['dom'] != wt * n:
            return None
        stack[i:i + n] = [[b['cls'], b['name']] + stack[i:i + n]]
    return stack[0] if len(stack) == 1 else None


@check(P, 'tree', tree_case, quick=1200, shards=3,
       rule='a derivation of >= 3 words with >= 2 rules')
def tree(s, ctx):
    d0, wt = s['d'], s['wt']
    ctx.nontrivial(len(leaves(d0)) >= 3
                   and len({x.get('r') for x in nodes(d0)} - {None}) >= 2)
    d = collapse(d0) if s['col'] else d0
    t = resolved(d)
    ctx.label('type change' if any(x.get('t') != x.get('o')
                                   for x in nodes(d)) else 'plain')
    T = mk(d0)
    parser = Fixed({'ab': T})
    txt = ['a', 'b'] if s['tok'] else 'ab'
    for mode in T2D.TreeReaderMode:
        R = T2D.TreeReader(parser if s['call'] else (lambda: parser), mode,
                           gr.mk_ty(wt))
        D = R.sentence2diagram(txt, tokenised=s['tok'],
                               collapse_noun_phrases=s['col'])
        p = view(D)
        want = tree_layers(t, wt, mode.name)
        expect(p['dom'] == [] and p['cod'] == wt, 'type')
        got = term(p, wt)
        expect(got == want, lambda: f'{T.deriv(vertical=True)} reads in mode '
                                    f'{mode.name} as {got}, expected {want}')
        expect(R.sentence2diagram('zz', suppress_exceptions=True) is None,
               'suppressed error')
        try:
            R.sentence2diagram('zz')
        except KeyError:
            pass
        else:
            expect(False, 'no error')
    expect(gr.p_diag(T2D.TreeReader(parser).sentence2diagram(
        txt, tokenised=s['tok'], collapse_noun_phrases=s['col'])) == gr.p_diag(
            T2D.TreeReader.tree2diagram(mk(d))), 'default mode and type')
    expect(list(T2D.TreeReader.available_modes())
           == list(T2D.TreeReaderMode), 'modes')
    expect(all(x[0] == txt and x[1] == s['tok'] for x in parser.seen
               if 'zz' not in x[0]), 'what the parser was given')
    for bad in ({'mode': 'NO_TYPE'}, {'ccg_parser': 3},
                {'ccg_parser': lambda: 3}):
        try:
            T2D.TreeReader(**{'ccg_parser': parser, **bad})
        except ValueError:
            continue
        expect(False, lambda: f'{bad} is accepted')
