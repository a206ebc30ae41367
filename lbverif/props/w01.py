"""W01: web and third-party CCG parsers give the derivations they were sent.
"""
import copy
import json
import sys
import types
from unittest import mock
from urllib.parse import parse_qs, urlsplit

from hypothesis import strategies as st
import requests

from lambeq.text2diagram.ccg_rule import CCGRule
from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType
from lambeq.text2diagram.depccg_parser import (DepCCGParseError,
                                               DepCCGParser)
from lambeq.text2diagram.web_parser import WebParseError, WebParser
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'W01'
prop(P, ['the web service and the depccg package are stand-ins: neither is '
         'there without a network'])

# Derivation: {'c': category, 'r': rule, 'k': [...]} or {'c', 'w': word}

AT = ['N', 'NP', 'S', 'PP']
GIVEN = {'N': CCGType.NOUN, 'NP': CCGType.NOUN_PHRASE, 'S': CCGType.SENTENCE,
         'PP': CCGType.PREPOSITIONAL_PHRASE, 'conj': CCGType.CONJUNCTION,
         'punc': CCGType.PUNCTUATION}


def mk_type(c):
    if isinstance(c, str):
        return GIVEN[c]
    return CCGType(result=mk_type(c[0]), direction=c[1],
                   argument=mk_type(c[2]))


class Gen:
    def __init__(self, draw, words):
        self.draw, self.words = draw, words

    def pick(self, *xs):
        return self.draw(st.sampled_from(xs))

    def cat(self, d=1):
        return self.draw(ccg.cats(d, AT))

    def node(self, c, n):
        """A derivation of c over n words."""
        if n == 1:
            x = self.pick(0, 0, 0, 1, 2)
            if x == 0:
                return {'c': c, 'w': self.draw(self.words)}
            if c == 'NP' and x == 1:
                return {'c': c, 'r': 'U', 'k': [self.node('N', 1)]}
            if not isinstance(c, str) and not isinstance(c[2], str) \
                    and c[2][0] == c[0] and c[2][1] != c[1]:
                return {'c': c, 'r': 'FTR' if c[1] == '/' else 'BTR',
                        'k': [self.node(c[2][2], 1)]}
            if x == 2:
                return {'c': c, 'r': 'U', 'k': [self.node(self.cat(), 1)]}
            return {'c': c, 'w': self.draw(self.words)}
        m = self.draw(st.integers(1, n - 1))
        rules = ['FA', 'FA', 'BA', 'BA', 'LP', 'RP', 'UNK']
        if not isinstance(c, str) and c[0] == c[2] and c[1] == '\\':
            rules += ['CONJ'] * 6
        if not isinstance(c, str):
            rules += ['FC', 'BX'] if c[1] == '/' else ['BC', 'FX']
            if not isinstance(c[0], str) and c[0][1] == c[1]:
                rules += (['GFC', 'GBX'] if c[1] == '/'
                          else ['GBC', 'GFX']) * 2
        r = self.pick(*rules)
        y = self.cat()
        if r == 'FA':
            k = [[c, '/', y], y]
        elif r == 'BA':
            k = [y, [c, '\\', y]]
        elif r in ('FC', 'FX'):
            k = [[c[0], '/', y], [y, c[1], c[2]]]
        elif r in ('BC', 'BX'):
            k = [[y, c[1], c[2]], [c[0], '\\', y]]
        elif r in ('GFC', 'GFX'):
            k = [[c[0][0], '/', y], [[y, c[0][1], c[0][2]], c[1], c[2]]]
        elif r in ('GBC', 'GBX'):
            k = [[[y, c[0][1], c[0][2]], c[1], c[2]], [c[0][0], '\\', y]]
        elif r == 'LP':
            k = [self.pick('conj', 'punc'), c]
        elif r == 'RP':
            k = [c, self.pick('conj', 'punc')]
        elif r == 'CONJ':
            k = ['conj', c[0]]
        else:
            k = [self.cat(), self.cat()]
        if r in ('LP', 'RP', 'CONJ'):
            i = k.index(next(x for x in k if x in ('conj', 'punc')))
            m = 1 if i == 0 else n - 1
        kids = []
        for x, num in zip(k, (m, n - m)):
            kids.append({'c': x, 'w': self.draw(self.words)}
                        if x in ('conj', 'punc') else self.node(x, num))
        return {'c': c, 'r': r, 'k': kids}


def leaves(t):
    return [t['w']] if 'w' in t else [w for k in t['k'] for w in leaves(k)]


def rules_of(t):
    return set() if 'w' in t else {t['r']}.union(*map(rules_of, t['k']))


def mk_tree(t, generic=False):
    if 'w' in t:
        return CCGTree(t['w'], biclosed_type=mk_type(t['c']), rule='L')
    kids = [mk_tree(k, generic) for k in t['k']]
    c, rule = mk_type(t['c']), CCGRule(t['r'])
    if generic and t['r'][0] == 'G':
        # The category may be that of another rule as well.
        rule = CCGRule.infer_rule([k.biclosed_type for k in kids], c)
        expect(rule != 'UNK', f'no rule for {t["r"]} to {c}')
    return CCGTree(rule=rule, biclosed_type=c, children=kids)


WORDS = st.sampled_from(['a', 'b', 'Claude', "n't", '&', 'a+b', '100%', '#',
                         'x=y', 'é', '日本', '"', '\\', 'a/b', '?', '</s>'])


@st.composite
def batch(draw, svc):
    words = WORDS if svc == 'web' else st.one_of(
        WORDS, st.sampled_from(['{', '<un>']))
    g = Gen(draw, words)
    items = []
    for _ in range(draw(st.integers(0, 5))):
        if g.pick(0, 0, 0, 0, 1):
            items.append({'blank': g.pick('', ' ', '\t \n')})
            continue
        if items and g.pick(0, 0, 0, 0, 0, 1):
            items.append(copy.deepcopy(items[0]))
            continue
        sl, y = g.pick('/', '\\'), g.cat()
        it = {'t': g.node(g.pick('S', 'NP', g.cat(), g.cat(2), [
            [g.cat(0), sl, g.cat(0)], sl, g.cat(0)], [y, '\\', y]),
                          draw(st.integers(1, 4))),
              'fate': g.pick('ok', 'ok', 'ok', 'ok', 'bad',
                             'conn' if svc == 'web' else 'bad'),
              'sep': g.pick(' ', ' ', '  ', '\t'),
              'pad': g.pick('', '', ' ', '\n')}
        items.append(it)
    return {'items': items, 'tok': g.pick(False, True),
            'sup': g.pick(False, True), 'wrong': g.pick(*[False] * 9, True),
            'api': g.pick('trees', 'trees', 'diagrams', 'tree', 'diagram'),
            'planar': g.pick(False, True), 'np': g.pick(False, True),
            'verbose': g.pick(None, 'progress', 'text', 'suppress'),
            'own': g.pick('progress', 'text', 'suppress'),
            'feat': g.pick('', 'nb', 'dcl'), 'par': g.pick(0, 0, 1)}


class Failed:
    def __init__(self, *kinds):
        self.kinds = kinds


def expected(s, generic):
    """One entry per sentence, or what is raised."""
    its = s['items']
    fates = {}
    out = []
    if not s['sup'] and any('blank' in i for i in its):
        return Failed(ValueError)
    for i in its:
        if 'blank' in i:
            out.append(None)
            continue
        words = tuple(leaves(i['t']))
        t, fate = fates.setdefault(words, (i['t'], i['fate']))
        if fate != 'ok':
            if not s['sup']:
                return Failed({'bad': (WebParseError, DepCCGParseError),
                               'conn': requests.RequestException}[fate])
            out.append(None)
        else:
            out.append(mk_tree(t, generic))
    if 'diagram' in s['api']:
        for k, t in enumerate(out):
            if t is not None:
                try:
                    out[k] = t.to_diagram(planar=s['planar'],
                                          collapse_noun_phrases=s['np'])
                except Exception as e:
                    if not s['sup']:
                        return Failed(type(e))
                    out[k] = None
    return out


def given(s):
    out = []
    for i in s['items']:
        if 'blank' in i:
            out.append([] if s['tok'] else i['blank'])
        elif s['tok']:
            out.append(leaves(i['t']))
        else:
            out.append(i['pad'] + i['sep'].join(leaves(i['t'])) + i['pad'])
    return out


def run(parser, s, ctx, verbose):
    single = s['api'] in ('tree', 'diagram')
    if single and s['items']:
        s = {**s, 'items': s['items'][:1]}
    elif single:
        s = {**s, 'api': s['api'] + 's'}
        single = False
    want = expected(s, isinstance(parser, DepCCGParser))
    xs = given(s)
    if s['wrong'] and xs:
        want = Failed(ValueError)
        s = {**s, 'tok': not s['tok']}
    kept = copy.deepcopy(xs)
    kw = {'tokenised': s['tok'], 'suppress_exceptions': s['sup']}
    if 'diagram' in s['api']:
        kw.update(planar=s['planar'], collapse_noun_phrases=s['np'])
    if not single:
        kw['verbose'] = verbose
    f = getattr(parser, {'trees': 'sentences2trees',
                         'diagrams': 'sentences2diagrams',
                         'tree': 'sentence2tree',
                         'diagram': 'sentence2diagram'}[s['api']])
    ctx.label(s['api'])
    if isinstance(want, Failed):
        ctx.label('raises')
        try:
            got = f(xs[0] if single else xs, **kw)
        except want.kinds[0]:
            expect(xs == kept, lambda: f'{kept!r} was changed into {xs!r}')
            return None
        expect(False, lambda: f'{f.__name__}({xs!r}, {kw}) gave {got!r} '
               f'instead of raising {want.kinds}')
    got = f(xs[0] if single else xs, **kw)
    if single:
        got = [got]
    expect(xs == kept, lambda: f'{kept!r} was changed into {xs!r}',
           'mutated')
    expect(len(got) == len(want) and all(
        (a is None) == (b is None) for a, b in zip(got, want)),
        lambda: f'{f.__name__}({xs!r}, {kw}) = {got!r}, not {want!r}')
    for a, b in zip(got, want):
        if isinstance(b, CCGTree):
            expect(a == b, lambda: 'derivation\n'
                   + json.dumps(a.to_json()) + '\ninstead of\n'
                   + json.dumps(b.to_json()))
        elif b is not None:
            expect(a == b, lambda: f'diagram {a!r} instead of {b!r}')
    return got


def rule_(s, ctx):
    ok = [i for i in s['items'] if 't' in i]
    ctx.nontrivial(len(s['items']) >= 2 and len(ok) >= 1
                   and max(len(leaves(i['t'])) for i in ok) >= 2)


# ---- the web service -----------------------------------------------------

def to_data(t, par):
    d = {'type': ccg.show(strip(t['c']))}
    if par and not isinstance(t['c'], str):
        d['type'] = f'({d["type"]})'
    if 'w' in t:
        d['text'] = t['w']
        d['rule'] = 'L'
    else:
        if t['r'] != 'UNK':
            d['rule'] = t['r']
        d['children'] = [to_data(k, par) for k in t['k']]
    return d


NAMES = {'N': 'n', 'NP': 'n.p', 'S': 's', 'PP': 'p.p'}


def strip(c):
    if isinstance(c, str):
        return {k: str(v) for k, v in GIVEN.items()}[c]
    return [strip(c[0]), c[1], strip(c[2])]


class Raw:
    """The body of an answer."""
    def __init__(self, data):
        self.data, self.pos = data, 0

    def stream(self, n, decode_content=None):
        while self.pos < len(self.data):
            self.pos += n
            yield self.data[self.pos - n:self.pos]

    def read(self, n=None, decode_content=None, **kw):
        out = self.data[self.pos:None if n is None else self.pos + n]
        self.pos += len(out)
        return out

    def close(self):
        pass

    release_conn = close


def answer(request, status, data, headers=None):
    r = requests.Response()
    r.status_code, r.raw, r.request, r.url = (status, Raw(data), request,
                                              request.url)
    r.headers.update(headers or {})
    r.encoding = requests.utils.get_encoding_from_headers(r.headers)
    return r


@check(P, 'web', lambda: batch('web'), quick=1600,
       rule='>= 2 sentences, one of >= 2 words that is sent')
def web(s, ctx):
    rule_(s, ctx)
    known = {}
    for i in s['items']:
        if 't' in i:
            known.setdefault(' '.join(leaves(i['t'])), i)

    def send(adapter, request, **kw):
        q = parse_qs(urlsplit(request.url).query, keep_blank_values=True)
        expect(list(q) == ['sentence'] and len(q['sentence']) == 1
               and q['sentence'][0] in known,
               lambda: f'asks for {request.url} ({q}), but the sentences are '
               f'{list(known)}')
        i = known[q['sentence'][0]]
        if i['fate'] == 'conn':
            raise requests.ConnectionError('no network')
        if i['fate'] == 'bad':
            return answer(request, 500, b'<html>Internal error</html>')
        return answer(request, 200, json.dumps(
            to_data(i['t'], s['par'])).encode(),
            {'content-type': 'application/json'})
    with mock.patch('requests.adapters.HTTPAdapter.send', send):
        p = WebParser(verbose=s['own'], **({'parser': 'DepCCG'}
                                           if s['par'] else {}))
        run(p, s, ctx, s['verbose'])


# ---- depccg --------------------------------------------------------------

class Cat:
    """A category of depccg."""
    def __init__(self, t, feat):
        self.is_functor = not isinstance(t, str)
        if self.is_functor:
            self.left, self.slash, self.right = (Cat(t[0], feat), t[1],
                                                 Cat(t[2], feat))
        else:
            self.base, self.feature = t, feat

    @classmethod
    def parse(cls, text):
        return ('category', text)


class Tree:
    """A derivation of depccg."""
    OPS = {'FA': ('fa', '>'), 'BA': ('ba', '<'), 'FC': ('fc', '>B'),
           'BX': ('bx', '<B'), 'BC': ('bc', '<B'), 'FX': ('fx', '>Bx'),
           'GFC': ('gfc', '>B1'), 'GBX': ('gbx', '<B1'),
           'GBC': ('gbx', '<B1'), 'GFX': ('gfc', '>B1'),
           'LP': ('lp', '<rp>'), 'RP': ('rp', '<rp>'),
           'CONJ': ('conj', '<Φ>'), 'UNK': ('other', '<*>'),
           'FTR': ('tr', '<un>'), 'BTR': ('tr', '<un>'),
           'U': ('lex', '<un>')}

    def __init__(self, t, feat):
        c = t['c']
        if c == 'punc':
            c = {',': ',', 'a': '.', 'b': ';', '(': 'LRB'}.get(
                t['w'], [':', 'RRB', ','][len(t['w']) % 3])
        self.cat = Cat(c, feat)
        self.is_leaf = 'w' in t
        self.children = [Tree(k, feat) for k in t.get('k', [])]
        self.word = ' '.join(leaves(t))
        self.op_string, self.op_symbol = (
            ('lex', '<lex>') if self.is_leaf else self.OPS[t['r']])


def fake_depccg(log, trees, feat):
    """A package that knows the derivations of some sentences."""
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        mods[name] = m
        if '.' in name:
            p, c = name.rsplit('.', 1)
            setattr(mods[p], c, m)
        return m

    class Tagger:
        def predict_doc(self, doc):
            return [('scores', tuple(x)) for x in doc], ['N', 'S']

    def annotate(sentences, tokenize=False):
        log['tokenize'] = tokenize
        return [[types.SimpleNamespace(word=w) for w in x]
                for x in sentences]

    def filters(doc, scores, cats, dictionary):
        assert cats == [('category', 'N'), ('category', 'S')]
        assert dictionary == 'dictionary'
        return doc, scores

    def run_(doc, scores, cats, roots, binary, unary, **kw):
        log.update(roots=roots, binary=binary, unary=unary, kw=kw)
        out = []
        for x, sc in zip(doc, scores):
            words = tuple(w.word for w in x)
            expect(words in trees and sc == ('scores', words),
                   lambda: f'{words} is parsed, but the sentences are '
                   f'{list(trees)}')
            i = trees[words]
            good = types.SimpleNamespace(
                tree=Tree(i['t'], feat),
                score=-3.5 if i['fate'] == 'ok' else float('-inf'))
            rest = types.SimpleNamespace(
                tree=Tree({'c': 'N', 'w': 'second'}, feat), score=-4.)
            out.append([good] + [rest] * (kw.get('nbest', 1) - 1))
        return out

    mods = {}
    module('depccg')
    module('depccg.allennlp')
    module('depccg.allennlp.utils', read_params=lambda c: (
        'binary', 'unary', 'dictionary', 'roots'))
    module('depccg.annotator', annotate_XX=annotate,
           english_annotator={'candc': annotate},
           japanese_annotator={'janome': annotate})
    module('depccg.cat', Category=Cat)
    module('depccg.lang', set_global_language_to=lambda x: log.update(lang=x))
    grammar = types.SimpleNamespace(
        apply_unary_rules=lambda *a, **k: ('own', a, k))
    module('depccg.instance_models', GRAMMARS={'en': grammar, 'ja': grammar},
           load_model=lambda m, d: (log.update(model=m, device=d), (
               Tagger(), types.SimpleNamespace(config='config')))[1])
    module('depccg.parsing', run=run_, apply_category_filters=filters)
    module('depccg.tree')
    return mods


@st.composite
def dep_case(draw):
    s = draw(batch('dep'))

    def flag(*xs):
        return draw(st.sampled_from(xs))
    s['init'] = flag({}, {}, {'nbest': 2}, {'lang': 'ja'},
                     {'model': 'elmo', 'device': 1},
                     {'use_model_unary_rules': True},
                     {'root_cats': ['NP', 'S[q]']}, {'tokenize': True})
    s['twice'] = flag(0, 0, 1)
    return s


@check(P, 'depccg', dep_case, quick=1600,
       rule='>= 2 sentences, one of >= 2 words that is parsed')
def depccg(s, ctx):
    rule_(s, ctx)
    init = s['init']
    trees = {}
    for i in s['items']:
        if 't' in i:
            trees.setdefault(tuple(leaves(i['t'])), i)
    for i in trees.values():
        for r in rules_of(i['t']):
            ctx.label(r)
    log = {}
    with mock.patch.dict(sys.modules, fake_depccg(log, trees, s['feat'])):
        p = DepCCGParser(**init)
        first = run(p, s, ctx, None)
        kept = first and list(first)
        if s['twice'] and trees:
            # Another call leaves the results of the first as they are.
            one = next(i for i in s['items'] if 't' in i)
            run(p, {**s, 'items': [one]}, ctx, None)
            expect(first is None or list(first) == kept,
                   lambda: f'another call changed {kept!r} to {first!r}')
    expect(log['lang'] == init.get('lang', 'en')
           and log['model'] == init.get('model')
           and log['device'] == init.get('device', -1),
           lambda: f'loaded {log} for {init}')
    if 'roots' in log:
        expect(log['kw'] == ({'nbest': 2} if 'nbest' in init else {})
               and log['binary'] == 'binary'
               and (log['unary'] == 'unary')
               == ('use_model_unary_rules' in init),
               lambda: f'parsed with {log} for {init}')
        if 'root_cats' in init:
            expect([x[1] for x in log['roots']] == init['root_cats'],
                   lambda: f'root categories {log["roots"]} for {init}')
        expect(log['tokenize'] == (init.get('tokenize', False)
                                   or 'lang' in init),
               lambda: f'tokenised: {log["tokenize"]} for {init}')
