"""K01: tokenisers keep the text, in order, whatever the batch."""
import logging
from unittest import mock

from hypothesis import strategies as st
import spacy

from lambeq.core.utils import get_spacy_tokeniser
from lambeq.tokeniser import SpacyTokeniser, Tokeniser
from lbverif.core import check, expect, prop

P = 'K01'
prop(P, ['the spaCy model is a stand-in: the tokeniser of English, without '
         'the statistical parts, and the downloads only count'])

WORDS = ['the', 'cat', "don't", 'U.S.', 'Mr.', 'e.g.', '3.5', '$5', 'é',
         '日本', 'a-b', '"hi"', "it's", '(so)', 'so...', 'end.', 'Why?', 'No!',
         'I', 'gonna', 'x@y.org', 'http://a.b/c?d=e', ':)', '10km', "o'clock",
         '—', '“q”', '\u200b', '...', '?!', 'A.', 'cannot', '50%', '#tag',
         '[ROOT]', '_', '*', 'ﬁ', 'e\u0301', '👍🏽', '1,000.', "'s", 's\'']
GAPS = [' ', ' ', ' ', '  ', '\t', '\n', '\n\n', ' \n', '\u00a0', '\u2003',
        '\r\n', '\x0b', '']


@st.composite
def texts(draw, lo=0):
    out = draw(st.sampled_from(['', '', ' ', '\n']))
    for w in draw(st.lists(st.one_of(st.sampled_from(WORDS), st.text(
            'ab.?! ,;\'"-\n\té', min_size=1, max_size=6)),
            min_size=lo, max_size=9)):
        out += w + draw(st.sampled_from(GAPS))
    return out


MODEL = []


class Loader:
    """spacy.load and spacy.cli.download."""

    def __init__(self, missing=False):
        self.missing, self.log = missing, []

    def load(self, name, *a, **kw):
        self.log.append(['load', name])
        if self.missing:
            raise OSError(f"Can't find model {name}")
        if not MODEL:
            MODEL.append(spacy.blank('en'))
        return MODEL[0]

    def download(self, name, *a, **kw):
        self.log.append(['download', name])
        self.missing = False

    def __enter__(self):
        self.ps = [mock.patch.object(spacy, 'load', self.load),
                   mock.patch.object(spacy.cli, 'download', self.download)]
        logging.disable(logging.CRITICAL)
        for p in self.ps:
            p.start()
        return self

    def __exit__(self, *a):
        logging.disable(logging.NOTSET)
        for p in self.ps:
            p.stop()


ONE = []


def make():
    if not ONE:
        with Loader():
            ONE.append(SpacyTokeniser())
    return ONE[0]


def bare(s):
    return ''.join(s.split())


@check(P, 'words', lambda: st.fixed_dictionaries({
    'xs': st.lists(texts(), max_size=5),
    'how': st.sampled_from(['list', 'tuple', 'generator'])}), quick=2000,
    rule='>= 2 sentences, one with punctuation attached to a word')
def words(c, ctx):
    t = make()
    xs = c['xs']
    arg = {'list': list, 'tuple': tuple, 'generator': iter}[c['how']](xs)
    got = t.tokenise_sentences(arg)
    expect(isinstance(got, list) and len(got) == len(xs),
           lambda: f'{len(xs)} sentences give {got!r}')
    for x, ws in zip(xs, got):
        expect(isinstance(ws, list) and all(type(w) is str for w in ws),
               lambda: f'{ws!r}')
        expect(''.join(ws) == bare(x) and all(w and not w.isspace()
                                              for w in ws),
               lambda: f'{x!r} has the tokens {ws!r}')
        # a token never goes across white space
        at, ends = 0, set()
        for p in x.split():
            at += len(p)
            ends.add(at)
        at, cuts = 0, {0}
        for w in ws:
            at += len(w)
            cuts.add(at)
        expect(ends <= cuts, lambda: f'{x!r} has the tokens {ws!r}')
        expect(t.tokenise_sentence(x) == ws, lambda: f'{x!r} on its own has '
               f'the tokens {t.tokenise_sentence(x)!r}, in a batch {ws!r}')
        again = t.tokenise_sentence(' '.join(x.split()))
        expect(again == ws, lambda: f'{x!r} has the tokens {ws!r}, and '
               f'without the extra spaces {again!r}')
        nlp = [str(w) for w in spacy_(' '.join(x.split()))]
        expect(nlp == ws, lambda: f'{x!r} has the tokens {ws!r}, spaCy says '
               f'{nlp}')
    ctx.nontrivial(len(xs) > 1 and any(
        len(ws) > len(x.split()) for x, ws in zip(xs, got)))


def spacy_(text):
    return MODEL[0](text)


@check(P, 'sentences', texts, quick=2000,
       rule='>= 2 sentences')
def sentences(x, ctx):
    t = make()
    got = t.split_sentences(x)
    expect(isinstance(got, list) and all(type(s) is str for s in got),
           lambda: f'{got!r}')
    expect(bare(''.join(got)) == bare(x), lambda: f'{x!r} is split into '
           f'{got!r}')
    at = 0
    for s in got:       # one after another, each a part of the text
        k = x.find(s, at)
        expect(k >= 0 and not x[at:k].strip(), lambda: f'{x!r} is split into '
               f'{got!r}')
        at = k + len(s)
    expect(not x[at:].strip(), lambda: f'{x!r} is split into {got!r}')
    ctx.nontrivial(len(got) > 1)
    # words do not depend on where the sentences are put
    if len(got) > 1:
        expect([bare(s) for s in t.split_sentences(x)]
               == [bare(s) for s in got], 'again')
    # an end, and a capital letter after it
    plain = 'The cat sat. ' + 'A dog ran! '
    expect([s.strip() for s in t.split_sentences(plain)]
           == ['The cat sat.', 'A dog ran!'], 'two sentences are not two')


class Own(Tokeniser):
    def __init__(self):
        self.calls = []

    def split_sentences(self, text):
        return text.split('.')

    def tokenise_sentences(self, sentences):
        sentences = list(sentences)
        self.calls.append(sentences)
        return [s.split() for s in sentences]


@check(P, 'loading', lambda: st.fixed_dictionaries({
    'missing': st.booleans(), 'x': texts(1),
    'model': st.sampled_from([None, 'en_core_web_sm', 'de', 'a/b'])}),
    quick=200, rule='the model has to be downloaded')
def loading(c, ctx):
    ctx.nontrivial(c['missing'])
    m = c['model'] or 'en_core_web_sm'
    want = [['load', m]]
    if c['missing']:
        want += [['download', m], ['load', m]]
    with Loader(c['missing']) as log:
        got = get_spacy_tokeniser(*[c['model']] * (c['model'] is not None))
    expect(got is MODEL[0] and log.log == want,
           lambda: f'{log.log} instead of {want}')
    with Loader(c['missing']) as log:
        t = SpacyTokeniser()
    expect(t.tokenise_sentence(c['x']) == make().tokenise_sentence(c['x']),
           'another tokeniser gives other tokens')
    expect(log.log == [[a, 'en_core_web_sm'] for a, _ in want],
           lambda: f'{log.log}')
    o = Own()
    expect(o.tokenise_sentence(c['x']) == c['x'].split()
           and o.calls == [[c['x']]], 'tokenise_sentence')
