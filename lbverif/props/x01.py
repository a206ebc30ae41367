"""X01: the DisCoCirc reader."""
import types as py

from hypothesis import strategies as st

import spacy.tokens
import spacy.vocab
from lambeq.experimental.discocirc import (CoreferenceResolver,
                                           DisCoCircReader,
                                           MaverickCoreferenceResolver,
                                           SpacyCoreferenceResolver,
                                           TreeRewriter, TreeRewriteRule)
from lambeq.text2diagram import BobcatParser, OncillaParser
from lambeq.text2diagram.pregroup_tree import PregroupTreeNode
from lambeq.text2diagram.pregroup_tree_converter import (generate_tree,
                                                         remove_cycles)
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'X01'
prop(P, ['parser and coreference resolver are stand-ins that return '
         'generated trees, diagrams and clusters',
         'a noun is a word of type n without children; coreference clusters '
         'are disjoint'])

N, S = ['n', 0], ['s', 0]
VP = [['n', 1], S]
TYPES = {'n': [N], 's': [S], 'vp': VP}
NOUNS = ['Alice', 'Bob', 'man', 'dog', 'he']
WORDS = {'n': ['big', 'The', 'a', 'who', 'man'],
         's': ['likes', 'gives', 'really', 'if', 'sleeps'],
         'vp': ['does', 'has', 'quickly', 'runs', 'sees']}


@st.composite
def sentence(draw, depth=3, cyclic=False):
    """{'w', 't', 'p'}: words, types and parents in order of the words;
    'gap': where a comma is that no parser returns."""
    w, t, p = [], [], []

    def node(kind, depth, up):
        leaf = kind == 'n' and (depth <= 0 or draw(st.integers(0, 2)))
        if leaf or depth <= 0:
            kids = []
        elif draw(st.integers(0, 3)) == 0:
            kids = [kind]
        else:
            kids = draw(st.lists(st.sampled_from(
                ['n', 'n', 'n', 'vp', 's', kind]), max_size=3))
        at = draw(st.integers(0, len(kids)))
        me = [None]
        mine = []
        for i, k in enumerate(kids + [None]):
            if i == at:
                me[0] = len(w)
                w.append(draw(st.sampled_from(
                    NOUNS if leaf else WORDS[kind])))
                t.append(TYPES[kind])
                p.append(up)
            if k:
                mine.append(node(k, depth - 1, me))
        return me

    kind = draw(st.sampled_from(['s', 's', 's', 's', 'n', 'vp']))
    node(kind, depth, [-1])
    p = [q[0] for q in p]
    x = {'w': w, 't': [[a] for a in t], 'p': [[q] for q in p],
         'gap': draw(st.sampled_from([None, None, 0, 1, 2])),
         'dot': draw(st.booleans())}
    if cyclic and len(w) > 2 and draw(st.booleans()):
        i = draw(st.integers(0, len(w) - 1))
        above, q = {i}, p[i]
        kids = [[j for j in range(len(w)) if p[j] == k]
                for k in range(len(w))]
        below, todo = set(), [i]
        while todo:
            k = todo.pop()
            below.add(k)
            todo += kids[k]
        free = [j for j in range(len(w)) if j not in below and j != q]
        if q >= 0 and free:
            x['p'][i].append(draw(st.sampled_from(free)))
            x['t'][i].append(TYPES[draw(st.sampled_from(['n', 'vp']))])
    return x


@st.composite
def texts(draw):
    cyc = draw(st.sampled_from([False, False, True]))
    sents = draw(st.lists(sentence(cyclic=cyc), min_size=1, max_size=4))
    nouns = [[i, j] for i, x in enumerate(sents)
             for j, t in enumerate(x['t']) if t[0] == [N]]
    group = [draw(st.integers(0, 4)) for _ in nouns]
    return {'s': sents, 'm': nouns, 'g': group,
            'single': draw(st.booleans()),
            'bobcat': draw(st.booleans()) if not cyc else False,
            'break': draw(st.booleans()),
            'sandwich': draw(st.booleans()),
            'foliated': draw(st.booleans()),
            'prune': draw(st.lists(st.sampled_from(NOUNS), max_size=2)),
            'freq': draw(st.sampled_from([1, 1, 1, 2, 3])),
            'rules': draw(st.sampled_from(
                ['default', 'default', 'none', 'all', []]))}


def tokens(x):
    """Tokens of a sentence, and where each word of the parse is."""
    w, at = list(x['w']), list(range(len(x['w'])))
    if x['gap'] is not None and x['gap'] < len(w):
        w.insert(x['gap'], ',')
        at = [k + (k >= x['gap']) for k in at]
    return w + ['.'] * x['dot'], at


class Resolver(CoreferenceResolver):
    def __init__(self, sents, corefs):
        self.sents, self.corefs, self.seen = sents, corefs, []

    def tokenise_and_coref(self, text):
        self.seen.append(text)
        return [list(s) for s in self.sents], self.corefs


class Model:
    def __init__(self, xs):
        self.xs = xs

    def _sentence2pred(self, sent, tokenizer):
        x = self.xs[' '.join(w for w in sent if w not in ',.')]
        return py.SimpleNamespace(
            words=list(x['w']), parents=[list(q) for q in x['p']],
            types=[[str(gr.mk_ty(t)) for t in ts] for ts in x['t']])


def grown(x, brk):
    roots, _ = generate_tree(
        x['w'], [[str(gr.mk_ty(t)) for t in ts] for ts in x['t']], x['p'])
    if brk:
        remove_cycles(roots[0])
    return roots[0]


class Bobcat(BobcatParser):
    def __init__(self, xs):
        self.xs = xs

    def sentence2diagram(self, sent, tokenised=False, **kw):
        x = self.xs[' '.join(w for w in sent if w not in ',.')]
        return grown(x, False).to_diagram(x['w'])


def oncilla(xs):
    o = OncillaParser.__new__(OncillaParser)
    o.verbose, o.model, o.tokenizer = 'suppress', Model(xs), None
    return o


# ---- reference -----------------------------------------------------------

class T:
    def __init__(self, word, at, typ, kids):
        self.word, self.at, self.typ, self.kids = word, at, typ, kids


def plain(t):
    return T(t.word, t.ind, gr.p_ty(t.typ), [plain(c) for c in t.children])


RULES = {'determiner': ([N], ('a', 'an', 'the'), 1, 'last'),
         'auxiliary': (VP, ('has', 'had', 'have', 'did', 'does', 'do'), 1,
                       'last'),
         'noun_modification': ([N], None, None, 'merge'),
         'verb_modification': (VP, None, None, 'merge'),
         'sentence_modification': ([S], None, None, 'merge')}


def rewrite(t, rule):
    """The tree and how many words the root has swallowed."""
    typ, words, most, join = rule
    if ((typ is None or t.typ == typ) and len(t.kids) == 1
            and t.kids[0].typ == t.typ
            and (not words or t.word.lower() in words)):
        c, n = rewrite(t.kids[0], rule)
        if most is None or n < most:
            w = {'merge': f'{t.word} {c.word}', 'first': t.word,
                 'last': c.word}[join]
            return T(w, c.at, c.typ, c.kids), n + 1
        return T(t.word, t.at, t.typ, [c]), n
    return T(t.word, t.at, t.typ, [rewrite(c, rule)[0] for c in t.kids]), 0


def is_noun(t):
    return t.typ == [N] and not t.kids


def frames(t, gone):
    """The box of a tree, if any, and its nouns."""
    if is_noun(t):
        return None, [] if t.at in gone else [(t.at, t.word)]
    subs, nouns = [], []
    for c in t.kids:
        b, ns = frames(c, gone)
        subs += [b] if b else []
        nouns += ns
    extra = gr.rot_ty([a for a in t.typ if a[1]], -1)
    if not nouns and not extra:
        return None, []
    return [t.word, [N] * len(nouns) + extra, subs], nouns


def sandwich(t, prev, gone, x):
    """Boxes with their nouns, the nouns, and the last noun so far."""
    if is_noun(t):
        if t.at in gone:
            return [], [], prev
        return [], [(t.at, t.word)], t.at
    nouns, cur, subs = [], prev, []
    if any(a in (['n', 1], ['n', -1]) for a in t.typ) and (
            prev is not None or not gone):
        nouns.append((prev, ''))
    for c in t.kids:
        ops, ns, last = sandwich(c, cur, gone, x)
        if c.typ == [N]:
            cur = last
        known = [k for k, _ in nouns]
        nouns += [n for n in ns if n[0] not in known]
        if ops:
            subs.append(ops)
    if not nouns:
        return [], [], cur
    ids = [k for k, _ in nouns]
    lab = (lambda s: f'$_{{{s}}}$') if x['foliated'] else (lambda s: '')
    out = [[t.word + (lab('top') if subs else ''), ids]]
    for i, s in enumerate(subs):
        out += s
        out.append([t.word + lab('bottom' if i == len(subs) - 1
                                 else i + 1), ids])
    return out, nouns, cur


def reference(x, trees, toks, first, gone):
    """Names of the entities, and the boxes with their entities."""
    ents, names, events = {}, [], []
    for i, (t, tk) in enumerate(zip(trees, toks)):
        # words of the parse are found in the sentence in order
        t = plain(t)
        flat, todo = {}, [t]
        while todo:
            u = todo.pop()
            flat[u.at] = u.word
            todo += u.kids
        j, at = 0, {}
        for k in sorted(flat):
            while j < len(tk) and tk[j] != flat[k]:
                j += 1
            at[k] = j
            j += 1
        if t.typ not in ([N], [S]):
            t.typ = [S]
            t.kids = t.kids + [T('', 'missing', [N], [])]
        rules = {'default': ['determiner', 'auxiliary'],
                 'none': ['determiner', 'auxiliary'], 'all': [*RULES]}.get(
                     x['rules'] if isinstance(x['rules'], str) else '', [])
        for r in rules:
            t, _ = rewrite(t, RULES[r])
        todo = [t]
        while todo:
            u = todo.pop()
            u.at = at.get(u.at, u.at)
            todo += u.kids
        here = [j for k, j in gone if k == i]
        if x['sandwich']:
            ops, nouns, _ = sandwich(t, None, here, x)
        else:
            b, nouns = frames(t, here)
            ops = [b] if b else []

        def ent(k):
            return first.get((i, k), (i, k))
        for k, w in nouns:
            if ent(k) not in ents:
                ents[ent(k)] = len(ents)
                names.append(w)
        if x['sandwich']:
            events += [[n, [ents[ent(k)] for k in ks]] for n, ks in ops]
        elif ops:
            events.append([ops[0][0], [ents[ent(k)] for k, _ in nouns],
                           ops[0][2]])
    return names, events


def shape(p):
    """A component: [name, domain, components]."""
    if 'layers' in p:
        expect(len(p['layers']) == 1 and not p['layers'][0][0]
               and not p['layers'][0][2], 'a component of several boxes')
        p = p['layers'][0][1]
    expect(p['dom'] == p['cod'], lambda: f'component {p}')
    return [p['name'], p['dom'], [shape(c) for c in p.get('comps', ())]]


def follow(D):
    """Names of the states, the boxes with their entities, final wires."""
    p = gr.p_diag(D)
    why = gr.wellformed(p)
    expect(why is None, lambda: f'{D!r}: {why}')
    expect(p['dom'] == [], lambda: f'inputs {p["dom"]}')
    wires, names, events = [], [], []
    for l, b, r in p['layers']:
        at, n, m = len(l), len(b['dom']), len(b['cod'])
        ins = wires[at:at + n]
        if b['cls'] == 'Swap':
            out = ins[::-1]
        elif b['cls'] == 'Spider':
            expect(n and len(set(ins)) == 1,
                   lambda: f'a spider joins the entities {ins} in {D!r}')
            out = [ins[0]] * m
        elif n == 0:
            out = [len(names)]
            expect(m == 1, f'state {b}')
            names.append(b['name'])
        else:
            expect(n == m and b['cls'] in ('Box', 'Frame')
                   and b['dom'] == b['cod'] == [N] * n, lambda: f'box {b}')
            out = ins
            e = [b['name'], ins]
            if b['cls'] == 'Frame':
                e.append([shape(c) for c in b['comps']])
            events.append(e)
        wires[at:at + n] = out
    return names, events, wires


@check(P, 'circuit', texts, quick=2500, shards=3,
       rule='>= 2 sentences which share an entity')
def circuit(x, ctx):
    pairs = [tokens(s) for s in x['s']]
    toks = [t for t, _ in pairs]
    xs = {' '.join(s['w']): s for s in x['s']}
    if len(xs) < len({str(s) for s in x['s']}):
        # one string with two parses
        ctx.label('same words')
        return
    corefs = []
    for g in sorted(set(x['g'])):
        c = [[] for _ in toks]
        for (i, j), k in zip(x['m'], x['g']):
            if k == g:
                c[i].append(pairs[i][1][j])
        if g:
            corefs.append(c)
    for i, j in x['m']:
        if x['single'] or x['freq'] > 1:
            corefs.append([[pairs[i][1][j]] if k == i else []
                           for k in range(len(toks))])
    first, count = {}, {}
    for c in corefs:
        ms = [(i, j) for i, js in enumerate(c) for j in js]
        for m in ms:
            first.setdefault(m, ms[0])
    for m in first:
        count[first[m]] = count.get(first[m], 0) + 1
    bad = {h for h, n in count.items() if n < x['freq']}
    for i, s in enumerate(toks):
        for j, w in enumerate(s):
            if w in x['prune']:
                bad.add(first.get((i, j), (i, j)))
    gone = [(i, j) for i, s in enumerate(toks) for j in range(len(s))
            if first.get((i, j), (i, j)) in bad]
    res = Resolver(toks, corefs)
    expect(res.dict_from_corefs(corefs) == first, 'coreferences')
    reader = DisCoCircReader(
        parser=Bobcat(xs) if x['bobcat'] else oncilla(xs),
        coref_resolver=lambda: res)
    rules = {'default': ('determiner', 'auxiliary'), 'none': None,
             'all': tuple(RULES)}.get(
                 x['rules'] if isinstance(x['rules'], str) else '', ())
    kw = {} if x['rules'] == 'default' else {'rewrite_rules': rules}
    D = reader.text2circuit(
        'the text', sandwich=x['sandwich'], break_cycles=x['break'],
        pruned_nouns=list(x['prune']), min_noun_freq=x['freq'],
        foliated_frame_labels=x['foliated'], **kw)
    expect(res.seen == ['the text'], 'the text is resolved once')
    trees = []
    for s in x['s']:
        t = grown(s, x['break'] and not x['bobcat'])
        if x['bobcat']:
            t = t.to_diagram(s['w']).to_pregroup_tree(
                break_cycles=x['break'])
        trees.append(t)
    names, events = reference(x, trees, toks, first, gone)
    got_names, got_events, wires = follow(D)
    used = [set(e[1]) for e in events]
    ctx.nontrivial(len(x['s']) > 1 and len(names) < sum(
        len(set(ts)) for ts in ([first.get((i, pairs[i][1][j]), (i, j))
                                 for i, j in x['m'] if i == k]
                                for k in range(len(toks)))) and used)
    ctx.label('sandwich' if x['sandwich'] else 'frames')
    if gone:
        ctx.label('pruned')
    if any(len(q) > 1 for s in x['s'] for q in s['p']):
        ctx.label('several parents')
    if any(s['t'][s['p'].index([-1])][0] == VP for s in x['s']
           if [-1] in s['p']):
        ctx.label('missing noun')
    if any(len(set(e[1])) < len(e[1]) for e in events):
        ctx.label('one entity twice')
    expect(got_names == names,
           lambda: f'the entities are {got_names}, expected {names}')
    events = [e if x['sandwich'] else e[:2] + ([e[2]] if e[2] else [])
              for e in events]
    expect(got_events == events,
           lambda: f'the boxes are {got_events}, expected {events}')
    expect(wires == list(range(len(names))), lambda: f'final wires {wires}')


# ---- rewriting of trees --------------------------------------------------

def mk(t):
    return PregroupTreeNode(t.word, t.at, gr.mk_ty(t.typ),
                            children=[mk(c) for c in t.kids])


def dump(t):
    return [t.word, t.at, t.typ, [dump(c) for c in t.kids]]


@check(P, 'rules', lambda: st.fixed_dictionaries({
    's': sentence(depth=5),
    'rules': st.lists(st.one_of(
        st.sampled_from(sorted(RULES)),
        st.tuples(st.sampled_from([None, 'n', 's', 'vp']),
                  st.sampled_from([None, ['a', 'the', 'does'], ['big']]),
                  st.sampled_from([None, 0, 1, 2]),
                  st.sampled_from(['merge', 'first', 'last'])).map(list)),
        max_size=3), 'how': st.integers(0, 2)}), quick=1500,
    rule='a tree changes')
def rules(x, ctx):
    t = plain(grown(x['s'], False))
    before = dump(t)
    node = mk(t)
    args, ref = [], []
    for r in x['rules']:
        if isinstance(r, str):
            args.append(r)
            ref.append(RULES[r])
        else:
            typ = TYPES[r[0]] if r[0] else None
            args.append(TreeRewriteRule(
                match_type=gr.mk_ty(typ) if typ else False,
                match_words=set(r[1]) if r[1] else None, max_depth=r[2],
                word_join=r[3]))
            ref.append((typ, r[1], r[2], r[3]))
    if x['how'] == 0 and not args:
        R = TreeRewriter()
        ref = [RULES['determiner'], RULES['auxiliary']]
    elif x['how'] == 1:
        R = TreeRewriter([])
        R.add_rules(*args)
    else:
        R = TreeRewriter(args)
    for r in ref:
        t, _ = rewrite(t, r)
    got = plain(R(node))
    ctx.nontrivial(dump(t) != before)
    expect(dump(got) == dump(t),
           lambda: f'{before} becomes {dump(got)}, expected {dump(t)}')
    expect(dump(plain(node)) == before, 'the tree given has changed')
    try:
        TreeRewriter(['no such rule'])
    except ValueError:
        return
    expect(False, 'an unknown rule is accepted')


# ---- coreference resolvers -----------------------------------------------

POS = ['NOUN', 'PROPN', 'PRON', 'DET', 'ADJ', 'VERB', 'PUNCT']
NOUNISH = ('NOUN', 'PROPN', 'PRON')


@st.composite
def resolved(draw):
    """Sentences of tags, and clusters of spans [sentence, first, last]."""
    sents = draw(st.lists(st.lists(st.sampled_from(POS), min_size=1,
                                   max_size=6), min_size=1, max_size=4))
    free = [[i, j] for i, s in enumerate(sents) for j in range(len(s))]
    spans = []
    while free and draw(st.integers(0, 5)):
        i, a = free[draw(st.integers(0, len(free) - 1))]
        b = a
        while [i, b + 1] in free and draw(st.integers(0, 2)):
            b += 1
        free = [m for m in free if not (m[0] == i and a <= m[1] <= b)]
        spans.append([i, a, b, draw(st.integers(0, 2))])
    cs = [[s[:3] for s in sorted(spans) if s[3] == c] for c in range(3)]
    return {'s': sents, 'c': [c for c in cs if c],
            'ws': draw(st.lists(st.sampled_from([' ', '\n', '  ', '\t ', ' \n']),
                                min_size=1, max_size=3)),
            'spacy': draw(st.booleans())}


@check(P, 'resolver', resolved, quick=800,
       rule='a cluster has mentions in two sentences')
def resolver(x, ctx):
    words = [[f'w{i}_{j}' for j in range(len(s))]
             for i, s in enumerate(x['s'])]
    flat = [w for s in words for w in s]
    off = [sum(map(len, words[:i])) for i in range(len(words))]
    text = ''.join(w + x['ws'][k % len(x['ws'])]
                   for k, w in enumerate(flat)).strip()
    seen = []

    def nlp(t):
        seen.append(t)
        doc = spacy.tokens.Doc(
            spacy.vocab.Vocab(), words=t.split(' '),
            sent_starts=[j == 0 for s in words for j in range(len(s))],
            pos=[p for s in x['s'] for p in s])
        if x['spacy']:
            for k, c in enumerate(x['c']):
                doc.spans[f'coref_clusters_{k}'] = [
                    doc[off[i] + a:off[i] + b + 1] for i, a, b in c]
        return doc

    class Maverick:
        def predict(self, toks):
            expect(toks == words, lambda: f'the model is given {toks}')
            return {'clusters_token_offsets': [
                tuple((off[i] + a, off[i] + b) for i, a, b in c)
                for c in x['c']]}

    kind = (SpacyCoreferenceResolver if x['spacy']
            else MaverickCoreferenceResolver)
    res = kind.__new__(kind)
    res.nlp, res.model = nlp, Maverick()
    sents, corefs = res.tokenise_and_coref(text)
    ctx.label(kind.__name__)
    expect(seen == [' '.join(flat)], lambda: f'the pipeline is given {seen}')
    expect(sents == words, lambda: f'sentences {sents}')
    expect(all(len(c) == len(words) for c in corefs),
           'a cluster has a list per sentence')
    d = res.dict_from_corefs(corefs)
    ctx.nontrivial(any(len({i for i, _, _ in c}) > 1 for c in x['c']))
    left = set(d)
    taken = set()
    for c in x['c']:
        heads = []
        for i, a, b in c:
            if x['spacy']:
                ok = [a]
            else:
                tags = x['s'][i]
                ok = [j for j in range(a, b + 1) if tags[j] == 'PROPN']
                ok = ok or [j for j in range(a, b + 1)
                            if tags[j] in NOUNISH] or [a]
            got = [j for j in ok if (i, j) in d]
            named = [j for j in got if any(
                j in k[i] and sum(map(len, k)) == len(c) for k in corefs)]
            expect(named, lambda: f'span {[i, a, b]} has no mention among '
                   f'{ok}: {corefs}')
            heads.append([(i, j) for j in named])
        best = [h for h in heads[0] if all(
            any(d[m] == h for m in ms) for ms in heads)]
        expect(best, lambda: f'cluster {c} is not one entity: {d}')
        for ms in heads:
            taken |= {m for m in ms if d[m] == best[0]}
    for m in left - taken:
        expect(d[m] == m, lambda: f'{m} refers to {d[m]}')
        expect(x['s'][m[0]][m[1]] in NOUNISH, lambda: f'{m} is an entity')
    for i, s in enumerate(x['s']):
        for j, p in enumerate(s):
            expect(p not in NOUNISH or (i, j) in d,
                   lambda: f'noun {(i, j)} is no entity')
