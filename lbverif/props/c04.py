"""C04: CCGBank files are read as the derivations they hold."""
import os
import tempfile

from hypothesis import strategies as st

from lambeq.text2diagram.ccgbank_parser import (CCGBankParseError,
                                                CCGBankParser)
from lbverif import ccg
from lbverif.core import check, expect, prop
from lbverif.props.c02 import BWD, FWD, admits
from lbverif.props.c03 import deriv, nodes, words

P = 'C04'
prop(P, ['the text follows section D.2 of the CCGBank manual'])

OUT = {'n': ['N', 'N', 'N[num]'], 'np': ['NP', 'NP[nb]'], 'p': ['PP'],
       's': ['S', 'S[dcl]', 'S[b]'], 'conj': ['conj'],
       'punc': [',', '.', ';', ':', 'LRB', 'RRB']}
ESC = {'-LCB-': '{', '-RCB-': '}', '-LRB-': '(', '-RRB-': ')'}
BAD = ['word', 'atom', 'head', 'extra', 'close', 'empty', 'cat', 'id']


@st.composite
def entry(draw):
    d = draw(deriv(depth=3))
    for w in words(d):
        w['x'] = draw(st.sampled_from([w['w'], 'cat', '-LRB-', '-RCB-',
                                       "'s", '12.5%', 'é', '(<L']))
    feats = [draw(st.integers(0, 5)) for _ in range(6)]
    return {'d': d, 'f': feats,
            'bad': draw(st.sampled_from([None] * 12 + BAD))}


@st.composite
def bank(draw):
    files = draw(st.lists(st.lists(entry(), min_size=0, max_size=3),
                          min_size=1, max_size=3))
    return {'files': files, 'planar': draw(st.booleans()),
            'sec': draw(st.sampled_from([0, 7, 23]))}


def render(e):
    k = [0]

    def atom(a):
        k[0] += 1
        return OUT[a][e['f'][k[0] % len(e['f'])] % len(OUT[a])]

    def cat(t):
        if isinstance(t, str):
            return atom(t)
        l, r = cat(t[0]), cat(t[2])
        l = l if isinstance(t[0], str) else f'({l})'
        r = r if isinstance(t[2], str) else f'({r})'
        return l + t[1] + r

    def go(d):
        if 'w' in d:
            c = cat(d['t'])
            return f'(<L {c} NN NN {d["x"]} {c}>)'
        t = d['t']
        if d['r'] == 'CONJ' and t[1] == '\\' and e['f'][0] % 2:
            c = cat(t[0])
            c = (c if isinstance(t[0], str) else c) + '[conj]'
        else:
            c = cat(t)
        return (f'(<T {c} 0 {len(d["c"])}> '
                + ' '.join(go(c) for c in d['c']) + ' )')
    txt = go(e['d'])
    b = e['bad']
    if b == 'word':
        txt = txt.replace(' NN NN ', ' NN ', 1)
    elif b == 'atom':
        txt = '(<T Q 0 1> ' + txt + ' )'
    elif b == 'head':
        txt = 'x' + txt
    elif b == 'extra':
        txt += ' (<L N NN NN more N>)'
    elif b == 'close':
        txt = '(<T N 0 1> ' + txt
    elif b == 'empty':
        txt = ''
    elif b == 'cat':
        txt = '(<T (N 0 1> ' + txt + ' )'
    return txt


def differs(T, d):
    if ccg.plain(T.biclosed_type) != d['t']:
        return f'type {T.biclosed_type}, expected {ccg.show(d["t"])}'
    if 'w' in d:
        w = ESC.get(d['x'], d['x'])
        return None if T.text == w and T.rule == 'L' and not T.children \
            else f'leaf {T.text!r} {T.rule}, expected {w!r}'
    if len(T.children) != len(d['c']):
        return 'number of children'
    ts = [c['t'] for c in d['c']]
    ok = [d['r']]
    if d['r'] in FWD + BWD:
        ok = [k for k in FWD + BWD if admits(k, *ts, d['t'])]
    elif d['r'] == 'U' and isinstance(d['t'], list):
        x, t = ts[0], d['t'][0]
        if d['t'] == [t, '/', [t, '\\', x]]:
            ok = ['FTR']
        if d['t'] == [t, '\\', [t, '/', x]]:
            ok = ['BTR']
    if T.rule not in ok:
        return f'rule {T.rule}, expected {ok}'
    return next(filter(None, map(differs, T.children, d['c'])), None)


@check(P, 'trees', entry, quick=2500, shards=3,
       rule='a derivation of >= 3 words with two different rules')
def trees(e, ctx):
    txt = render(e)
    d = e['d']
    ctx.nontrivial(len(words(d)) >= 3
                   and len({x.get('r') for x in nodes(d)} - {None}) >= 2)
    bad = e['bad'] not in (None, 'id')
    ctx.label('malformed' if bad else 'well-formed')
    P_ = CCGBankParser('.')
    try:
        T = P_.sentence2tree(txt)
    except CCGBankParseError as x:
        expect(bad, lambda: f'{txt} is refused: {x}')
        T = None
    else:
        expect(not bad, lambda: f'{txt} is accepted')
        why = differs(T, d)
        expect(why is None, lambda: f'{txt}: {why}')
    got = P_.sentences2trees([txt, '(', txt], suppress_exceptions=True)
    expect(got == [T, None, T], lambda: f'{txt}: suppressed errors give '
                                        f'{got}')
    if T is not None:
        for planar in (False, True):
            for col in (False, True):
                try:
                    want = T.to_diagram(planar, col)
                except Exception:
                    # whether there is one is the matter of C03
                    want = None
                D = P_.sentences2diagrams([txt], planar=planar,
                                          collapse_noun_phrases=col,
                                          suppress_exceptions=True)
                expect(D == [want], lambda: f'{txt}: {D}')
        try:
            P_.sentences2trees([[txt]], tokenised=True)
        except ValueError:
            pass
        else:
            expect(False, 'tokens are accepted')


@check(P, 'sections', bank, quick=250, shards=3, hang=240,
       rule='>= 2 files with >= 2 sentences, one of which is malformed')
def sections(s, ctx):
    bads = [e['bad'] for f in s['files'] for e in f]
    ctx.nontrivial(len(bads) > 2 and len(s['files']) > 1 and any(bads))
    with tempfile.TemporaryDirectory() as tmp:
        path = f'{tmp}/data/AUTO/{s["sec"]:02}'
        os.makedirs(path)
        want, n = [], 0
        for i, f in enumerate(s['files']):
            with open(f'{path}/wsj_{i}.auto', 'w') as out:
                for e in f:
                    n += 1
                    if e['bad'] == 'id':
                        out.write(f'IT=x.{n} PARSER=GOLD\n')
                        continue
                    out.write(f'ID=x.{n} PARSER=GOLD NUMPARSE=1\n')
                    out.write(render(e) + '\n')
                    want.append((f'x.{n}', e))
        P_ = CCGBankParser(tmp)
        gen = list(P_.section2trees_gen(s['sec'], suppress_exceptions=True))
        expect([k for k, _ in gen] == [k for k, _ in want],
               lambda: f'identifiers {[k for k, _ in gen]}')
        for (k, T), (_, e) in zip(gen, want):
            expect((T is None) == bool(e['bad']), lambda: f'{k}: {T}')
            if T is not None:
                why = differs(T, e['d'])
                expect(why is None, lambda: f'{k}: {why}')
        expect(P_.section2trees(s['sec'], suppress_exceptions=True)
               == dict(gen), 'section2trees')
        D = P_.section2diagrams(s['sec'], planar=s['planar'],
                                suppress_exceptions=True)
        expect(list(D) == [k for k, _ in gen], 'section2diagrams')
        for k, T in gen:
            try:
                d = T and T.to_diagram(s['planar'])
            except Exception:
                d = None
            expect(D[k] == d, lambda: f'diagram {k}')
        # without suppression the first error is raised, after the others
        first = next((i for i, b in enumerate(bads) if b), None)
        got, err = [], None
        try:
            for x in P_.section2trees_gen(s['sec']):
                got.append(x)
        except CCGBankParseError as x:
            err = x
        expect((err is not None) == (first is not None),
               lambda: f'error {err}')
        k = first if first is not None else len(bads)
        expect([x for x, _ in got] == [f'x.{i + 1}' for i in range(k)],
               lambda: f'{[x for x, _ in got]} before the error')
        ctx.label('error' if err else 'no error')
        if err:
            i, line = first, 1
            for j, f in enumerate(s['files']):
                if i < len(f):
                    name = f'wsj_{j}.auto'
                    line = 2 * i + (1 if f[i]['bad'] == 'id' else 2)
                    break
                i -= len(f)
            expect(name in str(err) and f'line {line}' in str(err),
                   lambda: f'{err}: expected {name} line {line}')
