"""C01: CCG categories print, parse and translate faithfully."""
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lambeq.text2diagram.ccg_type import CCGParseError, CCGType
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'C01'
prop(P, ['the empty category is not printed or parsed'])

NAMES = ['n', 's', 'NP', 'S[dcl]', 'conj', ',', 'N[num]', '.', 'a b', '|']


@st.composite
def text_case(draw):
    t = draw(ccg.cats(4, NAMES))
    txt = ccg.show(t)
    # redundant brackets and, sometimes, damage
    for _ in range(draw(st.integers(0, 2))):
        i = draw(st.integers(0, len(txt) - 1))
        j = draw(st.integers(i + 1, len(txt)))
        txt = txt[:i] + '(' + txt[i:j] + ')' + txt[j:]
    for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
        i = draw(st.integers(0, len(txt)))
        c = draw(st.sampled_from(['(', ')', '/', '\\', 'n', '', '[conj]']))
        txt = txt[:i] + c + txt[i + draw(st.integers(0, 1)):]
    if draw(st.integers(0, 3)) == 0:
        txt += '[conj]'
    return {'t': t, 'txt': txt}


@check(P, 'text', text_case, quick=4000, shards=3,
       rule='a category with >= 3 atoms')
def text(s, ctx):
    t = s['t']
    c = ccg.mk(t)
    ctx.nontrivial(ccg.size(t) >= 3)
    expect(str(c) == ccg.show(t) == c.to_string(),
           lambda: f'{t} prints as {c}')
    expect(c.to_string(pretty=True) == ccg.show(t, True),
           lambda: f'{t} prints prettily as {c.to_string(True)}')
    back = CCGType.parse(str(c))
    expect(ccg.plain(back) == t and back == c and not (back != c),
           lambda: f'{c} reads as {back}')
    expect(ccg.plain(CCGType.parse(str(c) + '[conj]')) == [t, '\\', t],
           lambda: f'{c}[conj]')
    # any text is read as the documented grammar says, or refused
    txt = s['txt']
    try:
        want = ccg.read(txt)
    except ccg.Bad:
        want = None
    ctx.label('ill-formed' if want is None else 'well-formed')
    calls = []

    def mark(a):
        calls.append(a)
        return a.upper() + '!'
    def mark2(a):
        return 'x' + a.lower()
    for mp in (None, mark, mark2, None):
        try:
            got = CCGType.parse(txt, map_atomic=mp)
            got = ccg.plain(got)
        except CCGParseError as e:
            got = None
            expect(repr(txt) in str(e), lambda: f'{e} for {txt!r}')
        w = want
        if mp and want is not None:
            def go(x):
                return (mp(x) if isinstance(x, str)
                        else [go(x[0]), x[1], go(x[2])])
            w = go(want)
        expect(got == w, lambda: f'{txt!r} reads as {got}, expected {w}')


@st.composite
def pair_case(draw):
    t = draw(ccg.cats(4))
    sub = t
    while not isinstance(sub, str) and draw(st.integers(0, 2)):
        sub = sub[draw(st.sampled_from([0, 0, 2]))]
    if draw(st.integers(0, 3)) == 0:
        sub = draw(ccg.cats(1))
    return {'t': t, 'old': sub, 'new': draw(ccg.cats(2)),
            'dir': draw(st.sampled_from(
                ['|', '/', '\\'] + [a + b for a in '/\\|' for b in '/\\|']))}


def spine(t):
    """[slash, argument, result] from the outside to the inside."""
    out = []
    while not isinstance(t, str):
        out.append((t[1], t[2], t[0]))
        t = t[0]
    return out


@check(P, 'structure', pair_case, quick=4000, shards=3,
       rule='the sub-category occurs in the category, which has >= 3 atoms')
def structure(s, ctx):
    t, old, new = s['t'], s['old'], s['new']
    c, o, w = ccg.mk(t), ccg.mk(old), ccg.mk(new)
    ctx.nontrivial(ccg.size(t) >= 3 and ccg.subst(t, old, 0) != t)
    # parts
    cplx = not isinstance(t, str)
    expect((c.is_complex, c.is_atomic, c.is_empty, c.is_over, c.is_under)
           == (cplx, not cplx, False, cplx and t[1] == '/',
               cplx and t[1] == '\\'), 'flags')
    if cplx:
        l, r = (t[0], t[2]) if t[1] == '/' else (t[2], t[0])
        expect(ccg.plain(c.left) == l and ccg.plain(c.right) == r,
               lambda: f'sides of {c}')
    for a in ('name',) if cplx else ('result', 'argument', 'direction',
                                     'left', 'right'):
        expect(not hasattr(c, a), lambda: f'{c} has {a}')
    expect(ccg.plain(c << o) == ccg.plain(c.over(o)) == [t, '/', old]
           and ccg.plain(o >> c) == ccg.plain(c.under(o)) == [t, '\\', old],
           'operators')
    expect(c.is_conjoinable == (t in ('conj', 'punc')), 'conjoinable')
    expect((c == o) == (t == old), lambda: f'{c} == {o}')
    # translation
    expect(gr.p_ty(c.to_grammar()) == ccg.gram(t),
           lambda: f'{c} translates to {c.to_grammar()}')
    # replacement of all occurrences
    expect(ccg.plain(c.replace(o, w)) == ccg.subst(t, old, new),
           lambda: f'{c}: {o} -> {w} gives {c.replace(o, w)}')
    # replacement of the innermost result
    sp = spine(t)
    d = s['dir']
    last = next((i for i, x in enumerate(sp) if x[2] == old
                 and d[0] in ('|', x[0])), len(sp) - 1)

    def ok(i):
        return (d[0] in ('|', sp[i][0])
                and all(d[-1] in ('|', sp[j][0]) for j in range(i)))
    cut = max((i for i in range(last + 1) if ok(i)), default=None)
    if cut is None:
        want = (t, None)
    else:
        want = new
        for dd, a, _ in reversed(sp[:cut + 1]):
            want = [want, dd, a]
        want = (want, sp[cut][2])
    got = c.replace_result(o, w, d)
    got = (ccg.plain(got[0]), got[1] and ccg.plain(got[1]))
    ctx.label(f'cut {cut is not None and cut}')
    expect(got == want, lambda: f'{c}.replace_result({o}, {w}, {d}) is {got},'
           f' expected {want}')
    # isolation of a result
    results = [t] + [x[2] for x in sp]
    if old in results:
        k = results.index(old)
        l, m, r = c.split(o)
        wl, wr = [], []
        for dd, a, _ in reversed(sp[:k]):
            if dd == '/':
                wr = wr + gr.rot_ty(ccg.gram(a), -1)
            else:
                wl = gr.rot_ty(ccg.gram(a), 1) + wl
        expect([gr.p_ty(x) for x in (l, m, r)] == [wl, ccg.gram(old), wr],
               lambda: f'{c}.split({o}) is {(l, m, r)}')
        ctx.label('split')
    expect(ccg.plain(c) == t, 'the category has changed')


@st.composite
def empty_case(draw):
    """Categories with the empty category inside."""
    def go(n):
        if n == 0 or draw(st.integers(0, 3)) == 0:
            return draw(st.sampled_from(['n', 's', None]))
        return [go(n - 1), draw(st.sampled_from('/\\')), go(n - 1)]
    return {'t': go(3), 'old': go(1), 'new': go(1)}


@check(P, 'empty', empty_case, quick=1000, shards=1,
       rule='the empty category occurs')
def empty(s, ctx):
    def mk(t):
        if t is None:
            return CCGType()
        if isinstance(t, str):
            return CCGType(t)
        return CCGType(result=mk(t[0]), direction=t[1], argument=mk(t[2]))

    def gram(t):
        if t is None:
            return []
        if isinstance(t, str):
            return [[t, 0]]
        return (gram(t[0]) + gr.rot_ty(gram(t[2]), -1) if t[1] == '/'
                else gr.rot_ty(gram(t[2]), 1) + gram(t[0]))

    def sub(t):
        if t == s['old']:
            return s['new']
        if t is None or isinstance(t, str):
            return t
        return [sub(t[0]), t[1], sub(t[2])]
    c = mk(s['t'])
    ctx.nontrivial('None' in repr(s['t']) and c.is_complex)
    expect(c.is_empty == (s['t'] is None), 'is_empty')
    expect(gr.p_ty(c.to_grammar()) == gram(s['t']), lambda: f'{c}')
    expect(ccg.plain(c.replace(mk(s['old']), mk(s['new']))) == sub(s['t']),
           lambda: f'{c}: replace {mk(s["old"])} by {mk(s["new"])}')
    got, old = c.replace_result(mk(s['old']), mk(s['new']))
    expect(got.is_complex == c.is_complex or old is None, 'replace_result')
    expect(G.Ty() == CCGType().to_grammar(), 'empty')
