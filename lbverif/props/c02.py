"""C02: CCG rules are inferred, resolved and drawn as the calculus says."""
from hypothesis import strategies as st

from lambeq.text2diagram.ccg_rule import CCGRule, CCGRuleUseError
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'C02'
prop(P, ['any category may replace that next to a punctuation mark or a '
         'conjunction, as in CCGBank'])

FWD = ['FA', 'FC', 'FX', 'GFC', 'GFX']
BWD = ['BA', 'BC', 'BX', 'GBC', 'GBX']
ATOMS = ['n', 's', 'p', 'x']


def spine(t, upto=None):
    """Arguments [slash, category] from the inside out, and the core."""
    args = []
    while t != upto and not isinstance(t, str) and t is not None:
        args.insert(0, [t[1], t[2]])
        t = t[0]
    return t, args


def put(x, args):
    for d, a in args:
        x = [x, d, a]
    return x


def fits(rule, args):
    ds = [d for d, _ in args]
    same = rule[-2] != 'G' and rule[0] != 'G'
    if same and len(ds) != (0 if rule[1] == 'A' else 1):
        return False
    if not same and not ds:
        return False
    main, other = '/\\' if rule in FWD else '\\/'
    if rule.endswith('X'):
        return ds[0] == other
    return all(d == main for d in ds)


def admits(rule, l, r, c):
    """Whether rule takes l and r to c."""
    f, a = (l, r) if rule in FWD else (r, l)
    if isinstance(f, str) or f[1] != ('/' if rule in FWD else '\\'):
        return False
    core, args = spine(a, f[2])
    return core == f[2] and fits(rule, args) and c == put(f[0], args)


def links(rule, l, r):
    """Linked ends of the diagram of a binary rule."""
    gl, gr_ = ccg.gram(l), ccg.gram(r)
    f, a = (l, r) if rule in FWD else (r, l)
    core, args = spine(a, f[2])
    assert core == f[2]
    nl = sum(len(ccg.gram(x)) for d, x in args if d == '\\')
    ny, nx = len(ccg.gram(core)), len(ccg.gram(f[0]))
    na = len(ccg.gram(a))
    if rule in FWD:
        x0, y1, a0 = 0, nx, len(gl)
    else:
        x0, y1, a0 = len(gl) + ny, len(gl), 0
    out = [[('cod', i), ('dom', a0 + i)] for i in range(nl)]
    out += [[('cod', nl + i), ('dom', x0 + i)] for i in range(nx)]
    out += [[('cod', nl + nx + i), ('dom', a0 + nl + ny + i)]
            for i in range(na - nl - ny)]
    out += [[('dom', y1 + i), ('dom', a0 + nl + ny - 1 - i)]
            for i in range(ny)]
    return ccg.norm(out)


@st.composite
def instance(draw, rule=None, atoms=ATOMS):
    rule = rule or draw(st.sampled_from(FWD + BWD))
    c = lambda d: draw(ccg.cats(d, atoms))  # noqa: E731
    x, y = c(2), c(2)
    if rule.endswith('A'):
        args = []
    elif rule[0] == 'G':
        main, other = '/\\' if rule in FWD else '\\/'
        k = draw(st.integers(1, 3))
        ds = [main] * k
        if rule.endswith('X'):
            ds = [other] + [draw(st.sampled_from('/\\'))
                            for _ in range(k - 1)]
        args = [[d, c(1)] for d in ds]
    else:
        d = '/' if (rule in FWD) != (rule[1] == 'X') else '\\'
        args = [[d, c(2)]]
    a, res = put(y, args), put(x, args)
    l, r = ([x, '/', y], a) if rule in FWD else (a, [x, '\\', y])
    return {'rule': rule, 'l': l, 'r': r, 'c': res, 'n': len(args)}


@st.composite
def rule_case(draw):
    i = draw(instance())
    # another codomain of the same shape
    core, args = i['c'], []
    for _ in range(i['n']):
        args.insert(0, [core[1], core[2]])
        core = core[0]
    if draw(st.booleans()):
        core = draw(ccg.cats(2, ATOMS))
    args = [[d, draw(ccg.cats(1, ATOMS)) if draw(st.booleans()) else a]
            for d, a in args]
    return dict(i, c2=put(core, args), bad=draw(ccg.cats(2, ATOMS)),
                bad_rule=draw(st.sampled_from(FWD + BWD)))


def inferred(l, r, c):
    return CCGRule.infer_rule([ccg.mk(l), ccg.mk(r)], ccg.mk(c)).value


def allowed(l, r, c):
    return [k for k in FWD + BWD if admits(k, l, r, c)]


@check(P, 'binary', rule_case, quick=4000, shards=4,
       rule='a composition of categories of which one has >= 3 atoms')
def binary(s, ctx):
    rule, l, r, c = s['rule'], s['l'], s['r'], s['c']
    assert admits(rule, l, r, c), s
    ctx.label(rule)
    ctx.nontrivial(s['n'] and ccg.size(l) + ccg.size(r) >= 6)
    for args in ((l, r, c), (l, r, s['c2']), (l, r, s['bad']),
                 (l, s['bad'], c), (s['bad'], r, c), (r, l, c)):
        got, ok = inferred(*args), allowed(*args)
        expect(got in ok if ok else got == 'UNK',
               lambda: f'{[ccg.show(x) for x in args]}: inferred {got}, '
                       f'but the rules that apply are {ok}')
    R = CCGRule(rule)
    dom = (ccg.mk(l), ccg.mk(r))
    for k, cod in ((rule, ccg.mk(c)), (rule, None),
                   (allowed(l, r, c)[-1], ccg.mk(c))):
        D = CCGRule(k)(dom, cod) if cod else CCGRule(k).apply(dom)
        p = gr.p_diag(D.to_diagram())
        why = gr.wellformed(p)
        expect(why is None, lambda: f'{k}: {why}')
        expect(p['dom'] == ccg.gram(l) + ccg.gram(r)
               and p['cod'] == ccg.gram(c),
               lambda: f'{k} on {ccg.show(l)}, {ccg.show(r)} is a diagram '
                       f'{D.dom} -> {D.cod}')
        expect(all(b['cls'] in ('Cup', 'Swap') for _, b, _ in p['layers']),
               lambda: f'{k}: {D}')
        expect(ccg.trace(p) == (links(k, l, r), 0),
               lambda: f'{k} on {ccg.show(l)}, {ccg.show(r)} gives {D!r}')
        if not k.endswith('X'):
            expect(all(b['cls'] == 'Cup' for _, b, _ in p['layers']),
                   'unneeded swap')
    expect([ccg.plain(x) for x in R.resolve(dom, ccg.mk(c))] == [l, r],
           lambda: f'{rule} resolves {ccg.show(c)} to '
                   f'{R.resolve(dom, ccg.mk(c))}')
    c2 = s['c2']
    new = [ccg.plain(x) for x in R.resolve(dom, ccg.mk(c2))]
    expect(admits(rule, *new, c2),
           lambda: f'{rule} on {ccg.show(l)}, {ccg.show(r)}: '
                   f'resolving {ccg.show(c2)} gives '
                   f'{[ccg.show(x) for x in new]}')
    ctx.label('resolved' if c2 != c else 'same')
    # the composed category must match
    if rule in ('FC', 'BC', 'FX', 'BX') and s['bad'] != (
            l[2] if rule in FWD else r[2]):
        bad = ((l, put(s['bad'], spine(r, l[2])[1])) if rule in FWD else
               (put(s['bad'], spine(l, r[2])[1]), r))
        try:
            got = R.resolve([ccg.mk(x) for x in bad], ccg.mk(c))
        except CCGRuleUseError:
            got = None
        expect(got is None, lambda: f'{rule} resolves {bad} to {got}')


@st.composite
def near_case(draw):
    """Functor and composed category whose slashes may point anywhere."""
    c = lambda d: draw(ccg.cats(d, ATOMS))  # noqa: E731
    x, y = c(1), c(1)
    args = [[draw(st.sampled_from('/\\')), c(1)]
            for _ in range(draw(st.integers(0, 4)))]
    if draw(st.integers(0, 2)) == 0:
        args = [[args[0][0], a] for _, a in args]
    f, a = [x, draw(st.sampled_from('/\\')), y], put(y, args)
    res = list(args)
    if args and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(args) - 1))
        res[i] = [draw(st.sampled_from('/\\')),
                  draw(st.sampled_from([args[i][1], c(1)]))]
    elif len(args) > 1 and draw(st.integers(0, 3)) == 0:
        res = draw(st.permutations(args))
    swap = draw(st.booleans())
    return {'l': a if swap else f, 'r': f if swap else a, 'c': put(x, res),
            'n': len(args)}


@check(P, 'near', near_case, quick=4000, shards=2,
       rule='at least two arguments composed over')
def near(s, ctx):
    """Rules are inferred exactly where the directions of slashes allow."""
    l, r, c = s['l'], s['r'], s['c']
    ctx.nontrivial(s['n'] >= 2)
    got, ok = inferred(l, r, c), allowed(l, r, c)
    for k in ok or ['none']:
        ctx.label(k)
    expect(got in ok if ok else got == 'UNK',
           lambda: f'{[ccg.show(x) for x in (l, r, c)]}: inferred {got}, '
                   f'but the rules that apply are {ok}')


@st.composite
def other_case(draw):
    c = lambda: draw(ccg.cats(2, ATOMS + ['punc', 'conj']))  # noqa: E731
    return {'t': c(), 'x': c(), 'y': c(),
            'rule': draw(st.sampled_from([k.value for k in CCGRule]))}


@check(P, 'others', other_case, quick=2500, shards=2,
       rule='a raised category with >= 3 atoms')
def others(s, ctx):
    """Unary rules, punctuation and conjunction."""
    t, x, y = s['t'], s['x'], s['y']
    T, X, Y = ccg.mk(t), ccg.mk(x), ccg.mk(y)
    inf = CCGRule.infer_rule
    ftr, btr = [t, '/', [t, '\\', x]], [t, '\\', [t, '/', x]]
    ctx.nontrivial(ccg.size(t) + ccg.size(x) >= 3)
    expect(inf([], T) == 'L', 'lexical')
    for rule, c in (('FTR', ftr), ('BTR', btr)):
        C = ccg.mk(c)
        expect(inf([X], C).value == rule, lambda: f'{x} to {C}')
        D = CCGRule(rule)([X], C)
        p = gr.p_diag(D.to_diagram())
        expect(gr.wellformed(p) is None, rule)
        nx, nt = len(ccg.gram(x)), len(ccg.gram(t))
        o, q = (2 * nt, 0) if rule == 'FTR' else (0, nx)
        want = ccg.norm([[('cod', o + i), ('dom', i)] for i in range(nx)]
                        + [[('cod', q + i), ('cod', q + 2 * nt - 1 - i)]
                           for i in range(nt)])
        expect(p['dom'] == ccg.gram(x) and p['cod'] == ccg.gram(c)
               and ccg.trace(p) == (want, 0),
               lambda: f'{rule} of {X} to {C} is {D!r}')
        expect([ccg.plain(z) for z in CCGRule(rule).resolve([Y], C)] == [x],
               lambda: f'resolve {C}')
    raised = not isinstance(y, str) and y in (
        [y[0], '/', [y[0], '\\', x]], [y[0], '\\', [y[0], '/', x]])
    if not raised:
        expect(inf([X], Y) == 'U', lambda: f'{X} to {Y}')
    expect([ccg.plain(z) for z in CCGRule('U').resolve([X], Y)] == [y], 'U')
    expect(gr.p_diag(CCGRule('U')([X]).to_diagram())
           == {'dom': ccg.gram(x), 'cod': ccg.gram(x), 'layers': []}, 'U')
    punc, conj = ccg.mk('punc'), ccg.mk('conj')
    if x not in ('punc', 'conj'):
        for l, r, c, want in (
                (punc, X, X, 'LP'), (X, punc, X, 'RP'),
                (punc, X, X >> X, 'CONJ'), (X, punc, X << X, 'CONJ'),
                (conj, X, X >> X, 'CONJ'), (X, conj, X << X, 'CONJ')):
            got = inf([l, r], c)
            expect(got == want, lambda: f'{l} {r} to {c} is {got}')
        for rule, dom in (('LP', (punc, X)), ('RP', (X, punc))):
            expect(gr.p_diag(CCGRule(rule)(dom).to_diagram())
                   == {'dom': ccg.gram(x), 'cod': ccg.gram(x), 'layers': []},
                   rule)
            new = CCGRule(rule).resolve(dom, Y)
            expect([ccg.plain(z) for z in new]
                   == (['punc', y] if rule == 'LP' else [y, 'punc']), rule)
        for k in (punc, conj):
            new = CCGRule('CONJ').resolve((k, X), Y)
            expect([ccg.plain(z) for z in new] == [[y, '/', x], x], 'CONJ')
            new = CCGRule('CONJ').resolve((X, k), Y)
            expect([ccg.plain(z) for z in new] == [x, [y, '\\', x]], 'CONJ')
        if y not in ('punc', 'conj'):
            refused(lambda: CCGRule('CONJ').resolve((X, Y), T), 'CONJ')
    # wrong uses
    R = CCGRule(s['rule'])
    ctx.label(s['rule'])
    unary = s['rule'] in ('U', 'FTR', 'BTR')
    refused(lambda: R([X, Y, T], T), s['rule'])
    refused(lambda: R([X, Y] if unary else [X], T), s['rule'])
    if s['rule'] in ('FTR', 'BTR'):
        refused(lambda: R([X]), s['rule'])
    if s['rule'] in ('UNK', 'L', 'CONJ'):
        for n in range(3):
            refused(lambda: R([X, Y][:n], T), s['rule'])
    if s['rule'] == 'UNK':
        refused(lambda: R.resolve([X, Y], T), 'UNK')
        refused(lambda: R.symbol, 'UNK')
    else:
        expect(isinstance(R.symbol, str), 'symbol')
    expect(CCGRule('?' + s['rule']) == CCGRule.UNKNOWN, 'unknown rule')


def refused(f, what):
    try:
        r = f()
    except CCGRuleUseError:
        return
    expect(False, lambda: f'{what}: {r!r} instead of an error')
