"""C03: CCG derivations become the right diagrams."""
import json

from hypothesis import strategies as st

from lambeq.text2diagram.ccg_tree import CCGTree
from lambeq.text2diagram.ccg_type import CCGType
from lbverif import ccg
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.c02 import BWD, FWD, put, spine

P = 'C03'
prop(P, ['rules that change a type stand above words and above rules whose '
         'output can take the new type',
         'generalised compositions whose type changes have an atomic '
         'result'])

# Derivation: {'r': rule, 't': category, 'c': [...]} or {'w': text, 't': ...}
# Every node also gets 'o', the category it has after type changes, as
# demanded by its parent.

AT = ['n', 'n', 's', 'np', 'p']
EMPTY = None


def bend(t):
    """The type that a change of direction asks from below: X/Y comes from
    Y.l X, as the category X\\(()/(()/Y))."""
    d, e = (t[1], '\\/'[t[1] == '\\'])
    return [t[0], e, [EMPTY, d, [EMPTY, d, t[2]]]]


def gram(t):
    if t is None:
        return []
    if isinstance(t, str):
        return [[t, 0]]
    r, a = gram(t[0]), gram(t[2])
    return r + gr.rot_ty(a, -1) if t[1] == '/' else gr.rot_ty(a, 1) + r


class Gen:
    def __init__(self, draw, change, maxl, maxw=6):
        self.draw, self.change = draw, change
        self.left, self.k, self.maxw = maxl, 0, maxw

    def pick(self, xs):
        return self.draw(st.sampled_from(xs))

    def cat(self, d=1):
        return self.draw(ccg.cats(d, AT))

    def word(self, t, o):
        self.k += 1
        self.left -= 1
        return {'w': f'w{self.k}', 't': t, 'o': o}

    def node(self, t, o, fuel, functor=None):
        """A derivation of t; functor is the category it is applied to when
        it is the functor of its parent."""
        if fuel <= 0 or self.left <= 1 or len(gram(o)) > self.maxw:
            return self.word(t, o)
        opts = ['W', 'FA', 'BA', 'FA', 'BA', 'LP', 'RP']
        tc, oc = not isinstance(t, str), isinstance(o, list)
        if tc and oc and t[1] == o[1]:
            opts += (['FC', 'BX', 'GFC', 'GBX'] if t[1] == '/'
                     else ['BC', 'FX', 'GBC', 'GFX']) * 2
        if tc and oc:
            opts += ['GFX', 'GBX']
        if t == o and tc and (
                t == [t[0], '/', [t[0], '\\', t[2][-1]]]
                or t == [t[0], '\\', [t[0], '/', t[2][-1]]]):
            opts += ['TR'] * 3
        if self.change:
            opts += ['U', 'U']
            if tc and t[0] == t[2]:
                opts += ['CONJ'] * 3
        r = self.pick(opts)
        mk = self.node
        f = fuel - 1
        if r == 'W':
            return self.word(t, o)
        if r in ('LP', 'RP'):
            p = {'w': ',', 't': 'punc', 'o': 'punc'}
            c = [p, mk(t, o, f)] if r == 'LP' else [mk(t, o, f), p]
            return {'r': r, 't': t, 'o': o, 'c': c}
        if r == 'TR':
            rule = 'FTR' if t[1] == '/' else 'BTR'
            x = t[2][2]
            return {'r': rule, 't': t, 'o': o, 'c': [mk(x, x, f)]}
        if r == 'CONJ':
            self.k += 1
            self.left -= 1
            x = t[0]
            k = {'w': f'w{self.k}', 't': self.pick(['conj', 'punc']),
                 'o': [o, '/\\'[t[1] == '/'], x]}
            c = [k, mk(x, x, f)]
            return {'r': r, 't': t, 'o': o,
                    'c': c if t[1] == '\\' else c[::-1]}
        if r == 'U':
            u = self.cat(2)
            if oc and isinstance(u, list) and {o[1], u[1]} == {'/', '\\'}:
                return {'r': r, 't': t, 'o': o, 'c': [mk(u, bend(o), f)]}
            return {'r': r, 't': t, 'o': o, 'c': [mk(u, o, f)]}
        # a binary rule: t is X with n more arguments
        n = 0 if r[1] == 'A' else 1 if r[0] != 'G' else \
            self.draw(st.integers(1, 3))
        main, other = '/\\' if r in FWD else '\\/'
        x, ox, args, oargs = t, o, [], []
        for _ in range(n):
            if not isinstance(x, list) or not isinstance(ox, list) \
                    or x[1] != ox[1]:
                break
            args.insert(0, [x[1], x[2]])
            oargs.insert(0, [ox[1], ox[2]])
            x, ox = x[0], ox[0]
        ds = [d for d, _ in args]
        want = other if r.endswith('X') else main
        if len(ds) < n or ds and ds[0] != want or (
                not r.endswith('X') and any(d != main for d in ds)):
            return self.word(t, o)
        if r[0] == 'G' and o != t and not isinstance(ox, str):
            return self.word(t, o)
        # raising the functor needs Y = X\N
        raise_ = r[1] != 'B' and self.draw(st.integers(0, 3)) == 0
        if raise_:
            nn = self.cat(1)
            y, oy = [x, other, nn], [ox, other, nn]
        else:
            y = oy = self.cat(1)
        ftor, oftor = [x, main, y], [ox, main, oy]
        arg, oarg = put(y, args), put(oy, oargs)
        if raise_:
            fn = {'r': 'FTR' if main == '/' else 'BTR', 't': ftor,
                  'o': oftor, 'c': []}
            first = mk(nn, nn, f - 1)
            fn['c'] = [first]
        else:
            fn = mk(ftor, oftor, f)
        an = mk(arg, oarg, f)
        return {'r': r, 't': t, 'o': o,
                'c': [fn, an] if r in FWD else [an, fn]}


def number(d, k=0):
    """Number the words from left to right."""
    if 'w' in d:
        if d['t'] != 'punc' or d['o'] != 'punc':
            d['w'] = f'w{k}'
            k += 1
        return k
    for c in d['c']:
        k = number(c, k)
    return k


@st.composite
def deriv(draw, change=None, depth=4, maxl=6):
    ch = draw(st.booleans()) if change is None else change
    g = Gen(draw, ch, maxl)
    t = draw(ccg.cats(2, AT))
    d = g.node(t, t, depth)
    number(d)
    return d


def words(d):
    if 'w' in d:
        return [d]
    return sum((words(c) for c in d['c']), [])


def nodes(d):
    yield d
    for c in d.get('c', ()):
        yield from nodes(c)


def mkcat(t):
    if t is None:
        return CCGType()
    if isinstance(t, str):
        return CCGType(t)
    return CCGType(result=mkcat(t[0]), direction=t[1], argument=mkcat(t[2]))


def mk(d):
    if 'w' in d:
        return CCGTree(d['w'], biclosed_type=mkcat(d['t']))
    return CCGTree(rule=d['r'], biclosed_type=mkcat(d['t']),
                   children=[mk(c) for c in d['c']])


def collapse(x):
    if isinstance(x, dict):
        return {k: (collapse(v) if k in 'toc' else v) for k, v in x.items()}
    if isinstance(x, list):
        return [collapse(y) for y in x]
    return 'n' if x == 'np' else x


def swapped(d):
    """Whether this rule changes the direction of a category."""
    return d['r'] == 'U' and isinstance(d['o'], list) and isinstance(
        d['c'][0]['t'], list) and d['o'][1] != d['c'][0]['t'][1]


def wire(d, links):
    """Open ends of the wires of a derivation; adds to the links."""
    if 'w' in d:
        if d['o'] == 'punc':
            return []
        return [(d['w'], i) for i in range(len(gram(d['o'])))]
    r, cs = d['r'], [wire(c, links) for c in d['c']]
    o = d['o']
    if r == 'U' and swapped(d):
        ends = cs[0]
        k = len(gram(o[0]))
        if o[1] == '/':
            return ends[len(ends) - k:] + ends[:len(ends) - k]
        return ends[k:] + ends[:k]
    if r in ('U', 'LP', 'RP'):
        return sum(cs, [])
    if r in ('FTR', 'BTR'):
        n = len(gram(o[0]))
        links['n'] = links.get('n', 0) + 1
        a = [('cap', links['n'], i) for i in range(n)]
        b = [('cap', links['n'], n + i) for i in range(n)]
        for x, y in zip(a, b[::-1]):
            links['w'].join(x, y)
        return a + b + cs[0] if r == 'FTR' else cs[0] + a + b
    if r == 'CONJ':
        first = d['c'][0]
        r = 'FA' if first.get('w') and first['t'] in ('conj', 'punc') \
            else 'BA'
    l, rr = d['c']
    f, a = (l['o'], rr['o']) if r in FWD else (rr['o'], l['o'])
    core, args = spine(a, f[2])
    if core != f[2]:
        raise AssertionError((d, core, f))
    nl = sum(len(gram(x)) for s, x in args if s == '\\')
    ny, nx = len(gram(core)), len(gram(f[0]))
    fe, ae = (cs[0], cs[1]) if r in FWD else (cs[1], cs[0])
    fx, fy = (fe[:nx], fe[nx:]) if r in FWD else (fe[ny:], fe[:ny])
    for x, y in zip(fy, ae[nl:nl + ny][::-1]):
        links['w'].join(x, y)
    return ae[:nl] + fx + ae[nl + ny:]


def wirings(d):
    links = {'w': ccg.Wiring()}
    ends = wire(d, links)
    for w in words(d):
        for i in range(len(gram(w['o'])) if w['o'] != 'punc' else 0):
            links['w'].find((w['w'], i))
    for i, e in enumerate(ends):
        links['w'].join(('cod', i), e)
    return links['w'].pairs(lambda a: a[0] != 'cap')


def tree_case():
    return deriv()


@check(P, 'diagram', tree_case, quick=2500, shards=5,
       rule='a derivation of >= 3 words with a rule other than application')
def diagram(d0, ctx):
    rules = {x['r'] for x in nodes(d0) if 'r' in x}
    for r in sorted(rules):
        ctx.label(r)
    ctx.nontrivial(len(words(d0)) >= 3 and rules - {'FA', 'BA'})
    T = mk(d0)
    js = json.dumps(T.to_json())
    for col in (True, False):
        d = collapse(d0) if col else d0
        ws = [w for w in words(d) if w['o'] != 'punc']
        want = wirings(d)
        swap = any('r' in x and swapped(x) for x in nodes(d))
        for planar in (False, True):
            try:
                D = T.to_diagram(planar=planar, collapse_noun_phrases=col)
            except ValueError:
                if swap and planar:
                    ctx.label('not planar')
                    continue
                raise
            what = f'{T.deriv(vertical=True)}\n(planar={planar}, ' \
                   f'collapse={col}) gives {D!r}'
            p = gr.p_diag(D)
            why = gr.wellformed(p)
            expect(why is None, lambda: f'{what}: {why}')
            expect(p['dom'] == [] and p['cod'] == gram(d['o']),
                   lambda: f'{what}: wrong type')
            got = [[b['name'], b['cod']] for _, b, _ in p['layers']
                   if b['cls'] == 'Word']
            exp = [[w['w'], gram(w['o'])] for w in ws]
            if planar:
                expect(all(b['cls'] != 'Swap' for _, b, _ in p['layers']),
                       lambda: f'{what}: there is a swap')
                got, exp = sorted(got), sorted(exp)
            else:
                k = len(exp)
                expect(all(b['cls'] == 'Word'
                           for _, b, _ in p['layers'][:k]),
                       lambda: f'{what}: words do not come first')
            expect(got == exp, lambda: f'{what}: the words are {got}, '
                                       f'expected {exp}')
            expect(all(b['cls'] in ('Word', 'Cup', 'Cap', 'Swap')
                       for _, b, _ in p['layers']), lambda: what)
            expect(ccg.trace(p) == (want, 0),
                   lambda: f'{what}: the wires are not linked as derived')
    expect(json.dumps(T.to_json()) == js, 'the tree has changed')


# ---- JSON, trivial rules, text -------------------------------------------

@st.composite
def json_case(draw):
    d = draw(deriv(depth=3))
    k = draw(st.integers(0, 5))
    for i, x in enumerate(nodes(d)):
        if 'w' in x:
            x['w'] = draw(st.sampled_from([x['w'], 'the', '', 'a b', '"é'])) \
                or x['w']
        elif i == k and x['r'] != 'U':
            x['text'] = draw(st.sampled_from(['some text', 'x']))
        elif draw(st.integers(0, 3)) == 0:
            x['r'] = 'UNK'

    def triv(x):
        if 'c' in x:
            x['c'] = [triv(c) for c in x['c']]
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            x = {'r': 'U', 't': x['t'], 'c': [x]}
        return x
    return triv(d)


def mk2(d):
    if 'w' in d:
        return CCGTree(d['w'], rule='L', biclosed_type=mkcat(d['t']))
    return CCGTree(d.get('text'), rule=d['r'], biclosed_type=mkcat(d['t']),
                   children=[mk2(c) for c in d['c']])


def text(d):
    if 'w' in d:
        return d['w']
    return d.get('text') or ' '.join(text(c) for c in d['c'])


def same(T, d):
    """Why the tree is not the one described."""
    if T.text != text(d):
        return f'text {T.text!r} is not {text(d)!r}'
    if T.rule.value != d.get('r', 'L'):
        return f'rule {T.rule} is not {d.get("r", "L")}'
    if ccg.plain(T.biclosed_type) != d['t']:
        return f'type {T.biclosed_type} is not {d["t"]}'
    cs = d.get('c', [])
    if len(T.children) != len(cs):
        return f'{len(T.children)} children, expected {len(cs)}'

    def height(x):
        return 1 + max(map(height, x['c'])) if x.get('c') else 0
    if T.height != height(d):
        return f'height {T.height} is not {height(d)}'
    if (T.is_leaf, T.is_unary, T.is_binary) != tuple(
            len(cs) == i for i in range(3)):
        return 'arity flags'
    if len(cs) == 1 and T.child is not T.children[0] or len(cs) == 2 and (
            T.left is not T.children[0] or T.right is not T.children[1]):
        return 'child, left, right'
    return next(filter(None, map(same, T.children, cs)), None)


def untrivial(d):
    while d.get('r') == 'U' and d['c'][0]['t'] == d['t']:
        d = d['c'][0]
    return dict(d, c=[untrivial(c) for c in d['c']]) if 'c' in d else d


@check(P, 'trees', json_case, quick=1500, shards=3,
       rule='a trivial unary rule in a tree of >= 3 words')
def trees(d, ctx):
    T = mk2(d)
    why = same(T, d)
    expect(why is None, why)
    trivial = [x for x in nodes(d) if x.get('r') == 'U'
               and x['c'][0]['t'] == x['t']]
    ctx.nontrivial(trivial and len(words(d)) >= 3)
    ctx.label('trivial' if trivial else 'no trivial rule')
    data = T.to_json()
    txt = json.dumps(data)
    for back in (CCGTree.from_json(data), CCGTree.from_json(txt),
                 CCGTree.from_json(json.loads(txt))):
        why = same(back, d)
        expect(why is None, lambda: f'JSON {txt} reads as a tree with {why}')
        expect(back == T and not back != T, 'round trip is not equal')
        expect(back.to_json() == data, 'JSON of the JSON')
    expect(json.dumps(data) == txt, 'reading changes the JSON')

    def nulls(x):
        return dict(x, children=[nulls(c) for c in x['children']]
                    if x.get('children') else None)
    expect(CCGTree.from_json(nulls(data)) == T, 'children that are null')
    U = T.without_trivial_unary_rules()
    why = same(U, untrivial(d))
    expect(why is None, lambda: f'{T.deriv(vertical=True)}\nwithout trivial '
                                f'rules: {why}')
    C = T.collapse_noun_phrases()
    why = same(C, collapse(d))
    expect(why is None, lambda: f'{T.deriv(vertical=True)}\nwith collapsed '
                                f'noun phrases: {why}')
    why = same(T, d)
    expect(why is None, lambda: f'the tree has changed: {why}')
    expect((U == T) == (not trivial), 'equality')
    # malformed trees are refused
    for n in range(4):
        for rule, k in (('FA', 2), ('U', 1), ('FTR', 1), ('L', 0),
                        ('CONJ', 2)):
            try:
                CCGTree(rule=rule, biclosed_type=mkcat('n'),
                        children=[T] * n)
            except ValueError:
                expect(n != k, f'{rule} with {n} children is refused')
            else:
                expect(n == k, f'{rule} with {n} children is accepted')
    expect(CCGTree.from_json(None) is None
           and CCGTree.to_json(None) is None, 'None')
