"""C08: text drawings of pregroup diagrams and CCG derivations."""
import json

from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lambeq.backend.drawing.text_printer import PregroupTextPrinter
from lbverif import gram as gr
from lbverif.core import check, expect, prop
from lbverif.props.c03 import deriv, mk

P = 'C08'
prop(P, ['words without spaces and drawing characters; at least one space '
         'between words'])

NAMES = ['n', 's', 'n', 's', 'np', 'conj', 'a.b']
WORDS = ['a', 'is', 'the', 'big', 'Mary', 'gives', 'walked', "o'er", 'é',
         'unimaginable', 'x', '42', 'New.York']


@st.composite
def diagram(draw):
    """{'w': [[word, type], ...], 'm': [['cup' or 'swap', offset], ...]}."""
    ws, wires = [], []
    for _ in range(draw(st.integers(0, 6))):
        t = draw(st.lists(st.tuples(
            st.sampled_from(NAMES), st.sampled_from([0, 0, 1, -1, 2])).map(
                list), min_size=draw(st.sampled_from([0, 1, 1, 1])),
            max_size=4))
        # mostly types that cancel
        if wires and draw(st.integers(0, 3)):
            k = draw(st.integers(1, min(3, len(wires))))
            t = [[a, z + 1] for a, z in reversed(wires[-k:])] + t[:1]
        ws.append([draw(st.sampled_from(WORDS)), t])
        wires += t
    cur, ms = [list(w) for w in wires], []
    for _ in range(draw(st.integers(0, 9))):
        cups = [i for i in range(len(cur) - 1)
                if cur[i][0] == cur[i + 1][0]
                and cur[i + 1][1] - cur[i][1] == 1]
        if cups and draw(st.integers(0, 2)):
            i = draw(st.sampled_from(cups))
            ms.append(['cup', i])
            del cur[i:i + 2]
        elif len(cur) > 1:
            i = draw(st.integers(0, len(cur) - 2))
            ms.append(['swap', i])
            cur[i:i + 2] = cur[i:i + 2][::-1]
    return {'w': ws, 'm': ms, 'space': draw(st.integers(1, 4)),
            'at': draw(st.booleans())}


def build(x):
    D = G.Diagram(G.Ty(), G.Ty(), [])
    for w, t in x['w']:
        D = D @ G.Word(w, gr.mk_ty(t))
    cur = [list(a) for _, t in x['w'] for a in t]
    for k, i in x['m']:
        a, b = (gr.mk_ty([c]) for c in cur[i:i + 2])
        box = G.Cup(a, b) if k == 'cup' else G.Swap(a, b)
        D = D >> (gr.mk_ty(cur[:i]) @ box @ gr.mk_ty(cur[i + 2:]))
        cur[i:i + 2] = [] if k == 'cup' else cur[i:i + 2][::-1]
    return D


class Bad(Exception):
    """A drawing that cannot be read."""


def spans_of(line, ch):
    out, i = [], 0
    while i < len(line):
        if line[i] == ch:
            j = i
            while j < len(line) and line[j] == ch:
                j += 1
            out.append((i, j))
            i = j
        else:
            if line[i] != ' ':
                raise Bad(f'{line[i]!r} among the underlines')
            i += 1
    return out


def read(text, sep, n):
    """[[word, [type, ...]], ...], links between types, free types, boxes
    by row."""
    rows = text.split('\n')
    if len(rows) < 3:
        raise Bad('less than three lines')
    spans = spans_of(rows[1], '─')
    if any(b[0] - a[1] != n for a, b in zip(spans, spans[1:])):
        raise Bad(f'not {n} spaces between the words')
    end = max(map(len, rows))
    ws, cols = [], []
    for a, b in spans:
        t = rows[2].ljust(end)[a:b]
        ts, at = [], a + len(t) - len(t.lstrip())
        for s in t.strip().split(sep) if t.strip() else []:
            ts.append(s)
            cols.append((at, at + len(s)))
            at += len(s) + len(sep)
        ws.append([rows[0].ljust(end)[a:b].strip(), ts])
    for r in (rows[0], rows[2]):
        if any(c != ' ' and not any(a <= i < b for a, b in spans)
               for i, c in enumerate(r)):
            raise Bad('text outside of the spans of words')
    rest = rows[3:]
    active, links, boxes = {}, [], []
    for k, (a, b) in enumerate(cols):
        at = [i for i in range(a, b) if rest and i < len(rest[0])
              and rest[0][i] in '│╰╯']
        if len(at) != 1:
            raise Bad(f'wires {at} below the type at columns {a}-{b}')
        active[at[0]] = k
    pending = {}
    for r in rest:
        seen, i, nb, low = set(), 0, [], dict(pending)
        pending = {}
        while i < len(r):
            c = r[i]
            if c == ' ':
                i += 1
                continue
            if i in low:
                # second row of a swap
                mid, right = low.pop(i)
                if not (c == '╭' and r[mid] == '╰' and r[right] == '╮'
                        and set(r[i + 1:mid] + r[mid + 1:right]) <= {'─'}):
                    raise Bad(f'{r[i:right + 1]!r} does not end a swap')
                active[i], active[right] = active[right], active[i]
                seen |= {i, right}
                i = right + 1
            elif c == '│':
                if i not in active:
                    raise Bad(f'a wire from nowhere at column {i}')
                seen.add(i)
                i += 1
            elif c == '╰':
                j = i + 1
                mids = []
                while j < len(r) and r[j] in '─╮':
                    if r[j] == '╮':
                        mids.append(j)
                    j += 1
                if j >= len(r) or r[j] != '╯' or len(mids) > 1 or any(
                        q not in active for q in (i, j)):
                    raise Bad(f'{r[i:]!r} is neither cup nor swap')
                if any(i < q < j for q in active):
                    raise Bad('a box over another wire')
                seen |= {i, j}
                if mids:
                    pending[i] = (mids[0], j)
                    nb.append('swap')
                else:
                    links.append(tuple(sorted((active[i], active[j]))))
                    del active[i], active[j]
                    nb.append('cup')
                i = j + 1
            else:
                raise Bad(f'{c!r} in {r!r}')
        if low or set(active) - seen:
            raise Bad(f'wires at columns {set(active) - seen} stop')
        boxes.append(nb)
    if pending:
        raise Bad('half a swap')
    return ws, sorted(links), [active[i] for i in sorted(active)], boxes


def plan(x):
    """Links, free types, and boxes by layer as early as they can be."""
    cur = list(range(sum(len(t) for _, t in x['w'])))
    slots = list(cur)
    links, layers = [], []
    for k, i in x['m']:
        a, b = slots[i], slots[i + 1]
        at = 1 + max([n for n, l in enumerate(layers)
                      if any(p <= b and a <= q for p, q, _ in l)],
                     default=-1)
        if at == len(layers):
            layers.append([])
        layers[at].append((a, b, k))
        if k == 'cup':
            links.append(tuple(sorted(cur[i:i + 2])))
            del cur[i:i + 2], slots[i:i + 2]
        else:
            cur[i:i + 2] = cur[i:i + 2][::-1]
    return sorted(links), cur, [[k for _, _, k in sorted(l)]
                                for l in layers]


TO_ASCII = str.maketrans('│╮╭╰╯─·', '|  \\/_ ')


@check(P, 'pregroup', diagram, quick=2500, shards=2,
       rule='>= 2 words, a swap and a cup')
def pregroup(x, ctx):
    D = build(x)
    kinds = [k for k, _ in x['m']]
    ctx.nontrivial(len(x['w']) > 1 and len(set(kinds)) == 2)
    for k in set(kinds):
        ctx.label(k)
    sep = ' @ ' if x['at'] else '·'
    links, free, layers = plan(x)
    types = [[w, [str(gr.mk_ty([a])) for a in t]] for w, t in x['w']]
    before = repr(D)
    for compress in (True, False):
        kw = {'word_spacing': x['space'], 'use_at_separator': x['at'],
              'compress_layers': compress}
        text = D.render_as_str(**kw)
        expect(PregroupTextPrinter(**kw).diagram2str(D) == text,
               'render_as_str differs from the printer')
        try:
            ws, got, ends, rows = read(text, sep, x['space'])
        except Bad as e:
            expect(False, lambda: f'{D!r} is drawn\n{text}\n{e}')
        expect(ws == types, lambda: f'words and types {ws} in\n{text}')
        expect(got == links and ends == free,
               lambda: f'{D!r} is drawn\n{text}\nwith links {got} and free '
               f'wires {ends}, not {links} and {free}')
        drawn = [r for r in rows if r]
        if compress:
            expect(drawn == layers, lambda: f'{D!r} is drawn\n{text}\nin '
                   f'layers {drawn}, not {layers}')
        else:
            expect(drawn == [[k] for k in kinds],
                   lambda: f'{D!r} is drawn\n{text}\nnot a box at a time')
        plain = D.render_as_str(use_ascii=True, **kw)
        expect([r.rstrip() for r in plain.split('\n')]
               == [r.rstrip() for r in text.translate(TO_ASCII).split('\n')],
               lambda: f'ASCII drawing\n{plain}\nof\n{text}')
        expect(all(c.isascii() or any(c in w for w, _ in x['w'])
                   for c in plain), lambda: f'{plain!r} is not ASCII')
    expect(repr(D) == before, 'the diagram has changed')


@check(P, 'refused', lambda: gr.diagrams(
    kinds=('box', 'cup', 'swap', 'cap', 'word', 'word')), quick=300,
    rule='a diagram without inputs')
def refused(d, ctx):
    D = gr.mk_diag(d)
    ctx.nontrivial(not d['dom'])
    p = gr.p_diag(D)
    kinds = [b['cls'] for _, b, _ in p['layers']]
    k = next((i for i, c in enumerate(kinds) if c != 'Word'), len(kinds))
    ok = not p['dom'] and all(c in ('Cup', 'Swap') for c in kinds[k:]) \
        and all(not D.layers[i].right for i in range(k))
    try:
        if len(d['layers']) % 2:
            D.render_as_str()
        else:
            PregroupTextPrinter().diagram2str(D)
    except (ValueError, NotImplementedError):
        expect(not ok, lambda: f'{D!r} is refused')
    else:
        ctx.label('drawn')
        expect(ok, lambda: f'{D!r} is drawn')


# ---- derivations ---------------------------------------------------------

SYMBOL = {'U': '<U>', 'FA': '>', 'BA': '<', 'FC': '>B', 'BC': '<B',
          'FX': '>Bx', 'BX': '<Bx', 'GFC': '>Bⁿ', 'GBC': '<Bⁿ',
          'GFX': '>Bxⁿ', 'GBX': '<Bxⁿ', 'LP': '<p', 'RP': '>p',
          'FTR': '>T', 'BTR': '<T', 'CONJ': '<&>'}


def cat(t, pretty):
    if t is None:
        return '()'
    if isinstance(t, str):
        return t
    a, b = (f'({cat(s, pretty)})' if isinstance(s, list) else cat(s, pretty)
            for s in (t[0], t[2]))
    if not pretty:
        return a + t[1] + b
    return f'{a}↢{b}' if t[1] == '/' else f'{b}↣{a}'


def horizontal(text, ascii):
    """[rule symbol or None, category, word or children] of a drawing."""
    rows = text.split('\n')
    end = max(map(len, rows))
    rows = [r.ljust(end) for r in rows]
    items = []
    for a, b in spans_of(rows[1].rstrip(), '=' if ascii else '═'):
        items.append([a, b, [None, rows[2][a:b].strip(),
                             rows[0][a:b].strip()]])
    used = [[(a, b) for a, b, _ in items]] * 3
    k = 3
    while k < len(rows):
        row, i, here = rows[k], 0, []
        while i < end:
            if row[i] == ' ':
                i += 1
                continue
            j = i
            while j < end and row[j] != ' ':
                j += 1
            tok = row[i:j]
            sym = tok.lstrip('-' if ascii else '─')
            inside = [t for t in items if i < t[1] and t[0] < j]
            if not inside or any(t[0] < i or t[1] > j for t in inside):
                raise Bad(f'the line {tok!r} at columns {i}-{j} cuts '
                          f'{[(t[0], t[1]) for t in inside]}')
            at = items.index(inside[0])
            if k + 1 >= len(rows):
                raise Bad('no category below a line')
            items[at:at + len(inside)] = [
                [i, j, [sym, rows[k + 1][i:j].strip(),
                        [t[2] for t in inside]]]]
            here.append((i, j))
            i = j
        used += [here] * 2
        k += 2
    for r, spans in zip(rows, used):
        if any(c != ' ' and not any(a <= i < b for a, b in spans)
               for i, c in enumerate(r)):
            raise Bad(f'text outside of lines in {r!r}')
    if len(items) != 1:
        raise Bad(f'{len(items)} derivations')
    return items[0][2]


def vertical(text, ascii):
    rows = text.split('\n')
    at, such = ('<-', '<-') if ascii else ('←', '∋')

    def node(k, depth):
        """The node at row k, and the row after it."""
        r = rows[k]
        if depth:
            r = r[2 * depth - 1:]
        head = r.strip()
        if ': ' not in head.split(f' {such} ')[0]:
            c, w = head.split(f' {such} ', 1)
            return [None, c, w[1:-1]], k + 1
        rule, tail = head.split(': ', 1)
        c, args = tail.split(f' {at} ', 1)
        args = args.split(' + ')
        k += 1
        kids = []
        for i, _ in enumerate(args):
            start = k
            t, k = node(k, depth + 1)
            bar = rows[start][2 * depth]
            last = i == len(args) - 1
            if bar in ' \n' or not ascii and bar != ('└' if last else '├'):
                raise Bad(f'branch {bar!r}')
            for q in range(start + 1, k):
                c2 = rows[q][2 * depth]
                if (c2 == ' ') != last or not ascii and c2 not in ' │':
                    raise Bad(f'{c2!r} beside a branch')
            kids.append(t)
        if [t[1] for t in kids] != args:
            raise Bad(f'{args} named, {[t[1] for t in kids]} below')
        return [rule, c, kids], k
    t, k = node(0, 0)
    if k != len(rows):
        raise Bad('rows left')
    return t


def rename(d, ws, k=0):
    """Words of all lengths in place of w0, w1, ..."""
    if 'w' in d:
        if d['w'].startswith('w'):
            d['w'] = ws[int(d['w'][1:]) % len(ws)]
        return
    for c in d['c']:
        rename(c, ws)


def expected(d, ascii, pretty, sym):
    c = cat(d['t'], pretty)
    if 'w' in d:
        return [None, c, d['w']]
    r = SYMBOL[d['r']].replace('ⁿ', 'n' if ascii else 'ⁿ') if sym else d['r']
    return [r, c, [expected(x, ascii, pretty, sym) for x in d['c']]]


def flat(t):
    return t if isinstance(t[2], str) else [
        t[0].replace('^', ''), t[1], [flat(c) for c in t[2]]] \
        if t[0] is not None else t


@check(P, 'derivation', lambda: st.fixed_dictionaries({
    'd': deriv(), 'ws': st.lists(st.sampled_from(WORDS), min_size=1,
                                 max_size=6),
    'space': st.integers(1, 4), 'slashes': st.booleans(),
    'ascii': st.booleans()}), quick=2500, shards=2,
    rule='>= 3 words at different depths')
def derivation(x, ctx):
    d = json.loads(json.dumps(x['d']))
    rename(d, x['ws'])
    T = mk(d)
    ascii = x['ascii']
    pretty = not (x['slashes'] or ascii)
    kw = {'use_slashes': x['slashes'], 'use_ascii': ascii}
    depths = set()

    def walk(t, k):
        if 'w' in t:
            depths.add(k)
        for c in t.get('c', ()):
            walk(c, k + 1)
    walk(d, 0)
    ctx.nontrivial(len(depths) > 2)
    for name, text, fn, sym in (
            ('horizontal', T.deriv(word_spacing=x['space'], **kw),
             horizontal, True),
            ('vertical', T.deriv(vertical=True, **kw), vertical, False)):
        want = expected(d, ascii, pretty, sym)
        try:
            got = fn(text, ascii)
        except (Bad, IndexError, ValueError) as e:
            expect(False, lambda: f'{want} is drawn\n{text}\n{e}')
        expect(flat(got) == want,
               lambda: f'{want} is drawn\n{text}\nwhich reads {got}')
        expect(not ascii or all(c.isascii() or any(
            c in w for w in x['ws']) for c in text),
            lambda: f'not ASCII:\n{text}')
