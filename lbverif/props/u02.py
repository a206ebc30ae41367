"""U02: the command line does what the library does with the same options."""
import contextlib
from functools import partial
import io
import json
import os
import pickle
import shutil
import tempfile
from unittest import mock

from hypothesis import strategies as st
import yaml

import lambeq
from lambeq import cli, text2diagram as T2D
from lambeq.backend import tensor as TN
from lambeq.backend import grammar as G
from lambeq.text2diagram.ccg_parser import CCGParser
from lambeq.text2diagram.ccg_tree import CCGTree
from lbverif import gram as gr
from lbverif.core import Skip, check, expect, prop

P = 'U02'
prop(P, ['parsers and the tokeniser are stand-ins: the trees are generated',
         'runs in this process on a scratch folder',
         'JSON of string diagrams is refused with NotImplementedError, as '
         'announced in the code',
         'JSON without an output file and options that several sources give '
         'for the same output are left out'])

VP = '(s\\n)'


def leaf(w, t):
    return {'type': t, 'rule': 'L', 'text': w}


def node(r, t, *c):
    return {'type': t, 'rule': r, 'children': list(c)}


class Sent:
    def __init__(self, draw):
        self.draw = draw

    def pick(self, *xs):
        return self.draw(st.sampled_from(xs))

    def np(self, d):
        k = self.pick(0, 0, 1, 2, 3) if d else 0
        if k == 0:
            return leaf(self.pick('Ann', 'Bob', 'tea', 'Zoë'), 'n')
        if k == 1:
            return node('FA', 'n', leaf(self.pick('the', 'a', 'red'),
                                        '(n/n)'), self.np(d - 1))
        if k == 2:
            return node('BA', 'n', self.np(d - 1), node(
                'FA', '(n\\n)', leaf(self.pick('that', 'who'),
                                     f'((n\\n)/{VP})'), self.vp(d - 1)))
        return node('U', 'n', self.np(d - 1))

    def vp(self, d):
        k = self.pick(0, 1, 1, 2, 3, 4) if d else 0
        if k == 0:
            return leaf(self.pick('runs', 'sees'), VP)
        if k == 1:
            return node('FA', VP, leaf(self.pick('likes', 'is'), f'({VP}/n)'),
                        self.np(d - 1))
        if k == 2:
            return node('BA', VP, self.vp(d - 1),
                        leaf(self.pick('fast', 'not'), f'({VP}\\{VP})'))
        aux = leaf(self.pick('does', 'will'), f'({VP}/{VP})')
        if k == 3:
            return node('FA', VP, aux, self.vp(d - 1))
        return node('FA', VP, node('BX', f'({VP}/{VP})', aux,
                                   leaf('not', f'({VP}\\{VP})')),
                    self.vp(d - 1))

    def s(self):
        return node('BA', 's', self.np(2), self.vp(2))


def text(t):
    return t.get('text') or ' '.join(map(text, t['children']))


ANS = {'iqp': ['n_layers', 'n_single_qubit_params'], 'tensor': [],
       'spider': ['max_order'], 'mps': ['bond_dim', 'max_order']}
DEF = {'dim_n': 2, 'dim_s': 2, 'n_layers': 2, 'n_single_qubit_params': 3,
       'bond_dim': 3, 'max_order': 3}
RULES = ['auxiliary', 'connector', 'determiner', 'postadverb', 'preadverb',
         'prepositional_phrase', 'coordination', 'curry',
         'object_rel_pronoun', 'subject_rel_pronoun']


@st.composite
def case(draw, image=False):
    def pick(*xs):
        return draw(st.sampled_from(xs))
    S = Sent(draw)
    k = pick(1, 1, 1, 2, 3)
    o = {}
    # mostly combinations that are allowed, then some spoilt
    o['mode'] = 'string-diagram' if image else pick(
        None, 'string-diagram', 'pregroups', 'pregroups', 'ccg', 'ccg')
    kind = pick('text-ascii', 'text-unicode', None, 'json', 'pickle',
                'pickle', 'pickle')
    if image:
        kind = 'image'
    elif kind == 'json' and o['mode'] != 'ccg' and pick(0, 1, 2):
        kind = 'pickle'
    o['output_format'] = kind
    rich = kind in ('pickle', 'image') and o['mode'] != 'ccg'
    spoil = pick(0, 0, 0, 0, 0, 1)
    if rich or spoil:
        o['reader'] = pick(None, None, None, 'cups', 'stairs', 'spiders',
                           'tree')
        if pick(0, 1):
            o['ansatz'] = pick(*ANS)
            ks = draw(st.lists(st.sampled_from(sorted(DEF)), unique=True,
                               max_size=3))
            if ks:
                o['ansatz_options'] = {k: draw(st.integers(1, 3)) + 2 * (k == 'max_order')
                                       for k in ks}
        if pick(0, 1):
            o['rewrite_rules'] = draw(st.lists(
                st.sampled_from(RULES), unique=True, min_size=1, max_size=3))
    elif o['mode'] != 'ccg':
        o['reader'] = pick(None, None, 'cups')
    if not o.get('reader') or pick(0, 0, 0, spoil):
        o['parser'] = pick(None, None, 'bobcat',
                           'oncilla' if o['mode'] != 'ccg' or spoil
                           else 'bobcat')
    if o.get('parser') != 'oncilla' and pick(0, 0, 1):
        o['root_categories'] = draw(st.lists(
            st.sampled_from(['s', 'n', 'S[dcl]']), min_size=1, max_size=2))
    if pick(0, 0, 0, 1):
        o['tokenise'] = True
    if pick(0, 0, 0, 1):
        o['split_sentences'] = True
    if image or spoil and pick(0, 1):
        o['image_format'] = pick(None, 'png', 'jpg')
        if pick(0, 1):
            o['output_options'] = {x: draw(st.integers(3, 6)) for x in draw(
                st.lists(st.sampled_from(['fig_width', 'fig_height',
                                          'fontsize']),
                         unique=True, min_size=1, max_size=3))}
    need = kind in ('json', 'pickle')
    if image:
        if pick(0, 1):
            o['output_dir'] = pick('out', 'out/deep')
            k = pick(k, k, k, 10)
        else:
            o['output_file'] = pick('x.png', 'x.jpg', 'x', 'x.y', 'a.b.png')
            k = pick(1, 1, 1, k)
    elif need and not (kind == 'pickle' and spoil and pick(0, 1)) \
            or not need and pick(0, 1):
        o['output_file'] = pick('x.out', 'y')
    elif spoil:
        o['output_dir'] = 'out'
    src = pick('arg', 'arg', 'file', 'stdin')
    if src == 'stdin' and not o.get('split_sentences'):
        k = 1
    ts = [S.s() if pick(0, 1, 2) else S.np(2) for _ in range(k)]
    keys = [x for x in o if o[x] is not None]
    load = draw(st.lists(st.sampled_from(keys + ['src']), unique=True)) \
        if pick(0, 0, 1) else None
    return {'o': {x: o[x] for x in keys}, 'trees': ts, 'src': src,
            'both': bool(spoil and pick(0, 0, 1)), 'load': load,
            'over': pick(0, 0, 1), 'store': pick(0, 0, 0, 1),
            'short': pick(0, 1)}


SHORT = {'mode': 'm', 'input_file': 'i', 'output_format': 'f',
         'image_format': 'g', 'output_options': 'u', 'output_file': 'o',
         'output_dir': 'd', 'parser': 'p', 'tokenise': 't',
         'split_sentences': 's', 'reader': 'r', 'root_categories': 'c',
         'rewrite_rules': 'w', 'ansatz': 'a', 'ansatz_options': 'n',
         'store_args': 'y', 'load_args': 'l'}
OTHER = {'mode': 'pregroups', 'output_format': 'text-ascii',
         'output_file': 'no', 'parser': 'oncilla', 'reader': 'stairs',
         'rewrite_rules': ['auxiliary'], 'ansatz': 'tensor',
         'ansatz_options': {'dim_n': 5}, 'image_format': 'svg',
         'output_dir': 'no', 'root_categories': ['p'],
         'output_options': {'fontsize': 9}}


def argv(o, short):
    out = []
    for k, v in o.items():
        if k == 'input_sentence':
            continue
        out.append(f'-{SHORT[k]}' if short else f'--{k}')
        if isinstance(v, dict):
            out += [f'{x}={y}' for x, y in v.items()]
        elif isinstance(v, list):
            out += v
        elif v is not True:
            out.append(v)
    if 'input_sentence' in o:
        out = [o['input_sentence']] + out
    return out


def illegal(o, n):
    """The error that the options ask for."""
    f = o.get('output_format', 'text-unicode')
    mode = o.get('mode', 'string-diagram')
    dest = o.get('output_file') or o.get('output_dir')
    if 'input_sentence' in o and 'input_file' in o:
        return ValueError
    if f not in ('text-ascii', 'text-unicode') and not dest:
        return ValueError
    if o.get('parser') and o.get('reader'):
        return ValueError
    if f != 'image' and (o.get('output_options') or o.get('output_dir')):
        return ValueError
    more = o.get('ansatz') or o.get('rewrite_rules')
    if mode == 'ccg':
        if more or o.get('reader') or f == 'image' \
                or o.get('parser') == 'oncilla':
            return ValueError
    elif f in ('json', 'text-ascii', 'text-unicode') and (
            more or o.get('reader') in ('stairs', 'spiders', 'tree')):
        return ValueError
    if f == 'json' and mode != 'ccg':
        return NotImplementedError
    if f == 'image' and not o.get('output_dir') and n > 1:
        return ValueError
    return None


class Tok:
    """Stand-in tokeniser."""

    def split_sentences(self, t):
        return t.replace('\n', ' | ').split(' | ')

    def tokenise_sentences(self, ss):
        return [s.split() for s in ss]

    def tokenise_sentence(self, s):
        return s.split()


def stand_in(trees, log, name):
    class Parser(CCGParser):
        def __init__(self, root_cats=None, **kw):
            super().__init__()
            log.append((name, root_cats if root_cats is None
                        else list(root_cats)))

        def sentences2trees(self, sentences, tokenised=False,
                            suppress_exceptions=False, verbose=None):
            log.append(('tokenised', tokenised))
            return [trees[' '.join(s) if tokenised else s]
                    for s in sentences]
    return Parser


def files():
    return sorted(os.path.relpath(os.path.join(d, f)) for d, _, fs in
                  os.walk('.') for f in fs)


def run(args, stdin, trees, log):
    """Standard output of the command line, or the error."""
    out = io.StringIO()
    tree = partial(T2D.TreeReader,
                   ccg_parser=stand_in(trees, log, 'tree reader'))
    with contextlib.ExitStack() as s:
        ent = s.enter_context
        ent(mock.patch('sys.argv', ['lambeq'] + args))
        ent(mock.patch('sys.stdin', io.StringIO(stdin)))
        ent(mock.patch.dict(cli.AVAILABLE_PARSERS, {
            k: stand_in(trees, log, k) for k in ('bobcat', 'oncilla')}))
        ent(mock.patch.dict(cli.AVAILABLE_READERS, {'tree': tree}))
        for m in ('lambeq.cli.SpacyTokeniser',
                  'lambeq.tokeniser.SpacyTokeniser',
                  'lambeq.SpacyTokeniser'):
            ent(mock.patch(m, Tok, create=True))
        ent(contextlib.redirect_stdout(out))
        ent(contextlib.redirect_stderr(io.StringIO()))
        try:
            cli.main()
        except (ValueError, NotImplementedError) as e:
            return type(e), out.getvalue()
        except SystemExit as e:
            return ('exit', e.code), out.getvalue()
    return None, out.getvalue()


def result(o, ts):
    """The objects that the library makes."""
    mode = o.get('mode', 'string-diagram')
    if mode == 'ccg':
        return [t.without_trivial_unary_rules() for t in ts]
    r = o.get('reader')
    if r:
        words = [t.text for t in ts]
        if r == 'tree':
            ds = [T2D.TreeReader.tree2diagram(t) for t in ts]
        else:
            R = {'cups': T2D.cups_reader, 'stairs': T2D.stairs_reader,
                 'spiders': T2D.spiders_reader}[r]
            ds = [R.sentence2diagram(w) for w in words]
    else:
        ds = [t.to_diagram() for t in ts]
        if mode == 'pregroups':
            ds = [lambeq.RemoveSwapsRewriter()(d.pregroup_normal_form())
                  for d in ds]
    if o.get('rewrite_rules'):
        R = lambeq.Rewriter(o['rewrite_rules'])
        ds = [R(d).normal_form() for d in ds]
    if o.get('ansatz'):
        a = o['ansatz']
        opt = {**DEF, **o.get('ansatz_options', {})}
        kw = {k: opt[k] for k in ANS[a]}
        A = {'iqp': lambeq.IQPAnsatz, 'tensor': lambeq.TensorAnsatz,
             'spider': lambeq.SpiderAnsatz, 'mps': lambeq.MPSAnsatz}[a]
        dim = (lambda x: x) if a == 'iqp' else TN.Dim
        A = A({G.Ty('n'): dim(opt['dim_n']), G.Ty('s'): dim(opt['dim_s'])},
              **kw)
        ds = [A(d) for d in ds]
    return ds


def drawn(o, ds):
    """Names and contents of the images."""
    if o.get('output_dir'):
        w = len(str(len(ds)))
        ext = o.get('image_format', 'png')
        names = [f'{o["output_dir"]}/diagram_{str(i + 1).zfill(w)}.{ext}'
                 for i in range(len(ds))]
    else:
        f = o['output_file']
        stem, _, ext = f.rpartition('.')
        if ext not in ('png', 'jpg') or not stem:
            f = f'{stem or ext}.{o.get("image_format", "png")}'
        names = [f]
    opt = o.get('output_options', {})
    kw = {}
    if 'fig_width' in opt and 'fig_height' in opt and len(ds) == 1:
        kw['figsize'] = (opt['fig_width'], opt['fig_height'])
    if 'fontsize' in opt:
        kw['fontsize'] = opt['fontsize']
    out = {}
    for n, d in zip(names, ds):
        path = f'want.{n.rpartition(".")[2]}'
        try:
            d.normal_form().draw(path=path, **kw)
        except (ValueError, NotImplementedError):
            d.draw(path=path, **kw)
        with open(path, 'rb') as f:
            out[n] = f.read()
        os.remove(path)
    return out


def judge(s, ctx):
    trees = [CCGTree.from_json(t) for t in s['trees']]
    words = [t.text for t in trees]
    if len({*words}) < len(words):
        raise Skip('two sentences are the same')
    o = dict(s['o'])
    multi = len(trees) > 1
    sep = ' | ' if o.get('split_sentences') and s['src'] != 'file' else '\n'
    txt = sep.join(words)
    stdin = ''
    if s['src'] == 'arg' or s['both']:
        o['input_sentence'] = txt
    if s['src'] == 'file' or s['both']:
        o['input_file'] = 'in.txt'
        with open('in.txt', 'w') as f:
            f.write(txt + '\n')
    if s['src'] == 'stdin' and not s['both']:
        stdin = txt + '\n'
    err = illegal(o, len(trees))
    exp = dict(o)
    args = dict(o)
    if s['load'] is not None:
        ks = [k for k in o if k in s['load'] or (
            'src' in s['load'] and k.startswith('input'))]
        stored = {k: args.pop(k) for k in ks}
        if s['over']:
            # what is given on the line is stronger than what is stored
            stored.update({k: v for k, v in OTHER.items()
                           if k in args and k not in stored})
        with open('conf.yaml', 'w') as f:
            yaml.dump(stored, f)
        args['load_args'] = 'conf.yaml'
        ctx.label('loaded')
    # argparse would take a sentence after a list of values as its last value
    if 'output_dir' in args and 'output_file' in args:
        return
    if s['store']:
        args['store_args'] = 'kept.yaml'
    before = files()
    table = {w: t for w, t in zip(words, trees)}
    log = []
    line = argv(args, s['short'])
    what = f'{line} on {words}'
    f = o.get('output_format', 'text-unicode')
    ctx.label(f'{o.get("mode", "string-diagram")} {f}' if err is None
              else 'refused')
    if err is None:
        try:
            ds = result(o, [CCGTree.from_json(t) for t in s['trees']])
        except NotImplementedError:
            # spiders of several qubits
            ctx.label('not implemented')
            err = NotImplementedError
        else:
            if o.get('output_format') == 'image' and max(
                    len(d.boxes) for d in ds) > 60:
                raise Skip('images of large circuits take long')
    got, out = run(line, stdin, table, log)
    if stdin and out:
        expect(out.startswith('Text: '), lambda: f'{what}: no prompt')
        out = out[len('Text: '):]
    new = [f for f in files() if f not in before]
    expect(got == err, lambda: f'{what}: ends with {got}, expected {err}')
    if err is not None:
        expect(not out and not [x for x in new if x != 'kept.yaml'],
               lambda: f'{what}: refused, but there is output {out!r} {new}')
        return
    ctx.nontrivial(any(o.get(k) for k in ('reader', 'ansatz',
                                          'rewrite_rules'))
                   or o.get('mode', 'x')[0] in 'pc' or multi)
    # what the parser was asked for
    if not o.get('reader'):
        name = o.get('parser', 'bobcat')
        expect(log == [(name, o.get('root_categories')
                        if name == 'bobcat' else None),
                       ('tokenised', bool(o.get('tokenise')))],
               lambda: f'{what}: the parser was asked {log}')
    want = set()
    if f in ('text-ascii', 'text-unicode'):
        asc = f == 'text-ascii'
        if o.get('mode') == 'ccg':
            ls = [t.deriv(use_ascii=asc) for t in ds]
        else:
            ls = [(d if d.is_pregroup else d.pregroup_normal_form())
                  .render_as_str(use_ascii=asc) for d in ds]
        exp = '\n'.join(ls)
        if o.get('output_file'):
            want.add(o['output_file'])
            with open(o['output_file']) as h:
                text = h.read()
            expect(out == '', lambda: f'{what}: prints {out!r}')
        else:
            text, exp = out, exp + '\n'
        expect(text == exp, lambda: f'{what}: writes\n{text}\nexpected\n'
                                    f'{exp}')
    else:
        expect(out == '', lambda: f'{what}: prints {out!r}')
    if f == 'json':
        want.add(o['output_file'])
        with open(o['output_file']) as h:
            got = json.load(h)
        expect(got == [t.to_json() for t in ds],
               lambda: f'{what}: writes {got}')
    elif f == 'pickle':
        want.add(o['output_file'])
        with open(o['output_file'], 'rb') as h:
            got = pickle.load(h)
        if o.get('mode') != 'ccg' and not o.get('ansatz'):
            got, ds = map(gr.p_diag, got), map(gr.p_diag, ds)
        got, ds = list(got), list(ds)
        expect(got == ds, lambda: f'{what}: stores {got}, expected {ds}')
    elif f == 'image':
        imgs = drawn(o, ds)
        want |= set(imgs)
        for n, data in imgs.items():
            expect(n in new, lambda: f'{what}: writes {new}, not {n}')
            with open(n, 'rb') as h:
                expect(h.read() == data, lambda: f'{what}: another image in '
                                                 f'{n}')
    if s['store']:
        want.add('kept.yaml')
    expect(set(new) == want, lambda: f'{what}: writes {new}, expected '
                                     f'{sorted(want)}')
    if s['store'] and f != 'image':
        keep = {n: open(n, 'rb').read() for n in want if n != 'kept.yaml'}
        for n in keep:
            os.remove(n)
        again = run(['-l', 'kept.yaml'], stdin, table, log)
        o2 = again[1][len('Text: '):] if stdin else again[1]
        expect(again[0] is None and o2 == out,
               lambda: f'{what}: the stored arguments give {again}')
        expect(sorted(x for x in files() if x not in before)
               == sorted(new), lambda: f'{what}: the stored arguments write '
                                       f'{files()}')
        for n, data in keep.items():
            h = open(n, 'rb').read()
            expect(h == data or f == 'pickle' and o.get('mode') != 'ccg',
                   lambda: f'{what}: the stored arguments write another {n}')
        ctx.label('stored')


def scratch(s, ctx):
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix='lbverif-u02-')
    os.chdir(d)
    try:
        judge(s, ctx)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@check(P, 'options', case, quick=1200, shards=5,
       rule='a reader, ansatz, rewrite rule, mode or several sentences')
def options(s, ctx):
    scratch(s, ctx)


@check(P, 'images', lambda: case(True), quick=60, shards=3,
       rule='a reader, ansatz, rewrite rule, mode or several sentences')
def images(s, ctx):
    import matplotlib
    matplotlib.use('Agg')
    scratch(s, ctx)


USAGE = st.lists(st.sampled_from(
    ['dim_n=3', 'dim_s=1', 'dim_n', 'dim_n=', 'dim_n=x', 'dim_q=1', '=', '',
     'dim_n=1=2', 'bond_dim=2', 'fontsize=2']), max_size=3)


@check(P, 'usage', lambda: st.tuples(USAGE, st.sampled_from('nu')), quick=300,
       rule='a wrong option')
def usage(s, ctx):
    """Options that are not key=value with known keys are usage errors."""
    items, flag = s
    known = {'n': {'dim_n', 'dim_s', 'bond_dim'}, 'u': {'fontsize'}}[flag]

    def ok(x):
        k, _, v = x.partition('=')
        return k in known and v.isdigit()
    bad = not all(map(ok, items))
    ctx.nontrivial(bad)
    p = cli.prepare_parser()
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            ns = p.parse_args(['a b', f'-{flag}'] + items)
        except SystemExit as e:
            expect(bad and e.code == 2, lambda: f'{items} is refused')
            return
    expect(not bad, lambda: f'-{flag} {items} is accepted')
    got = ns.ansatz_options if flag == 'n' else ns.output_options
    want = {k: int(v) for k, v in (x.split('=') for x in items)}
    if flag == 'n':
        want = {**DEF, **want}
    expect(got == want, lambda: f'{items} reads as {got}')

