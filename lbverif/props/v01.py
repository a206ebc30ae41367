"""V01: drawings of diagrams."""
import contextlib
import io
import os
import re
import tempfile

from hypothesis import strategies as st
import numpy as np
from PIL import Image

from lambeq.backend import grammar as G
from lambeq.backend import quantum as Q
from lambeq.backend.drawing import (draw, draw_equation, draw_pregroup,
                                     to_gif)
from lambeq.backend.drawing.drawing_backend import DrawingBackend
from lambeq.backend.drawing.mat_backend import MatBackend
from lbverif import gram as gr
from lbverif import qc
from lbverif.core import check, expect, prop
from lbverif.props import c08

P = 'V01'
prop(P, ['the drawing is read off the TikZ text (nodes, polygons, lines); '
         'LaTeX is not run',
         'the polygons of boxes, and the centres of cups, caps, swaps and '
         'spiders, are drawn in the order of the boxes'])

EPS = 1e-6
LINKS = ('cup', 'cap', 'swap', 'spider')


# ---- reading TikZ --------------------------------------------------------

NODE = re.compile(r'\\node \[(.*)\] \((\d+)\) at \((.*), (.*)\) \{(.*)\};$')
EDGE = re.compile(r'\\draw \[(.*?)\] (\(.*\));$')


class Pic:
    """What is drawn: polygons, lines, texts and nodes."""

    def __init__(self, text):
        at = {}
        self.polys, self.lines, self.texts, self.nodes = [], [], [], []
        for line in text.splitlines():
            m = NODE.match(line)
            if m:
                opts, k, x, y, s = m.groups()
                p = (float(x), float(y))
                expect(k not in at, lambda: f'two nodes {k}')
                at[k] = p
                if 'style=none' in opts:
                    self.texts.append((s, *p))
                elif opts:
                    self.nodes.append((opts, *p))
            m = EDGE.match(line)
            if m:
                pts = re.findall(r'\((\d+)\.center\)', m.group(2))
                expect(all(q in at for q in pts),
                       lambda: f'a line to unknown nodes: {line}')
                pts = [at[q] for q in pts]
                if 'fill=' in m.group(1):
                    expect(pts[0] == pts[-1], 'an open polygon')
                    self.polys.append(pts[:-1])
                else:
                    expect(len(pts) == 2, lambda: f'a line {pts}')
                    c = re.search(r'draw=\{rgb,255: red,(\d+); green,(\d+); '
                                  r'blue,(\d+)\}', m.group(1))
                    self.lines.append((pts[0], pts[1], c and c.groups()))


def tikz(D, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        draw(D, to_tikz=True, **kw)
    return Pic(buf.getvalue())


def near(a, b):
    return abs(a - b) < EPS


class Shape:
    """A polygon with flat top and bottom edges."""

    def __init__(self, pts):
        self.pts = pts
        self.l, self.r = min(p[0] for p in pts), max(p[0] for p in pts)
        self.b, self.t = min(p[1] for p in pts), max(p[1] for p in pts)

    def holds(self, o):
        return (self.l < o.l + EPS and o.r < self.r + EPS
                and self.b < o.b + EPS and o.t < self.t + EPS)

    def meets(self, o):
        return (min(self.r, o.r) - max(self.l, o.l) > EPS
                and min(self.t, o.t) - max(self.b, o.b) > EPS)


class Reader:
    """Follows the wires of a picture from the top."""

    def __init__(self, pic, lines=None):
        self.out = {}
        for a, b, c in pic.lines if lines is None else lines:
            self.out.setdefault(a, []).append((b, c))
        self.texts = {}
        for s, x, y in pic.texts:
            self.texts.setdefault((round(x, 6), round(y, 6)), []).append(s)
        self.pic = pic
        self.used = set()

    def next(self, p):
        to = self.out.get(p, [])
        expect(len(to) == 1, lambda: f'lines from {p}: {to}')
        expect((p, to[0][0]) not in self.used, lambda: f'line {p} twice')
        self.used.add((p, to[0][0]))
        return to[0][0]

    def label(self, x, y, text, what):
        got = self.texts.get((round(x, 6), round(y, 6)), [])
        expect(text in got, lambda: f'{what} is labelled {got}, not {text}')
        got.remove(text)


# ---- grammar diagrams ----------------------------------------------------

def item(b):
    """What a box of a grammar diagram looks like."""
    dom, cod = gr.box_dom(b), gr.box_cod(b)
    return {'k': 'link' if b['k'] in LINKS else 'box',
            'dom': [str(gr.mk_ty([a])) for a in dom],
            'cod': [str(gr.mk_ty([a])) for a in cod],
            'dot': b['k'] == 'spider', 'spec': b}


def inside(p, s):
    return s.l + EPS < p[0] < s.r - EPS and s.b + EPS < p[1] < s.t - EPS


def read(dom, items, boxes, pic, foliated=False, labels=True, asym=0.25):
    """Checks that `pic` shows `boxes`, with types as in `dom` and
    `items` = [[offset, item], ...]."""
    shapes = [Shape(p) for p in pic.polys]
    n = sum(bool(i.get('polys', i['k'] == 'box')) for _, i in items)
    expect(len(shapes) == n, lambda: f'{len(shapes)} boxes drawn, not {n}')
    # lines that are part of the drawing of a box
    level = [e for e in pic.lines if near(e[0][1], e[1][1])]
    through = [e for e in pic.lines if e[0][1] < e[1][1] - EPS
               and near(e[0][0], e[1][0])]
    inner = [e for e in pic.lines if any(
        inside(e[0], s) and inside(e[1], s) for s in shapes)]
    lines = [e for e in pic.lines
             if e not in level and e not in through and e not in inner]
    R = Reader(pic, lines)
    ends = {b for _, b, _ in lines}
    starts = {a for a, _, _ in lines} - ends - {a for a, _, _ in through}
    # points that are not below a box: inputs, and caps
    free = {p for p in starts if not any(
        near(s.b, p[1]) and s.l < p[0] < s.r for s in shapes)}
    legs = {}
    for a, _, _ in lines:
        legs[a] = legs.get(a, 0) + 1
    dots = {(a, b) for o, a, b in pic.nodes}
    scan = inputs = sorted(p for p in free
                           if legs[p] == 1 and p not in dots)
    order = []
    for a, _, _ in lines:
        if a in free and a not in inputs and a not in order:
            order.append(a)
    expect(len(inputs) == len(dom),
           lambda: f'{len(inputs)} inputs, not {len(dom)}')
    expect(len({p[1] for p in inputs}) < 2, 'inputs at different heights')

    def typed(ps, t, top):
        if labels:
            for p, a in zip(ps, t):
                R.label(p[0] + .1, p[1] - (0 if top else .1), a,
                        f'wire at {p}')
    typed(inputs, dom, True)
    areas, wires = [], []
    for at, (off, b) in enumerate(items):
        expect(all(p[0] < q[0] for p, q in zip(scan, scan[1:])),
               lambda: f'wires in the order {scan}')
        ins = []
        for p in scan[off:off + len(b['dom'])]:
            q = R.next(p)
            expect(q[1] < p[1], lambda: f'line {p}-{q} goes up')
            wires.append((p, q))
            ins.append(q)
        if b['k'] == 'link':
            if ins:
                cs = {R.next(q) for q in ins}
                expect(len(cs) == 1, lambda: f'{b} has centres {cs}')
                c, = cs
            else:
                expect(order, lambda: f'{b} is not drawn')
                c = order.pop(0)
            outs = sorted(q for q, _ in R.out.get(c, []))
            R.used |= {(c, q) for q in outs}
            expect((c in dots) == b['dot'], lambda: f'{b}: node at {c}')
            pts = ins + outs + [c]
            area = Shape([(min(p[0] for p in pts), min(p[1] for p in pts)),
                          (max(p[0] for p in pts), max(p[1] for p in pts))])
            expect(all(q[1] > c[1] for q in ins)
                   and all(q[1] < c[1] for q in outs),
                   lambda: f'legs of {b} on the wrong side')
        elif b['k'] == 'box':
            area = s = shapes.pop(0)
            expect(all(near(q[1], s.t) and s.l < q[0] < s.r for q in ins),
                   lambda: f'{b} at {s.pts} is entered at {ins}')
            outs = sorted(p for p in R.out if near(p[1], s.b)
                          and s.l < p[0] < s.r)
            if b.get('named', True):
                name(R, s, boxes[at].name)
            else:
                here = [e for e in inner if inside(e[0], s)]
                expect(len(here) == 3, lambda: f'{b} is drawn as {here}')
                inner = [e for e in inner if e not in here]
            expect(len(s.pts) == b.get('corners', 4),
                   lambda: f'{b} is drawn as {s.pts}')
            if len(s.pts) == 4:
                sheer(boxes[at], s, asym)
        elif b['k'] == 'discard':
            (x, y), = ins
            outs = []
            here = [e for e in level if abs(e[0][0] + e[1][0] - 2 * x) < EPS
                    and y - .5 < e[0][1] < y + EPS]
            expect(len(here) == 3 and any(near(e[0][1], y) for e in here),
                   lambda: f'discard at {x, y} is drawn as {here}')
            level = [e for e in level if e not in here]
            area = Shape([(x - .5, y - .2), (x + .5, y)])
        else:
            area, outs, mine = b['read'](R, pic, ins, shapes, level,
                                         through, asym)
            level = [e for e in level if e not in mine]
            through = [e for e in through if e not in mine]
        expect(len(outs) == len(b['cod']),
               lambda: f'{b} has outputs {outs}, expected {len(b["cod"])}')
        typed(outs, b['cod'], False)
        areas.append((area, b['k']))
        scan = scan[:off] + outs + scan[off + len(b['dom']):]
    expect(all(p[0] < q[0] for p, q in zip(scan, scan[1:])),
           lambda: f'wires in the order {scan}')
    last = [R.next(p) for p in scan]
    wires += list(zip(scan, last))
    expect(all(q[1] < p[1] for p, q in zip(scan, last)), 'outputs go up')
    expect(all(p not in R.out for p in last), 'lines go on after the end')
    expect(len({q[1] for q in last}) < 2, 'outputs at different heights')
    expect(len(R.used) == len(lines),
           lambda: f'{len(lines)} lines, {len(R.used)} read')
    expect(not order and not level and not through and not inner,
           lambda: f'further lines {order, level, through, inner}')
    left = [s for v in R.texts.values() for s in v]
    expect(not left, lambda: f'further labels {left}')
    # layout: nothing hides anything else
    for i, (s, k) in enumerate(areas):
        if k == 'box' and asym:
            areas[i] = s, k = Shape([(s.l + asym, s.b),
                                     (s.r - asym, s.t)]), k
        for j in range(i):
            expect(not s.meets(areas[j][0]), lambda: f'boxes {i} and {j} '
                   f'overlap')
        if foliated and i:
            expect(s.t < areas[i - 1][0].b + EPS,
                   lambda: f'boxes {i - 1} and {i} share a layer')
    for p, q in wires:
        expect(near(p[0], q[0]), lambda: f'wire {p}-{q} is not vertical')
        for j, (s, k) in enumerate(areas):
            expect(not (s.l + EPS < p[0] < s.r - EPS
                        and min(p[1], s.t) - max(q[1], s.b) > EPS),
                   lambda: f'wire {p}-{q} crosses box {j}')


def name(R, s, text):
    here = [k for k in R.texts if s.l < k[0] < s.r
            and near(k[1], s.b + .25) and text in R.texts[k]]
    expect(here, lambda: f'the box at {s.pts} is not labelled {text}')
    R.texts[here[0]].remove(text)


def sheer(box, s, asym):
    """Which corner of the box sticks out."""
    if not asym or abs(box.z) > 1:
        return
    dag, conj = isinstance(box, G.Daggered), box.z != 0
    corner = {(0, 0): (s.r, s.t), (1, 0): (s.r, s.b), (0, 1): (s.l, s.t),
              (1, 1): (s.l, s.b)}[dag, conj]
    near_corner = [p for p in s.pts if near(p[0], corner[0])]
    expect(len(near_corner) == 1 and near(near_corner[0][1], corner[1]),
           lambda: f'{box} is drawn as {s.pts}')


@check(P, 'plain', lambda: st.fixed_dictionaries({
    'd': gr.diagrams(maxl=9), 'f': st.booleans(), 'l': st.booleans()}),
    quick=900, shards=2, rule='>= 4 boxes of which one is a link')
def plain(x, ctx):
    d = x['d']
    if not d['dom'] and not d['layers']:
        return
    D = gr.mk_diag(d)
    ks = [b['k'] for _, b in d['layers']]
    ctx.nontrivial(len(ks) > 3 and any(k in LINKS for k in ks))
    ctx.label('foliated' if x['f'] else 'compressed')
    asym = .25 * any(isinstance(b, G.Daggered) or b.z for b in D.boxes)
    kw = {} if x['l'] else {'draw_type_labels': False}
    pic = tikz(D, foliated=x['f'], **kw)
    read([str(gr.mk_ty([a])) for a in d['dom']],
         [[off, item(b)] for off, b in d['layers']], D.boxes, pic, x['f'],
         x['l'], asym)


# ---- circuits ------------------------------------------------------------

def wires(t):
    return [{'q': 'qubit', 'b': 'bit'}[c] for c in t]


def controls(b):
    """Control wires, target wires and the gate of a controlled gate."""
    if b['k'] != 'ctrl':
        return [], list(range(len(qc.box_io(b)[0]))), b
    cs, ts, u = controls(b['of'])
    d, n = b['d'], len(qc.box_io(b['of'])[0])
    sh = max(d, 0)
    return ([0 if d > 0 else n - d - 1] + [c + sh for c in cs],
            [t + sh for t in ts], u)


def q_item(b):
    dom, cod = qc.box_io(b)
    out = {'dom': wires(dom), 'cod': wires(cod), 'spec': b, 'k': 'box'}
    if b['k'] == 'swap':
        out.update(k='link', dot=False)
    elif b['k'] == 'discard':
        out['k'] = 'discard'
    elif b['k'] == 'measure':
        out['named'] = False
    elif b['k'] in ('ket', 'bra', 'bit'):
        out['corners'] = 3
    elif b['k'] == 'ctrl':
        cs, ts, u = controls(b)
        gate = qc.mk_box(b)
        while isinstance(gate, Q.Controlled):
            gate = gate.controlled
        isx = u['k'] == 'gate' and u['g'] == 'X'

        def look(R, pic, ins, shapes, level, through, asym):
            t = ins[0][1]
            y = t - .25
            expect(all(near(q[1], t) for q in ins), 'inputs of a gate')
            xs = [q[0] for q in ins]
            l, r = min(xs) - .5, max(xs) + .5
            mine = [e for e in level if near(e[0][1], y)
                    and l < e[0][0] < r and l < e[1][0] < r]
            vert = [e for e in through if near(e[1][1], t)
                    and any(near(e[0][0], v) for v in xs)]
            outs = [next((p for p in R.out if near(p[0], v)
                          and near(p[1], y - .25)), None) for v in xs]
            expect(None not in outs, lambda: f'outputs of {b}: {outs}')
            here = [(o, a) for o, a, h in pic.nodes
                    if near(h, y) and l < a < r]

            def marks(o):
                got = sorted(a for p, a in here if p == o)
                return [v for v in range(len(xs))
                        if any(near(xs[v], a) for a in got)], len(got)
            expect(marks('circle, black') == (sorted(cs), len(cs)),
                   lambda: f'controls of {b} at {here}, wires at {xs}')
            open_ = sorted({v for v in range(len(xs)) if any(
                near(e[0][0], xs[v]) for e in vert)})
            if isx:
                expect(marks('circle, white') == marks('plus') == (ts, 1),
                       lambda: f'target of {b} at {here}, wires at {xs}')
                lo = hi = xs[ts[0]]
                expect(open_ == list(range(len(xs))),
                       lambda: f'wires {open_} go through {b}')
            else:
                s = shapes.pop(0)
                lo, hi = s.l, s.r
                name(R, s, gate.name)
                expect(near((s.t + s.b) / 2, y) and [
                    v for v in range(len(xs)) if lo < xs[v] < hi] == ts,
                    lambda: f'target of {b} at {s.pts}, wires at {xs}')
                expect([v for v in range(len(xs)) if v not in ts] == open_,
                       lambda: f'wires {open_} go through {b}')
                expect(len(here) == len(cs), lambda: f'nodes {here} on {b}')
                sheer(gate, s, asym)
            # controls are joined to the target by level lines
            joined = [(lo, hi)]
            rest = [tuple(sorted((e[0][0], e[1][0]))) for e in mine]
            expect(len(rest) == len(cs), lambda: f'{b} has lines {rest}')
            for _ in cs:
                for e in rest:
                    if any(e[0] < q + EPS + .26 * bool(asym)
                           and p < e[1] + EPS + .26 * bool(asym)
                           for p, q in joined):
                        joined.append(e)
                        rest.remove(e)
                        break
            expect(not rest and all(
                any(p - EPS < xs[c] < q + EPS for p, q in joined)
                for c in cs), lambda: f'controls of {b} at {xs} are not '
                f'joined to the target: {mine}')
            expect(all(e[0] < lo + EPS + .26 and e[1] < lo + EPS + .26
                       or e[0] > hi - EPS - .26 and e[1] > hi - EPS - .26
                       for e in joined[1:]) or isx,
                   lambda: f'a line crosses the target of {b}: {mine}')
            area = Shape([(min(xs + [lo + .25 * (not isx)]), y - .25),
                          (max(xs + [hi - .25 * (not isx)]), t)])
            return area, outs, mine + vert
        out.update(k='ctrl', read=look, polys=not isx)
    return out


@check(P, 'circuit', lambda: st.fixed_dictionaries({
    'd': st.one_of(
        qc.circuits(kinds=qc.MIXED, maxw=5, maxdom=4, rot=False,
                    wires='qqb', ctrl_depth=3),
        st.integers(2, 6).flatmap(lambda n: qc.circuits(
            kinds=('ctrl', 'ctrl', 'ctrl', 'gate', 'swap', 'measure', 'ket',
                   'u'), maxw=6, dom='q' * n, minl=1, maxl=4, rot=False,
            ctrl_depth=4))), 'f': st.booleans()}),
    quick=900, shards=2, rule='a controlled gate')
def circuit(x, ctx):
    d = x['d']
    if not d['dom'] and not d['layers']:
        return
    D = qc.mk_diag(d)
    ctx.nontrivial(any(b['k'] == 'ctrl' for _, b in d['layers']))
    for _, b in d['layers']:
        if b['k'] == 'ctrl' and b['of']['k'] == 'ctrl':
            ctx.label('several controls')
    asym = .25 * any(isinstance(b, G.Daggered) or b.z for b in D.boxes)
    pic = tikz(D, foliated=x['f'])
    read(wires(d['dom']), [[off, q_item(b)] for off, b in d['layers']],
         D.boxes, pic, x['f'], True, asym)


# ---- pregroup diagrams ---------------------------------------------------

@check(P, 'pregroup', lambda: st.fixed_dictionaries({
    'd': c08.diagram(), 'm': st.booleans()}), quick=700, shards=1,
    rule='>= 2 words and >= 2 cups or swaps')
def pregroup(x, ctx):
    d = x['d']
    if not any(t for _, t in d['w']):
        return
    D = c08.build(d)
    ctx.nontrivial(len(d['w']) > 1 and len(d['m']) > 1)
    expect(D.is_pregroup, 'a pregroup diagram')
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        if x['m']:
            D.draw(to_tikz=True)
        else:
            draw_pregroup(D, to_tikz=True)
    items, cur = [], []
    for w, t in d['w']:
        cod = [str(gr.mk_ty([a])) for a in t]
        items.append([len(cur), {'k': 'box', 'dom': [], 'cod': cod,
                                 'corners': 5}])
        cur += cod
    for k, i in d['m']:
        pair = cur[i:i + 2]
        cur[i:i + 2] = [] if k == 'cup' else pair[::-1]
        items.append([i, {'k': 'link', 'dom': pair, 'cod': [] if k == 'cup'
                          else pair[::-1], 'dot': False}])
    read([], items, D.boxes, Pic(buf.getvalue()), asym=0)


# ---- backends ------------------------------------------------------------

class Recorder(DrawingBackend):
    """Records what is drawn, and what the links are drawn like."""

    def __init__(self):
        self.max_width = 0
        self.polys, self.lines, self.texts, self.nodes = [], [], [], []
        self.done = []

    def wide(self, *xs):
        self.max_width = max(self.max_width, *xs)

    def draw_text(self, text, x, y, **kw):
        self.texts.append((text, x, y))
        self.wide(x)

    def draw_node(self, x, y, **kw):
        self.nodes.append((x, y))
        self.wide(x)

    def draw_polygon(self, *points, color='white'):
        self.polys.append([tuple(p) for p in points])

    def draw_wire(self, source, target, bend_out=False, bend_in=False,
                  is_leg=False, style=None, color_id=0, **kw):
        self.lines.append((tuple(source), tuple(target)))
        self.wide(source[0], target[0])

    def draw_spiders(self, drawable, **kw):
        self.done.append('spiders')

    def output(self, path=None, show=True, **kw):
        self.done.append('output')


def key(e):
    """Numbers rounded, and text, in a flat list."""
    out = []
    for v in e if isinstance(e, (tuple, list)) else [e]:
        out += key(v) if isinstance(v, (tuple, list)) else [
            v if isinstance(v, str) else round(float(v), 3) + 0.]
    return out


def close(a, b):
    """Equal up to rounding and order."""
    return sorted(map(key, a), key=str) == sorted(map(key, b), key=str)


def mat(D, **kw):
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    draw(D, backend=MatBackend(axis=ax), show=False, **kw)
    pic = Pic('')
    for p in ax.patches:
        v = [tuple(map(float, q)) for q in p.get_path().vertices]
        if type(p).__name__ == 'FancyArrow':
            continue
        if p.get_fill() and p.get_facecolor()[3]:
            pic.polys.append(v[:-1])
        else:
            pic.lines.append((v[0], v[-1], None))
    pic.texts = [(t.get_text(), *t.get_position()) for t in ax.texts]
    for c in ax.collections:
        pic.nodes += [('', *map(float, q)) for q in c.get_offsets()]
    plt.close(fig)
    return pic


@check(P, 'backends', lambda: st.fixed_dictionaries({
    'd': st.one_of(gr.diagrams(maxl=6, kinds=gr.ALL + ('frame',)),
                   qc.circuits(kinds=qc.MIXED, maxw=4, rot=False,
                               wires='qqb')), 'f': st.booleans()}),
    quick=250, shards=3, rule='>= 4 boxes')
def backends(x, ctx):
    d = x['d']
    if not d['dom'] and not d['layers']:
        return
    circ = isinstance(d['dom'], str)
    D = (qc if circ else gr).mk_diag(d)
    ctx.nontrivial(len(d['layers']) > 3)
    ctx.label('circuit' if circ else 'frames' if D.has_frames else 'grammar')
    t, m, r = tikz(D, foliated=x['f']), mat(D, foliated=x['f']), Recorder()
    draw(D, backend=r, foliated=x['f'])
    expect(r.done == ['spiders', 'output'], lambda: f'calls {r.done}')
    arrows = [e for e in r.lines if near(e[1][0] - e[0][0], .05)
              and near(e[1][1] - e[0][1], .25)]
    expect(close(t.polys, r.polys) and close(m.polys, r.polys),
           lambda: f'polygons: tikz {t.polys}, matplotlib {m.polys}, '
           f'drawn {r.polys}')
    expect(close(t.texts, r.texts) and close(m.texts, r.texts),
           lambda: f'texts: tikz {t.texts}, matplotlib {m.texts}, '
           f'drawn {r.texts}')
    tl, ml = [e[:2] for e in t.lines], [e[:2] for e in m.lines]
    expect(close(tl, ml + arrows), lambda: f'lines: tikz {tl}, '
           f'matplotlib {ml}, {arrows}')
    tn, mn = [e[1:] for e in t.nodes], [e[1:] for e in m.nodes]
    expect(close(tn, mn), lambda: f'nodes: tikz {tn}, matplotlib {mn}')
    left = [key(e) for e in tl]
    for e in r.lines:
        expect(key(e) in left, lambda: f'line {e} is missing')
        left.remove(key(e))


# ---- frames --------------------------------------------------------------

def rect(D, n):
    l, r = n.get_x_lims(D)
    h = n.h or .5
    return Shape([(l, n.y - h / 2), (r, n.y + h / 2)])


class Frames:
    """Checks a drawable that has frames, by its indices."""

    def __init__(self, D):
        self.D, self.at = D, 0
        self.to, self.back = {}, {}
        for a, b in D.wires:
            expect(a not in self.to and b not in self.back,
                   lambda: f'two wires at {a, b}')
            self.to[a], self.back[b] = b, a
        self.io = {}
        for i, e in enumerate(D.wire_endpoints):
            self.io.setdefault(e.kind.name, []).append(i)
        owned = [i for n in D.boxes for i in n.dom_wires + n.cod_wires]
        expect(sorted(owned) == sorted(self.io.get('DOM', [])
                                       + self.io.get('COD', [])),
               'each end of a wire belongs to one box')

    def typed(self, ends, t):
        got = [gr.p_ty(self.D.wire_endpoints[i].obj) for i in ends]
        expect(got == [[a] for a in t], lambda: f'types {got}, expected {t}')

    def diagram(self, d, within):
        """The boxes of a diagram, and the areas they take."""
        D, areas = self.D, []
        scan = [None] * len(d['dom'])
        need = []
        for off, b in d['layers']:
            expect(self.at < len(D.boxes), lambda: f'{b} is not drawn')
            n = D.boxes[self.at]
            self.at += 1
            expect(n.obj == gr.mk_box(b), lambda: f'{n.obj} is not {b}')
            dom, cod = gr.box_dom(b), gr.box_cod(b)
            self.typed(n.dom_wires, dom)
            self.typed(n.cod_wires, cod)
            for k, w in enumerate(n.dom_wires):
                src = self.back.get(w)
                want = scan[off + k]
                if want is None:
                    expect(src is not None and D.wire_endpoints[
                        src].kind.name == 'INPUT', lambda: f'{b} is not '
                        'joined to the input')
                    need.append(src)
                else:
                    expect(src == want, lambda: f'input {k} of {b} comes '
                           f'from {src}, expected {want}')
            r = rect(D, n)
            areas.append(r)
            if within is not None:
                expect(within.holds(r), lambda: f'{b} leaves its frame')
            if b['k'] == 'frame':
                self.inside(b, n, r)
            scan = scan[:off] + list(n.cod_wires) + scan[off + len(dom):]
        outs = []
        for i, s in enumerate(scan):
            if s is not None:
                t = self.to.get(s)
                expect(t is not None and D.wire_endpoints[t].kind.name
                       == 'OUTPUT', lambda: f'wire {i} has no end')
                outs.append(t)
        xs = [D.wire_endpoints[t].x for t in outs]
        self.typed(outs, [a for a, s in zip(gr.diag_cod(d), scan)
                          if s is not None])
        if within is not None:
            expect(all(within.l < x < within.r for x in xs),
                   'an output leaves the component')
        for ends in (outs, need):
            ys = {round(D.wire_endpoints[t].y, 6) for t in ends}
            expect(len(ys) < 2, lambda: f'ends at heights {ys}')
        return areas

    def inside(self, b, n, r):
        D, parts = self.D, []
        for c in b['comps']:
            expect(self.at < len(D.boxes), 'a component is not drawn')
            w = D.boxes[self.at]
            self.at += 1
            expect(not hasattr(w.obj, 'name'), lambda: f'component {w.obj}')
            a = rect(D, w)
            expect(r.holds(a), lambda: f'a component of {b} leaves it')
            for o in parts:
                expect(not a.meets(o) and o.r < a.l + EPS,
                       lambda: f'components of {b} overlap')
            parts.append(a)
            c = c if 'layers' in c else {
                'dom': gr.box_dom(c), 'layers': [[0, c]]}
            self.diagram(c, a)


def upright(x):
    """The same with no rotated or daggered frame."""
    if isinstance(x, list):
        return [upright(q) for q in x]
    if not isinstance(x, dict):
        return x
    x = {k: upright(v) for k, v in x.items()}
    return dict(x, z=0, dag=False) if x.get('k') == 'frame' else x


@check(P, 'frames', lambda: st.fixed_dictionaries({
    'd': gr.diagrams(maxl=5, minl=1, depth=2,
                     kinds=('frame', 'frame', 'box', 'word', 'spider',
                            'swap', 'cup', 'cap')).map(upright),
    'f': st.booleans()}),
    quick=600, shards=2, rule='a frame within a frame')
def frames(x, ctx):
    d = x['d']
    D = gr.mk_diag(d)
    if not D.has_frames:
        return
    from lambeq.backend.drawing.drawable import DrawableDiagramWithFrames
    ctx.nontrivial(any(q['k'] == 'frame' for _, b in d['layers']
                       for c in b.get('comps', ())
                       for q in ([q for _, q in c['layers']]
                                 if 'layers' in c else [c])))
    W = DrawableDiagramWithFrames.from_diagram(D, x['f'])
    F = Frames(W)
    F.diagram(d, None)
    expect(F.at == len(W.boxes), 'further boxes')
    r = Recorder()
    draw(D, backend=r, foliated=x['f'])
    names = sorted(n.obj.name for n in W.boxes
                   if hasattr(n.obj, 'name') and type(n.obj) not in (
                       G.Cup, G.Cap, G.Swap, G.Spider))
    got = sorted(t for t, _, _ in r.texts)
    expect(got == names, lambda: f'labels {got}, expected {names}')
    links = [n for n in W.boxes if type(n.obj) in (G.Cup, G.Cap, G.Swap,
                                                   G.Spider)]
    expect(len(r.polys) == len(W.boxes) - len(links),
           lambda: f'{len(r.polys)} polygons')
    want = [(W.wire_endpoints[a].coordinates, W.wire_endpoints[b].coordinates)
            for a, b in W.wires]
    expect(len(r.lines) == len(want), lambda: f'{len(r.lines)} wires')


# ---- colours of nouns ----------------------------------------------------

@check(P, 'colours', lambda: st.fixed_dictionaries({
    'd': gr.diagrams(maxl=9, minl=2, depth=0, names='n', zs=(0,), maxw=6,
                     kinds=('word', 'word', 'frame', 'box', 'spider',
                            'swap', 'swap'), bz=(0,)),
    'f': st.booleans()}), quick=500, shards=1,
    rule='>= 3 nouns and a swap or spider')
def colours(x, ctx):
    from lambeq.backend.drawing.drawable import DrawableDiagramWithFrames
    d = x['d']
    D = gr.mk_diag(d)
    if not D.has_frames:
        return
    W = DrawableDiagramWithFrames.from_diagram(D, x['f'])
    tops = [n for n in W.boxes if n.parent is None]
    expect(len(tops) == len(d['layers']), 'boxes of the diagram')
    ends = W.wire_endpoints
    ids = {}
    ins = [i for i, e in enumerate(ends) if e.kind.name == 'INPUT'
           and e.parent is None]
    nouns = [('in', i) for i in range(len(ins))]
    seen = list(zip(nouns, ins))
    fresh = 0
    for n, (off, b) in zip(tops, d['layers']):
        k = len(gr.box_dom(b))
        m = len(gr.box_cod(b))
        mine = nouns[off:off + k]
        seen += list(zip(mine, n.dom_wires))
        if b['k'] == 'swap':
            new = mine[::-1]
        elif b['k'] == 'spider' and k:
            new = mine[:1] * m
        elif k == m:
            new = mine
        else:
            fresh += 1
            # what becomes of nouns when their number changes is not said
            new = [None if k else (fresh, 0 if b['k'] == 'spider' else j)
                   for j in range(m)]
        seen += list(zip(new, n.cod_wires))
        nouns = nouns[:off] + new + nouns[off + k:]
    ctx.nontrivial(len({n for n, _ in seen}) > 2 and any(
        b['k'] in ('swap', 'spider') for _, b in d['layers']))
    for noun, i in seen:
        if noun is not None:
            ids.setdefault(noun, set()).add(ends[i].noun_id)
    expect(all(len(v) == 1 for v in ids.values()),
           lambda: f'colours of nouns: {ids}')
    vals = [min(v) for v in ids.values()]
    expect(len(set(vals)) == len(vals) and all(vals),
           lambda: f'nouns share a colour: {ids}')
    for a, b in W.wires:
        if ends[a].parent is None:
            expect(ends[a].noun_id == ends[b].noun_id,
                   lambda: f'a wire changes from colour {ends[a].noun_id} '
                   f'to {ends[b].noun_id}')


# ---- equations -----------------------------------------------------------

@check(P, 'equation', lambda: st.fixed_dictionaries({
    'd': st.lists(gr.diagrams(maxl=4, bz=(0, 0, 1, -1)), min_size=1,
                  max_size=4),
    's': st.sampled_from(['=', '->', '+']),
    'sp': st.sampled_from([1, 1, 2, 1.5])}), quick=300, shards=1,
    rule='>= 3 terms')
def equation(x, ctx):
    ds = [d for d in x['d'] if d['dom'] or d['layers']]
    terms = [gr.mk_diag(d) for d in ds]
    if not terms:
        return
    ctx.nontrivial(len(terms) > 2)
    r = Recorder()
    asym = .25 * any(isinstance(b, G.Daggered) or b.z
                     for D in terms for b in D.boxes)
    spans, at, at2 = [], 0, 0
    draw_equation(*terms, symbol=x['s'], space=x['sp'], backend=r,
                  draw_as_pregroup=False)
    expect(r.done.count('output') == len(terms) + 1, lambda: f'{r.done}')
    for i, D in enumerate(terms):
        one = Recorder()
        draw(D, backend=one, asymmetry=asym, show=False)
        m = len(one.lines)
        mine = r.lines[at:at + m]
        at += m
        figs = r.polys[at2:at2 + len(one.polys)]
        at2 += len(one.polys)
        if figs and len(figs) == len(one.polys):
            # where the term is, may be seen from any of its boxes
            x0 = figs[0][0][0] - one.polys[0][0][0]
            expect(key(figs) == key([[(a + x0, b) for a, b in g]
                                     for g in one.polys]),
                   lambda: f'boxes of term {i} are {figs}, alone {one.polys}')
        ys = [0]
        if mine:
            ys = [mine[0][0][0] - one.lines[0][0][0]]
            moved = [((a + ys[0], b), (c + ys[0], f))
                     for (a, b), (c, f) in one.lines]
            expect([key(e) for e in moved] == [key(e) for e in mine],
                   lambda: f'term {i} is drawn as {mine}, alone {one.lines}')
            spans.append((min(q[0] for e in mine for q in e),
                          max(q[0] for e in mine for q in e)))
    expect(at == len(r.lines), 'further lines')
    expect(at2 == len(r.polys), lambda: f'{len(r.polys)} boxes, not {at2}')
    for (a, b), (c, f) in zip(spans, spans[1:]):
        expect(b < c, lambda: f'terms from {a} to {b} and from {c} to {f}')
    signs = sorted(t[1] for t in r.texts if t[0] == x['s'] and t[2] == 0)
    expect(len(signs) >= len(terms) - 1, lambda: f'symbols at {signs}')
    if len(spans) == len(terms):
        for (a, b), (c, f) in zip(spans, spans[1:]):
            expect(any(b < t < c for t in signs),
                   lambda: f'no symbol between {b} and {c}')


# ---- animations ----------------------------------------------------------

def shot(image):
    return np.asarray(image.convert('RGB'), dtype=float)


@check(P, 'gif', lambda: st.fixed_dictionaries({
    'd': st.lists(gr.diagrams(maxl=3, minl=1, maxw=4), min_size=1,
                  max_size=3),
    'again': st.sampled_from([None, None, 0]),
    't': st.sampled_from([None, 20, 500, 1200]), 'loop': st.booleans(),
    'cut': st.booleans()}), quick=36, shards=3,
    rule='>= 2 diagrams which are drawn in pictures of one size')
def gif(x, ctx):
    Ds = [gr.mk_diag(d) for d in x['d']]
    if x['again'] is not None:      # a step that changes nothing
        Ds.append(Ds[0])
    kw = {'figsize': (2, 2)}
    t = {} if x['t'] is None else {'timestep': x['t']}
    with tempfile.TemporaryDirectory(prefix='lbverif-v01') as tmp:
        path = f'{tmp}/a.gif'
        out = to_gif(list(Ds), path, loop=x['loop'], **t, **kw)
        expect(f'"{path}"' in getattr(out, 'data', out),
               lambda: f'{out!r} does not show {path}')
        stills = []
        for i, D in enumerate(Ds):
            D.draw(path=f'{tmp}/{i}.png', **kw)
            with Image.open(f'{tmp}/{i}.png') as im:
                stills.append(shot(im))
        expect(sorted(os.listdir(tmp)) == sorted(
            ['a.gif'] + [f'{i}.png' for i in range(len(Ds))]), 'files')
        order = list(range(len(Ds)))
        if x['loop']:
            order += order[::-1]
        with Image.open(path) as im:
            expect(im.info.get('loop') == (0 if x['loop'] else None),
                   lambda: f"loop={x['loop']}: {im.info.get('loop')}")
            frames = []
            for k in range(im.n_frames):
                im.seek(k)
                frames.append((im.info['duration'], shot(im)))
    step = 500 if x['t'] is None else x['t']
    expect(sum(d for d, _ in frames) == step * len(order),
           lambda: f'{len(order)} steps of {step} ms take '
           f'{[d for d, _ in frames]}')
    at = 0
    for d, f in frames:         # equal pictures in a row are one frame
        want = stills[order[at // step]]
        if want.shape == f.shape:
            far = [np.abs(f - s).mean() for s in stills
                   if s.shape == f.shape]
            expect(np.abs(f - want).mean() < min(min(far) + 1e-6, 4),
                   lambda: f'the picture after '
                   f'{at} ms is not that of diagram {order[at // step]}')
        at += d
    ctx.nontrivial(len(x['d']) > 1 and len(
        {s.shape for s in stills}) == 1)
