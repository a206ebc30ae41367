"""Grammar category: specs, builders, a plain-data view and a reference
semantics (every diagram denotes a tensor; wires are self-dual).

Atomic type:  [name, z]           type: list of atomic types
Diagram spec: {'dom': type, 'layers': [[offset, boxspec], ...]}
Box spec:     {'k': 'box', 'n': name, 'dom', 'cod', 'z', 'dag'}
              {'k': 'word', 'n', 'cod', 'z', 'dag'}
              {'k': 'cup'|'cap', 'l': atom, 'r': atom, 'rev': bool}
              {'k': 'swap', 'l', 'r'}   {'k': 'spider', 't', 'i', 'o'}
              {'k': 'frame', 'n', 'dom', 'cod', 'comps': [comp], 'z', 'dag'}
where dom and cod are those of the box as it stands in the diagram.
"""
from __future__ import annotations

import hashlib
import json

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif.core import Skip

DIMS = {'n': 2, 's': 3, 'p': 2, 'x': 2}


# ---------------------------------------------------------------- types

def atoms(names='nsp', zs=(0, 0, 0, 1, -1, 2, -2)):
    return st.tuples(st.sampled_from(list(names)),
                     st.sampled_from(list(zs))).map(list)


def types(lo=0, hi=3, **kw):
    return st.lists(atoms(**kw), min_size=lo, max_size=hi)


def mk_ty(spec, Ty=None):
    Ty = Ty or G.Ty
    ats = [Ty(n, z=z) for n, z in spec]
    if len(ats) == 0:
        return Ty()
    if len(ats) == 1:
        return ats[0]
    return Ty(objects=ats)


def p_ty(ty):
    """Plain view of a type."""
    if len(ty) == 0:
        return []
    if len(ty) == 1:
        ob = ty[0]
        return [[ob.name, ob.z]]
    return [[ob.name, ob.z] for ob in ty]


def rot_ty(t, z):
    t = [[n, w + z] for n, w in t]
    return t[::-1] if z % 2 else t


# ---------------------------------------------------------------- boxes

def mk_box(b):
    k = b['k']
    if k == 'box':
        z = b.get('z', 0)
        if b.get('dag'):
            inner = {'k': 'box', 'n': b['n'], 'dom': b['cod'],
                     'cod': b['dom'], 'z': z}
            return G.Daggered(mk_box(inner))
        return G.Box(b['n'], mk_ty(b['dom']), mk_ty(b['cod']), z)
    if k == 'word':
        w = G.Word(b['n'], mk_ty(b['cod']), b.get('z', 0))
        return G.Daggered(w) if b.get('dag') else w
    if k == 'cup':
        return G.Cup(mk_ty([b['l']]), mk_ty([b['r']]), b.get('rev', False))
    if k == 'cap':
        return G.Cap(mk_ty([b['l']]), mk_ty([b['r']]), b.get('rev', False))
    if k == 'swap':
        return G.Swap(mk_ty([b['l']]), mk_ty([b['r']]))
    if k == 'spider':
        return G.Spider(mk_ty([b['t']]), b['i'], b['o'])
    if k == 'frame':
        if b.get('dag'):
            f = dict(b, dag=False, dom=b['cod'], cod=b['dom'])
            return G.DaggeredFrame(mk_box(f))
        return G.Frame(b['n'], mk_ty(b['dom']), mk_ty(b['cod']),
                       z=b.get('z', 0),
                       components=[mk_comp(c) for c in b['comps']])
    raise KeyError(k)


def mk_comp(c):
    return mk_diag(c) if 'layers' in c else mk_box(c)


def box_dom(b):
    k = b['k']
    if k in ('box', 'frame'):
        return b['dom']
    if k == 'word':
        return b['cod'] if b.get('dag') else []
    if k == 'cup' or k == 'swap':
        return [b['l'], b['r']]
    if k == 'cap':
        return []
    return [b['t']] * b['i']


def box_cod(b):
    k = b['k']
    if k in ('box', 'frame'):
        return b['cod']
    if k == 'word':
        return [] if b.get('dag') else b['cod']
    if k == 'cup':
        return []
    if k == 'cap':
        return [b['l'], b['r']]
    if k == 'swap':
        return [b['r'], b['l']]
    return [b['t']] * b['o']


def mk_diag(d):
    """Build with the raw constructors, not with the operations."""
    wires = list(d['dom'])
    layers = []
    for off, b in d['layers']:
        dom, cod = box_dom(b), box_cod(b)
        assert [list(w) for w in wires[off:off + len(dom)]] \
            == [list(w) for w in dom], (wires, off, b)
        layers.append(G.Layer(left=mk_ty(wires[:off]), box=mk_box(b),
                              right=mk_ty(wires[off + len(dom):])))
        wires[off:off + len(dom)] = cod
    return G.Diagram(dom=mk_ty(d['dom']), cod=mk_ty(wires), layers=layers)


def diag_cod(d):
    wires = list(d['dom'])
    for off, b in d['layers']:
        wires[off:off + len(box_dom(b))] = box_cod(b)
    return wires


# ----------------------------------------------------------- strategies

ALL = ('box', 'word', 'cup', 'cap', 'swap', 'spider')
NAMES = ('f', 'g', 'h')


@st.composite
def box_at(draw, wires, kinds=ALL, names='nsp', zs=(0, 0, 0, 1, -1, 2, -2),
           maxw=5, bz=(0, 0, 0, 0, 1, -1, 2, 3, -2), dag=True, depth=1):
    """(offset, boxspec) that fits on the given wires."""
    cups = [i for i in range(len(wires) - 1)
            if wires[i][0] == wires[i + 1][0]
            and abs(wires[i][1] - wires[i + 1][1]) == 1]
    ks = [k for k in kinds if
          (k != 'cup' or cups) and (k != 'swap' or len(wires) > 1)
          and (k not in ('cap', 'word') or len(wires) < maxw)]
    if 'cup' in ks:
        ks = ks + ['cup'] * 2
    k = draw(st.sampled_from(ks))
    if k == 'cup':
        i = draw(st.sampled_from(cups))
        l, r = wires[i], wires[i + 1]
        # a plain cup takes (a, a.r); a reversed one (a, a.l)
        return [i, {'k': 'cup', 'l': l, 'r': r, 'rev': r[1] < l[1]}]
    if k == 'swap':
        i = draw(st.integers(0, len(wires) - 2))
        return [i, {'k': 'swap', 'l': wires[i], 'r': wires[i + 1]}]
    if k == 'cap':
        i = draw(st.integers(0, len(wires)))
        if wires and draw(st.booleans()):
            # make a snake possible: next to an existing wire
            if i < len(wires) and (i == 0 or draw(st.booleans())):
                a = wires[i]
                b = [a[0], a[1] + draw(st.sampled_from([1, -1]))]
                l, r = [a[0], a[1]], b
            else:
                a = wires[i - 1]
                b = [a[0], a[1] + draw(st.sampled_from([1, -1]))]
                l, r = b, [a[0], a[1]]
        else:
            l = draw(atoms(names, zs))
            r = [l[0], l[1] + draw(st.sampled_from([1, -1, -1]))]
        # a plain cap gives (a, a.l); a reversed one (a, a.r)
        return [i, {'k': 'cap', 'l': l, 'r': r, 'rev': r[1] > l[1]}]
    if k == 'spider':
        i = draw(st.integers(0, len(wires)))
        run = 0
        while i + run < len(wires) and wires[i + run] == wires[i]:
            run += 1
        nin = draw(st.integers(0, min(run, 3)))
        t = wires[i] if nin else draw(atoms(names, zs))
        nout = draw(st.integers(0 if nin else 1,
                                max(1, min(3, maxw - len(wires) + nin))))
        return [i, {'k': 'spider', 't': t, 'i': nin, 'o': nout}]
    if k == 'word':
        i = draw(st.integers(0, len(wires)))
        cod = draw(types(1, min(3, maxw - len(wires)), names=names, zs=zs))
        return [i, {'k': 'word', 'n': draw(st.sampled_from(['w', 'v'])),
                    'cod': cod, 'z': draw(st.sampled_from(bz)),
                    'dag': False}]
    i = draw(st.integers(0, len(wires)))
    nin = draw(st.integers(0, min(3, len(wires) - i)))
    room = max(0, min(3, maxw - len(wires) + nin))
    cod = draw(types(0, room, names=names, zs=zs))
    dom = wires[i:i + nin]
    b = {'k': k, 'n': draw(st.sampled_from(NAMES)), 'dom': dom, 'cod': cod,
         'z': draw(st.sampled_from(bz)),
         'dag': draw(st.booleans()) if dag else False}
    if k == 'frame':
        b['comps'] = draw(st.lists(
            st.one_of(diagrams(kinds=[q for q in kinds if q != 'frame'
                                      or depth > 0],
                               maxl=2, maxw=3, depth=depth - 1),
                      lone_box(depth=depth - 1)),
            min_size=1, max_size=2))
    return [i, b]


@st.composite
def lone_box(draw, kinds=('box', 'word', 'cap', 'spider', 'frame'), depth=0,
             dagword=True):
    ks = [k for k in kinds if k != 'frame' or depth > 0]
    wires = draw(types(0, 2))
    _, b = draw(box_at(wires, kinds=ks, depth=depth))
    if b['k'] == 'word' and dagword and draw(st.booleans()):
        b['dag'] = True
    return b


@st.composite
def diagrams(draw, kinds=ALL, minl=0, maxl=6, maxw=5, dom=None, maxdom=3,
             names='nsp', zs=(0, 0, 0, 1, -1, 2, -2), depth=1, dag=True,
             bz=(0, 0, 0, 0, 1, -1, 2, 3, -2)):
    wires = draw(types(0, maxdom, names=names, zs=zs)) if dom is None \
        else [list(w) for w in dom]
    d = {'dom': [list(w) for w in wires], 'layers': []}
    n = draw(st.integers(minl, maxl))
    for _ in range(n):
        if not wires and set(kinds) <= {'cup', 'swap'}:
            break
        off, b = draw(box_at(wires, kinds=kinds, names=names, zs=zs,
                             maxw=maxw, depth=depth, dag=dag, bz=bz))
        d['layers'].append([off, b])
        wires[off:off + len(box_dom(b))] = box_cod(b)
    return d


# ----------------------------------------------------------- plain view

def p_box(b):
    """Plain view of a box object, from its public attributes."""
    cls = type(b).__name__
    out = {'cls': cls, 'name': b.name, 'z': b.z, 'dom': p_ty(b.dom),
           'cod': p_ty(b.cod)}
    if cls == 'Daggered':
        out['box'] = p_box(b.box)
    if cls == 'DaggeredFrame':
        out['box'] = p_box(b.frame)
    if cls == 'Frame':
        out['comps'] = [p_any(c) for c in b.components]
    return out


def p_any(x):
    return p_diag(x) if isinstance(x, G.Diagram) else p_box(x)


def p_diag(d):
    return {'dom': p_ty(d.dom), 'cod': p_ty(d.cod),
            'layers': [[p_ty(l.left), p_box(l.box), p_ty(l.right)]
                       for l in d.layers]}


def wellformed(p):
    """None, or why the plain diagram does not type-check."""
    wires = p['dom']
    for i, (l, b, r) in enumerate(p['layers']):
        if l + b['dom'] + r != wires:
            return f'layer {i}: expects {l + b["dom"] + r}, gets {wires}'
        wires = l + b['cod'] + r
        c = b['cls']
        if c == 'Cup' and not (len(b['dom']) == 2 and not b['cod']
                               and b['dom'][0][0] == b['dom'][1][0]
                               and abs(b['dom'][0][1] - b['dom'][1][1]) == 1):
            return f'layer {i}: ill-typed cup {b}'
        if c == 'Cap' and not (len(b['cod']) == 2 and not b['dom']
                               and b['cod'][0][0] == b['cod'][1][0]
                               and abs(b['cod'][0][1] - b['cod'][1][1]) == 1):
            return f'layer {i}: ill-typed cap {b}'
        if c == 'Swap' and b['cod'] != b['dom'][::-1]:
            return f'layer {i}: ill-typed swap {b}'
    if wires != p['cod']:
        return f'codomain is {p["cod"]}, layers give {wires}'
    return None


# ------------------------------------------------------------ semantics
# A *valuation* maps an atom's name to a list of dimensions (one wire of
# the grammar may stand for several wires below); a rotation by an odd
# number of turns reverses that list.

def wires_of(t, val):
    out = []
    for n, z in t:
        ds = list(val(n))
        out += ds[::-1] if z % 2 else ds
    return out


def std_val(n):
    return [DIMS.get(n, 2)]


def delta(n, d):
    out = np.zeros((d,) * n)
    for i in range(d):
        out[(i,) * n] = 1
    return out


def key_tensor(key, shape):
    h = hashlib.sha256(json.dumps(key, sort_keys=True).encode()).digest()
    rng = np.random.Generator(np.random.PCG64(int.from_bytes(h[:8], 'big')))
    t = rng.normal(size=shape) + 1j * rng.normal(size=shape)
    n = max(1.0, float(np.linalg.norm(t)) / 1.5)
    return np.asarray(t / n)


def nested_pairs(ds):
    """Tensor with axes ds + reversed(ds), wired in nested pairs."""
    k = len(ds)
    t = np.array(1.0)
    for d in ds:
        t = np.multiply.outer(t, np.eye(d))
    # axes: a0 a0' a1 a1' ... -> a0 a1 .. ak-1 ak-1' .. a0'
    return t.transpose([2 * i for i in range(k)]
                       + [2 * i + 1 for i in reversed(range(k))])


def box_tensor(b, val=std_val, table=None):
    """Tensor with axes dom + cod of a plain box.  `table(box, shape)`
    gives the tensor of an unrotated, undaggered box."""
    c = b['cls']
    dd, dc = wires_of(b['dom'], val), wires_of(b['cod'], val)
    if c == 'Cup':
        return nested_pairs(wires_of(b['dom'][:1], val))
    if c == 'Cap':
        return nested_pairs(wires_of(b['cod'][:1], val))
    if c == 'Swap':
        a = wires_of(b['dom'][:1], val)
        e = wires_of(b['dom'][1:], val)
        t = np.array(1.0)
        for d in a + e:
            t = np.multiply.outer(t, np.eye(d))
        n, k = len(a + e), len(a)
        ins = [2 * i for i in range(n)]
        outs = [2 * i + 1 for i in range(n)]
        return t.transpose(ins + outs[k:] + outs[:k])
    if c == 'Spider':
        legs = b['dom'] + b['cod']
        if not legs:
            raise ValueError('spider without legs')
        ds = wires_of(legs[:1], val)
        n, k = len(legs), len(ds)
        t = np.array(1.0)
        for d in ds:
            t = np.multiply.outer(t, delta(n, d))
        # axes: component-major -> leg-major
        return t.transpose([ci * n + leg for leg in range(n)
                            for ci in range(k)])
    if c in ('Daggered', 'DaggeredFrame'):
        t = box_tensor(b['box'], val, table)
        k = len(wires_of(b['box']['dom'], val))
        perm = list(range(k, t.ndim)) + list(range(k))
        return np.conj(t.transpose(perm))
    z = b['z']
    base = dict(b, dom=rot_ty(b['dom'], -z), cod=rot_ty(b['cod'], -z), z=0)
    shape = tuple(wires_of(base['dom'], val) + wires_of(base['cod'], val))
    if table is not None:
        t = table(base, shape)
    else:
        t = key_tensor([c, base['name'], base['dom'], base['cod']], shape)
    nd, n = len(dd), len(dd) + len(dc)
    if z % 2:
        perm = list(range(nd))[::-1] + list(range(nd, n))[::-1]
        t = np.conj(t.transpose(perm))
    return t


def semantics(p, val=std_val, table=None):
    """Tensor (axes: dom then cod) denoted by a plain diagram."""
    dom = wires_of(p['dom'], val)
    nd = len(dom)
    t = np.array(1.0 + 0j)
    for d in dom:
        t = np.multiply.outer(t, np.eye(d))
    t = t.transpose([2 * i for i in range(nd)]
                    + [2 * i + 1 for i in range(nd)])
    for l, b, r in p['layers']:
        bt = box_tensor(b, val, table)
        k, o = len(wires_of(b['dom'], val)), nd + len(wires_of(l, val))
        if t.size * bt.size > 5e7:
            raise Skip('too big')
        t = np.tensordot(t, bt, axes=(list(range(o, o + k)),
                                      list(range(k))))
        nc = bt.ndim - k
        n = t.ndim
        t = t.transpose(list(range(o)) + list(range(n - nc, n))
                        + list(range(o, n - nc)))
    return t


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1.0, float(np.max(np.abs(a))), float(np.max(np.abs(b))))
    return bool(np.max(np.abs(a - b)) <= tol * scale)
