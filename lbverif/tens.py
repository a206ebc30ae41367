"""Tensor category: specs, builders and a reference evaluator (numpy).

Diagram spec: {'dom': [int], 'layers': [[offset, box], ...]}
Box spec: {'k': 'box', 'n', 'dom', 'cod', 'z', 'dag', 'data': kind, ...}
          {'k': 'cup'|'cap', 'd'}  {'k': 'swap', 'l', 'r'}
          {'k': 'spider', 'd', 'i', 'o'}
dom/cod are those of the box as it stands in the diagram.
"""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import tensor as T
from lambeq.backend.symbol import Symbol
from lbverif.core import Skip
from lbverif.gram import delta, key_tensor


def dim(ds):
    return T.Dim(*ds)


def base_sig(b):
    """dom, cod of the unrotated, undaggered box of a 'box' spec."""
    dom, cod = b['dom'], b['cod']
    if b.get('dag'):
        dom, cod = cod, dom
    if b.get('z', 0) % 2:
        dom, cod = dom[::-1], cod[::-1]
    return dom, cod


def base_data(b, real=False):
    dom, cod = base_sig(b)
    t = key_tensor([b['n'], dom, cod], tuple(dom + cod))
    return np.ascontiguousarray(t.real) if real else t


def mk_box(b, real=False, data=None):
    k = b['k']
    if k == 'box':
        dom, cod = base_sig(b)
        d = base_data(b, real) if data is None else data(b)
        if b.get('flat') and isinstance(d, np.ndarray):
            d = d.reshape(-1)
        x = T.Box(b['n'], dim(dom), dim(cod), d)
        if b.get('z'):
            x = x.rotate(b['z'])
        return x.dagger() if b.get('dag') else x
    if k == 'cup':
        return T.Cup(dim([b['d']]), dim([b['d']]))
    if k == 'cap':
        return T.Cap(dim([b['d']]), dim([b['d']]))
    if k == 'swap':
        return T.Swap(dim([b['l']]), dim([b['r']]))
    return T.Spider(dim([b['d']]), b['i'], b['o'])


def box_dom(b):
    k = b['k']
    return {'box': lambda: b['dom'], 'cup': lambda: [b['d']] * 2,
            'cap': lambda: [], 'swap': lambda: [b['l'], b['r']],
            'spider': lambda: [b['d']] * b['i']}[k]()


def box_cod(b):
    k = b['k']
    return {'box': lambda: b['cod'], 'cap': lambda: [b['d']] * 2,
            'cup': lambda: [], 'swap': lambda: [b['r'], b['l']],
            'spider': lambda: [b['d']] * b['o']}[k]()


def mk_diag(d, real=False, data=None):
    wires = list(d['dom'])
    layers = []
    for off, b in d['layers']:
        n = len(box_dom(b))
        assert wires[off:off + n] == box_dom(b)
        layers.append(T.Layer(left=dim(wires[:off]),
                              box=mk_box(b, real, data),
                              right=dim(wires[off + n:])))
        wires[off:off + n] = box_cod(b)
    return T.Diagram(dim(d['dom']), dim(wires), layers)


def diag_cod(d):
    wires = list(d['dom'])
    for off, b in d['layers']:
        wires[off:off + len(box_dom(b))] = box_cod(b)
    return wires


def box_tensor(b, real=False, data=None):
    k = b['k']
    if k == 'box':
        dom, cod = base_sig(b)
        t = np.asarray(base_data(b, real) if data is None else data(b))
        t = t.reshape(dom + cod)
        nd, n = len(dom), len(dom) + len(cod)
        if b.get('z', 0) % 2:
            t = np.conj(t.transpose(list(range(nd))[::-1]
                                    + list(range(nd, n))[::-1]))
        if b.get('dag'):
            t = np.conj(t.transpose(list(range(nd, n)) + list(range(nd))))
        return t
    if k in ('cup', 'cap'):
        return np.eye(b['d'])
    if k == 'swap':
        return np.einsum('ad,bc->abcd', np.eye(b['l']), np.eye(b['r']))
    return delta(b['i'] + b['o'], b['d'])


def ref_eval(d, real=False, data=None, cap=2e6):
    """Tensor with axes dom + cod, by applying the layers one by one."""
    nd = len(d['dom'])
    t = np.array(1.0)
    for x in d['dom']:
        t = np.multiply.outer(t, np.eye(x))
    t = t.transpose([2 * i for i in range(nd)]
                    + [2 * i + 1 for i in range(nd)])
    for off, b in d['layers']:
        bt = box_tensor(b, real, data)
        k = len(box_dom(b))
        o = nd + off
        if t.size * bt.size > cap * 20 or t.size > cap:
            raise Skip
        t = np.tensordot(t, bt, axes=(list(range(o, o + k)),
                                      list(range(k))))
        nc = bt.ndim - k
        n = t.ndim
        t = t.transpose(list(range(o)) + list(range(n - nc, n))
                        + list(range(o, n - nc)))
    return t


@st.composite
def diagrams(draw, minl=0, maxl=6, maxw=5, maxdom=3, ds=(2, 2, 3, 4),
             kinds=('box', 'box', 'cup', 'cup', 'cap', 'swap', 'spider'),
             zs=(0, 0, 0, 1, 1, -1, 2), names=('f', 'g', 'h'), dom=None):
    wires = list(dom) if dom is not None else \
        draw(st.lists(st.sampled_from(ds), max_size=maxdom))
    d = {'dom': list(wires), 'layers': []}
    for _ in range(draw(st.integers(minl, maxl))):
        cups = [i for i in range(len(wires) - 1)
                if wires[i] == wires[i + 1]]
        ks = [k for k in kinds if (k != 'cup' or cups)
              and (k != 'swap' or len(wires) > 1)
              and (k != 'cap' or len(wires) < maxw)]
        if not ks:
            break
        k = draw(st.sampled_from(ks))
        if k == 'cup':
            off = draw(st.sampled_from(cups))
            b = {'k': 'cup', 'd': wires[off]}
        elif k == 'cap':
            off = draw(st.integers(0, len(wires)))
            b = {'k': 'cap', 'd': draw(st.sampled_from(ds))}
        elif k == 'swap':
            off = draw(st.integers(0, len(wires) - 2))
            b = {'k': 'swap', 'l': wires[off], 'r': wires[off + 1]}
        elif k == 'spider':
            off = draw(st.integers(0, len(wires)))
            run = 0
            while off + run < len(wires) and wires[off + run] == wires[off]:
                run += 1
            i = draw(st.integers(0, min(run, 3)))
            o = draw(st.integers(0 if i else 1,
                                 max(1, min(3, maxw - len(wires) + i))))
            b = {'k': 'spider', 'd': wires[off] if i
                 else draw(st.sampled_from(ds)), 'i': i, 'o': o}
        else:
            off = draw(st.integers(0, len(wires)))
            n = draw(st.integers(0, min(3, len(wires) - off)))
            cod = draw(st.lists(st.sampled_from(ds), max_size=max(
                0, min(3, maxw - len(wires) + n))))
            b = {'k': 'box', 'n': draw(st.sampled_from(names)),
                 'dom': wires[off:off + n], 'cod': cod,
                 'z': draw(st.sampled_from(zs)), 'dag': draw(st.booleans()),
                 'flat': draw(st.booleans())}
        d['layers'].append([off, b])
        wires[off:off + len(box_dom(b))] = box_cod(b)
    return d
