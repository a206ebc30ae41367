"""Quantum circuits: specs, builders and a reference simulator (numpy).

Circuit spec: {'dom': 'qqb', 'layers': [[offset, box], ...]}; wires are
'q' (qubit) or 'b' (bit).
Box spec: {'k': 'gate', 'g': name, 'p': phase?, 'dag'?, 'z'?}
          {'k': 'ctrl', 'of': box, 'd': distance, 'dag'?, 'z'?}
          {'k': 'u', 'n': name, 'i': n_in, 'o': n_out, 'dag'?, 'z'?}
          {'k': 'ket'|'bra'|'bit', 'v': 0|1}
          {'k': 'discard'|'mixed'|'measure'|'encode'}
          {'k': 'scalar'|'sqrt', 're': x, 'im': y}
          {'k': 'swap', 'l': 'q'|'b', 'r': 'q'|'b'}
Matrices below follow the textbook convention U[out, in].
"""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from lambeq.backend import quantum as Q
from lbverif.core import Skip
from lbverif.gram import key_tensor

R2 = 2 ** -0.5
FIXED = {
    'H': R2 * np.array([[1, 1], [1, -1]]),
    'X': np.array([[0, 1], [1, 0]]),
    'Y': np.array([[0, -1j], [1j, 0]]),
    'Z': np.diag([1, -1]),
    'S': np.diag([1, 1j]),
    'T': np.diag([1, np.exp(.25j * np.pi)]),
}
PAULI = {'Rx': FIXED['X'], 'Ry': FIXED['Y'], 'Rz': FIXED['Z']}


def rot_matrix(g, phase):
    a = np.pi * phase
    return np.cos(a) * np.eye(2) - 1j * np.sin(a) * PAULI[g]


def ty(w):
    t = Q.Ty()
    for c in w:
        t = t @ (Q.qubit if c == 'q' else Q.bit)
    return t


def box_io(b):
    k = b['k']
    if k == 'gate':
        return 'q', 'q'
    if k == 'ctrl':
        n = len(box_io(b['of'])[0]) + abs(b['d'])
        return 'q' * n, 'q' * n
    if k == 'u':
        io = 'q' * b['i'], 'q' * b['o']
        return io[::-1] if b.get('dag') else io
    if k == 'swap':
        return b['l'] + b['r'], b['r'] + b['l']
    return {'ket': ('', 'q'), 'bra': ('q', ''), 'bit': ('', 'b'),
            'discard': ('q', ''), 'mixed': ('', 'q'),
            'measure': ('q', 'b'), 'encode': ('b', 'q'),
            'scalar': ('', ''), 'sqrt': ('', '')}[k]


def matrix(b):
    """Matrix of a pure box on qubits, U[out, in]."""
    k = b['k']
    if k == 'gate':
        m = FIXED[b['g']] if b['g'] in FIXED else rot_matrix(b['g'], b['p'])
    elif k == 'ctrl':
        u = matrix(b['of'])
        m = np.kron(np.diag([1, 0]), np.eye(len(u))) \
            + np.kron(np.diag([0, 1]), u)
        # wires now: control, block.  Put them where they go.
        w, d = len(box_io(b['of'])[0]), b['d']
        n = w + abs(d)
        if d > 0:
            place = [0] + list(range(n - w, n))
        else:
            place = [n - 1] + list(range(w))
        rest = [i for i in range(n) if i not in place]
        t = np.kron(m, np.eye(2 ** len(rest))).reshape([2] * (2 * n))
        at = place + rest           # axis j of t is wire at[j]
        inv = [at.index(i) for i in range(n)]
        m = t.transpose(inv + [n + i for i in inv]).reshape(2 ** n, 2 ** n)
    elif k == 'u':
        i, o = b['i'], b['o']
        m = key_tensor([b['n'], i, o], (2 ** i, 2 ** o)).T
    else:
        raise KeyError(k)
    if b.get('z', 0) % 2:
        o, i = (int(np.log2(x)) for x in m.shape)
        t = np.conj(m.reshape([2] * (o + i)))
        m = t.transpose(list(range(o))[::-1]
                        + list(range(o, o + i))[::-1]).reshape(m.shape)
    if b.get('dag'):
        m = m.conj().T
    return m


def scalar_of(b):
    return b['re'] + 1j * b['im'] if b['im'] else b['re']


def mk_box(b, phase=None, memo=None):
    """`phase` maps the spec of a rotation to what to use as its phase.
    With a `memo`, equal specs share one box."""
    if memo is not None:
        key = repr(sorted(b.items()))
        if key not in memo:
            memo[key] = _mk_box(b, phase, memo)
        return memo[key]
    return _mk_box(b, phase, memo)


def _mk_box(b, phase, memo):
    k = b['k']
    if k == 'gate':
        if b['g'] in FIXED:
            x = getattr(Q, b['g'])
        else:
            x = getattr(Q, b['g'])(b['p'] if phase is None else phase(b))
    elif k == 'ctrl':
        x = Q.Controlled(mk_box(b['of'], phase, memo), b['d'])
    elif k == 'u':
        i, o = b['i'], b['o']
        x = Q.Box(b['n'], Q.qubit ** i, Q.qubit ** o,
                  key_tensor([b['n'], i, o], (2 ** i, 2 ** o)).reshape(
                      [2] * (i + o)))
    elif k == 'swap':
        return Q.Swap(ty(b['l']), ty(b['r']))
    elif k in ('ket', 'bra', 'bit'):
        return {'ket': Q.Ket, 'bra': Q.Bra, 'bit': Q.Bit}[k](b['v'])
    elif k == 'scalar':
        return Q.Scalar(scalar_of(b))
    elif k == 'sqrt':
        return Q.Sqrt(b['re'])
    else:
        return {'discard': Q.Discard, 'mixed': Q.MixedState,
                'measure': Q.Measure, 'encode': Q.Encode}[k]()
    if b.get('z'):
        x = x.rotate(b['z'])
    return x.dagger() if b.get('dag') else x


def mk_diag(d, phase=None, memo=None):
    wires = d['dom']
    layers = []
    for off, b in d['layers']:
        i, o = box_io(b)
        assert wires[off:off + len(i)] == i
        layers.append(Q.Layer(left=ty(wires[:off]), box=mk_box(b, phase, memo),
                              right=ty(wires[off + len(i):])))
        wires = wires[:off] + o + wires[off + len(i):]
    return Q.Diagram(ty(d['dom']), ty(wires), layers)


def diag_cod(d):
    w = d['dom']
    for off, b in d['layers']:
        i, o = box_io(b)
        w = w[:off] + o + w[off + len(i):]
    return w


def is_mixed(d):
    bound = d['dom'] + diag_cod(d)
    return 'q' in bound and 'b' in bound or any(
        b['k'] in ('discard', 'mixed', 'measure', 'encode')
        for _, b in d['layers'])


# ------------------------------------------------------------- reference

def pure_tensor(b):
    """Tensor with axes in + out."""
    k = b['k']
    if k in ('ket', 'bra', 'bit'):
        return np.eye(2)[b['v']]
    if k == 'scalar':
        return np.array(scalar_of(b))
    if k == 'sqrt':
        return np.array(b['re'] ** .5)
    if k == 'swap':
        return np.einsum('ad,bc->abcd', np.eye(2), np.eye(2))
    i, o = box_io(b)
    return matrix(b).T.reshape([2] * (len(i) + len(o)))


def pure_eval(d, cap=16):
    """Axes: dom + cod.  For circuits without measurement."""
    nd = len(d['dom'])
    t = np.eye(2 ** nd).reshape([2] * (2 * nd)).astype(complex)
    w = d['dom']
    for off, b in d['layers']:
        i, o = box_io(b)
        if t.ndim + len(o) > cap:
            raise Skip
        bt = pure_tensor(b)
        k = len(i)
        t = np.tensordot(t, bt, axes=(list(range(nd + off, nd + off + k)),
                                      list(range(k))))
        n, nc = t.ndim, len(o)
        t = t.transpose(list(range(nd + off)) + list(range(n - nc, n))
                        + list(range(nd + off, n - nc)))
        w = w[:off] + o + w[off + k:]
    return t


def mixed_eval(d, cap=18):
    """Axes: bits in, qubits in, qubits in (conjugate), the same out."""
    # a wire is a list of axes: [c] for a bit, [ket, bra] for a qubit.
    # Axes are named; the tensor is kept with a list of names.
    fresh = iter(range(10 ** 6))
    names, wires, ins = [], [], []
    t = np.array(1.0 + 0j)

    def new(arr, ax):
        nonlocal t
        if t.ndim + arr.ndim > cap + 8:
            raise Skip
        t = np.multiply.outer(t, arr)
        names.extend(ax)

    def join(a, b):
        nonlocal t
        i, j = names.index(a), names.index(b)
        t = np.trace(t, axis1=i, axis2=j)
        for x in (a, b):
            names.remove(x)
    for c in d['dom']:
        k = 1 if c == 'b' else 2
        a, b = ([next(fresh) for _ in range(k)] for _ in '12')
        for x, y in zip(a, b):
            new(np.eye(2), [x, y])
        ins.append(a)
        wires.append(b)
    for off, b in d['layers']:
        i, o = box_io(b)
        k = b['k']
        if k == 'swap':
            wires[off], wires[off + 1] = wires[off + 1], wires[off]
            continue
        old = wires[off:off + len(i)]
        outs = [[next(fresh) for _ in range(1 if c == 'b' else 2)]
                for c in o]
        if k == 'discard':
            join(*old[0])
        elif k == 'mixed':
            new(np.eye(2), outs[0])
        elif k in ('measure', 'encode'):
            u = [next(fresh) for _ in range(3)]
            t3 = np.zeros((2, 2, 2))
            t3[0, 0, 0] = t3[1, 1, 1] = 1
            new(t3, u)
            flat = [x for w in old + outs for x in w]
            done = [x for w in old for x in w]
            for x, y in zip(done, u):
                join(x, y)
            for x, y in zip(flat[len(done):], u[len(done):]):
                names[names.index(y)] = x
        elif k == 'bit':
            new(pure_tensor(b), [outs[0][0]])
        else:
            bt = pure_tensor(b)
            for side, arr in ((0, bt), (1, np.conj(bt))):
                u = [next(fresh) for _ in range(len(i))]
                new(arr, u + [w[side] for w in outs])
                for w, x in zip(old, u):
                    join(w[side], x)
        wires[off:off + len(i)] = outs
        if t.ndim > cap:
            raise Skip
    order = []
    for group in (ins, wires):
        order += [w[0] for w in group if len(w) == 1]
        order += [w[0] for w in group if len(w) == 2]
        order += [w[1] for w in group if len(w) == 2]
    return t.transpose([names.index(x) for x in order])


# ------------------------------------------------------------ strategies

PHASES = st.one_of(st.sampled_from([0.25, 0.5, 0.1, 1.0, -0.3, 0, 0.75,
                                    1.7]),
                   st.floats(-2, 2).map(lambda x: round(x, 3)))


@st.composite
def gate(draw, gates=('H', 'X', 'Y', 'Z', 'S', 'T', 'Rx', 'Ry', 'Rz'),
         rot=True, dag=True, phases=PHASES):
    g = draw(st.sampled_from(list(gates)))
    b = {'k': 'gate', 'g': g}
    if g not in FIXED:
        b['p'] = draw(phases)
    if rot:
        b['z'] = draw(st.sampled_from([0, 0, 0, 1, -1, 2]))
    if dag:
        b['dag'] = draw(st.sampled_from([False, False, True]))
    return b


@st.composite
def ctrl(draw, room, depth=2, rot=True, dag=True, base=None):
    """A controlled gate on at most `room` wires (room >= 2)."""
    b = draw(gate(rot=rot, dag=dag) if base is None else base)
    w = 1
    for _ in range(draw(st.integers(1, max(1, min(depth, room - 1))))):
        if w >= room:
            break
        d = draw(st.integers(1, min(3, room - w)))
        d *= draw(st.sampled_from([1, 1, -1]))
        b = {'k': 'ctrl', 'of': b, 'd': d}
        if rot:
            b['z'] = draw(st.sampled_from([0, 0, 0, 0, 1]))
        if dag:
            b['dag'] = draw(st.sampled_from([False, False, False, True]))
        w += abs(d)
    return b


PURE = ('gate', 'gate', 'ctrl', 'ctrl', 'ket', 'bra', 'swap', 'scalar',
        'sqrt', 'u')
MIXED = PURE + ('discard', 'mixed', 'measure', 'encode', 'bit', 'measure',
                'discard', 'swap', 'swap')


@st.composite
def circuits(draw, kinds=PURE, minl=0, maxl=8, maxw=4, dom=None, maxdom=3,
             wires='q', rot=True, dag=True, gates=None, ctrl_depth=2,
             bit_swaps=True, phases=PHASES):
    w = ''.join(draw(st.lists(st.sampled_from(wires), max_size=maxdom))) \
        if dom is None else dom
    d = {'dom': w, 'layers': []}
    gk = {'rot': rot, 'dag': dag, 'phases': phases}
    if gates:
        gk['gates'] = gates
    for _ in range(draw(st.integers(minl, maxl))):
        qs = [i for i, c in enumerate(w) if c == 'q']
        bs = [i for i, c in enumerate(w) if c == 'b']
        runs = [i for i in range(len(w) - 1) if w[i:i + 2] == 'qq']
        ks = [k for k in kinds if
              (k not in ('gate', 'bra', 'discard', 'measure') or qs)
              and (k != 'encode' or bs) and (k != 'ctrl' or runs)
              and (k != 'swap' or (len(w) > 1 if bit_swaps else runs))
              and (k not in ('ket', 'mixed', 'bit') or len(w) < maxw)]
        if not ks:
            break
        k = draw(st.sampled_from(ks))
        b = {'k': k}
        if k == 'gate':
            off = draw(st.sampled_from(qs))
            b = draw(gate(**gk))
        elif k == 'ctrl':
            off = draw(st.sampled_from(runs))
            room = 0
            while off + room < len(w) and w[off + room] == 'q':
                room += 1
            b = draw(ctrl(room, ctrl_depth, rot, dag, base=gate(**gk)))
        elif k in ('bra', 'discard', 'measure'):
            off = draw(st.sampled_from(qs))
        elif k == 'encode':
            off = draw(st.sampled_from(bs))
        elif k == 'swap':
            off = draw(st.integers(0, len(w) - 2) if bit_swaps
                       else st.sampled_from(runs))
            b.update(l=w[off], r=w[off + 1])
        elif k == 'u':
            off = draw(st.integers(0, len(w)))
            room = 0
            while off + room < len(w) and w[off + room] == 'q' and room < 2:
                room += 1
            i = draw(st.integers(0, room))
            o = draw(st.integers(0, max(0, min(2, maxw - len(w) + i))))
            b.update(n=draw(st.sampled_from('uv')), i=i, o=o,
                     z=draw(st.sampled_from([0, 0, 1, 2])) if rot else 0,
                     dag=draw(st.booleans()) if dag else False)
            if b['dag']:
                b.update(i=o, o=i)
        else:
            off = draw(st.integers(0, len(w)))
        if k in ('ket', 'bra', 'bit'):
            b['v'] = draw(st.integers(0, 1))
        if k == 'scalar':
            b.update(re=draw(st.sampled_from([0.5, -1.5, 2, 1])),
                     im=draw(st.sampled_from([0, 0, 0.5, -1])))
        if k == 'sqrt':
            b.update(re=draw(st.sampled_from([2, 0.5, 3, 4])), im=0)
        d['layers'].append([off, b])
        i, o = box_io(b)
        w = w[:off] + o + w[off + len(i):]
    return d


@st.composite
def started(draw, circs):
    """Half of the time, all inputs are kets in front of the circuit."""
    d = draw(circs)
    if set(d['dom']) != {'q'} or draw(st.booleans()):
        return d
    return {'dom': '', 'layers': [
        [i, {'k': 'ket', 'v': draw(st.integers(0, 1))}]
        for i in range(len(d['dom']))] + d['layers']}
