"""G02: JSON encodings of grammar entities are faithful."""
import json

from hypothesis import strategies as st

from lambeq.backend import grammar as G
from lbverif import gram as gr
from lbverif.core import check, expect, prop

P = 'G02'
prop(P, ['an entity is observed through its public attributes'])
KINDS = gr.ALL + ('frame',)

names = st.one_of(
    st.sampled_from(list('nsp') + ['', 'n.l', 'n @ s', 'Ty()', 'é†', '"', '\\']),
    st.text(max_size=4))


@st.composite
def entity_case(draw):
    what = draw(st.sampled_from(['ty', 'box', 'diag', 'diag', 'layer']))
    ren = draw(st.dictionaries(st.sampled_from(['n', 's', 'f', 'g', 'w']),
                               names, max_size=3))
    if what == 'ty':
        v = draw(gr.types(0, 5))
    elif what == 'box':
        v = draw(gr.lone_box(depth=2))
    else:
        v = draw(gr.diagrams(kinds=KINDS, minl=int(what == 'layer'),
                             maxl=5, depth=2))
        if draw(st.booleans()):
            v = dict(v, dagger=True)
    return {'what': what, 'v': v, 'ren': ren}


def rename(v, ren, seen):
    """Apply a renaming of atoms and boxes that keeps names distinct."""
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            if k == 'n' and isinstance(x, str):
                out[k] = ren.get(x, x)
            else:
                out[k] = rename(x, ren, seen)
        return out
    if isinstance(v, list):
        if len(v) == 2 and isinstance(v[0], str) and isinstance(v[1], int):
            return [ren.get(v[0], v[0]), v[1]]
        return [rename(x, ren, seen) for x in v]
    return v


@check(P, 'roundtrip', entity_case, quick=2400, shards=4,
       rule='a frame, a daggered box, a cup/cap/spider or >= 3 layers')
def roundtrip(s, ctx):
    if len(set(s['ren'].values())) < len(s['ren']):
        return
    ren = {k: v for k, v in s['ren'].items()}
    v = rename(s['v'], ren, None)
    what = s['what']
    if what == 'ty':
        obj, plain, cls = gr.mk_ty(v), gr.p_ty, G.Ty
    elif what == 'box':
        obj, plain = gr.mk_box(v), gr.p_box
        cls = type(obj)
    else:
        obj, plain, cls = gr.mk_diag(v), gr.p_diag, G.Diagram
        if v.get('dagger'):
            obj = obj.dagger()
        if what == 'layer':
            obj = obj.layers[0]
            cls = G.Layer

            def plain(x):
                return [gr.p_ty(x.left), gr.p_box(x.box), gr.p_ty(x.right)]
    text = json.dumps(s['v'])
    ctx.label(what)
    if what == 'box':
        ctx.label(type(obj).__name__)
    ctx.nontrivial('frame' in text or '"dag": true' in text
                   or '"cup"' in text or '"cap"' in text
                   or '"spider"' in text or len(s['v']) > 2
                   or (what == 'diag' and len(s['v']['layers']) >= 3))
    before = plain(obj)
    enc = obj.to_json()
    expect(isinstance(enc, dict) and enc.get('category') == 'grammar',
           lambda: f'no category in {enc}')
    try:
        txt = json.dumps(enc)
    except TypeError as e:
        expect(False, f'the encoding is not JSON: {e}')
    expect(json.loads(txt) == enc, 'the encoding does not survive JSON text')
    decs = [('json text', lambda: cls.from_json(txt)),
            ('dict', lambda: cls.from_json(json.loads(txt))),
            ('category, text', lambda: G.grammar.from_json(txt)),
            ('category, dict', lambda: G.grammar.from_json(json.loads(txt)))]
    for name, f in decs:
        got = f()
        expect(type(got) is type(obj),
               lambda: f'{name}: {type(obj)} decodes as {type(got)}')
        expect(plain(got) == before and got == obj
               and repr(got) == repr(obj),
               lambda: f'{name}: {obj!r} decodes as {got!r}')
        expect(got.to_json() == json.loads(txt),
               f'{name}: the decoded entity encodes differently')
    # one encoded document can be decoded again and again
    doc = json.loads(txt)
    cls.from_json(doc)
    expect(doc == json.loads(txt),
           'decoding changed the document that it was given')
    expect(plain(cls.from_json(doc)) == before, 'second decoding')
    expect(plain(obj) == before, 'encoding changed the entity')
