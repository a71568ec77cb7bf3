"""C07  A layout stored and restored gives the same document as the one just parsed."""
import itertools
import json
import os
from ..env import Converter, quiet
from ..explore import Family, res, digest
from ..docs import build, sections, first_diff, clean
from .. import borrow
from ..gallery import gallery, KINDS, mix, PARTS

LEVEL = 'model_checking'


def unboxed(x):
    """a stored layout without the boxes of its elements, which are recomputed from what they contain"""
    if isinstance(x, dict):
        return {k: unboxed(v) for k, v in x.items() if k != 'bbox'}
    return [unboxed(v) for v in x] if isinstance(x, list) else x


def round_trip(pages, how, sel, tmp, boxes=True):
    """-> (violations, outcome)"""
    pdf = os.path.join(tmp, 'x.pdf')
    f = lambda n: os.path.join(tmp, n)
    build(pages, pdf)
    viols = []
    with quiet():
        a = Converter(pdf)
        a.parse(sel)
        a.make_docx(f('a.docx'))
        stored = a.store()
        text = json.dumps(stored)
        ta = [a[i].extract_tables() for i in sel]
        b = Converter(pdf)
        if how == 'file':
            a.serialize(f('a.json'))
            b.deserialize(f('a.json'))
        elif how == 'dict':
            b.restore(json.loads(text))
        elif how == 'live':      # the dict itself, not a copy that went through JSON
            b.restore(stored)
        elif how == 'same':      # into the converter it comes from
            a.restore(json.loads(text))
            b.close()
            b = a
        elif how == 'twice':
            b.restore(json.loads(text))
            c = Converter(pdf)
            c.restore(json.loads(json.dumps(b.store())))
            b.close()
            b = c
        elif how == 'over':      # over what was parsed before
            b.parse()
            b.restore(json.loads(text))
        again = b.store()
        b.make_docx(f('b.docx'))
        tb = [b[i].extract_tables() for i in sel]
        b.close()
        if b is not a:
            a.close()
    x, y = sections(f('a.docx')), sections(f('b.docx'))
    if how == 'over':
        y = [y[i] for i in sorted(set(sel))] if len(y) == len(pages) else y
        again['pages'] = [p for p in again['pages'] if p['id'] in sel]
    d = first_diff(y, x, 'docx')
    if d:
        viols.append(f'document from the restored layout differs: {d}')
    f = clean if boxes else lambda x: unboxed(clean(x))
    d = first_diff(f(json.loads(json.dumps(again))), f(json.loads(text)), 'store', tol=0.2)
    if d:
        viols.append(f'storing the restored layout again gives something else: {d}')
    if ta != tb:
        viols.append(f'tables differ: {tb} != {ta}')
    if sorted(p['id'] for p in stored['pages']) != sorted(set(sel)) or stored['page_num'] != len(pages):
        viols.append(f'pages stored: {[p["id"] for p in stored["pages"]]} of {stored["page_num"]}, parsed {sel}')
    return viols, digest(x)


class RoundTrip(Family):
    name = 'kinds'
    batch = 8
    bounds = ('22 page kinds x 6 ways (dict, live dict, JSON file, same converter, over a parsed converter, twice); '
              'pairs of kinds with every selection of parsed pages')

    def scenarios(self, tier):
        for how in ('file', 'dict', 'live', 'same', 'twice', 'over'):
            for k in KINDS:
                yield {'pages': [k], 'how': how, 'sel': [0]}
        ks = KINDS
        for a, b in itertools.product(ks, repeat=2):
            for sel in ([0], [1], [0, 1]):
                yield {'pages': [a, b], 'how': 'file', 'sel': sel}

    def run(self, scn, tmp):
        v, o = round_trip([gallery(k) for k in scn['pages']], scn['how'], scn['sel'], tmp)
        return res(v, o)


class Mixes(Family):
    name = 'mixes'
    batch = 8

    def __init__(self):
        self.bounds = f'pages made of every subset of {len(PARTS)} parts, through a JSON file'

    def scenarios(self, tier):
        for m in range(1, 1 << len(PARTS)):
            yield m

    def run(self, scn, tmp):
        v, o = round_trip([mix(scn)], 'dict' if scn % 2 else 'file', [0], tmp)
        return res(v, o)


class Borrowed(Family):
    name = 'pages of other checks'
    batch = 8
    bounds = ('16 (thorough 120) pages of each of the 60 families of pages of C09 to C22, spread evenly, through a JSON file, a dict, '
              'twice, or over a parsed converter in turn (boxes of elements left out)')

    def scenarios(self, tier):
        for i, r in enumerate(borrow.refs(16 if tier == 'quick' else 120, 3)):
            yield [r, ('file', 'dict', 'twice', 'over')[i % 4]]

    def run(self, scn, tmp):
        v, o = round_trip([borrow.page(scn[0])], scn[1], [0], tmp, boxes=False)
        return res(v, o)


class Partly(Family):
    name = 'partly covered'
    batch = 8
    bounds = ('words of 1 to 3 letters, in one font or two, over which a highlight, two shaded cells, an underline or a link reaches '
              'up to (or from) every 0.7 pt of them, through a JSON file')

    def scenarios(self, tier):
        for k, word in enumerate(('a', 'ab', 'abc')):
            for kind in range(4):
                for d in range(-2, 9 * (k + 1)):
                    for side in (0, 1):
                        yield [word, kind, round(0.7 * d + 0.25, 2), side]

    def run(self, scn, tmp):
        word, kind, d, side = scn
        x = 145
        a, b = (x + d - 40, x + d) if side else (x + d, x + d + 40)
        m = [[['rect', a, 72, b, 87, {'fill': 0xffee00, 'color': None}]],
             [['rect', x + d - 60, 68, x + d, 98, {'fill': 0xffee00, 'color': None}], ['rect', x + d, 68, x + d + 60, 98, {'fill': 0x88ccee, 'color': None}]],
             [['line', a, 86, b, 86, {'width': 0.6}]],
             [['link', a, 72, b, 87, 'http://example.org/a']]][kind]
        v, o = round_trip([{'size': [300, 200], 'els': m + [['text', x, 84, word], ['text', 60, 140, 'words below']]}],
                          'file', [0], tmp, boxes=False)
        return res(v, o)


def families():
    return [RoundTrip(), Mixes(), Borrowed(), Partly()]
