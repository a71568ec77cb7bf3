"""C06  What a page becomes depends on that page alone, not on its neighbours in the document."""
import itertools
import os
from ..explore import Family, res, digest
from ..docs import build, convert, sections, first_diff
from .. import borrow
from ..gallery import gallery, KINDS

LEVEL = 'model_checking'
_ALONE = {}


def alone(kind, tmp):
    if kind not in _ALONE:
        pdf, out = os.path.join(tmp, 'alone.pdf'), os.path.join(tmp, 'alone.docx')
        build([gallery(kind)], pdf)
        convert(pdf, out)
        _ALONE[kind] = sections(out)
    return _ALONE[kind]


class Neighbours(Family):
    name = 'neighbours'
    batch = 8
    bounds = ('every ordered pair of page kinds (22 kinds: text, ruled/merged/nested/shaded/implicit tables, columns, '
              'pictures, drawings, marks, links, vertical text, rotations, empty, ...); thorough: also every ordered '
              'triple of 12 kinds; compared with each page converted in a document of its own, in a fresh process')

    def scenarios(self, tier):
        for p in itertools.product(KINDS, repeat=2):
            yield list(p)
        if tier != 'quick':
            ks = [k for k in KINDS if k not in ('rot180', 'rot270', 'wide', 'scan', 'implicit', 'justify', 'merged',
                                                'link', 'manyfonts', 'rotimg90')]
            for p in itertools.product(ks, repeat=3):
                yield list(p)

    def run(self, scn, tmp):
        # references first: each in a process of its own (forked), so that nothing is carried over
        refs = []
        for k in scn:
            if k not in _ALONE:
                _ALONE[k] = in_child(lambda: alone(k, tmp))
            refs.append(_ALONE[k])
        pdf, out = os.path.join(tmp, 'x.pdf'), os.path.join(tmp, 'x.docx')

        def together():
            build([gallery(k) for k in scn], pdf)
            convert(pdf, out)
            return sections(out)
        got = in_child(together)
        viols = []
        if len(got) != len(scn):
            return res([f'{len(scn)} pages, {len(got)} sections'])
        for i, (k, r) in enumerate(zip(scn, refs)):
            d = first_diff([got[i]], r)
            if d:
                viols.append(f'page {i} ({k}) differs from the same page alone: {d}')
        return res(viols, digest(got))


class Sizes(Family):
    name = 'sizes'
    batch = 8
    bounds = ('every ordered pair of 10 page sizes (some differing by less than a point, portrait and landscape) and '
              'rotations, with content at the edges or not: size and margins of each section as for the page alone')
    cases = [(400, 500, 0), (400, 500.5, 0), (400.4, 500, 0), (399, 501, 0), (500, 400, 0), (400, 500, 90), (400, 500, 180),
             (612, 792, 0), (595, 842, 0), (200, 120, 0)]

    def page(self, c, edge):
        w, h, rot = self.cases[c]
        els = [['text', 30, 40, f'case {c}']]
        if edge:
            els += [['text', 5, 12, 'corner'], ['text', w - 60, h - 8, 'corner']]
        return {'size': [w, h], 'rot': rot, 'els': els}

    def scenarios(self, tier):
        for a, b in itertools.product(range(len(self.cases)), repeat=2):
            for e in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
                yield [[a, e & 1], [b, e >> 1]]

    def run(self, scn, tmp):
        pdf, out = os.path.join(tmp, 'x.pdf'), os.path.join(tmp, 'x.docx')
        refs = []
        for p in scn:
            k = tuple(p)
            if k not in _ALONE:
                def go():
                    build([self.page(*k)], pdf)
                    convert(pdf, out)
                    return sections(out)
                _ALONE[k] = in_child(go)
            refs += _ALONE[k]
        def together():
            build([self.page(*p) for p in scn], pdf)
            convert(pdf, out)
            return sections(out)
        got = in_child(together)
        viols = []
        d = first_diff(got, refs) if len(got) == len(refs) else f'{len(scn)} pages, {len(got)} sections'
        if d:
            viols.append(f'pages differ from the same pages alone: {d}')
        for i, (c, _) in enumerate(scn):
            w, h, rot = self.cases[c]
            g = got[i]['sect'] if i < len(got) else {}
            if abs(g.get('w', 0) - w) > 0.06 or abs(g.get('h', 0) - h) > 0.06:
                viols.append(f'page {i} is {g.get("w")} x {g.get("h")}, drawn: {w} x {h}')
        return res(viols, digest(got))


def in_child(fn):
    """fn() computed in a forked process"""
    import json
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        ok = 1
        try:
            data = json.dumps(fn()).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            ok = 0
        finally:
            os._exit(ok)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st != 0:
        raise RuntimeError('the reference run failed')
    return json.loads(data)


class Borrowed(Family):
    name = 'pages of other checks'
    batch = 6
    bounds = ('documents of 5 pages, each of another one of the 60 families of pages of C09 to C22; 10 (thorough: 80) pages of each '
              'family; compared with each page alone, in a fresh process')

    def scenarios(self, tier):
        n = 10 if tier == 'quick' else 80
        all_ = list(borrow.refs(n, 2))
        k = len(all_) // 5
        for i in range(k):
            yield [all_[i + j * k] for j in range(5)]

    def run(self, scn, tmp):
        pdf, out = os.path.join(tmp, 'x.pdf'), os.path.join(tmp, 'x.docx')

        def made(refs):
            build([borrow.page(r) for r in refs], pdf)
            convert(pdf, out)
            return sections(out)
        want = [in_child(lambda: made([r])) for r in scn]
        got = in_child(lambda: made(scn))
        if len(got) != len(scn):
            return res([f'{len(scn)} pages, {len(got)} sections'])
        viols = []
        for i, (a, b) in enumerate(zip(got, want)):
            d = first_diff([a], b)
            if d:
                viols.append(f'page {i} ({scn[i]}) differs from the same page alone: {d}')
        return res(viols, digest(got))


def families():
    return [Neighbours(), Sizes(), Borrowed()]
