"""C17  The docx is well-formed: word processors can open it and read all of it."""
import itertools
import os
from ..explore import Family, res
from ..docs import build, convert, sha
from ..docxobs import Docx
from .. import borrow
from ..gallery import gallery, mix, KINDS, PARTS
from ..wellformed import check
from ..tiling import tilings
from . import c10, c11, c22

LEVEL = 'model_checking'


class Docs(Family):
    """documents made of several pages, one scenario = one page, the whole file is judged"""
    batch = 8
    settings = None

    def page(self, scn):
        raise NotImplementedError

    def run_many(self, scns, tmp):
        pdf, out = os.path.join(tmp, 'a.pdf'), os.path.join(tmp, 'a.docx')
        pages = []
        for s in scns:
            p = self.page(s)
            pages += p if isinstance(p, list) else [p]
        build(pages, pdf)
        convert(pdf, out)
        v = check(out, len(pages))
        if v and len(scns) > 1:
            return None      # the engine looks at each one alone
        n = len(Docx(out).parts['word/document.xml']) if len(scns) == 1 else len(scns)
        os.remove(out)
        return [res(v, [n, s]) for s in scns]

    def run(self, scn, tmp):
        return self.run_many([scn], tmp)[0]


class Kinds(Docs):
    name = 'kinds'
    batch = 1
    bounds = 'all ordered pairs of 22 kinds of pages'

    def scenarios(self, tier):
        for a, b in itertools.product(KINDS, repeat=2):
            yield [a, b]

    def page(self, scn):
        return [gallery(k, f'p{i}') for i, k in enumerate(scn)]


class Mixes(Docs):
    name = 'parts'
    bounds = 'every combination of 10 page parts'

    def scenarios(self, tier):
        return range(1, 2 ** len(PARTS))

    def page(self, scn):
        return mix(scn)


class Of(Docs):
    """pages of another check"""

    def __init__(self, name, base, step):
        self.name, self.base, self.step = name, base, step
        self.bounds = f'pages of {base.__module__[-3:].upper()} {base.name}: every {step}th (thorough: all)'

    def scenarios(self, tier):
        for i, s in enumerate(self.base.scenarios('quick')):
            if tier != 'quick' or i % self.step == 0:
                yield s

    def page(self, scn):
        return self.base.page(scn)


class Borrowed(Docs):
    name = 'pages of other checks'
    bounds = '40 (thorough: 400) pages of each of the 60 families of pages of C09 to C22, spread evenly'

    def scenarios(self, tier):
        return borrow.refs(40 if tier == 'quick' else 400, 1)

    def page(self, scn):
        return borrow.page(scn)


class Edges(Docs):
    name = 'edges'
    bounds = ('one of 9 kinds of elements at each of 49 places around and over the edges of the page, alone or with a '
              'paragraph in the middle')
    kinds = ['text', 'big', 'vertical', 'image', 'table', 'fill', 'curve', 'mark', 'two']
    at = [-60, -8, 0, 20, 170, 330, 392]

    def scenarios(self, tier):
        for k in range(len(self.kinds)):
            for x in self.at:
                for y in self.at:
                    for other in (0, 1):
                        yield [k, x, y, other]

    def page(self, scn):
        k, x, y, other = scn
        k = self.kinds[k]
        els = [['text', 100, 200, 'in the middle of the page']] if other else []
        if k == 'text':
            els.append(['text', x, y + 10, 'words at an edge'])
        elif k == 'big':
            els.append(['text', x, y + 10, 'Big', {'size': 90}])
        elif k == 'vertical':
            els.append(['text', x + 10, y + 40, 'upwards', {'dir': 'bt'}])
        elif k == 'image':
            els.append(['image', x, y, x + 90, y + 60, 'rgb:1'])
        elif k == 'table':
            X, Y = c10.coords([40, 50], x), c10.coords([20, 24], y)
            els += c10.draw(tilings(2, 2)[0], X, Y) + [['text', X[c] + 4, Y[r] + 14, f'c{r}{c}']
                                                       for r in (0, 1) for c in (0, 1)]
        elif k == 'fill':
            els.append(['rect', x, y, x + 90, y + 30, {'fill': 0x88ccee}])
        elif k == 'curve':
            els.append(['curve', x, y, x + 90, y + 60, {'fill': 0xff0000}])
        elif k == 'mark':
            els += [['rect', x, y, x + 60, y + 14, {'fill': 0xffff00}], ['text', x, y + 11, 'marked words'],
                    ['link', x, y, x + 60, y + 14, 'http://example.org/?a=1&b="<>']]
        else:
            els += [['text', x, y + 10, 'left'], ['text', x + 60, y + 12, 'right'], ['text', x, y + 30, 'left'],
                    ['text', x + 60, y + 32, 'right']]
        return {'size': [400, 400], 'els': els}


class Fonts(Docs):
    name = 'fonts'
    bounds = 'font sizes 1..60 in steps of 0.7 x 4 fonts x 5 colours; page sizes from 20 to 1584 pt (the largest one of word processors)'

    def scenarios(self, tier):
        for i in range(86):
            for f in ('helv', 'tiro', 'cour', 'hebo'):
                yield ['font', round(1 + i * 0.7, 1), f]
        for w in (20, 72, 400, 842, 1584):
            for h in (20, 72, 400, 842, 1584):
                yield ['size', w, h]

    def page(self, scn):
        if scn[0] == 'font':
            _, s, f = scn
            return {'size': [700, 300], 'els': [['text', 50, 100, 'some words', {'size': s, 'font': f}],
                                                ['text', 50, 180, 'in colour', {'size': s, 'font': f, 'color': 0x01ab7f}]]}
        _, w, h = scn
        return {'size': [w, h], 'els': [['text', w / 8, h / 2, 'x', {'size': 8}]]}


class Colours(Docs):
    name = 'colours'
    bounds = ('text, underline, strike-through, highlight, table border, cell shading, box or drawing in one of 16 colours (pure, with '
              'leading zeros in each place, black, white), text in the same or another colour')
    WHAT = ['text', 'underline', 'strike', 'highlight', 'border', 'shading', 'box', 'curve', 'link']
    COLOURS = [0, 1, 0x0000ff, 0x000100, 0x00ff00, 0x010000, 0xff0000, 0xffff00, 0x00ffff, 0xff00ff, 0xffffff, 0x000a00, 0x00000a,
               0x0a0b0c, 0xfefefe, 0x808080]

    def scenarios(self, tier):
        for k in self.WHAT:
            for c in self.COLOURS:
                for t in (0, 1, 2):
                    yield [k, c, t]

    def page(self, scn):
        k, c, t = scn
        ink = {'color': (0, c, 0x123456)[t]}
        E = [['text', 60, 60, 'some words on a line', {'color': c} if k == 'text' else ink], ['text', 60, 200, 'and some more']]
        if k == 'underline':
            E.append(['line', 60, 62, 110, 62, {'color': c}])
        elif k == 'strike':
            E.append(['line', 60, 57, 110, 57, {'color': c}])
        elif k == 'highlight':
            E.insert(0, ['rect', 58, 50, 110, 64, {'fill': c}])
        elif k in ('border', 'shading'):
            if k == 'shading':
                E.append(['rect', 60, 100, 120, 130, {'fill': c}])
            for x in (60, 120, 180):
                E.append(['line', x, 100, x, 160, {'color': c if k == 'border' else 0}])
            for y in (100, 130, 160):
                E.append(['line', 60, y, 180, y, {'color': c if k == 'border' else 0}])
            E += [['text', 66, 120, 'cell', ink], ['text', 126, 150, 'cell', ink]]
        elif k == 'box':
            E += [['rect', 60, 100, 260, 130, {'fill': c}], ['text', 66, 120, 'in the box', ink]]
        elif k == 'curve':
            E.append(['curve', 200, 100, 260, 150, {'fill': c}])
        elif k == 'link':
            E += [['link', 60, 50, 110, 64, 'http://example.org/x'], ['line', 60, 62, 110, 62, {'color': c}]]
        return {'size': [400, 300], 'els': E}


class Samples(Family):
    name = 'samples'
    bounds = 'every PDF of the repository\'s samples, page by page (a page that cannot be converted is left out)'

    def scenarios(self, tier):
        from ..env import REPO, fitz
        d = os.path.join(REPO, 'test', 'samples')
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith('.pdf') and not f.startswith('debug'):
                try:
                    doc = fitz.open(os.path.join(d, f))
                    n = 0 if doc.needs_pass else len(doc)
                    doc.close()
                except Exception:
                    continue
                for i in range(n):
                    yield [f, i]

    def run(self, scn, tmp):
        from ..env import REPO
        f, i = scn
        out = os.path.join(tmp, 'a.docx')
        try:
            convert(os.path.join(REPO, 'test', 'samples', f), out, pages=[i])
        except Exception as e:
            if 'No parsed pages' in str(e):
                return res([], 'not converted')
            raise
        return res(check(out), [len(Docx(out).parts['word/document.xml'])])


def families():
    return [Samples(), Kinds(), Mixes(), Borrowed(), Edges(), Fonts(), Colours(), Of('tables', c10.Tilings(), 5), Of('two tables', c10.Two(), 3),
            Of('nested tables', c10.Nested(), 2), Of('cells', c11.Rich(), 2), Of('cell style', c22.Borders(), 5),
            Of('shading', c22.Shading(), 5)]
