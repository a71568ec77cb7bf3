"""C14  Pictures and drawings are there, once each, as they look on the page."""
import itertools
from ..docxobs import images, tokens
from ..env import fitz
from ..pages import PageFamily
from ..pdfgen import draw_page
from ..render import render
from ..simple import grid
from .. import imgs
from .c10 import all_tables
from .c15 import positions

LEVEL = 'model_checking'


def pictures(obs, want, tol=0, tol_pos=2.0, where=True):
    """violations: the pictures of the docx section against [(rect, spec or None)], each once"""
    got = [dict(i) for i in render(obs)['images']]
    v = []
    if len(got) != len(want):
        v.append(f'{len(got)} pictures, drawn: {len(want)}')
    left = list(range(len(got)))
    for rect, spec in want:
        best = None
        for k in left:
            g = got[k]['rect']
            d = max(abs(a - b) for a, b in zip(rect, g)) if where else \
                max(abs(rect[k + 2] - rect[k] - g[k + 2] + g[k]) for k in (0, 1))
            bad = imgs.compare(spec, got[k]['data'], tol) if spec else None
            if d <= tol_pos and bad is None:
                best = (0, k, None)
                break
            why = bad if d <= tol_pos else f'picture at {[round(x, 1) for x in g]}, drawn at {list(rect)}'
            rank = (1 if d <= tol_pos else 2) + (d / 1e4)
            if best is None or rank < best[0]:
                best = (rank, k, why)
        if best is None:
            v.append(f'no picture for the one at {list(rect)}')
            continue
        if best[2]:
            v.append(best[2])
        left.remove(best[1])
    return v


class Formats(PageFamily):
    name = 'formats'
    bounds = ('gray, RGB, CMYK, indexed, 1-bit pictures and stencils x no mask, soft mask of the same, half and double '
              'resolution, explicit mask x as XObject, inline and in a form x 6 sizes in pixels x 2 contents')
    SIZES = [(4, 4), (2, 6), (8, 2), (1, 1), (6, 4), (8, 8)]

    def scenarios(self, tier):
        for cs in ('gray', 'rgb', 'cmyk', 'index', 'bits', 'stencil'):
            for how in ('x', 'inline', 'form'):
                for mask in (None, 'soft', 'small', 'large', 'stencil'):
                    if mask and (how == 'inline' or cs == 'stencil'):
                        continue
                    for w, h in self.SIZES:
                        if mask == 'small' and (w % 2 or h % 2):
                            continue
                        for n in (0, 1):
                            yield {'cs': cs, 'how': how, 'mask': mask, 'w': w, 'h': h, 'n': n}

    def page(self, s):
        return {'size': [300, 260], 'els': [['text', 40, 50, 'words above it'], ['pic', [[60, 80, 140, 140]], s],
                                            ['text', 40, 180, 'words below it']]}

    def check(self, s, obs):
        v = pictures(obs, [((60, 80, 140, 140), s)], 2)
        return v, s['cs']


class Samples(Formats):
    name = 'samples'
    bounds = ('pictures of 1, 2, 4, 8 and 16 bits, gray, RGB, CMYK, indexed and of special colours x '
              'samples as they are and stored inverted x no mask, a soft mask with partly transparent pixels, a transparent '
              'colour x as XObject, inline and in a form x 3 sizes in pixels x 2 contents')
    SIZES = [(4, 4), (3, 5), (8, 2)]

    def scenarios(self, tier):
        for cs in ('gray', 'rgb', 'cmyk', 'index', 'bits', 'gray2', 'gray4', 'gray16', 'rgb16', 'tint', 'tints', 'duo'):
            for how in ('x', 'inline', 'form'):
                for dec in (0, 1):
                    for mask in (None, 'partial', 'key'):
                        if how == 'inline' and (mask or cs in ('tint', 'tints', 'duo')) or cs in ('index', 'tints') and dec:
                            continue
                        if mask == 'key' and (dec or cs not in ('gray', 'rgb', 'cmyk', 'index')):
                            continue
                        for w, h in self.SIZES:
                            for n in (0, 1):
                                yield {'cs': cs, 'how': how, 'mask': mask, 'w': w, 'h': h, 'n': n, 'decode': dec}


class Orientations(PageFamily):
    name = 'orientations'
    bounds = ('8 orientations (turned, mirrored) x 4 page rotations x XObject, inline, form x RGB, RGB with mask, stencil x '
              '2 shapes')

    def scenarios(self, tier):
        for cs, mask in (('rgb', None), ('rgb', 'soft'), ('stencil', None)):
            for how in ('x', 'inline', 'form'):
                if how == 'inline' and mask:
                    continue
                for m in range(8):
                    for rot in (0, 90, 180, 270):
                        for r in ([60, 80, 140, 140], [60, 80, 100, 160]):
                            yield [{'cs': cs, 'how': how, 'mask': mask, 'm': m, 'w': 4, 'h': 6}, rot, r]

    def page(self, s):
        return {'size': [300, 260], 'rot': s[1], 'els': [['text', 40, 50, 'words above it'], ['pic', [s[2]], s[0]],
                                                         ['text', 40, 200, 'words below it']]}

    def check(self, s, obs):
        return pictures(obs, [(s[2], s[0])], 2), s[0]['m']


class Places(PageFamily):
    name = 'places'
    bounds = ('every set of up to 3 (thorough 4) of 9 places (some side by side, some over the edges of the page) for one '
              'picture - one object for all, one each, a form, inline - with and without text')
    AT = [[40, 60, 100, 100], [140, 60, 200, 100], [240, 60, 300, 100], [40, 130, 100, 170], [160, 140, 220, 180],
          [40, 200, 100, 240], [-20, 110, 30, 125], [300, 190, 360, 230], [150, 250, 230, 310]]
    HOW = ['shared', 'apart', 'form', 'inline']

    def scenarios(self, tier):
        for n in range(1, 4 if tier == 'quick' else 5):
            for c in itertools.combinations(range(len(self.AT)), n):
                for how in range(4):
                    if how != 1 and max(c) > 5:     # MuPDF's text page has no pictures over the edges
                        continue
                    for t in (0, 1):
                        yield [list(c), how, t]

    def spec(self, s):
        return {'cs': 'rgb', 'how': {2: 'form', 3: 'inline'}.get(s[1], 'x'), 'mask': 'soft' if s[1] < 2 else None}

    def page(self, s):
        els = [['text', 40, 40, 'a row of words on the top of this page']] if s[2] else []
        els.append(['pic', [self.AT[i] for i in s[0]], self.spec(s), {'apart': s[1] == 1}])
        return {'size': [340, 300], 'els': els}

    def check(self, s, obs):
        # what is over the edges may be moved into the page, and other things with it
        v = pictures(obs, [(self.AT[i], self.spec(s)) for i in s[0]], where=max(s[0]) < 6)
        return v, len(v)


class Twins(PageFamily):
    name = 'twins'
    bounds = ('every pair of 8 pictures that are alike in size, data or mask x 5 arrangements (apart, side by side, '
              'overlapping, one in the other, at the same place)')
    SPECS = [{'cs': 'rgb'}, {'cs': 'rgb', 'mask': 'soft'}, {'cs': 'rgb', 'mask': 'stencil'}, {'cs': 'rgb', 'n': 1},
             {'cs': 'gray'}, {'cs': 'rgb', 'how': 'form'}, {'cs': 'stencil'}, {'cs': 'rgb', 'm': 2}]
    ARR = [([40, 60, 100, 100], [40, 150, 100, 190]), ([40, 60, 100, 100], [140, 60, 200, 100]),
           ([40, 60, 100, 100], [80, 80, 140, 120]), ([40, 60, 140, 140], [60, 80, 100, 100]),
           ([40, 60, 100, 100], [40, 60, 100, 100])]

    def scenarios(self, tier):
        for i in range(len(self.SPECS)):
            for j in range(len(self.SPECS)):
                for k in range(len(self.ARR)):
                    if k == 4 and (not {i, j} & {3, 4, 6} or {i, j} == {5, 6}):      # the same data at the same place: which is which?
                        continue
                    yield [i, j, k]

    def page(self, s):
        a, b = self.ARR[s[2]]
        return {'size': [300, 260], 'els': [['text', 40, 40, 'some words on this page'], ['pic', [a], self.SPECS[s[0]]],
                                            ['pic', [b], self.SPECS[s[1]]]]}

    def check(self, s, obs):
        a, b = self.ARR[s[2]]
        # a stencil is clipped from the page: what is under it is seen in it
        sp = [x if s[2] < 2 or x['cs'] != 'stencil' else None for x in (self.SPECS[s[0]], self.SPECS[s[1]])]
        return pictures(obs, [(a, sp[0]), (b, sp[1])], 2), s[2]


def looks(data, rect, doc_page, tol=40):
    """share of the area in which a picture shows anything else than the page in that rect"""
    pix = fitz.Pixmap(data)
    if pix.alpha or pix.colorspace is None or pix.colorspace.n != 3:
        return 1.0
    ref = doc_page.get_pixmap(matrix=fitz.Matrix(2, 2), alpha=False)
    bad = n = 0
    for y in range(int(rect[1]) + 2, int(rect[3]) - 1, 2):
        for x in range(int(rect[0]) + 2, int(rect[2]) - 1, 2):
            px = int((x - rect[0]) * pix.width / (rect[2] - rect[0]))
            py = int((y - rect[1]) * pix.height / (rect[3] - rect[1]))
            if not (0 <= px < pix.width and 0 <= py < pix.height and 0 <= 2 * x < ref.width and 0 <= 2 * y < ref.height):
                continue
            n += 1
            a = pix.pixel(px, py)
            # anything like it within a pixel: edges are blurred differently
            near = [ref.pixel(u, w) for u in range(max(0, 2 * x - 2), min(ref.width, 2 * x + 3))
                    for w in range(max(0, 2 * y - 2), min(ref.height, 2 * y + 3))]
            lo = [min(q[k] for q in near) - tol for k in range(3)]
            hi = [max(q[k] for q in near) + tol for k in range(3)]
            bad += not all(l <= v <= h for l, v, h in zip(lo, a, hi))
    return bad / n if n else 1.0


def looks_near(data, q, page):
    """the same, wherever within 5 pt the clipped part of the page really is"""
    best = 1.0
    for x, y in sorted(itertools.product(range(-5, 6), repeat=2), key=lambda d: d[0] ** 2 + d[1] ** 2):
        best = min(best, looks(data, [q[0] + x, q[1] + y, q[2] + x, q[3] + y], page))
        if best <= 0.02:
            break
    return best


def drawings(obs, size, E, D, P, T):
    """violations: drawings in the boxes D, pictures P and tables T of a page with the elements E"""
    got = render(obs)['images']
    v = []
    doc = fitz.open()
    draw_page(doc, {'size': size, 'els': [e for e in E if e[0] != 'text']})
    if len(got) != len(D) + len(P):
        v.append(f'{len(got)} pictures, drawn: {len(D)} drawings and {len(P)} pictures')
    left = list(got)
    for rect, spec in P:
        for g in left:
            if max(abs(g['rect'][k + 2] - g['rect'][k] - rect[k + 2] + rect[k]) for k in (0, 1)) < 1 and \
                    imgs.compare(spec, g['data'], 2) is None:
                left.remove(g)
                break
        else:
            v.append(f'the picture at {rect} is not there')
    for r in D:
        for g in left:
            q = g['rect']
            # as much as is drawn, in size, and not much more
            if all(-2 <= q[k + 2] - q[k] - (min(r[k + 2], size[k]) - r[k]) <= 14 for k in (0, 1)):
                # where it is on the page is judged in C15; find the part of the page it shows
                c = [(q[0] + q[2]) / 2, (q[1] + q[3]) / 2]
                left.remove(g)
                d = max(abs(c[k] - (r[k] + r[k + 2]) / 2) for k in (0, 1))
                if d > 6:
                    v.append(f'the drawing at {r} is at {[round(x, 1) for x in q]}')
                elif (b := looks_near(g['data'], q, doc[0])) > 0.02:
                    v.append(f'{b:.0%} of the drawing at {r} look otherwise')
                break
        else:
            v.append(f'the drawing at {r} is not there')
    n = len([t for t in all_tables(obs['blocks']) if all(len(c['borders']) == 4 for c in t['rows'][0]['cells'])])
    if n != len(T):
        v.append(f'{n} tables, drawn: {len(T)}')
    want = sorted(' '.join(e[3] for e in E if e[0] == 'text').split())
    if sorted(tokens(obs['blocks'])) != want:
        v.append(f'words {tokens(obs["blocks"])}')
    return v


class Drawings(PageFamily):
    name = 'drawings'
    batch = 8
    bounds = ('a drawing of curves (circle, filled circle, two that overlap) at 6 places (some near the edges of the page) x '
              'every subset of 6 other things on the page (words, ruled table, picture, picture in the page\'s corner, '
              'another drawing, line across) x page rotations (thorough: 4)')
    AT = [[170, 130, 230, 180], [170, 3, 230, 50], [170, 270, 230, 317], [3, 130, 60, 180], [340, 130, 397, 180],
          [160, 125, 239, 185]]
    STYLE = [[{'color': 0xcc0000, 'width': 2}], [{'fill': 0x0000cc}], [{'color': 0xcc0000, 'width': 2}, {'fill': 0x00aa00}]]
    OTHERS = 6

    def scenarios(self, tier):
        for rot in (0, 90) if tier == 'quick' else (0, 90, 180, 270):
            for st in range(3):
                for a in range(6):
                    for m in range(1 << self.OTHERS):
                        if tier == 'quick' and rot and (m.bit_count() > 2 or st):
                            continue
                        yield [a, st, m, rot]

    def split(self, s):
        """-> drawings [rect], pictures [(rect, spec)], tables [rect], elements"""
        a, st, m, rot = s
        x0, y0, x1, y1 = self.AT[a]
        E, D, P, T = [], [], [], []
        for i, o in enumerate(self.STYLE[st]):
            E.append(['curve', x0 + 15 * i, y0 + 10 * i, x1 - 15 * i, y1, o])
        D.append([x0, y0, x1, y1])
        if m & 1:
            E += [['text', 20, 90, 'words on this page'], ['text', 250, 250, 'more words']]
        if m & 2:
            E += grid(20, 210, 2, 2, [['ta', 'tb'], ['tc', 'td']])
            T.append([20, 210, 140, 258])
        if m & 4:
            r = [260, 60, 320, 100]
            E.append(['pic', [r], {'cs': 'rgb'}])
            P.append((r, {'cs': 'rgb'}))
        if m & 8:
            r = [0, 0, 60, 40]
            E.append(['pic', [r], {'cs': 'rgb', 'n': 1}])
            P.append((r, {'cs': 'rgb', 'n': 1}))
        if m & 16:
            E.append(['curve', 100, 60, 140, 100, {'fill': 0xaa00aa}])
            D.append([100, 60, 140, 100])
        if m & 32:
            E.append(['line', 260, 200, 340, 200, {}])
        return D, P, T, E

    def page(self, s):
        return {'size': [400, 320], 'rot': s[3], 'els': self.split(s)[3]}

    def check(self, s, obs):
        D, P, T, E = self.split(s)
        return drawings(obs, [400, 320], E, D, P, T), len(D)


class Colours(PageFamily):
    name = 'colours of drawings'
    batch = 8
    bounds = ('a drawing of curves filled, or drawn with a line of 3 pt, in each of 6x6x6 colours from black to the palest, white '
              'apart: it is there, where it was drawn and as it looks')

    def scenarios(self, tier):
        for n, c in enumerate(itertools.product(range(6), repeat=3)):
            if c != (5, 5, 5):
                # a thin line in the palest yellow is too near to white
                for how in (0,) if c == (5, 5, 4) else (0, 1) if tier != 'quick' or sum(c) >= 13 else (n % 2,):
                    yield [list(c), how]

    def split(self, s):
        c = sum(51 * k << e for k, e in zip(s[0], (16, 8, 0)))
        o = [{'fill': c}, {'color': c, 'width': 3}][s[1]]
        return [['curve', 120, 100, 240, 190, o], ['text', 40, 250, 'words below it']]

    def page(self, s):
        return {'size': [400, 320], 'els': self.split(s)}

    def check(self, s, obs):
        E = self.split(s)
        return drawings(obs, [400, 320], E, [E[0][1:5]], [], []), s[0]


class Named(PageFamily):
    name = 'named'
    bounds = ('a drawing of curves in a form x 10 names of the form, some like operators of the content stream x 6 texts '
              'above it, some like operators x page rotations 0 and 90')
    NAMES = ['Fm1', 'BT', 'BT1', 'FmBT', 'Td', 'TdX', 'XTm', 'Tm', 'Do', 'ET']
    TEXTS = ['', 'some words', 'BT', 'x BT y', 'Td Tm', '(BT) Td']

    def scenarios(self, tier):
        for n in range(len(self.NAMES)):
            for t in range(len(self.TEXTS)):
                for rot in (0, 90):
                    yield [n, t, rot]

    def split(self, s):
        C = [['m', 170, 155], ['c', 170, 120, 230, 120, 230, 155], ['c', 230, 190, 170, 190, 170, 155]]
        E = [['path', C, {'fill': 0x0000cc, 'form': 1, 'name': self.NAMES[s[0]]}], ['text', 40, 250, 'words below it']]
        if self.TEXTS[s[1]]:
            E.append(['text', 40, 60, self.TEXTS[s[1]]])
        return [[170, 129, 230, 181]], [], [], E

    def page(self, s):
        return {'size': [400, 320], 'rot': s[2], 'els': self.split(s)[3]}

    def check(self, s, obs):
        D, P, T, E = self.split(s)
        return drawings(obs, [400, 320], E, D, P, T), s[0]


class Hidden(PageFamily):
    name = 'hidden text'
    bounds = ('a drawing of curves x text above it and overlapping it, positioned by Td, TD, Tm, T* and quotes x text rendering '
              'mode 0, 1, 2 set in an earlier text object, first in it and after positioning x with all contents in the page, in a '
              'form, in a form in a form: the picture does not show the text, and there is no other one')

    def scenarios(self, tier):
        for pos in range(5):
            for mode in (None, 0, 1, 2):
                for when in range(3 if mode is not None else 1):
                    for over in range(2):
                        for wrap in range(3):
                            for font in range(3):
                                yield [pos, mode, when, over, wrap, font]

    FONTS = [{}, {'base': 'Own'}, {'base': 'Own', 'type': 'Type3'}]

    def ops(self, s):
        pos, mode, when, over = s[:4]
        x, y = ([40, 60], [190, 150])[over]
        tr = [['Tr', mode]] if mode is not None else []
        at = [[['Td', x, y - 320]], [['TD', x, y - 320]], [['at', x, y]], [['at', x, y - 14], ['TL', 14], ['T*']],
              [['at', x, y - 14], ['TL', 14]]][pos]
        show = ["'" if pos == 4 else 'Tj', 'words']
        return [['Tf', 11]] + (tr if when < 2 else []) + at + (tr if when == 2 else []) + [show], [x, y]

    def split(self, s):
        E = [['curve', 170, 130, 230, 180, {'color': 0xcc0000, 'width': 2}], ['text', *self.ops(s)[1], 'words']]
        return [[170, 130, 230, 180]], [], [], E

    def page(self, s):
        E = self.split(s)[3]
        first = [['show', [['Tf', 11], ['Tr', s[1]]], {}]] if s[2] == 0 and s[1] is not None else []
        return {'size': [400, 320], 'els': [E[0]] + first + [['show', self.ops(s)[0], self.FONTS[s[5]]]], 'wrap': [[1, 0, 0, 1, 0, 0]] * s[4]}

    def check(self, s, obs):
        D, P, T, E = self.split(s)
        return drawings(obs, [400, 320], E, D, P, T), s[0]


class DrawingSizes(PageFamily):
    name = 'drawing sizes'
    batch = 8
    bounds = ('pages of widths and heights 30, 48, 60, 150, 400, 1000 pt with a drawing in the middle third, of 3 styles, '
              'clipped at 3 resolutions, 4 page rotations')
    SZ = [30, 48, 60, 150, 400, 1000]

    def scenarios(self, tier):
        for w in self.SZ:
            for h in self.SZ:
                for rot in (0, 90, 180, 270):
                    for r in (1.0, 3.0, 4.5):
                        yield [w, h, rot, r]

    def settings(self, s):
        return {'clip_image_res_ratio': s[3]}

    def els(self, s):
        w, h = s[:2]
        k = (w // 10 + h // 10) % 3
        o = [{'color': 0xcc0000, 'width': 2}, {'fill': 0x0000cc}, {'fill': 0x00aa00, 'color': 0x111111}][k]
        return [['curve', w / 3, h / 3, 2 * w / 3, 2 * h / 3, o]]

    def page(self, s):
        return {'size': s[:2], 'rot': s[2], 'els': self.els(s)}

    def check(self, s, obs):
        got = render(obs)['images']
        w, h = s[:2]
        if len(got) != 1:
            return [f'{len(got)} pictures for one drawing'], 0
        q, r = got[0]['rect'], self.els(s)[0][1:5]
        d = max(abs((q[k] + q[k + 2]) / 2 - (r[k] + r[k + 2]) / 2) for k in (0, 1))
        v = []
        if d > 3 or not all(-2 <= q[k + 2] - q[k] - (r[k + 2] - r[k]) <= 14 for k in (0, 1)):
            v.append(f'the drawing at {[round(x, 1) for x in r]} is at {[round(x, 1) for x in q]}')
        pix = fitz.Pixmap(got[0]['data'])
        if max(abs(pix.width - s[3] * (q[2] - q[0])), abs(pix.height - s[3] * (q[3] - q[1]))) > 1 + s[3]:
            v.append(f'{pix.width} x {pix.height} pixels for {q} at {s[3]} pixels per pt')
        if w * h <= 400 * 400:
            doc = fitz.open()
            draw_page(doc, {'size': s[:2], 'els': self.els(s)})
            if (b := looks_near(got[0]['data'], q, doc[0])) > 0.02:
                v.append(f'{b:.0%} of the drawing look otherwise')
        return v, pix.width > 100


class Outlines(PageFamily):
    name = 'outlines'
    batch = 8
    bounds = ('12 shapes (ellipse of two curves, diamond, triangles, parallelogram, turned rectangle, star, diagonals, wave, L shape, '
              'stadium, arrow of two paths) stroked, filled or both, at 4 places, alone, above words, beside a table or a '
              'picture, in a form, in a scaled space; page rotations')
    AT = [(150, 120), (5, 5), (330, 250), (150, 250)]
    N = 12

    def scenarios(self, tier):
        for n in range(self.N):
            for paint in range(3):
                for at in range(4):
                    for w in range(4):
                        for o in range(3):
                            for rot in (0, 90) if tier == 'quick' else (0, 90, 180, 270):
                                if tier == 'quick' and (n + paint + at + w + o + rot // 90) % 4:
                                    continue
                                yield [n, paint, at, w, o, rot]

    @staticmethod
    def shape(n, x, y):
        """paths in a box of 60 x 40"""
        a, b = x + 60, y + 40
        m = lambda *q: [['m', *q[0]]] + [['l', *z] for z in q[1:]]
        k, q = 20, 9        # radius and distance of control points
        return [
            [[['m', x, y + 20], ['c', x, y - 6, a, y - 6, a, y + 20], ['c', a, b + 6, x, b + 6, x, y + 20], ['h']]],
            [m((x + 30, y), (a, y + 20), (x + 30, b), (x, y + 20)) + [['h']]],
            [m((x, b), (a, b), (x + 30, y)) + [['h']]],
            [m((x, y), (a, y), (x, b), (x, y))],
            [m((x + 15, y), (a, y), (a - 15, b), (x, b)) + [['h']]],
            [m((x + 20, y), (a, y + 30), (a - 20, b), (x, y + 10)) + [['h']]],
            [m((x + 30, y), (x + 40, b), (x, y + 15), (a, y + 15), (x + 20, b)) + [['h']]],
            [m((x, y), (a, b)), m((x, b), (a, y))],
            [[['m', x, y + 20], ['c', x + 20, y - 20, x + 40, b + 20, a, y + 20], ['c', x + 40, b, x + 20, b, x, y + 20]]],
            [m((x, y), (x + 20, y), (x + 20, y + 20), (a, y + 20), (a, b), (x, b)) + [['h']]],
            [[['m', x + k, y], ['l', a - k, y], ['c', a - q, y, a, y + q, a, y + k], ['c', a, b - q, a - q, b, a - k, b],
              ['l', x + k, b], ['c', x + q, b, x, b - q, x, b - k], ['c', x, y + q, x + q, y, x + k, y], ['h']]],
            [m((x, y + 20), (a - 20, y + 21)), m((a - 20, y), (a, y + 20), (a - 20, b)) + [['h']]],
        ][n]

    def els(self, s):
        n, paint, at, w, o, rot = s
        opt = [{'color': 0xcc0000, 'width': 2}, {'fill': 0x0055aa}, {'color': 0, 'fill': 0xffcc00, 'width': 1.5}][paint]
        opt = {**opt, **[{}, {'form': True}, {'scale': 0.5}][o]}
        if n in (7, 11) and 'color' not in opt:
            opt['color'] = 0x0055aa
        x, y = self.AT[at]
        E = [['path', q, opt] for q in self.shape(n, x, y)]
        P = []
        if w == 1:
            E.append(['text', 150, 220, 'words on this page'])
        if w == 2:
            E += grid(20, 180, 2, 2, [['ta', 'tb'], ['tc', 'td']])
        if w == 3:
            P.append(([250, 60, 310, 100], {'cs': 'rgb'}))
            E.append(['pic', [P[0][0]], P[0][1]])
        return E, [x, y + 8.5, x + 60, y + 35] if n == 8 else [x, y, x + 60, y + 40], P

    def page(self, s):
        return {'size': [400, 320], 'rot': s[5], 'els': self.els(s)[0]}

    def check(self, s, obs):
        E, r, P = self.els(s)
        return drawings(obs, [400, 320], E, [r], P, [[20, 180, 140, 228]] if s[3] == 2 else []), s[0]


class AmongText(PageFamily):
    name = 'among text'
    bounds = ('a picture of 3 sizes at every point of a grid of 12 x 11 places (distances on both sides of the float '
              'threshold of 5 pt) around and over 1 to 3 rows of text, a second picture or none')
    PX = [20, 45, 54, 57, 60, 63, 80, 120, 158, 163, 168, 190]
    PY = [40, 58, 66, 72, 77, 84, 92, 100, 108, 116, 140]
    SZ = [(20, 10), (40, 30), (90, 60)]

    def scenarios(self, tier):
        for n in (1, 2, 3):
            for z in range(3):
                for x in self.PX:
                    for y in self.PY:
                        for two in (0, 1):
                            if tier == 'quick' and (n == 2 or two and z == 1):
                                continue
                            yield [n, z, x, y, two]

    def pics(self, s):
        w, h = self.SZ[s[1]]
        r = [([s[2], s[3], s[2] + w, s[3] + h], {'cs': 'rgb', 'n': 2})]
        if s[4]:
            r.append(([100, 200, 150, 240], {'cs': 'gray', 'n': 1}))
        return r

    def page(self, s):
        els = [['text', 60, 100 + 14 * k - 7 * (s[0] - 1), f'r{k}a words in the row r{k}b'] for k in range(s[0])]
        for r, spec in self.pics(s):
            els.append(['pic', [r], spec])
        return {'size': [340, 300], 'els': els}

    def check(self, s, obs):
        p = self.page(s)
        rows = [e for e in p['els'] if e[0] == 'text']
        if s[3] - 6 < rows[-1][2] + 4 and s[3] + self.SZ[s[1]][1] + 6 > rows[0][2] - 14 and \
                not any(i['kind'] == 'anchor' for i in images(obs['blocks'])):
            # in a row of text the picture stands on the base line (there is no other place in a text flow), and
            # rows are as high as the picture: nothing is off the page or further away than that
            v, _ = positions(p, obs, 150, self.SZ[s[1]][1] + 15)
            for w in render(obs)['words']:
                if min(w['rect']) < 0:
                    v.append(f'{w["w"]} off the page: {w["rect"]}')
            v += pictures(obs, self.pics(s), tol_pos=150)
        else:
            v, _ = positions(p, obs)
            v += pictures(obs, self.pics(s))
        if sorted(tokens(obs['blocks'])) != sorted(' '.join(e[3] for e in rows).split()):
            v.append(f'words {tokens(obs["blocks"])}')
        return v, [i['kind'] for i in images(obs['blocks'])]


class Floating(PageFamily):
    name = 'floating'
    batch = 7
    bounds = ('every subset of 5 things on a page (row of words, two columns of words, ruled table, ruled table at the end, '
              'picture in the flow) x 6 sets of floating pictures (two or three that overlap each other, over words, over '
              'a table, over the picture) x 2 orders of drawing, with other pages before and after')

    FL = [[], [[200, 200, 260, 240], [230, 220, 290, 250]], [[200, 200, 290, 250], [210, 210, 230, 220], [240, 230, 260, 240]],
          [[45, 40, 105, 70]], [[60, 130, 120, 160]], [[160, 230, 260, 270]]]

    def scenarios(self, tier):
        for m in range(32):
            for f in range(6):
                for o in (0, 1):
                    yield [m, f, o]

    def els(self, s):
        m, f, o = s
        E, P = [], []
        if m & 1:
            E += [['text', 50, 50, 'a row of words'], ['text', 50, 64, 'another row of words']]
        if m & 2:
            E += [['text', 50, 90, 'left column of words'], ['text', 200, 95, 'right column of words'],
                  ['text', 50, 104, 'left column of words'], ['text', 200, 109, 'right column of words']]
        if m & 4:
            E += grid(50, 120, 2, 2, [['ta', 'tb'], ['tc', 'td']])
        if m & 8:
            P.append(([60, 180, 120, 220], {'cs': 'gray'}))
        pics = P + [(r, {'cs': 'rgb', 'n': k}) for k, r in enumerate(self.FL[f])]
        Q = [['pic', [r], spec] for r, spec in pics]
        if m & 16:
            E += grid(50, 225, 2, 2, [['ua', 'ub'], ['uc', 'ud']])
        return (E + Q if o else Q + E), pics

    def page(self, s):
        return {'size': [340, 300], 'els': self.els(s)[0]}

    def check(self, s, obs):
        E, pics = self.els(s)
        # one over the side of a table only, and over no words, is part of the flow and follows the table
        v = pictures(obs, pics, where=not (s[1] == 5 and s[0] & 16))
        want = sorted(' '.join(e[3] for e in E if e[0] == 'text').split())
        if sorted(tokens(obs['blocks'])) != want:
            v.append(f'words {tokens(obs["blocks"])}, drawn: {want}')
        return v, [i['kind'] for i in images(obs['blocks'])]


class OnTables(PageFamily):
    name = 'on tables'
    batch = 12
    bounds = ('a picture of 5 sizes (smaller than the cells to larger than the table) at the points of a grid of 15 x 12 around and '
              'over a 2x2 ruled or shaded table, with words in the cells or none: the picture and the words are there once')

    def scenarios(self, tier):
        k = 0
        for w, h in ((20, 14), (50, 30), (110, 20), (30, 90), (260, 140)):
            for i in range(15):
                for j in range(12):
                    for words in (0, 1):
                        for kind in (0, 1):
                            k += 1
                            if tier != 'quick' or k % 7 == k // 60 % 7:
                                yield [w, h, 10 + 20 * i, 40 + 11 * j, words, kind]

    def page(self, scn):
        w, h, x, y, words, kind = scn
        X, Y = [60, 160, 260], [80, 120, 160]
        els = []
        if kind:
            for i, j in itertools.product(range(2), repeat=2):
                els.append(['rect', X[i], Y[j], X[i + 1], Y[j + 1], {'fill': [0xffcc99, 0x99ccff][(i + j) % 2], 'color': None}])
        else:
            els = [['line', X[0], b, X[-1], b, {'width': 1}] for b in Y] + [['line', a, Y[0], a, Y[-1], {'width': 1}] for a in X]
        if words:
            els += [['text', X[i] + 4, Y[j] + 14, 'w' + 'abcd'[2 * j + i]] for j in range(2) for i in range(2)]
        return {'size': [400, 330], 'els': els + [['text', 60, 300, 'below']] + [['pic', [[x, y, x + w, y + h]], {'cs': 'rgb'}]]}

    def check(self, scn, obs):
        w, h, x, y = scn[:4]
        v = pictures(obs, [([x, y, x + w, y + h], {'cs': 'rgb'})], where=False)
        want = sorted(e[3] for e in self.page(scn)['els'] if e[0] == 'text')
        if sorted(tokens(obs['blocks'])) != want:
            v.append(f'words {tokens(obs["blocks"])}, drawn: {want}')
        return v, [i['kind'] for i in images(obs['blocks'])]


def families():
    return [Formats(), Samples(), Orientations(), Places(), Twins(), Drawings(), DrawingSizes(), Colours(), Named(), Hidden(), Outlines(), AmongText(), Floating(), OnTables()]
