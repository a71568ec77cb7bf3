"""C15  Text, tables and pictures come to lie where they are on the page."""
import collections
import itertools
import re
from ..env import fitz
from ..pages import PageFamily
from ..pdfgen import text_width
from ..render import render
from ..docxobs import paragraphs
from ..simple import grid
from .c09 import Grid
from .c10 import coords, WIDTHS, HEIGHTS, X0, Y0
from .c11 import Contents

LEVEL = 'model_checking'
_DESC = {}


def descent(font, size):
    if font not in _DESC:
        _DESC[font] = -fitz.Font(font).descender
    return _DESC[font] * size


def drawn(page):
    """{word: (x0, bottom, x1, up)} of a page description (words of which there is just one)"""
    r, twice = {}, set()
    for el in page['els']:
        if el[0] != 'text':
            continue
        x, y, s = el[1:4]
        o = el[4] if len(el) > 4 else {}
        f, sz = o.get('font', 'helv'), o.get('size', 11)
        for m in re.finditer(r'\S+', s):
            a, b = text_width(s[:m.start()], sz, f), text_width(s[:m.end()], sz, f)
            w = m.group()
            if w in r:
                twice.add(w)
            if o.get('dir') == 'bt':
                r[w] = (y - a, x + descent(f, sz), y - b, True)
            else:
                r[w] = (x + a, y + descent(f, sz), x + b, False)
    for w in twice:
        del r[w]
    return r


def positions(page, obs, tol_x=1.5, tol_y=1.5, pics=None, tabs=None, sides=False, low=1.05):
    """violations of the places of words, pictures [(x0, y0, x1, y1)] and ruled tables of a page"""
    R = render(obs)
    v = []
    want = drawn(page)
    seen = set()
    for w in R['words']:
        e = want.get(w['w'])
        if e is None:
            continue
        seen.add(w['w'])
        x0, y0, x1, y1 = w['rect']
        if e[3] != w['up']:
            v.append(f'{w["w"]} turned: drawn {"upwards" if e[3] else "horizontally"}')
            continue
        got = (y1, x1, y0) if w['up'] else (x0, y1, x1)
        if abs(got[0] - e[0]) > tol_x or abs(got[1] - e[1]) > tol_y:
            v.append(f'{w["w"]} at {got[0]:.1f}, {got[1]:.1f}, drawn at {e[0]:.1f}, {e[1]:.1f}')
    for w in want:
        if w not in seen:
            v.append(f'{w} is nowhere')
    if pics is not None:
        got = [list(i['rect']) for i in R['images']]
        if len(got) != len(pics):
            v.append(f'{len(got)} pictures, drawn: {len(pics)}')
        for p in pics:
            d = min((max(abs(a - b) for a, b in zip(p, g)) for g in got), default=999)
            if d > 2.0:
                v.append(f'picture drawn at {p} is {d:.1f} off: {[[round(x, 1) for x in g] for g in got]}')
    if tabs is not None:
        got = [t['rect'] for t in R['tables'] if t['bordered']]
        if len(got) != len(tabs):
            v.append(f'{len(got)} ruled tables, drawn: {len(tabs)}')
        for p in tabs:
            d = min((max(abs(a - b) for a, b in zip(p, g)) for g in got), default=999)
            if d > 2.0:
                v.append(f'table drawn at {p} is {d:.1f} off: {[[round(x, 1) for x in g] for g in got]}')
    if R['used'] > R['room'] + 0.05:
        v.append(f'needs {R["used"]:.1f} of {R["room"]:.1f} pt in height: runs on to another page')
    for d, r in R['overflow']:
        if d > low:
            v.append(f'cell {[round(x) for x in r]} is {d:.1f} pt too low for its contents')
    return v, [(w['w'], [round(x, 1) for x in w['rect']]) for w in R['words']]


L, W = 50, 300      # left edge and width of the text


def item(kind, i, y):
    """-> elements, height, pictures, tables of an item at height y; i makes its words unique"""
    t = chr(97 + i)
    line = lambda x, s, k=0, **o: ['text', x, y + 11 + 14 * k, s, o]
    if kind == 'line':
        return [line(L, f'{t}single {t}row {t}here')], 15, [], []
    if kind == 'wide':
        return [line(L, f'{t}wide {t}row of a length that takes nearly all of the place {t}w')], 15, [], []
    if kind == 'para':
        return [line(L, f'{t}p1 first row of the paragraph running on {t}p2', 0),
                line(L, f'{t}p3 second row of that same paragraph on {t}p4', 1),
                line(L, f'{t}p5 the end {t}p6', 2)], 43, [], []
    if kind == 'indent':
        return [line(L + 20, f'{t}i1 row one of the indented para {t}i2', 0),
                line(L, f'{t}i3 second row of the same paragraph {t}i4', 1),
                line(L, f'{t}i5 final row {t}i6', 2)], 43, [], []
    if kind == 'right':
        s = f'{t}to {t}the {t}right'
        return [line(L + W - text_width(s), s)], 15, [], []
    if kind == 'center':
        s, u = f'{t}c1 in the {t}c2', f'{t}c3 middle of it all {t}c4'
        return [line(L + (W - text_width(s)) / 2, s), line(L + (W - text_width(u)) / 2, u, 1)], 29, [], []
    if kind == 'big':
        return [['text', L, y + 22, f'{t}Big {t}Text', {'size': 22}]], 30, [], []
    if kind == 'img':
        return [['image', L, y, L + 60, y + 40, f'rgb:{i + 1}']], 40, [[L, y, L + 60, y + 40]], []
    if kind == 'imgr':
        return [['image', L + 200, y, L + 260, y + 30, f'rgb:{i + 1}']], 30, [[L + 200, y, L + 260, y + 30]], []
    if kind == 'table':
        return grid(L, y, 2, 2, [[f'{t}t1', f'{t}t2'], [f'{t}t3', f'{t}t4']]), 48, [], [[L, y, L + 120, y + 48]]
    if kind == 'box':
        return [['rect', L, y, L + 200, y + 20, {'fill': 0xffcc99}], ['text', L + 5, y + 14, f'{t}boxed {t}row']], 20, [], []
    raise ValueError(kind)


ITEMS = ['line', 'wide', 'para', 'indent', 'right', 'center', 'big', 'img', 'imgr', 'table', 'box']


class Stacks(PageFamily):
    name = 'stacks'
    batch = 12
    bounds = ('every sequence of up to 3 (thorough 4) of 11 page items one below the other (rows, paragraphs - plain, '
              'indented, to the right, in the middle -, large text, pictures, ruled table, shaded box) at 2 (thorough 3) distances')

    def scenarios(self, tier):
        for n in range(1, 4 if tier == 'quick' else 5):
            for s in itertools.product(range(len(ITEMS)), repeat=n):
                for gap in (9, 30) if tier == 'quick' or n == 4 else (9, 30, 61):
                    if n == 3 and tier == 'quick' and sum(s) % 2 != (gap > 9):
                        continue
                    if n == 4 and sum(s) % 2 != (gap > 9):
                        continue
                    yield [gap, list(s)]

    def build(self, scn):
        gap, kinds = scn
        y, els, pics, tabs = 50, [], [], []
        for i, k in enumerate(kinds):
            e, h, p, t = item(ITEMS[k], i, y)
            els += e
            pics += p
            tabs += t
            y += h + gap
        return {'size': [400, max(300, y + 60)], 'els': els}, pics, tabs

    def page(self, scn):
        return self.build(scn)[0]

    def check(self, scn, obs):
        page, pics, tabs = self.build(scn)
        return positions(page, obs, pics=pics, tabs=tabs)



class Rotated(Stacks):
    name = 'rotated pages'
    bounds = 'every sequence of up to 2 items on a page turned by 90, 180 or 270 degrees, at 2 distances'

    def scenarios(self, tier):
        for n in range(1, 3):
            for s in itertools.product(range(len(ITEMS)), repeat=n):
                for gap in (9, 30):
                    for rot in (90, 180, 270):
                        if tier == 'quick' and n == 2 and (sum(s) + rot // 90) % 2 != (gap > 9):
                            continue
                        yield [gap, list(s), rot]

    def page(self, scn):
        return dict(self.build(scn[:2])[0], rot=scn[2])

    def check(self, scn, obs):
        page, pics, tabs = self.build(scn[:2])
        return positions(page, obs, pics=pics, tabs=tabs)


class Places(PageFamily):
    """words at the places of a grid, see C09"""
    batch = 16
    name = 'grid'
    base = Grid()
    bounds = base.bounds

    def scenarios(self, tier):
        for i, s in enumerate(self.base.scenarios(tier)):
            if tier != 'quick' or i % 2 == 0:
                yield s

    def page(self, scn):
        return self.base.page(scn)

    def check(self, scn, obs):
        return positions(self.page(scn), obs)


class Cells(PageFamily):
    """texts in the cells of a table, see C11"""
    batch = 12
    name = 'cells'
    base = Contents()
    bounds = base.bounds

    def scenarios(self, tier):
        for i, s in enumerate(self.base.scenarios(tier)):
            if tier != 'quick' or i % 2 == 0:
                yield s

    def page(self, scn):
        return self.base.page(scn)

    def check(self, scn, obs):
        r, c = scn[:2]
        X, Y = coords(WIDTHS[:c], X0), coords([h + 12 for h in HEIGHTS[:r]], Y0)
        return positions(self.page(scn), obs, tabs=[[X[0], Y[0], X[-1], Y[-1]]])


class Unequal(PageFamily):
    name = 'unequal borders'
    batch = 12
    bounds = ('a table of 2x2 cells whose 6 lines are each 1 or 5 pt (thorough: 0.5, 2 or 5 pt) wide, with words in the cells at the '
              'left, in the middle or at the right, and text above and below the table')

    def scenarios(self, tier):
        for ws in itertools.product((1, 5) if tier == 'quick' else (0.5, 2, 5), repeat=6):
            for at in range(3):
                yield [list(ws), at]

    X, Y = [60, 150, 260], [90, 130, 176]

    def page(self, scn):
        ws, at = scn
        X, Y = self.X, self.Y
        E = [['text', 60, 60, 'above the table'], ['text', 60, 215, 'below it']]
        for x, w in zip(X, ws[:3]):
            E.append(['line', x, Y[0], x, Y[-1], {'width': w}])
        for y, w in zip(Y, ws[3:]):
            E.append(['line', X[0], y, X[-1], y, {'width': w}])
        for r in range(2):
            for c in range(2):
                s = f'w{r}{c} x{r}{c}'
                free = X[c + 1] - X[c] - text_width(s) - 16
                E.append(['text', X[c] + 8 + free * at / 2, Y[r] + 24, s])
        return {'size': [400, 300], 'els': E}

    def check(self, scn, obs):
        return positions(self.page(scn), obs, tabs=[[self.X[0], self.Y[0], self.X[-1], self.Y[-1]]])


class Columns(PageFamily):
    name = 'columns'
    batch = 12
    bounds = ('every pair of stacks of up to 2 of 7 items side by side, starting at the same height or not, with or without '
              'a heading across both')
    kinds = ['line', 'para', 'indent', 'img', 'table', 'box', 'big']

    def scenarios(self, tier):
        n = range(len(self.kinds))
        stacks = [[i] for i in n] + [[i, j] for i in n for j in n]
        for k, (a, b) in enumerate(itertools.product(stacks, repeat=2)):
            for head in (0, 1):
                for off in (0, 7):
                    if tier == 'quick' and len(a) + len(b) > 2 and (k * 5 + head + off) % 8:
                        continue
                    if tier == 'quick' and len(a) + len(b) == 2 and (k + head + off) % 2:
                        continue
                    yield [a, b, head, off]

    def build(self, scn):
        a, b, head, off = scn
        els, pics, tabs = [], [], []
        top = 50
        if head:
            els.append(['text', L, top, 'hh1 heading across both of the columns over the whole width of the page here hh2'])
            top += 30
        bottom = 0
        for x, stack, n, y in ((0, a, 0, top), (310, b, 4, top + off)):
            for i, k in enumerate(stack):
                e, h, p, t = item(self.kinds[k], n + i, y)
                for el in e:
                    el[1] += x
                    if el[0] != 'text':
                        el[3] += x
                els += e
                pics += [[q[0] + x, q[1], q[2] + x, q[3]] for q in p]
                tabs += [[q[0] + x, q[1], q[2] + x, q[3]] for q in t]
                y += h + 20
            bottom = max(bottom, y)
        return {'size': [640, bottom + 70], 'els': els}, pics, tabs

    def page(self, scn):
        return self.build(scn)[0]

    def check(self, scn, obs):
        page, pics, tabs = self.build(scn)
        return positions(page, obs, pics=pics, tabs=tabs)



class Shapes(PageFamily):
    name = 'paragraph shapes'
    batch = 16
    bounds = ('paragraphs of 2 or 3 rows (thorough also 4), each row at one of 3 left edges and of one of 3 lengths, alone '
              'on the page or below a row over the whole width, at 2 row distances, as text objects of their own or as one')
    texts = ['short {0}', 'row {0} of medium length', 'this is row {0} of the greatest length here']

    def scenarios(self, tier):
        rows = list(itertools.product(range(3), repeat=2))
        for n in (2, 3) if tier == 'quick' else (2, 3, 4):
            for k, p in enumerate(itertools.product(range(9), repeat=n)):
                for wide in (0, 1):
                    for pitch in (14, 17):
                        if n == 3 and tier == 'quick' and (k + wide + pitch) % 2:
                            continue
                        if n == 4 and (k + 2 * wide + pitch) % 4:
                            continue
                        yield [[list(rows[i]) for i in p], wide, pitch, 0]
                        if n > 2 or wide:
                            yield [[list(rows[i]) for i in p], wide, pitch, 1]

    def page(self, scn, apart=False):
        rows, wide, pitch, one = scn
        els, y = [], 60
        if wide:
            els.append(['text', L, y, 'hh1 the heading above that goes over the whole of the width hh2'])
            y += 40
        for i, (x, n) in enumerate(rows):
            t = chr(97 + i)
            els.append(['text', L + 25 * x, y + pitch * i, f'{t}1 ' + self.texts[n].format(t) + f' {t}2'])
        if one and not apart:
            k = len(els) - len(rows)
            els[k:] = [['show', [['Tf', 11]] + [o for e in els[k:] for o in (['at', *e[1:3]], ['Tj', e[3]])]]]
        return {'size': [450, y + 160], 'els': els}

    def check(self, scn, obs):
        return positions(self.page(scn, True), obs)


class TurnedPieces(PageFamily):
    name = 'turned pieces'
    batch = 16
    bounds = ('1 to 3 rows of text going upwards in a cell of a ruled table, made of 1 to 3 pieces with gaps of 3, 15 or 40 pt, drawn as '
              'objects of their own or as one, upwards or downwards; other text of '
              'the page: in the next cell, the same turned, none, or there and above and below')

    def scenarios(self, tier):
        rows = [list(g) for n in range(3) for g in itertools.product((3.06, 15, 40), repeat=n)]
        k = 0
        for n in (1, 2, 3):
            for p in itertools.product(range(len(rows)), repeat=n):
                for one in (0, 1):
                    for back in (0, 1):
                        for other in range(4):
                            k += 1
                            if n > 1 and k % ((3, 61)[n - 2] if tier == 'quick' else (1, 11)[n - 2]):
                                continue
                            yield [[rows[i] for i in p], one, back, other]

    def page(self, scn, apart=False):
        rows, one, back, other = scn
        X, Y = [60, 180, 300], [60, 350, 380]
        els = [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 1}] for x in X]
        els += [[['text', 200, 90, 'k1 other cell k2']], [['text', 220, 200, 'k1 other cell k2', {'dir': 'bt'}]], [],
                [['text', 60, 30, 'k1 text above k2'], ['text', 60, 410, 'k3 text below k4'],
                 ['text', 210, 320, 'k5 other', {'dir': 'bt'}], ['text', 225, 320, 'k6 cell', {'dir': 'bt'}]]][other]
        t = []
        for i, gaps in enumerate(rows):
            y = 330
            for j in range(len(gaps) + 1):
                s = f'{"abc"[i]}{j}a pp {"abc"[i]}{j}z'
                t.append(['text', 100 + 15 * i, y, s, {'dir': 'bt'}])
                y -= text_width(s) + (gaps[j] if j < len(gaps) else 0)
        if back:
            t = t[::-1]
        if one and not apart:
            t = [['show', [['Tf', 11]] + [o for e in t for o in (['at', e[1], e[2], (0, 1, -1, 0)], ['Tj', e[3]])]]]
        return {'size': [380, 430], 'els': els + t}

    def check(self, scn, obs):
        return positions(self.page(scn, True), obs, tol_x=2.0, tol_y=2.0)


class Lists(PageFamily):
    name = 'lists'
    batch = 16
    bounds = ('lists of 1 to 3 items, each with a sign (bullet, number, letter) 4, 10 or 20 pt ahead of 1 or 2 rows of text, of level 0 '
              'or 1, alone or between paragraphs, the signs drawn with the rows or on their own, at 2 row distances')
    SIGN = ['\xb7', '{}.', '({})']

    def scenarios(self, tier):
        items = list(itertools.product((1, 2), (0, 1)))
        k = 0
        for n in (1, 2, 3):
            for p in itertools.product(range(4), repeat=n):
                for sign in range(3):
                    for gap in (4, 10, 20):
                        for how in range(3):
                            for ctx in (0, 1):
                                for pitch in (14, 17):
                                    k += 1
                                    if n > 1 and k % ((5, 23) if tier == 'quick' else (1, 3))[n - 2]:
                                        continue
                                    yield [[list(items[i]) for i in p], sign, gap, how, ctx, pitch]

    def page(self, scn, apart=False):
        items, sign, gap, how, ctx, pitch = scn
        els, y = [], 60
        if ctx:
            els.append(['text', L, y, 'hh1 the heading above that goes over the whole of the width hh2'])
            y += 20
        for i, (rows, level) in enumerate(items):
            x = L + 30 * level
            s = self.SIGN[sign].format('123'[i])
            left = x + text_width(s) + gap
            t = 'abc'[i]
            lines = [['text', left, y + pitch * r, f'{t}{r}a text of the item that {t}{r}z'] for r in range(rows)]
            lines.insert(0, ['text', x, y, s])
            y += pitch * rows
            if apart or how == 0:
                els += lines
            else:
                ops = [o for e in lines for o in (['at', *e[1:3]], ['Tj', e[3]])]
                els += [['show', [['Tf', 11]] + ops]] if how == 1 else [['show', [['Tf', 11]] + ops[:2]], ['show', [['Tf', 11]] + ops[2:]]]
        if ctx:
            els.append(['text', L, y + 6, 'ff1 the text below that goes over the whole of the width too ff2'])
        return {'size': [450, y + 160], 'els': els}

    def check(self, scn, obs):
        return positions(self.page(scn, True), obs, tol_x=2.0)


class Arranged(PageFamily):
    name = 'arrangements'
    batch = 12
    bounds = ('every pair and triple (quick: some triples) of 6 kinds of things (row, paragraph, large row, picture, ruled table, shaded box) '
              'beside, above and diagonally to each other, not overlapping, at 4 x 8 x 5 relative places; thorough: pairs also at 20 x 31 places')
    THINGS = ['line', 'para', 'big', 'img', 'table', 'box']
    WIDTH = {'line': 95, 'para': 215, 'big': 110, 'img': 60, 'table': 120, 'box': 200}

    def thing(self, kind, i, x, y):
        e, h, p, t = item(kind, i, y)
        if kind == 'para':  # rows that begin with a long word: no room for it in the row above
            for el in e[1:]:
                el[3] = el[3].replace(' ', '-', 2)
        d = x - L
        for el in e:
            el[1] += d
            if el[0] != 'text':
                el[3] += d
        p, t = ([[a + d, b, c + d, f] for a, b, c, f in q] for q in (p, t))
        w = max([text_width(el[3], el[4].get('size', 11) if len(el) > 4 else 11) + el[1] - x for el in e if el[0] == 'text'] + [self.WIDTH[kind] if kind in ('img', 'table', 'box') else 0])
        return e, [x, y, x + w, y + h], p, t

    def scenarios(self, tier):
        k = len(self.THINGS)
        for a in range(k):
            for b in range(k):
                for dx in (0, 70, 140, 245):
                    for dy in (-50, -30, -16, 0, 9, 22, 40, 60):
                        s = [[a, L, 120], [b, L + dx, 120 + dy]]
                        if self.build(s):
                            yield s
                            for c in range(k):
                                for dx2, dy2 in ((-70, 50), (0, 70), (70, 30), (140, 70), (245, -20)):
                                    t = s + [[c, L + dx + dx2, 120 + dy + dy2]]
                                    if t[2][1] >= L and self.build(t) and (tier != 'quick' or dy in (0, 22) and c in (0, 3, 5)):
                                        yield t
                if tier != 'quick':
                    for dx in range(0, 260, 13):
                        for dy in range(-60, 61, 4):
                            s = [[a, L, 120], [b, L + dx, 120 + dy]]
                            if self.build(s, 24, 8):
                                yield s

    def build(self, scn, gx=4, gy=4):
        els, boxes, pics, tabs = [], [], [], []
        for i, (k, x, y) in enumerate(scn):
            e, box, p, t = self.thing(self.THINGS[k], i, x, y)
            for o in boxes:
                if box[0] < o[2] + gx and o[0] < box[2] + gx and box[1] < o[3] + gy and o[1] < box[3] + gy:
                    return None
            boxes.append(box)
            els += e
            pics += p
            tabs += t
        return {'size': [820, 320], 'els': els}, pics, tabs

    def page(self, scn):
        return self.build(scn)[0]

    def check(self, scn, obs):
        page, pics, tabs = self.build(scn)
        return positions(page, obs, tol_x=2.0, tol_y=2.0, pics=pics, tabs=tabs, low=2.0)


class Justified(PageFamily):
    name = 'justified'
    batch = 16
    bounds = ('1 or 2 paragraphs of 3 to 5 rows filled up to the right side, first row set in, ahead or neither, last row of 3 '
              'lengths, 2 widths, 2 sizes of text, 2 row distances, alone or below a heading, as text objects or as one')
    words = 'the rows of this paragraph go on from side to side and so they all end at one place but for the last of them'.split()

    def scenarios(self, tier):
        k = 0
        for paras in (1, 2):
            for ind in (-20, 0, 20):
                for n in (3, 4, 5):
                    for last in range(3):
                        for w in (220, 330):
                            for size in (9, 11):
                                for pitch in (1.25, 1.6):
                                    for head in (0, 1):
                                        for one in (0, 1):
                                            k += 1
                                            if tier == 'quick' and k % 4 != k // 16 % 4:
                                                continue
                                            yield [paras, ind, n, last, w, size, pitch, head, one]

    def page(self, scn, apart=False):
        paras, ind, n, last, w, size, pitch, head, one = scn
        x0, y, els, k = L + 20, 60, [], 0
        if head:
            els.append(['text', L, y, 'hh1 the heading above that goes over the whole of the width hh2'])
            y += 40
        for q in range(paras):
            rows = []
            for i in range(n):
                t = f'{"abcdefgh"[q * 2]}{i}'
                left = x0 + (ind if i == 0 else 0)
                room = w - (left - x0)
                if i == n - 1:
                    room *= (0.3, 0.6, 0.93)[last]
                s, e = [t + 'a'], t + 'z'
                while True:
                    u = self.words[k % len(self.words)]
                    if text_width(' '.join(s + [u, e]), size) > room:
                        break
                    s.append(u)
                    k += 1
                for c in 'mnl':     # hardly any space is left
                    while text_width(' '.join(s + [e]) + c, size) <= room:
                        s[-1] += c
                s = ' '.join(s + [e])
                tw = (room - text_width(s, size)) / s.count(' ') if i < n - 1 else 0
                if apart:
                    rows.append(['text', left, y, s, {'size': size}])
                else:
                    rows.append([['Tf', size], ['Tw', tw], ['at', left, y], ['Tj', s]])
                y += pitch * size
            els += rows if apart else [['show', sum(rows, [])]] if one else [['show', r] for r in rows]
            y += 1.2 * size
        return {'size': [max(x0 + w + 60, 420), y + 120], 'els': els}

    def check(self, scn, obs):
        page = self.page(scn, True)
        for e in page['els']:
            w = e[3].split()
            e[3] = w[0]
        return positions(page, obs, tol_x=2.6)


class TurnedOver(PageFamily):
    name = 'turned over cells'
    batch = 16
    bounds = ('text going upwards over the borders of 3 cells above each other, of ruled columns of 3 widths, which begins at every 3 pt '
              'and is of 3 lengths, one row of it or two; beside it other such text, horizontal text, or none: every piece is '
              'put out turned, and no character is lost')
    TEXT = 'words going upwards over the cells'

    def scenarios(self, tier):
        k = 0
        for w in (20, 40, 90):
            for y in range(105, 293, 3):
                for cut in (34, 24, 12):
                    for two in (0, 1) if w > 20 else (0,):
                        for other in range(3):
                            k += 1
                            if y - text_width(self.TEXT[:cut]) > 65 and (tier != 'quick' or k % 3 == k // 60 % 3):
                                yield [w, y, cut, two, other]

    def page(self, scn):
        w, y, cut, two, other = scn
        X, Y = [50, 50 + w, 200], [60, 120, 210, 300]
        els = [['line', X[0], b, X[-1], b, {'width': 1}] for b in Y] + [['line', a, Y[0], a, Y[-1], {'width': 1}] for a in X]
        els += [['text', 64 + 15 * i, y + 4 * i, self.TEXT[:cut].strip(), {'dir': 'bt'}] for i in range(1 + two)]
        if other == 1:
            els += [['text', 160, b + 20, 'flat'] for b in Y[:-1]]
        elif other == 2:
            els += [['text', 160, 280, self.TEXT.upper(), {'dir': 'bt'}]]
        return {'size': [300, 340], 'els': els}

    def check(self, scn, obs):
        v, got = [], collections.Counter()
        R = render(obs)
        for w in R['words']:
            if w['w'] == 'flat':
                if w['up']:
                    v.append('flat is turned')
            elif not w['up']:
                v.append(f'{w["w"]} is put out horizontally')
            got.update(w['w'])
        want = collections.Counter(''.join(e[3] for e in self.page(scn)['els'] if e[0] == 'text').replace(' ', ''))
        if got != want:
            v.append(f'characters {sorted((got - want).elements())} too many, {sorted((want - got).elements())} missing')
        return v, [(w['w'], w['up']) for w in R['words']]


class Turned(PageFamily):
    name = 'turned rows'
    batch = 16
    bounds = ('1 to 3 rows of text going upwards in a cell of a ruled table, each beginning at one of 3 heights and of one of 3 '
              'lengths, or with a common middle or upper end, as one text object or several')
    texts = ['{0}1 {0}2', '{0}1 row {0}2', '{0}1 longest row here {0}2']

    def scenarios(self, tier):
        rows = list(itertools.product(range(3), repeat=2))
        k = 0
        for n in (1, 2, 3):
            for p in itertools.product(range(9), repeat=n):
                for one in (0, 1):
                    k += 1
                    if n == 3 and k % (5 if tier == 'quick' else 1):
                        continue
                    yield ['free', [list(rows[i]) for i in p], one]
            for how in ('middle', 'end'):
                for p in itertools.product(range(3), repeat=n):
                    for off in (-25, 0, 25):
                        yield [how, [[off, i] for i in p], 1]

    def page(self, scn, apart=False):
        how, rows, one = scn
        X, Y = [60, 180, 300], [60, 240, 280]
        els = [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 1}] for x in X]
        els += [['text', 200, 90, 'k1 other cell k2']]
        t = []
        for i, (a, n) in enumerate(rows):
            s = self.texts[n].format('abc'[i])
            w = text_width(s)
            y = {'free': 225 - 20 * a, 'middle': 150 + a + w / 2, 'end': 95 + a + w}[how]
            t.append(['text', 100 + 15 * i, y, s, {'dir': 'bt'}])
        if one and not apart:
            t = [['show', [['Tf', 11]] + [o for e in t for o in (['at', e[1], e[2], (0, 1, -1, 0)], ['Tj', e[3]])]]]
        return {'size': [380, 340], 'els': els + t}

    def check(self, scn, obs):
        return positions(self.page(scn, True), obs, tol_x=2.0, tol_y=2.0)


class Centered(PageFamily):
    name = 'centered'
    batch = 16
    bounds = ('paragraphs of 1 to 4 rows whose middles are the same, -90 to 90 pt off the middle of the page or cell, in 3 '
              'orders of lengths, on a page with rows over the whole width or in a cell of a ruled table')
    texts = ['{0}1 short {0}2', '{0}1 a row of medium {0}2', '{0}1 this row is the longest {0}2', '{0}1 and one more {0}2']

    def scenarios(self, tier):
        for n in (1, 2, 3, 4):
            for k in range(4):
                for off in (-90, -70, -40, -20, -8, -4, 0, 4, 8, 20, 40, 70, 90):
                    for where in ('page', 'cell', 'left cell'):
                        if abs(off) > {'page': 130, 'cell': 40, 'left cell': 20}[where]:
                            continue
                        for pitch in (14, 18) if tier != 'quick' else (14,):
                            yield [n, k, off, where, pitch]

    def page(self, scn, apart=False):
        n, k, off, where, pitch = scn
        mid = {'page': 200, 'cell': 200, 'left cell': 170}[where] + off
        els = []
        for i in range(n):
            t = self.texts[(i + k) % 4].format('abcd'[i])
            els.append(['text', mid - text_width(t, 10) / 2, 100 + pitch * i, t, {'size': 10}])
        if not apart:       # one text object, so that it is one block, wherever the rows begin
            els = [['show', [['Tf', 10]] + [o for e in els for o in (['at', *e[1:3]], ['Tj', e[3]])]]]
        if where == 'page':
            els = [['text', 30, 60, 'h1 this is a row that goes over nearly all of the width of this wide page h2']] + els + \
                  [['text', 30, 200, 't1 this is a row that goes over nearly all of the width of this wide page t2']]
        else:
            X = [60, 340] if where == 'cell' else [60, 280, 340]
            Y = [80, 180]
            els += [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[1], {'width': 1}] for x in X]
        return {'size': [400, 260], 'els': els}

    def check(self, scn, obs):
        return positions(self.page(scn, True), obs, tol_x=2.0)


class Blanks(PageFamily):
    name = 'blanks'
    batch = 16
    bounds = ('paragraphs of 1 to 3 rows to the left, to the right or in the middle, with 0 to 6 blanks before and behind each '
              'row, alone or between other rows; a blank may be kept, so words may be one blank off')
    texts = ['{0}1 first row {0}2', '{0}3 the second one, longer {0}4', '{0}5 row three {0}6']

    def scenarios(self, tier):
        ends = [(0, 0), (0, 1), (0, 2), (0, 6), (1, 0), (2, 0), (6, 0), (2, 2), (6, 3)]
        for jc in range(3):
            for n in (1, 2, 3):
                for e in itertools.product(ends, repeat=n):
                    for c in (0, 1):
                        k = sum(3 * a + b for a, b in e) + c
                        if n == 3 and (k % 5 and tier == 'quick' or k % 2):
                            continue
                        yield [jc, c, [list(x) for x in e]]

    def page(self, scn):
        jc, c, ends = scn
        els = []
        if c:
            els.append(['text', L, 60, 'h1 a row above it that goes over all of the width of this page h2'])
        for i, (a, b) in enumerate(ends):
            t = self.texts[i].format('r')
            w = text_width(t)
            x = [L + 30, L + W - w, L + (W - w) / 2][jc]
            els.append(['text', x - text_width(' ' * a), 100 + 14 * i, ' ' * a + t + ' ' * b])
        if c:
            els.append(['text', L, 190, 't1 a row below it that goes over all of the width of this page t2'])
        return {'size': [420, 300], 'els': els}

    def check(self, scn, obs):
        page = self.page(scn)
        for e in page['els']:
            s = e[3].lstrip()
            e[1] += text_width(' ' * (len(e[3]) - len(s)))
            e[3] = s.rstrip()
        return positions(page, obs, tol_x=1.5 + text_width(' '))


class Unnamed(PageFamily):
    name = 'unnamed fonts'
    batch = 16
    bounds = ('rows in a font without name, of boxes, narrower and wider than Arial, in 3 sizes: a row of one to three words, '
              'as one or several pieces, alone, above, below and beside other text, or in a paragraph of 3 rows: the words '
              'in Arial, no wider than drawn and no larger, where they are drawn')
    WORDS = ['xone', 'xtwo', 'xthree']

    def scenarios(self, tier):
        for adv in (0.3, 0.45, 0.55, 0.7, 1.0):
            for size in (8, 12, 20):
                for n in (1, 2, 3):
                    for how in (0, 1):
                        for c in ('alone', 'above', 'below', 'both', 'beside', 'rows', 'cell'):
                            if how and n == 1:
                                continue
                            yield [adv, size, n, how, c]

    def page(self, scn):
        adv, size, n, how, c = scn
        o = {'base': '', 'type': 'Type3', 'advance': adv}
        y, els = 100, []
        for r in range(3 if c == 'rows' else 1):
            words = [w + 'abc'[r] for w in self.WORDS[:n]]
            ops, x = [['Tf', size], ['at', 60, y + 1.4 * size * r]], 60
            for i, w in enumerate(words):
                t = w if i == n - 1 else w + ' '
                if how:
                    ops += [['at', x, y + 1.4 * size * r], ['Tj', t]]
                else:
                    ops.append(['Tj', t])
                x += len(t) * adv * size
            els.append(['show', ops, o])
        if c in ('above', 'both'):
            els.insert(0, ['text', 60, y - 1.5 * size - 8, 'over it all', {'size': size}])
        if c in ('below', 'both'):
            els.append(['text', 60, y + 1.5 * size + 8, 'under it all', {'size': size}])
        if c == 'beside':
            els.append(['text', x + 30, y, 'beside', {'size': size}])
        if c == 'cell':
            els += [['rect', 50, y - size - 10, 560, y + size + 10, {'color': 0, 'width': 1}]]
        return {'size': [600, 300], 'els': els}

    def check(self, scn, obs):
        adv, size, n, how, c = scn
        R = render(obs)
        got = {w['w']: w for w in R['words']}
        v, y = [], 100
        rows = 3 if c == 'rows' else 1
        for r in range(rows):
            x = 60
            for w in self.WORDS[:n]:
                w += 'abc'[r]
                if w not in got:
                    return [f'{w} is nowhere: {sorted(got)}'], None
                g = got[w]['rect']
                base = g[3] - 0.299 * size
                # the words of one piece come closer together
                if r:       # rows of a paragraph may be broken at other places
                    continue
                if abs(g[0] - x) > 1.5 and x == 60:
                    v.append(f'{w} at {g[0]:.1f}, drawn at {x:.1f}')
                if abs(base - y - 1.4 * size * r) > 0.3 * size + 0.5:
                    v.append(f'base line of {w} at {base:.1f}, drawn at {y + 1.4 * size * r:.1f}')
                if w[:-1] == self.WORDS[n - 1] and g[2] > x + len(w) * adv * size + 1.5:
                    v.append(f'{w} up to {g[2]:.1f}, drawn up to {x + len(w) * adv * size:.1f}')
                x += (len(w) + 1) * adv * size
        for b in paragraphs(obs['blocks']):
            for run in b['runs']:
                if 'x' in run['text'] and 'beside' not in run['text']:
                    if run['st'].get('font') != 'Arial':
                        v.append(f'{run["text"]!r} in {run["st"].get("font")}')
                    full = text_width(run['text'], size)
                    exp = min(size, size * len(run['text']) * adv * size / full)
                    if abs(run['st'].get('size', 0) * run['st'].get('scale', 100) / 100 - exp) > 0.03 * exp + 0.01:
                        v.append(f'{run["text"]!r} in {run["st"].get("size")}, expected {exp:.2f}')
        for w in [e[3] for e in self.page(scn)['els'] if e[0] == 'text']:
            x, yy = [e[1:3] for e in self.page(scn)['els'] if e[0] == 'text' and e[3] == w][0]
            g = got.get(w.split()[0])
            if g is None or abs(g['rect'][0] - x) > 1.5 or abs(g['rect'][3] - 0.299 * size - yy) > (1.5 if c != 'beside' else 0.3 * size):
                v.append(f'{w} at {g and g["rect"]}, drawn at {x}, {yy:.1f}')
        if len(R['words']) != rows * n + sum(len(e[3].split()) for e in self.page(scn)['els'] if e[0] == 'text'):
            v.append(f'words {[w["w"] for w in R["words"]]}')
        return v[:3], [(w['w'], [round(x, 1) for x in w['rect']]) for w in R['words']]


def families():
    return [Stacks(), Rotated(), Columns(), Shapes(), Places(), Cells(), Unequal(), Unnamed(), Blanks(), Centered(), Turned(), TurnedOver(), TurnedPieces(), Lists(), Arranged(), Justified()]
