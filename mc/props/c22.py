"""C22  Cells have the border widths, border colours and shading drawn."""
import itertools
from ..pages import PageFamily
from ..docxobs import table_regions
from ..env import fitz
from ..pdfgen import draw_page
from ..tiling import tilings, reduced, edges
from .c10 import coords, all_tables, compare_structure, WIDTHS, HEIGHTS, X0, Y0

LEVEL = 'model_checking'
SIDES = ('top', 'bottom', 'start', 'end')


def near(a, b):
    """colours, up to rounding"""
    return a is not None and b is not None and all(abs((a >> s & 255) - (b >> s & 255)) <= 1 for s in (0, 8, 16))


def line_runs(tiles, rows, cols):
    """straight strokes of the tiling with the grid line they lie on: [('h'|'v', line, from, to)]"""
    h, v = edges(tiles)
    out = []
    for kind, es, n in (('h', h, cols), ('v', {(x, y) for y, x in v}, rows)):
        for line in sorted({a for a, _ in es}):
            k = sorted(b for a, b in es if a == line)
            i = 0
            while i < len(k):
                j = i
                while j + 1 < len(k) and k[j + 1] == k[j] + 1:
                    j += 1
                out.append((kind, line, k[i], k[j] + 1))
                i = j + 1
    return out


class Style(PageFamily):
    """cells(scn) -> tiles, shape, {line: (width, colour)}, [fill per cell]"""
    batch = 12

    def spec(self, scn):
        raise NotImplementedError

    def empty(self, scn):
        """cells without text"""
        return ()

    def geo(self, scn):
        r, c = self.spec(scn)[:2]
        return coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)

    def page(self, scn):
        r, c, tiles, lines, fills, how = self.spec(scn)
        X, Y = self.geo(scn)
        els = []
        for (tr, tc, a, b), f in zip(tiles, fills):
            if f is not None:
                els.append(['rect', X[tc], Y[tr], X[tc + b], Y[tr + a], {'fill': f, 'color': None}])
        for kind, line, i, j in line_runs(tiles, r, c):
            w, col = lines[kind, line]
            if w is None:
                continue
            seg = (X[i], Y[line], X[j], Y[line]) if kind == 'h' else (X[line], Y[i], X[line], Y[j])
            if how == 'fills':
                d = w / 2
                if kind == 'h':
                    seg = (seg[0] - d, seg[1] - d, seg[2] + d, seg[3] + d)
                else:
                    seg = (seg[0] - d, seg[1] - d, seg[2] + d, seg[3] + d)
                els.append(['rect', *seg, {'fill': col, 'color': None}])
            else:
                els.append(['line', *seg, {'width': w, 'color': col}])
        for i, (tr, tc, a, b) in enumerate(tiles):
            if X[tc + b] - X[tc] > 20 and Y[tr + a] - Y[tr] > 18 and i not in self.empty(scn):
                els.append(['text', X[tc] + 6, Y[tr] + 16, f'c{i}'])
        return {'size': [420, 300], 'els': els + [['text', X0, 40, 'before the table']]}

    times = (1,)    # accepted multiples of the width of a line

    def check(self, scn, obs):
        r, c, tiles, lines, fills, how = self.spec(scn)
        X, Y = self.geo(scn)
        # a table of shading only has no borders in the docx
        t = all_tables(obs['blocks']) or [b for b in obs['blocks'] if b['kind'] == 'tbl']
        if len(t) != 1:
            return [f'{len(t)} tables, drawn: 1'], len(t)
        v = compare_structure(t[0], tiles, X, Y, 1.25)
        if v:
            return v, None
        regs = {x[:4]: x[4] for x in table_regions(t[0])}
        want, rs, cs = reduced(tiles)
        got = []
        for (tr, tc, a, b), key, f in zip(tiles, want, fills):
            cell = regs[key]
            if not (cell.get('fill') is None if f is None else near(cell.get('fill'), f)):
                v.append(f'cell {key[:2]} has shading {cell.get("fill")}, drawn: {f}')
            got.append(cell.get('fill'))
            for side, line in zip(SIDES, (('h', tr), ('h', tr + a), ('v', tc), ('v', tc + b))):
                w, col = lines[line]
                g = cell['borders'].get(side)
                got.append(g)
                if w is None:
                    if g and g[0] and g[2] not in ('nil', 'none'):
                        v.append(f'cell {key[:2]} has {side} border {g}, drawn: none')
                elif not g or min(abs(g[0] - n * w) for n in self.times) > 0.13 or not near(g[1], col) or g[2] in ('nil', 'none'):
                    v.append(f'cell {key[:2]} has {side} border {g}, drawn: {w} {col:06x}')
        return v, got


COLORS = [0x000000, 0xff0000, 0x0000ff, 0x00aa55, 0x888888, 0xffffff]
FILLS = [None, 0xffee00, 0x000000, 0x88ccee, 0xdddddd, 0x112233]


class Borders(Style):
    name = 'borders'
    bounds = ('2x2 cells cut in every way, each of the grid lines with a style of 3 (thorough 4) - black 1 pt, red 0.5 pt, '
              'blue 3 pt, grey 2 pt - in every combination, drawn as strokes or thin rectangles')
    styles = [(1.0, 0), (0.5, 0xff0000), (3.0, 0x0000ff), (2.0, 0x808080)]

    def scenarios(self, tier):
        n = 3 if tier == 'quick' else 4
        for k in range(len(tilings(2, 2))):
            for st in itertools.product(range(n), repeat=6):
                if tier == 'quick' and (sum(st) + k) % 3:
                    continue
                yield [k, list(st), ('strokes', 'fills')[(sum(st) // 3 + k) % 2]]
                if tier != 'quick' and k == 0:
                    yield [k, list(st), ('fills', 'strokes')[(sum(st) // 3 + k) % 2]]

    def spec(self, scn):
        k, st, how = scn
        keys = [('h', 0), ('h', 1), ('h', 2), ('v', 0), ('v', 1), ('v', 2)]
        lines = {key: self.styles[s] for key, s in zip(keys, st)}
        tiles = tilings(2, 2)[k]
        return 2, 2, tiles, lines, [None] * len(tiles), how


class Narrow(Style):
    name = 'narrow'
    bounds = ('2x2, 2x3 and 3x2 cells cut in every way, one or two of the columns and rows only 7, 9 or 12 pt wide or high, border widths '
              '0.5..1.5 pt of two colours, drawn as strokes or thin rectangles, cells shaded or not')

    def scenarios(self, tier):
        n = 0
        for r, c in ((2, 2), (2, 3), (3, 2)):
            for k in range(len(tilings(r, c))):
                for m in range(1, 2 ** (r + c)):
                    if bin(m).count('1') > 2:
                        continue
                    for d in (7, 9, 12):
                        for st in range(3):
                            for how in ('strokes', 'fills'):
                                n += 1
                                if tier == 'quick' and (n + n // 18) % 7:
                                    continue
                                yield [r, c, k, m, d, st, how]

    def geo(self, scn):
        r, c, k, m, d, st, how = scn
        w = [d if m >> i & 1 else x for i, x in enumerate(WIDTHS[:c])]
        h = [d if m >> (c + i) & 1 else x for i, x in enumerate(HEIGHTS[:r])]
        return coords(w, X0), coords(h, Y0)

    def spec(self, scn):
        r, c, k, m, d, st, how = scn
        tiles = tilings(r, c)[k]
        style = [lambda i: (1.0, 0), lambda i: ((0.5, 1.5)[i % 2], 0x0000ff), lambda i: (0.5, (0, 0xff0000)[i % 2])][st]
        lines = {(t, i): style(i + (t == 'v')) for t, n in (('h', r + 1), ('v', c + 1)) for i in range(n)}
        return r, c, tiles, lines, [(None, 0xffee00)[(i + k) % 2] if st == 1 else None for i in range(len(tiles))], how


class Shading(Style):
    name = 'shading'
    bounds = ('2x2, 1x3 and 3x1 cells cut in every way, each cell unshaded or in one of 2 (thorough 5) colours, black among them, in every '
              'combination, with borders of 3 kinds')

    def scenarios(self, tier):
        n = 3 if tier == 'quick' else 6
        for r, c in ((2, 2), (1, 3), (3, 1), (2, 3)):
            for k, t in enumerate(tilings(r, c)):
                if r * c == 6 and tier == 'quick' and k % 4:
                    continue
                for f in itertools.product(range(n if r * c < 6 else 3), repeat=len(t)):
                    if tier == 'quick' and r * c == 6 and sum(f) % 3:
                        continue
                    for b in (0, 1, 2):
                        yield [r, c, k, list(f), b]

    def spec(self, scn):
        r, c, k, f, b = scn
        st = [(1.0, 0), (2.0, 0xff0000), (0.5, 0x999999)][b]
        lines = {('h', i): st for i in range(r + 1)}
        lines.update({('v', i): st for i in range(c + 1)})
        return r, c, tilings(r, c)[k], lines, [FILLS[i] for i in f], 'strokes'


class Empty(Shading):
    name = 'empty shaded cells'
    bounds = ('2x2, 1x3 and 3x1 (thorough: 2x3) cells cut in every way, each cell unshaded or in one of 2 colours, in every combination, '
              'with and without text in every combination, with borders of 3 kinds')

    def scenarios(self, tier):
        n = 0
        for r, c in ((2, 2), (1, 3), (3, 1)) + (((2, 3),) if tier != 'quick' else ()):
            for k, t in enumerate(tilings(r, c)):
                for f in itertools.product(range(3) if r * c < 6 else (0, 1), repeat=len(t)):
                    for m in range(1, 2 ** len(t)):
                        for b in (0, 1, 2):
                            n += 1
                            if n % 3 == 0:
                                yield [r, c, k, list(f), b, m]

    def empty(self, scn):
        return [i for i in range(6) if scn[5] >> i & 1]

    def spec(self, scn):
        return Shading.spec(self, scn[:5])


class Open(Style):
    name = 'open'
    bounds = ('2x2 and 2x3 cells, where the outer border lines of every subset of the four sides are not drawn, all shaded '
              'in one or two colours or unshaded, inner lines in 2 styles')

    def scenarios(self, tier):
        for c in (2, 3):
            for m in range(16):
                for f in (0, 1, 2):
                    for st in (0, 1):
                        yield [c, m, f, st]

    def spec(self, scn):
        c, m, f, st = scn
        keys = [('h', 0), ('h', 2), ('v', 0), ('v', c), ('h', 1)] + [('v', i) for i in range(1, c)]
        lines = {k: ((None, None) if m >> i & 1 else [(1.0, 0), (2.0, 0xff0000)][st]) for i, k in enumerate(keys)}
        fills = [[None] * 6, [0x88ccee, 0xffee00] * 3, [0xdddddd] * 6][f][:2 * c]
        return 2, c, tilings(2, c)[0], lines, fills, 'strokes'


class ShadedOnly(Style):
    name = 'shading only'
    bounds = ('tables without any border: 1x2, 2x2, 2x3, 3x2 cells, every cell in one of 2 colours, in every combination with '
              'neighbours differing somewhere')

    def scenarios(self, tier):
        for r, c in ((1, 2), (2, 2), (2, 3), (3, 2)):
            for f in itertools.product((1, 2), repeat=r * c):
                yield [r, c, list(f)]

    def spec(self, scn):
        r, c, f = scn
        keys = [('h', i) for i in range(r + 1)] + [('v', i) for i in range(c + 1)]
        return r, c, tilings(r, c)[0], {k: (None, None) for k in keys}, [FILLS[i] for i in f], 'strokes'


class Inner(PageFamily):
    name = 'inner tables'
    batch = 12
    bounds = ('a ruled table (2x2 cells cut in every way) inside each cell of a 2x1, 1x2 or 2x2 table, or below it, the two with different widths and '
              'colours of borders, shaded or not: 5 styles of inner tables, 3 of outer ones')
    IN = [(1.0, 0, None), (0.5, 0xff0000, None), (2.0, 0x0000ff, None), (1.0, 0x00aa55, 0xffee00), (0.5, 0, 0x88ccee)]
    OUT = [(1.0, 0, None), (2.5, 0x808080, None), (1.0, 0xff0000, 0xdddddd)]
    SHAPES = [(2, 1), (1, 2), (2, 2)]

    def scenarios(self, tier):
        n = 0
        for s, (r, c) in enumerate(self.SHAPES):
            for cell in range(-1, r * c):
                for ki in range(len(tilings(2, 2))):
                    for i in range(len(self.IN)):
                        for o in range(len(self.OUT)):
                            n += 1
                            if tier == 'quick' and (n + n // 15) % 2:
                                continue
                            yield [s, cell, ki, i, o]

    def geo(self, scn):
        s, cell, ki, i, o = scn
        r, c = self.SHAPES[s]
        X, Y = coords([150, 170][:c], 60), coords([110, 120][:r], 60)
        x0, y0 = (X[cell % c] + 20, Y[cell // c] + 32) if cell >= 0 else (X[0], Y[-1] + 50)
        return X, Y, coords([50, 60], x0), coords([26, 30], y0)

    def page(self, scn):
        s, cell, ki, i, o = scn
        r, c = self.SHAPES[s]
        X, Y, x, y = self.geo(scn)
        els = []
        plain = [(a, b, 1, 1) for a in range(r) for b in range(c)]
        for tiles, A, B, (w, col, fill), t in ((plain, X, Y, self.OUT[o], 'o'), (tilings(2, 2)[ki], x, y, self.IN[i], 'i')):
            for tr, tc, a, b in tiles:
                if fill is not None:
                    els.append(['rect', A[tc], B[tr], A[tc + b], B[tr + a], {'fill': fill, 'color': None}])
            for kind, line, a, b in line_runs(tiles, len(B) - 1, len(A) - 1):
                seg = (A[a], B[line], A[b], B[line]) if kind == 'h' else (A[line], B[a], A[line], B[b])
                els.append(['line', *seg, {'width': w, 'color': col}])
            for j, (tr, tc, a, b) in enumerate(tiles):
                els.append(['text', A[tc] + 6, B[tr] + 16, f'{t}{j}'])
        if cell < 0:
            els.append(['text', X[0], Y[-1] + 30, 'text between the tables'])
        return {'size': [460, 460], 'els': els}

    def check(self, scn, obs):
        s, cell, ki, i, o = scn
        r, c = self.SHAPES[s]
        X, Y, x, y = self.geo(scn)
        t = all_tables(obs['blocks'])
        if len(t) != 2:
            return [f'{len(t)} tables, drawn: 2'], len(t)
        v, got = [], []
        plain = [(a, b, 1, 1) for a in range(r) for b in range(c)]
        for name, tbl, tiles, A, B, (w, col, fill) in (('outer', t[0], plain, X, Y, self.OUT[o]),
                                                       ('inner', t[1], tilings(2, 2)[ki], x, y, self.IN[i])):
            e = compare_structure(tbl, tiles, A, B, 1.5)
            if e:
                return [f'{name} table: {e[0]}'], None
            regs = {q[:4]: q[4] for q in table_regions(tbl)}
            for key in reduced(tiles)[0]:
                k = regs[key]
                got.append(k.get('fill'))
                if not (k.get('fill') is None if fill is None else near(k.get('fill'), fill)):
                    v.append(f'{name} table: cell {key[:2]} has shading {k.get("fill")}, drawn: {fill}')
                for side in SIDES:
                    g = k['borders'].get(side)
                    got.append(g)
                    if not g or abs(g[0] - w) > 0.13 or not near(g[1], col) or g[2] in ('nil', 'none'):
                        v.append(f'{name} table: cell {key[:2]} has {side} border {g}, drawn: {w} {col:06x}')
        return v[:4], got


class Segments(Style):
    name = 'segments'
    bounds = ('2x2 cells cut in every way, each piece of a grid line between two crossings with one of two styles - differing '
              'in colour, in width or in both; inner pieces in every combination, outer ones in 4 patterns (thorough: every '
              'combination); a side of a merged cell with pieces of different styles is left to the neighbours')
    styles = [[(1.0, 0xff0000), (1.0, 0x0000ff)], [(0.5, 0x00aa55), (3.0, 0x00aa55)], [(2.0, 0), (0.75, 0xff8800)]]

    @staticmethod
    def pieces(tiles):
        h, v = edges(tiles)
        return sorted(('h', y, x) for y, x in h) + sorted(('v', x, y) for y, x in v)

    def scenarios(self, tier):
        for k, t in enumerate(tilings(2, 2)):
            pcs = self.pieces(t)
            inner = [p for p in pcs if p[1] == 1]
            outer = [p for p in pcs if p[1] != 1]
            for kind in range(3):
                for st in itertools.product((0, 1), repeat=len(inner)):
                    pat = ([(0,) * 8, (1,) * 8, (0, 1) * 4, (1, 0) * 4] if tier == 'quick' else
                           itertools.product((0, 1), repeat=8))
                    for o in pat:
                        d = dict(zip(inner, st))
                        d.update(zip(outer, o))
                        yield [k, kind, [d[p] for p in pcs]]

    def page(self, scn):
        k, kind, st = scn
        tiles = tilings(2, 2)[k]
        X, Y = coords(WIDTHS[:2], X0), coords(HEIGHTS[:2], Y0)
        els = []
        for (d, line, i), s in zip(self.pieces(tiles), st):
            w, col = self.styles[kind][s]
            seg = (X[i], Y[line], X[i + 1], Y[line]) if d == 'h' else (X[line], Y[i], X[line], Y[i + 1])
            els.append(['line', *seg, {'width': w, 'color': col}])
        for i, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 6, Y[tr] + 16, f'c{i}'])
        return {'size': [420, 300], 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        k, kind, st = scn
        tiles = tilings(2, 2)[k]
        X, Y = coords(WIDTHS[:2], X0), coords(HEIGHTS[:2], Y0)
        style = {p: self.styles[kind][s] for p, s in zip(self.pieces(tiles), st)}
        t = all_tables(obs['blocks']) or [b for b in obs['blocks'] if b['kind'] == 'tbl']
        if len(t) != 1:
            return [f'{len(t)} tables, drawn: 1'], len(t)
        v = compare_structure(t[0], tiles, X, Y, 1.75)
        if v:
            return v, None
        regs = {x[:4]: x[4] for x in table_regions(t[0])}
        got = []
        for (tr, tc, a, b), key in zip(tiles, reduced(tiles)[0]):
            for side, ps in (('top', [('h', tr, j) for j in range(tc, tc + b)]),
                             ('bottom', [('h', tr + a, j) for j in range(tc, tc + b)]),
                             ('start', [('v', tc, i) for i in range(tr, tr + a)]),
                             ('end', [('v', tc + b, i) for i in range(tr, tr + a)])):
                g = regs[key]['borders'].get(side)
                if g and (not g[0] or g[2] in ('nil', 'none')):
                    g = None
                got.append(g)
                want = {style[p] for p in ps}
                if len(want) == 1:
                    w, col = want.pop()
                    if not g or abs(g[0] - w) > 0.13 or not near(g[1], col):
                        v.append(f'cell {key[:2]} has {side} border {g}, drawn: {w} {col:06x}')
                elif g:
                    v.append(f'cell {key[:2]} has {side} border {g} all along, drawn: {sorted(want)}')
        return v, got


class Operators(Style):
    name = 'operators'
    bounds = ('2x2 cells cut in every way, lines stroked or filled, cells filled as rectangles or polygons, by PDF operators '
              'with 4 ways to set a colour (RGB, gray, CMYK, named colour space), in a scaled space, in a form, clipped, '
              'even-odd filling, filled and stroked in one; 3 colours of lines, 4 patterns of fillings, 2 page rotations')
    OPT = [{}, {'space': 'cmyk'}, {'space': 'named'}, {'scale': 0.25}, {'form': True}, {'clip': True}, {'paint': 'f*'},
           {'space': 'gray'}]
    COL = [0, 0xcc3300, 0x0055aa]
    FILL = [(None,) * 4, (0xffee00, None, 0x88ccee, 0x00cc00), (0x88ccee,) * 4, (None, 0xdd2200, 0x000000, 0xffee00)]
    _SHOWN = {}

    @classmethod
    def shown(cls, c, space):
        """a colour as MuPDF renders it (with its colour profiles)"""
        if c is None or space not in ('gray', 'cmyk'):
            return c
        if (c, space) not in cls._SHOWN:
            doc = fitz.open()
            p = draw_page(doc, {'size': [20, 20], 'els': [['path', [['re', 0, 0, 20, 20]], {'fill': c, 'space': space}]]})
            r, g, b = p.get_pixmap(alpha=False).pixel(10, 10)
            cls._SHOWN[c, space] = r << 16 | g << 8 | b
        return cls._SHOWN[c, space]

    GRAY = {0xffee00: 0xdddddd, 0x88ccee: 0x999999, 0x00cc00: 0x555555, 0xdd2200: 0x222222, 0xcc3300: 0x333333,
            0x0055aa: 0x666666}

    def scenarios(self, tier):
        for k in range(len(tilings(2, 2))):
            for o in range(len(self.OPT)):
                for f in range(4):
                    for c in range(3):
                        for how in ('lines', 'fills', 'poly'):
                            for rot in (0, 90) if tier == 'quick' else (0, 90, 180, 270):
                                if tier == 'quick' and (k + o + f + c) % 3:
                                    continue
                                yield [k, o, f, c, how, rot]

    def spec(self, scn, drawing=False):
        k, o, f, c, how, rot = scn
        g = (lambda x: self.GRAY.get(x, x)) if self.OPT[o].get('space') == 'gray' else lambda x: x
        t = tilings(2, 2)[k]
        see = (lambda x: x) if drawing else lambda x: self.shown(x, self.OPT[o].get('space'))
        lines = {key: ((0.5, 1.0, 2.0)[(i + c) % 3], see(g(self.COL[(c + i) % 3]))) for i, key in
                 enumerate([('h', 0), ('h', 1), ('h', 2), ('v', 0), ('v', 1), ('v', 2)])}
        return 2, 2, t, lines, [see(g(x)) for x in self.FILL[f][:len(t)]], how

    def page(self, scn):
        k, o, f, c, how, rot = scn
        r, n, tiles, lines, fills, how = self.spec(scn, True)
        opt = self.OPT[o]
        line_opt = {key: x for key, x in opt.items() if key != 'paint' or how == 'fills'}
        X, Y = coords(WIDTHS[:2], X0), coords(HEIGHTS[:2], Y0)
        els = []
        for (tr, tc, a, b), fl in zip(tiles, fills):
            if fl is not None:
                x0, y0, x1, y1 = X[tc], Y[tr], X[tc + b], Y[tr + a]
                q = [['re', x0, y0, x1 - x0, y1 - y0]] if how != 'poly' else \
                    [['m', x1, y0], ['l', x0, y0], ['l', x0, y1], ['l', x1, y1], ['h']]
                els.append(['path', q, {**opt, 'fill': fl}])
        for kind, line, i, j in line_runs(tiles, 2, 2):
            w, col = lines[kind, line]
            a, b, e, g = (X[i], Y[line], X[j], Y[line]) if kind == 'h' else (X[line], Y[i], X[line], Y[j])
            d = w / 2
            if how == 'lines':
                els.append(['path', [['m', a, b], ['l', e, g]], {**line_opt, 'color': col, 'width': w}])
            elif how == 'fills':
                els.append(['path', [['re', a - d, b - d, e - a + w, g - b + w]], {**line_opt, 'fill': col}])
            else:
                els.append(['path', [['m', a - d, b - d], ['l', e + d, b - d], ['l', e + d, g + d], ['l', a - d, g + d], ['h']],
                            {**line_opt, 'fill': col}])
        for i, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 6, Y[tr] + 16, f'c{i}'])
        return {'size': [420, 300], 'rot': rot, 'els': els + [['text', X0, 40, 'before the table']]}


class AtOnce(Style):
    name = 'filled and stroked at once'
    bounds = ('2x2, 1x3 and 3x1 cells cut in every way, every cell drawn as a closed path which is stroked only, or filled (2 colours) and '
              'stroked by one operator (even-odd or not; rectangle, or polygon from one of its corners), in every combination, line '
              'widths 0.5, 1, 2 in 2 colours')
    PAINT = [None, 0xffee00, 0x88ccee]
    times = (1, 2)      # the outline of a rectangle counts double (DESIGN.md)

    def scenarios(self, tier):
        n = 0
        for sh in ((2, 2), (1, 3), (3, 1)):
            for k, t in enumerate(tilings(*sh)):
                for f in itertools.product(range(3), repeat=len(t)):
                    for how in range(4):
                        n += 1
                        for w in range(3) if tier != 'quick' else (n % 3,):
                            yield [*sh, k, list(f), how, w]

    def spec(self, scn):
        r, c, k, f, how, w = scn
        t = tilings(r, c)[k]
        st = ((0.5, 1.0, 2.0)[w], (0, 0xcc3300)[how % 2])
        return r, c, t, {(o, i): st for o, n in (('h', r), ('v', c)) for i in range(n + 1)}, [self.PAINT[i] for i in f], 'strokes'

    def page(self, scn):
        r, c, tiles, lines, fills, _ = self.spec(scn)
        how = scn[4]
        w, col = lines['h', 0]
        X, Y = self.geo(scn)
        els = []
        for n, ((tr, tc, a, b), f) in enumerate(zip(tiles, fills)):
            x0, y0, x1, y1 = X[tc], Y[tr], X[tc + b], Y[tr + a]
            o = {'color': col, 'width': w}
            if f is not None:
                o['fill'] = f
                if how == 1:
                    o['paint'] = 'B*'
            if how < 2:
                q = [['re', x0, y0, x1 - x0, y1 - y0]]
            else:
                P = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
                P = P[n % 4:] + P[:n % 4]
                q = [['m', *P[0]]] + [['l', *e] for e in P[1:]] + [['h']]
            els.append(['path', q, o])
        els += [['text', X[tc] + 6, Y[tr] + 16, f'c{i}'] for i, (tr, tc, a, b) in enumerate(tiles)]
        return {'size': [420, 300], 'els': els + [['text', X0, 40, 'before the table']]}


class Twice(Style):
    name = 'drawn twice'
    bounds = ('2x2 cells cut in every way, where every subset of 4 lines (the outer ones, and an inner one) is drawn a second '
              'time, thicker or of the same width, in the same or another colour')

    def scenarios(self, tier):
        for k in range(len(tilings(2, 2))):
            for m in range(16):
                for w, col in ((3.0, 0), (3.0, 0xff0000), (1.0, 0), (1.0, 0xff0000)):
                    for how in ('strokes', 'fills'):
                        yield [k, m, w, col, how]

    def second(self, scn):
        keys = [('h', 0), ('h', 2), ('v', 0), ('h', 1)]
        return [key for i, key in enumerate(keys) if scn[1] >> i & 1]

    def spec(self, scn):
        k, m, w, col, how = scn
        lines = {(d, i): (1.0, 0) for d in 'hv' for i in range(3)}
        lines.update({key: (w, col) for key in self.second(scn)})
        tiles = tilings(2, 2)[k]
        return 2, 2, tiles, lines, [None] * len(tiles), how

    def page(self, scn):
        p = Borders().page([scn[0], [0] * 6, scn[4]])
        q = Style.page(self, scn)
        twice = []
        for e in q['els']:
            if e[0] != 'text' and e not in p['els']:
                twice.append(e)
        if scn[2:4] == [1.0, 0]:
            twice = [e for e, (d, i, a, b) in zip(p['els'], line_runs(tilings(2, 2)[scn[0]], 2, 2)) if (d, i) in self.second(scn)]
        return {**p, 'els': p['els'] + twice}


def families():
    return [Operators(), AtOnce(), Twice(), Borders(), Narrow(), Inner(), Segments(), Shading(), Empty(), Open(), ShadedOnly()]
