"""C10  A ruled table is rebuilt with the rows, columns, merged cells and sizes drawn."""
from ..explore import Family
from ..pages import PageFamily
from ..docxobs import table_regions, paragraphs
from ..tiling import tilings, reduced, draw, draw_way, WAYS

LEVEL = 'model_checking'
WIDTHS = [60, 84, 48, 72]
HEIGHTS = [26, 34, 22, 30]
X0, Y0 = 70, 60


def coords(sizes, start):
    r = [start]
    for s in sizes:
        r.append(r[-1] + s)
    return r


def all_tables(blocks):
    """tables that show borders (others only position blocks), outermost first"""
    r = []
    for b in blocks:
        if b['kind'] == 'tbl':
            if any(c.get('borders') for row in b['rows'] for c in row['cells']):
                r.append(b)
            for row in b['rows']:
                for c in row['cells']:
                    r += all_tables(c['blocks'])
    return r


def compare_structure(tbl, tiles, X, Y, tol=0.75):
    """violations of a docx table against a tiling with grid lines X, Y"""
    want, rs, cs = reduced(tiles)
    try:
        regs = table_regions(tbl)
    except ValueError as e:
        return [f'broken table: {e}']
    if tbl['problems']:
        return [f'broken table: {tbl["problems"]}']
    got = sorted(r[:4] for r in regs)
    if got != sorted(want):
        return [f'cells (row, column, rows, columns) {got}, drawn: {sorted(want)}']
    w = [X[b] - X[a] for a, b in zip(cs, cs[1:])]
    h = [Y[b] - Y[a] for a, b in zip(rs, rs[1:])]
    v = []
    if len(tbl['grid']) != len(w):
        v.append(f'{len(tbl["grid"])} columns, drawn: {len(w)}')
    for k, (row, e) in enumerate(zip(tbl['rows'], h)):
        # the last row of a table at the end of a page gives room to the paragraph word processors need there
        if row['h'] is None or not -tol - (1.0 if k == len(h) - 1 else 0) <= row['h'] - e <= tol:
            v.append(f'row {k} is {row["h"]} high, drawn: {e}')
    for r, c, nr, nc, cell in regs:
        e = sum(w[c:c + nc])
        if cell.get('w') is None or abs(cell['w'] - e) > tol:
            v.append(f'cell {r},{c} is {cell["w"]} wide, drawn: {e}')
    return v


class Tilings(PageFamily):
    name = 'tilings'
    batch = 12
    bounds = ('every way to cut a grid of up to 3x3 cells (322 + smaller ones; thorough: 3x4 in every way, 4x4 drawn as '
              'strokes) into cells, drawn in 5 ways: longest strokes, unit strokes, strokes with gaps, rectangle per '
              'cell, thin filled rectangles; with and without text after the table')
    hows = ['strokes', 'edges', 'gaps', 'cells', 'fills']

    def scenarios(self, tier):
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)):
            for k in range(len(tilings(r, c))):
                for how in self.hows:
                    for after in (0, 1):
                        yield [r, c, k, how, after]
        if tier != 'quick':
            for r, c, hows in ((3, 4, self.hows), (4, 3, self.hows[:1]), (4, 4, self.hows[:1])):
                for k in range(len(tilings(r, c))):
                    for how in hows:
                        yield [r, c, k, how, 1]

    def page(self, scn):
        r, c, k, how, after = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)
        els = draw(tiles, X, Y, how)
        for i, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 6, Y[tr] + 16, f'c{i}'])
        if after:
            els += [['text', X0, Y[-1] + 40, 'after the table'], ['text', X0, 40, 'before it']]
        return {'size': [420, 300], 'els': els}

    def check(self, scn, obs):
        r, c, k, how, after = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)
        t = all_tables(obs['blocks'])
        if len(t) != 1:
            return [f'{len(t)} tables with borders, drawn: 1'], len(t)
        v = compare_structure(t[0], tiles, X, Y)
        return v, [row['h'] for row in t[0]['rows']]


class Sizes(PageFamily):
    name = 'sizes'
    batch = 12
    bounds = ('tables of 2x2 and 2x3 cells cut in every way, with border widths 0.25..5 pt, rows 14..120 pt high and columns '
              '16..150 pt wide, drawn in 5 ways')
    cases = [(0.25, 1), (0.5, 0.6), (0.5, 3.4), (1.5, 1), (2.5, 1.5), (4, 2), (5, 2.5)]

    def scenarios(self, tier):
        for r, c in ((2, 2), (2, 3)) if tier == 'quick' else ((1, 2), (2, 2), (2, 3), (3, 2)):
            for k in range(len(tilings(r, c))):
                for how in Tilings.hows:
                    for i in range(len(self.cases)):
                        yield [r, c, k, how, i]

    def geo(self, scn):
        r, c, k, how, i = scn
        f = self.cases[i][1]
        return coords([w * f for w in (44, 26, 36)[:c]], X0), coords([h * f for h in (24, 34, 28)[:r]], Y0)

    def page(self, scn):
        r, c, k, how, i = scn
        X, Y = self.geo(scn)
        tiles = tilings(r, c)[k]
        els = draw(tiles, X, Y, how, width=self.cases[i][0])
        size = 6 if self.cases[i][1] < 1 else 10
        for j, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 5, Y[tr] + size + 3, f'c{j}', {'size': size}])
        return {'size': [560, 420], 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        r, c, k, how, i = scn
        X, Y = self.geo(scn)
        t = all_tables(obs['blocks'])
        if len(t) != 1:
            return [f'{len(t)} tables with borders, drawn: 1'], len(t)
        return compare_structure(t[0], tilings(r, c)[k], X, Y), [row['h'] for row in t[0]['rows']]


class AtEdges(PageFamily):
    name = 'at the edges of the page'
    batch = 12
    bounds = ('every way to cut 2x2 cells, at each of 8 edges and corners of the page, 0, 0.2, 0.6 or 2 pt from them, with border widths '
              '0.5, 1 and 3 pt, drawn in 5 ways, on plain and turned pages (quick: every 5th)')
    SIZE = [320, 240]

    def scenarios(self, tier):
        n = 0
        for k in range(len(tilings(2, 2))):
            for at in ([0, 0], [0, 1], [0, 2], [1, 0], [1, 2], [2, 0], [2, 1], [2, 2]):
                for d in (0, 0.2, 0.6, 2):
                    for w in (0.5, 1, 3):
                        for how in Tilings.hows:
                            for rot in (0, 90, 180, 270):
                                n += 1
                                if tier == 'quick' and (n + n // 20) % 5:
                                    continue
                                yield [k, at, d, w, how, rot]

    def geo(self, scn):
        k, at, d, w, how, rot = scn
        g = []
        for a, total, sizes in zip(at, self.SIZE, ([60, 84], [36, 44])):
            n = sum(sizes)
            g.append(coords(sizes, (d, (total - n) / 2, total - n - d)[a]))
        return g

    def page(self, scn):
        k, at, d, w, how, rot = scn
        X, Y = self.geo(scn)
        tiles = tilings(2, 2)[k]
        els = draw(tiles, X, Y, how, width=w)
        for j, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 8, Y[tr] + 20, f'c{j}'])
        return {'size': self.SIZE, 'els': els, 'rot': rot}

    def check(self, scn, obs):
        X, Y = self.geo(scn)
        t = all_tables(obs['blocks'])
        if len(t) != 1:
            return [f'{len(t)} tables with borders, drawn: 1'], len(t)
        return compare_structure(t[0], tilings(2, 2)[scn[0]], X, Y), [row['h'] for row in t[0]['rows']]


class Two(PageFamily):
    name = 'two tables'
    batch = 12
    bounds = ('two ruled tables, each cut in one of the ways of a 2x2 grid, one below the other at 6 distances (with or '
              'without text between them) or side by side at 4 distances and 5 shifts, in either drawing order')
    shapes = [(2, 2, k) for k in range(len(tilings(2, 2)))]

    def scenarios(self, tier):
        for a in self.shapes:
            for b in self.shapes:
                for gap in (5, 8, 15, 30, 60):
                    for order in (0, 1):
                        yield [a[2], b[2], 'below', gap, 0, order]
                for gap in (25, 60):
                    yield [a[2], b[2], 'text', gap, 0, 0]
                for gap in ((40,) if tier == 'quick' else (20, 40, 110, 150)):
                    for shift in (0, 7, -20) if tier == 'quick' else (0, 7, -20, 30, 62):
                        yield [a[2], b[2], 'beside', gap, shift, shift % 2]

    def geo(self, scn):
        ka, kb, where, gap, shift, order = scn
        X, Y = coords(WIDTHS[:2], X0), coords(HEIGHTS[:2], Y0 + 30)
        if where == 'beside':
            return (X, Y), (coords([70, 50], X[-1] + gap), coords([26, 28], Y[0] + shift))
        return (X, Y), (coords([50, 70], X0), coords([26, 28], Y[-1] + gap))

    def page(self, scn):
        ka, kb, where, gap, shift, order = scn
        els = []
        for n, (k, (X, Y)) in enumerate(zip((ka, kb), self.geo(scn))):
            tiles = tilings(2, 2)[k]
            e = draw(tiles, X, Y)
            for j, (tr, tc, a, b) in enumerate(tiles):
                e.append(['text', X[tc] + 5, Y[tr] + 14, f't{n}c{j}'])
            els = els + e if not order else e + els
        if where == 'text':
            els.append(['text', X0, self.geo(scn)[0][1][-1] + gap / 2 + 4, 'between the two tables'])
        return {'size': [560, 360], 'els': els}

    def check(self, scn, obs):
        ts = all_tables(obs['blocks'])
        v, out = [], []
        for n, (k, (X, Y)) in enumerate(zip(scn[:2], self.geo(scn))):
            mine = [t for t in ts if any(p['text'].startswith(f't{n}') for row in t['rows'] for c in row['cells']
                                         for p in paragraphs(c['blocks']))]
            if len(mine) != 1:
                v.append(f'table {n} was put out as {len(mine)} tables')
            else:
                v += [f'table {n}: {x}' for x in compare_structure(mine[0], tilings(2, 2)[k], X, Y)]
        if len(ts) != 2:
            v.append(f'{len(ts)} tables with borders, drawn: 2')
        return v, [[r['h'] for r in t['rows']] for t in ts]


class Nested(PageFamily):
    name = 'nested'
    batch = 12
    bounds = ('a ruled table (every way to cut 2x2, or one cell) inside each cell of a table (every way to cut 2x2), with or '
              'without text beside the inner table')

    def scenarios(self, tier):
        for ko, to in enumerate(tilings(2, 2)):
            for cell in range(len(to)):
                for ki in range(len(tilings(2, 2))):
                    for txt in (0, 1, 2):
                        yield [ko, cell, ki, txt]

    def geo(self, scn):
        ko, cell, ki, txt = scn
        X, Y = coords([170, 190], 60), coords([120, 130], 60)
        r, c, a, b = tilings(2, 2)[ko][cell]
        return (X, Y), (coords([50, 60], X[c] + 20), coords([26, 30], Y[r] + 30))

    def page(self, scn):
        ko, cell, ki, txt = scn
        (X, Y), (x, y) = self.geo(scn)
        els = draw(tilings(2, 2)[ko], X, Y) + draw(tilings(2, 2)[ki], x, y)
        for j, (tr, tc, a, b) in enumerate(tilings(2, 2)[ko]):
            if txt:
                els.append(['text', X[tc] + 5, Y[tr] + 14, f'o{j}'])
            if txt == 2:
                els.append(['text', X[tc] + 5, Y[tr] + 110, f'p{j}'])
        for j, (tr, tc, a, b) in enumerate(tilings(2, 2)[ki]):
            els.append(['text', x[tc] + 5, y[tr] + 14, f'i{j}'])
        return {'size': [480, 420], 'els': els}

    def check(self, scn, obs):
        ko, cell, ki, txt = scn
        (X, Y), (x, y) = self.geo(scn)
        outer = all_tables([b for b in obs['blocks']])
        if len(outer) != 2:
            return [f'{len(outer)} tables with borders, drawn: 2'], len(outer)
        v = [f'outer table: {e}' for e in compare_structure(outer[0], tilings(2, 2)[ko], X, Y)]
        v += [f'inner table: {e}' for e in compare_structure(outer[1], tilings(2, 2)[ki], x, y, 1.25)]
        if not v:
            inside = [(r, c) for r, c, a, b, cl in table_regions(outer[0]) if all_tables(cl['blocks'])]
            want, rs, cs = reduced(tilings(2, 2)[ko])
            if inside != [tuple(want[cell][:2])]:
                v.append(f'the inner table is in cell {inside}, drawn in {want[cell][:2]}')
        return v, [[r['h'] for r in t['rows']] for t in outer]


class Ways(PageFamily):
    name = 'ways of drawing'
    batch = 12
    bounds = ('every way to cut 2x2 (thorough: 2x3) cells, drawn by PDF operators in 20 ways - as one path or a path for each '
              'piece: lines, rectangles (also with negative and without height), closed and open polygons from any corner and in '
              'either direction, scaled, in a form, clipped, with caps, filled, in gray and CMYK, rectangles filled white - x 3 '
              'line widths x page rotations')

    def scenarios(self, tier):
        for r, c in ((2, 2),) if tier == 'quick' else ((2, 2), (2, 3), (3, 2)):
            for k in range(len(tilings(r, c))):
                for way in WAYS:
                    for apart in (0, 1):
                        if r * c > 4 and way == 'polygons ccw' and not apart:
                            continue    # where one polygon ends the next one starts, in MuPDF's path
                        for w in (1, 0.5, 2.5):
                            for rot in (0, 90) if tier == 'quick' else (0, 90, 180, 270):
                                yield [r, c, k, way, apart, w, rot]

    def page(self, scn):
        r, c, k, way, apart, w, rot = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)
        els = draw_way(tiles, X, Y, way, w, 0, apart)
        for i, (tr, tc, a, b) in enumerate(tiles):
            els.append(['text', X[tc] + 6, Y[tr] + 16, f'c{i}'])
        return {'size': [420, 300], 'rot': rot, 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        r, c, k, way, apart, w, rot = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)
        t = all_tables(obs['blocks'])
        if len(t) != 1:
            return [f'{len(t)} tables with borders, drawn: 1'], len(t)
        v = compare_structure(t[0], tiles, X, Y)
        if not v:
            for r, c, a, b, cell in table_regions(t[0]):
                for side in ('top', 'bottom', 'start', 'end'):
                    g = cell['borders'].get(side)
                    # the code takes twice the width for rectangles, and says so
                    if not g and a * b > 1 and way.startswith('polygons'):
                        continue        # pieces of either width along one side
                    if not g or min(abs(g[0] - w), abs(g[0] - 2 * w)) > 0.13:
                        v.append(f'cell {r},{c} has {side} border {g}, drawn: {w} pt')
        return v, [row['h'] for row in t[0]['rows']]


class Turned(PageFamily):
    name = 'turned pages'
    batch = 12
    bounds = 'every way to cut 2x2 and 2x3 cells, drawn in 5 ways, on pages turned by 90, 180 and 270 degrees'

    def scenarios(self, tier):
        for rot in (90, 180, 270):
            for r, c in ((2, 2), (2, 3)) if tier == 'quick' else ((2, 2), (2, 3), (3, 3)):
                for k in range(len(tilings(r, c))):
                    for how in Tilings.hows:
                        yield [r, c, k, how, 1, rot]

    def page(self, scn):
        p = Tilings().page(scn[:5])
        p['rot'] = scn[5]
        return p

    def check(self, scn, obs):
        return Tilings().check(scn[:5], obs)


def families():
    return [Tilings(), Sizes(), AtEdges(), Two(), Nested(), Turned(), Ways()]
