"""C11  Table contents are in their cells, and extract_tables gives the tables of the docx."""
import itertools
from ..pages import PageFamily
from ..docxobs import table_regions, paragraphs
from ..tiling import tilings, reduced, draw
from ..pdfgen import text_width
from .c10 import coords, all_tables, WIDTHS, HEIGHTS, X0, Y0, Two, Nested


def cell_text(cell):
    """text of a docx cell, without what is in tables inside of it"""
    return '\n'.join(b['text'] for b in cell['blocks'] if b['kind'] == 'p').strip('\n')


def squeeze(s):
    return ' '.join((s or '').split())


def matrix(tbl):
    """the docx table as extract_tables presents it: None for cells merged into another one"""
    n = len(tbl['rows'])
    m = len(tbl['grid'])
    r = [[None] * m for _ in range(n)]
    for i, j, a, b, c in table_regions(tbl):
        r[i][j] = c
    return r


def compare_content(tbl, extracted, tiles, texts):
    """violations of a docx table and an extracted table against cells and their texts"""
    want, rs, cs = reduced(tiles)
    exp = [[None] * (len(cs) - 1) for _ in range(len(rs) - 1)]
    for (r, c, a, b), t in zip(want, texts):
        exp[r][c] = squeeze(t)
    v = []
    try:
        got = [[None if c is None else squeeze(cell_text(c)) for c in row] for row in matrix(tbl)]
    except (ValueError, IndexError) as e:
        return [f'broken table {e}']
    if got != exp:
        v.append(f'docx table {got}, drawn: {exp}')
    if extracted is not None:
        got = [[None if t is None else squeeze(t) for t in row] for row in extracted]
        if got != exp:
            v.append(f'extracted table {got}, drawn: {exp}')
    return v


LEVEL = 'model_checking'
PLACES = ['left', 'center', 'right']


class Contents(PageFamily):
    name = 'contents'
    batch = 12
    tables = True
    bounds = ('every way to cut grids of up to 3x3 cells, drawn in 3 ways, with text left/center/right at the top/middle/'
              'bottom of the cells, one or two lines, lines touching the borders or not')

    def scenarios(self, tier):
        for r, c in ((1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)):
            for k in range(len(tilings(r, c))):
                for how in ('strokes', 'cells', 'fills'):
                    for hp in range(3):
                        for vp in range(3):
                            if tier == 'quick' and (r * c == 9 and (k + hp + vp + len(how)) % 3 or
                                                    r * c == 6 and (k + hp + len(how)) % 2):
                                continue
                            yield [r, c, k, how, hp, vp, (k + hp + vp) % 2 if tier == 'quick' else 0]
                            if tier != 'quick':
                                yield [r, c, k, how, hp, vp, 1]

    def texts(self, scn):
        r, c, k, how, hp, vp, two = scn
        out = []
        for i, t in enumerate(tilings(r, c)[k]):
            out.append([f'cell{i}', f'l{i} m'] if two and i % 2 == 0 else [f'cell{i}'])
        return out

    def page(self, scn):
        r, c, k, how, hp, vp, two = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords([h + 12 for h in HEIGHTS[:r]], Y0)
        els = draw(tiles, X, Y, how)
        for (tr, tc, a, b), lines in zip(tiles, self.texts(scn)):
            x0, y0, x1, y1 = X[tc], Y[tr], X[tc + b], Y[tr + a]
            h = 12 * len(lines)
            y = {0: y0 + 2, 1: (y0 + y1 - h) / 2, 2: y1 - h - 3}[vp] + 9
            for n, s in enumerate(lines):
                w = text_width(s, 10)
                x = {0: x0 + 3, 1: (x0 + x1 - w) / 2, 2: x1 - w - 3}[hp]
                els.append(['text', x, y + 12 * n, s, {'size': 10}])
        return {'size': [420, 300], 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        r, c, k = scn[:3]
        t = all_tables(obs['blocks'])
        if len(t) != 1 or len(obs['extracted']) != 1:
            return [f'{len(t)} tables with borders, {len(obs["extracted"])} extracted, drawn: 1'], len(t)
        texts = [' '.join(x) for x in self.texts(scn)]
        return compare_content(t[0], obs['extracted'][0], tilings(r, c)[k], texts), obs['extracted'][0]


class Empty(PageFamily):
    name = 'empty cells'
    batch = 12
    tables = True
    bounds = 'every way to cut 2x2, 2x3 and 3x2 (thorough 3x3) cells with every subset of the cells empty'

    def scenarios(self, tier):
        for r, c in ((2, 2), (2, 3), (3, 2)) if tier == 'quick' else ((2, 2), (2, 3), (3, 2), (3, 3)):
            for k, t in enumerate(tilings(r, c)):
                for m in range(2 ** len(t)):
                    if tier == 'quick' and r * c == 6 and (m + k) % 2:
                        continue
                    yield [r, c, k, m]

    def page(self, scn):
        r, c, k, m = scn
        tiles = tilings(r, c)[k]
        X, Y = coords(WIDTHS[:c], X0), coords(HEIGHTS[:r], Y0)
        els = draw(tiles, X, Y)
        for i, (tr, tc, a, b) in enumerate(tiles):
            if m >> i & 1:
                els.append(['text', X[tc] + 6, Y[tr] + 16, f'cell{i}'])
        return {'size': [420, 260], 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        r, c, k, m = scn
        t = all_tables(obs['blocks'])
        if len(t) != 1 or len(obs['extracted']) != 1:
            return [f'{len(t)} tables with borders, {len(obs["extracted"])} extracted, drawn: 1'], len(t)
        tiles = tilings(r, c)[k]
        return compare_content(t[0], obs['extracted'][0], tiles,
                               [f'cell{i}' if m >> i & 1 else '' for i in range(len(tiles))]), obs['extracted'][0]


class Several(PageFamily):
    """the pages of C10's families, looked at for their contents"""
    batch = 12
    tables = True

    def __init__(self, base, bounds):
        self.base, self.name, self.bounds = base, base.name, bounds

    def scenarios(self, tier):
        for i, s in enumerate(self.base.scenarios(tier)):
            if tier != 'quick' or i % 2 == 0:
                yield s

    def page(self, scn):
        return self.base.page(scn)

    def check(self, scn, obs):
        v = []
        docx = all_tables(obs['blocks'])
        if self.name == 'nested':
            to, ti = tilings(2, 2)[scn[0]], tilings(2, 2)[scn[2]]
            top = [t for t in docx[:1]]
            if len(docx) != 2:
                return [f'{len(docx)} tables with borders, drawn: 2'], len(docx)
            v = compare_content(docx[1], None, ti, [f'i{j}' for j in range(len(ti))])
            txt = [{0: '', 1: f'o{j}', 2: f'o{j} p{j}'}[scn[3]] for j in range(len(to))]
            v += compare_content(docx[0], None, to, txt)
            inner = squeeze({0: '<NEST TABLE>', 1: f'o{scn[1]} <NEST TABLE>',
                             2: f'o{scn[1]} <NEST TABLE> p{scn[1]}'}[scn[3]])
            txt[scn[1]] = inner
            if len(obs['extracted']) != 1:
                return v + [f'{len(obs["extracted"])} tables extracted, drawn: 1 outer table'], len(obs['extracted'])
            want, rs, cs = reduced(to)
            exp = [[None] * (len(cs) - 1) for _ in range(len(rs) - 1)]
            for (r, c, a, b), t in zip(want, txt):
                exp[r][c] = t
            got = [[None if t is None else squeeze(t) for t in row] for row in obs['extracted'][0]]
            if got != exp:
                v.append(f'extracted {got}, drawn: {exp}')
            return v, obs['extracted']
        ex = obs['extracted']
        if len(docx) != 2 or len(ex) != 2:
            return [f'{len(docx)} tables with borders, {len(ex)} extracted, drawn: 2'], len(ex)
        for n, k in enumerate(scn[:2]):
            tiles = tilings(2, 2)[k]
            d = [t for t in docx if any(p['text'].startswith(f't{n}') for row in t['rows'] for c in row['cells']
                                        for p in paragraphs(c['blocks']))]
            e = [t for t in ex if any((s or '').startswith(f't{n}') for row in t for s in row)]
            if len(d) != 1 or len(e) != 1:
                v.append(f'table {n}: {len(d)} times in the docx, {len(e)} times extracted')
            else:
                v += compare_content(d[0], e[0], tiles, [f't{n}c{j}' for j in range(len(tiles))])
        if scn[2] != 'beside' and not v and not any((s or '').startswith('t0') for row in ex[0] for s in row):
            v.append('the lower table is extracted first')
        return v, ex


class Rich(PageFamily):
    name = 'rich cells'
    batch = 12
    tables = True
    bounds = ('2x2 and 1x3 tables, each cell with one of 7 contents (a word, several words, 2 lines, 2 paragraphs, two words '
              'far apart, a picture, text beside a picture) in every combination of three neighbouring cells')
    kinds = ['word', 'words', 'lines', 'paragraphs', 'apart', 'picture', 'beside']

    def scenarios(self, tier):
        for shape in (0, 1):
            for ks in itertools.product(range(7), repeat=3):
                yield [shape, list(ks)]

    def tiles(self, scn):
        return tilings(1, 3)[0] if scn[0] else tilings(2, 2)[0]

    def text(self, i, k):
        return {'word': f'w{i}', 'words': f'some words {i}', 'lines': f'first line {i} second {i}',
                'paragraphs': f'one{i} two{i}', 'apart': f'le{i} ri{i}', 'picture': '', 'beside': f'text{i}'}[k]

    def page(self, scn):
        shape, ks = scn
        tiles = self.tiles(scn)
        X, Y = (coords([110, 120, 116], X0), coords([90], Y0)) if shape else (coords([120, 130], X0), coords([80, 86], Y0))
        els = draw(tiles, X, Y)
        for i, (r, c, a, b) in enumerate(tiles):
            x, y = X[c] + 6, Y[r] + 16
            k = self.kinds[ks[i]] if i < 3 else 'word'
            if k in ('word', 'words'):
                els.append(['text', x, y, self.text(i, k)])
            elif k == 'lines':
                els += [['text', x, y, f'first line {i}'], ['text', x, y + 13, f'second {i}']]
            elif k == 'paragraphs':
                els += [['text', x, y, f'one{i}'], ['text', x, y + 40, f'two{i}']]
            elif k == 'apart':
                els += [['text', x, y, f'le{i}'], ['text', x + 70, y, f'ri{i}']]
            elif k == 'picture':
                els.append(['image', x + 4, y, x + 54, y + 36, f'rgb:{i + 1}'])
            else:
                els += [['text', x, y + 16, f'text{i}'], ['image', x + 50, y, x + 84, y + 30, f'rgb:{i + 1}']]
        return {'size': [520, 320], 'els': els + [['text', X0, 40, 'before the table']]}

    def check(self, scn, obs):
        tiles = self.tiles(scn)
        t = all_tables(obs['blocks'])
        if len(t) != 1 or len(obs['extracted']) != 1:
            return [f'{len(t)} tables with borders, {len(obs["extracted"])} extracted, drawn: 1'], len(t)
        v, got = [], []
        ks = [self.kinds[k] for k in scn[1]] + ['word']
        try:
            m = matrix(t[0])
        except (ValueError, IndexError) as e:
            return [f'broken table {e}'], None
        for i, (r, c, a, b) in enumerate(tiles):
            exp = self.text(i, ks[i]).split()
            # words side by side may have become a borderless table within the cell
            d = ' '.join(p['text'] for p in paragraphs(m[r][c]['blocks'])).split()
            pics = sum(len(p['images']) for p in paragraphs(m[r][c]['blocks']))
            e = obs['extracted'][0][r][c]
            got.append([d, pics, e])
            if d != exp:
                v.append(f'cell {r},{c} has {d}, drawn: {exp}')
            if pics != (ks[i] in ('picture', 'beside')):
                v.append(f'cell {r},{c} has {pics} pictures, drawn: {ks[i]}')
            e = (e or '').replace('<image>', ' ').split()
            if '<NEST' not in e and e != exp:
                v.append(f'cell {r},{c} extracted as {e}, drawn: {exp}')
        return v, got


def families():
    return [Contents(), Empty(), Rich(),
            Several(Two(), 'two tables as in C10, every other scenario (thorough: all): contents and order'),
            Several(Nested(), 'nested tables as in C10, every other scenario (thorough: all): contents of both tables')]
