"""C13  Text keeps its style; underline, strike-through, highlight and links cover exactly the marked characters."""
import itertools
from ..env import fitz
from ..pages import PageFamily
from ..docxobs import paragraphs, walk_blocks
from ..pdfgen import text_width, shown, SHOWING
from .c22 import near, Operators as Shades

LEVEL = 'model_checking'
HL = {'red': 0xff0000, 'green': 0x00ff00, 'blue': 0x0000ff, 'yellow': 0xffff00, 'magenta': 0xff00ff, 'cyan': 0x00ffff}


def chars(obs):
    """[(character, style)] of everything but blanks, in order; shading of the cell counts as highlight"""
    out = []

    def rec(blocks, fill):
        for b in blocks:
            if b['kind'] == 'p':
                for r in b['runs']:
                    for c in r['text']:
                        if not c.isspace():
                            out.append((c, dict(r['st'], cell=fill)))
            else:
                for row in b['rows']:
                    for c in row['cells']:
                        rec(c['blocks'], c.get('fill', fill))
    rec(obs['blocks'], None)
    return out


def marks_of(st, text_color):
    """{kind: colour or uri} a run shows"""
    r = {}
    if st.get('u'):
        r['underline'] = st.get('ucolor', st.get('color', text_color))
    if st.get('strike'):
        r['strike'] = None
    if st.get('hl') and st['hl'] != 'none':
        r['highlight'] = HL.get(st['hl'])
    elif 'shd' in st:
        r['highlight'] = st['shd']
    elif st.get('cell') is not None:
        r['highlight'] = st['cell']
    if 'uri' in st:
        r['link'] = st['uri']
    return r


def draw_mark(kind, x0, x1, y, size, color, how, vertical=False):
    """elements for a mark over the characters from x0 to x1 on base line y"""
    if kind == 'highlight':
        return [['rect', x0, y - 0.85 * size, x1, y + 0.25 * size, {'fill': color, 'color': None}]]
    if kind == 'link':
        return [['link', x0, y - 0.85 * size, x1, y + 0.25 * size, color]]
    h = y + 0.12 * size if kind == 'underline' else y - 0.28 * size
    if how == 'line':
        return [['line', x0, h, x1, h, {'width': 0.6, 'color': color}]]
    return [['rect', x0, h - 0.4, x1, h + 0.4, {'fill': color, 'color': None}]]


TEXT = 'ab cdefgh'
KIND = ['underline', 'strike', 'highlight', 'link']


def judge(obs, lines, marks, text_color=0, size=None):
    """lines: [text]; marks: [(line, i, j, kind, colour)]"""
    flat = [(li, k, c) for li, t in enumerate(lines) for k, c in enumerate(t) if not c.isspace()]
    got = chars(obs)
    if ''.join(c for c, _ in got) != ''.join(c for _, _, c in flat):
        return [f'characters {"".join(c for c, _ in got)!r}'], None
    v, out = [], []
    for (li, k, c), (_, st) in zip(flat, got):
        exp = {}
        for ml, i, j, kind, col in marks:
            if ml == li and i <= k < j:
                exp.setdefault(kind, []).append(col)
        m = marks_of(st, text_color)
        out.append(sorted(m))
        if sorted(m) != sorted(exp):
            v.append(f'character {k} ({c}) of line {li} shows {m}, drawn: {exp}')
            continue
        for kind, cols in exp.items():
            if kind == 'link':
                if m[kind] not in cols:
                    v.append(f'character {k} of line {li} links to {m[kind]}, drawn: {cols}')
            elif kind != 'strike' and not any(near(m[kind], col) for col in cols):
                v.append(f'character {k} of line {li} has {kind} in {m[kind]:06x}, drawn: {cols[0]:06x}')
    return v[:3], out


class Ranges(PageFamily):
    name = 'ranges'
    batch = 16
    bounds = ('every range of the characters of a line of 9, marked in one of 4 ways (underline, strike-through, highlight, '
              'link) as a line or thin rectangle, in 3 colours, the line being alone, first, middle or last of a paragraph, '
              'in 3 font sizes')
    ctx = ['alone', 'first', 'middle', 'last']
    colors = {'link': ['http://example.org/a', 'mailto:a@b.cc?x=1&y=2', 'ftp://h.example/%20x'],
              'highlight': [0xffff00, 0x00ff00, 0x99ccff]}

    def scenarios(self, tier):
        n = len(TEXT)
        for k, kind in enumerate(KIND):
            for i in range(n):
                for j in range(i + 1, n + 1):
                    if TEXT[i] == ' ' or TEXT[j - 1] == ' ':
                        continue
                    for c in range(4):
                        for size in (8, 11, 20):
                            for col in range(3):
                                if tier == 'quick' and (i + j + c + col + size) % 3:
                                    continue
                                yield [k, i, j, c, size, col, (i + j + c) % 2]

    def lines(self, scn):
        c = self.ctx[scn[3]]
        before = {'alone': [], 'first': [], 'middle': ['line above it'], 'last': ['two lines', 'are above it']}[c]
        after = {'alone': [], 'first': ['below it comes more', 'and more'], 'middle': ['line below it'], 'last': []}[c]
        return before + [TEXT] + after, len(before)

    def color(self, scn):
        kind = KIND[scn[0]]
        return self.colors.get(kind, [0x000000, 0xff0000, 0x3366cc])[scn[5]]

    def page(self, scn):
        k, i, j, c, size, col, how = scn
        lines, at = self.lines(scn)
        els, x, y0 = [], 60, 80
        y = y0 + 1.35 * size * at
        m = draw_mark(KIND[k], x + text_width(TEXT[:i], size), x + text_width(TEXT[:j], size), y, size,
                      self.color(scn), ('line', 'rect')[how])
        for n, t in enumerate(lines):
            els.append(['text', x, y0 + 1.35 * size * n, t, {'size': size}])
        return {'size': [400, 250], 'els': m + els if KIND[k] == 'highlight' else els + m}

    def check(self, scn, obs):
        k, i, j = scn[:3]
        lines, at = self.lines(scn)
        return judge(obs, lines, [(at, i, j, KIND[k], self.color(scn))])


class Thickness(Ranges):
    name = 'thickness of marks'
    bounds = ('lines of every thickness from 0.3 pt to a quarter of the font size, in 8 steps, at every 1/20 of the font size: below the base '
              'line (underline), or through the middle of the lower case letters (strike-through), over all of a line or some '
              'characters, alone or in a paragraph, as a line or rectangle, in 4 sizes')

    def scenarios(self, tier):
        n = 0
        for size in (8, 11, 14, 22):
            for w in range(8):
                for at in range(-4, 10):
                    t = self.thick(size, w)
                    mid, top, low = at / 20 * size, at / 20 * size + t / 2, at / 20 * size - t / 2
                    kind = 0 if top <= 0 and low > -0.22 * size else 1 if 0.2 * size <= mid <= 0.4 * size and low >= 0.05 * size else None
                    if kind is None:
                        continue
                    for i, j in ((0, 9), (3, 6), (3, 9)):
                        for c in range(4):
                            for how in (0, 1):
                                n += 1
                                if tier != 'quick' or n % 3 == n // 24 % 3:
                                    yield [kind, i, j, c, size, n % 3, how, at, w]

    @staticmethod
    def thick(size, w):
        return round(0.3 + w / 7 * (min(size / 4, 5.5) - 0.3), 2)

    def page(self, scn):
        k, i, j, c, size, col, how, at, w = scn
        p = Ranges.page(self, scn[:7])
        e = p['els'][-1]
        y = 80 + 1.35 * size * self.lines(scn)[1] - at / 20 * size
        t = self.thick(size, w)
        p['els'][-1] = ['line', e[1], y, e[3], y, {'width': t, 'color': self.color(scn)}] if how == 0 else \
            ['rect', e[1], y - t / 2, e[3], y + t / 2, e[5]]
        return p


class Turned(Ranges):
    name = 'turned'
    bounds = 'the same with text going upwards, in a cell of a ruled table or on the page'

    def scenarios(self, tier):
        for k, s in enumerate(Ranges.scenarios(self, 'thorough')):
            if k % (7 if tier == 'quick' else 2):
                continue
            yield s + [k // 7 % 2]

    def page(self, scn):
        els = Ranges.page(self, scn[:-1])['els']

        def turn(x, y):
            return 20 + y, 360 - x
        out = []
        for e in els:
            if e[0] == 'text':
                out.append(['text', *turn(e[1], e[2]), e[3], dict(e[4], dir='bt')])
                continue
            (x0, y0), (x1, y1) = turn(*e[1:3]), turn(*e[3:5])
            if e[0] != 'line':
                x0, x1, y0, y1 = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
            out.append([e[0], x0, y0, x1, y1, *e[5:]])
        if scn[-1]:
            X, Y = [50, 250, 360], [50, 330]
            out = [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 1}] for x in X] + out
        return {'size': [400, 400], 'els': out}

    def check(self, scn, obs):
        return Ranges.check(self, scn[:-1], obs)


class InCells(PageFamily):
    name = 'in cells and columns'
    batch = 16
    bounds = ('every range of whole words or characters of a row of 3 words, marked in one of 4 ways as a line or thin rectangle, the row being '
              'the first, second or third of the text in one of the cells of a 2x2 ruled table (wide, or as tight as the text), '
              'or of a page in two columns of such rows, or of single rows')
    TEXT = 'ab cde fg'
    OTHER = ['rows', 'of other', 'contents']
    X, Y = [60, 210], [90, 170]

    def scenarios(self, tier):
        n = 0
        for place in ('wide', 'tight', 'columns', 'implicit'):
            for cell in range(4):
                for row in range(3):
                    for k in range(4):
                        for i in range(9):
                            for j in range(i + 1, 10):
                                if self.TEXT[i] == ' ' or self.TEXT[j - 1] == ' ':
                                    continue
                                if place == 'implicit' and row:
                                    continue
                                n += 1
                                if (n + n // 10) % (11 if tier == 'quick' else 3):
                                    continue
                                yield [place, cell, row, k, i, j, (i + j + row) % 2]

    def rows(self, scn):
        place, cell, row = scn[:3]
        out = []
        for c in range(4):
            t = list(self.OTHER)
            if c == cell:
                t[row] = self.TEXT
            out.append(t[:1] if place == 'implicit' else t)
        return out

    def color(self, scn):
        return {'highlight': 0xffee00, 'link': 'http://example.org/x', 'strike': 0}.get(KIND[scn[3]], 0xff0000)

    def page(self, scn):
        place, cell, row, k, i, j, how = scn
        els, under, over = [], [], []
        for c, t in enumerate(self.rows(scn)):
            x, y0 = self.X[c % 2], self.Y[c // 2] if place != 'implicit' else self.Y[0] + 20 * (c // 2)
            for n, s in enumerate(t):
                y = y0 + 15 * n
                els.append(['text', x, y, s])
                if s == self.TEXT:
                    e = draw_mark(KIND[k], x + text_width(s[:i]), x + text_width(s[:j]), y, 11, self.color(scn), ('line', 'rect')[how])
                    (under if k == 2 else over).extend(e)
        if place in ('wide', 'tight'):
            (X, Y) = ([50, 200, 350], [70, 150, 240]) if place == 'wide' else ([58, 115, 205, 262], [79, 125, 159, 205])
            if place == 'wide':
                els += [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 1}] for x in X]
            else:
                els += [['line', X[0], y, X[-1], y, {'width': 0.5}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 0.5}] for x in X]
        return {'size': [400, 300], 'els': under + els + over}

    def check(self, scn, obs):
        place, cell, row, k, i, j, how = scn
        r = self.rows(scn)
        order = (0, 2, 1, 3) if place in ('columns', 'implicit') else (0, 1, 2, 3)
        lines = [(s, c == cell and s == self.TEXT) for c in order for s in r[c]]
        at = [n for n, (s, m) in enumerate(lines) if m][0]
        return judge(obs, [s for s, _ in lines], [(at, i, j, KIND[k], self.color(scn))])


class Pairs(PageFamily):
    name = 'pairs'
    batch = 16
    bounds = ('two marks of any kinds over every two ranges of a line of 5 characters (thorough: 6), apart, touching or '
              'overlapping; marks of the same kind do not overlap')

    def text(self, tier_n):
        return 'abcdefgh'[:tier_n]

    def scenarios(self, tier):
        n = 5 if tier == 'quick' else 6
        r = [(i, j) for i in range(n) for j in range(i + 1, n + 1)]
        for a, b in itertools.product(range(4), repeat=2):
            for p in r:
                for q in r:
                    if a == b and p[0] < q[1] and q[0] < p[1]:
                        continue
                    if a == b and not p < q:
                        continue
                    yield [n, a, list(p), b, list(q)]

    COL = {'underline': (0xff0000, 0x0000ff), 'strike': (0, 0), 'highlight': (0xffff00, 0x99ccff),
           'link': ('http://a.example/', 'http://b.example/')}

    def marks(self, scn):
        n, a, p, b, q = scn
        return [(0, *p, KIND[a], self.COL[KIND[a]][0]), (0, *q, KIND[b], self.COL[KIND[b]][1])]

    def page(self, scn):
        t = self.text(scn[0])
        x, y, size = 60, 80, 12
        under, over = [], []
        for _, i, j, kind, col in self.marks(scn):
            e = draw_mark(kind, x + text_width(t[:i], size), x + text_width(t[:j], size), y, size, col, 'line')
            (under if kind == 'highlight' else over).extend(e)
        return {'size': [400, 200], 'els': under + [['text', x, y, t, {'size': size}]] + over +
                [['text', x, 140, 'text of its own']]}

    def check(self, scn, obs):
        return judge(obs, [self.text(scn[0]), 'text of its own'], self.marks(scn))


class Rows(PageFamily):
    name = 'rows'
    batch = 16
    bounds = ('a paragraph of 5 lines at 3 line distances with a mark of each kind from any word of any line to any word of '
              'any later line - one piece per line - or a link area over any range of lines and words at once')
    TEXT = ['red green blues', 'alpha betas gam', 'earth water sky', 'north south tip', 'first final end']
    W = [(0, 3), (4, 9), (10, 15)]

    def scenarios(self, tier):
        at = [(r, w) for r in range(5) for w in range(3)]
        for kind in range(4):
            for a in at:
                for b in at:
                    if a <= b:
                        for lead in (1.15, 1.3, 1.6):
                            if tier == 'quick' and (a[0] + a[1] + b[0] + b[1] + kind + int(lead * 10)) % 2:
                                continue
                            yield [kind, list(a), list(b), lead, 0]
                            if kind == 3 and a[1] <= b[1]:
                                yield [kind, list(a), list(b), lead, 1]

    def marks(self, scn):
        k, (r0, w0), (r1, w1), lead, block = scn
        col = {'highlight': 0xffee00, 'link': 'http://example.org/x'}.get(KIND[k], 0x0000ff)
        out = []
        for r in range(r0, r1 + 1):
            i = self.W[w0][0] if r == r0 or block else 0
            j = self.W[w1][1] if r == r1 or block else 15
            out.append((r, i, j, KIND[k], col))
        return out

    def page(self, scn):
        k, a, b, lead, block = scn
        size, x = 11, 60
        Y = [80 + lead * size * r for r in range(5)]
        under, over = [], []
        ms = self.marks(scn)
        for r, i, j, kind, col in ms:
            if block:
                continue
            t = self.TEXT[r]
            # Courier: every character has the same width
            e = draw_mark(kind, x + 0.6 * size * i, x + 0.6 * size * j, Y[r], size, col, 'line')
            (under if kind == 'highlight' else over).extend(e)
        if block:
            over.append(['link', x + 0.6 * size * ms[0][1], Y[ms[0][0]] - 0.75 * size, x + 0.6 * size * ms[0][2],
                         Y[ms[-1][0]] + 0.2 * size, ms[0][4]])
        els = [['text', x, Y[r], self.TEXT[r], {'size': size, 'font': 'cour'}] for r in range(5)]
        return {'size': [400, 300], 'els': under + els + over}

    def check(self, scn, obs):
        return judge(obs, self.TEXT, self.marks(scn))


class Operators(PageFamily):
    name = 'operators'
    batch = 16
    bounds = ('a mark of 3 kinds (underline, strike-through, highlight) over the words of a line of 5 from any to any, drawn by '
              'PDF operators in 10 shapes (line forwards or backwards, in two pieces, rectangle of positive or negative size, '
              'without height, polygon either way round, open, two marks in one path, closed line) with 8 ways to set the '
              'graphics state (gray, CMYK, scaled, form, clipped, even-odd, projecting caps), in 2 colours')
    WORDS = ['alpha', 'beta', 'gam', 'delt', 'eps']
    SHAPE = ['line', 'back', 'pieces', 're', 'negative', 'flat', 'poly', 'ccw', 'unclosed', 'closed']
    OPT = [{}, {'space': 'cmyk'}, {'scale': 0.25}, {'form': True}, {'clip': True}, {'paint': 'f*'}, {'cap': 2}, {'space': 'gray'}]

    def scenarios(self, tier):
        for k in range(3):
            for i in range(5):
                for j in range(i, 5):
                    for s, shape in enumerate(self.SHAPE):
                        for o in range(len(self.OPT)):
                            for c in range(2):
                                if k == 2 and shape in ('line', 'back', 'pieces', 'flat', 'closed'):
                                    continue
                                if self.OPT[o].get('paint') and shape in ('line', 'back', 'pieces', 'flat', 'closed'):
                                    continue
                                if tier == 'quick' and (i + j + s + o + c + k) % 4:
                                    continue
                                yield [k, i, j, shape, o, c]

    def at(self, scn):
        t = ' '.join(self.WORDS)
        i = len(' '.join(self.WORDS[:scn[1]] + ['']))
        return t, i, len(' '.join(self.WORDS[:scn[2] + 1]))

    def color(self, scn, drawing=False):
        k, i, j, shape, o, c = scn
        space = self.OPT[o].get('space')
        col = [(0x333333, 0x999999), (0xcc2200, 0xffdd00)][c if space != 'gray' else 0][k == 2]
        return col if drawing else Shades.shown(col, space)

    def page(self, scn):
        k, i, j, shape, o, c = scn
        t, a, b = self.at(scn)
        size, x, y = 12, 60, 100
        x0, x1 = x + text_width(t[:a], size), x + text_width(t[:b], size)
        h = [y + 0.12 * size, y - 0.28 * size][k] if k < 2 else 0
        y0, y1 = (h - 0.4, h + 0.4) if k < 2 else (y - 0.85 * size, y + 0.25 * size)
        q = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        m = (x0 + x1) / 2
        ops = {'line': [['m', x0, h], ['l', x1, h]], 'back': [['m', x1, h], ['l', x0, h]],
               'pieces': [['m', x0, h], ['l', m, h], ['l', x1, h]],
               're': [['re', x0, y0, x1 - x0, y1 - y0]], 'negative': [['re', x1, y1, x0 - x1, y0 - y1]],
               'flat': [['re', x0, h, x1 - x0, 0]], 'closed': [['m', x0, h], ['l', x1, h], ['h']],
               'poly': [['m', *q[0]]] + [['l', *z] for z in q[1:]] + [['h']],
               'ccw': [['m', *q[0]]] + [['l', *z] for z in q[:0:-1]] + [['h']],
               'unclosed': [['m', *q[1]]] + [['l', *z] for z in q[2:] + q[:2]]}[shape]
        opt = dict(self.OPT[o])
        col = self.color(scn, True)
        if shape in ('line', 'back', 'pieces', 'flat', 'closed'):
            opt.update(color=col, width=0.6)
        else:
            opt.update(fill=col)
        els = [['path', ops, opt], ['text', x, y, t, {'size': size}]]
        return {'size': [400, 250], 'els': [['text', x, 60, 'line above it']] + (els if k == 2 else els[::-1]) +
                [['text', x, 150, 'and one below it']]}

    def check(self, scn, obs):
        t, a, b = self.at(scn)
        return judge(obs, ['line above it', t, 'and one below it'], [(1, a, b, KIND[scn[0]], self.color(scn))])


FONTS = {'helv': ('Helvetica', 0, 0), 'heit': ('Helvetica', 0, 1), 'hebo': ('Helvetica', 1, 0), 'hebi': ('Helvetica', 1, 1),
         'cour': ('Courier', 0, 0), 'coit': ('Courier', 0, 1), 'cobo': ('Courier', 1, 0), 'cobi': ('Courier', 1, 1),
         'tiro': ('Times', 0, 0), 'tibo': ('Times', 1, 0), 'tiit': ('Times', 0, 1), 'tibi': ('Times', 1, 1)}


class Spans(PageFamily):
    name = 'spans'
    batch = 16
    bounds = ('three words in one line or on three lines, with every pair of 12 fonts (bold, italic), 9 sizes and 6 colours '
              'for the first two')
    sizes = [6.2, 7, 9.5, 9.7, 10, 11.3, 14, 24, 40]
    colors = [0, 0xff0000, 0x00ff7f, 0x123456, 0xffffff, 0x7f7f7f]

    def scenarios(self, tier):
        f = sorted(FONTS)
        for sep in (0, 1):
            for a, b in itertools.product(f, repeat=2):
                yield [sep, [a, 11, 0], [b, 11, 0]]
            for a, b in itertools.product(self.sizes, repeat=2):
                yield [sep, ['helv', a, 0], ['tibo', b, 0xff0000]]
            for a, b in itertools.product(self.colors, repeat=2):
                yield [sep, ['helv', 11, a], ['helv', 11, b]]

    def words(self, scn):
        return [('first', scn[1]), ('second', scn[2]), ('third', ['helv', 11, 0])]

    def page(self, scn):
        x, y, els = 50, 80, []
        for w, (f, s, c) in self.words(scn):
            els.append(['text', x, y, w, {'font': f, 'size': s, 'color': c}])
            if scn[0]:
                y += 60
            else:
                x += text_width(w + ' ', s, f)
        return {'size': [600, 260], 'els': els}

    def check(self, scn, obs):
        got = chars(obs)
        exp = [(c, st) for w, st in self.words(scn) for c in w]
        if ''.join(c for c, _ in got) != ''.join(c for c, _ in exp):
            return [f'characters {"".join(c for c, _ in got)}'], None
        v = []
        for (c, st), (_, (f, s, col)) in zip(got, exp):
            name, b, i = FONTS[f]
            if bool(st.get('b')) != bool(b) or bool(st.get('i')) != bool(i):
                v.append(f'{c}: bold {st.get("b")}, italic {st.get("i")}, drawn in {f}')
            if name.lower() not in (st.get('font') or '').lower() or st.get('eastasia') != st.get('font'):
                v.append(f'{c}: font {st.get("font")}, drawn in {name}')
            if abs((st.get('size') or 0) * st.get('scale', 100) / 100 - s) > 0.0105 * s + 0.001 or \
                    abs((st.get('size') or 0) - s) > 0.26:
                v.append(f'{c}: size {st.get("size")} scaled by {st.get("scale")}, drawn in {s}')
            if not near(st.get('color', 0), col):
                v.append(f'{c}: colour {st.get("color")}, drawn in {col:06x}')
            if marks_of(st, 0):
                v.append(f'{c}: marks {marks_of(st, 0)}, none drawn')
        return v[:3], [x for _, x in got][::5]


class Shown(PageFamily):
    name = 'text operators'
    batch = 16
    bounds = ('a mark of 4 kinds over the words of a line of 4 from any to any, the text shown in 14 ways (one string, kerned, '
              'gaps instead of blanks, character and word spacing, narrow, wide, by the text matrix, stretched, character by '
              'character, word by word, word by word in text objects of their own, the next-line operator, font set in the middle '
              'of words), 3 fonts, alone or below and above other lines')
    TEXT = ['mark some', 'more', 'words in', 'line']
    FONTS = ['helv', 'tibo', 'coit']

    def scenarios(self, tier):
        for w in range(len(SHOWING)):
            for k in range(4):
                for i in range(4):
                    for j in range(i + 1, 5):
                        for c in (0, 1):
                            for f in range(3):
                                if tier == 'quick' and (w + k + i + j + f + c) % 3:
                                    continue
                                yield [w, k, i, j, c, f]

    def color(self, k):
        return {'underline': 0xff0000, 'strike': 0, 'highlight': 0xffff00, 'link': 'http://example.org/b'}[KIND[k]]

    def line(self, scn):
        w, k, i, j, c, f = scn
        t = ' '.join(self.TEXT)
        b = [0]
        for s in self.TEXT:
            b.append(b[-1] + len(s) + 1)
        return t, b[i], b[j] - 1

    def page(self, scn):
        w, k, i, j, c, f = scn
        t, a, b = self.line(scn)
        x, y, size = 60, 80, 12
        els, pos, _ = shown(x, y, t, size, SHOWING[w], {'font': self.FONTS[f]})
        m = draw_mark(KIND[k], pos[a][0], pos[b - 1][1], y, size, self.color(k), 'line')
        more = [['text', 60, 65, 'line above it'], ['text', 60, 95, 'line below it']] if c else []
        return {'size': [400, 200], 'els': more[:1] + (m + els if KIND[k] == 'highlight' else els + m) + more[1:]}

    def check(self, scn, obs):
        w, k, i, j, c, f = scn
        t, a, b = self.line(scn)
        lines, at = (['line above it', t, 'line below it'], 1) if c else ([t], 0)
        v, out = judge(obs, lines, [(at, a, b, KIND[k], self.color(k))])
        if v:
            return v, out
        got = [x for b in paragraphs(obs['blocks']) for x in b['text'].split()]
        if got != ' '.join(lines).split():
            v.append(f'words {got}')
        size = shown(0, 0, t, 12, SHOWING[w])[2]
        name, bold, ital = FONTS[self.FONTS[f]]
        for ch, st in [x for x in chars(obs)][(len(''.join(lines[0].split())) if c else 0):][:len(t) - t.count(' ')]:
            if abs((st.get('size') or 0) * st.get('scale', 100) / 100 - size) > 0.02 * size or name.lower() not in st.get('font', '').lower() or \
                    bool(st.get('b')) != bool(bold) or bool(st.get('i')) != bool(ital) or st.get('sup'):
                v.append(f'{ch} in {st}, drawn in {self.FONTS[f]}, {size:.1f} pt')
        return v[:3], out


class Raised(PageFamily):
    name = 'raised'
    batch = 16
    bounds = ('a word of three pieces of which any are raised or lowered by a part of the size (-0.3 to 0.45), in a smaller or '
              'the same size, by the rise operator or at places of their own, followed by another word')

    def scenarios(self, tier):
        for mask in range(8):
            for r in (-0.3, -0.15, 0.0, 0.03, 0.2, 0.3, 0.45):
                for k in (0.6, 0.8, 1):
                    for how in (0, 1):
                        for size in (10, 16) if tier != 'quick' else (10,):
                            if r or mask == 1:
                                yield [mask, r, k, how, size]

    PIECES = ['ab', 'cd', 'ef']

    def page(self, scn):
        mask, r, k, how, size = scn
        x, y, ops = 60, 80, []
        for i, s in enumerate(self.PIECES + [' gh']):
            up = mask >> i & 1 if i < 3 else 0
            sz = size * (k if up else 1)
            if how == 0:
                ops += ([['at', x, y]] if not i else []) + [['Ts', r * size if up else 0], ['Tf', sz], ['Tj', s]]
            else:
                ops += [['Tf', sz], ['at', x, y - (r * size if up else 0)], ['Tj', s]]
            x += text_width(s, sz)
        return {'size': [400, 200], 'els': [['show', ops], ['text', 60, 150, 'Last line']]}

    def check(self, scn, obs):
        mask, r, k, how, size = scn
        got = chars(obs)
        if ''.join(c for c, _ in got) != 'abcdefghLastline':
            return ['text ' + ''.join(c for c, _ in got)], None
        v = []
        first = mask & 1
        for n, (c, st) in enumerate(got[:8]):
            up = mask >> (n // 2) & 1 if n < 6 else 0
            sz = size * (k if up else 1)
            # raised against the first character of the line
            rel = (r if up else 0) - (r if first else 0)
            exp = rel * size > 0.1 * sz
            if first and r < 0:     # which one is the base line of it?
                exp = st.get('sup') == 'superscript'
            if bool(st.get('sup') == 'superscript') != exp or st.get('sup') not in (None, 'superscript'):
                v.append(f'{c} is {st.get("sup")}, raised by {rel}')
            if abs((st.get('size') or 0) * st.get('scale', 100) / 100 - sz) > 0.02 * sz:
                v.append(f'{c} in {st.get("size")} * {st.get("scale")}, drawn in {sz}')
        return v[:3], [st.get('sup') for _, st in got]


# name in the PDF -> family in the docx, as the documentation has it
NAMES = {'Calibri': 'Calibri', 'Verdana': 'Verdana', 'ArialNarrow': 'Arial Narrow', 'Arial Narrow': 'Arial Narrow', 'Foo_Bar': 'Foo_Bar',
         'SimSun': '\u5b8b\u4f53', 'SIMSUN': '\u5b8b\u4f53', 'Sim Sun': '\u5b8b\u4f53', 'NSimSun': '\u65b0\u5b8b\u4f53', 'SimHei': '\u9ed1\u4f53',
         'MicrosoftYaHei': '\u5fae\u8f6f\u96c5\u9ed1', 'Microsoft YaHei': '\u5fae\u8f6f\u96c5\u9ed1', 'MingLiU': '\u7ec6\u660e\u4f53',
         'PMingLiU': '\u65b0\u7ec6\u660e\u4f53', 'DFKai-SB': '\u6807\u6977\u4f53', 'FangSong': '\u4eff\u5b8b', 'KaiTi': '\u6977\u4f53',
         'KaiTi_GB2312': '\u6977\u4f53_GB2312', 'FangSong_GB2312': '\u4eff\u5b8b_GB2312', 'LiSu': '\u96b6\u4e66', 'YouYuan': '\u5e7c\u5706',
         'STXihei': '\u534e\u6587\u7ec6\u9ed1', 'STKaiti': '\u534e\u6587\u6977\u4f53', 'STSong': '\u534e\u6587\u5b8b\u4f53',
         'Comma,Light': 'Comma Light'}


class Names(PageFamily):
    name = 'font names'
    batch = 16
    bounds = ('24 names of fonts that are not in the file, with a subset tag, bold, italic or bold italic, of 2 kinds, alone in '
              'the line or before and behind other fonts')
    SUFFIX = ['', '-Bold', '-Italic', '-BoldItalic', '-Regular']

    def scenarios(self, tier):
        for n in NAMES:
            for tag in ('', 'BCDGEE+'):
                for s in self.SUFFIX:
                    for kind in ('TrueType', 'Type1'):
                        for c in (0, 1):
                            if tier == 'quick' and len(n + tag + s + kind) % 2 != c:
                                continue
                            yield [n, tag, s, kind, c]

    def page(self, scn):
        n, tag, s, kind, c = scn
        x = 60 + (text_width('pre') + 6 if c else 0)
        els = [['show', [['Tf', 11], ['at', x, 80], ['Tj', 'name']], {'base': tag + n + s, 'type': kind, 'advance': 0.55}]]
        if c:
            els = [['text', 60, 80, 'pre'], *els, ['text', x + 4 * 0.55 * 11 + 5, 80, 'post', {'font': 'tibo'}]]
        return {'size': [400, 200], 'els': els}

    def check(self, scn, obs):
        n, tag, s, kind, c = scn
        got = chars(obs)
        if ''.join(x for x, _ in got) != ('prenamepost' if c else 'name'):
            return ['text ' + ''.join(x for x, _ in got)], None
        v = []
        for i, (x, st) in enumerate(got):
            own = not c or 3 <= i < 7
            if own:
                exp = (NAMES[n], 'Bold' in s, 'Italic' in s)
            else:
                exp = ('Helvetica', False, False) if i < 3 else ('Times', True, False)
            g = (st.get('font'), bool(st.get('b')), bool(st.get('i')))
            if g != exp or st.get('eastasia') != st.get('font'):
                v.append(f'{x} in {g} (East Asian {st.get("eastasia")}), drawn in {exp}')
        return v[:3], [st.get('font') for _, st in got]


def families():
    return [Ranges(), Thickness(), Turned(), InCells(), Operators(), Pairs(), Rows(), Spans(), Shown(), Raised(), Names()]
