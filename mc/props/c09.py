"""C09  Every word of a page is in its docx page once, whole, in reading order."""
import itertools
import os
import re
from ..env import fitz
from ..explore import Family, res
from ..docs import build, convert
from ..pages import PageFamily
from ..docxobs import Docx, all_text
from ..gallery import mix, PARTS
from .. import simple
from ..pdfgen import text_width, draw_page

LEVEL = 'model_checking'


def words_of(obs):
    return all_text(obs['blocks'], ' ').split()


def order_violations(words, prec):
    """words: in the order they were put out; prec: pairs (a, b), a has to come before b"""
    at = {w: i for i, w in enumerate(words)}
    return [f'{a} comes after {b}' for a, b in prec if at[a] > at[b]]


class Grid(PageFamily):
    name = 'grid'
    batch = 16
    bounds = ('words at every subset of the places of a 3x3 grid (thorough 3x4), in 5 combinations of distances between '
              'rows and columns (lines of a paragraph, paragraphs, word gaps, column gaps)')
    pitch = [(13, 120), (30, 120), (13, 40), (16, 200), (60, 60)]

    def scenarios(self, tier):
        cols = 3 if tier == 'quick' else 4
        for dy, dx in self.pitch:
            for m in range(1, 2 ** (3 * cols)):
                yield [dy, dx if cols == 3 else dx * 3 // 4, cols, m]

    def page(self, scn):
        dy, dx, cols, m = scn
        els = []
        for k in range(3 * cols):
            if m >> k & 1:
                r, c = divmod(k, cols)
                els.append(['text', 40 + dx * c, 60 + dy * r, f'w{r}{c}'])
        return {'size': [600, 300], 'els': els}

    def check(self, scn, obs):
        dy, dx, cols, m = scn
        cells = [divmod(k, cols) for k in range(3 * cols) if m >> k & 1]
        exp = [f'w{r}{c}' for r, c in cells]
        got = words_of(obs)
        if sorted(got) != sorted(exp):
            return [f'words {got}, drawn: {exp}'], got
        full = len({tuple(sorted(c for r, c in cells if r == i)) for i in {r for r, _ in cells}}) == 1
        # words on a line that other words cut across may be put out as a table with merged cells: no order then
        prec = [(f'w{r}{c}', f'w{s}{d}') for r, c in cells for s, d in cells
                if (full and r == s and c < d) or (c == d and r < s)]
        return order_violations(got, prec), got


class Mixes(PageFamily):
    name = 'parts'
    batch = 12
    bounds = 'every combination of 10 page parts (text, ruled table, pictures, marks, links, drawings, columns, shading)'
    words = ['alpha beta gamma delta epsilon line two', 'q1 q2 q3 q4', '', '', 'marked text here', 'linked words', '',
             'upwards', 'left col mid col left two mid two', 'shaded box']

    def scenarios(self, tier):
        for m in range(1, 2 ** len(PARTS)):
            yield m

    def page(self, scn):
        return mix(scn)

    def check(self, scn, obs):
        exp = ' '.join(w for i, w in enumerate(self.words) if scn >> i & 1).split()
        got = words_of(obs)
        v = [] if sorted(got) == sorted(exp) else [f'words {got}, drawn: {exp}']
        return v, got


class Rows(PageFamily):
    name = 'wrapped'
    batch = 16
    bounds = ('paragraphs of 3 rows, of every combination of 5 row widths and 6 ways a row ends (word, digit, full stop, '
              'hyphen, East Asian character, blank), 2 row distances, first row indented or not')
    ends = ['end', '42', 'stop.', 'hy-', '中', 'blank ']
    fill = ['', 'aa', 'aa bbbb cc', 'aaaa bbbb cccc dddd', 'aaaaa bbbbb ccccc ddddd eeeee fffff']

    def scenarios(self, tier):
        n, e = len(self.fill), len(self.ends)
        for pitch, ind in ((14, 0), (14, 20), (17, 0)):
            for f in itertools.product(range(n), repeat=3):
                for a, b in itertools.product(range(e), repeat=2):
                    if tier == 'quick' and (a != b and sum(f) % 2):
                        continue
                    yield [pitch, ind, list(f), a, b]

    def rows(self, scn):
        pitch, ind, f, a, b = scn
        return [f'{self.fill[k]} {r}{self.ends[e]}'.lstrip() for k, e, r in zip(f, (a, b, 0), 'xyz')]

    def page(self, scn):
        pitch, ind = scn[:2]
        els = []
        for i, t in enumerate(self.rows(scn)):
            x = 50 + (ind if i == 0 else 0)
            els.append(['text', x, 60 + pitch * i, t.rstrip('中')])
            if t.endswith('中'):
                els.append(['text', x + text_width(t[:-1]), 60 + pitch * i, '中', {'font': 'china-s'}])
        return {'size': [500, 200], 'els': els}

    def check(self, scn, obs):
        rows = self.rows(scn)
        got = all_text(obs['blocks'], ' ')
        flat = ''.join(''.join(rows).split())
        if ''.join(got.split()) != flat:
            return [f'characters {got!r}, drawn: {rows}'], got
        # words of different rows stay apart, except after a hyphen and next to East Asian characters
        v = []
        for r, nxt in zip(rows, rows[1:]):
            if r.endswith(('-', '中')):
                continue
            if r.split()[-1] + nxt.split()[0] in got:
                v.append(f'rows {r!r} and {nxt!r} run together: {got!r}')
        # and words of a row stay words
        toks = got.split()
        for r in rows:
            for w in r.split()[1:-1]:
                if w not in toks:
                    v.append(f'word {w!r} is lost: {got!r}')
        return v, got


class Line(PageFamily):
    name = 'line'
    batch = 16
    bounds = ('three words on one base line: every combination of 6 gaps, 3 font sizes and, for the middle word, 4 shifts '
              'up or down, alone and with a line of text above and below; words of one row at 8 distances to the next')
    gaps = [3.5, 5, 8, 14, 40, 120]
    sizes = [8, 11, 18]

    def scenarios(self, tier):
        for g in itertools.product(self.gaps, repeat=2):
            for s in itertools.product(self.sizes, repeat=3):
                for dy in (0, -4, 3, 1):
                    if tier == 'quick' and (dy == 1 or (s[0] != s[2] and dy)):
                        continue
                    for ctx in (0, 1):
                        yield [list(g), list(s), dy, ctx]

    def page(self, scn):
        g, s, dy, ctx = scn
        x, els = 50, []
        for i, (w, size) in enumerate(zip(('one', 'two', 'three'), s)):
            els.append(['text', x, 100 + (dy if i == 1 else 0), w, {'size': size}])
            x += text_width(w, size) + (g[i] if i < 2 else 0)
        if ctx:
            els += [['text', 50, 70, 'above the line'], ['text', 50, 130, 'below the line']]
        return {'size': [500, 200], 'els': els}

    def check(self, scn, obs):
        got = words_of(obs)
        exp = ['one', 'two', 'three']
        if scn[3]:
            exp = ['above', 'the', 'line'] + exp + ['below', 'the', 'line']
        if sorted(got) != sorted(exp):
            return [f'words {got}, drawn: {exp}'], got
        # (a word far away may be put out as a column of its own, after the other column)
        free = scn[2] or (scn[3] and max(scn[0]) > 100)
        return ([] if got == exp or free else [f'order of words {got}, drawn: {exp}']), got


class Leading(PageFamily):
    name = 'leading'
    batch = 16
    bounds = ('four lines at each distance from 8 to 40 pt (step 1), in 4 font sizes, left, centered or with ragged starts, '
              'and two text columns at each shift of -20..20 pt against each other')

    def scenarios(self, tier):
        for d in range(8, 41):
            for size in (7, 9, 11, 16):
                if d >= 0.8 * size:
                    for how in ('left', 'center', 'ragged'):
                        yield ['lines', d, size, how]
        for d in range(-20, 21):
            for pitch in (14, 24):
                for gap in (12, 40, 100):
                    yield ['columns', d, pitch, gap]

    def items(self, scn):
        kind, d, a, b = scn
        r = []
        if kind == 'lines':
            for i in range(4):
                t = f'line{i} ' + 'abc ' * (1 + i * 5 % 4) + f'end{i}'
                x = {'left': 60, 'center': 250 - text_width(t, a) / 2, 'ragged': 60 + 17 * (i % 3)}[b]
                r.append(['text', x, 60 + d * i, t, {'size': a}])
        else:
            for c in (0, 1):
                for i in range(3):
                    r.append(['text', 60 + c * (90 + b), 80 + a * i + c * d, f'c{c}r{i} word'])
        return r

    def page(self, scn):
        return {'size': [500, 300], 'els': self.items(scn)}

    def check(self, scn, obs):
        got = words_of(obs)
        exp = ' '.join(e[3] for e in self.items(scn)).split()
        if sorted(got) != sorted(exp):
            return [f'words {got}, drawn: {exp}'], got
        if scn[0] == 'lines':
            return ([] if got == exp else [f'order of words {got}, drawn: {exp}']), got
        return order_violations(got_marks := [w for w in got if w != 'word'],
                                [(f'c{c}r{i}', f'c{c}r{i + 1}') for c in (0, 1) for i in (0, 1)]), got_marks


class Turned(PageFamily):
    name = 'rotation'
    batch = 12
    bounds = ('every kind of page part alone and in pairs, on pages turned by 0, 90, 180, 270 degrees; text from bottom to '
              'top beside text from left to right')

    def scenarios(self, tier):
        parts = [0, 1, 4, 7, 8, 9]
        for rot in (0, 90, 180, 270):
            for a in parts:
                for b in parts:
                    if a <= b:
                        yield [rot, a, b]

    def page(self, scn):
        p = mix(1 << scn[1] | 1 << scn[2])
        p['rot'] = scn[0]
        return p

    def check(self, scn, obs):
        exp = ' '.join(Mixes.words[i] for i in sorted({scn[1], scn[2]})).split()
        got = words_of(obs)
        return ([] if sorted(got) == sorted(exp) else [f'words {got}, drawn: {exp}']), got


class Crossing(PageFamily):
    name = 'crossing'
    batch = 16
    bounds = ('a ruled table of two cells with a row of 1 to 45 characters that ends up to 32 pt beyond (or 2 pt before) the right side '
              'of the first or of the last cell, alone, above another, or after another piece; the other cell empty or not')

    def scenarios(self, tier):
        k = 0
        for n in (1, 2, 3, 6, 20, 45):
            for col in (0, 1):
                for over in range(-4, 65):
                    for other in (0, 1):
                        for how in (0, 1, 2):
                            k += 1
                            if tier != 'quick' or k % 5 == 0:
                                yield [n, col, over / 2, other, how]

    def page(self, scn):
        n, col, over, other, how = scn
        s = ''.join(chr(97 + i % 26) for i in range(n))
        X, Y = [40, 340, 640], [60, 100]
        els = [['line', X[0], y, X[-1], y, {'width': 1}] for y in Y] + [['line', x, Y[0], x, Y[-1], {'width': 1}] for x in X]
        x = X[col + 1] + over - text_width(s)
        if how == 1:
            els += [['text', x, 80, s], ['text', x, 94, s.upper()[:max(1, n // 2)]]]
        else:
            els.append(['text', x, 84, s])
        if how == 2 and n < 25:
            els.insert(-1, ['text', x - 60, 84, '123'])
        if other:
            els.append(['text', X[1 - col] + 100, 84, '987'])
        return {'size': [700, 200], 'els': els}

    def check(self, scn, obs):
        exp = ''.join(e[3] for e in self.page(scn)['els'] if e[0] == 'text')
        got = ''.join(words_of(obs))
        return ([] if sorted(got) == sorted(exp) else [f'characters {got}, drawn: {exp}']), got


class Beside(PageFamily):
    name = 'around tables'
    batch = 16
    bounds = ('a row of 1, 6 or 45 characters (or a paragraph of 3 rows) at every height from above a 2x2 table to below it in steps of '
              '1.5 pt and 9 places from left of the table to right of it; the table ruled or shaded')

    def scenarios(self, tier):
        k = 0
        for kind in (0, 1):
            for n in (1, 6, 45):
                for rows in (1, 3):
                    for x in (5, 22, 37, 60, 120, 145, 250, 275, 300):
                        for y in range(70):
                            k += 1
                            if tier != 'quick' or k % 5 == 0:
                                yield [kind, n, rows, x, 50 + 1.5 * y]

    def page(self, scn):
        kind, n, rows, x, y = scn
        X, Y = [40, 150, 270], [80, 105, 130]
        els = []
        if kind:
            for i, j in itertools.product(range(2), repeat=2):
                els.append(['rect', X[i], Y[j], X[i + 1], Y[j + 1], {'fill': [0xffcc99, 0x99ccff][(i + j) % 2], 'color': None}])
        else:
            els = [['line', X[0], b, X[-1], b, {'width': 1}] for b in Y] + [['line', a, Y[0], a, Y[-1], {'width': 1}] for a in X]
        for r in range(rows):
            els.append(['text', x, y + 13 * r, ''.join(chr((97, 65, 48)[r] + i % (26, 26, 10)[r]) for i in range(n))])
        return {'size': [720, 300], 'els': els}

    def check(self, scn, obs):
        exp = ''.join(e[3] for e in self.page(scn)['els'] if e[0] == 'text')
        got = ''.join(words_of(obs))
        return ([] if sorted(got) == sorted(exp) else [f'characters {got}, drawn: {exp}']), got


class Scattered(PageFamily):
    name = 'scattered'
    batch = 16
    bounds = ('every triple (quick: a part) of 9 kinds of things (row, paragraph, large row, picture, ruled table, shaded box, tall column, '
              'row going upwards, frame) side by side, above and diagonally to each other at 8 x 6 relative places; thorough: also with a '
              'row across the page above or below')

    def thing(self, kind, t, x, y):
        """-> elements, width, height"""
        row = lambda k, s, dx=0: ['text', x + dx, y + 11 + 14 * k, s]
        if kind == 0:
            return [row(0, f'{t}single {t}row {t}here')], 95, 15
        if kind == 1:
            return [row(0, f'{t}p1 first {t}row {t}p2 of the {t}paragraph'), row(1, f'{t}p3 second {t}rw {t}p4 of the {t}same'), row(2, f'{t}p5 {t}end')], 175, 43
        if kind == 2:
            return [['text', x, y + 22, f'{t}Big {t}Text', {'size': 22}]], 110, 30
        if kind == 3:
            return [['image', x, y, x + 60, y + 40, f'rgb:{ord(t) - 96}']], 60, 40
        if kind == 4:
            els = [['line', x, y + 24 * i, x + 120, y + 24 * i, {'width': 1}] for i in range(3)] + [['line', x + 60 * i, y, x + 60 * i, y + 48, {'width': 1}] for i in range(3)]
            return els + [['text', x + 6 + 60 * i, y + 17 + 24 * j, f'{t}t{i}{j}'] for i in (0, 1) for j in (0, 1)], 120, 48
        if kind == 5:
            return [['rect', x, y, x + 150, y + 20, {'fill': 0xffcc99}], row(0, f'{t}boxed {t}row', 5)], 150, 20
        if kind == 6:
            return [row(k, f'{t}c{k}') for k in range(7)], 20, 100
        if kind == 7:
            return [['text', x + 11, y + 80, f'{t}going {t}up', {'dir': 'bt'}]], 15, 80
        return [['line', x, y, x + 130, y], ['line', x, y + 60, x + 130, y + 60], ['line', x, y, x, y + 60], ['line', x + 130, y, x + 130, y + 60],
                row(0, f'{t}framed {t}f1', 8), row(3, f'{t}f2 {t}f3', 20)], 130, 60

    def scenarios(self, tier):
        k = 0
        for a, b in itertools.product(range(9), repeat=2):
            for p in ((0, 60), (0, 105), (30, 45), (100, -20), (140, 0), (140, 25), (185, -45), (185, 10)):
                for c in range(9):
                    for q in ((-60, 62), (0, 105), (30, -50), (120, 50), (150, -30), (180, 0)):
                        for wide in (0, 1, 2):
                            s = [a, b, c, list(p), list(q), wide]
                            k += 1
                            if (tier != 'quick' or k % 23 == 0) and self.build(s):
                                yield s

    def build(self, scn):
        kinds, p, q, wide = scn[:3], scn[3], scn[4], scn[5]
        x, y, els, boxes = 60, 180, [], []
        for i, k in enumerate(kinds):
            if i:
                d = (p, q)[i - 1]
                x, y = x + d[0], y + d[1]
            e, w, h = self.thing(k, 'abc'[i], x, y)
            if x < 40 or any(x < o[2] + 2 and o[0] < x + w + 2 and y < o[3] + 2 and o[1] < y + h + 2 for o in boxes):
                return None
            boxes.append((x, y, x + w, y + h))
            els += e
        if wide:
            y = min(b[1] for b in boxes) - 20 if wide == 1 else max(b[3] for b in boxes) + 5
            els.append(['text', 60, y + 11, 'wacross wthe wpage ' + 'wand won ' * 8])
        return {'size': [700, 560], 'els': els}

    def page(self, scn):
        return self.build(scn)

    def check(self, scn, obs):
        exp = sorted(w for e in self.page(scn)['els'] if e[0] == 'text' for w in e[3].split())
        got = words_of(obs)
        return ([] if sorted(got) == exp else [f'words {sorted(got)}, drawn: {exp}']), got


class TurnedPieces(PageFamily):
    """see C15"""
    name = 'turned pieces'
    batch = 16
    bounds = ('1 to 3 rows of text going upwards, made of 1 to 3 pieces with gaps of 3, 15 or 40 pt, drawn one by one or as one object, '
              'upwards or downwards, in a cell of a table with 4 kinds of other text, or on a page of their own')

    def base(self):
        from .c15 import TurnedPieces as T
        return T()

    def scenarios(self, tier):
        for s in self.base().scenarios(tier):
            yield s
            if s[3] == 2:
                yield s[:3] + [4]

    def page(self, scn):
        p = self.base().page(scn[:3] + [2] if scn[3] == 4 else scn)
        if scn[3] == 4:
            p['els'] = [e for e in p['els'] if e[0] != 'line']
        return p

    def check(self, scn, obs):
        want = [w for i, g in enumerate(scn[0]) for j in range(len(g) + 1) for w in (f'{"abc"[i]}{j}a', f'{"abc"[i]}{j}z')]
        got = [w for w in words_of(obs) if w[:1] in 'abc' and w[-1:] in 'az']
        if sorted(want) != sorted(got):
            return [f'words {got}, drawn: {want}'], got
        return ([] if want == got else [f'order of words {got}, drawn: {want}']), got


class Chars(Family):
    name = 'characters'
    batch = 6
    bounds = ('every code point of the fonts\' encodings in U+0020..017F, 2010..206F, 3000..303F, 4E00..4E7F, FF01..FF5E; '
              'and glyphs mapped by the font to one of 40 special values (control characters, surrogates, '
              'non-characters, private use, format characters, ligatures, emoji, several characters)')
    special = ['0000', '0001', '0008', '0009', '000a', '000b', '000c', '000d', '001b', '001f', '007f', '0085', '00a0',
               '00ad', '200b', '200d', '200e', '2028', '2029', '202e', 'd800', 'dfff', 'dc00d800', 'e000', 'f8ff', 'fb01',
               'fb03', 'feff', 'fffd', 'fffe', 'ffff', 'd83dde00', 'dbffdfff', '00610062', '0066006c', '0041030a', '003c',
               '0026', '003e', '0022']

    def scenarios(self, tier):
        for font, rng in (('helv', range(0x20, 0x180)), ('tiro', range(0x20, 0x180)), ('cour', range(0xa0, 0x100)),
                          ('helv', range(0x2010, 0x2070)), ('china-s', range(0x3000, 0x3040)),
                          ('china-s', range(0x4e00, 0x4e80)), ('china-s', range(0xff01, 0xff5f))):
            rng = list(rng)
            for i in range(0, len(rng), 8):
                yield [font, rng[i], rng[min(i + 7, len(rng) - 1)]]
        for u in self.special:
            yield ['tounicode', u, 0]

    def run(self, scn, tmp):
        font, a, b = scn
        if font == 'tounicode':
            page = {'size': [300, 200], 'els': [['text', 40, 60, 'x~y glyph'], ['text', 40, 120, 'another paragraph']]}
        else:
            page = {'size': [300, 300], 'els': [['text', 40, 40 + 30 * i, f'x{chr(c)}y z{chr(c)}', {'font': font}]
                                                for i, c in enumerate(range(a, b + 1))]}
        pdf, out = os.path.join(tmp, 'a.pdf'), os.path.join(tmp, 'a.docx')
        build([page, simple.marked_page(1)], pdf)
        doc = fitz.open(pdf)
        if font == 'tounicode':
            fx = doc[0].get_fonts()[0][0]
            u = doc.get_new_xref()
            doc.update_object(u, '<<>>')
            doc.update_stream(u, ('/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def '
                                  '/CMapType 2 def 1 begincodespacerange <00> <ff> endcodespacerange\n'
                                  f'1 beginbfchar <7e> <{a}> endbfchar endcmap end end').encode())
            doc.xref_set_key(fx, 'ToUnicode', f'{u} 0 R')
            doc.saveIncr()
        doc.close()
        doc = fitz.open(pdf)
        text = ''.join(c['c'] for blk in doc[0].get_text('rawdict')['blocks'] for line in blk['lines']
                       for s in line['spans'] for c in s['chars'])
        doc.close()
        convert(pdf, out)
        s = Docx(out).sections
        if len(s) != 2:
            return res([f'{len(s)} sections of 2 pages'])
        got = all_text(s[0]['blocks'], ' ')
        squeeze = lambda t: re.sub('[\\s\ufffd\ud800-\udfff\ufffe\uffff\x00-\x1f]', '', t)
        v = []
        if squeeze(got) != squeeze(text):
            v.append(f'text {got!r}, drawn: {text!r}')
        if simple.page_ids(out)[1:] != [1]:
            v.append('the next page is affected')
        return res(v, got)


class Over(PageFamily):
    name = 'over the edges'
    batch = 12
    bounds = ('rows of 4 sizes along each of the edges of the page, the base line (the begin, the end) from 12 pt inside of it up to the '
              'edge, so that the box of a row reaches over it, horizontal or going upwards, alone or with other rows close to them or '
              'apart, 4 page rotations; the words are those MuPDF sees on the page')
    W, H = 300, 260

    def scenarios(self, tier):
        n = 0
        for rot in (0, 90, 180, 270):
            for up in (0, 1):
                for edge in range(4):
                    for size in (8, 11, 18, 26):
                        for d in (0.5, 2, 3, 5, 8, 12):
                            for other in range(4):
                                n += 1
                                if tier != 'quick' or n % 3 == n // 12 % 3:
                                    yield [rot, up, edge, size, d, other]

    def page(self, scn):
        rot, up, edge, size, d, other = scn
        W, H = self.W, self.H
        s, o = 'row over edge', {'size': size, **({'dir': 'bt'} if up else {})}
        n = text_width(s, size)
        if up:
            x, y = [(d, 200), (W - d, 200), (100, H - d), (100, d + n)][edge]
        else:
            x, y = [(40, d), (40, H - d), (d, 120), (W - d - n, 120)][edge]
        els = [['text', x, y, s, o]]
        if other & 1:
            els.append(['text', 200, 60, 'apart here'] if not up else ['text', 190, 160, 'apart here', {'dir': 'bt'}])
        if other & 2:
            q = 1.3 * size if (x if up else y) < 100 else -1.3 * size
            els.append(['text', x + q, y, 'close by it', o] if up else ['text', x, y + q, 'close by it', o])
        return {'size': [W, H], 'rot': rot, 'els': els}

    def check(self, scn, obs):
        doc = fitz.open()
        # turned text that is on a page (not in a cell) is put out too
        want = sorted(w[4] for w in draw_page(doc, self.page(scn)).get_text('words'))
        got = sorted(words_of(obs))
        return [f'words {got}, on the page: {want}'] if got != want else [], got


def families():
    return [Grid(), Mixes(), Rows(), Line(), Leading(), Turned(), TurnedPieces(), Crossing(), Beside(), Scattered(), Over(), Chars()]
