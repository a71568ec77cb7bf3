"""C19  Documented parameters have their documented effect, at the value given."""
import itertools
import os
import re
from ..env import Converter, quiet
from ..explore import Family, res
from .. import fakepool
from ..pages import PageFamily
from ..docxobs import Docx, paragraphs, images, tokens
from ..pdfgen import make_pdf, text_width
from .c06 import in_child
from pdf2docx.main import PDF2DOCX
from .c10 import all_tables

LEVEL = 'model_checking'


def hline(x0, x1, y, w=1.0):
    return ['line', x0, y, x1, y, {'width': w}]


def vline(x, y0, y1, w=1.0):
    return ['line', x, y0, x, y1, {'width': w}]


def ruled(obs):
    """[(rows, columns)] of the tables with borders"""
    return [(len(t['rows']), len(t['grid'])) for t in all_tables(obs['blocks'])]


def pt(x):
    return round(x, 3)


# ---- one entry per parameter: values, distances, page and what is expected
class Param:
    key = '?'
    doc = ''
    values = []
    contexts = [0]

    def settings(self, t):
        return {self.key: t}

    def points(self, t):
        """values of what is drawn"""
        raise NotImplementedError

    def page(self, t, x, c):
        raise NotImplementedError

    def check(self, t, x, c, obs):
        """-> (got, expected)"""
        raise NotImplementedError


class MaxBorder(Param):
    key = 'max_border_width'
    doc = 'filled rectangles up to this width are borders of a table, thicker ones are not'
    values = [1.5, 3.0, 6.0, 10.0]
    contexts = [0, 1]

    def points(self, t):
        return [pt(t + d) for d in (-1.0, -0.3, 0.3, 1.0, 3.0)]

    def page(self, t, x, c):
        X, Y, h = [60, 160, 260], [80, 140, 200], x / 2
        o = {'fill': 0x202020, 'color': None}
        els = [['rect', X[0] - h, y - h, X[-1] + h, y + h, o] for y in Y] + \
              [['rect', a - h, Y[0] - h, a + h, Y[-1] + h, o] for a in X]
        if c:
            els = els[::-1]
        els += [['text', X[i] + 20, Y[j] + 35, f'c{i}{j}'] for i in (0, 1) for j in (0, 1)]
        return {'size': [400, 300], 'els': els + [['text', 60, 40, 'before it']]}

    def check(self, t, x, c, obs):
        full = all(len(cell.get('borders', {})) == 4 for tb in all_tables(obs['blocks']) for r in tb['rows'] for cell in r['cells'])
        return (ruled(obs) == [(2, 2)] and full), x < t


class Clearance(Param):
    key = 'min_border_clearance'
    doc = 'two border lines closer than this are one'
    values = [1.5, 2.0, 4.0, 8.0]
    contexts = ['h', 'v']

    def points(self, t):
        return [pt(t + d) for d in (-0.7, -0.3, 0.3, 0.7, 4)]

    def page(self, t, x, c):
        A, B = [80, 120, 120 + x, 160], [60, 160, 260]
        if c == 'h':
            els = [hline(B[0], B[-1], y, 0.5) for y in A] + [vline(b, A[0], A[-1], 0.5) for b in B]
        else:
            els = [vline(y, B[0], B[-1], 0.5) for y in A] + [hline(A[0], A[-1], b, 0.5) for b in B]
        return {'size': [400, 350], 'els': els + [['text', 85, 75, 'one'] if c == 'v' else ['text', 85, 105, 'one'], ['text', 60, 40, 'before it']]}

    def check(self, t, x, c, obs):
        n = 2 if x < t else 3
        return ruled(obs), [(n, 2) if c == 'h' else (2, n)]


class Connected(Param):
    key = 'connected_border_tolerance'
    doc = 'border lines with a smaller gap form one table'
    values = [0.5, 1.5, 3.0, 6.0]
    contexts = [0, 1]

    def points(self, t):
        return [0.0, pt(0.6 * t), pt(0.9 * t), pt(2.3 * t + 0.5), pt(3 * t + 1)]

    def page(self, t, x, c):
        # two tables side by side or one on the other
        els = []
        for k in (0, 1):
            dx, dy = ((100 + x) * k, 0) if c == 0 else (0, (60 + x) * k)
            X, Y = [60 + dx, 110 + dx, 160 + dx], [80 + dy, 110 + dy, 140 + dy]
            els += [hline(X[0], X[-1], y, 0.2) for y in Y] + [vline(a, Y[0], Y[-1], 0.2) for a in X]
            els += [['text', X[0] + 5, Y[0] + 20, f't{k}']]
        return {'size': [400, 300], 'els': els + [['text', 60, 40, 'before it']]}

    def check(self, t, x, c, obs):
        r = ruled(obs)
        return len(r) == 1, x < t


class FloatGap(Param):
    key = 'float_image_ignorable_gap'
    doc = 'a picture floats if it overlaps a row of text by more than this'
    values = [2.0, 5.0, 9.0]
    contexts = ['above', 'below', 'right']

    def points(self, t):
        return [pt(t + d) for d in (-1.6, -0.5, 0.5, 1.6)]

    def page(self, t, x, c):
        size = 20
        b = (80 - 1.075 * size, 80 + 0.299 * size)      # box of the row of text
        w = text_width('some large words here', size)
        if c == 'above':
            im = ['image', 60, b[0] + x - 60, 60 + w, b[0] + x, 'rgb:1']
        elif c == 'below':
            im = ['image', 60, b[1] - x, 60 + w, b[1] - x + 60, 'rgb:1']
        else:
            im = ['image', 60 + w - x, b[0] - 10, 60 + w - x + 60, b[1] + 30, 'rgb:1']
        return {'size': [400, 300], 'els': [['text', 60, 80, 'some large words here', {'size': size}], im,
                                            ['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        return [i['kind'] for i in images(obs['blocks'])], ['anchor' if x > t else 'inline']


class Margin(Param):
    contexts = [0, 1]
    values = [0.0, 0.2, 0.5, 0.75, 1.0]

    def points(self, t):
        return [20, 40, 90, 150]

    def page(self, t, x, c):
        # text at x from the edge, or a shape
        H = 300
        y = x if self.key.endswith('top') else H - x
        up = self.key.endswith('top')
        o = ['text', 60, 150, 'in the middle']
        if c == 0:
            e = ['text', 60, y + 1.075 * 12 if up else y - 0.299 * 12, 'at the edge', {'size': 12}]
        else:
            e = ['line', 60, y, 260, y, {'width': 0.2}]
        if x >= 90:
            o = ['text', 60, 220, 'in the middle'] if up else ['text', 60, 100, 'in the middle']
        return {'size': [400, H], 'els': [o, e]}

    def check(self, t, x, c, obs):
        got = obs['sect'][self.key.rsplit('_', 1)[1]]
        exp = min(72.0, t * x)
        return abs(got - exp) <= 0.31, True


class MarginTop(Margin):
    key = 'page_margin_factor_top'
    doc = 'top margin is this part of the distance of the contents from the edge'


class MarginBottom(Margin):
    key = 'page_margin_factor_bottom'
    doc = 'bottom margin is this part of the distance of the contents from the edge'


class MinShape(Param):
    key = 'shape_min_dimension'
    doc = 'shapes smaller than this in width and height are ignored'
    values = [2.0, 6.0, 15.0]
    contexts = ['both', 'wide', 'high']

    def points(self, t):
        return [pt(t + d) for d in (-0.6, -0.3, 0.3, 0.6)]

    def page(self, t, x, c):
        w, h = {'both': (x, x), 'wide': (60, 7.0), 'high': (7.0, 60)}[c]
        # far left: it decides the left margin if it is there
        return {'size': [400, 300], 'els': [['rect', 20, 100, 20 + w, 100 + h, {'fill': 0xff0000}], ['text', 60, 80, 'some text']]}

    def check(self, t, x, c, obs):
        gone = c == 'both' and x < t
        return round(obs['sect']['left']) in (60,), gone


class Overlap(Param):
    key = 'line_overlap_threshold'
    doc = 'a row of text that lies on another one by more than this part is deleted'
    values = [0.3, 0.6, 0.9]
    contexts = [0, 1]

    def points(self, t):
        return [pt(t + d) for d in (-0.25, -0.06, 0.06, 0.09)]

    def page(self, t, x, c):
        w = text_width('overlaps', 20)
        a, b = ['text', 60, 80, 'overlaps', {'size': 20}], ['text', 60 + (1 - x) * w, 80, 'overlaps', {'size': 20}]
        b = ['text', 60 + (1 - x) * w, 80, 'overlaqs', {'size': 20}]
        return {'size': [400, 300], 'els': [a, b] + [['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        n = sum(w.count('overla') for w in tokens(obs['blocks']))
        return n, 1 if x > t else 2


class Resolution(Param):
    key = 'clip_image_res_ratio'
    doc = 'pixels per point of a drawing kept as a picture'
    values = [1.0, 2.0, 3.0, 4.5]
    contexts = [0]

    def points(self, t):
        return [40, 75, 120]

    def page(self, t, x, c):
        return {'size': [400, 300], 'els': [['curve', 60, 60, 60 + x, 60 + 0.6 * x, {'color': 0xff0000}],
                                            ['curve', 70, 60, 50 + x, 55 + 0.6 * x, {'color': 0x0000ff}],
                                            ['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        import cv2
        import numpy
        r = []
        for i in images(obs['blocks']):
            im = cv2.imdecode(numpy.frombuffer(i['data'], numpy.uint8), cv2.IMREAD_COLOR)
            r.append(abs(im.shape[1] - t * i['w']) <= t + 1 and abs(im.shape[0] - t * i['h']) <= t + 1 and abs(i['w'] - x) <= 10)
        return r, [True]


class Curves(Param):
    key = 'curve_path_ratio'
    doc = 'connected paths are a drawing if more than this part of them is curved'
    values = [0.1, 0.2, 0.5, 0.8]
    contexts = [0, 1]

    def points(self, t):
        return [[a, b] for a, b in ((0, 6), (1, 6), (1, 5), (1, 3), (2, 3), (3, 3), (4, 2), (5, 1))]

    def page(self, t, x, c):
        a, b = x
        els = [hline(60, 260, 80 + 20 * i, 1) for i in range(b)] + [vline(60, 80, 80 + 20 * max(b - 1, 1), 1), ]
        # curves over the lines, connected with them
        els += [['curve', 70 + 40 * i, 74, 100 + 40 * i, 96, {'color': 0xff0000}] for i in range(a)]
        return {'size': [400, 300], 'els': (els if c == 0 else els[::-1]) + [['text', 60, 250, 'last line']]}

    def check(self, t, x, c, obs):
        a, b = x
        return len(images(obs['blocks'])), 1 if a / (a + b + 1) > t else 0


class Separate(Param):
    key = 'line_separate_threshold'
    doc = 'words of one row are apart if their distance exceeds this'
    values = [3.0, 5.0, 12.0, 30.0]
    contexts = [0, 1]

    def points(self, t):
        return [pt(t + d) for d in (-2, -0.4, 0.4, 2)]

    def page(self, t, x, c):
        els = []
        for r in range(1 + c):
            y = 80 + 14 * r
            # drawn backwards, so that MuPDF makes two lines of it
            els += [['text', 60 + text_width('left', 11) + x, y, 'right'], ['text', 60, y, 'left']]
        return {'size': [400, 300], 'els': els + [['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        tabs = [b for b in obs['blocks'] if b['kind'] == 'tbl']
        return bool(tabs), x > t


class Aligned(Param):
    """rows of a paragraph of which one is off by x"""
    values = [0.5, 1.0, 2.0, 5.0]
    contexts = ['second', 'third', 'fourth', 'third left']
    JC = '?'
    ROWS = [150, 190, 120, 166]         # widths of the rows

    def points(self, t):
        return [pt(t * f) for f in (0.0, 0.5, 0.85)] + [pt(t + 1.2), pt(t + 2.5), pt(t + 6)]

    def left(self, w):
        raise NotImplementedError

    def page(self, t, x, c):
        k = ['second', 'third', 'fourth', 'third left'].index(c)
        sign = -1 if k == 3 else 1
        k = (1, 2, 3, 2)[k]
        ops = [['Tf', 10]]
        for i, w in enumerate(self.ROWS):
            s = ''
            for word in itertools.cycle(['some', 'words', 'in', 'a', 'row']):
                if text_width((s + ' ' + word).strip(), 10) > w:
                    break
                s = (s + ' ' + word).strip()
            x0 = self.left(text_width(s, 10)) + (sign * x if i == k else 0)
            ops += [['at', x0, 80 + 12.5 * i], ['Tj', s]]
        # one text object: one block of MuPDF, wherever the rows start
        return {'size': [400, 300], 'els': [['show', ops], ['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        p = [b for b in paragraphs(obs['blocks']) if 'some words' in b['text']]
        if len(p) != 1:
            return f'{len(p)} paragraphs', 1
        return p[0]['jc'] == self.JC and not p[0]['tabs'], x <= t


class AlignLeft(Aligned):
    key = 'lines_left_aligned_threshold'
    doc = 'rows are left aligned if their left ends differ by no more than this'
    JC = 'left'

    def left(self, w):
        return 80


class AlignRight(Aligned):
    key = 'lines_right_aligned_threshold'
    doc = 'rows are right aligned if their right ends differ by no more than this'
    JC = 'right'
    contexts = ['second', 'third', 'fourth', 'third left']

    def left(self, w):
        return 350 - w


class AlignCenter(Aligned):
    key = 'lines_center_aligned_threshold'
    doc = 'rows are centered if their centers differ by no more than this'
    JC = 'center'

    def left(self, w):
        return 200 - w / 2


class FreeSpace(Param):
    key = 'line_free_space_ratio_threshold'
    doc = 'a row is broken if more than this part of the width is free behind it'
    values = [0.05, 0.1, 0.3, 0.6]
    contexts = [0, 1, 2]

    def points(self, t):
        return [pt(t + d) for d in (-0.04, -0.02, 0.02, 0.04, 0.15)]

    def page(self, t, x, c):
        # the text goes from margin to margin
        els = []
        for i in range(4):
            x1 = 340 if i != c else 340 - 280 * x
            w = 'mi'[i % 2] * 3
            els.append(['text', 60, 80 + 12.5 * i, 'some', {'size': 10}])
            k = int((x1 - 60) / text_width('m', 10))
            s = 'm' * k
            while text_width(s + 'i', 10) <= x1 - 60 + 1:
                s += 'i'
            els[-1][3] = s
        return {'size': [400, 300], 'els': els}

    def check(self, t, x, c, obs):
        p = [b for b in paragraphs(obs['blocks']) if 'mmm' in b['text']]
        if len(p) != 1:
            return f'{len(p)} paragraphs', 1
        r = p[0]['text'].replace('\n', '\n ').split(' ')
        return [a.endswith('\n') for a in p[0]['text'].replace('\n', '\n ').split()] and p[0]['text'].count('\n'), int(x > t)


class Merging(Param):
    key = 'line_merging_threshold'
    doc = 'pieces of a row closer than this are one line'
    values = [2.0, 4.0, 9.0]
    contexts = [0, 1]

    def settings(self, t):
        return {self.key: t, 'line_separate_threshold': 60.0}

    def points(self, t):
        return [0.0, pt(t - 0.5), pt(t + 0.5), pt(t + 3)]

    def page(self, t, x, c):
        w = text_width('left', 11)
        e = [['text', 60 + w + x, 80, 'right'], ['text', 60, 80, 'left']]
        if c:
            e = [['text', 60 + w + x, 94, 'more'], ['text', 60, 94, 'left']] + e
        return {'size': [400, 300], 'els': e + [['text', 60, 200, 'last line']]}

    def check(self, t, x, c, obs):
        return 'leftright' in ' '.join(tokens(obs['blocks'])), x < t


class StreamTable(Param):
    key = 'extract_stream_table'
    doc = 'extract_tables() gives tables without borders too'
    values = [False, True]
    contexts = ['words', 'ruled', 'both', 'shaded']

    def points(self, t):
        return [1, 2, 3]

    def page(self, t, x, c):
        els = [['text', 60, 40, 'first line of this page, as wide as anything below']]
        if c in ('words', 'both'):
            els += [['text', 60 + 100 * i, 80 + 20 * j, f'w{i}{j}'] for j in range(x) for i in range(3)]
        if c == 'shaded':
            els += [['rect', 55 + 100 * i, 66 + 20 * j, 155 + 100 * i, 86 + 20 * j, {'fill': 0xffee00 + 0x60 * (i + j), 'color': None}]
                    for j in range(x) for i in range(2)]
            els += [['text', 60 + 100 * i, 80 + 20 * j, f'w{i}{j}'] for j in range(x) for i in range(2)]
        if c in ('ruled', 'both'):
            X, Y = [60 + 80 * i for i in range(x + 1)], [180, 210, 240]
            els += [hline(X[0], X[-1], y, 0.5) for y in Y] + [vline(a, Y[0], Y[-1], 0.5) for a in X]
            els += [['text', X[0] + 10, 200, 'ruled']]
        return {'size': [400, 300], 'els': els + [['text', 60, 280, 'last line of this page, as wide as anything above']]}

    def check(self, t, x, c, obs):
        got = sorted(w for tb in obs['extracted'] for r in tb for cell in r if cell for w in cell.split() if re.fullmatch(r'w\d\d|ruled', w))
        exp = ['ruled'] if c in ('ruled', 'both') else []
        if c != 'ruled' and t:
            exp += sorted(f'w{i}{j}' for j in range(x) for i in range(2 if c == 'shaded' else 3))
        return got, exp


PARAMS = [AlignLeft(), AlignRight(), AlignCenter(), FreeSpace(), Merging(), MaxBorder(), Clearance(), Connected(), FloatGap(), MarginTop(), MarginBottom(), MinShape(), Overlap(), Resolution(),
          Curves(), Separate(), StreamTable()]


class Values(PageFamily):
    name = 'values'
    batch = 16
    tables = True
    bounds = 'parameters x 3 to 5 values of each x distances on both sides of the value x ways to draw'

    def scenarios(self, tier):
        for p in PARAMS:
            for c in p.contexts:
                for t in p.values:
                    for x in p.points(t):
                        yield [p.key, c, t, x]

    def param(self, scn):
        return [p for p in PARAMS if p.key == scn[0]][0]

    def settings(self, scn):
        return self.param(scn).settings(scn[2])

    def page(self, scn):
        _, c, t, x = scn
        return self.param(scn).page(t, x, c)

    def check(self, scn, obs):
        _, c, t, x = scn
        got, exp = self.param(scn).check(t, x, c, obs)
        if got != exp:
            return [f'{scn[0]}={t}: {got} for {x}, expected {exp} ({self.param(scn).doc})'], str(got)
        return [], str(got)


class Ways(Family):
    name = 'ways'
    batch = 8
    WAYS = ['parse', 'function', 'debug', 'workers', 'other first']
    bounds = ('the same parameters, at two values each, passed in by Converter.parse(), by the function the command line '
              'calls, by the debug entry, to worker processes, or after a conversion with another value in the same Converter')

    def scenarios(self, tier):
        for p in PARAMS:
            c = p.contexts[0]
            for t in dict.fromkeys((p.values[0], p.values[-1])):
                pts = p.points(t)
                for x in pts if tier != 'quick' else dict.fromkeys(map(repr, (pts[0], pts[-1]))):
                    x = eval(x) if isinstance(x, str) else x
                    for w in self.WAYS:
                        yield [p.key, c, t, x, w]

    def run(self, scn, tmp):
        key, c, t, x, way = scn
        p = [p for p in PARAMS if p.key == key][0]
        return in_child(lambda: self.go(p, c, t, x, way, tmp))

    def go(self, p, c, t, x, way, tmp):
        pdf, out = os.path.join(tmp, 'w.pdf'), os.path.join(tmp, 'w.docx')
        make_pdf([p.page(t, x, c)] * 2, pdf)
        kw = p.settings(t)
        i = 1
        with quiet():
            if way == 'function':
                PDF2DOCX.convert(pdf, out, pages=[1], **kw)
                tabs = PDF2DOCX.table(pdf, pages=[1], **kw)
                i = 0
            else:
                cv = Converter(pdf)
                if way == 'workers':
                    fakepool.install(None, 2)
                    cv.convert(out, kwargs=dict(kw, multi_processing=True, cpu_count=2))
                elif way == 'parse':
                    cv.parse(kwargs=kw).make_docx(out)
                elif way == 'debug':
                    cv.debug_page(1, out, os.path.join(tmp, 'd.pdf'), os.path.join(tmp, 'l.json'), kwargs=dict(kw))
                    i = 0
                else:
                    o = p.values[0] if t != p.values[0] else p.values[-1]
                    cv.convert(out, kwargs=p.settings(o))
                    cv.convert(out, kwargs=kw)
                tabs = cv.extract_tables(pages=[1], kwargs=kw)
                cv.close()
        d = Docx(out)
        if len(d.sections) != i + 1:
            return res([f'{len(d.sections)} sections'])
        obs = dict(d.sections[i], extracted=tabs)
        got, exp = p.check(t, x, c, obs)
        return res([f'{p.key}={t}: {got} for {x}, expected {exp} ({p.doc}), given by: {way}'] if got != exp else [], str(got))


def families():
    return [Values(), Ways()]
