"""C18  The order in which a page emits its elements does not change the docx."""
import itertools
from ..pages import PageFamily, convert_pages
from ..explore import res, Fail, digest
from ..gallery import gallery, mix, KINDS, PARTS
from ..pdfgen import text_width
from ..view import view, differences, words_of

LEVEL = 'model_checking'


def box(e):
    """what an element covers on the page"""
    if e[0] == 'text':
        o = e[4] if len(e) > 4 else {}
        w, s = text_width(e[3], o.get('size', 11), o.get('font', 'helv')), o.get('size', 11)
        if o.get('dir') == 'bt':
            return e[1] - s, e[2] - w, e[1] + s / 3, e[2]
        return e[1], e[2] - s, e[1] + w, e[2] + s / 3
    x0, y0, x1, y1 = e[1:5]
    return min(x0, x1), min(y0, y1), max(x0, x1), max(y0, y1)


def opaque(e):
    return e[0] in ('image', 'curve') or e[0] == 'rect' and (e[5] if len(e) > 5 else {}).get('fill') is not None


def fixed(els):
    """pairs (i, j), i before j, that must keep their order, since one covers the other"""
    out = []
    for i, a in enumerate(els):
        for j in range(i + 1, len(els)):
            b = els[j]
            if opaque(a) or opaque(b):
                p, q = box(a), box(b)
                if p[0] < q[2] and q[0] < p[2] and p[1] < q[3] and q[1] < p[3]:
                    out.append((i, j))
    return out


def orders(els, depth):
    """permutations of up to depth moves away from the given order (all of them for few elements)"""
    n, fix = len(els), fixed(els)
    ok = lambda p: all(p.index(i) < p.index(j) for i, j in fix)
    if n <= 4 or n <= 5 and depth > 1:
        return [list(p) for p in itertools.permutations(range(n)) if ok(p)][1:]
    seen, cur = {tuple(range(n))}, [tuple(range(n))]
    out = []
    for _ in range(depth):
        new = []
        for p in cur:
            for a in range(n):
                for b in range(n):
                    if a != b:
                        q = list(p)
                        q.insert(b, q.pop(a))
                        q = tuple(q)
                        if q not in seen:
                            seen.add(q)
                            new.append(q)
                            if ok(q):
                                out.append(list(q))
        cur = new
    r = tuple(range(n))[::-1]
    if ok(r) and r not in seen:
        out.append(list(r))
    return out


class Orders(PageFamily):
    batch = 16

    def base(self, scn):
        raise NotImplementedError

    def page(self, scn):
        p = self.base(scn)
        return {**p, 'els': [p['els'][i] for i in scn[-1]]}

    def run_many(self, scns, tmp):
        bases = []
        for s in scns:
            if s[:-1] not in bases:
                bases.append(s[:-1])
        pages = [self.base(b + [None]) for b in bases] + [self.page(s) for s in scns]
        obs = convert_pages(pages, tmp)
        if obs is None:
            if len(scns) > 1:
                return None
            raise Fail('the page is not in the output')
        first = dict((repr(b), view(o)) for b, o in zip(bases, obs))
        out = []
        for s, o in zip(scns, obs[len(bases):]):
            f, g = first[repr(s[:-1])], view(o)
            out.append(res(differences(self.seen(s, f), self.seen(s, g)), digest(str(g['content'])), n=2))
        return out

    def seen(self, scn, v):
        """what must be the same"""
        return v


class Parts(Orders):
    name = 'parts'
    bounds = ('every set of up to 4 of 10 page parts (text, ruled table, pictures, marks, links, drawings, vertical '
              'text, columns, shaded boxes), the parts in all orders')

    def base(self, scn):
        return mix(sum(1 << i for i in scn[0]))

    def scenarios(self, tier):
        for n in (2, 3, 4):
            for parts in itertools.combinations(range(len(PARTS)), n):
                els = mix(sum(1 << i for i in parts))['els']
                fix = fixed(els)
                at, k = [], 0
                for i in parts:
                    at.append(list(range(k, k + len(PARTS[i]))))
                    k += len(PARTS[i])
                for p in list(itertools.permutations(range(n)))[1:]:
                    q = [i for j in p for i in at[j]]
                    if all(q.index(a) < q.index(b) for a, b in fix):
                        yield [list(parts), q]


class Kinds(Orders):
    name = 'kinds'
    bounds = ('21 kinds of pages, with elements in all orders (up to 4 elements; thorough 5) or in every order one '
              '(thorough two, up to 8 elements) moves away')

    def base(self, scn):
        return gallery(scn[0])

    def scenarios(self, tier):
        for k in KINDS:
            els = gallery(k)['els']
            for p in orders(els, 2 if tier != 'quick' and len(els) <= 8 else 1):
                yield [k, p]


class Words(Orders):
    name = 'words'
    bounds = ('two rows of 2 or 3 words, the words at every combination of distances, in one or two fonts, in all orders '
              '(thorough: two rows of 3 words); with cell borders around them or not')
    GAPS = [3.5, 9, 30, 70]

    def seen(self, scn, v):
        # words less than the documented 5 pt apart, but emitted in different places, may be one line or two; the words
        # and their places must be the same
        if min(scn[1]) < 5:
            v = dict(v)
            v['content'] = sorted([w, *st] for w, st in words_of(v['content']))
        return v

    def base(self, scn):
        n, gaps, lead, ruled = scn[:4]
        els, i = [], 0
        for r, k in enumerate(n):
            x, y = 60, 80 + lead * r
            for c in range(k):
                w = ['one', 'three', 'six', 'seven', 'eleven', 'twelve'][i]
                font = ['helv', 'tiro'][ruled == 2 and c == 1]
                els.append(['text', x, y, w, {'font': font}])
                x += text_width(w, 11, font) + gaps[c % len(gaps)]
                i += 1
        return {'size': [400, 300], 'els': els + [['text', 60, 200, 'last line']]}

    def scenarios(self, tier):
        for n in [(2, 1), (1, 2), (2, 2)] + [(3, 1)] if tier == 'quick' else [(2, 1), (1, 2), (2, 2), (3, 1), (2, 3), (3, 2)]:
            k = sum(n)
            for gaps in itertools.product(self.GAPS, repeat=max(n) - 1):
                for lead in (13, 20, 60):
                    for ruled in (0, 2):
                        for p in list(itertools.permutations(range(k)))[1:]:
                            yield [list(n), list(gaps), lead, ruled, list(p) + [k]]


def families():
    return [Kinds(), Parts(), Words()]
