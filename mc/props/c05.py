"""C05  What a converter puts out depends on the last request, not on what it was used for before."""
import itertools
import json
import os
from ..env import Converter, quiet
from ..explore import Family, res, digest
from ..docs import build, sections, first_diff, clean
from ..gallery import gallery, KINDS
from .. import fakepool
from .c06 import in_child

LEVEL = 'model_checking'
MARGIN = {'page_margin_factor_top': 1.0, 'connected_border_tolerance': 0.4}
N = 3


def pages():
    r = []
    for i, k in enumerate(['nested', 'rot90', 'marks']):
        p = gallery(k, f'p{i}')
        p['size'] = [p['size'][0] + 10 * i, p['size'][1]]
        r.append(p)
    return r


def ops(tier):
    r = [('parse', [0]), ('parse', [2, 1]), ('parse', None), ('parse+', [1]),
         ('make', None),
         ('convert', [1]), ('convert', [0, 2]), ('convert+', [0]), ('mp', [0, 1]),
         ('tables', [1]), ('tables', [0, 1]),
         ('carry', None), ('reload', None), ('debug', [0])]
    if tier != 'quick':
        r += [('convert', None), ('tables', None), ('mp', [2]), ('parse', [])]
    return r


_REF = {}


def reference(pdf, tmp):
    """{(page, settings): section}, {page: tables}: every page alone, in fresh processes"""
    if _REF:
        return _REF
    out = os.path.join(tmp, 'ref.docx')
    for i in range(N):
        for plus in (0, 1):
            def go():
                with quiet():
                    cv = Converter(pdf)
                    cv.convert(out, pages=[i], kwargs=dict(MARGIN) if plus else {})
                    cv.close()
                return sections(out)[0]
            _REF[f's{i}{plus}'] = in_child(go)

        def go():
            with quiet():
                cv = Converter(pdf)
                t = cv.extract_tables(pages=[i])
                cv.close()
            return clean(t)
        _REF[f't{i}'] = in_child(go)
    return _REF


class Histories(Family):
    name = 'histories'
    batch = 10
    bounds = ('every sequence of up to 3 (thorough 4) operations on one converter of a three-page document - parse, make, '
              'convert, convert with several processes, extract tables, with different pages and settings, carry the '
              'parsed layout over to a new converter, load it back into the same one, debug a page - ending with an '
              'operation that puts something out; model: the pages parsed and the settings they were parsed with')

    def scenarios(self, tier):
        o = ops(tier)
        n = range(len(o))
        depth = 3 if tier == 'quick' else 4
        last = [i for i in n if o[i][0] not in ('parse', 'parse+', 'carry', 'reload')]
        base = ops('quick')
        for d in range(1, depth + 1):
            if d == 4:
                n = [i for i in n if o[i] in base]
                last = [i for i in last if o[i] in base]
            for p in itertools.product(n, repeat=d - 1):
                for e in last:
                    yield [list(o[i]) for i in (*p, e)]

    def run(self, scn, tmp):
        pdf, out = os.path.join(tmp, 'h.pdf'), os.path.join(tmp, 'o.docx')
        if not os.path.exists(pdf):
            build(pages(), pdf)
        ref = reference(pdf, tmp)
        viols = []
        must, may, trace = {}, {}, []      # page -> settings it was parsed with / may have been parsed with
        fakepool.install(None, 2)
        cv = Converter(pdf)
        for step, (op, sel) in enumerate(scn):
            at = f'step {step + 1} {op}({sel})'
            kw = dict(MARGIN) if op.endswith('+') else {}
            plus = len(kw) and 1
            idx = list(range(N)) if sel is None else sorted(set(sel))
            if os.path.exists(out):
                os.remove(out)
            err = got = None
            with quiet():
                try:
                    if op in ('parse', 'parse+'):
                        cv.parse(sel, kw)
                    elif op == 'make':
                        cv.make_docx(out)
                    elif op in ('convert', 'convert+'):
                        cv.convert(out, pages=sel, kwargs=kw)
                    elif op == 'mp':
                        cv.convert(out, pages=sel, kwargs={'multi_processing': True, 'cpu_count': 2})
                    elif op == 'tables':
                        got = clean(cv.extract_tables(pages=sel))
                    elif op == 'carry':
                        data = json.loads(json.dumps(cv.store()))
                        cv.close()
                        cv = Converter(pdf)
                        cv.restore(data)
                    elif op == 'reload':
                        cv.serialize(os.path.join(tmp, 'l.json'))
                        cv.deserialize(os.path.join(tmp, 'l.json'))
                    elif op == 'debug':
                        cv.debug_page(sel[0], out, os.path.join(tmp, 'd.pdf'), os.path.join(tmp, 'l.json'))
                except Exception as e:
                    err = e
            if err is not None and not (op == 'make' and not must):
                viols.append(f'{at}: {type(err).__name__}: {err}')
                break
            # the model
            if op in ('parse', 'parse+'):
                for i in idx:
                    must[i] = may[i] = plus
            elif op in ('convert', 'convert+', 'mp', 'debug'):
                must = {i: plus for i in idx}
                may = {**may, **must}
                want = allowed = must
            elif op == 'make':
                want, allowed = must, may
                if not must and err is not None:
                    continue
            elif op == 'tables':
                exp = [t for i in idx for t in ref[f't{i}']]
                trace.append(digest(got))
                d = first_diff(got, exp)
                if d:
                    viols.append(f'{at}: tables {d}')
                for i in idx:
                    # whether this counts as parsing the page for a later make_docx is left open
                    must.pop(i, None)
                    may[i] = 0
                continue
            if op in ('make', 'convert', 'convert+', 'mp', 'debug'):
                if not os.path.exists(out):
                    viols.append(f'{at}: no docx')
                    break
                secs = sections(out)
                trace.append(digest(secs))
                d = judge(secs, want, allowed, ref)
                if d:
                    viols.append(f'{at}: {d}')
        cv.close()
        return res(viols, trace, transitions=len(scn))


def judge(secs, want, allowed, ref):
    ids = [round((s['sect']['w'] - 400) / 10) for s in secs]
    if ids != sorted(set(ids)) or not set(want) <= set(ids) or not set(ids) <= set(allowed):
        return f'pages {ids} instead of {sorted(want)}'
    for i, s in zip(ids, secs):
        plus = want.get(i, allowed.get(i))
        d = first_diff(s, ref[f's{i}{plus}'])
        if d:
            return f'page {i} differs from the page converted by a new converter: {d}'
    return None


def twin(page):
    '''The page with other pictures, colours and link targets, but the same objects at the same places.'''
    def other(e):
        if isinstance(e, dict):
            return {k: ((v + 0x334455) % 0x1000000 if k in ('color', 'fill') and isinstance(v, int) else other(v))
                    for k, v in e.items()}
        if isinstance(e, (list, tuple)):
            return [other(x) for x in e]
        if isinstance(e, str) and e.startswith('rgb:'):
            return f'rgb:{int(e[4:]) + 3}'
        if isinstance(e, str) and e.startswith('http'):
            return e.replace('http', 'https', 1) if not e.startswith('https') else e + '/x'
        return e
    return dict(page, els=other(page['els']))


class Documents(Family):
    name = 'documents'
    batch = 11
    bounds = ('every ordered pair of documents with one page of 22 kinds (the first one with other pictures, colours and links '
              'in the same objects): the second one converted, its tables extracted, '
              'after the first one was converted in the same process, with default or other settings, and kept open or '
              'closed; compared with the second one in a fresh process')

    def scenarios(self, tier):
        for i, (a, b) in enumerate(itertools.product(KINDS, repeat=2)):
            for how in (0, 1) if tier != 'quick' else (i % 2,):
                yield [a, b, how]

    @staticmethod
    def convert(kind, tmp, tag, how, keep=None):
        pdf, out = os.path.join(tmp, f'{tag}.pdf'), os.path.join(tmp, f'{tag}.docx')
        page = gallery(kind, tag)
        if tag == 'first':
            page = twin(page)
        build([page], pdf)
        with quiet():
            cv = Converter(pdf)
            cv.convert(out, kwargs=dict(MARGIN, extract_stream_table=True) if how else {})
            t = clean(cv.extract_tables(kwargs={'extract_stream_table': True} if how else {}))
            if keep is None:
                cv.close()
            else:
                keep.append(cv)
        return [sections(out), t]

    def run(self, scn, tmp):
        a, b, how = scn
        if b not in _DOC:
            _DOC[b] = in_child(lambda: self.convert(b, tmp, 'second', 0))

        def both():
            keep = []
            self.convert(a, tmp, 'first', how, keep if how else None)
            return self.convert(b, tmp, 'second', 0)

        # in a process of its own, so that nothing leaks into the fresh conversions of other scenarios
        got = in_child(both)
        d = first_diff(got, _DOC[b])
        return res([f'{b} converted after {a} differs: {d}'] if d else [], digest(got))


_DOC = {}


def families():
    return [Histories(), Documents()]
