"""C01  Exactly the specified pages are converted / searched for tables."""
import itertools
import os
import sys
from ..env import Converter, quiet, pdf2docx
from ..explore import Family, res
from ..pdfgen import make_pdf
from .. import simple

LEVEL = 'model_checking'


def selection(n, start, end, pages, one_based=False):
    """The reference model: page numbers selected by the documented rules, in document order."""
    if pages:
        idx = [p - 1 for p in pages] if one_based else list(pages)
        return sorted({i for i in idx if 0 <= i < n})
    s = start if not one_based else max(start - 1, 0)
    e = n if end is None else (end - 1 if one_based else end)
    return list(range(s, min(e, n)))


def arg_space(n, list_len, one_based=False):
    lo = 1 if one_based else 0
    for start in range(0, n + 2):
        for end in [None] + list(range(lo, n + 2)):
            yield start, end, None
    for k in range(1, list_len + 1):
        for p in itertools.product(range(-1, n + 2), repeat=k):
            yield 0, None, list(p)
    for p in ([0], [n - 1], [1, 0]):     # pages has priority over start/end
        for start, end in itertools.product((0, 1, n), (None, 1, n)):
            yield start, end, p


class Select(Family):
    name = 'select'
    batch = 40
    bounds = ('documents of N pages (quick N in 1,3; thorough 1..4); start 0..N+1, end omitted or 0..N+1; page lists '
              'over -1..N+1 up to length 2 (quick) / 3 (thorough), repeated and unordered ones included; zero- and '
              'one-based; entry points: Converter.convert, convert function, Converter.parse+make_docx, '
              'Converter.extract_tables, table function, command line')

    def scenarios(self, tier):
        for n in ((1, 3) if tier == 'quick' else (1, 2, 3, 4)):
            L = 2 if tier == 'quick' or n == 4 else 3
            for api in ('convert', 'func', 'tables', 'tablefunc', 'parse', 'func1', 'table1', 'cli', 'cli1'):
                if api == 'parse':
                    for k in range(0, L + 1):
                        for p in itertools.product(range(n), repeat=k):
                            yield {'api': api, 'n': n, 'pages': list(p)}
                    yield {'api': api, 'n': n, 'pages': None}
                    continue
                for s, e, p in arg_space(n, L, api.endswith('1')):
                    if api.startswith('cli') and (p is None or len(p) > 1 or s or e):
                        if p and min(p) < 0:
                            continue
                    elif api.startswith('cli'):
                        continue
                    yield {'api': api, 'n': n, 'start': s, 'end': e, 'pages': p}

    def run_many(self, scns, tmp):
        return [self.run(s, tmp) for s in scns]

    def run(self, scn, tmp):
        n, api = scn['n'], scn['api']
        pdf, out = os.path.join(tmp, f'n{n}.pdf'), os.path.join(tmp, 'out.docx')
        if not os.path.exists(pdf):
            make_pdf([simple.marked_page(i) for i in range(n)], pdf)
        if os.path.exists(out):
            os.remove(out)
        pages = scn['pages']
        start, end = scn.get('start', 0), scn.get('end')
        if api == 'parse':
            want = list(range(n)) if pages is None else sorted(set(pages))
        else:
            want = selection(n, start, end, pages, api.endswith('1'))
        kw = {} if not api.endswith('1') else {'zero_based_index': False}
        tables = err = None
        with quiet():
            try:
                if api == 'convert':
                    cv = Converter(pdf)
                    cv.convert(out, start, end, pages)
                    cv.close()
                elif api in ('func', 'func1'):
                    f = pdf2docx.parse if (start + (end or 0)) % 2 else pdf2docx.main.PDF2DOCX.convert
                    f(pdf, out, start, end, pages, **kw)
                elif api == 'parse':
                    cv = Converter(pdf)
                    cv.parse(pages).make_docx(out)
                    cv.close()
                elif api == 'tables':
                    cv = Converter(pdf)
                    tables = cv.extract_tables(start, end, pages)
                    cv.close()
                elif api in ('tablefunc', 'table1'):
                    tables = pdf2docx.main.PDF2DOCX.table(pdf, start, end, pages, **kw)
                else:
                    argv = ['pdf2docx', 'convert', pdf, out, f'--start={start}']
                    if end is not None:
                        argv.append(f'--end={end}')
                    if pages:
                        argv.append('--pages=' + ','.join(map(str, pages)) + (',' if len(pages) == 1 else ''))
                    if api == 'cli1':
                        argv.append('--zero_based_index=False')
                    old, sys.argv = sys.argv, argv
                    try:
                        pdf2docx.main.main()
                    finally:
                        sys.argv = old
            except Exception as e:
                err = e
        viols = []
        if api in ('tables', 'tablefunc', 'table1'):
            if err is not None:
                return res([f'{type(err).__name__}: {err}'])
            got = [t[0][0] for t in tables]
            exp = [f'T{i}a' for i in want]
            if got != exp:
                viols.append(f'tables of pages {want} expected ({exp}), got {got}')
            return res(viols, got)
        if not want:
            # nothing to convert: whatever it says, no page may be put out
            got = simple.page_ids(out) if os.path.exists(out) else []
            if got:
                viols.append(f'no page is selected, the docx has pages {got}')
            return res(viols, 'none')
        if err is not None or not os.path.exists(out):
            return res([f'pages {want} expected, no docx: {type(err).__name__}: {err}'])
        got = simple.page_ids(out)
        if got != want:
            viols.append(f'pages {want} expected, the docx has {got}')
        return res(viols, got)


def families():
    return [Select()]
