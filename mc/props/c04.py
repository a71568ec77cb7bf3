"""C04  A page that cannot be converted does not affect the others."""
import itertools
import os
import sys
from ..env import Converter, quiet, REPO, fitz
from ..explore import Family, res, digest
from ..docs import build, sections, first_diff, convert
from ..gallery import gallery
from .. import simple, fakepool
from .c06 import in_child

LEVEL = 'fault_enumeration'
SRC = os.path.realpath(os.path.join(REPO, 'pdf2docx')) + os.sep
KINDS = ['nested', 'floatimg', 'marks', 'curve', 'rot90', 'columns', 'link', 'vertical', 'scan', 'merged']


class Boom(Exception):
    pass


class Faults:
    """Counts the calls made while a page is parsed or put out; raises instead of the call number `at`,
    or of the first call at the place `at` = (phase, key)."""

    def __init__(self, page, phase, at=None, exc=Boom, collect=False):
        self.page, self.phase, self.at, self.exc = page, phase, at, exc
        self.n, self.fired, self.keys = 0, False, {} if collect else None

    def prof(self, frame, event, arg):
        if event == 'call':
            caller = frame.f_back
            if caller is None or not caller.f_code.co_filename.startswith(SRC):
                return
            key = (frame.f_code.co_filename, frame.f_code.co_name)
        elif event == 'c_call':
            caller = frame
            if not caller.f_code.co_filename.startswith(SRC):
                return
            if getattr(arg, '__module__', None) in ('builtins', None):
                return
            key = ('c', arg.__name__)
        else:
            return
        i = self.n
        self.n += 1
        if self.keys is not None:
            k = (caller.f_code.co_filename, caller.f_lineno, key)
            self.keys.setdefault(k, []).append(i)
        if self.at is not None and i == self.at and not self.fired:
            self.fired = True
            raise self.exc('injected')

    def __enter__(self):
        orig = getattr(self.page, self.phase)

        def wrapped(*a, **k):
            sys.setprofile(self.prof)
            try:
                return orig(*a, **k)
            finally:
                sys.setprofile(None)
        setattr(self.page, self.phase, wrapped)
        return self

    def __exit__(self, *a):
        delattr(self.page, self.phase)


def sized(kind, i):
    p = gallery(kind, 'pqr'[i])
    w, h = p['size']
    p['size'] = [w + 10 * i, h]
    return p


def document(kind, pos):
    kinds = ['text', 'ruled']
    kinds.insert(pos, kind)
    return [sized(k, i) for i, k in enumerate(kinds)]


def others_ok(got, ref, pos, what):
    """what is left of page pos, if anything, is one section in its place; all others are as in the reference"""
    exp = [s for i, s in enumerate(ref) if i != pos]
    if len(got) not in (len(ref), len(exp)):
        return f'{what}: {len(got)} sections in a document of {len(ref)} pages'
    d = first_diff(got if len(got) == len(exp) else got[:pos] + got[pos + 1:], exp)
    return f'{what}: other pages are affected: {d}' if d else None


def run_with(pdf, out, pos, phase, at=None, collect=False, again=False, exc=Boom):
    with quiet():
        cv = Converter(pdf)
        try:
            with Faults(cv[pos], phase, at, exc, collect) as f:
                err = None
                try:
                    cv.convert(out)
                except Exception as e:
                    err = e
            if again and err is None:
                cv.convert(again)
        finally:
            cv.close()
    return f, err


def points(kind, pos, phase, tier):
    """indices of the calls to fail: the first of each (call site, callee) and the last; thorough: up to 4"""
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix='mc-c04-')
    try:
        pdf, out = os.path.join(tmp, 'a.pdf'), os.path.join(tmp, 'a.docx')
        build(document(kind, pos), pdf)
        f, err = run_with(pdf, out, pos, phase, collect=True)
        if err:
            return []
        sites, r = {}, set()
        for (fn, line, key), v in f.keys.items():
            sites.setdefault((fn, line if tier != 'quick' else None, key), []).extend(v)
        for v in sites.values():
            v.sort()
            n = len(v)
            r.update({v[0]} if tier == 'quick' else {v[0], v[-1], v[n // 2], v[n // 3]})
        return sorted(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class Calls(Family):
    name = 'calls'
    batch = 12
    bounds = ('documents of three pages, one of them (quick: 5 kinds, in the middle; thorough: 10 kinds, at every place) '
              'failing: an exception instead of a call made by the code while that page is parsed or put out (quick: '
              'first call per calling file and callee; thorough: up to four per call site and callee); the '
              'same converter then converts again without a fault')

    def scenarios(self, tier):
        for kind in (KINDS if tier != 'quick' else KINDS[:5]):
            for pos in ((1,) if tier == 'quick' and kind != 'nested' else (1, 0, 2)):
                for phase in ('parse', 'make_docx'):
                    for at in in_child(lambda: points(kind, pos, phase, tier)):
                        yield [kind, pos, phase, at]

    def run(self, scn, tmp):
        kind, pos, phase, at = scn
        d = os.path.join(tmp, f'{kind}{pos}')
        pdf, out, out2 = (os.path.join(d, x) for x in ('a.pdf', 'a.docx', 'b.docx'))
        if not os.path.exists(d):
            os.makedirs(d)
            build(document(kind, pos), pdf)
        key = (kind, pos)
        if key not in _REF:
            def ref():
                convert(pdf, out)
                return sections(out)
            _REF[key] = in_child(ref)
        ref = _REF[key]
        for p in (out, out2):
            if os.path.exists(p):
                os.remove(p)
        f, err = run_with(pdf, out, pos, phase, at, again=out2)
        if err is not None:
            return res([f'the fault in page {pos} ended the conversion: {type(err).__name__}: {err}'])
        viols = []
        got = sections(out)
        v = others_ok(got, ref, pos, f'fault in {phase} of page {pos}')
        if v:
            viols.append(v)
        v = others_ok(sections(out2), ref, pos, f'converted again after a fault in {phase} of page {pos}')
        if v:
            viols.append(v)
        return res(viols, [len(got), digest(got)], n=2)


_REF = {}
EXC = [RuntimeError, ValueError, KeyError, TypeError, ZeroDivisionError, IndexError, AttributeError, OSError, MemoryError,
       AssertionError, NotImplementedError, RecursionError, StopIteration, fitz.FileDataError]


class Kinds(Family):
    name = 'exceptions'
    batch = 10
    bounds = ('documents of three pages, each of which fails when parsed, fails when put out, or does not fail (all 27 '
              'combinations), with 14 types of exceptions; an earlier output file is in place')

    def scenarios(self, tier):
        for how in itertools.product(('', 'parse', 'make_docx'), repeat=3):
            if any(how):
                for e in range(len(EXC)):
                    yield [list(how), e]

    def run(self, scn, tmp):
        how, e = scn
        pdf, out = os.path.join(tmp, 'a.pdf'), os.path.join(tmp, 'a.docx')
        if not os.path.exists(pdf):
            build([simple.marked_page(i) for i in range(3)], pdf)
        with open(out, 'w') as f:
            f.write('earlier output')
        err = None

        def boom(*a, **k):
            raise EXC[e]('injected')
        with quiet():
            cv = Converter(pdf)
            for i, h in enumerate(how):
                if h:
                    setattr(cv[i], h, boom)
            try:
                cv.convert(out)
            except Exception as x:
                err = x
            for i, h in enumerate(how):
                if h:
                    delattr(cv[i], h)
            cv.close()
        return res(*judge(out, err, [i for i in range(3) if not how[i]], [i for i in range(3) if how[i]],
                          all(h == 'parse' for h in how)))


def judge(out, err, good, bad, none_left):
    viols = []
    if none_left:
        if err is None:
            viols.append('no page can be converted, but no error is raised')
        with open(out, 'rb') as f:
            if f.read() != b'earlier output':
                viols.append('no page can be converted, but an earlier output file was changed')
        return viols, 'none'
    if err is not None:
        return [f'pages {bad} fail, the conversion ended with {type(err).__name__}: {err}'], None
    got = simple.page_ids(out)
    ok = [g for g in got if g in good]
    if ok != good or len(got) > len(good) + len(bad):
        viols.append(f'pages {bad} fail; the document has {got} instead of {good}')
    return viols, got


class Broken(Family):
    name = 'inputs'
    batch = 8
    bounds = ('documents of 4 (thorough 5) pages, every subset of which is really broken (a picture of zero width, or '
              'garbage for a JPEG), converted at once, by parse and make_docx, with several processes, and searched for '
              'tables')

    def scenarios(self, tier):
        n = 4 if tier == 'quick' else 5
        for k in (0, 1):
            for m in range(1, 2 ** n):
                for api in ('convert', 'parse', 'mp', 'tables'):
                    yield [k, n, m, api]

    def run(self, scn, tmp):
        k, n, m, api = scn
        pdf, out = os.path.join(tmp, f'{k}-{m}.pdf'), os.path.join(tmp, 'a.docx')
        bad = [i for i in range(n) if m >> i & 1]
        good = [i for i in range(n) if i not in bad]
        if not os.path.exists(pdf):
            pages = [simple.marked_page(i) for i in range(n)]
            for i in bad:
                pages[i]['els'].append(['image', 200, 20, 240, 50, f'rgb:{i}'])
            build(pages, pdf)
            doc = fitz.open(pdf)
            for i in bad:
                x = doc[i].get_images()[0][0]
                if k == 0:
                    doc.xref_set_key(x, 'Width', '0')
                else:
                    doc.update_stream(x, b'garbage')
                    doc.xref_set_key(x, 'Filter', '/DCTDecode')
            doc.saveIncr()
            doc.close()
        with open(out, 'w') as f:
            f.write('earlier output')
        err = tables = None
        with quiet():
            cv = Converter(pdf)
            try:
                if api == 'convert':
                    cv.convert(out)
                elif api == 'parse':
                    cv.parse().make_docx(out)
                elif api == 'mp':
                    fakepool.install(None, 2)
                    cv.convert(out, kwargs={'multi_processing': True, 'cpu_count': 2})
                else:
                    tables = cv.extract_tables()
            except Exception as x:
                err = x
            cv.close()
        if api == 'tables':
            if err is not None:
                return res([f'pages {bad} fail, extracting tables ended with {type(err).__name__}: {err}'])
            got = [t[0][0] for t in tables]
            exp = [f'T{i}a' for i in good]
            v = [] if [g for g in got if g in exp] == exp else [f'pages {bad} fail; tables {got} instead of {exp}']
            return res(v, got)
        if not good and err is None:
            return res([], 'converted all the same')
        return res(*judge(out, err, good, bad, not good))


def families():
    return [Calls(), Kinds(), Broken()]
