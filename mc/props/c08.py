"""C08  Only the requested output is written, where it is expected; the PDF stays as it is."""
import itertools
import os
import sys
import tempfile
from ..env import Converter, quiet, pdf2docx
from ..explore import Family, res
from ..docs import build, sections, tree
from ..gallery import gallery
from .. import fakepool

LEVEL = 'model_checking'
NAMES = ['a.pdf', 'A.PDF', 'v1.2.pdf', 'a.pdf.pdf', 'a.docx.pdf', 'with space.Pdf', 'näme-文.pdf', 'noext', 'a.pdfx.pdf']
FOLDERS = ['', 'sub', 'x.pdf', 'pdf.pdf/y.PDF.d']
WAYS = ['convert', 'convert-given', 'convert-existing', 'make', 'mp', 'mp-given', 'func', 'func-given', 'cli', 'tables',
        'tablefunc', 'debug', 'debug-given', 'debug-out', 'debug-func', 'debug-func-out', 'serialize', 'parse']


def expected(way, folder, name, given):
    """{file: True} that may and must be new or changed, relative to the working folder"""
    stem = os.path.splitext(name)[0]
    default = os.path.join(folder, stem + '.docx')
    if way in ('convert', 'convert-existing', 'make', 'mp', 'func', 'cli'):
        return {default}
    if way in ('convert-given', 'mp-given', 'func-given'):
        return {given}
    if way in ('tables', 'tablefunc', 'parse'):
        return set()
    if way == 'serialize':
        return {'s.json'}
    if way == 'debug':
        return {default, os.path.join(folder, 'debug_' + name), os.path.join(folder, 'layout.json')}
    if way == 'debug-out':
        return {'out.dir/o.docx', os.path.join(folder, 'debug_' + name), os.path.join(folder, 'layout.json')}
    if way == 'debug-func-out':
        return {'out.dir/o.docx', os.path.join(folder, 'debug_' + name), 'layout.json'}
    if way == 'debug-func':
        return {default, os.path.join(folder, 'debug_' + name), 'layout.json'}
    if way == 'debug-given':
        return {given, 'dd.pdf', 'll.json'}
    raise ValueError(way)


class Footprint(Family):
    name = 'files'
    batch = 16
    bounds = ('9 file names (dots, upper case, several extensions, none, blanks, non-ASCII) x 4 folders (some named like '
              'a pdf) x relative or absolute path x 18 ways to use the converter (default and given output, existing '
              'output, several processes, functions, command line, table extraction, debugging with outputs in other folders, serializing)')

    def scenarios(self, tier):
        for way, name, folder, absolute in itertools.product(WAYS, NAMES, FOLDERS, (False, True)):
            if tier == 'quick' and name in NAMES[5:] and folder in ('sub', 'x.pdf'):
                continue
            yield [way, name, folder, absolute]

    def run(self, scn, tmp):
        way, name, folder, absolute = scn
        root = tempfile.mkdtemp(dir=tmp)
        work, t = os.path.join(root, 'w'), os.path.join(root, 't')
        os.makedirs(os.path.join(work, folder))
        os.makedirs(t)
        os.makedirs(os.path.join(work, 'out.dir'))
        os.chdir(work)
        os.environ['TMPDIR'] = t
        tempfile.tempdir = None
        pdf = os.path.join(folder, name)
        build([gallery('floatimg'), gallery('curve')], pdf)
        for f in ('other.docx', 'other.pdf', 'layout.bin'):
            with open(os.path.join(folder, f), 'w') as fh:
                fh.write('not mine')
        exp = expected(way, folder, name, 'given.out.docx')
        if way == 'convert-existing':
            for f in exp:
                with open(f, 'w') as fh:
                    fh.write('old')
        before = tree(work)
        arg = os.path.abspath(pdf) if absolute else pdf
        given = os.path.join(work, 'given.out.docx') if absolute else 'given.out.docx'
        fakepool.install(None, 2)
        err = None
        with quiet():
            try:
                if way == 'func':
                    pdf2docx.parse(arg)
                elif way == 'func-given':
                    pdf2docx.parse(arg, given)
                elif way == 'tablefunc':
                    pdf2docx.main.PDF2DOCX.table(arg)
                elif way == 'debug-func':
                    pdf2docx.main.PDF2DOCX.debug(arg)
                elif way == 'debug-func-out':
                    pdf2docx.main.PDF2DOCX.debug(arg, 0, os.path.join(work, 'out.dir', 'o.docx'))
                elif way == 'cli':
                    old, sys.argv = sys.argv, ['pdf2docx', 'convert', arg]
                    try:
                        pdf2docx.main.main()
                    finally:
                        sys.argv = old
                else:
                    cv = Converter(arg)
                    kw = {'multi_processing': True, 'cpu_count': 2}
                    {'convert': lambda: cv.convert(), 'convert-existing': lambda: cv.convert(),
                     'convert-given': lambda: cv.convert(given),
                     'make': lambda: cv.parse().make_docx(), 'parse': lambda: cv.parse(),
                     'mp': lambda: cv.convert(kwargs=kw), 'mp-given': lambda: cv.convert(given, kwargs=kw),
                     'tables': lambda: cv.extract_tables(),
                     'debug': lambda: cv.debug_page(0),
                     'debug-out': lambda: cv.debug_page(0, 'out.dir/o.docx'),
                     'debug-given': lambda: cv.debug_page(1, given, 'dd.pdf', 'll.json'),
                     'serialize': lambda: cv.parse().serialize('s.json')}[way]()
                    cv.close()
            except Exception as e:
                err = e
        viols = []
        if err is not None:
            viols.append(f'{type(err).__name__}: {err}')
        after = tree(work)
        changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
        if changed != exp:
            viols.append(f'files written or changed: {sorted(changed)}, expected: {sorted(exp)}')
        elif any(f.endswith('.docx') for f in exp):
            n = [len(sections(f)) for f in exp if f.endswith('.docx')]
            if n != [1 if 'debug' in way else 2]:
                viols.append(f'the docx has {n} sections')
        left = sorted(k for k in tree(t) if not k.startswith('pymp-'))
        if left:
            viols.append(f'temporary files left behind: {left}')
        return res(viols, sorted(changed))


def families():
    return [Footprint()]
