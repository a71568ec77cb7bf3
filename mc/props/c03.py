"""C03  Conversions that run at the same time do not disturb each other, and leave nothing behind."""
import os
import tempfile
from ..explore import Family, res, digest
from ..docs import build, convert, sections, first_diff, tree
from .. import fakepool, simple, sched
from .c06 import in_child

LEVEL = 'model_checking'

# (mode of A, mode of B, same pdf?, PDFs and docx of the same names, in folders of their own?)
PAIRS = [('mp', 'mp', False, 0), ('mp', 'mp', True, 0), ('mp', 'seq', True, 0), ('seq', 'seq', True, 0),
         ('seq', 'seq', False, 0), ('seq', 'seq', False, 1), ('mp', 'mp', False, 1)]


def files(pair, name):
    """(pdf, docx) of conversion a or b"""
    if pair[3]:
        return f'{name}/x.pdf', f'{name}/x.docx'
    return ('a.pdf' if pair[2] else f'{name}.pdf'), f'out_{name}.docx'


def setup(pair, tmp):
    ma, mb, same, folders = pair
    work, t = os.path.join(tmp, 'work'), os.path.join(tmp, 'tmp')
    os.makedirs(work)
    os.makedirs(t)
    os.environ['TMPDIR'] = t
    tempfile.tempdir = None
    os.chdir(work)
    # A and B differ in every page unless they read the same file
    if folders:
        os.makedirs('a')
        os.makedirs('b')
    build([simple.marked_page(i) for i in (0, 1)], files(pair, 'a')[0])
    if not same:
        build([simple.marked_page(i) for i in (2, 3)], files(pair, 'b')[0])
    jobs = []
    for name, mode in (('a', ma), ('b', mb)):
        def go(name=name, mode=mode):
            pdf, out = files(pair, name)
            fakepool.install(None, 2)
            convert(pdf, out, kwargs={'multi_processing': mode == 'mp', 'cpu_count': 2})
        jobs.append(go)
    return work, t, jobs


class Interleavings(Family):
    name = 'two'
    batch = 1
    bounds = ('two conversions in one folder with one folder for temporary files, sequential or with several processes, of '
              'the same or of different documents, also with PDFs and outputs of the same names in folders of their own; every interleaving of their file-system operations with at most '
              '1 preemption (thorough 2)')

    def scenarios(self, tier):
        for pi, pair in enumerate(PAIRS):
            n = in_child(lambda: self.count(pair))
            for first in (0, 1):
                for i in range(0, n[first] + 1):
                    yield {'pair': pi, 'plan': [[first, i], [1 - first, None]]}
                    if tier != 'quick':
                        for j in range(1, n[1 - first]):
                            yield {'pair': pi, 'plan': [[first, i], [1 - first, j], [first, None]]}

    @staticmethod
    def count(pair):
        import shutil
        tmp = tempfile.mkdtemp(prefix='mc-c03-')
        try:
            work, t, jobs = setup(pair, tmp)
            return [s for s, _ in sched.run(jobs, [work, t], [])]
        finally:
            os.chdir('/')
            shutil.rmtree(tmp, ignore_errors=True)

    def run(self, scn, tmp):
        pair = PAIRS[scn['pair']]
        work, t, jobs = setup(pair, tmp)
        before = tree(work)
        r = sched.run(jobs, [work, t], [tuple(x) for x in scn['plan']])
        viols = []
        for (steps, err), name in zip(r, 'ab'):
            if err:
                viols.append(f'conversion {name} failed: {err}')
                continue
            want = [0, 1] if name == 'a' or pair[2] else [2, 3]
            out = files(pair, name)[1]
            got = simple.page_ids(out) if os.path.exists(out) else None
            if got != want:
                viols.append(f'conversion {name}: pages {got} instead of {want}')
        after = tree(work)
        extra = sorted(set(after) - set(before) - {files(pair, 'a')[1], files(pair, 'b')[1]})
        changed = [k for k in before if after.get(k) != before[k]]
        if extra or changed:
            viols.append(f'left behind: {extra}, changed or lost: {changed}')
        left = [k for k in tree(t) if not k.startswith('pymp-')]
        if left:
            viols.append(f'temporary files left behind: {left}')
        return res(viols, [s for s, _ in r], transitions=sum(s for s, _ in r))


def families():
    return [Interleavings()]
