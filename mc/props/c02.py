"""C02  Converting with several processes gives the document that one process gives."""
import itertools
import os
from ..explore import Family, res, digest, Fail
from ..docs import build, convert, sections, first_diff
from ..gallery import gallery, KINDS
from .. import fakepool, simple
from .c06 import in_child

LEVEL = 'model_checking'


def assignments(n):
    """restricted growth strings: which tasks share a worker"""
    def rec(prefix, k):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for w in range(k + 1):
            yield from rec(prefix + [w], max(k, w + 1))
    yield from rec([], 0)


def schedules(n):
    for order in itertools.permutations(range(n)):
        for a in assignments(n):
            yield [(t, a[t]) for t in order]


DOCS = [['text', 'ruled', 'rot90', 'floatimg'], ['columns', 'curve', 'shaded', 'nested'],
        ['rot270', 'marks', 'inlineimg', 'vertical'], ['empty', 'link', 'implicit', 'manyfonts']]


def run(pages, kw, sel, tmp, how):
    pdf, out, ref = (os.path.join(tmp, n) for n in ('x.pdf', 'x.docx', 'ref.docx'))
    build(pages, pdf)

    def sequential():
        convert(pdf, ref, **sel)
        return sections(ref)
    want = in_child(sequential)
    how()
    convert(pdf, out, kwargs=dict(kw, multi_processing=True), **sel)
    got = sections(out)
    d = first_diff(got, want, 'docx')
    return ([f'with several processes: {d}'] if d else []), digest(got)


class Schedules(Family):
    name = 'schedules'
    batch = 6
    bounds = ('4 documents of 4 different pages (16 page kinds); 1..3 tasks (thorough: 4): every order of the tasks and '
              'every assignment of tasks to worker processes')

    def scenarios(self, tier):
        for di in range(len(DOCS)):
            for n in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
                if n == 4 and di > 1:
                    continue
                for s in schedules(n):
                    yield {'doc': di, 'cpu': n, 'schedule': s}

    def run(self, scn, tmp):
        pages = [gallery(k, f't{i}') for i, k in enumerate(DOCS[scn['doc']])]
        v, o = run(pages, {'cpu_count': scn['cpu']}, {}, tmp,
                   lambda: fakepool.install([tuple(x) for x in scn['schedule']]))
        return res(v, o)


class Splits(Family):
    name = 'splits'
    batch = 6
    bounds = ('documents of 1..5 pages (thorough 1..9); selections: all, each start/end pair, page lists incl. unordered '
              'and repeated ones; cpu_count omitted or 1..6 (thorough 1..10) on machines with 1..4 (8) cores')

    def scenarios(self, tier):
        q = tier == 'quick'
        for n in range(1, 6 if q else 10):
            for cpu in [None] + list(range(1, 7 if q else 11)):
                for cores in (1, 2, 4) if q else (1, 2, 3, 4, 8):
                    yield {'n': n, 'cpu': cpu, 'cores': cores, 'sel': {}}
        for n in (3, 5):
            sels = [{'start': s, 'end': e} for s in range(n) for e in range(s + 1, n + 1)]
            sels += [{'pages': list(p)} for k in (1, 2) for p in itertools.product(range(n), repeat=k)]
            sels += [{'pages': p} for p in ([2, 0, 1], [0, 0, 2], [n, 0], [-1, 1], list(range(n))[::-1])]
            for sel in sels:
                for cpu in (1, 2, 3) if q else (1, 2, 3, 4, 5, 8):
                    yield {'n': n, 'cpu': cpu, 'cores': 8, 'sel': sel}

    def run(self, scn, tmp):
        pages = [simple.marked_page(i) for i in range(scn['n'])]
        kw = {} if scn['cpu'] is None else {'cpu_count': scn['cpu']}
        v, o = run(pages, kw, scn['sel'], tmp, lambda: fakepool.install(None, scn['cores']))
        return res(v, o)


class RealPool(Family):
    name = 'real'
    batch = 1
    bounds = 'the same through the real process pool (binds the pool under control to the real one)'

    def scenarios(self, tier):
        for di in range(len(DOCS)):
            for cpu in (None, 1, 2, 3, 4) if tier != 'quick' else (None, 2):
                yield {'doc': di, 'cpu': cpu}

    def run(self, scn, tmp):
        pages = [gallery(k, f't{i}') for i, k in enumerate(DOCS[scn['doc']])]
        kw = {} if scn['cpu'] is None else {'cpu_count': scn['cpu']}
        v, o = run(pages, kw, {}, tmp, lambda: None)
        return res(v, o)


def families():
    return [Splits(), Schedules(), RealPool()]
