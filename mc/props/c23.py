"""C23  A converter is the sequence of the document's pages."""
import itertools
import os
from ..env import Converter, quiet
from ..explore import Family, res
from ..docs import build
from .. import simple

LEVEL = 'model_checking'


class Sequence(Family):
    name = 'sequence'
    batch = 1
    bounds = ('documents of 1..4 pages (thorough 1..6): length, iteration, every index from -N-2 to N+1, every slice with '
              'start and stop omitted or from -N-2 to N+2 and step omitted or from -3 to 3; model: the list of pages')

    def scenarios(self, tier):
        for n in range(1, 5 if tier == 'quick' else 7):
            for step in (None, -3, -2, -1, 1, 2, 3, 'index'):
                yield [n, step]

    def run(self, scn, tmp):
        n, step = scn
        pdf = os.path.join(tmp, 'a.pdf')
        build([simple.marked_page(i) for i in range(n)], pdf)
        viols, k = [], 0
        with quiet():
            cv = Converter(pdf)
            base = [cv[i] for i in range(n)]
            if len(cv) != n:
                viols.append(f'len {len(cv)} of {n} pages')
            if step == 'index':
                if [id(p) for p in cv] != [id(p) for p in base] or len({id(p) for p in base}) != n:
                    viols.append('iteration does not give each page once')
                for i in range(-n - 2, n + 2):
                    k += 1
                    try:
                        got = cv[i]
                    except IndexError:
                        got = IndexError
                    exp = base[i] if -n <= i < n else IndexError
                    if got is not exp:
                        viols.append(f'page {i} of {n}')
                for i, p in enumerate(base):
                    k += 1
                    p.parse()
                    if p.id != i or abs(p.width - 300 - 10 * i) > 1:
                        viols.append(f'index {i} gives page {p.id} of width {p.width}')
            else:
                r = [None] + list(range(-n - 2, n + 3))
                for a, b in itertools.product(r, repeat=2):
                    k += 1
                    s = slice(a, b, step)
                    if [id(p) for p in cv[s]] != [id(p) for p in base[s]]:
                        viols.append(f'pages[{a}:{b}:{step}] of {n}')
            cv.close()
        return res(viols[:5], k, n=k)


def families():
    return [Sequence()]
