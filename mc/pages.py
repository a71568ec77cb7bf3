"""Scenarios that are one PDF page each: many are converted together, as pages of one document."""
import os
from .env import Converter, quiet
from .explore import Family, res, Fail
from .pdfgen import make_pdf
from .docxobs import Docx


def convert_pages(pages, tmp, kwargs=None, tables=False, store=False, name='x'):
    """[page description] -> list of observations, one per page (None: the page is not in the output)"""
    pdf, out = os.path.join(tmp, name + '.pdf'), os.path.join(tmp, name + '.docx')
    make_pdf(pages, pdf)
    with quiet():
        cv = Converter(pdf)
        try:
            cv.convert(out, kwargs=dict(kwargs or {}))
            tabs = [cv[i].extract_tables() for i in range(len(pages))] if tables else None
            raw = cv.store() if store else None
        finally:
            cv.close()
    d = Docx(out)
    os.remove(out)
    os.remove(pdf)
    if len(d.sections) != len(pages):
        return None
    r = []
    for i, s in enumerate(d.sections):
        s = dict(s)
        if tables:
            s['extracted'] = tabs[i]
        if store:
            ps = [p for p in raw['pages'] if p['id'] == i]
            s['stored'] = ps[0] if ps else None
        r.append(s)
    return r


class PageFamily(Family):
    batch = 12
    kwargs = None
    tables = False
    store = False

    def page(self, scn):
        raise NotImplementedError

    def check(self, scn, obs):
        """-> (violations, outcome)"""
        raise NotImplementedError

    def settings(self, scn):
        return self.kwargs

    def run_many(self, scns, tmp):
        groups = {}
        for i, s in enumerate(scns):
            k = repr(self.settings(s))
            groups.setdefault(k, []).append(i)
        out = [None] * len(scns)
        for idx in groups.values():
            obs = convert_pages([self.page(scns[i]) for i in idx], tmp, self.settings(scns[idx[0]]),
                                self.tables, self.store)
            if obs is None:
                if len(scns) > 1:
                    return None     # the engine runs each one alone then
                raise Fail('the page is not in the output')
            for i, o in zip(idx, obs):
                v, oc = self.check(scns[i], o)
                out[i] = res(v, oc)
        return out

    def run(self, scn, tmp):
        return self.run_many([scn], tmp)[0]
