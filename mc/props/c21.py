"""C21  A debug run only observes: it gives the docx of a normal run, and the layout it was made from."""
import json
import os
from ..env import Converter, quiet, fitz
from ..explore import Family, res, digest
from ..docs import build, convert, sections, first_diff, sha
from ..gallery import gallery, mix, KINDS

LEVEL = 'model_checking'


class Debug(Family):
    name = 'debug'
    batch = 8
    bounds = ('each of 22 kinds of pages as first or second of two pages, and every combination of 8 (thorough 10) page '
              'parts, in sizes of whole points with default settings and in others with other settings; each run normally and as debug run')

    def scenarios(self, tier):
        for k in KINDS:
            for pos in (0, 1):
                for s in (0, 1):
                    yield [k, pos, s]
        for m in range(1, 2 ** (8 if tier == 'quick' else 10)):
            yield [m, 0, m & 1]

    def run(self, scn, tmp):
        k, pos, s = scn
        pdf, out, out2, dbg, lay = (os.path.join(tmp, x) for x in ('a.pdf', 'a.docx', 'b.docx', 'd.pdf', 'l.json'))
        page = gallery(k) if isinstance(k, str) else mix(k)
        if s:
            page = dict(page, size=[page['size'][0] + 0.7, page['size'][1] + 0.8])
        build([page, gallery('text')] if pos == 0 else [gallery('columns'), page], pdf)
        h = sha(pdf)
        kw = {'page_margin_factor_top': 0.9, 'clip_image_res_ratio': 2.0, 'line_separate_threshold': 8.0} if s else {}
        for f in (out, out2, dbg, lay):
            if os.path.exists(f):
                os.remove(f)
        with quiet():
            cv = Converter(pdf)
            cv.convert(out, pages=[pos], kwargs=dict(kw))
            layout = json.loads(json.dumps(cv.store()))
            cv.close()
            cv = Converter(pdf)
            cv.debug_page(pos, out2, dbg, lay, dict(kw))
            cv.close()
        viols = []
        d = first_diff(sections(out2), sections(out))
        if d:
            viols.append(f'the docx differs from that of a normal run: {d}')
        with open(lay) as f:
            got = json.load(f)
        d = first_diff(got, layout)
        if d:
            viols.append(f'the layout differs from that of a normal run: {d}')
        if sha(pdf) != h:
            viols.append('the pdf was changed')
        n = -1
        if not os.path.exists(dbg):
            viols.append('no debug pdf')
        else:
            doc = fitz.open(dbg)
            n = len(doc)
            bad = [p.number for p in doc if abs(p.rect.width - page['size'][0]) > 0.1 or
                   abs(p.rect.height - page['size'][1]) > 0.1]
            doc.close()
            if not n or bad:
                viols.append(f'debug pdf of {n} pages; of another size than the page: {bad}')
        return res(viols, [n, digest(got)], n=2)


def families():
    return [Debug()]
