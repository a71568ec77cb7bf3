"""setup: nothing to build; checks the machinery itself (not the code) and fails early where it cannot be relied on.

The picture generator against MuPDF's rendering, the page generator against MuPDF's reading of the text, the docx reader
against python-docx, the tilings against their known numbers, and the reading of a schedule's orders.
"""
import itertools
import os
import shutil
import sys
import tempfile
from . import env  # noqa: F401
from . import imgs, tiling
from .docs import build, convert
from .docxobs import Docx
from .env import fitz
from .gallery import gallery, KINDS
from .pdfgen import draw_page, make_pdf
from .simple import marked_page, page_ids


def pictures():
    n = 0
    for cs, mask, how, m, rot in itertools.product(('rgb', 'cmyk', 'index', 'stencil'), (None, 'soft', 'small', 'stencil'),
                                                   ('x', 'inline', 'form'), (0, 1, 3, 4, 6), (0, 90)):
        if mask and (how == 'inline' or cs != 'rgb'):
            continue
        doc = fitz.open()
        p = doc.new_page(width=120, height=100)
        p.set_rotation(rot)
        spec = {'cs': cs, 'mask': mask, 'how': how, 'm': m, 'w': 4, 'h': 4}
        rect = [20, 20, 60, 60]
        imgs.place(doc, p, spec, [rect])
        bad = imgs.rendered(p, spec, rect, 3 if cs != 'cmyk' else 80)
        assert bad == 0, (spec, rot, bad)
        n += 1
    return n


def texts():
    n = 0
    for rot in (0, 90, 180, 270):
        doc = fitz.open()
        draw_page(doc, {'size': [300, 200], 'rot': rot, 'els': [['text', 40, 60, 'Some words'], ['rect', 50, 80, 90, 120, {}]]})
        w = doc[0].get_text('words')
        at = [fitz.Rect(x[:4]) * doc[0].rotation_matrix for x in w]
        assert abs(at[0].x0 - 40) < 1 and at[0].y0 < 60 < at[0].y1 + 1, (rot, at)
        n += 1
    return n


def displays():
    """rotation, crop box and origin of the generated pages do not change what MuPDF shows"""
    import numpy
    n = 0
    for k in KINDS:
        p = gallery(k)
        if p.get('rot'):
            continue
        doc = fitz.open()
        for how in ({}, {'rot': 90}, {'rot': 180, 'boxes': {'crop': [0, 30, 10, 20]}},
                    {'rot': 270, 'boxes': {'shift': [-70, 20]}}, {'boxes': {'crop': [30, 0, 10, 5], 'shift': [40, 1000]}}):
            draw_page(doc, {**p, **how})
        a = None
        for q in doc:
            x = q.get_pixmap(alpha=False)
            b = numpy.frombuffer(x.samples, numpy.uint8).reshape(x.height, x.stride)[:, :3 * x.width].astype(int)
            a = b if a is None else a
            assert a.shape == b.shape and (numpy.abs(a - b) > 80).mean() < 0.01, (k, q.number, (numpy.abs(a - b) > 80).mean())
            n += 1
    return n


def reader(tmp):
    import docx
    n = 0
    make_pdf([gallery(k) for k in ('text', 'ruled', 'merged', 'columns', 'justify')], os.path.join(tmp, 'g.pdf'))
    try:
        convert(os.path.join(tmp, 'g.pdf'), os.path.join(tmp, 'g.docx'))
    except Exception as e:      # the checks will say so
        print('conversion fails:', e, file=sys.stderr)
        return 0
    d = docx.Document(os.path.join(tmp, 'g.docx'))
    mine = Docx(os.path.join(tmp, 'g.docx'))
    own = [b for s in mine.sections for b in s['blocks']]
    pars = [b['text'] for b in own if b['kind'] == 'p']
    theirs = [p.text for p in d.paragraphs]
    norm = lambda x: [''.join(t.split()) for t in x if t.strip()]
    assert norm(pars) == norm(theirs), (norm(pars), norm(theirs))
    assert len([b for b in own if b['kind'] == 'tbl']) == len(d.tables)
    for a, b in zip([b for b in own if b['kind'] == 'tbl'], d.tables):
        ta = [''.join(''.join(q['text'] for q in c['blocks'] if q['kind'] == 'p').split()) for r in a['rows'] for c in r['cells']]
        tb = [''.join(''.join(q.text for q in docx.table._Cell(c, b).paragraphs).split()) for c in b._tbl.iter_tcs()]
        assert ta == tb, (ta, tb)
        n += 1
    return n


def main():
    tmp = tempfile.mkdtemp(prefix='mc-setup-')
    try:
        os.chdir(tmp)
        build([marked_page(0)], 'a.pdf')
        try:
            convert('a.pdf', 'a.docx')
            print('pages', page_ids('a.docx'))
        except Exception as e:      # the checks will say so
            print('conversion fails:', e, file=sys.stderr)
        print('pictures', pictures())
        print('texts', texts())
        print('displays', displays())
        print('tables read', reader(tmp))
        got = [sum(1 for _ in tiling.tilings(*x)) for x in ((1, 3), (2, 2), (2, 3), (3, 3))]
        assert got == [4, 8, 34, 322], got
        print('tilings', got)
    finally:
        os.chdir('/')
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
