"""Reads a .docx back from its XML with lxml alone (no python-docx, no pdf2docx)."""
import hashlib
import zipfile
from lxml import etree

W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'
R = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
WP = '{http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing}'
A = '{http://schemas.openxmlformats.org/drawingml/2006/main}'
EMU = 12700.0


def _val(e, name='val'):
    return e.get(W + name) if e is not None else None


def _on(e):
    """a w:b-like toggle"""
    if e is None:
        return False
    return e.get(W + 'val') not in ('0', 'false', 'none')


class Docx:
    def __init__(self, path):
        with zipfile.ZipFile(path) as z:
            bad = z.testzip()
            assert bad is None, bad
            self.names = z.namelist()
            self.parts = {n: z.read(n) for n in self.names}
        self.root = etree.fromstring(self.parts['word/document.xml'])
        self.rels = {}
        rel = self.parts.get('word/_rels/document.xml.rels')
        if rel:
            for e in etree.fromstring(rel):
                self.rels[e.get('Id')] = (e.get('Type').rsplit('/', 1)[-1], e.get('Target'), e.get('TargetMode'))
        self.body = self.root.find(W + 'body')
        self.sections = self._sections()

    # ---- structure
    def _sections(self):
        res, blocks = [], []
        for e in self.body:
            if e.tag == W + 'p':
                blocks.append(self._p(e))
                sp = e.find(W + 'pPr/' + W + 'sectPr')
                if sp is not None:
                    # the paragraph that only carries the section break is no content of the page
                    if not blocks[-1]['runs'] and not blocks[-1]['images']:
                        blocks.pop()
                    res.append((self._sect(sp), blocks))
                    blocks = []
            elif e.tag == W + 'tbl':
                blocks.append(self._tbl(e))
            elif e.tag == W + 'sectPr':
                res.append((self._sect(e), blocks))
                blocks = []
        return [{'sect': s, 'blocks': b} for s, b in res]

    def _sect(self, e):
        sz, mar = e.find(W + 'pgSz'), e.find(W + 'pgMar')
        g = lambda n, k: int(n.get(W + k)) / 20.0 if n is not None and n.get(W + k) is not None else None
        return {'w': g(sz, 'w'), 'h': g(sz, 'h'), 'left': g(mar, 'left'), 'right': g(mar, 'right'),
                'top': g(mar, 'top'), 'bottom': g(mar, 'bottom'), 'type': _val(e.find(W + 'type')),
                'orient': sz.get(W + 'orient') if sz is not None else None}

    def _p(self, e):
        ppr = e.find(W + 'pPr')
        d = {'kind': 'p', 'runs': [], 'images': [], 'tabs': []}
        if ppr is not None:
            sp, ind = ppr.find(W + 'spacing'), ppr.find(W + 'ind')
            f = lambda n, k: (int(n.get(W + k)) / 20.0 if n is not None and n.get(W + k) is not None else 0.0)
            d['before'], d['after'] = f(sp, 'before'), f(sp, 'after')
            d['line'] = f(sp, 'line')
            d['rule'] = sp.get(W + 'lineRule') if sp is not None else None
            d['left'] = f(ind, 'left') or f(ind, 'start')
            d['right'] = f(ind, 'right') or f(ind, 'end')
            d['first'] = f(ind, 'firstLine') - f(ind, 'hanging')
            d['jc'] = _val(ppr.find(W + 'jc'))
            d['tabs'] = [int(t.get(W + 'pos')) / 20.0 for t in ppr.findall(W + 'tabs/' + W + 'tab')]
        for r in e.iter(W + 'r'):
            # pdf2docx puts w:hyperlink inside an (outer) run: take the innermost runs only
            if any(x.tag == W + 'hyperlink' for x in r):
                outer = r
                for x in r:
                    if x.tag == W + 'hyperlink':
                        for rr in x.iter(W + 'r'):
                            self._run(rr, d, self.rels.get(x.get(R + 'id')), outer)
                continue
            anc = r.getparent()
            if anc.tag == W + 'hyperlink' and anc.getparent().tag == W + 'r':
                continue  # done above
            link = self.rels.get(anc.get(R + 'id')) if anc.tag == W + 'hyperlink' else None
            self._run(r, d, link, None)
        d['text'] = ''.join(x['text'] for x in d['runs'])
        return d

    def _run(self, r, d, link, outer):
        text = ''
        for c in r:
            if c.tag == W + 't':
                text += c.text or ''
            elif c.tag == W + 'tab':
                text += '\t'
            elif c.tag in (W + 'br', W + 'cr'):
                text += '\n'
            elif c.tag == W + 'drawing':
                self._drawing(c, d)
        st = {}
        for rpr in ([outer.find(W + 'rPr')] if outer is not None else []) + [r.find(W + 'rPr')]:
            if rpr is None:
                continue
            f = rpr.find(W + 'rFonts')
            if f is not None:
                st['font'] = f.get(W + 'ascii')
                st['eastasia'] = f.get(W + 'eastAsia')
            if rpr.find(W + 'b') is not None:
                st['b'] = _on(rpr.find(W + 'b'))
            if rpr.find(W + 'i') is not None:
                st['i'] = _on(rpr.find(W + 'i'))
            if rpr.find(W + 'strike') is not None:
                st['strike'] = _on(rpr.find(W + 'strike'))
            u = rpr.find(W + 'u')
            if u is not None:
                st['u'] = _on(u)
                if u.get(W + 'color'):
                    st['ucolor'] = int(u.get(W + 'color'), 16)
            hl = rpr.find(W + 'highlight')
            if hl is not None:
                st['hl'] = _val(hl)
            sh = rpr.find(W + 'shd')
            if sh is not None:
                st['shd'] = int(sh.get(W + 'fill'), 16)
            c = rpr.find(W + 'color')
            if c is not None and _val(c) not in (None, 'auto'):
                st['color'] = int(_val(c), 16)
            sz = rpr.find(W + 'sz')
            if sz is not None:
                st['size'] = int(_val(sz)) / 2.0
            va = rpr.find(W + 'vertAlign')
            if va is not None and _val(va) != 'baseline':
                st['sup'] = _val(va)
            sc = rpr.find(W + 'w')
            if sc is not None:
                st['scale'] = float(_val(sc))
        if link:
            st['uri'] = link[1]
        if text:
            d['runs'].append({'text': text, 'st': st})

    def _drawing(self, e, d):
        for kind in ('inline', 'anchor'):
            for x in e.findall(WP + kind):
                ext = x.find(WP + 'extent')
                im = {'kind': kind, 'at': len(d['runs']), 'w': int(ext.get('cx')) / EMU, 'h': int(ext.get('cy')) / EMU}
                for blip in x.iter(A + 'blip'):
                    t = self.rels.get(blip.get(R + 'embed'))
                    data = self.parts.get('word/' + t[1]) if t else None
                    im['data'] = data
                    im['sha'] = hashlib.sha1(data).hexdigest()[:12] if data else None
                if kind == 'anchor':
                    im['x'] = int(x.find(WP + 'positionH/' + WP + 'posOffset').text) / EMU
                    im['y'] = int(x.find(WP + 'positionV/' + WP + 'posOffset').text) / EMU
                d['images'].append(im)

    def _tbl(self, e):
        grid = [int(float(g.get(W + 'w'))) / 20.0 if g.get(W + 'w') else None
                for g in e.findall(W + 'tblGrid/' + W + 'gridCol')]
        t = {'kind': 'tbl', 'grid': grid, 'rows': [], 'problems': []}
        ind = e.find(W + 'tblPr/' + W + 'tblInd')
        t['indent'] = float(ind.get(W + 'w')) / 20.0 if ind is not None else 0.0
        for tr in e.findall(W + 'tr'):
            h = tr.find(W + 'trPr/' + W + 'trHeight')
            row = {'h': int(_val(h)) / 20.0 if h is not None and _val(h) else None,
                   'rule': h.get(W + 'hRule') if h is not None else None, 'cells': []}
            col = 0
            for tc in tr.findall(W + 'tc'):
                pr = tc.find(W + 'tcPr')
                span, vm, c = 1, None, {}
                if pr is not None:
                    g = pr.find(W + 'gridSpan')
                    span = int(_val(g)) if g is not None else 1
                    v = pr.find(W + 'vMerge')
                    vm = (_val(v) or 'continue') if v is not None else None
                    sh = pr.find(W + 'shd')
                    if sh is not None:
                        c['fill'] = int(sh.get(W + 'fill'), 16)
                    w = pr.find(W + 'tcW')
                    c['w'] = int(float(w.get(W + 'w'))) / 20.0 if w is not None and w.get(W + 'w') else None
                    td = pr.find(W + 'textDirection')
                    if td is not None:
                        c['dir'] = _val(td)
                    b = {}
                    for side in ('top', 'bottom', 'start', 'end'):
                        s = pr.find(W + 'tcBorders/' + W + side)
                        if s is not None:
                            b[side] = (float(s.get(W + 'sz')) / 8.0, int(s.get(W + 'color').lstrip('#'), 16),
                                       s.get(W + 'val'))
                    c['borders'] = b
                c.update({'col': col, 'span': span, 'vmerge': vm, 'blocks': []})
                last = None
                for x in tc:
                    if x.tag == W + 'p':
                        c['blocks'].append(self._p(x))
                        last = 'p'
                    elif x.tag == W + 'tbl':
                        c['blocks'].append(self._tbl(x))
                        last = 'tbl'
                if last != 'p':
                    t['problems'].append('cell not ended by a paragraph')
                col += span
                row['cells'].append(c)
            if col != len(grid):
                t['problems'].append(f'row covers {col} of {len(grid)} grid columns')
            t['rows'].append(row)
        return t


# ---- views
def walk_blocks(blocks):
    for b in blocks:
        yield b
        if b['kind'] == 'tbl':
            for row in b['rows']:
                for c in row['cells']:
                    yield from walk_blocks(c['blocks'])


def paragraphs(blocks):
    return [b for b in walk_blocks(blocks) if b['kind'] == 'p']


def all_text(blocks, sep='\n'):
    return sep.join(p['text'] for p in paragraphs(blocks))


def tokens(blocks):
    """whitespace-separated words, in document order"""
    return ' '.join(p['text'] for p in paragraphs(blocks)).split()


def images(blocks):
    return [i for p in paragraphs(blocks) for i in p['images']]


def tables(blocks):
    return [b for b in blocks if b['kind'] == 'tbl']


def table_regions(t):
    """[(row, col, nrows, ncols, cell)] with vertical merges resolved; raises on broken structure"""
    res, open_ = [], {}
    for i, row in enumerate(t['rows']):
        for c in row['cells']:
            key = (c['col'], c['span'])
            if c['vmerge'] == 'continue':
                if key not in open_:
                    raise ValueError(f'vMerge continues nothing at row {i} col {c["col"]}')
                open_[key][2] += 1
                continue
            for k in [k for k in open_ if not (k[0] + k[1] <= key[0] or key[0] + key[1] <= k[0])]:
                del open_[k]
            r = [i, c['col'], 1, c['span'], c]
            res.append(r)
            if c['vmerge'] == 'restart':
                open_[key] = r
    return [tuple(r) for r in res]
