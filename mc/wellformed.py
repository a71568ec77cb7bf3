"""Is a .docx what word processors can read?  Judged from its parts alone: package, XML, structure, values."""
import os
import posixpath
import re
import zipfile
from lxml import etree
from .docxobs import W, R, WP, A

CT = '{http://schemas.openxmlformats.org/package/2006/content-types}'
PR = '{http://schemas.openxmlformats.org/package/2006/relationships}'
PIC = '{http://schemas.openxmlformats.org/drawingml/2006/picture}'
INT = re.compile(r'-?\d+$')
UINT = re.compile(r'\d+$')
HEX = re.compile(r'[0-9A-Fa-f]{6}$|auto$')
ONOFF = re.compile(r'(true|false|0|1|on|off)$')

# what may stand in what (transitional WordprocessingML; the parts of it a converted document can need)
P_LIKE = {W + 'pPr', W + 'r', W + 'hyperlink', W + 'bookmarkStart', W + 'bookmarkEnd', W + 'proofErr'}
CHILDREN = {
    W + 'body': {W + 'p', W + 'tbl', W + 'sectPr', W + 'bookmarkStart', W + 'bookmarkEnd'},
    W + 'p': P_LIKE,
    W + 'hyperlink': {W + 'r'},
    W + 'r': {W + 'rPr', W + 't', W + 'tab', W + 'br', W + 'cr', W + 'drawing', W + 'noBreakHyphen', W + 'softHyphen',
              W + 'sym', W + 'lastRenderedPageBreak'},
    W + 'tbl': {W + 'tblPr', W + 'tblGrid', W + 'tr'},
    W + 'tr': {W + 'trPr', W + 'tc', W + 'tblPrEx'},
    W + 'tc': {W + 'tcPr', W + 'p', W + 'tbl'},
}
FIRST = {W + 'p': W + 'pPr', W + 'r': W + 'rPr', W + 'tc': W + 'tcPr', W + 'tr': W + 'trPr', W + 'tbl': W + 'tblPr'}
# values: (element, attribute) -> pattern
VALUES = {}
for e, aa, pat in [
        ('spacing', 'before after line beforeLines afterLines', INT), ('ind', 'left right start end firstLine hanging', INT),
        ('pgSz', 'w h', UINT), ('pgMar', 'left right header footer gutter', UINT), ('pgMar', 'top bottom', INT),
        ('trHeight', 'val', UINT), ('tcW', 'w', INT), ('tblW', 'w', INT), ('tblInd', 'w', INT), ('gridCol', 'w', UINT),
        ('gridSpan', 'val', re.compile(r'[1-9]\d*$')), ('sz', 'val', UINT), ('szCs', 'val', UINT),
        ('color', 'val', HEX), ('shd', 'fill', HEX), ('shd', 'color', HEX), ('tab', 'pos', INT),
        ('w', 'val', re.compile(r'\d{1,3}$')), ('u', 'color', HEX), ('b', 'val', ONOFF), ('i', 'val', ONOFF),
        ('strike', 'val', ONOFF), ('dstrike', 'val', ONOFF),
        ('jc', 'val', re.compile(r'(left|right|center|both|start|end|distribute)$')),
        ('vMerge', 'val', re.compile(r'(restart|continue)$')),
        ('textDirection', 'val', re.compile(r'(lrTb|tbRl|btLr|lrTbV|tbRlV|tbLrV)$')),
        ('vertAlign', 'val', re.compile(r'(baseline|superscript|subscript)$'))]:
    for a in aa.split():
        VALUES[W + e, W + a] = pat
LIMITS = {(W + 'spacing', W + 'line'): (1, 31680), (W + 'spacing', W + 'before'): (0, 31680),
          (W + 'spacing', W + 'after'): (0, 31680), (W + 'ind', W + 'firstLine'): (0, 31680),
          (W + 'ind', W + 'hanging'): (0, 31680), (W + 'ind', W + 'left'): (-31680, 31680),
          (W + 'ind', W + 'right'): (-31680, 31680), (W + 'sz', W + 'val'): (1, 3276),
          (W + 'pgSz', W + 'w'): (1, 31680), (W + 'pgSz', W + 'h'): (1, 31680), (W + 'w', W + 'val'): (1, 600),
          (W + 'trHeight', W + 'val'): (0, 31680), (W + 'tcW', W + 'w'): (0, 31680)}


def _rel_target(base, target):
    if target.startswith('/'):
        return target.lstrip('/')
    return posixpath.normpath(posixpath.join(base, target))


def package(path):
    v = []
    with zipfile.ZipFile(path) as z:
        if z.testzip() is not None:
            return ['damaged zip'], None
        names = z.namelist()
        if len(set(names)) != len(names):
            v.append('the same part twice')
        parts = {n: z.read(n) for n in names}
    for need in ('[Content_Types].xml', '_rels/.rels', 'word/document.xml'):
        if need not in parts:
            return v + [f'no part {need}'], None
    xml = {}
    for n, d in parts.items():
        if n.endswith(('.xml', '.rels')):
            try:
                xml[n] = etree.fromstring(d)
            except etree.XMLSyntaxError as e:
                v.append(f'{n} is no XML: {e}')
    if v:
        return v, None
    types = xml['[Content_Types].xml']
    defaults = {e.get('Extension').lower(): e.get('ContentType') for e in types.findall(CT + 'Default')}
    over = {e.get('PartName').lstrip('/'): e.get('ContentType') for e in types.findall(CT + 'Override')}
    for n in parts:
        if n != '[Content_Types].xml' and n not in over and n.rsplit('.', 1)[-1].lower() not in defaults:
            v.append(f'no content type for {n}')
    for n in over:
        if n not in parts:
            v.append(f'content type for a part that is not there: {n}')
    for n, root in xml.items():
        if not n.endswith('.rels'):
            continue
        base = posixpath.dirname(posixpath.dirname(n))
        ids = [e.get('Id') for e in root.findall(PR + 'Relationship')]
        if len(set(ids)) != len(ids):
            v.append(f'{n}: the same relationship id twice')
        for e in root.findall(PR + 'Relationship'):
            if e.get('TargetMode') != 'External' and _rel_target(base, e.get('Target')) not in parts:
                v.append(f'{n}: relationship to {e.get("Target")}, which is not there')
    return v, (parts, xml)


def check(path, pages=None):
    """violations of the docx file; pages: number of sections it has to have"""
    v, px = package(path)
    if px is None:
        return v
    parts, xml = px
    rels = {e.get('Id'): e for e in xml.get('word/_rels/document.xml.rels', etree.Element('x'))}
    body = xml['word/document.xml'].find(W + 'body')
    if body is None:
        return v + ['no body']
    doc_ids = []
    for e in body.iter():
        if not isinstance(e.tag, str):
            continue
        kids = CHILDREN.get(e.tag)
        tag = etree.QName(e).localname
        if kids is not None:
            for c in e:
                if c.tag not in kids:
                    v.append(f'{etree.QName(c).localname} within {tag}')
        f = FIRST.get(e.tag)
        if f is not None:
            at = [k for k, c in enumerate(e) if c.tag == f]
            if at and at != [0]:
                v.append(f'{etree.QName(f).localname} is not the first in {tag}')
        if e.tag == W + 'tc' and (not len(e) or e[-1].tag != W + 'p'):
            v.append('a cell not ended by a paragraph')
        if e.tag == W + 'tr' and e.find(W + 'tc') is None:
            v.append('a row without cells')
        if e.tag == W + 'tbl':
            v += table(e)
        if e.tag.startswith(W):
            for a, val in e.attrib.items():
                pat = VALUES.get((e.tag, a))
                an = a.rsplit('}', 1)[-1]
                border = e.getparent() is not None and e.getparent().tag in (W + 'tcBorders', W + 'tblBorders')
                if border:
                    pat = {'sz': UINT, 'color': HEX, 'space': UINT}.get(an)
                if e.getparent() is not None and e.getparent().tag == W + 'tcMar' and an == 'w':
                    pat = INT
                if pat is not None and not pat.match(val):
                    v.append(f'{tag} {an}="{val}"')
                    continue
                lim = LIMITS.get((e.tag, a))
                if lim and not lim[0] <= int(val) <= lim[1]:
                    v.append(f'{tag} {an}="{val}" is out of range')
        for a in (R + 'id', R + 'embed', R + 'link'):
            if e.get(a) is not None:
                r = rels.get(e.get(a))
                if r is None:
                    v.append(f'{tag} refers to {e.get(a)}, which is not there')
                elif a == R + 'embed' and not r.get('Type').endswith('/image'):
                    v.append(f'{tag} refers to a {r.get("Type")}')
                elif tag == 'hyperlink' and (not r.get('Type').endswith('/hyperlink') or
                                             r.get('TargetMode') != 'External'):
                    v.append('a hyperlink to an inner part')
        if e.tag == WP + 'docPr':
            doc_ids.append(e.get('id'))
        if e.tag == WP + 'extent' and not (int(e.get('cx')) > 0 and int(e.get('cy')) > 0):
            v.append(f'a picture of the size {e.get("cx")} x {e.get("cy")}')
        if e.tag in (WP + 'inline', WP + 'anchor') and len(e.findall('.//' + PIC + 'pic')) != 1:
            v.append(f'{len(e.findall(".//" + PIC + "pic"))} pictures in a drawing')
    if len(set(doc_ids)) != len(doc_ids):
        v.append('the same id for several drawings')
    if not len(body) or body[-1].tag != W + 'sectPr':
        v.append('the body does not end with a section')
    n = len(body.findall(W + 'p/' + W + 'pPr/' + W + 'sectPr')) + len(body.findall(W + 'sectPr'))
    if pages is not None and n != pages:
        v.append(f'{n} sections of {pages} pages')
    for s in body.iter(W + 'sectPr'):
        sz, mar = s.find(W + 'pgSz'), s.find(W + 'pgMar')
        if sz is None or mar is None:
            v.append('a section without size or margins')
            continue
        g = lambda e, k: int(e.get(W + k))
        try:
            if g(mar, 'left') + g(mar, 'right') >= g(sz, 'w') or g(mar, 'top') + g(mar, 'bottom') >= g(sz, 'h'):
                v.append('margins leave no room on the page')
        except (TypeError, ValueError):
            v.append('a section without page size or margins')
    return sorted(set(v), key=v.index)


def table(e):
    v = []
    grid = e.find(W + 'tblGrid')
    cols = len(grid.findall(W + 'gridCol')) if grid is not None else 0
    if not cols:
        return ['a table without columns']
    rows = e.findall(W + 'tr')
    if not rows:
        v.append('a table without rows')
    above = {}
    for tr in rows:
        col, now = 0, {}
        for tc in tr.findall(W + 'tc'):
            pr = tc.find(W + 'tcPr')
            g = pr.find(W + 'gridSpan') if pr is not None else None
            span = int(g.get(W + 'val')) if g is not None and UINT.match(g.get(W + 'val') or '') else 1
            vm = pr.find(W + 'vMerge') if pr is not None else None
            if vm is not None:
                if (vm.get(W + 'val') or 'continue') == 'continue' and above.get(col) != span:
                    v.append('a merged cell that continues no cell of its width')
                now[col] = span
            col += span
        if col != cols:
            v.append(f'a row of {col} in a table of {cols} columns')
        above = now
    return v
