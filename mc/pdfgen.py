"""Deterministic construction of small PDFs from JSON-able page descriptions.

page := {'size': [w, h], 'rot': 0|90|180|270, 'els': [el, ...]}   (coordinates: as displayed)
        'written': [inherited|negative|around|corners|streams ..]
        'boxes': {'crop', 'shift'}; 'wrap': [matrix, ..]    all contents in a form of that matrix, and that in another ...
el   := ['text', x, y, string, {font,size,color,dir}]        baseline start point
      | ['line', x0, y0, x1, y1, {width,color}]
      | ['rect', x0, y0, x1, y1, {fill,color,width}]
      | ['curve', x0, y0, x1, y1, {color,fill,width}]        an ellipse in that box
      | ['image', x0, y0, x1, y1, kind]                      kind: an entry of image_bytes()
      | ['pic', [[x0, y0, x1, y1], ..], spec, {shared}]      a picture (mc/imgs.py) drawn in each of the places
      | ['link', x0, y0, x1, y1, uri]
      | ['show', [[op, value..]..], {font,color}]            one text object made by PDF operators (Tf at Td Tj TJ ' Tc Tw Tz TL Ts T* rg)
      | ['path', [[op, number..]..], {color,fill,width,paint,space,scale,form,clip,cap,close}]    a path of PDF operators m l c re h
"""
import re
from .env import fitz


def rgb(c):
    """0xRRGGBB -> (r, g, b) in [0, 1]"""
    if c is None:
        return None
    return ((c >> 16 & 255) / 255, (c >> 8 & 255) / 255, (c & 255) / 255)


_IMG = {}


def image_bytes(kind):
    """PNG bytes of a small picture. kind: '<mode>:<seed>' with mode rgb|gray|alpha"""
    if kind in _IMG:
        return _IMG[kind]
    mode, seed = kind.split(':')
    seed = int(seed)
    w, h = 12, 10
    if mode == 'gray':
        data = bytes((seed * 40 + 7 * x + 3 * y) % 200 for y in range(h) for x in range(w))
        pix = fitz.Pixmap(fitz.csGRAY, w, h, data, False)
    elif mode == 'cmyk':
        data = b''.join(bytes([(seed * 60) % 256, (x * 10) % 256, (y * 10) % 256, 20])
                        for y in range(h) for x in range(w))
        pix = fitz.Pixmap(fitz.csCMYK, w, h, data, False)
        pix = fitz.Pixmap(fitz.csCMYK, pix)
        _IMG[kind] = ('pix', pix)
        return _IMG[kind]
    else:
        data = b''.join(bytes([(seed * 60 + 9 * x) % 256, (seed * 35 + 11 * y) % 256, (x * y) % 200])
                        for y in range(h) for x in range(w))
        pix = fitz.Pixmap(fitz.csRGB, w, h, data, False)
        if mode == 'alpha':
            pix = fitz.Pixmap(pix, 1)
            pix.set_alpha(bytes(255 if (x + y + seed) % 3 else 0 for y in range(h) for x in range(w)))
    _IMG[kind] = ('png', pix.tobytes('png'))
    return _IMG[kind]


def draw_page(doc, page):
    w, h = page.get('size', [400, 300])
    rot = page.get('rot', 0)
    # what is displayed is w x h; the stored page is h x w when turned by 90 or 270
    pw, ph = (h, w) if rot in (90, 270) else (w, h)
    p = doc.new_page(width=pw, height=ph)
    if rot:
        p.set_rotation(rot)
    M = p.derotation_matrix
    for el in page.get('els', []):
        k = el[0]
        if k == 'text':
            _, x, y, s = el[:4]
            o = el[4] if len(el) > 4 else {}
            d = {'lr': 0, 'bt': 90, 'rl': 180, 'tb': 270}[o.get('dir', 'lr')]
            p.insert_text(fitz.Point(x, y) * M, s, fontname=o.get('font', 'helv'),
                          fontsize=o.get('size', 11), color=rgb(o.get('color', 0)), rotate=(d + rot) % 360)
        elif k == 'line':
            _, x0, y0, x1, y1 = el[:5]
            o = el[5] if len(el) > 5 else {}
            p.draw_line(fitz.Point(x0, y0) * M, fitz.Point(x1, y1) * M, width=o.get('width', 1),
                        color=rgb(o.get('color', 0)))
        elif k == 'rect':
            r = (fitz.Rect(el[1:5]) * M).normalize()
            o = el[5] if len(el) > 5 else {}
            p.draw_rect(r, color=rgb(o.get('color')), fill=rgb(o.get('fill')), width=o.get('width', 1))
        elif k == 'curve':
            r = (fitz.Rect(el[1:5]) * M).normalize()
            o = el[5] if len(el) > 5 else {}
            p.draw_oval(r, color=rgb(o.get('color', 0)), fill=rgb(o.get('fill')), width=o.get('width', 1))
        elif k == 'image':
            r = (fitz.Rect(el[1:5]) * M).normalize()
            how, data = image_bytes(el[5])
            kw = {'pixmap': data} if how == 'pix' else {'stream': data}
            p.insert_image(r, keep_proportion=False, rotate=rot, **kw)
        elif k == 'pic':
            from . import imgs
            if len(el) > 3 and el[3].get('apart'):      # an object of its own for each place
                for r in el[1]:
                    imgs.place(doc, p, el[2], [r])
            else:
                imgs.place(doc, p, el[2], el[1])
        elif k == 'link':
            p.insert_link({'kind': fitz.LINK_URI, 'from': (fitz.Rect(el[1:5]) * M).normalize(), 'uri': el[5]})
        elif k == 'path':
            draw_path(doc, p, el[1], el[2] if len(el) > 2 else {})
        elif k == 'show':
            show_text(doc, p, el[1], el[2] if len(el) > 2 else {})
        else:
            raise ValueError(k)
    if page.get('wrap'):
        for m in page['wrap']:
            wrap_page(doc, p, m)
    for way in page.get('written', []):
        write_otherwise(doc, p, way)
    if page.get('boxes'):
        set_boxes(doc, p, **page['boxes'])
    return p


def wrap_page(doc, p, m):
    """all contents of the page into one form of the matrix m, drawn such that they stay where they are"""
    f = doc.get_new_xref()
    t, v = doc.xref_get_key(p.xref, 'Resources')
    r = fitz.Rect(-2000, -2000, 3000, 3000)
    doc.update_object(f, '<</Type/XObject/Subtype/Form/BBox[%g %g %g %g]/Matrix[%g %g %g %g %g %g]/Resources %s>>' %
                      (*r, *m, v if t in ('xref', 'dict') else '<<>>'))
    doc.update_stream(f, b'\n'.join(doc.xref_stream(x) for x in p.get_contents()))
    c = doc.get_new_xref()
    doc.update_object(c, '<<>>')
    doc.update_stream(c, ('q %.6f %.6f %.6f %.6f %.6f %.6f cm /Whole Do Q' % tuple(~fitz.Matrix(*m))).encode())
    doc.xref_set_key(p.xref, 'Resources', f'<</XObject<</Whole {f} 0 R>>>>')
    doc.xref_set_key(p.xref, 'Contents', f'{c} 0 R')


def write_otherwise(doc, p, way):
    """the same page, another way in the file"""
    box = p.mediabox
    if way == 'inherited':      # attributes come from the parent of the page
        t = int(doc.xref_get_key(p.xref, 'Parent')[1].split()[0])
        n = doc.get_new_xref()
        doc.update_object(n, f'<</Type/Pages/Parent {t} 0 R/Count 1/Kids[{p.xref} 0 R]>>')
        for k in ('Resources', 'MediaBox', 'Rotate'):
            typ, v = doc.xref_get_key(p.xref, k)
            if typ != 'null':
                doc.xref_set_key(n, k, v)
                doc.xref_set_key(p.xref, k, 'null')
        doc.xref_set_key(p.xref, 'Parent', f'{n} 0 R')
        kids = doc.xref_get_key(t, 'Kids')[1]
        doc.xref_set_key(t, 'Kids', re.sub(rf'\b{p.xref} 0 R', f'{n} 0 R', kids))
    elif way == 'negative':     # turned the other way round, or more than once around
        doc.xref_set_key(p.xref, 'Rotate', str(p.rotation - 360))
    elif way == 'around':
        doc.xref_set_key(p.xref, 'Rotate', str(p.rotation + 360))
    elif way == 'corners':
        doc.xref_set_key(p.xref, 'MediaBox', f'[{box.x1:g} {box.y1:g} {box.x0:g} {box.y0:g}]')
    elif way == 'streams':      # a content stream for each operator line
        out = []
        for c in p.get_contents():
            for line in doc.xref_stream(c).split(b'\n'):
                x = doc.get_new_xref()
                doc.update_object(x, '<<>>')
                doc.update_stream(x, line + b' ')
                out.append(x)
        doc.xref_set_key(p.xref, 'Contents', '[' + ' '.join(f'{x} 0 R' for x in out) + ']')
    else:
        raise ValueError(way)


def set_boxes(doc, p, crop=None, shift=None):
    """the same page in another box: crop: what is cut off at each side (x0, y0, x1, y1); shift: origin of the coordinates"""
    x0, y0, x1, y1 = p.mediabox
    dx, dy = shift or (0, 0)
    if shift:
        xrefs = p.get_contents()
        for i, x in enumerate(xrefs):
            if i == 0:
                doc.update_stream(x, b'1 0 0 1 %g %g cm\n' % (dx, dy) + doc.xref_stream(x))
        if len(xrefs) > 1:      # one stream for all, as each new piece is wrapped
            doc.update_stream(xrefs[0], b'\n'.join(doc.xref_stream(x) for x in xrefs))
            doc.xref_set_key(p.xref, 'Contents', f'{xrefs[0]} 0 R')
        for a in p.annot_xrefs() + [(k['xref'], 0) for k in p.get_links()]:
            r = doc.xref_get_key(a[0], 'Rect')[1]
            v = [float(z) for z in r.strip('[]').split()]
            doc.xref_set_key(a[0], 'Rect', f'[{v[0] + dx:g} {v[1] + dy:g} {v[2] + dx:g} {v[3] + dy:g}]')
    c = crop or (0, 0, 0, 0)
    media = (x0 + dx - c[0], y0 + dy - c[1], x1 + dx + c[2], y1 + dy + c[3])
    doc.xref_set_key(p.xref, 'MediaBox', '[%g %g %g %g]' % media)
    if crop:
        doc.xref_set_key(p.xref, 'CropBox', '[%g %g %g %g]' % (x0 + dx, y0 + dy, x1 + dx, y1 + dy))


def _colour(c, space, stroke):
    r, g, b = rgb(c)
    if space == 'gray':
        assert r == g == b
        return f'{r:.6f} ' + ('G' if stroke else 'g')
    if space == 'cmyk':
        return f'{1 - r:.6f} {1 - g:.6f} {1 - b:.6f} 0 ' + ('K' if stroke else 'k')
    if space == 'named':
        return ('/DeviceRGB CS ' if stroke else '/DeviceRGB cs ') + f'{r:.6f} {g:.6f} {b:.6f} ' + ('SC' if stroke else 'sc')
    return f'{r:.6f} {g:.6f} {b:.6f} ' + ('RG' if stroke else 'rg')


def draw_path(doc, p, ops, o):
    """a path, given in displayed coordinates, drawn by a content stream of its own"""
    rot = p.rotation
    D = p.derotation_matrix
    p.set_rotation(0)
    h = p.rect.height
    p.set_rotation(rot)
    k = o.get('scale', 1)
    M = D * fitz.Matrix(1, 0, 0, -1, 0, h) * fitz.Matrix(1 / k, 0, 0, 1 / k, 0, 0)
    out = ['q']
    if o.get('clip'):
        out.append(f'0 0 {p.mediabox.width:g} {p.mediabox.height:g} re W n')
    if k != 1:
        out.append(f'{k:g} 0 0 {k:g} 0 0 cm')
    if o.get('color') is not None:
        out.append(_colour(o['color'], o.get('space'), True))
    if o.get('fill') is not None:
        out.append(_colour(o['fill'], o.get('space'), False))
    out.append(f'{o.get("width", 1) / k:g} w {o.get("cap", 0)} J')
    for op, *a in ops:
        if op == 're':      # a corner, width and height as displayed
            x, y = fitz.Point(a[0], a[1]) * M
            x1, y1 = fitz.Point(a[0] + a[2], a[1] + a[3]) * M
            a = [x, y, x1 - x, y1 - y]
        else:
            a = [v for i in range(0, len(a), 2) for v in fitz.Point(a[i], a[i + 1]) * M]
        out.append(' '.join(f'{v:.6f}' for v in a) + ' ' + op)
    out.append(o.get('paint') or ('B' if o.get('fill') is not None and o.get('color') is not None else
                                  'f' if o.get('fill') is not None else 'S'))
    data = (' '.join(out) + ' Q').encode()
    if o.get('form'):
        from .imgs import _resource
        x = doc.get_new_xref()
        doc.update_object(x, f'<</Type/XObject/Subtype/Form/BBox[0 0 {p.mediabox.width:g} {p.mediabox.height:g}]>>')
        doc.update_stream(x, data)
        name = o.get('name', f'Fp{x}')
        _resource(doc, p, name, x)
        data = f'q /{name} Do Q'.encode()
    append(doc, p, data)


def show_text(doc, p, ops, o):
    """one text object, made by PDF operators; coordinates as displayed (y downwards), upright pages only"""
    h = p.rect.height
    if 'base' in o:         # a font of that name that is not embedded, or one of boxes (Type3), of fixed width
        name = own_font(doc, p, o['base'], o.get('type', 'TrueType'), o.get('advance', 0.6))
    else:
        name = o.get('font', 'helv')
        p.insert_font(fontname=name)
    r, g, b = rgb(o.get('color', 0))
    out = [f'q {r:.6f} {g:.6f} {b:.6f} rg BT']

    def string(s):
        return '<' + s.encode('latin-1').hex() + '>'

    for op, *a in ops:
        if op == 'Tf':
            out.append(f'/{name} {a[0]:g} Tf')
        elif op == 'at':        # origin, as displayed
            x, y = a[:2]
            m = a[2] if len(a) > 2 else (1, 0, 0, 1)
            out.append('%g %g %g %g %.6f %.6f Tm' % (*m, x, h - y))
        elif op in ('Td', 'TD'):
            out.append(f'{a[0]:.6f} {-a[1]:.6f} {op}')
        elif op in ('Tj', "'"):
            out.append(string(a[0]) + ' ' + op)
        elif op == '"':
            out.append(f'{a[0]:g} {a[1]:g} {string(a[2])} "')
        elif op == 'TJ':
            out.append('[' + ' '.join(string(v) if isinstance(v, str) else f'{v:.6f}' for v in a[0]) + '] TJ')
        else:                   # Tc Tw Tz TL Ts Tr T* rg
            out.append(' '.join(f'{v:.6f}' for v in a) + ' ' + op)
    append(doc, p, (' '.join(out) + ' ET Q').encode())


SHOWING = ['Tj', 'TJ', 'gaps', 'Tc', 'Tw', 'narrow', 'wide', 'Tm', 'stretched', 'chars', 'words', 'objects', 'quote', 'fonts']


def shown(x, y, s, size, way, o=None):
    """the line s from x on base line y by one of the ways PDF has to show text -> elements, [(x0, x1) of each character], size in effect"""
    o = dict(o or {})
    f = o.get('font', 'helv')
    tc = 0.12 * size if way == 'Tc' else 0
    tw = 0.45 * size if way == 'Tw' else 0
    k = {'narrow': 0.8, 'wide': 1.3, 'stretched': 1.25}.get(way, 1)
    at, pos = x, []
    for i, c in enumerate(s):
        w = text_width(c, size, f)
        if way == 'TJ' and i % 2:
            at -= 0.03 * size
        if way == 'gaps' and c == ' ':
            w += 0.1 * size
        pos.append((at, at + w * k))
        at += (w + tc + (tw if c == ' ' else 0)) * k
    tf = ['Tf', size]
    words = [(m.start(), m.group()) for m in re.finditer(r'\S+', s)]
    if way in ('Tj', 'Tc', 'Tw', 'narrow', 'wide', 'quote'):
        ops = [tf, ['at', x, y]]
        if way == 'Tc':
            ops.append(['Tc', tc])
        if way == 'Tw':
            ops.append(['Tw', tw])
        if k != 1:
            ops.append(['Tz', 100 * k])
        if way == 'quote':
            ops = [tf, ['TL', 20], ['at', x, y - 20], ["'", s]]
        else:
            ops.append(['Tj', s])
        return [['show', ops, o]], pos, size * k ** 0.5
    if way == 'TJ':
        a = []
        for i, c in enumerate(s):
            a += [30, c] if i % 2 else [c]
        return [['show', [tf, ['at', x, y], ['TJ', a]], o]], pos, size
    if way == 'gaps':       # no blanks, just gaps
        a = []
        for i, (n, w) in enumerate(words):
            if i:
                p = words[i - 1]
                a.append(-(pos[n][0] - pos[p[0] + len(p[1]) - 1][1]) / size * 1000)
            a.append(w)
        return [['show', [tf, ['at', x, y], ['TJ', a]], o]], pos, size
    if way in ('Tm', 'stretched'):
        return [['show', [['Tf', 1], ['at', x, y, (size * k, 0, 0, size)], ['Tj', s]], o]], pos, size * k ** 0.5
    if way == 'chars':
        ops = [tf]
        for (a, _), c in zip(pos, s):
            ops += [['at', a, y], ['Tj', c]]
        return [['show', ops, o]], pos, size
    if way == 'words':
        ops = [tf]
        for n, w in words:
            ops += [['at', pos[n][0], y], ['Tj', w]]
        return [['show', ops, o]], pos, size
    if way == 'objects':
        return [['show', [tf, ['at', pos[n][0], y], ['Tj', w + ' ']], o] for n, w in words], pos, size
    if way == 'fonts':      # the font is set anew in the middle of words
        ops = [['at', x, y]]
        for i in range(0, len(s), 2):
            ops += [tf, ['Tj', s[i:i + 2]]]
        return [['show', ops, o]], pos, size
    raise ValueError(way)


def own_font(doc, p, base, kind, advance):
    """a font without a file -> name of the resource on the page"""
    w = round(advance * 1000)
    widths = '/FirstChar 32/LastChar 126/Widths[' + ' '.join([str(w)] * 95) + ']'
    x = doc.get_new_xref()
    if kind == 'Type3':
        glyph = doc.get_new_xref()
        doc.update_object(glyph, '<<>>')
        doc.update_stream(glyph, b'%d 0 0 0 %d 700 d1 50 0 %d 700 re f' % (w, w, w - 100))
        names = [f'c{i}' for i in range(32, 127)]
        uni = doc.get_new_xref()
        doc.update_object(uni, '<<>>')
        doc.update_stream(uni, b'/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def 1 begincodespacerange '
                               b'<00> <ff> endcodespacerange 1 beginbfrange <20> <7e> <0020> endbfrange endcmap end end')
        doc.update_object(x, '<</Type/Font/Subtype/Type3/FontBBox[0 0 1000 700]/FontMatrix[0.001 0 0 0.001 0 0]' + (f'/Name/{base}' if base else '') +
                          widths + f'/ToUnicode {uni} 0 R/Encoding<</Type/Encoding/Differences[32 ' + ''.join('/' + n for n in names) +
                          ']>>/CharProcs<<' + ''.join(f'/{n} {glyph} 0 R' for n in names) + '>>/Resources<<>>>>')
    else:
        d = doc.get_new_xref()
        name = base.replace(' ', '#20')
        doc.update_object(d, f'<</Type/FontDescriptor/FontName/{name}/Flags 32/FontBBox[0 -200 1000 900]/ItalicAngle 0/Ascent 900'
                             '/Descent -200/CapHeight 700/StemV 80>>')
        doc.update_object(x, f'<</Type/Font/Subtype/{kind}/BaseFont/{name}/Encoding/WinAnsiEncoding{widths}/FontDescriptor {d} 0 R>>')
    from .imgs import _resource
    _resource(doc, p, f'Fo{x}', x, 'Font')
    return f'Fo{x}'


def append(doc, p, data):
    """a content stream of its own"""
    x = doc.get_new_xref()
    doc.update_object(x, '<<>>')
    doc.update_stream(x, data)
    old = [f'{c} 0 R' for c in p.get_contents()]
    doc.xref_set_key(p.xref, 'Contents', '[' + ' '.join(old + [f'{x} 0 R']) + ']')


def make_pdf(pages, path):
    doc = fitz.open()
    for page in pages:
        draw_page(doc, page)
    doc.save(path, garbage=0, deflate=False)
    doc.close()
    return path


def text_width(s, size=11, font='helv'):
    return fitz.get_text_length(s, fontname=font, fontsize=size)
