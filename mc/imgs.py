"""Pictures written into a PDF object by object, with the pixels they show as the reference.

spec := {'cs': gray|rgb|cmyk|index|bits|stencil|gray2|gray4|gray16|rgb16|tint|icc, 'n': seed, 'w': px, 'h': px (default 4 x 4),
         'mask': None|'soft'|'small'|'large'|'stencil'|'partial'|'key', 'how': 'x'|'inline'|'form', 'm': 0..7,
         'decode': 1 for samples stored inverted}
m: orientation in which the picture is drawn: m & 3 quarter turns (counter-clockwise), m & 4 mirrored first.
"""
from .env import fitz


def size(spec):
    return spec.get('w', 4), spec.get('h', 4)


def _v(n, x, y, k):
    return (37 * n + 61 * x + 83 * y + 47 * k + 13 * x * y) % 6 * 45 + 10


def _masked(spec, x, y):
    """whether pixel x, y of the picture is transparent"""
    n = spec.get('n', 0)
    w, h = size(spec)
    m = spec.get('mask')
    if not m:
        return False
    if m == 'partial':      # partly transparent: how far it is opaque
        return 1 - (0, 85, 170, 255)[(x + 2 * y + n + x * y) % 4] / 255
    if m == 'key':          # the colour of the first pixel is transparent
        return raw_pixel(spec, x, y) == raw_pixel(spec, 0, 0)
    if m == 'small':        # a mask of half the size: two by two pixels alike
        return (x // 2 + y // 2 + n) % 2 == 0
    if m == 'large':        # a mask of double size, here in the grid of the picture
        return (x + y + n) % 2 == 0
    return (x + 2 * y + n) % 3 == 0


STENCIL = (200, 40, 90)     # the colour a stencil is painted with
INK = (30, 200, 120)        # full tint of the special colour
PALETTE = [((70 * i + 20) % 256, (110 * i + 50) % 256, (30 * i + 90) % 256) for i in range(8)]


def raw_pixel(spec, x, y):
    """colour (r, g, b) stored at x, y, mask not considered"""
    n, cs = spec.get('n', 0), spec['cs']
    if cs == 'gray':
        return (_v(n, x, y, 0),) * 3
    if cs in ('gray2', 'gray4'):
        k = 4 if cs == 'gray2' else 16
        return ((_v(n, x, y, 0) // 5 + x + y) % k * 255 // (k - 1),) * 3
    if cs == 'gray16':
        return (_v(n, x, y, 0),) * 3
    if cs in ('tint', 'tints', 'duo'):
        t = (_v(n, x, y, 0) if cs != 'tints' else (n + x + 3 * y) % 8 * 36) / 255
        return tuple(round(255 + t * (c - 255)) for c in INK)
    if cs == 'bits':
        return ((0,) * 3, (255,) * 3)[(x + y + n + x * y) % 2]
    if cs == 'index':
        return PALETTE[(n + x + 3 * y) % 8]
    if cs == 'stencil':
        return STENCIL
    return tuple(_v(n, x, y, k) for k in range(3))


def pixel(spec, x, y):
    """(r, g, b, opaque) of the picture as stored (upright)"""
    if spec['cs'] == 'cmyk':        # as MuPDF converts it
        c = fitz.Pixmap(fitz.csCMYK, 1, 1, bytes([255 - v for v in raw_pixel(spec, x, y)] + [0]), False)
        return tuple(fitz.Pixmap(fitz.csRGB, c).samples[:3]) + (1 - _masked(spec, x, y),)
    if spec['cs'] == 'stencil':
        return STENCIL + (0 if (x + y + spec.get('n', 0) + x * y) % 2 else 1,)
    return raw_pixel(spec, x, y) + (1 - _masked(spec, x, y),)


def shown(spec):
    """rows of (r, g, b, opaque) as displayed on the page"""
    w, h = size(spec)
    g = [[pixel(spec, x, y) for x in range(w)] for y in range(h)]
    m = spec.get('m', 0)
    if m & 4:
        g = [r[::-1] for r in g]
    for _ in range(m & 3):
        g = [list(r) for r in zip(*g)][::-1]
    return g


def _data(spec, doc=None):
    """(colour space, bits, sample bytes)"""
    cs, bits, data = _samples(spec, doc)
    if spec.get('decode') and spec['cs'] not in ('index', 'tints'):
        data = bytes(255 - b for b in data)
    return cs, bits, data


def _decode(spec):
    """entry for samples stored inverted"""
    if not spec.get('decode'):
        return ''
    n = {'rgb': 3, 'rgb16': 3, 'cmyk': 4, 'duo': 2}.get(spec['cs'], 1)
    return ' /Decode[' + '1 0 ' * n + ']'


def _pack(rows, bits):
    """samples of a few bits each, each row from a byte on"""
    out = b''
    for r in rows:
        v = ''.join(format(s, f'0{bits}b') for s in r)
        v += '0' * (-len(v) % 8)
        out += bytes(int(v[i:i + 8], 2) for i in range(0, len(v), 8))
    return out


def _samples(spec, doc):
    w, h = size(spec)
    cs = spec['cs']
    px = [[raw_pixel(spec, x, y) for x in range(w)] for y in range(h)]
    if cs == 'gray':
        return '/DeviceGray', 8, bytes(p[0] for r in px for p in r)
    if cs in ('gray2', 'gray4'):
        b = int(cs[4:])
        return '/DeviceGray', b, _pack([[p[0] * (2 ** b - 1) // 255 for p in r] for r in px], b)
    if cs == 'gray16':
        return '/DeviceGray', 16, bytes(v for r in px for p in r for v in (p[0], p[0]))
    if cs == 'rgb16':
        return '/DeviceRGB', 16, bytes(v for r in px for p in r for c in p for v in (c, c))
    if cs in ('tint', 'tints', 'duo'):      # a special colour, a palette of it, and two special colours (the other one unused)
        f = doc.get_new_xref()
        n = spec.get('n', 0)
        if cs == 'duo':
            doc.update_object(f, '<</FunctionType 4/Domain[0 1 0 1]/Range[0 1 0 1 0 1]>>')
            ks = [c / 255 - 1 for c in INK]
            doc.update_stream(f, ('{pop dup %g mul 1 add exch dup %g mul 1 add exch %g mul 1 add}' % tuple(ks)).encode())
            return (f'[/DeviceN [/Special /Other] /DeviceRGB {f} 0 R]', 8,
                    bytes(v for y in range(h) for x in range(w) for v in (_v(n, x, y, 0), 0)))
        doc.update_object(f, '<</FunctionType 2/Domain[0 1]/N 1/C0[1 1 1]/C1[%g %g %g]>>' % tuple(c / 255 for c in INK))
        if cs == 'tints':
            pal = ''.join('%02x' % (36 * k) for k in range(8))
            return (f'[/Indexed [/Separation /Special /DeviceRGB {f} 0 R] 7 <{pal}>]', 8,
                    bytes((n + x + 3 * y) % 8 for y in range(h) for x in range(w)))
        return f'[/Separation /Special /DeviceRGB {f} 0 R]', 8, bytes(_v(n, x, y, 0) for y in range(h) for x in range(w))
    if cs == 'rgb':
        return '/DeviceRGB', 8, bytes(v for r in px for p in r for v in p)
    if cs == 'cmyk':
        return '/DeviceCMYK', 8, bytes(v for r in px for p in r for v in [255 - c for c in p] + [0])
    if cs == 'index':
        n = spec.get('n', 0)
        pal = ''.join('%02x%02x%02x' % c for c in PALETTE)
        return f'[/Indexed /DeviceRGB 7 <{pal}>]', 8, bytes((n + x + 3 * y) % 8 for y in range(h) for x in range(w))
    bit = (lambda x, y: px[y][x][0] // 255) if cs == 'bits' else (lambda x, y: 1 - pixel(spec, x, y)[3])
    out = b''
    for y in range(h):
        v = 0
        for x in range(w):
            v |= bit(x, y) << (7 - x)
        out += bytes([v])
    return '/DeviceGray', 1, out


def _stream(doc, head, data):
    x = doc.get_new_xref()
    doc.update_object(x, '<<' + head + '>>')
    doc.update_stream(x, data)
    return x


def embed(doc, spec):
    """write the picture as an XObject -> xref"""
    w, h = size(spec)
    cs, bits, data = _data(spec, doc)
    d = f'/Type/XObject/Subtype/Image/Width {w}/Height {h}/BitsPerComponent {bits}' + _decode(spec)
    m = spec.get('mask')
    if spec['cs'] == 'stencil':
        return _stream(doc, d + '/ImageMask true', data)
    d += '/ColorSpace ' + cs
    if m in ('soft', 'small', 'large'):
        mw, mh = {'soft': (w, h), 'small': ((w + 1) // 2, (h + 1) // 2), 'large': (2 * w, 2 * h)}[m]
        at = {'soft': lambda x, y: (x, y), 'small': lambda x, y: (2 * x, 2 * y), 'large': lambda x, y: (x // 2, y // 2)}[m]
        md = bytes(0 if _masked(spec, *at(x, y)) else 255 for y in range(mh) for x in range(mw))
        s = _stream(doc, f'/Type/XObject/Subtype/Image/Width {mw}/Height {mh}/BitsPerComponent 8'
                         '/ColorSpace/DeviceGray', md)
        d += f'/SMask {s} 0 R'
    elif m == 'partial':
        md = bytes(round(255 * (1 - _masked(spec, x, y))) for y in range(h) for x in range(w))
        s = _stream(doc, f'/Type/XObject/Subtype/Image/Width {w}/Height {h}/BitsPerComponent 8/ColorSpace/DeviceGray', md)
        d += f'/SMask {s} 0 R'
    elif m == 'key':
        first = data[:{'rgb': 3, 'cmyk': 4}.get(spec['cs'], 1)]
        d += '/Mask[' + ' '.join(f'{v} {v}' for v in first) + ']'
    elif m == 'stencil':
        b = b''
        for y in range(h):
            v = 0
            for x in range(w):
                v |= (1 if _masked(spec, x, y) else 0) << (7 - x)
            b += bytes([v])
        s = _stream(doc, f'/Type/XObject/Subtype/Image/Width {w}/Height {h}/BitsPerComponent 1/ImageMask true', b)
        d += f'/Mask {s} 0 R'
    return _stream(doc, d, data)


def matrix(rect, m, p):
    """PDF matrix putting the unit square into the displayed rect of page p, in orientation m"""
    x0, y0, x1, y1 = rect
    a = {0: (1, 0, 0, 1, 0, 0), 1: (0, 1, -1, 0, 1, 0), 2: (-1, 0, 0, -1, 1, 1), 3: (0, -1, 1, 0, 0, 1)}[m & 3]
    if m & 4:       # mirrored first: x -> 1 - x
        a = (-a[0], -a[1], a[2], a[3], a[4] + a[0], a[5] + a[1])
    sx, sy = x1 - x0, y1 - y0
    shown_at = fitz.Matrix(a[0] * sx, -a[1] * sy, a[2] * sx, -a[3] * sy, a[4] * sx + x0, y1 - a[5] * sy)
    rot = p.rotation
    M = shown_at * p.derotation_matrix
    p.set_rotation(0)
    h = p.rect.height
    p.set_rotation(rot)
    return tuple(M * fitz.Matrix(1, 0, 0, -1, 0, h))


def _resource(doc, p, name, xref, kind='XObject'):
    x, key = p.xref, 'Resources/'
    t, v = doc.xref_get_key(x, 'Resources')
    if t == 'xref':
        x, key = int(v.split()[0]), ''
    t, v = doc.xref_get_key(x, key + kind)
    if t == 'xref':
        x, key = int(v.split()[0]), name
    else:
        key += kind + '/' + name
    doc.xref_set_key(x, key, f'{xref} 0 R')


def place(doc, p, spec, rects, xref=None):
    """draw the picture in each of the displayed rects of page p -> its xref, to draw it again"""
    how = spec.get('how', 'x')
    w, h = size(spec)
    ops = b''
    if spec['cs'] == 'stencil':
        ops += ('%g %g %g rg ' % tuple(c / 255 for c in STENCIL)).encode()
    name = None
    if how != 'inline':
        xref = xref or embed(doc, spec)
        name = f'Im{xref}'
        if how == 'form':
            f = _stream(doc, f'/Type/XObject/Subtype/Form/BBox[0 0 1 1]/Resources<</XObject<</{name} {xref} 0 R>>>>',
                        f'/{name} Do'.encode())
            _resource(doc, p, f'Fm{f}', f)
            name = f'Fm{f}'
        else:
            _resource(doc, p, name, xref)
    for r in rects:
        ops += ('q %g %g %g %g %g %g cm ' % matrix(r, spec.get('m', 0), p)).encode()
        if how == 'inline':
            cs, bits, data = _data(spec)
            d = f'/W {w} /H {h} /BPC {bits} ' + _decode(spec) + ' '
            d += '/IM true ' if spec['cs'] == 'stencil' else '/CS ' + {'/DeviceGray': '/G', '/DeviceRGB': '/RGB',
                                                                       '/DeviceCMYK': '/CMYK'}.get(cs, cs) + ' '
            ops += b'BI ' + d.encode() + b'/F /AHx ID ' + data.hex().encode() + b'> EI'
        else:
            ops += f'/{name} Do'.encode()
        ops += b' Q\n'
    x = doc.get_new_xref()
    doc.update_object(x, '<<>>')
    doc.update_stream(x, b'q ' + ops + b'Q')
    old = [f'{c} 0 R' for c in p.get_contents()]
    doc.xref_set_key(p.xref, 'Contents', '[' + ' '.join(old + [f'{x} 0 R']) + ']')
    return xref


def compare(spec, data, tol=0):
    """None if the picture file in the docx shows the picture, else a description"""
    want = shown(spec)
    h, w = len(want), len(want[0])
    if not data:
        return 'no picture data'
    pix = fitz.Pixmap(data)
    if pix.colorspace is None or pix.colorspace.n not in (1, 3):
        return f'colour space {pix.colorspace}'
    bad = 0
    first = None
    for y in range(h):
        for x in range(w):
            px, py = int((x + 0.5) * pix.width / w), int((y + 0.5) * pix.height / h)
            s = pix.pixel(px, py)
            got = (s[0],) * 3 if pix.colorspace.n == 1 else tuple(s[:3])
            a = s[-1] if pix.alpha else 255
            r, g, b, opaque = want[y][x]
            if not opaque:
                # transparent, or white where the page has been clipped
                ok = a == 0 or (a == 255 and got == (255, 255, 255))
            elif 0 < opaque < 1:
                # reading the file, PyMuPDF multiplies the colours with the opacity
                ok = abs(a - 255 * opaque) <= 2 and all(abs(i - j * opaque) <= tol + 2 for i, j in zip(got, (r, g, b)))
            else:
                ok = a == 255 and all(abs(i - j) <= tol for i, j in zip(got, (r, g, b)))
            if not ok:
                bad += 1
                first = first or f'pixel {x},{y} is {got + (a,)}, drawn: {want[y][x]}'
    return f'{bad} of {w * h} pixels differ, {first}' if bad else None


def rendered(p, spec, rect, tol=2):
    """number of pixels that PyMuPDF's rendering of page p shows otherwise (for the self check)"""
    pm = p.get_pixmap(alpha=False)
    want = shown(spec)
    h, w = len(want), len(want[0])
    bad = 0
    for y in range(h):
        for x in range(w):
            s = pm.pixel(int(rect[0] + (x + .5) * (rect[2] - rect[0]) / w), int(rect[1] + (y + .5) * (rect[3] - rect[1]) / h))
            e = want[y][x]
            e = tuple(v * e[3] + 255 * (1 - e[3]) for v in e[:3])
            bad += max(abs(a - b) for a, b in zip(s, e)) > tol
    return bad
