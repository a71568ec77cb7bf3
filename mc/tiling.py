"""All ways to cut a grid into rectangles, and how such a table can be drawn."""
import functools


@functools.lru_cache(None)
def tilings(rows, cols):
    """[((r, c, nr, nc), ...)] every partition of a rows x cols grid into rectangles"""
    out = []

    def rec(cov, acc):
        free = next((k for k in range(rows * cols) if not cov >> k & 1), None)
        if free is None:
            out.append(tuple(acc))
            return
        r, c = divmod(free, cols)
        maxc = cols
        for nr in range(1, rows - r + 1):
            n = 0
            while c + n < maxc and not cov >> ((r + nr - 1) * cols + c + n) & 1:
                n += 1
            maxc = min(maxc, c + n)
            for nc in range(1, maxc - c + 1):
                m = 0
                for i in range(r, r + nr):
                    for j in range(c, c + nc):
                        m |= 1 << (i * cols + j)
                acc.append((r, c, nr, nc))
                rec(cov | m, acc)
                acc.pop()
    rec(0, [])
    return out


def reduced(tiles):
    """the tiling without grid lines that no cell uses"""
    rs = sorted({r for r, c, a, b in tiles} | {r + a for r, c, a, b in tiles})
    cs = sorted({c for r, c, a, b in tiles} | {c + b for r, c, a, b in tiles})
    ri, ci = {v: i for i, v in enumerate(rs)}, {v: i for i, v in enumerate(cs)}
    t = [(ri[r], ci[c], ri[r + a] - ri[r], ci[c + b] - ci[c]) for r, c, a, b in tiles]
    return t, rs, cs


def edges(tiles):
    """unit edges: ({(row line, col)}, {(row, col line)})"""
    h, v = set(), set()
    for r, c, a, b in tiles:
        for j in range(c, c + b):
            h |= {(r, j), (r + a, j)}
        for i in range(r, r + a):
            v |= {(i, c), (i, c + b)}
    return h, v


def runs(tiles):
    """the longest straight strokes: [(x0, y0, x1, y1)] in grid units"""
    h, v = edges(tiles)
    out = []
    for y in sorted({y for y, _ in h}):
        xs = sorted(x for yy, x in h if yy == y)
        i = 0
        while i < len(xs):
            j = i
            while j + 1 < len(xs) and xs[j + 1] == xs[j] + 1:
                j += 1
            out.append((xs[i], y, xs[j] + 1, y))
            i = j + 1
    for x in sorted({x for _, x in v}):
        ys = sorted(y for y, xx in v if xx == x)
        i = 0
        while i < len(ys):
            j = i
            while j + 1 < len(ys) and ys[j + 1] == ys[j] + 1:
                j += 1
            out.append((x, ys[i], x, ys[j] + 1))
            i = j + 1
    return out


def draw(tiles, X, Y, how='strokes', width=1.0, color=0):
    """elements drawing the table. how: strokes (longest), edges (unit strokes), cells (a rectangle per cell),
    fills (thin filled rectangles), gaps (unit strokes with small gaps between them)"""
    els = []
    o = {'width': width, 'color': color}
    if how == 'strokes':
        for x0, y0, x1, y1 in runs(tiles):
            els.append(['line', X[x0], Y[y0], X[x1], Y[y1], o])
    elif how in ('edges', 'gaps'):
        g = 0.2 if how == 'gaps' else 0
        h, v = edges(tiles)
        for y, x in sorted(h):
            els.append(['line', X[x] + g, Y[y], X[x + 1] - g, Y[y], o])
        for y, x in sorted(v):
            els.append(['line', X[x], Y[y] + g, X[x], Y[y + 1] - g, o])
    elif how == 'cells':
        for r, c, a, b in tiles:
            els.append(['rect', X[c], Y[r], X[c + b], Y[r + a], o])
    elif how == 'fills':
        d = width / 2
        for x0, y0, x1, y1 in runs(tiles):
            els.append(['rect', X[x0] - d, Y[y0] - d, X[x1] + d, Y[y1] + d, {'fill': color, 'color': None}])
    else:
        raise ValueError(how)
    return els


WAYS = {     # ways to draw the same table by PDF operators: shape of the pieces, options of the path
    'one path': ('strokes', {}), 'one path of cells': ('cells', {}), 'backwards': ('back', {}), 'negative': ('negative', {}),
    'polygons': ('polygons', {}), 'polygons ccw': ('ccw', {}), 'open polygons': ('unclosed', {}), 'polygon runs': ('chain', {}),
    'scaled': ('strokes', {'scale': 0.1}), 'magnified': ('cells', {'scale': 8}), 'form': ('strokes', {'form': True}),
    'clip': ('strokes', {'clip': True}), 'caps': ('strokes', {'cap': 2}), 'flat': ('flat', {}),
    'filled lines': ('fills', {}), 'filled polygons': ('thin', {}), 'filled even-odd': ('fills', {'paint': 'f*'}),
    'gray': ('strokes', {'space': 'gray'}), 'cmyk': ('fills', {'space': 'cmyk'}), 'white inside': ('cells', {'fill': 0xffffff}),
}


def draw_way(tiles, X, Y, way, width=1.0, color=0, apart=False):
    """the table as paths; apart: a path for each piece"""
    how, opt = WAYS[way]
    pcs = []
    if how in ('strokes', 'back', 'flat', 'fills', 'thin'):
        d = width / 2
        for x0, y0, x1, y1 in runs(tiles):
            a, b, c, e = X[x0], Y[y0], X[x1], Y[y1]
            if how == 'strokes':
                pcs.append([['m', a, b], ['l', c, e]])
            elif how == 'back':
                pcs.append([['m', c, e], ['l', a, b]])
            elif how == 'flat':         # a rectangle without any height or width, stroked
                pcs.append([['re', a, b, c - a, e - b]])
            elif how == 'fills':
                pcs.append([['re', a - d, b - d, c - a + width, e - b + width]])
            else:
                pcs.append([['m', a - d, b - d], ['l', c + d, b - d], ['l', c + d, e + d], ['l', a - d, e + d], ['h']])
    else:
        for r, c, a, b in tiles:
            x0, y0, x1, y1 = X[c], Y[r], X[c + b], Y[r + a]
            q = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
            if how == 'cells':
                pcs.append([['re', x0, y0, x1 - x0, y1 - y0]])
            elif how == 'negative':
                pcs.append([['re', x1, y1, x0 - x1, y0 - y1]])
            else:
                if how == 'ccw':
                    q = q[:1] + q[:0:-1]
                k = (r + c) % 4 if how != 'chain' else 0
                q = q[k:] + q[:k]
                if how == 'chain':      # three sides in a row, then the fourth
                    pcs.append([['m', *q[0]], ['l', *q[1]], ['l', *q[2]], ['l', *q[3]], ['m', *q[3]], ['l', *q[0]]])
                else:
                    pcs.append([['m', *q[0]]] + [['l', *z] for z in q[1:]] + ([['l', *q[0]]] if how == 'unclosed' else [['h']]))
    o = dict(opt)
    o['width'] = width
    if how in ('fills', 'thin'):
        o['fill'] = color
    else:
        o['color'] = color
    return [['path', q, o] for q in pcs] if apart else [['path', [z for q in pcs for z in q], o]]
