"""What a reader sees of a docx, to compare documents that should be equal."""
import cv2
import numpy
from .render import render

STYLE = ('font', 'size', 'b', 'i', 'color', 'u', 'ucolor', 'strike', 'hl', 'shd', 'uri', 'cell')


_LOOKS = {}


def look(data):
    """colours of a picture, in 6 x 6 pieces"""
    if data is None:
        return None
    if data not in _LOOKS:
        im = cv2.imdecode(numpy.frombuffer(data, numpy.uint8), cv2.IMREAD_COLOR)
        _LOOKS[data] = None if im is None else cv2.resize(im, (6, 6), interpolation=cv2.INTER_AREA).astype(float).flatten().tolist()
    return _LOOKS[data]


def normal(blocks, fill=None):
    """what a reader sees: tables with their cells; between them text - its characters with their style, whatever the
    paragraphs - and pictures"""
    out, cur = [], None
    for b in blocks:
        if b['kind'] == 'p':
            if cur is None:
                cur = {'text': '', 'styles': [], 'images': []}
                out.append(cur)
            cur['text'] = ' '.join((cur['text'] + '\n' + b['text']).split())
            cur['images'] += [{'kind': i['kind'], 'w': float(i['w']), 'h': float(i['h']), 'look': look(i.get('data'))}
                              for i in b['images']]
            for r in b['runs']:
                st = [r['st'].get(k) for k in STYLE]
                cur['styles'] += [st] * len(''.join(r['text'].split()))
        else:
            cur = None
            rows = []
            for row in b['rows']:
                rows.append({'h': float(row['h'] or 0), 'cells': [{**{k: c.get(k) for k in ('col', 'span', 'vmerge', 'fill',
                             'dir', 'w', 'borders')}, 'blocks': normal(c['blocks'])} for c in row['cells']]})
            out.append(rows)
    return [x for x in out if isinstance(x, list) or x['text'] or x['images']]


def words_of(content):
    for x in content:
        if isinstance(x, dict):
            k = 0
            for w in x['text'].split():
                yield w, [str(y) for y in x['styles'][k]]
                k += len(w)
        else:
            for row in x:
                for c in row['cells']:
                    yield from words_of(c['blocks'])


def view(obs):
    r = render(obs)
    words = {}
    for w in r['words']:
        x0, y0, x1, y1 = map(float, w['rect'])
        # the upper end of a row says nothing about where its text is
        words.setdefault(w['w'], []).append([w['up'], x1, y0, y1] if w['up'] else [w['up'], y1, x0, x1])
    return {'page': [float(obs['sect'][k]) for k in 'wh'], 'content': normal(obs['blocks']),
            'words': {w: x[0] for w, x in words.items() if len(x) == 1},
            'pictures': sorted([float(x) for x in i['rect']] for i in r['images'])}


def differences(a, b, path=''):
    if type(a) != type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return [f'{path}: {a!r} in one order, {b!r} in the other'[:300]]
    if isinstance(a, dict):
        if set(a) != set(b):
            return [f'{path}: {sorted(set(a) ^ set(b))}']
        for k in a:
            d = differences(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return []
    if isinstance(a, (list, tuple)):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differences(x, y, f'{path}/{i}')
            if d:
                return d
        return [f'{path}: {len(a)} and {len(b)} items: {str((a + b)[min(len(a), len(b))])[:150]}'] if len(a) != len(b) else []
    if isinstance(a, float) or isinstance(b, float):
        return [] if abs(a - b) < (2.5 if path.startswith(('/words', '/pictures')) else 24 if '/look' in path else 0.06) else [f'{path}: {a} and {b}']
    return [] if a == b else [f'{path}: {a!r} in one order, {b!r} in the other'[:300]]
