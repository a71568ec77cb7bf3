"""Lays out a docx section as read back by docxobs, and tells where words, table cells and pictures come to lie.

Only what the converter uses: paragraphs with exact line spacing (or one picture per line), indents, tab stops,
alignment; tables with fixed row heights and cell widths, nested, with turned text; anchored pictures.
Text is measured with the metrics of the base 14 fonts."""
from .env import fitz

_FONTS = {}
DESCENT = 0.299     # of Helvetica, as PyMuPDF has it
BASE = {'helvetica': 'he', 'arial': 'he', 'times': 'ti', 'courier': 'co'}
VARIANTS = {'he': ('helv', 'hebo', 'heit', 'hebi'), 'ti': ('tiro', 'tibo', 'tiit', 'tibi'),
            'co': ('cour', 'cobo', 'coit', 'cobi')}


def width(text, st):
    name = (st.get('font') or 'Helvetica').lower()
    fam = next((v for k, v in BASE.items() if name.startswith(k)), 'he')
    key = VARIANTS[fam][(1 if st.get('b') else 0) + (2 if st.get('i') else 0)]
    if key not in _FONTS:
        _FONTS[key] = fitz.Font(key)
    return _FONTS[key].text_length(text, fontsize=st.get('size', 11.0)) * st.get('scale', 100.0) / 100.0


class Frame:
    """maps (along, across) of a text area to the page: horizontal text, or text going upwards"""

    def __init__(self, x0, y0, x1, y1, up=False):
        self.x0, self.y0, self.x1, self.y1, self.up = x0, y0, x1, y1, up
        self.width = (y1 - y0) if up else (x1 - x0)
        self.height = (x1 - x0) if up else (y1 - y0)

    def rect(self, u0, v0, u1, v1):
        if self.up:
            return (self.x0 + v0, self.y1 - u1, self.x0 + v1, self.y1 - u0)
        return (self.x0 + u0, self.y0 + v0, self.x0 + u1, self.y0 + v1)


def items_of(p):
    """[(kind, text, width)]: words, blanks, tabs, breaks, of the runs of a paragraph"""
    out = []
    pics = [i for i in p['images'] if i['kind'] == 'inline']
    for k, r in enumerate(p['runs'] + [None]):
        out += [['i', i, i['w']] for i in pics if i['at'] == k]
        if r is None:
            break
        word = ''
        for ch in r['text'] + '\0':
            if ch in ' \t\n\0':
                if word:
                    out.append(['w', word, width(word, r['st'])])
                    word = ''
                if ch == ' ':
                    out.append(['s', ' ', width(' ', r['st'])])
                elif ch != '\0':
                    out.append([ch, ch, 0])
            else:
                word += ch
    # a word over several runs is one
    res = []
    for it in out:
        if res and it[0] == 'w' and res[-1][0] == 'w':
            res[-1][1] += it[1]
            res[-1][2] += it[2]
        else:
            res.append(it)
    return res


def break_rows(p, avail, first):
    """rows of [(item, u0)] by greedy wrapping; u relative to the text area"""
    rows, row = [], []
    left = p.get('left', 0)
    start = left + first
    u = start
    pending = None
    limit = avail - p.get('right', 0)
    stops = sorted(p.get('tabs', []))
    for it in items_of(p):
        k, s, w = it
        if k == '\n':
            rows.append(row)
            row, u = [], left
        elif k == '\t':
            u = next((t for t in stops if t > u + 0.01), (int(u / 36 + 1e-6) + 1) * 36)
        elif k == 's':
            row.append((it, u))
            u += w
        else:
            if u + w > limit + 0.6 and any(i[0][0] in 'wi' for i in row):
                rows.append(row)
                row, u = [], left
            row.append((it, u))
            u += w
    rows.append(row)
    return rows, limit


def lay_paragraph(p, frame, v, out):
    """-> v after the paragraph"""
    v += p.get('before', 0.0)
    inline = [i for i in p['images'] if i['kind'] == 'inline']
    exact = p.get('rule') == 'exact'
    first = p.get('first', 0)
    rows, limit = break_rows(p, frame.width, first)
    left = p.get('left', 0)
    jc = p.get('jc')
    pre = len(out['words'])
    for n, row in enumerate(rows):
        things = [(it, u) for it, u in row if it[0] in 'wi']
        pics = [it[1] for it, u in things if it[0] == 'i']
        words = [it for it, u in things if it[0] == 'w']
        size = max([r['st'].get('size', 11.0) for r in p['runs']] or [11.0])
        h = p.get('line', 12.0) if exact else 12.0
        text_bottom = pic_bottom = v + h
        if not exact and pics:
            # pictures stand on the base line of the words beside them
            h = max(i['h'] for i in pics)
            pic_bottom = v + h
            text_bottom = pic_bottom + DESCENT * size
            if words:
                h += 0.21 * size
        elif not exact and words:
            h = 1.15 * size
            text_bottom = v + 0.905 * size + DESCENT * size
        if things:
            end = things[-1][1] + things[-1][0][2]
            begin = things[0][1]
            base = left + (first if n == 0 else 0)
            shift = 0
            if jc == 'center':
                shift = (base + limit - (begin + end)) / 2
            elif jc == 'right':
                shift = limit - end
            spread = 0
            if jc == 'both' and n < len(rows) - 1 and len(things) > 1:
                spread = (limit - end) / (len(things) - 1)
            for i, (it, u) in enumerate(things):
                a = u + shift + spread * i
                if it[0] == 'i':
                    im = it[1]
                    out['images'].append({'rect': frame.rect(a, pic_bottom - im['h'], a + im['w'], pic_bottom),
                                          'sha': im['sha'], 'data': im['data'], 'kind': 'inline',
                                          'alone': not words and len(inline) == 1})
                    continue
                r = frame.rect(a, v, a + it[2], text_bottom)
                out['words'].append({'w': it[1], 'rect': r, 'up': frame.up,
                                     'first': n == 0, 'last': n == len(rows) - 1, 'beside': bool(pics),
                                     'ends': i == 0 or i == len(things) - 1, 'jc': jc})
        v += h
    for i in p['images']:
        if i['kind'] == 'anchor':
            out['images'].append({'rect': (i['x'], i['y'], i['x'] + i['w'], i['y'] + i['h']), 'sha': i['sha'], 'data': i['data'],
                                  'kind': 'anchor', 'alone': True})
    out['paragraphs'].append(len(out['words']) - pre)
    return v + p.get('after', 0.0)


def lay_table(t, frame, v, out):
    x = frame.x0 + t['indent']
    # row heights count between the center lines of borders
    first = t['rows'][0]['cells'][0] if t['rows'] and t['rows'][0]['cells'] else {}
    dw = first.get('borders', {}).get('top', (0,))[0] / 2
    y = frame.y0 + v + dw
    tops = [y]
    for row in t['rows']:
        tops.append(tops[-1] + (row['h'] or 0))
    open_ = {}
    cells = []
    for i, row in enumerate(t['rows']):
        cx = x
        for c in row['cells']:
            w = c.get('w') or 0
            if c['vmerge'] == 'continue' and c['col'] in open_:
                open_[c['col']]['rect'][3] = tops[i + 1]
            else:
                cell = {'rect': [cx, tops[i], cx + w, tops[i + 1]], 'cell': c, 'row': i, 'col': c['col']}
                cells.append(cell)
                open_[c['col']] = cell
            cx += w
    for cell in cells:
        c = cell['cell']
        # contents are between the inner edges of the borders
        b = [c.get('borders', {}).get(k, (0,))[0] / 2 for k in ('start', 'top', 'end', 'bottom')]
        x0, y0, x1, y1 = cell['rect']
        f = Frame(x0 + b[0], y0 + b[1], x1 - b[2], y1 - b[3], up=c.get('dir') == 'btLr')
        used = lay_blocks(c['blocks'], f, out)
        if any(b['kind'] == 'tbl' or b['runs'] or b['images'] for b in c['blocks']) and used > f.height + 0.01:
            out['overflow'].append((used - f.height, cell['rect']))
    out['tables'].append({'rect': [x, tops[0], max((c['rect'][2] for c in cells), default=x), tops[-1]],
                          'cells': cells, 'bordered': any(c['cell'].get('borders') for c in cells)})
    return v + tops[-1] - tops[0] + 2 * dw


def lay_blocks(blocks, frame, out):
    v = 0.0
    for b in blocks:
        v = lay_paragraph(b, frame, v, out) if b['kind'] == 'p' else lay_table(b, frame, v, out)
    return v


def render(section):
    s = section['sect']
    f = Frame(s['left'], s['top'], s['w'] - s['right'], s['h'] - s['bottom'])
    out = {'words': [], 'images': [], 'tables': [], 'paragraphs': [], 'overflow': []}
    out['used'] = lay_blocks(section['blocks'], f, out)
    out['room'] = f.height
    return out
