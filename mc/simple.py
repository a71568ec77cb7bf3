"""Small documents whose pages can be told apart wherever they end up."""
from .docxobs import Docx, all_text


def grid(x, y, cols, rows, texts, dx=60, dy=24, lw=1):
    """a ruled grid of cols x rows with texts[row][col]"""
    els = []
    for i in range(rows + 1):
        els.append(['line', x, y + i * dy, x + cols * dx, y + i * dy, {'width': lw}])
    for j in range(cols + 1):
        els.append(['line', x + j * dx, y, x + j * dx, y + rows * dy, {'width': lw}])
    for i, r in enumerate(texts):
        for j, t in enumerate(r):
            if t:
                els.append(['text', x + j * dx + 6, y + i * dy + 16, t])
    return els


def marked_page(i, table=True):
    """page number i: its own width, words Wi.. and a 2x2 table Ti.."""
    els = [['text', 40, 50, f'W{i}x start of page'], ['text', 40, 170, f'W{i}y end']]
    if table:
        els += grid(60, 80, 2, 2, [[f'T{i}a', f'T{i}b'], [f'T{i}c', f'T{i}d']])
    return {'size': [300 + 10 * i, 240 + 10 * i], 'els': els}


def page_ids(path):
    """which marked pages a docx shows, section by section: [int] (or a description where it is none)"""
    r = []
    for s in Docx(path).sections:
        w = s['sect']['w']
        words = all_text(s['blocks'], ' ').split()
        i = round((w - 300) / 10)
        exp = sorted([f'W{i}x', 'start', 'of', 'page', f'W{i}y', 'end'] + [f'T{i}{c}' for c in 'abcd'])
        if abs(w - 300 - 10 * i) < 1 and abs(s['sect']['h'] - 240 - 10 * i) < 1 and sorted(words) == exp:
            r.append(i)
        else:
            r.append(f'{w}x{s["sect"]["h"]}: {words}')
    return r
