"""Page kinds: one page for each thing the converter treats in its own way.  gallery(kind, tag) -> page description."""
from .simple import grid

KINDS = ['text', 'ruled', 'merged', 'columns', 'inlineimg', 'floatimg', 'curve', 'marks', 'vertical', 'nested',
         'empty', 'justify', 'shaded', 'rot90', 'rot180', 'rot270', 'manyfonts', 'link', 'implicit', 'wide',
         'rotimg90', 'scan']


def gallery(kind, tag='a'):
    t = tag
    size = [400, 320]
    rot = 0
    E = []
    if kind == 'text':
        for i, s in enumerate(['first line of plain text here', 'second line of plain text is it', 'third line']):
            E.append(['text', 50, 60 + 14 * i, f'{t}{i} {s}'])
        E.append(['text', 50, 150, f'{t}9 a paragraph of its own'])
    elif kind == 'ruled':
        E += grid(60, 60, 3, 2, [[f'{t}00', f'{t}01', f'{t}02'], [f'{t}10', f'{t}11', f'{t}12']])
        E.append(['text', 60, 200, f'{t}after the table'])
    elif kind == 'merged':
        # 3x3 grid with the upper left 2x2 block merged
        x, y, d, h = 60, 60, 60, 24
        for (x0, y0, x1, y1) in [(0, 0, 3, 0), (2, 1, 3, 1), (0, 2, 3, 2), (0, 3, 3, 3),
                                 (0, 0, 0, 3), (1, 2, 1, 3), (2, 0, 2, 3), (3, 0, 3, 3)]:
            E.append(['line', x + d * x0, y + h * y0, x + d * x1, y + h * y1])
        for c, r, s in [(0, 0, 'big'), (2, 0, 'c'), (2, 1, 'f'), (0, 2, 'g'), (1, 2, 'h'), (2, 2, 'i')]:
            E.append(['text', x + d * c + 6, y + h * r + 16, t + s])
    elif kind == 'columns':
        for r in range(4):
            for c in range(2):
                E.append(['text', 50 + 170 * c, 60 + 22 * r + 5 * c, f'{t}r{r}c{c} words'])
    elif kind == 'inlineimg':
        E += [['text', 50, 60, f'{t} above the picture'], ['image', 50, 80, 150, 140, 'rgb:1'],
              ['text', 50, 170, f'{t} below the picture']]
    elif kind == 'floatimg':
        E += [['text', 50, 60 + 14 * i, f'{t}{i} text under a floating picture here'] for i in range(4)]
        E += [['image', 120, 55, 220, 110, 'rgb:2']]
    elif kind == 'curve':
        E += [['text', 50, 50, f'{t} above the drawing'], ['curve', 100, 80, 220, 160, {'color': 0xff0000}],
              ['curve', 130, 100, 260, 180, {'fill': 0x00aa00}], ['text', 50, 220, f'{t} below the drawing']]
    elif kind == 'marks':
        E += [['rect', 48, 48, 112, 63, {'fill': 0xffff00}],
              ['text', 50, 60, f'{t}mark'], ['text', 50, 90, f'{t}underlined words'], ['line', 50, 92, 150, 92],
              ['text', 50, 120, f'{t}struck words'], ['line', 50, 116, 130, 116]]
    elif kind == 'vertical':
        E += [['text', 100, 250, f'{t}upwards text', {'dir': 'bt'}], ['text', 130, 250, f'{t}more of it', {'dir': 'bt'}],
              ['text', 160, 60, f'{t}normal text']]
    elif kind == 'nested':
        E += grid(50, 50, 2, 1, [[None, None]], dx=150, dy=120)
        E += grid(65, 70, 2, 2, [[f'{t}a', f'{t}b'], [f'{t}c', f'{t}d']], dx=55, dy=24)
        E.append(['text', 210, 80, f'{t}outer'])
    elif kind == 'empty':
        pass
    elif kind == 'justify':
        for i, (x, s) in enumerate([(150, 'a centered line'), (170, 'shorter'), (130, 'a longer centered line')]):
            E.append(['text', x, 60 + 14 * i, s])
        for i, s in enumerate(['right aligned', 'aligned to right', 'to right']):
            from .pdfgen import text_width
            E.append(['text', 350 - text_width(t + s), 150 + 14 * i, t + s])
    elif kind == 'shaded':
        E += [['rect', 60, 60, 200, 84, {'fill': 0x88ccee}], ['rect', 60, 84, 200, 108, {'fill': 0xeecc88}]]
        E += grid(60, 60, 2, 2, [[f'{t}a', f'{t}b'], [f'{t}c', f'{t}d']], dx=70)
    elif kind in ('rot90', 'rot180', 'rot270'):
        rot = int(kind[3:])
        E += grid(60, 60, 2, 2, [[f'{t}a', f'{t}b'], [f'{t}c', f'{t}d']])
        E += [['text', 60, 180, f'{t}turned page'], ['text', 60, 194, f'{t}with two lines']]
    elif kind == 'manyfonts':
        for i, f in enumerate(['helv', 'hebo', 'heit', 'tiro', 'cour']):
            E.append(['text', 50, 60 + 24 * i, f'{t}{i} text', {'font': f, 'size': 9 + 2 * i, 'color': 0x330000 * (i + 1)}])
    elif kind == 'link':
        E += [['text', 50, 60, f'{t}link to nowhere'], ['link', 48, 48, 130, 64, f'http://example.org/{t}'],
              ['text', 50, 90, f'{t}plain']]
    elif kind == 'implicit':
        # lines between rows only
        for r in range(3):
            E.append(['line', 50, 60 + 24 * r, 350, 60 + 24 * r])
        for r in range(2):
            for c in range(3):
                E.append(['text', 55 + 100 * c, 76 + 24 * r, f'{t}{r}{c}'])
    elif kind == 'wide':
        size = [600, 200]
        E.append(['text', 50, 60, f'{t} landscape page with one line'])
    elif kind == 'rotimg90':
        rot = 90
        E += [['image', 60, 60, 180, 120, 'rgb:3'], ['text', 60, 160, f'{t} below picture on a turned page']]
    elif kind == 'scan':
        E += [['image', 0, 0, 400, 320, 'gray:1']]
    else:
        raise ValueError(kind)
    return {'size': size, 'rot': rot, 'els': E}


# ---- pages put together from parts: every subset of them is a page
PARTS = [
    [['text', 40, 40, 'alpha beta gamma'], ['text', 40, 54, 'delta epsilon line two']],
    grid(40, 80, 2, 2, [['q1', 'q2'], ['q3', 'q4']]),
    [['image', 200, 80, 260, 130, 'rgb:4']],
    [['image', 60, 35, 110, 60, 'rgb:5']],                      # floats over the text
    [['rect', 38, 148, 102, 163, {'fill': 0xffff00}], ['text', 40, 160, 'marked text here']],
    [['text', 40, 190, 'linked words'], ['link', 38, 178, 110, 194, 'http://example.org/x'],
     ['line', 40, 192, 104, 192, {'width': 0.5}]],
    [['curve', 220, 160, 330, 230, {'color': 0xff0000}], ['curve', 240, 170, 350, 240, {'color': 0x0000ff}]],
    [['text', 370, 220, 'upwards', {'dir': 'bt'}]],
    [['text', 40, 230, 'left col'], ['text', 130, 230, 'mid col'], ['text', 40, 246, 'left two'],
     ['text', 130, 246, 'mid two']],
    [['rect', 200, 30, 300, 54, {'fill': 0x99ccff}], ['text', 206, 46, 'shaded box']],
]


def mix(mask, parts=PARTS):
    els = []
    for i, p in enumerate(parts):
        if mask >> i & 1:
            els += p
    return {'size': [400, 280], 'els': els}
