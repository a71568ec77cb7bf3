"""C16  The docx depends on what the page displays, not on its rotation, boxes and origin."""
import itertools
from ..pages import PageFamily, convert_pages
from ..explore import res, Fail, digest
from ..gallery import gallery, mix, KINDS
from ..view import view, differences

LEVEL = 'model_checking'
ROT = [0, 90, 180, 270]
CROPS = [None] + [list(c) for c in itertools.product((0, 30), repeat=4) if any(c)]
SHIFTS = [None, [40, 0], [0, 55], [-70, -20], [1000, 1000]]


class Same(PageFamily):
    """pages that look the same as a plain one"""
    batch = 16

    def plain(self, what):
        raise NotImplementedError

    def page(self, scn):
        what, rot, crop, shift = scn
        p = self.plain(what)
        boxes = {k: x for k, x in (('crop', crop), ('shift', shift)) if x}
        return {**p, 'rot': rot, **({'boxes': boxes} if boxes else {})}

    def run_many(self, scns, tmp):
        bases = []
        for s in scns:
            if s[0] not in bases:
                bases.append(s[0])
        obs = convert_pages([{**self.plain(b), 'rot': 0} for b in bases] + [self.page(s) for s in scns], tmp)
        if obs is None:
            if len(scns) > 1:
                return None
            raise Fail('the page is not in the output')
        first = dict((repr(b), view(o)) for b, o in zip(bases, obs))
        out = []
        for s, o in zip(scns, obs[len(bases):]):
            f, g = first[repr(s[0])], view(o)
            out.append(res(differences(f, g), digest(str(g['content'])), n=2))
        return out


class Kinds(Same):
    name = 'kinds'
    bounds = ('22 kinds of pages x 4 rotations x 16 ways to crop (30 pt at any sides) x 5 origins of the coordinates '
              '(thorough: all combinations)')

    def plain(self, what):
        return gallery(what)

    def scenarios(self, tier):
        for k in KINDS:
            for r, rot in enumerate(ROT):
                for c, crop in enumerate(CROPS):
                    for s, shift in enumerate(SHIFTS):
                        if not (rot or crop or shift):
                            continue
                        if tier == 'quick' and (r + c + s) % 4:
                            continue
                        yield [k, rot, crop, shift]


class Parts(Same):
    name = 'parts'
    bounds = 'every set of 10 page parts x 3 rotations, cropped pages, shifted origins'

    def plain(self, what):
        return mix(what)

    def scenarios(self, tier):
        for m in range(1, 1024):
            for i, v in enumerate(([90, None, None], [180, [0, 25, 40, 10], None], [270, None, [-30, 60]],
                                   [0, [10, 20, 0, 40], [13, 17]])):
                if tier == 'quick' and (m + i) % 4:
                    continue
                yield [m, *v]


WRAPS = [[[1, 0, 0, 1, 0, 0]], [[1, 0, 0, 1, 0, 0]] * 2, [[2, 0, 0, 2, 0, 0]], [[0.5, 0, 0, 0.5, 30, 20]],
         [[1, 0, 0, 1, -40, 25], [0, 1, -1, 0, 300, 0]], [[1, 0, 0, -1, 0, 300]]]


class Wrapped(Same):
    name = 'wrapped'
    bounds = ('22 kinds of pages, and every set of 10 page parts, with all contents in a form: plain, nested, scaled, moved, turned or '
              'mirrored and drawn back to its place x 4 rotations')

    def plain(self, what):
        return gallery(what) if isinstance(what, str) else mix(what)

    def scenarios(self, tier):
        for i, k in enumerate(KINDS + list(range(1, 1024))):
            for w in range(len(WRAPS)):
                for r, rot in enumerate(ROT):
                    if tier == 'quick' and (i + w + r) % (4 if i < len(KINDS) else 12):
                        continue
                    yield [k, w, rot]

    def page(self, scn):
        return {**self.plain(scn[0]), 'wrap': WRAPS[scn[1]], 'rot': scn[2]}


class Written(Same):
    name = 'written'
    bounds = ('22 kinds of pages, and every set of 10 page parts, written otherwise: attributes of the page inherited, rotation '
              'negative or beyond 360, corners of the media box swapped, a content stream for each line x 4 rotations')
    WAYS = ['inherited', 'negative', 'around', 'corners', 'streams']

    def plain(self, what):
        return gallery(what) if isinstance(what, str) else mix(what)

    def scenarios(self, tier):
        for i, k in enumerate(KINDS + list(range(1, 1024))):
            for w, way in enumerate(self.WAYS):
                for r, rot in enumerate(ROT):
                    if tier == 'quick' and (i + w + r) % (4 if i < len(KINDS) else 24):
                        continue
                    yield [k, way, rot]

    def page(self, scn):
        return {**self.plain(scn[0]), 'written': [scn[1]], 'rot': scn[2]}


AROUND = [
    [['text', -60, 100, 'hidden one'], ['text', 60, -30, 'hidden above it'], ['text', 120, 400, 'hidden below it'],
     ['text', 480, 150, 'hidden beside']],
    [['line', -80, 90, -10, 90, {}], ['line', -80, 120, -10, 120, {}], ['line', -80, 90, -80, 120, {}],
     ['line', -10, 90, -10, 120, {}]],
    [['image', 430, 60, 500, 110, 'rgb:7']],
    [['image', 60, -80, 160, -20, 'rgb:6']],
    [['curve', -90, 200, -10, 260, {'color': 0xff0000}]],
    [['rect', 150, 380, 260, 410, {'fill': 0xffdd00}]],
    [['link', -70, 40, -5, 60, 'http://hidden.example/']],
]


class Outside(Same):
    name = 'outside'
    bounds = ('11 kinds of pages x every set of up to 2 (thorough 7) of 7 groups of elements out of sight, beyond the crop box '
              'or the media box, at 4 rotations')
    KINDS = ['text', 'ruled', 'columns', 'inlineimg', 'curve', 'marks', 'vertical', 'nested', 'shaded', 'link', 'empty']

    def plain(self, what):
        return gallery(what)

    def scenarios(self, tier):
        for k in self.KINDS:
            for m in range(1, 1 << len(AROUND)):
                if tier == 'quick' and bin(m).count('1') > 2:
                    continue
                for r in ROT:
                    for crop in ([120, 120, 120, 120], None):
                        yield [k, m, r, crop]

    def base_of(self, scn):
        return scn[0]

    def page(self, scn):
        k, m, rot, crop = scn
        p = self.plain(k)
        els = [e for i, g in enumerate(AROUND) if m >> i & 1 for e in g] + p['els']
        return {**p, 'els': els, 'rot': rot, **({'boxes': {'crop': crop}} if crop else {})}


def families():
    return [Kinds(), Parts(), Wrapped(), Written(), Outside()]
