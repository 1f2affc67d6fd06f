"""The segments listed in a SegmentTimeline (C35)."""
from . import check
from .. import terms as t
from ..terms import mk, K, NONE
from ..interp import Obj
from .analyzer import desk
from .segment import LIB, cat
from .tools import dictionary, list_of

GEN = LIB + 'segtimeline.SegmentTimeLineGenerator'
SCALE = 10


class Content(object):
    """stored content: entries (duration, number of segments), start of the first, loop length minus sum of durations"""
    def __init__(self, entries, first=0, gap=0):
        self.entries, self.first, self.gap = entries, first, gap
        self.segs, self.records = [], []
        time, nr = first, 5
        for d, n in entries:
            self.records.append((nr, n - 1, time, d))
            for _ in range(n):
                self.segs.append((time, d))
                time += d
                nr += 1
        self.wrap = time - first + gap
        self.name = ' '.join('%dx%d' % (n, d) for d, n in entries) + (' from %d' % first if first else '') + \
            (' gap %d' % gap if gap else '')

    def seg(self, k):
        """start and duration of live segment k"""
        w, j = divmod(k, len(self.segs))
        return self.segs[j][0] + w * self.wrap, self.segs[j][1]

    def last_ended(self, x):
        """the last live segment that has ended at x"""
        k = (x - self.first) // self.wrap * len(self.segs) + len(self.segs)
        while sum(self.seg(k)) > x:
            k -= 1
        return k

    def latest(self, x):
        """the latest live segment that starts before or at x"""
        k = (x - self.first) // self.wrap * len(self.segs) + len(self.segs)
        while self.seg(k)[0] > x:
            k -= 1
        return k

    def closest(self, x):
        """the first live segment x is no further behind than half its duration"""
        k = self.latest(x) - 1
        while x > self.seg(k)[0] + self.seg(k)[1] // 2:
            k += 1
        return k

    def pieces(self):
        """times of one loop, cut where the answers can change: (first time, number of times)"""
        ps = set()
        for k in range(-1, len(self.segs) + 2):
            s, d = self.seg(k)
            ps |= {s, s + d, s + d // 2}
        lo = self.first
        ps = sorted(p for p in ps | {lo, lo + self.wrap} if lo <= p <= lo + self.wrap)
        out = []
        for a, b in zip(ps, ps[1:]):
            out.append((a, 1))
            if b - a > 1:
                out.append((a + 1, b - a - 1))
        return out


def within(name, a, n):
    """any of n times from a on"""
    return K(a) if n == 1 else t.ranged(name, a, a + n - 1)


def atoms(x):
    return [a for m in t.lin(x) for a, _ in m]


def one(ctx, c, base, loops, start, end, closest, name):
    """window from a time of the piece start of a loop (None: any loop) to a time of the piece end, loops loops later"""
    d = desk(ctx)
    I = d.I
    data = cat(*[t.wr(w, 'lu', K(v)) for e in c.records for w, v in zip((2, 2, 4, 4), e)])
    I.setattr_(d.s, 'disk', I.newref(Obj('dict', d={K('vod/content.dat'): data})))
    I.setattr_(d.s, 'media', dictionary(I, timescale=K(SCALE), dat_file=K('content.dat')))
    I.setattr_(d.s, 'cfg', d.record(vod_cfg_dir=K('vod'), vod_wrap_seconds=t.div(K(c.wrap), K(SCALE)),
                                    vod_nr_segments_in_loop=K(len(c.segs)), vod_first_segment_in_loop=K(c.records[0][0])))
    first = base == 0
    base = t.ranged('loop', 0, 1 << 60) if base is None else K(base)
    x = t.add(t.mul(base, K(c.wrap)), within('x', *start))
    y = t.add(t.mul(t.add(base, K(loops)), K(c.wrap)), within('y', *end))
    a = (c.closest if closest else c.latest)(start[0])
    b = c.last_ended(end[0] + loops * c.wrap)
    if first:
        a = max(a, 0)
    found = [] if a > b else [mk('tuple', (t.add(t.mul(base, K(c.wrap)), K(c.seg(k)[0])), K(c.seg(k)[1]))) for k in range(a, b + 1)]
    number = NONE if a > b else t.add(t.mul(base, K(len(c.segs))), K(a))
    I.setattr_(d.s, 'expected', mk('tuple', (list_of(d, found), number)))
    d.st0 = I.st.copy()
    d.compare(name, 'code_segments', 'segments', t.div(x, K(SCALE)), t.div(y, K(SCALE)), K(closest),
              where=GEN + '.create_segtimeline', known=[v for q in (base, x, y) for v in atoms(q)])


CONTENTS = [Content([(10, 3)]), Content([(10, 1), (11, 2)]), Content([(8, 2), (9, 1)], gap=2), Content([(10, 2)], first=7)]
MORE = [Content([(9, 1)]), Content([(11, 2)], gap=-2), Content([(10, 2), (9, 2), (11, 1)], first=3, gap=1), Content([(12, 2), (10, 1)], first=40)]


@check('C35', "value flow of stored content with given layouts of segments through the timeline reader and generator, for windows that "
              "start and end anywhere in each interval between segment boundaries of any loop, compared with the reference list "
              "of segments in normal form")
def c35(ctx):
    ctx.anchor(GEN + '.create_segtimeline')
    deep = ctx.tier == 'thorough'
    for c in CONTENTS + (MORE if deep else []):
        for closest in (False, True):
            for base, loops in ((0, 0), (0, 1), (3, 1), (None, 0), (None, 1), (None, 2)):
                if loops == 2 and len(c.segs) > 3 and not deep:
                    continue
                early = [(0, c.first)] if c.first and base == 0 else []
                for end in (early if loops == 0 else []) + c.pieces():
                    for start in early + c.pieces():
                        if not loops and start[0] > end[0]:
                            continue
                        name = '%s%s, %s loops from loop %s: %s to %s' % (c.name, ' closest' if closest else '', loops,
                                                                          'n' if base is None else base, start, end)
                        ctx.obligation(name, GEN, lambda: one(ctx, c, base, loops, start, end, closest, name), 30)
