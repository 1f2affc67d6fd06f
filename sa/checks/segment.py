"""Rewriting of stored segments: the filters against the reference definitions in specs/segment.py.

Box processors of one filter object are composed in file order (tfdt before trun and saio), and whole segments with a given
box structure but variable contents and sizes are followed through the filter, so that only what reaches the served bytes
is compared, not how the objects keep it.
"""
from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO
from ..compare import Facts, assume
from ..frame import Undecided
from ..interp import Obj

LIB = 'dashlivesim.dashlib.'
FILTER = LIB + 'mediasegmentfilter.MediaSegmentFilter'
SETTINGS = {'file': 's', 'nr': 'i', 'dur': 'i', 'offset': 'i', 'lmsg': 'B', 'timescale': 'i', 'scte': 'i', 'rel_path': 's',
            'default_dur': 'i', 'sidx': 'B', 'emsg': 'B', 'now': 'i', 'ttml': 'B'}
PLAIN = {'scte': ZERO, 'sidx': FALSE, 'emsg': FALSE, 'ttml': FALSE}
t.CALL_TY['TTML'] = 'b'


class Drive(object):
    """one analysis session: the settings of a filter and the input boxes are variables"""
    def __init__(self, ctx, spec='segment', overrides=None, **fixed):
        self.ctx = ctx
        self.spec = ctx.spec(spec)
        self.I = I = ctx.interp(overrides)
        I.maxrec = 6
        self.s = I.newref(Obj('inst', None, {}))
        for k, ty in SETTINGS.items():
            I.setattr_(self.s, k, fixed.get(k, t.var(k, ty)))
        self.input = []
        self.settings = [t.var(k, ty) for k, ty in SETTINGS.items() if k not in fixed]
        self.st0 = I.st.copy()

    def value(self, fn, *args):
        f = self.spec(fn)
        self.I.st = self.st0.copy()
        v, st = self.I.run(f, [self.s] + list(args))
        return self.I.reify(v)

    def compare(self, name, fn, ref, *args, **kw):
        got = self.value(fn, *args)
        refs = [self.value(r, *args) for r in ([ref] if isinstance(ref, str) else ref)]
        where = kw.pop('where', fn)
        kw['known'] = list(kw.get('known') or ()) + self.input + self.settings + [x for x in args if not t.isk(x) and x.op != "ref"]     # both sides may use all of the input
        kw['facts'] = unsigned(self.input, kw.get('facts'))
        self.ctx.same(name, where, got, refs, self.I.loops, **kw)
        self.ctx.used(self.I)
        return got

    def stored(self, data):
        """the bytes of the file that is read"""
        self.input.append(data)
        self.I.method_overrides['read'] = (lambda I, base: True, lambda I, base, a, k, e: data)

    def record(self, **attrs):
        b = self.I.newref(Obj('inst', None, {}))
        for k, v in attrs.items():
            self.I.setattr_(b, k, v)
        self.st0 = self.I.st.copy()
        return b

    def pairs(self, xs):
        return self.I.new_list([mk('gi', TRUE, mk('tuple', (K(n), x))) for n, x in xs])


def unsigned(xs, f=None):
    """facts: the unsigned fields of stored bytes are not negative"""
    f = f or Facts()
    seen, todo = set(), list(xs)
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, t.T) and x not in seen:
            seen.add(x)
            if x.op == 'wr' and x.args[1] == 'u' and x.args[2].op == 'var':
                f = assume(f, t.cmp_le(t.ZERO, x.args[2], False), True) or f
            todo.extend(x.args)
    return f


def wr(n, x):
    return t.wr(n, 'u', x)


def cat(*pieces):
    return t.cat('b', list(pieces))


def box(name, *pieces):
    body = cat(*pieces)
    return cat(wr(4, t.add(K(8), t.blen(body))), K(name), body)


def u(name, n=4):
    """a field of n bytes with any value"""
    return wr(n, t.var(name, 'i'))


def anybox(name, tag=''):
    return box(name.encode(), t.var(tag + name + '_payload', 'b'))


TRAFS = (('tfhd', 'tfdt', 'trun'), ('tfhd', 'tfdt', 'trun', 'senc', 'saiz', 'saio'),
         ('tfhd', 'tfdt', 'saiz', 'saio', 'uuid', 'trun'), ('tfhd', 'senc', 'tfdt', 'trun', 'subs'))
TOPS = (('styp', 'moof', 'mdat'), ('styp', 'sidx', 'moof', 'mdat'), ('moof', 'mdat'), ('styp', 'emsg', 'moof', 'free', 'mdat'))


def segment(d, traf, top, tfdt_version=0, saio_version=0, trun_flags=0x301, rest=False, tfhd_flags=0x20000, tag='', styp=None):
    """a stored segment with this box structure; contents and sizes are variables"""
    v0 = K(bytes([tfdt_version, 0, 0, 0]))
    f = lambda n, w=4: u(tag + n, w)
    fields = [f('tfhd_%x' % b) for b in (2, 8, 16, 32) if tfhd_flags & b]
    run = [f('data_offset')] if trun_flags & 1 else []
    data = {
        'tfhd': box(b'tfhd', K(b'\x00' + tfhd_flags.to_bytes(3, 'big')), f('track'), *fields),
        'tfdt': box(b'tfdt', v0, f('time', 8 if tfdt_version else 4)),
        'trun': box(b'trun', K(b'\x00' + trun_flags.to_bytes(3, 'big')), f('samples'), *(run + [t.var(tag + 'entries', 'b')])),
        'saio': box(b'saio', K(bytes([saio_version, 0, 0, 0])), K(b'\x00\x00\x00\x01'), f('aux', 8 if saio_version else 4)),
        'styp': box(b'styp', K(b'msdhlmsg'), f('brand')) if styp is None else styp,
        'mfhd': box(b'mfhd', f('mfhd_version'), f('seqno'))}
    other = lambda n: anybox(n, tag)
    tr = [(n, data.get(n) or other(n)) for n in traf]
    moof_rest = other('pssh') if rest else K(b'')
    trafbox = box(b'traf', *[x for _, x in tr])
    moof = box(b'moof', data['mfhd'], trafbox, moof_rest)
    tp = [(n, moof if n == 'moof' else data.get(n) or other(n)) for n in top]
    stored = cat(*[x for _, x in tp])
    d.stored(stored)
    mdat = dict(tp)['mdat']
    return d.record(tfdt=data['tfdt'], trun=data['trun'], tfhd=data['tfhd'], mfhd=data['mfhd'], moof_rest=moof_rest, mdat=mdat,
                    mdat_size=t.blen(mdat), payload=t.slice_(mdat, K(8), NONE), moof=moof, trafbox=trafbox,
                    styp=dict(tp).get('styp', NONE), traf=d.pairs(tr), top=d.pairs(tp), stored=stored)


def I_attr(d, b, name):
    d.I.st = d.st0.copy()
    return d.I.getattr_(b, name)


@check('C08', "box processors of the media segment filter composed in file order, and whole segments with given box "
              "structures and variable contents followed through the filter, against reference definitions")
def c08(ctx):
    ctx.anchor_cls(FILTER)
    b = lambda n: t.var(n, 'b')
    for m in ('process_styp', 'process_mfhd', 'process_tfdt', 'process_trun', 'process_sidx', 'process_tfhd', 'process_saio'):
        ctx.anchor(FILTER + '.' + m)
    ctx.anchor(FILTER + '.filter') if ctx.program.func(FILTER + '.filter') else ctx.anchor(LIB + 'mp4filter.MP4Filter.filter')
    # no base data offset, which is refused (bit 0 of the flags is zero)
    tfhd0 = cat(u('tfhd_size'), K(b'tfhd'), wr(4, t.mul(K(2), t.var('tfhd_flags', 'i'))), t.var('tfhd_rest', 'b'))

    def single(name, ref, *args):
        def one():
            d = Drive(ctx, **PLAIN)
            d.compare(name, 'code_' + name, ref, *args, where=FILTER + '.process_' + name)
        ctx.obligation(name, FILTER, one)
    single('mfhd', 'mfhd', b('mfhd'))
    single('tfdt', 'tfdt', b('tfdt'))
    single('trun', 'trun', b('tfdt'), b('trun'))
    single('saio', 'saio', b('tfdt'), b('saio'))
    single('tfhd', 'tfhd', tfhd0)
    single('sidx', 'sidx', b('sidx'))
    single('duration', 'duration', tfhd0, b('trun'))
    single('styp', 'styp', b('styp'))

    def whole(name, ref='whole', ov=None, settings=PLAIN, **kw):
        def one():
            d = Drive(ctx, overrides=ov, **settings)
            b = segment(d, **kw)
            facts = None
            if ov:       # a subtitle sample with a TTML document is not empty
                mdat = I_attr(d, b, 'mdat')
                facts = assume(Facts(), t.eq(t.blen(d.value('ttml_sample', mdat)), ZERO), False)
            d.compare(name, 'code_filter', ref, b, where=LIB + 'mp4filter.MP4Filter.filter', facts=facts)
        ctx.obligation(name, FILTER, one)
    for traf in TRAFS:
        for top in TOPS:
            for v in (0, 1):
                for f in ((0x301, 0x205, 0x300) if top == TOPS[0] else (0x301,)):
                    whole('segment %s / %s, tfdt %d, trun %x' % ('+'.join(top), '+'.join(traf), v, f), traf=traf, top=top,
                          tfdt_version=v, saio_version=1 - v, trun_flags=f, rest=top == TOPS[2])
    for sidx in (FALSE, TRUE):
        for em in (FALSE, TRUE):
            if sidx is TRUE or em is TRUE:
                for top in TOPS:
                    for v in (0, 1):
                        for dd in (False, True):
                            whole('insert%s%s into %s, tfdt %d%s' % (' sidx' if sidx is TRUE else '', ' emsg' if em is TRUE else '',
                                                                     '+'.join(top), v, ', default duration' if dd else ''),
                                  settings=dict(PLAIN, sidx=sidx, emsg=em), traf=TRAFS[0], top=top, tfdt_version=v,
                                  trun_flags=0x201 if dd else 0x301, tfhd_flags=0x20008 if dd else 0x20000)
    # several movie fragments in one segment; the second starts at or after the first
    for traf in TRAFS:
        for v in (0, 1):
            for f in (0x301, 0x300):
                def two():
                    d = Drive(ctx, **PLAIN)
                    a = segment(d, traf, ('styp', 'moof', 'mdat'), v, 1 - v, f, tag='a_')
                    b = segment(d, traf, ('moof', 'mdat'), v, 1 - v, 0x301, tag='b_')
                    d.input = []
                    d.stored(cat(I_attr(d, a, 'stored'), I_attr(d, b, 'stored')))
                    facts = assume(Facts(), t.cmp_le(t.var('a_time', 'i'), t.var('b_time', 'i'), False), True)
                    d.compare('two fragments: %s, tfdt %d, trun %x' % ('+'.join(traf), v, f), 'code_two', 'two_fragments', a, b,
                              where=LIB + 'mp4filter.MP4Filter.filter', facts=facts)
                ctx.obligation('two fragments', FILTER, two)
    # live subtitles: one sample, its size is the default sample size
    ctx.anchor(LIB + 'ttml_timing_offset.adjust_ttml_content')

    def ttml(I, env, node):
        return mk('call', 'TTML', *[I.reify(v) for v in env.values()])
    ov = {LIB + 'ttml_timing_offset.adjust_ttml_content': ttml, 'spec.segment.TTML': ttml}
    for top in TOPS:
        for v in (0, 1):
            for f in (0x20018, 0x2001a, 0x20038):
                whole('subtitles %s, tfdt %d, tfhd %x' % ('+'.join(top), v, f), 'whole_ttml', ov, dict(PLAIN, ttml=TRUE),
                      traf=TRAFS[0], top=top, tfdt_version=v, trun_flags=0x1, tfhd_flags=f)


def brands(ctx):
    """the brand list of a segment, with and without the last-segment brand"""
    ctx.anchor_cls(FILTER)
    for last in (TRUE, FALSE):
        def one():
            d = Drive(ctx, **dict(PLAIN, lmsg=last))
            d.compare('brands (last: %s)' % t.show(last), 'code_styp', 'styp', t.var('styp', 'b'), where=FILTER + '.process_styp')
        ctx.obligation('brands', FILTER, one)
        for n in range(4):
            def fixed():
                d = Drive(ctx, **dict(PLAIN, lmsg=last))
                d.compare('%d stored brands (last: %s)' % (n, t.show(last)), 'code_styp', 'styp',
                          box(b'styp', *[u('brand%d' % i) for i in range(n)]), where=FILTER + '.process_styp')
            ctx.obligation('stored brands', FILTER, fixed)


# ---------------------------------------------------------------- init segments
MOOVS = (('mvhd', ('trak', 'tkhd', ('mdia', 'mdhd', 'hdlr', 'minf')), ('mvex', 'trex')),
         ('mvhd', ('mvex', 'mehd', 'trex'), ('trak', 'tkhd', 'edts', ('mdia', 'hdlr', 'mdhd', 'minf')), 'udta'),
         ('mvhd', 'iods', ('trak', 'tkhd', ('mdia', 'mdhd', 'hdlr', 'minf'), 'udta'), ('mvex', 'trex'), 'pssh'))


def init_segment(d, moov, version, top=('ftyp', 'moov'), tag=''):
    v = K(bytes([version, 0, 0, 0]))
    w = 8 if version else 4
    f = lambda n, k=4: u(tag + n, k)
    data = {
        'mvhd': box(b'mvhd', v, f('mv_c', w), f('mv_m', w), f('mv_ts'), f('mv_dur', w), t.var(tag + 'mv_rest', 'b')),
        'tkhd': box(b'tkhd', v, f('tk_c', w), f('tk_m', w), f('tk_id'), f('tk_res'), f('tk_dur', w), t.var(tag + 'tk_rest', 'b')),
        'mdhd': box(b'mdhd', v, f('md_c', w), f('md_m', w), f('md_ts'), f('md_dur', w), t.var(tag + 'md_rest', 'b')),
        'hdlr': box(b'hdlr', f('hd_v'), f('hd_pre'), f('hd_type'), t.var(tag + 'hd_rest', 'b')),
        'trex': box(b'trex', f('tr_v'), f('tr_id'), f('tr_sdi'), f('tr_dur'), f('tr_size'), f('tr_flags'))}
    flat = []
    boxes = {}

    def build(x):
        if isinstance(x, str):
            b = data.get(x) or anybox(x, tag)
            flat.append((x, b))
        else:
            i = len(flat)
            flat.append(None)
            b = box(x[0].encode(), *[build(y) for y in x[1:]])
            flat[i] = ('header', t.slice_(b, ZERO, K(8)))
            x = x[0]
        boxes[x] = b
        return b
    stored = cat(*[build(('moov',) + moov if x == 'moov' else x) for x in top])
    d.stored(stored)
    return d.record(all=d.pairs(flat), stored=stored, tkhd=boxes['tkhd'], mdhd=boxes['mdhd'], hdlr=boxes['hdlr'],
                    trex=boxes['trex'], mvhd=boxes['mvhd'], trak=boxes['trak'], ftyp=boxes.get('ftyp', NONE))


@check('C10', "whole init segments with given box structures and variable contents followed through the init filters, and "
              "the availability decision of get_init, against reference definitions")
def c10(ctx):
    init = LIB + 'initsegmentfilter.'
    for c in ('InitFilter', 'InitLiveFilter'):
        ctx.anchor_cls(init + c)
    for i, moov in enumerate(MOOVS):
        for v in (0, 1):
            for top in (('ftyp', 'moov'), ('ftyp', 'free', 'moov', 'sidx')):
                def one(code, ref, where):
                    d = Drive(ctx)
                    d.compare('%s: moov %d version %d in %s' % (code, i, v, '+'.join(top)), code, ref,
                              init_segment(d, moov, v, top), where=init + where)
                ctx.obligation('live init', init, lambda: one('code_init', 'live_init', 'InitLiveFilter'))
                ctx.obligation('live init data', init, lambda: one('code_initdata', 'live_init', 'InitLiveFilter'))
                ctx.obligation('track facts', init, lambda: one('code_facts', 'facts', 'InitFilter'))
    from . import proxy
    proxy.init(ctx)


# ---------------------------------------------------------------- emsg
@check('C21', "value flow through the emsg box writer for arbitrary text and numbers, against the version-0 layout")
def c21(ctx):
    ctx.anchor(LIB + 'emsg.create_emsg')

    def one(value):
        d = Drive(ctx)
        args = [t.var('uri', 's'), value] + [t.var(n, 'i') for n in ('timescale', 'delta', 'event_duration', 'id')]
        d.compare('layout', 'code_emsg', 'ref_emsg', *(args + [t.var('message', 's')]), where=LIB + 'emsg.create_emsg')
    ctx.obligation('layout', LIB + 'emsg', lambda: one(t.var('value', 's')))


# ---------------------------------------------------------------- ad insertion
@check('C20', "value flow through the styp processor of the segment filter for every documented number of ads per minute and "
              "variable segment number and duration, the number of ads handed to the filter, and the announcement in the "
              "manifest, against reference definitions")
def c20(ctx):
    ctx.anchor_cls(FILTER)
    nr, dur = t.var('nr', 'i'), t.var('dur', 'i')
    facts = Facts()         # segments at or after the epoch
    for c in (t.cmp_le(ZERO, nr, False), t.cmp_le(ZERO, dur, True), t.cmp_le(ZERO, t.mul(nr, dur), False),
              t.cmp_le(ZERO, t.fdiv(t.mul(nr, dur), K(60)), False)):
        facts = assume(facts, c, True)
    for n in (0, 1, 2, 3, -1):
        for styp, lmsg in (([u('brand%d' % i) for i in range(2)], FALSE), ([], FALSE), ([u('brand0')], TRUE)):
            def one():
                d = Drive(ctx, **dict(PLAIN, scte=K(n), lmsg=lmsg))
                d.compare('%d per minute, %d brands%s' % (n, len(styp), ', lmsg' if lmsg is TRUE else ''), 'code_ads', 'ads', K(n), box(b'styp', *styp),
                          where=FILTER + '.process_styp', facts=facts)
            ctx.obligation('%d per minute' % n, FILTER + '.process_styp', one)
    from . import mpd, proxy
    proxy.ads(ctx)
    mpd.ads(ctx)


# ---------------------------------------------------------------- multiplexing
@check('C23', "whole segments with given box structures and variable contents followed through the multiplexer, against "
              "reference definitions")
def c23(ctx):
    mux = LIB + 'segmentmuxer.'
    for c in ('MultiplexInits.construct_muxed', 'MultiplexMediaSegments.mux_on_sample_level'):
        ctx.anchor(mux + c)
    for i, m1 in enumerate(MOOVS):
        for j, m2 in enumerate(MOOVS):
            def one():
                d = Drive(ctx)
                a = init_segment(d, m1, 0, ('ftyp', 'moov'), 'a_')
                b = init_segment(d, m2, 1, ('ftyp', 'moov') if i == j else ('ftyp', 'free', 'moov'), 'b_')
                d.compare('init %d + %d' % (i, j), 'code_muxinit', 'muxinit', a, b, where=mux + 'MultiplexInits')
            ctx.obligation('init %d + %d' % (i, j), mux + 'MultiplexInits', one)
    for i, t1 in enumerate(TRAFS):
        for j, t2 in enumerate(TRAFS):
            for f1, f2 in ((0x301, 0x301), (0x300, 0x301), (0x301, 0x300), (0xf05, 0x205)):
                for top in (('styp', 'moof', 'mdat'), ('styp', 'sidx', 'moof', 'mdat')):
                    for code, ref in (('code_mux', 'mux'), ('code_muxfrag', 'muxfrag')):
                        def one():
                            d = Drive(ctx)
                            a = segment(d, t1, top, i % 2, 0, f1, rest=f1 == 0x301 and f2 == 0x301, tag='a_')
                            b = segment(d, t2, ('styp', 'moof', 'mdat'), 1, 1, f2, rest=f2 == 0x301, tag='b_')
                            d.compare('%s %d %x + %d %x %s' % (ref, i, f1, j, f2, len(top)), code, ref, a, b,
                                      where=mux + 'MultiplexMediaSegments')
                        ctx.obligation('media', mux + 'MultiplexMediaSegments', one)
