"""Segment requests: dash_proxy.get_media / get_init against the reference definitions in specs/proxy.py."""
from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO
from ..compare import ANYTHING
from ..frame import Undecided

HINTS = {'seg_duration': 'i', 'availability_start_time_in_s': 'i', 'filename': 's', 'rel_path': 's', 'start_nr': 'i',
         'timescale': 'i', 'vod_nr_segments_in_loop': 'i', 'vod_first_segment_in_loop': 'i', 'now': 'i',
         'now_float': 'n', 'content_dir': 's', 'content_name': 's', 'ext': 's', 'availability_time_offset_in_s': 'n',
         'availability_end_time': 'i?', 'timeshift_buffer_depth_in_s': 'i', 'stop_time': 'i?',
         'last_segment_numbers': 'L[i]', 'multi_url': 'L[s]', 'reps': 'L[D]', 'id': 's', 'content_type': 's',
         'scte35_per_minute': 'i', 'req': '?', 'url_parts': 'L[s]', 'timeoffset': 'i?', 'chunk_duration_in_s': 'n',
         'emsg_last_seg': 'B', 'insert_sidx': 'B', 'init_seg_avail_offset': 'i', 'media_presentation_duration': 'i',
         'default_sample_duration': 'i'}

SEG_PARAMS = ('media_segment_file', 'seg_nr', 'seg_duration', 'offset', 'lmsg', 'track_timescale',
              'scte35_per_minute', 'rel_path', 'is_ttml', 'default_sample_duration', 'insert_sidx',
              'emsg_last_seg', 'now')
PROXY = 'dashlivesim.dashlib.dash_proxy.'


def stub(name, params=None, positional=True):
    """handler: the call is recorded as an uninterpreted value of its arguments"""
    def h(I, env, node):
        vals = [(k, v) for k, v in env.items() if k != 'self']
        if params is not None:
            names = [k for k, _ in vals]
            if len(names) != len(params):
                raise Undecided("signature of %s changed" % name)
            if set(names) == set(params):
                d = dict(vals)
                vals = [(k, d[k]) for k in params]
        return mk('call', name, *[I.reify(v) for _, v in vals])
    return h


def filestub(name):
    def h(I, env, node):
        vals = [v for k, v in env.items() if k != 'self']
        if any(v is not NONE for v in vals[1:]):
            raise Undecided("arguments of %s" % name)
        return mk('call', name, I.reify(vals[0]))
    return h


def named(*names):
    return lambda I, b: b.op == 'call' and b.args[0] in names


def session(ctx, I):
    """a request for an arbitrary file in an arbitrary session: every attribute is an input"""
    t.HINTS.update(HINTS)
    prov = I.sym('prov', 'dashlivesim.dashlib.dash_proxy.DashProvider')
    cfg = I.sym('cfg', 'dashlivesim.dashlib.configprocessor.Config')
    I.setattr_(prov, 'cfg', cfg)
    fn = I.getattr_(cfg, 'filename')
    I.setattr_(cfg, 'ext', t.item(mk('call', 'os.path.splitext', fn), K(1)))
    I.setattr_(prov, 'now', t.toint(I.getattr_(prov, 'now_float')))
    I.setattr_(cfg, 'emsg_last_seg', FALSE)
    return prov


def overrides():
    seg = stub('SEGMENT', SEG_PARAMS)
    ov = {
        'dashlivesim.dashlib.mediasegmentfilter.MediaSegmentFilter': seg,
        'dashlivesim.dashlib.initsegmentfilter.InitFilter': filestub('TREX'),
        'dashlivesim.dashlib.initsegmentfilter.InitLiveFilter': filestub('LIVEINIT'),
        'dashlivesim.dashlib.segmentmuxer.MultiplexMediaSegments': mux,
        'dashlivesim.dashlib.segmentmuxer.MultiplexInits': muxinit,
        'dashlivesim.dashlib.chunker.chunk': stub('CHUNKS'),
        'spec.proxy.SEGMENT': stub('SEGMENT'), 'spec.proxy.MUX': stub('MUX'), 'spec.proxy.CHUNKS': stub('CHUNKS'),
        'spec.proxy.TREX': stub('TREX'),
        'spec.proxy.CHUNKED': stub('CHUNKED'),
    }
    return ov


def mux(I, env, node):
    a = [env[k] for k in ('data1', 'data2') if k in env]
    if len(a) != 2:
        raise Undecided("signature of MultiplexMediaSegments changed")
    for f in ('filename1', 'filename2'):
        if f in env and env[f] is not NONE:
            raise Undecided("muxing from files")
    return mk('call', 'MUX', *[I.reify(x) for x in a])


def muxinit(I, env, node):
    return mk('call', 'MUXINIT', *[I.reify(v) for k, v in env.items() if k != 'self'])


def methods(I):
    same = lambda I, b, a, k, e: b
    I.method_overrides['filter'] = (named('SEGMENT', 'LIVEINIT'), same)
    I.method_overrides['get_tfdt_value'] = (named('SEGMENT'), lambda I, b, a, k, e: mk('call', 'TFDT', b))
    I.method_overrides['mux_on_sample_level'] = (named('MUX'), same)
    I.method_overrides['mux_on_fragment_level'] = (named('MUX'), lambda I, b, a, k, e: mk('call', 'MUXFRAG', *b.args[1:]))
    I.method_overrides['construct_muxed'] = (named('MUXINIT'), same)


def tree(x, leaf):
    """apply leaf to the leaves of a decision tree"""
    memo = {}

    def go(y):
        r = memo.get(y)
        if r is None:
            r = t.ite(y.args[0], go(y.args[1]), go(y.args[2])) if y.op == 'ite' else leaf(y)
            memo[y] = r
        return r
    return go(x)


NEG, OK_ = K('NEG'), K('SERVED')


def kind(x):
    """what a reply value is: NEG (refused), or the content"""
    if x.op == 'raise':
        return 'neg'
    if x.op == 'dictt':
        for k in x.args[0]:
            if k[0] is K('ok') or k[0] == 'ok':
                return 'neg' if k[-1] is FALSE else 'dict'
        return 'dict'
    if x is FALSE:
        return 'neg'
    if x is NONE:
        return 'none'
    if x.op == 'undef':
        return 'none'
    return 'content'


def served_term(x):
    def leaf(y):
        if y.weak:
            return y
        k = kind(y)
        return {'neg': NEG, 'content': OK_}.get(k, K(k))
    return tree(x, leaf)


def field(x, pick):
    """the component of the content selected by pick; anything where the request is refused"""
    def leaf(y):
        if y.weak:
            return y
        if kind(y) == 'content':
            return pick(y)
        return ANYTHING
    return tree(x, leaf)


def seg_fields(idx):
    """select parameters of the SEGMENT terms in a content value"""
    def pick(y):
        if y.op == 'call' and y.args[0] == 'SEGMENT':
            return mk('tuple', tuple(y.args[1 + i] for i in idx))
        if y.op == 'call' and y.args[0] == 'MUX':
            return mk('tuple', tuple(pick(a) if a.op != 'ite' else tree(a, pick) for a in y.args[1:]))
        d = chunked(y)
        if d is not None:
            found = []

            def find(z, seen=set()):
                if isinstance(z, t.T):
                    if z.op == 'call' and z.args[0] == 'SEGMENT':
                        if z not in found:
                            found.append(z)
                        return
                    for q in z.args:
                        find(q)
                elif isinstance(z, tuple):
                    for q in z:
                        find(q)
            find(d[1])
            if len(found) == 1:
                return pick(found[0])
        return mk('weak', "content value %s" % t.show(y, 2), ())
    return pick


def chunked(y):
    if y.op == 'ntval' and y.args[0].endswith('ChunkedSegment'):
        d = dict(y.args[1])
        return d.get('seg_start'), d.get('chunks')
    if y.op == 'call' and y.args[0] == 'CHUNKED':
        return y.args[1], y.args[2]
    return None


class Pair(object):
    pass


def ext_is(e):
    from ..compare import Facts, assume
    x = t.item(mk('call', 'os.path.splitext', mk('attr', t.var('cfg'), 'filename')), K(1))
    return assume(Facts(), t.eq(x, K(e)), True)


def analyse(ctx, func, ref, chunk=None, refs=('timescale_of', 'timescale_first'), drop=False, more=None, with_ts=True, fix=()):
    """value of func(prov[, chunk]) and of the reference, as terms over the same inputs"""
    f = ctx.anchor(PROXY + func)
    key = (func, ref, str(chunk), str(fix))
    if key in ctx.cache:
        return ctx.cache[key]
    spec = ctx.spec('proxy')
    I = ctx.interp(dict(overrides(), **(more or {})))
    methods(I)
    prov = session(ctx, I)
    for k, v in fix:
        I.setattr_(I.getattr_(prov, 'cfg'), k, v(I))
    out = Pair()
    out.refs = []
    args = [prov] + ([] if chunk is None else [chunk])
    st0 = I.st.copy()
    v, st = I.run(f, args)
    out.got = I.reify(v)
    out.where = f.qual
    for r in refs:
        I.st = st0.copy()
        ts, _ = I.run(spec(r), [I.getattr_(prov, 'cfg')])
        v2, st2 = I.run(spec(ref), [prov] + ([] if chunk is None or drop else [chunk]) + ([ts] if with_ts else []))
        out.refs.append(I.reify(v2))
    ctx.used(I)
    out.loops = I.loops
    ctx.cache[key] = out
    return out


def media(ctx, chunk):
    return analyse(ctx, 'get_media', 'media', TRUE if chunk else FALSE)


def multi(single):
    """facts: exactly one (or not exactly one) alternating BaseURL in the session"""
    from ..compare import assume
    n = t.blen(mk('attr', t.var('cfg'), 'multi_url'))

    def facts(e):
        return assume(ext_is(e), t.eq(n, K(1)), single)
    return facts


@check('C01', "availability window of get_media: the decision structure of the reply (served / refused) over all session "
              "attributes, with and without chunked delivery, equals the reference window")
def c01(ctx):
    f = multi(False)('.m4s')
    for chunk in (False, True):
        p = media(ctx, chunk)
        ctx.same("window(chunk=%s)" % chunk, p.where, served_term(p.got), [served_term(r) for r in p.refs], p.loops,
                 facts=f)


@check('C02', "thumbnail requests through get_media: same window as media segments, content read from the mapped file")
def c02(ctx):
    p = analyse(ctx, 'get_media', 'thumbnail', FALSE, drop=True)
    f = ext_is('.jpg')
    ctx.same("window", p.where, served_term(p.got), [served_term(r) for r in p.refs], p.loops, facts=f)
    ident = lambda y: y
    ctx.same("stored file", p.where, field(p.got, ident), [field(r, ident) for r in p.refs], p.loops, facts=f)
    p.text = field2(p.got)
    ctx.same("refusals carry a text", p.where, p.text, field2(p.refs[0]), p.loops, facts=f)


def field2(x):
    """refusals: 'text' when a reply with a reason, 'error' when an exception escapes"""
    def leaf(y):
        if y.weak:
            return y
        if y.op == 'raise':
            return K('error')
        if y.op == 'dictt':
            for k in y.args[0]:
                if k[0] is K('pl') or k[0] == 'pl':
                    return K('text') if t.ty(k[-1]) == 's' else mk('weak', 'pl', ())
            return K('no text')
        if y is FALSE:
            return K('text')
        return ANYTHING if kind(y) == 'content' else K('none')
    return tree(x, leaf)


@check('C09', "value flow from the request number to the stored file, loop offset, sequence number and time scale handed "
              "to the segment filter, for plain, chunked and multiplexed requests")
def c09(ctx):
    pk = seg_fields((0, 1, 2, 3, 5, 8))
    f = ext_is('.m4s')
    for chunk in (False, True):
        p = media(ctx, chunk)
        ctx.same("mapping(chunk=%s)" % chunk, p.where, field(p.got, pk), [field(r, pk) for r in p.refs], p.loops, facts=f)


@check('C28', "outage decision of get_media and get_mpd over the seconds of the minute")
def c28(ctx):
    f = multi(True)('.m4s')
    pk = seg_fields((11,))
    for chunk in (False, True):
        p = media(ctx, chunk)
        ctx.same("outage(chunk=%s)" % chunk, p.where, served_term(p.got), [served_term(r) for r in p.refs], p.loops, facts=f)
        ctx.same("signal in last up second(chunk=%s)" % chunk, p.where, field(p.got, pk), [field(r, pk) for r in p.refs],
                 p.loops, facts=f)
    for sched in ('u20_d10', 'd10_u20', 'u7_d4', 'd7_u4', 'u40_d30', 'd50_u25', 'u60_d10', 'd60_u5', 'u59_d1', 'd9_u8', 'u10_u10'):
        given = (('multi_url', lambda I, x=sched: I.new_list([mk('gi', TRUE, K(x))])),)

        def one():
            p = analyse(ctx, 'get_media', 'media', FALSE, fix=given)
            g = ext_is('.m4s')
            ctx.same("outage of %s" % sched, p.where, served_term(p.got), [served_term(r) for r in p.refs], p.loops, facts=g)
            ctx.same("signal in last up second of %s" % sched, p.where, field(p.got, pk), [field(r, pk) for r in p.refs], p.loops,
                     facts=g)
        ctx.cache.clear()
        ctx.obligation("outage of %s" % sched, PROXY, one)
    from . import mpd
    mpd.loss(ctx)


@check('C04', "lmsg decision handed to the segment filter, and the last segment numbers of time-limited sessions")
def c04(ctx):
    pk = seg_fields((4,))
    f = ext_is('.m4s')
    for chunk in (False, True):
        p = media(ctx, chunk)
        ctx.same("lmsg(chunk=%s)" % chunk, p.where, field(p.got, pk), [field(r, pk) for r in p.refs], p.loops, facts=f)
    from . import config, segment
    for ks in (('start', 'dur'), ('dur', 'start'), ('start', 'dur', 'dur'), ('start', 'timeoffset', 'dur'), ('start', 'snr', 'dur'),
               ('tfdt', 'dur'), ('dur',), ('modulo',), ('modulo', 'timeoffset'), ('snr', 'modulo'), ('start', 'stop'),
               ('start', 'snr', 'timeoffset'), ()):
        config.settings(ctx, "last number: " + (" ".join(ks) or "no option"), ks, attrs={'last_segment_numbers'})
    segment.brands(ctx)


def ads(ctx):
    """number of ads per minute handed to the segment filter"""
    pk = seg_fields((6,))
    for chunk in (False, True):
        p = media(ctx, chunk)
        ctx.same("ads handed to the filter (chunk=%s)" % chunk, p.where, field(p.got, pk), [field(r, pk) for r in p.refs], p.loops,
                 facts=ext_is('.m4s'))


@check('C03', "start time and chunk list of chunked replies, and the pacing loop of the WSGI entry point")
def c03(ctx):
    p = media(ctx, True)
    f = ext_is('.m4s')

    def start(y):
        d = chunked(y)
        return d[0] if d else ANYTHING

    def chunks(y):
        d = chunked(y)
        return norm_chunks(d[1]) if d else ANYTHING
    ctx.same("reference time", p.where, field(p.got, start), [field(r, start) for r in p.refs], p.loops, facts=f)
    ctx.same("chunk list", p.where, field(p.got, chunks), [field(r, chunks) for r in p.refs], p.loops, facts=f)
    from . import wsgi
    dur = mk('attr', t.var('cfg'), 'chunk_duration_in_s')
    wsgi.partition(ctx, "pacing", ZERO, '.m4s', 'chunks', parts=('status', 'stream'),
                   facts=[(t.isnone(dur), False)])


def norm_chunks(x):
    """a list of all items of an iterable is the iterable"""
    while x.op == 'listt' and len(x.args[0]) == 1:
        e = x.args[0][0]
        if e.op == 'each' and e.args[2] is TRUE and e.args[3].op == 'bv' and e.args[3].args[0] == e.args[1]:
            x = e.args[0]
        elif e.op == 'spread' and e.args[0] is TRUE:
            x = e.args[1]
        else:
            break
    return x


def init(ctx):
    """part of C10: when an init segment is served and from which file"""
    ov = {'spec.proxy.LIVEINIT': stub('LIVEINIT'), 'spec.proxy.MUXINIT': stub('MUXINIT')}
    p = analyse(ctx, 'get_init', 'init', refs=('timescale_of',), drop=True, more=ov, with_ts=False)
    f = ext_is('.mp4')
    ctx.same("init availability", p.where, served_term(p.got), [served_term(r) for r in p.refs], p.loops, facts=f)
    ident = lambda y: y
    ctx.same("stored init", p.where, field(p.got, ident), [field(r, ident) for r in p.refs], p.loops, facts=f)
