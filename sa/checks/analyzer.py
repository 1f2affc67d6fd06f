"""The content analyzer: the files it writes (C24) and the loop it finds (C38)."""
from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, ZERO
from ..compare import Facts, assume
from ..interp import Obj
from .segment import Drive, LIB, cat
from .tools import dictionary, list_of

VOD = 'dashlivesim.vodanalyzer.'
CONF = LIB + 'configprocessor.'


def i(name):
    return t.var(name, 'i')


def desk(ctx, **attrs):
    """an analysis session with an empty disk"""
    d = Drive(ctx, spec='analyzer')
    I = d.I
    I.setattr_(d.s, 'disk', I.newref(Obj('dict', d={})))
    for k, v in attrs.items():
        I.setattr_(d.s, k, v)

    def ext(name, fn, n):
        I.call_overrides[name] = lambda I, args, kwargs, e: I.call_func(
            d.spec(fn), [d.s] + (list(args) + [kwargs[k] for k in ('mode',) if k in kwargs] + [K('r')])[:n], {}, None, e)
    ext('open', 'opened', 2)
    ext('io.open', 'opened', 2)
    for n in ('RawConfigParser', 'ConfigParser', 'SafeConfigParser'):
        ext('configparser.' + n, 'ini', 0)
    ext('os.path.exists', 'exists', 1)
    ext('os.path.isfile', 'exists', 1)
    ext('os.listdir', 'listdir', 1)

    def cls(name, fn, n):
        I.overrides[name] = lambda I, env, node: I.call_func(d.spec(fn), [d.s] + [v for k, v in env.items() if k != 'self'][:n], {}, None, node)
    cls(VOD + 'mpdprocessor.MpdProcessor', 'processor', 0)
    cls(LIB + 'initsegmentfilter.InitFilter', 'init', 1)

    def media(I, env, node):
        return I.call_func(d.spec('media'), [d.s, env['file_name'] if 'file_name' in env else list(env.values())[1],
                                             env['default_sample_duration']], {}, None, node)
    I.overrides[LIB + 'mediasegmentfilter.MediaSegmentFilter'] = media
    d.st0 = I.st.copy()
    return d


@check('C24', "value flow through the writers and readers of the content files composed over a model of the disk and of ini files, "
              "compared in normal form with the values handed to the writer")
def c24(ctx):
    ctx.anchor(CONF + 'VodConfig.read_config')
    ctx.anchor(CONF + 'VodConfig.write_config')

    def config(kinds, reps):
        d = desk(ctx)
        I = d.I
        media = {}
        for k in kinds:
            media[k] = dictionary(I, representations=list_of(d, [K('%s%d' % (k[0].upper(), j)) for j in range(reps)]),
                                  timescale=i(k + '_timescale'), totalDuration=i(k + '_total'), datFile=K('content_%s.dat' % k))
        data = dictionary(I, first_segment_in_loop=i('first'), segment_duration_s=i('seg_duration'), nr_segments_in_loop=i('number'),
                          media_data=dictionary(I, **media))
        I.st.facts = assume(Facts(), t.cmp_le(ZERO, i('seg_duration'), True), True)
        d.st0 = I.st.copy()
        d.compare('configuration with %s' % (', '.join(kinds) or 'no media'), 'code_config', 'config', data,
                  where=CONF + 'VodConfig.write_config', facts=d.st0.facts,
                  known=[i(x) for x in ('first', 'number', 'seg_duration')] + [i(k + x) for k in kinds for x in ('_timescale', '_total')])
    for kinds in ((), ('video',), ('audio',), ('subtitles',), ('video', 'audio'), ('video', 'audio', 'subtitles')):
        for reps in (1, 3):
            if kinds or reps == 1:
                ctx.obligation('configuration', CONF + 'VodConfig.write_config', lambda: config(kinds, reps))

    def own():
        d = desk(ctx)
        c = d.record(**{k: i(k) for k in ('first', 'number', 'duration', 'tsbd')})
        d.compare('own configuration', 'code_own', 'own', c, where=CONF + 'VodConfig.write_config',
                  facts=assume(Facts(), t.cmp_le(ZERO, i('duration'), True), True))
    ctx.obligation('own configuration', CONF + 'VodConfig.write_config', own)

    def reading(name, version, setup, media, broken=()):
        d = desk(ctx)
        I = d.I
        values = {k: i(k) for k in setup}
        text = lambda x: t.conv('s', x) if t.ty(x) == 'i' else x
        ini = {'General': {'version': version}, 'Setup': {k: text(v) for k, v in values.items()}}
        complete = {}
        for k in media:
            reps = [K('%s%d' % (k[0].upper(), j)) for j in range(3)]
            ini[k] = {'representations': K(('%s0, %s1 ,%s2' % ((k[0].upper(),) * 3))), 'timescale': text(i(k + '_timescale')),
                      'total_duration': text(i(k + '_total')), 'dat_file': t.var(k + '_dat', 's')}
            if k in broken:
                del ini[k][broken[k]]
            else:
                complete[k] = mk('tuple', (i(k + '_timescale'), list_of(d, reps), i(k + '_total'), t.var(k + '_dat', 's')))
        put = lambda k, v: I.setattr_(d.s, k, v)
        put('disk', dictionary(I, **{'content.cfg': dictionary(I, **{k: dictionary(I, **v) for k, v in ini.items()})}))
        put('version', version)
        put('setup', dictionary(I, **values))
        put('media', dictionary(I, **complete))
        d.st0 = I.st.copy()
        d.compare(name, 'code_read', 'read', where=CONF + 'VodConfig.read_config', known=list(values.values()) + [version])
    base = ['first_segment_in_loop', 'nr_segments_in_loop', 'default_tsbd_secs']
    sec, ms = 'segment_duration_s', 'segment_duration_ms'
    files = [('version %s, %s' % (v, ' and '.join(x) or 'no duration'), K(v), base + x, ('video',), {})
             for v in ('1.0', '1.1', '2.0') for x in ([sec], [ms], [sec, ms], [])]
    files.append(('any version', t.var('version', 's'), base + [sec], (), {}))
    for k in base:
        files.append(('without ' + k, K('1.1'), [b for b in base + [sec] if b != k], ('video',), {}))
    for kinds in (('audio',), ('subtitles',), ('image',), ('video', 'audio', 'subtitles', 'image')):
        files.append(('media ' + ', '.join(kinds), K('1.1'), base + [sec], kinds, {}))
    for o in ('representations', 'timescale'):
        files.append(('video without ' + o, K('1.1'), base + [sec], ('video', 'audio'), {'video': o}))
    for f in files:
        ctx.obligation('file with ' + f[0], CONF + 'VodConfig.read_config', lambda: reading('file with ' + f[0], *f[1:]))

    def records(n):
        d = desk(ctx)
        I = d.I
        es = [[i('%s%d' % (k, j)) for k in ('nr', 'repeats', 'time', 'duration')] for j in range(n)]
        I.setattr_(d.s, 'entries', list_of(d, [mk('tuple', tuple(e)) for e in es]))
        data = cat(*[t.wr(w, 'lu', v) for e in es for w, v in zip((2, 2, 4, 4), e)])
        I.setattr_(d.s, 'disk', I.newref(Obj('dict', d={K('vod/content_video.dat'): data})))
        media = dictionary(I, timescale=i('timescale'), dat_file=K('content_video.dat'))
        cfg = d.record(vod_cfg_dir=K('vod'), vod_wrap_seconds=i('wrap'), vod_nr_segments_in_loop=i('number'),
                       vod_first_segment_in_loop=i('first'))
        d.st0 = I.st.copy()
        d.compare('%d timing records' % n, 'code_records', 'records', media, cfg, where=LIB + 'segtimeline.SegmentTimeLineGenerator')
    for n in range(4):
        ctx.obligation('timing records', LIB + 'segtimeline.SegmentTimeLineGenerator', lambda: records(n))
    analyzer(ctx)


def analyzer(ctx, fn='analyze', layouts=None):
    """content with given numbers of segments, at variable times and with variable durations, through the analyzer"""
    ctx.anchor_cls(VOD + 'dashanalyzer.DashAnalyzer')

    def one(name, contents, common, hole=False, timescale=False, first=3):
        d = desk(ctx)
        I = d.I
        segments, inits, folders, sets, ref = {}, {}, {}, [], []
        facts = assume(Facts(), t.cmp_le(ZERO, i('seg_duration'), True), True)
        known = [i('seg_duration'), i('start_number'), i('odd_timescale')]
        odd = contents[-1][0][0].upper() + str(len(contents[-1][1]) - 1)        # the representation with the oddity, if any
        for kind, reps in contents:
            rs, ids = [], []
            known.append(i(kind + '_timescale'))
            facts = assume(facts, t.cmp_le(ZERO, i(kind + '_timescale'), True), True)
            for r, n in enumerate(reps):
                rid = '%s%d' % (kind[0].upper(), r)
                segs = []
                nrs = [first + j for j in range(n)]
                if rid == odd and hole:
                    nrs[-1] += 1
                for nr in nrs:
                    x = '%s_%d' % (rid, nr)
                    facts = assume(facts, t.cmp_le(ZERO, i('duration_' + x), True), True)
                    segs.append(d.record(nr=K(nr), time=i('time_' + x), duration=i('duration_' + x), default=i('default_' + rid)))
                    known += [i(k + x) for k in ('time_', 'duration_')]
                    segments[K('dir/%s/%d.m4s' % (rid, nr))] = segs[-1]
                scale = i('odd_timescale') if rid == odd and timescale else i(kind + '_timescale')
                inits[K('dir/%s/init.mp4' % rid)] = d.record(track_id=K(1), timescale=scale, default_sample_duration=i('default_' + rid))
                folders[K('dir/' + rid)] = list_of(d, [K('init.mp4')] + [K('%d.m4s' % nr) for nr in reversed(nrs)])
                ids.append(I.call_func(d.spec('representation'), [d.s, K(rid)], {}, None, None))
                rs.append(mk('tuple', (K(rid), list_of(d, segs))))
            sets.append(d.record(content_type=K(kind), duration=i('seg_duration'), start_number=i('start_number'),
                                 representations=list_of(d, ids)))
            ref.append(mk('tuple', (K(kind), list_of(d, rs), i(kind + '_timescale'))))
        put = lambda k, v: I.setattr_(d.s, k, v)
        put('segments', I.newref(Obj('dict', d=segments)))
        put('inits', I.newref(Obj('dict', d=inits)))
        put('folders', I.newref(Obj('dict', d=folders)))
        put('sets', list_of(d, sets))
        put('contents', list_of(d, ref))
        put('seg_duration', i('seg_duration'))
        put('first', K(first))
        put('common', K(common))
        put('refused', t.not_(t.eq(i('odd_timescale'), i(contents[-1][0] + '_timescale'))) if timescale else
            K(True) if hole else K(False))
        I.st.facts = facts
        d.st0 = I.st.copy()
        d.compare(name, 'code_' + fn, fn, K('dir/Manifest.mpd'), where=VOD + 'dashanalyzer.DashAnalyzer', facts=facts,
                  known=known)
    for contents, kw in layouts or LAYOUTS:
        name = '; '.join('%s %s' % (k, '+'.join(map(str, r))) for k, r in contents) + ''.join(' ' + k for k in kw)
        ctx.obligation(name, VOD + 'dashanalyzer.DashAnalyzer',
                       lambda: one(name, contents, min(n for _, r in contents for n in r), **kw))


def plain(*contents):
    return list(contents), {}


LAYOUTS = [plain(('video', [1])), plain(('video', [3])), plain(('video', [2]), ('audio', [2])), plain(('video', [2, 2])),
           plain(('video', [3]), ('audio', [2])), plain(('video', [3, 2])),
           plain(('audio', [2]), ('video', [2]), ('subtitles', [2]))]


@check('C38', "value flow of content with given numbers of segments, at variable times and with variable durations and timescales, "
              "through the analyzer over a model of the disk, compared in normal form with the reference loop")
def c38(ctx):
    more = [plain(('video', [2, 1, 2])), plain(('audio', [1]), ('video', [3])), plain(('video', [4])),
            ([('video', [3])], {'hole': True}), ([('video', [2, 2])], {'hole': True}), ([('video', [1, 1])], {'timescale': True}), ([('audio', [1, 2])], {'timescale': True}),
            ([('video', [3]), ('audio', [3])], {'first': 8}), ([('video', [2])], {'first': 0}), ([('video', [2])], {'first': 99})]
    deep = [plain(('video', [5])), plain(('video', [3, 3]), ('audio', [3])), plain(('video', [4, 3]), ('audio', [2]))]
    analyzer(ctx, 'loop', LAYOUTS + more + (deep if ctx.tier == 'thorough' else []))
