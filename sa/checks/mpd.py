"""Manifests: URL options -> createProvider -> get_mpd -> XML tree, against specs/mpd.py.

The stored manifest is a skeleton of elements with symbolic attribute values; the request is partitioned by option names
(and by the literal value of the options that decide the structure); all other values and the clock are symbolic.
"""
import ast
import itertools

from . import check
from . import config
from .config import CONF, PROXY, provider_ref, value
from .. import terms as t
from ..compare import Facts, assume
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO, ite, and_, not_
from ..frame import Undecided
from ..interp import Obj
from ..calls import x_element

GET = 'dashlivesim.dashlib.mpd_proxy.get_mpd'
PROC = 'dashlivesim.dashlib.mpdprocessor.MpdProcessor'
NOW = t.toint(t.var('NOW', 'n'))
DUR = t.var('VOD_SEGDUR', 'i')
TRACKS = [t.item(t.item(t.var('VOD_MEDIA', 'D'), K(k)), K('timescale')) for k in ('video', 'audio')]
NS = '{urn:mpeg:dash:schema:mpd:2011}'
OUTSIDE = ('dashlivesim.dashlib.timeformatconversions.make_timestamp',
           'dashlivesim.dashlib.timeformatconversions.seconds_to_iso_duration')


for _q in OUTSIDE:
    t.CALL_TY[_q] = 's'
    t.NONEMPTY.add(_q)
t.NONEMPTY.add('time.strftime')


def opaque(name):
    def h(I, env, node):
        return mk('call', name, *[I.reify(v) for v in env.values()])
    return h


class Skeleton(object):
    """a stored manifest"""
    def __init__(self, I, before=(), stored=(), types=('video', 'audio'), templates=1, drop=(), extra=(),
                 plain=(), profiles=None, media=None):
        self.I = I
        self.vars = []
        self.root = self.el('MPD', {'profiles': self.var('PROFILES', 's') if profiles is None else K(profiles),
                                    'type': K('static'),
                                    'mediaPresentationDuration': self.var('STORED_DURATION', 's'),
                                    'minBufferTime': self.var('MINBUFFER', 's')},
                            [k for k in ('profiles', 'type', 'mediaPresentationDuration', 'minBufferTime')
                             if k not in drop])
        for k in extra:
            self.attrib(self.root)[K(k)] = self.var('STORED_MPD_' + k, 's')
        for b in before:
            self.add(self.root, self.el(b, {}))
        self.period = self.el('Period', {})
        self.add(self.root, self.period)
        self.sets = []
        for c in types:
            a = self.el('AdaptationSet', {'contentType': K(c)})
            self.add(self.period, a)
            self.sets.append((c, a))
            for i in range(templates):
                d = {'media': self.var('MEDIA_%s' % c, 's') if media is None else K(media), 'initialization': self.var('INIT_%s' % c, 's'),
                     'startNumber': self.var('STORED_NR', 's'), 'duration': self.var('STORED_DUR', 's'),
                     'timescale': self.var('STORED_TS', 's')}
                for k in plain:
                    del d[k]
                for k in stored:
                    d[k] = self.var('STORED_' + k, 's')
                self.add(a, self.el('SegmentTemplate', d))
            self.add(a, self.el('Representation', {'id': self.var('REP_%s' % c, 's')}))

    def el(self, tag, attrs, keys=None):
        e = x_element(self.I, [K(NS + tag)], {}, None)
        d = self.I.obj(self.I.obj(e).d['attrib']).d
        for k, v in attrs.items():
            if keys is None or k in keys:
                d[K(k)] = v
        return e

    def var(self, name, ty):
        x = t.var(name, ty)
        self.vars.append(x)
        return x

    def attrib(self, e):
        return self.I.obj(self.I.obj(e).d['attrib']).d

    def add(self, parent, child):
        self.I.obj(self.I.obj(parent).d['#children']).d.append(mk('gi', TRUE, child))


def attr_get(x, name):
    return x


class Tree(object):
    """the resulting manifest in state st"""
    def __init__(self, I, st, root, v):
        self.I, self.st, self.root, self.value = I, st, root, v

    def children(self, e):
        self.I.st = self.st
        c = self.I.obj(self.I.obj(e).d['#children']).d
        out = []
        for y in c:
            if y.op != 'gi' or y.args[0] is not TRUE or y.args[1].op != 'ref':
                raise Undecided("children of an element are not definite: %s" % t.show(y, 4)[:150])
            out.append(y.args[1])
        return out

    def tag(self, e):
        x = self.I.obj(e).d['tag']
        if x.op != 'k':
            raise Undecided("tag")
        return x.args[1].replace(NS, '')

    def tags(self, e):
        return [self.tag(c) for c in self.children(e)]

    def find(self, e, *path):
        cur = [e]
        for p in path:
            cur = [c for x in cur for c in self.children(x) if self.tag(c) == p]
        return cur

    def attr(self, e, name):
        self.I.st = self.st
        a = self.I.obj(self.I.obj(e).d['attrib'])
        if a is None or a.kind != 'dict':
            raise Undecided("attributes")
        x = a.d.get(K(name))
        return absent(self.I.reify(x)) if x is not None else NONE

    def attrs(self, e):
        self.I.st = self.st
        a = self.I.obj(self.I.obj(e).d['attrib'])
        return sorted(k.args[1] for k in a.d)

    def known(self, refs=()):
        """what a manifest may be made of: the session's options, the clock, the asset and the stored manifest"""
        out = list(refs) + list(self.skel.vars) + list(self.vals) + [NOW, DUR]
        out += [t.toint(t.var('NOW', 'n')), t.var('VOD_TSBD', 'i'), t.var('VOD_MEDIA', 'D'), t.var('HOST', 's')]
        out += [mk('call', 'int', v) for v in self.vals if v.op == 'var'] + [mk('call', q, NOW) for q in OUTSIDE]
        return out

    def setting(self, name):
        self.I.st = self.st
        return self.I.reify(self.I.getattr_(self.cfg, name))

    def text(self, e):
        self.I.st = self.st
        return self.I.reify(self.I.obj(e).d['text'])


def absent(x):
    if x is t.UNDEF:
        return NONE
    if x.op == 'ite':
        return ite(x.args[0], absent(x.args[1]), absent(x.args[2]))
    return x


def manifest(ctx, keys=(), literal=None, facts=(), skel=None, https=FALSE, tail=('Manifest.mpd',), overrides=None):
    """analyse a manifest request; returns (Tree, I, provider, refused condition)"""
    f = ctx.anchor(GET)
    ctx.anchor_cls(PROC)
    I, st0, st, v, vals, parts = config.request(ctx, keys, literal, https=https, tail=tail)
    prov = provider_ref(v)
    if prov is None:
        raise Undecided("no provider")
    I.st = st
    I.st.facts = assume(I.st.facts, config.ok_value(v), True)
    for q in OUTSIDE:
        ctx.anchor(q)
        I.overrides[q] = opaque(q)
    I.overrides['dashlivesim.dashlib.segtimeline.SegmentTimeLineGenerator.__init__'] = timeline_init
    I.overrides['dashlivesim.dashlib.segtimeline.SegmentTimeLineGenerator.create_segtimeline'] = timeline_create
    I.overrides.update(overrides or {})
    sk = Skeleton(I, **(skel or {}))
    opened = []

    def parse(I, args, kwargs, e):
        opened.append(I.reify(args[0]))
        return t.var('TREE', 'O')
    I.call_overrides['ET.parse'] = parse
    I.call_overrides['time.time'] = lambda I, args, kwargs, e: t.var('CLOCK', 'n')
    is_tree = lambda I, b: b.op == 'var' and b.args[0] == 'TREE'
    I.method_overrides['getroot'] = (is_tree, lambda I, b, a, k, e: sk.root)

    def write(I, b, a, k, e):
        I.setattr_(a[0], '#buf', t.var('XMLTEXT', 's'))
        return NONE
    I.method_overrides['write'] = (is_tree, write)
    fs = I.st.facts
    for c, val in facts:
        c = c(I, prov) if callable(c) else c
        fs = assume(fs, c, val)
    I.st.facts = fs
    r, st = I.run(f, [prov])
    ctx.used(I)
    tr = Tree(I, st, sk.root, I.reify(r))
    tr.opened, tr.skel, tr.prov, tr.vals, tr.keys, tr.st0, tr.facts = opened, sk, prov, vals, keys, st0, fs
    tr.cfg = I.getattr_(prov, 'cfg')
    return tr


def reference(ctx, tr, name, *args, **kw):
    """reference function of specs/mpd.py applied to the reference settings of the session"""
    I = tr.I
    I.st = tr.st0.copy()
    I.st.facts = tr.facts
    opts = I.new_list([mk('gi', TRUE, mk('tuple', (K(k), x))) for k, x in zip(tr.keys, tr.vals)])
    s, I.st = I.run(ctx.spec('config')('settings'), [opts, NOW, t.var('VOD_TSBD', 'i'), DUR, K(kw.get('form', 0))])
    ref = provider_ref(s)
    if ref is None:
        raise Undecided("refused by the reference")
    I.st.facts = tr.facts
    r, I.st = I.run(ctx.spec('mpd')(name), [ref] + list(args))
    return I.reify(r)


def timeline_init(I, env, node):
    self, media, cfg = list(env.values())[:3]
    I.setattr_(self, '#media', I.reify(media))
    I.setattr_(self, 'start_number', t.var('FIRST_LISTED', 'i?'))
    return NONE


def timeline_create(I, env, node):
    self, start, end = list(env.values())[:3]
    closest = list(env.values())[3] if len(env) > 3 else FALSE
    e = x_element(I, [K(NS + 'SegmentTimeline')], {}, node)
    d = I.obj(I.obj(e).d['attrib']).d
    d[K('#media')] = I.getattr_(self, '#media')
    d[K('#start')], d[K('#end')], d[K('#closest')] = I.reify(start), I.reify(end), I.reify(closest)
    return e


MPD_ATTRS = ('type', 'availabilityStartTime', 'availabilityEndTime', 'minimumUpdatePeriod', 'timeShiftBufferDepth',
             'mediaPresentationDuration', 'suggestedPresentationDelay', 'maxSegmentDuration')


def decided(tr):
    """the manifest is produced on every path"""
    return config.ok_value(tr.value)


@check('C17', "The manifest request is analysed end to end (URL options, provider, get_mpd, MPD element) for a stored manifest "
       "with symbolic attributes and every class of session; each session attribute of the MPD element is compared with the "
       "reference for symbolic option values, asset data and clock")
def c17(ctx):
    combos = [(), ('start',), ('ast',), ('start', 'stop'), ('start', 'stop', 'tsbd'), ('startrel', 'stoprel'), ('start', 'dur'),
              ('start', 'dur', 'dur'), ('mup',), ('mup', 'start'), ('tsbd',), ('modulo',), ('tfdt',), ('cont',), ('spd',),
              ('spd', 'start', 'stop'), ('segtimeline',), ('segtimelinenr',), ('segtimeline', 'start', 'stop'),
              ('segtimelinenr', 'start', 'stop'), ('segtimeline', 'mup'), ('snr',), ('timeoffset', 'start', 'stop'),
              ('periods',), ('scte35',), ('utc',), ('ato',), ('peroff',)]
    more = ('mup', 'tsbd', 'spd', 'segtimeline', 'segtimelinenr', 'snr', 'timeoffset', 'scte35', 'utc', 'ato', 'chunkdur', 'peroff',
            'continuous', 'baseurl', 'dur', 'stop', 'sidx', 'init')
    combos += [c + (k,) for c in (('start', 'stop'), ('start', 'dur'), ('startrel', 'stoprel'), ('modulo',), ('tfdt',), ('cont',))
               for k in more if k not in c and c + (k,) not in combos]
    combos += [c for c in itertools.combinations(more, 2) if c not in combos]
    skels = [{}, {'drop': ('mediaPresentationDuration',), 'extra': ('maxSegmentDuration',)}]
    for ks in combos:
        given = {'periods': '0', 'scte35': '1', 'utc': 'head', 'peroff': '1', 'chunkdur': '0.5', 'continuous': '1', 'baseurl': 'u40_d20',
                 'sidx': '1'}
        lit = {i: given[k] for i, k in enumerate(ks) if k in given}
        for n, sk in enumerate(skels):
            mpd_attributes(ctx, (" ".join(ks) or "no option") + (", other stored manifest" if n else ""), ks, lit, sk)


def mpd_attributes(ctx, name, keys, lit, skel):
    where = PROC + '.process_mpd'

    def go():
        tr = manifest(ctx, keys, lit, (), skel)
        forms = (0, 1, 2) if 'stop' in keys or 'stoprel' in keys else (0,)
        refs = [reference(ctx, tr, 'attributes', NOW, DUR, form=f) for f in forms]
        end = tr.setting('availability_end_time')
        fs = assume(tr.facts, t.eq(end, ZERO), False)      # a session that ends at the epoch is not a session
        for a in MPD_ATTRS:
            ctx.same("%s: %s" % (name, a), where, tr.attr(tr.root, a), [config.pick(r, a) for r in refs], tr.I.loops,
                     facts=fs if a == 'availabilityEndTime' else tr.facts, known=tr.known(refs))
    return ctx.obligation(name, where, go, 30)


def with_numbers(keys, lit=None):
    """symbolic option values that are decimal integers, except for those given"""
    out = {i: config.number(i, k) for i, k in enumerate(keys)}
    out.update(lit or {})
    return out


def url(tr, scheme, opts):
    """scheme://host/prefix/options/content/"""
    ps = [K(scheme + '://'), t.var('HOST', 's'), K('/dash/')]
    for k, v in opts:
        ps += [K(k + '_'), v, K('/')]
    return ps + [K(config.CONTENT + '/')]


@check('C15', "The provider arguments that the WSGI application derives from the request (host, scheme), the base URLs that "
       "the provider derives from them, and BaseURL, Location and time server URL of the manifest (end-to-end analysis) are "
       "compared with the reference, for http and https")
def c15(ctx):
    config.c15(ctx)
    where = PROC + '.process_mpd_children'
    for s, flag in (('http', FALSE), ('https', TRUE)):
        for ks in ((), ('tsbd',), ('start', 'tsbd', 'snr'), ('ato',), ('utc',), ('chunkdur',), ('segtimeline',),
                   ('baseurl',), ('tsbd', 'baseurl', 'mup', 'baseurl'), ('startrel', 'stoprel'), ('baseurl', 'startrel')):
            for sk in ({}, {'before': ('ProgramInformation',)}, {'before': ('BaseURL',)}, {'before': ('ProgramInformation', 'BaseURL')}):
                nm = "%s %s %s" % (s, " ".join(ks) or "no option", " ".join(sk.get('before', ())))
                ctx.obligation(nm, where, lambda: base_urls(ctx, nm, ks, s, flag, sk), 30)


OTHERS = ['u40_d20', 'd5_u5']


def base_urls(ctx, nm, ks, scheme, flag, sk):
    where = PROC + '.process_mpd_children'
    lit = {i: {'utc': 'head', 'ato': '5', 'chunkdur': '0.5', 'segtimeline': '1', 'baseurl': OTHERS[i % 2]}[k]
           for i, k in enumerate(ks) if k in ('utc', 'ato', 'chunkdur', 'segtimeline', 'baseurl')}
    tr = manifest(ctx, ks, with_numbers(ks, lit), (), sk, https=flag)
    opts = list(zip(ks, tr.vals))
    if 'startrel' in ks:
        want = []
    elif 'baseurl' in ks:
        plain = [o for o in opts if o[0] != 'baseurl']
        want = [t.cat('s', url(tr, scheme, plain + [o])) for o in opts if o[0] == 'baseurl']
    else:
        want = [t.cat('s', url(tr, scheme, opts))]
    got = tr.find(tr.root, 'BaseURL')
    count(ctx, nm + ": BaseURL elements", where, len(got), len(want))
    for e, w in zip(got, want):
        ctx.same(nm + ": BaseURL", where, tr.text(e), w, tr.I.loops, facts=tr.facts, known=tr.known())
    for e in tr.find(tr.root, 'UTCTiming') if 'utc' in ks else ():
        ctx.same(nm + ": time server", where, tr.attr(e, 'value'),
                 t.cat('s', [K(scheme + '://'), t.var('HOST', 's'), K('/dash/time.txt')]), tr.I.loops, facts=tr.facts,
                 known=tr.known())
    for e in tr.find(tr.root, 'Location'):
        x = tr.text(e)
        lead = [K(scheme + '://'), t.var('HOST', 's'), K('/dash/')]
        n = x.args[1] if x.op == 'cat' else ()
        good = len(n) > 2 and n[0] is lead[0] and n[1] is lead[1] and n[2].op == 'k' and n[2].args[1].startswith('/dash/')
        if x.weak or not good and x.op not in ('cat', 'k'):
            raise Undecided("Location text")
        ctx.require(nm + ": Location", good, where, t.show(x)[:300])


def count(ctx, name, where, got, want):
    ctx.require(name, got == want, where, {"code": got, "reference": want})


@check('C16', "The manifest request is analysed end to end for relative and absolute session times in every order; the "
       "Location element is compared with the request URL in which the relative parts are replaced by the session times of "
       "the reference, for symbolic option values and clock")
def c16(ctx):
    where = PROC + '.process_mpd_children'
    combos = [(), ('start', 'stop'), ('start',), ('dur', 'start'), ('startrel',), ('startrel', 'stoprel'),
              ('stoprel', 'startrel'), ('start', 'stoprel'), ('stoprel', 'start'), ('startrel', 'stop'), ('stop', 'startrel'),
              ('tsbd', 'startrel', 'mup', 'stoprel'), ('startrel', 'tsbd'), ('snr', 'startrel', 'stoprel', 'ato'),
              ('startrel', 'stoprel', 'segtimeline'), ('tsbd',), ('startrel', 'dur')]
    for ks in combos:
        for sk in ({}, {'before': ('ProgramInformation', 'BaseURL')}):
            nm = "%s%s" % (" ".join(ks) or "no option", ", other stored manifest" if sk else "")
            ctx.obligation(nm, where, lambda: location(ctx, nm, ks, sk), 30)


def location(ctx, nm, ks, sk):
    where = PROC + '.process_mpd_children'
    lit = {i: {'ato': '5', 'segtimeline': '1'}[k] for i, k in enumerate(ks) if k in ('ato', 'segtimeline')}
    tr = manifest(ctx, ks, with_numbers(ks, lit), (), sk)
    relative = 'startrel' in ks or 'stoprel' in ks
    got = tr.find(tr.root, 'Location')
    count(ctx, nm + ": Location elements", where, len(got), 1 if relative else 0)
    if relative:
        count(ctx, nm + ": BaseURL elements", where, len(tr.find(tr.root, 'BaseURL')), 0)
        refs = []
        for form in (0, 1, 2):
            opts = []
            for k, v in zip(ks, tr.vals):
                if k in ('startrel', 'stoprel'):
                    at = reference(ctx, tr, 'setting', K({'startrel': 'start_time', 'stoprel': 'stop_time'}[k]), form=form)
                    k, v = k[:-3], t.conv('d', at)
                opts.append((k, v))
            refs.append(t.cat('s', url(tr, 'http', opts) + [K('Manifest.mpd')]))
        for e in got:
            ctx.same(nm + ": Location", where, tr.text(e), refs, tr.I.loops, facts=tr.facts, known=tr.known(refs))
    produced(ctx, nm, tr)


def produced(ctx, nm, tr):
    """a manifest is produced"""
    ctx.same(nm + ": manifest", GET, config.ok_value(tr.value), TRUE, tr.I.loops, facts=tr.facts)


UTC_SCHEMES = {'direct': 'urn:mpeg:dash:utc:direct:2014', 'head': 'urn:mpeg:dash:utc:http-head:2014',
               'ntp': 'urn:mpeg:dash:utc:ntp:2014', 'sntp': 'urn:mpeg:dash:utc:sntp:2014',
               'httpxsdate': 'urn:mpeg:dash:utc:http-xsdate:2014', 'httpiso': 'urn:mpeg:dash:utc:http-iso:2014'}
CHUNKED = [(lambda I, p: t.isnone(I.getattr_(I.getattr_(p, 'cfg'), 'chunk_duration_in_s')), False)]


@check('C27', "The manifest request is analysed end to end for lists of time methods (each alone, mixed orders, unknown ones, "
       "none, chunked); the UTCTiming elements, their order, schemes and values are compared with the reference")
def c27(ctx):
    where = PROC + '.insert_utc_timings'
    names = sorted(UTC_SCHEMES)
    lists = [[m] for m in names] + [['direct', 'head', 'ntp', 'sntp', 'httpxsdate', 'httpiso'],
                                    ['httpiso', 'httpxsdate', 'sntp', 'ntp', 'head', 'direct'], ['ntp', 'ntp'],
                                    ['head', 'direct'], ['sntp', 'httpiso', 'ntp']]
    for ms in lists:
        for ks, lit, skel in ((('utc',), {}, {}), (('tsbd', 'utc', 'snr'), {}, {'before': ('ProgramInformation', 'BaseURL')}),
                              (('utc', 'startrel'), {}, {}), (('utc', 'start', 'stop'), {}, {}),
                              (('segtimeline', 'utc'), {0: '1'}, {'types': ('audio', 'video', 'subtitles')}),
                              (('chunkdur', 'utc'), {0: '0.5'}, {})):
            lit = dict(lit)
            lit[ks.index('utc')] = '-'.join(ms)
            nm = "utc_%s in %s" % ('-'.join(ms), " ".join(ks))
            ctx.obligation(nm, where, lambda: timing(ctx, nm, ks, lit, skel, ms), 30)
    for ks, lit in (((), {}), (('tsbd',), {}), (('ato',), {0: '5'}), (('start', 'stop'), {}), (('chunkdur',), {0: '0'})):
        nm = "no methods, %s" % " ".join(ks)
        ctx.obligation(nm, where, lambda: timing(ctx, nm, ks, lit, {}, []), 30)
    for ks, lit in ((('chunkdur',), {0: '0.5'}), (('ato', 'chunkdur'), {0: '1', 1: '1'}), (('chunkdur', 'tsbd'), {0: '0.25'})):
        nm = "no methods, chunked, %s" % " ".join(ks)
        ctx.obligation(nm, where, lambda: timing(ctx, nm, ks, lit, {}, ['httpiso']), 30)
    for text in ('none2', 'direct-gps', 'gps-direct', 'http', 'Direct', 'head-'):
        nm = "unknown method in utc_%s" % text

        def go():
            tr = manifest(ctx, ('utc',), {0: text})
            ctx.same(nm + ": refused", where, config.ok_value(tr.value), FALSE, tr.I.loops, facts=tr.facts)
        ctx.obligation(nm, where, go, 30)


def timing(ctx, nm, ks, lit, skel, methods):
    where = PROC + '.insert_utc_timings'
    tr = manifest(ctx, ks, with_numbers(ks, lit), (), skel)
    got = tr.find(tr.root, 'UTCTiming')
    count(ctx, nm + ": UTCTiming elements", where, [t.show(tr.attr(e, 'schemeIdUri')) for e in got],
          [t.show(K(UTC_SCHEMES[m])) for m in methods])
    tags = tr.tags(tr.root)
    ctx.require(nm + ": after the periods", not got or tags.index('UTCTiming') > max(i for i, x in enumerate(tags) if x == 'Period'),
                where, tags)
    for m, e in zip(methods, got):
        x = tr.attr(e, 'value')
        if m == 'direct':
            refs = [reference(ctx, tr, 'utc_now', K(i)) for i in range(3)]
            local = mk('call', 'time.localtime', t.var('CLOCK', 'n'))
            ctx.same(nm + ": direct", where, x, refs, tr.I.loops, facts=tr.facts, known=tr.known(refs + [local]))
        elif m == 'head':
            ctx.same(nm + ": head", where, x, t.cat('s', [K('http://'), t.var('HOST', 's'), K('/dash/time.txt')]), tr.I.loops,
                     facts=tr.facts, known=tr.known())
        elif x.op != 'k':
            ctx.require(nm + ": " + m, x is not NONE and x.op != 'cat', where, t.show(x)[:200])
            raise Undecided("server of " + m)
        else:
            v = str(x.args[1])
            is_url = v.startswith('http://') or v.startswith('https://')
            ctx.require(nm + ": %s server" % m, is_url and 'iso' in v if m.startswith('http') else
                        bool(v) and '/' not in v and x.args[1] is not None, where, v)
    produced(ctx, nm, tr)


LL_PROFILE = 'http://www.dashif.org/guidelines/low-latency-live-v5'
LATENCY = ('availabilityTimeOffset', 'availabilityTimeComplete')


@check('C31', "The manifest request is analysed end to end for chunked and unchunked sessions and every kind of availability "
       "time offset (positive, zero, negative, not a number, infinite; also for all symbolic numbers); latency attributes, "
       "profile, ServiceDescription and ProducerReferenceTime elements are compared with the reference")
def c31(ctx):
    where = PROC + '.process_mpd_children'
    skels = [{}, {'before': ('ProgramInformation',)}, {'before': ('BaseURL',)},
             {'types': ('audio', 'video', 'subtitles', 'video'), 'templates': 2}, {'stored': LATENCY}]
    atos = [None, '5', '0', '-3', 'x', 'inf', '1.5', config.number(0, 'ato'), '0.5', '0.001', '-0.5']
    chunks = [None, '0.5', '2', '0', '-1', 'x', config.number(1, 'chunkdur')]
    for n, sk in enumerate(skels):
        for a in atos if not n else atos[1:2] + atos[5:]:
            for c in chunks if not n else chunks[:2]:
                for first in (True, False) if not n and a is not None and c is not None else (True,):
                    named = [(k, v) for k, v in (('ato', a), ('chunkdur', c)) if v is not None]
                    if not first:
                        named.reverse()
                    nm = "%s%s" % (" ".join("%s_%s" % (k, v if isinstance(v, str) else 'n') for k, v in named) or "no option",
                                   ", stored manifest %d" % n if n else "")
                    chunked = c is not None and (not isinstance(c, str) or c in ('0.5', '2'))
                    ctx.obligation(nm, where, lambda: latency(ctx, nm, named, sk, chunked), 30)
                    if c is not None and not isinstance(c, str):
                        nm += ", not chunked"
                        ctx.obligation(nm, where, lambda: latency(ctx, nm, named, sk, False), 30)
    for extra in (('segtimeline', '1'), ('baseurl', 'u40_d20'), ('periods', '0'), ('scte35', '1'), ('continuous', '1')):
        for chunked in (True, False):
            named = [('ato', '4')] + [('chunkdur', '0.5')] * chunked + [extra]
            nm = " ".join("%s_%s" % x for x in named)
            ctx.obligation(nm, where, lambda: latency(ctx, nm, named, {}, chunked), 30)
    profiles(ctx)


def latency(ctx, nm, named, sk, chunked):
    where = PROC + '.process_mpd_children'
    facts = ()
    if any(k == 'chunkdur' and not isinstance(v, str) for k, v in named):
        facts = [(CHUNKED[0][0], not chunked)]
    tr = manifest(ctx, tuple(k for k, _ in named), {i: v for i, (_, v) in enumerate(named)}, facts, sk)
    ato = reference(ctx, tr, 'setting', K('availability_time_offset_in_s'))
    refs = [reference(ctx, tr, 'latency', ato, K(form)) for form in range(3)]
    kn = tr.known(refs)

    def put(label, e, want_offset, want_complete):
        ctx.same("%s: %s availabilityTimeOffset" % (nm, label), where, tr.attr(e, 'availabilityTimeOffset'), want_offset,
                 tr.I.loops, facts=tr.facts, known=kn)
        ctx.same("%s: %s availabilityTimeComplete" % (nm, label), where, tr.attr(e, 'availabilityTimeComplete'), want_complete,
                 tr.I.loops, facts=tr.facts, known=kn)
    for e in tr.find(tr.root, 'BaseURL'):
        put('BaseURL', e, NONE if chunked else [ite(t.eq(r, ZERO), NONE, r) for r in refs], NONE)
    stored = {k: t.var('STORED_' + k, 's') if k in sk.get('stored', ()) else NONE for k in LATENCY}
    for e in tr.find(tr.root, 'Period', 'AdaptationSet', 'SegmentTemplate'):
        if chunked:
            put('SegmentTemplate', e, [ite(t.eq(r, ZERO), K('0.000000'), r) for r in refs], K('false'))
        else:
            put('SegmentTemplate', e, stored[LATENCY[0]], stored[LATENCY[1]])
    count(ctx, nm + ": ServiceDescription", where, len(tr.find(tr.root, 'ServiceDescription')), 1 if chunked else 0)
    for a in tr.find(tr.root, 'Period', 'AdaptationSet'):
        count(ctx, nm + ": ProducerReferenceTime", where, len(tr.find(a, 'ProducerReferenceTime')), 1 if chunked else 0)
    produced(ctx, nm, tr)


def profiles(ctx):
    """the low-latency profile is listed once in chunked sessions, stored profiles stay"""
    where = PROC + '.process_mpd'
    for stored in ('urn:mpeg:dash:profile:isoff-live:2011', LL_PROFILE, 'a:b,' + LL_PROFILE, LL_PROFILE + ',a:b', 'a:b,c:d',
                   LL_PROFILE + '1'):
        for ks, lit in ((('chunkdur',), {0: '0.5'}), (('tsbd',), {}), (('chunkdur',), {0: '0'}), (('ato',), {0: '3'})):
            nm = "profiles %s in %s %s" % (stored, " ".join(ks), lit.get(0, ''))
            chunked = lit.get(0) == '0.5'

            def go():
                tr = manifest(ctx, ks, with_numbers(ks, lit), (), {'profiles': stored})
                x = tr.attr(tr.root, 'profiles')
                if x.op != 'k':
                    raise Undecided("profiles: %s" % t.show(x, 4)[:200])
                got = str(x.args[1]).split(',')
                want = stored.split(',')
                if chunked and LL_PROFILE not in want:
                    want = want + [LL_PROFILE]
                ctx.require(nm, sorted(got) == sorted(want), where, {"code": got, "reference": want})
            ctx.obligation(nm, where, go, 30)


ADS = 'urn:scte:scte35:2013:xml'
AD_PROFILE = 'http://dashif.org/guidelines/adin/app'


def ads(ctx):
    """C20: the ad event stream is announced on video adaptation sets, and the profile is listed, exactly with ads"""
    where = PROC + '.update_periods'
    skels = [{}, {'types': ('audio', 'video', 'subtitles', 'video'), 'templates': 2, 'before': ('BaseURL',)},
             {'types': ('audio',)}]
    combos = [('scte35',), ('tsbd', 'scte35'), ('scte35', 'periods'), ('scte35', 'continuous', 'periods'), ('segtimeline', 'scte35'),
              ('scte35', 'chunkdur'), ('segtimelineloss', 'scte35'), ('scte35', 'start', 'stop')]
    given = {'periods': '2', 'continuous': '1', 'segtimeline': '1', 'chunkdur': '0.5', 'segtimelineloss': '1'}
    for n, sk in enumerate(skels):
        for ks in combos if not n else combos[:1]:
            for v in ('0', '1', '2', '3', True, False):
                def go():
                    lit = {i: given[k] for i, k in enumerate(ks) if k in given}
                    i = ks.index('scte35')
                    facts = ()
                    if isinstance(v, bool):
                        lit[i] = config.number(i, 'scte35')
                        facts = [((lambda I, p: t.cmp_le(ZERO, t.toint(t.var('NUMBER%d_scte35' % i, 'i')), True)), v)]
                    else:
                        lit[i] = v
                    with_ads = v if isinstance(v, bool) else v != '0'
                    nm = "%s, %s ads, manifest %d" % (" ".join(ks), {True: 'some', False: 'no'}.get(v, v), n)
                    ov = None
                    if 'periods' in ks:
                        _, gen, more = period_list(2)
                        facts, ov = list(facts) + more, {'dashlivesim.dashlib.mpd_proxy.generate_period_data': gen}
                    tr = manifest(ctx, ks, with_numbers(ks, lit), facts, sk, overrides=ov)
                    for p in tr.find(tr.root, 'Period'):
                        for a in tr.find(p, 'AdaptationSet'):
                            kind = t.kval(tr.attr(a, 'contentType'))
                            xs = [e for e in tr.find(a, 'InbandEventStream') if tr.attr(e, 'schemeIdUri') is K(ADS)]
                            count(ctx, "%s: event streams of %s" % (nm, kind), where, len(xs), 1 if with_ads and kind == 'video' else 0)
                            for e in xs:
                                ctx.same("%s: value" % nm, where, tr.attr(e, 'value'), K('999'), tr.I.loops, facts=tr.facts)
                    produced(ctx, nm, tr)
                ctx.obligation("announcement", where, go, 30)
    for stored in ('urn:mpeg:dash:profile:isoff-live:2011', AD_PROFILE, 'a:b,' + AD_PROFILE, AD_PROFILE + ',a:b'):
        for ks, lit in ((('scte35',), '1'), (('scte35',), '0'), (('tsbd',), '3')):
            def go():
                tr = manifest(ctx, ks, with_numbers(ks, {0: lit} if ks[0] == 'scte35' else {}), (), {'profiles': stored})
                x = tr.attr(tr.root, 'profiles')
                if x.op != 'k':
                    raise Undecided("profiles: %s" % t.show(x, 4)[:200])
                got, want = str(x.args[1]).split(','), stored.split(',')
                if lit == '1' and ks[0] == 'scte35' and AD_PROFILE not in want:
                    want = want + [AD_PROFILE]
                ctx.require("profiles %s %s_%s" % (stored, ks[0], lit), sorted(got) == sorted(want), PROC + '.process_mpd',
                            {"code": got, "reference": want})
            ctx.obligation("profiles", PROC + '.process_mpd', go, 30)


def read_int(x, default):
    """the integer a client reads from an attribute (default if absent)"""
    if x.op == 'ite':
        return ite(x.args[0], read_int(x.args[1], default), read_int(x.args[2], default))
    if x is NONE:
        return default
    if x.op == 'conv' and x.args[0] in ('d', 's') and t.ty(x.args[1])[:1] == 'i':
        return x.args[1]
    if x.op == 'k' and isinstance(x.args[1], str):
        try:
            return K(int(x.args[1]))
        except ValueError:
            return x
    if x.op == 'cat' and x.args[1][0] is K('-') and len(x.args[1]) == 2:
        return t.sub(ZERO, read_int(x.args[1][1], ZERO))
    if x.weak or x.op in ('call', 'm'):
        return mk('call', 'int', x)
    return x



@check('C06', "The manifest request is analysed end to end for single-period sessions; the start number and presentation time "
       "offset a client reads from it (defaults applied) are compared with the reference for symbolic option values, asset "
       "data and clock; the segment side uses the same reference (C01, C09)")
def c06(ctx):
    where = PROC + '.update_periods'
    combos = [(), ('snr',), ('timeoffset',), ('snr', 'timeoffset'), ('timeoffset', 'snr'), ('start',), ('start', 'snr'),
              ('start', 'timeoffset'), ('start', 'stop', 'timeoffset'), ('start', 'stop', 'timeoffset', 'snr'),
              ('start', 'timeoffset', 'snr', 'stop'), ('startrel', 'stoprel', 'timeoffset'), ('ast', 'timeoffset'),
              ('peroff',), ('peroff', 'timeoffset', 'snr'), ('start', 'peroff', 'timeoffset'), ('tfdt',), ('modulo',),
              ('cont',), ('continuous', 'snr'), ('segtimeline',), ('segtimeline', 'start', 'timeoffset'),
              ('segtimeline', 'start', 'stop', 'timeoffset'), ('segtimelinenr', 'start', 'stop', 'timeoffset'),
              ('chunkdur', 'snr', 'start'), ('scte35', 'snr', 'start', 'timeoffset'), ('utc', 'snr'), ('baseurl', 'snr')]
    given = {'peroff': '1', 'continuous': '1', 'segtimeline': '1', 'segtimelinenr': '1', 'chunkdur': '0.5', 'scte35': '1',
             'utc': 'head', 'baseurl': 'u40_d20'}
    for ks in combos:
        for n, sk in enumerate(({}, {'stored': ('presentationTimeOffset',)}, {'types': ('subtitles', 'image'), 'templates': 2,
                                                                             'before': ('ProgramInformation',)})):
            if n and 'peroff' in ks:
                continue
            lit = {i: given[k] for i, k in enumerate(ks) if k in given}
            lits = [lit]
            if 'snr' in ks:
                lits += [dict(lit, **{'x': v}) for v in ('-1', '0', '1', '17')]
            for l in lits:
                v = l.pop('x', None)
                if v is not None:
                    l[ks.index('snr')] = v
                nm = " ".join(ks) or "no option"
                nm += " (snr_%s)" % v if v is not None else ""
                nm += ", stored manifest %d" % n if n else ""
                ctx.obligation(nm, where, lambda: numbering(ctx, nm, ks, l, dict(sk, plain=('timescale',))), 30)


def numbering(ctx, nm, ks, lit, sk):
    where = PROC + '.update_periods'
    tr = manifest(ctx, ks, with_numbers(ks, lit), (), sk)
    nr = reference(ctx, tr, 'first_number', DUR)
    off = reference(ctx, tr, 'offset')
    kn = tr.known([nr, off])
    fs = assume(assume(tr.facts, t.cmp_le(ZERO, nr, False), True), config.ok_value(tr.value), True)
    peroff = 'peroff' in ks
    for p in tr.find(tr.root, 'Period'):
        base = tr.find(p, 'SegmentBase')
        if peroff:
            x = tr.attr(base[0], 'presentationTimeOffset') if base else NONE
            ctx.same(nm + ": presentationTimeOffset of the period", where, read_int(x, ZERO), off, tr.I.loops, facts=fs, known=kn)
        else:
            count(ctx, nm + ": SegmentBase", where, len(base), 0)
        for a in tr.find(p, 'AdaptationSet'):
            timeline = any(k in ks for k in ('segtimeline', 'segtimelinenr')) and \
                tr.attr(a, 'contentType') in (K('audio'), K('video'))
            for e in tr.find(a, 'SegmentTemplate'):
                if not timeline:
                    ctx.same(nm + ": startNumber", where, read_int(tr.attr(e, 'startNumber'), t.ONE), nr, tr.I.loops,
                             facts=fs, known=kn)
                scale = t.ONE
                if timeline:
                    scale = read_int(tr.attr(e, 'timescale'), t.ONE)
                x = read_int(tr.attr(e, 'presentationTimeOffset'), ZERO)
                ctx.same(nm + ": presentationTimeOffset", where, x, ZERO if peroff else t.mul(off, scale), tr.I.loops,
                         facts=fs, known=kn + TRACKS)


MEDIA = t.var('VOD_MEDIA', 'D')
LISTED = t.var('FIRST_LISTED', 'i?')
TIMED = ('video', 'audio')


def has_media(kind, present=True):
    return (lambda I, p: I.contains(MEDIA, K(kind)), present)


@check('C30', "The manifest request is analysed end to end for SegmentTimeline sessions with the timeline contents left open; "
       "attributes, addressing, start number and the requested window of every template are compared with the reference for "
       "symbolic option values, asset data and clock, one or more periods; the timeline code is analysed for the sessions "
       "that have no ended segment")
def c30(ctx):
    where = PROC + '.update_periods'
    combos = [(), ('start',), ('tsbd',), ('start', 'tsbd'), ('mup',), ('start', 'stop'), ('start', 'stop', 'timeoffset'),
              ('startrel', 'stoprel'), ('tfdt',), ('modulo',), ('snr',), ('peroff',), ('ato',), ('chunkdur',), ('continuous',),
              ('periods',), ('baseurl',), ('scte35',), ('start', 'dur'), ('startrel', 'stoprel', 'timeoffset')]
    given = {'peroff': '1', 'continuous': '1', 'chunkdur': '0.5', 'scte35': '1', 'baseurl': 'u40_d20', 'periods': '0',
             'timeoffset': '0', 'ato': '2'}
    for extra in combos:
        for tk in (('segtimeline',), ('segtimelinenr',), ('segtimeline', 'segtimelinenr')):
            for n, sk in enumerate(({}, {'types': ('audio', 'video', 'subtitles', 'video'), 'templates': 2, 'before': ('BaseURL',)},
                                    {'media': '$RepresentationID$/$Number$.m4s'}, {'media': 'x/$Number$.mp4', 'types': ('audio',)})):
                ks = extra[:1] + tk + extra[1:]
                lit = {i: given[k] for i, k in enumerate(ks) if k in given}
                lit.update({i: '1' for i, k in enumerate(ks) if k in tk})
                nm = " ".join(ks) + (", stored manifest %d" % n if n else "")
                ctx.obligation(nm, where, lambda: timeline(ctx, nm, ks, lit, sk), 30)
    for kinds in (('video',), ('audio',)):
        for k in ('segtimeline', 'segtimelinenr'):
            nm = "%s, asset with only %s" % (k, kinds[0])
            ctx.obligation(nm, where, lambda: timeline(ctx, nm, (k,), {0: '1'}, {'types': kinds}, kinds), 30)
    for k in ('segtimeline', 'segtimelinenr'):
        for v in ('0', '2'):
            nm = "%s_%s" % (k, v)

            def go():
                tr = manifest(ctx, (k,), {0: v}, [has_media('video'), has_media('audio')])
                count(ctx, nm + ": SegmentTimeline", where, len(tr.find(tr.root, 'Period', 'AdaptationSet', 'SegmentTemplate',
                                                                        'SegmentTimeline')), 0)
            ctx.obligation(nm, where, go, 30)


def timeline(ctx, nm, ks, lit, sk, kinds=TIMED, periods=None):
    where = PROC + '.update_periods'
    facts = [has_media(k, k in kinds) for k in TIMED]
    if 'snr' in ks:
        facts.append((lambda I, p: t.cmp_le(K(-1), t.var('NUMBER%d_snr' % ks.index('snr'), 'i'), False), True))
    tr = manifest(ctx, ks, with_numbers(ks, lit), facts, sk)
    by_time = 'segtimeline' in ks
    fs = assume(assume(tr.facts, config.ok_value(tr.value), True), t.isnone(LISTED), False)
    for p in tr.find(tr.root, 'Period'):
        start = {'PT0S': 0, 'PT3600000S': 3600000}.get(t.kval(tr.attr(p, 'start')))
        if start is None:
            raise Undecided("period start")
        for a in tr.find(p, 'AdaptationSet'):
            kind = t.kval(tr.attr(a, 'contentType'))
            for e in tr.find(a, 'SegmentTemplate'):
                got = tr.find(e, 'SegmentTimeline')
                count(ctx, "%s: SegmentTimeline of %s" % (nm, kind), where, len(got), 1 if kind in kinds else 0)
                if kind not in kinds:
                    continue
                label = "%s: %s " % (nm, kind)
                refs = [reference(ctx, tr, 'listed', NOW, K(start), NONE, form=f) for f in range(3)]
                track = t.item(MEDIA, K(kind))
                kn = tr.known(refs + TRACKS + [LISTED])

                def same(name, got, want, facts=tr.facts):
                    ctx.same(label + name, where, got, want, tr.I.loops, facts=facts, known=kn + [
                        x for x in (want if isinstance(want, list) else [want])])
                same('timescale', read_int(tr.attr(e, 'timescale'), t.ONE), t.item(track, K('timescale')))
                same('duration', tr.attr(e, 'duration'), NONE)
                m = sk.get('media')
                m = t.var('MEDIA_%s' % kind, 's') if m is None else K(m)
                if by_time:
                    same('startNumber', tr.attr(e, 'startNumber'), NONE)
                    same('media', tr.attr(e, 'media'), reference(ctx, tr, 'time_media', m))
                else:
                    same('startNumber', read_int(tr.attr(e, 'startNumber'), t.ONE), LISTED, fs)
                    same('media', tr.attr(e, 'media'), m)
                for g in got:
                    same('timeline track', tr.attr(g, '#media'), track)
                    for n, x in enumerate(('#start', '#end', '#closest')):
                        ctx.same(label + x[1:], where, tr.attr(g, x), [nth(r, n) for r in refs], tr.I.loops, facts=fs, known=kn)
    produced(ctx, nm, tr)


def nth(x, n):
    if x.op == 'ite':
        return ite(x.args[0], nth(x.args[1], n), nth(x.args[2], n))
    return x.args[0][n]



PERIODS = (1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60)
PERIOD_KEYS = ('id', 'start', 'startNumber', 'presentationTimeOffset')


@check('C18', "The manifest request is analysed end to end up to the description of the periods, for every documented number of "
       "periods per hour, capped and unsupported ones; the list is compared with the reference for symbolic clock, time-shift "
       "depth and segment duration. The manifest is then analysed for a list of periods with symbolic values")
def c18(ctx):
    where = 'dashlivesim.dashlib.mpd_proxy.generate_period_data'
    combos = [('periods',), ('tsbd', 'periods'), ('periods', 'segtimeline'), ('segtimelinenr', 'periods'), ('periods', 'continuous'),
              ('snr', 'periods'), ('mup', 'periods'), ('periods', 'peroff'), ('periods', 'etp'), ('periods', 'etp', 'etpDuration'),
              ('periods', 'mpdcallback'), ('spd', 'periods', 'ato'), ('periods', 'timeoffset')]
    given = {'continuous': '1', 'segtimeline': '1', 'segtimelinenr': '1', 'peroff': '1', 'etp': '1', 'mpdcallback': '1', 'ato': '1'}
    for ks in combos:
        for n in PERIODS + (61, 100):
            if len(ks) > 1 and n not in (1, 2, 6, 20, 60, 61):
                continue
            lit = {i: given[k] for i, k in enumerate(ks) if k in given}
            lit[ks.index('periods')] = str(n)
            nm = " ".join("periods_%d" % n if k == 'periods' else k for k in ks)
            ctx.obligation(nm, where, lambda: periods(ctx, nm, ks, lit, min(n, 60)), 30)
    for ms, ok in ((('2', '3', '4', '6', '12'), True), (('5', '7', '8', '24'), False)):
        for m in ms:
            for k in ('etp', 'mpdcallback'):
                nm = "periods_12 %s_%s" % (k, m)
                if ok:
                    ctx.obligation(nm, where, lambda: periods(ctx, nm, ('periods', k), {0: '12', 1: m}, 12), 30)
                else:
                    ctx.obligation(nm, where, lambda: refused(ctx, nm, ('periods', k), {0: '12', 1: m}, where), 30)
    for n in (7, 8, 9, 11, 13, 14, 16, 18, 25, 40, 45, 59, -2):
        for ks in (('periods',), ('tsbd', 'periods'), ('segtimeline', 'periods')):
            nm = " ".join(ks).replace('periods', 'periods_%d' % n)
            ctx.obligation(nm, where, lambda: refused(ctx, nm, ks, dict([(i, '1') for i in range(len(ks) - 1)] +
                                                                        [(len(ks) - 1, str(n))]), where), 30)
    for n in ('0', '-1'):
        for ks in (('periods',), ('tsbd', 'periods'), ('periods', 'continuous'), ('periods', 'utc')):
            for k, sk in enumerate(({}, {'before': ('ProgramInformation', 'BaseURL'), 'types': ('audio', 'video', 'image')})):
                nm = " ".join(ks).replace('periods', 'periods_' + n) + (", other stored manifest" if k else "")
                lit = {i: {'continuous': '1', 'utc': 'head', 'periods': n}[k] for i, k in enumerate(ks) if k != 'tsbd'}
                ctx.obligation(nm, where, lambda: one_period(ctx, nm, ks, lit, sk, n), 30)
    announced(ctx)


def refused(ctx, nm, ks, lit, where):
    facts = [(t.cmp_le(t.ONE, DUR, False), True), (t.cmp_le(ZERO, t.var('VOD_TSBD', 'i'), False), True)]
    tr = manifest(ctx, ks, with_numbers(ks, lit), facts)
    ctx.same(nm + ": refused", where, config.ok_value(tr.value), FALSE, tr.I.loops, facts=tr.facts, known=tr.known())


def project(x, f):
    """list of dictionaries -> list of tuples"""
    if x.op != 'listt':
        raise Undecided("list of periods: %s" % x.op)
    out = []
    for e in x.args[0]:
        if e.op == 'gi':
            out.append(mk('gi', e.args[0], f(e.args[1])))
        elif e.op == 'each':
            out.append(mk('each', e.args[0], e.args[1], e.args[2], f(e.args[3])))
        else:
            raise Undecided("list of periods: %s" % e.op)
    return t.listt(out)


def entry(x, k):
    """d.get(k)"""
    if x.op == 'ite':
        return ite(x.args[0], entry(x.args[1], k), entry(x.args[2], k))
    if x.op == 'dictt':
        for kk, g, v in x.args[0]:
            if kk is K(k):
                return ite(g, absent(v), NONE)
        if x.args[1] is NONE:
            return NONE
    raise Undecided("description of a period: %s" % t.show(x, 4)[:100])


def is_text(x):
    return x.op in ('conv', 'cat') or x.op == 'k' and isinstance(x.args[1], str)


def number_or_text(x):
    """the text of a number"""
    if x.op == 'ite':
        return ite(x.args[0], number_or_text(x.args[1]), number_or_text(x.args[2]))
    return x if is_text(x) or x is NONE or t.ty(x) == 's' else t.conv('d', x)


def periods(ctx, nm, ks, lit, n):
    where = 'dashlivesim.dashlib.mpd_proxy.generate_period_data'
    seen = []

    def children(I, env, node):
        if 'period_data' not in env:
            raise Undecided("period data")
        seen.append(I.reify(env['period_data']))
        return NONE
    ctx.anchor(PROC + '.process_mpd_children')
    tr = manifest(ctx, ks, with_numbers(ks, lit), overrides={PROC + '.process_mpd_children': children})
    if not seen and tr.value.op == 'raise':
        return produced(ctx, nm, tr)
    if len(seen) != 1:
        raise Undecided("%d lists of periods" % len(seen))
    more = {k: K(int(lit[ks.index(k)])) if k in ks and ks.index(k) in lit else K(-1) for k in ('etp', 'mpdcallback')}
    got = project(seen[0], lambda d: mk('tuple', tuple(number_or_text(entry(d, k)) for k in PERIOD_KEYS) + (
        entry(d, 'etpDuration'), t.isnone(entry(d, 'mpdCallback')))))
    ref = reference(ctx, tr, 'periods', NOW, DUR, K(n), more['etp'], more['mpdcallback'])
    kn = tr.known([ref])
    fs = tr.facts
    if 'etpDuration' in ks:     # the early termination is refused if it is longer than the period
        fs = assume(fs, config.ok_value(tr.value), True)
    ctx.same(nm + ": periods", where, got, ref, tr.I.loops, facts=fs, known=kn)
    x = tr.attr(tr.root, 'minimumUpdatePeriod')
    if 'segtimeline' in ks or 'segtimelinenr' in ks:
        want = K('PT0S')
    else:
        want = [K('PT%dS' % (1800 // n - 5)), K('PT%dS' % (3600 // n // 2 - 5))]
    ctx.same(nm + ": minimumUpdatePeriod", where, x, want, tr.I.loops, facts=fs, known=kn)
    if 'etpDuration' not in ks:
        produced(ctx, nm, tr)


def one_period(ctx, nm, ks, lit, sk, n):
    where = PROC + '.update_periods'
    start = 3600000 if n == '0' else 0
    facts = [(t.cmp_le(ZERO, t.fdiv(K(start), DUR), False), True)]
    tr = manifest(ctx, ks, with_numbers(ks, lit), facts, dict(sk, plain=('timescale',)))
    got = tr.find(tr.root, 'Period')
    count(ctx, nm + ": periods", where, len(got), 1)
    for p in got:
        ctx.same(nm + ": id", where, tr.attr(p, 'id'), K('p0'))
        ctx.same(nm + ": start", where, tr.attr(p, 'start'), K('PT%dS' % start))
        for e in tr.find(p, 'AdaptationSet', 'SegmentTemplate'):
            ctx.same(nm + ": startNumber", where, read_int(tr.attr(e, 'startNumber'), t.ONE), t.fdiv(K(start), DUR), tr.I.loops,
                     facts=tr.facts, known=tr.known([t.fdiv(K(start), DUR)]))
            ctx.same(nm + ": presentationTimeOffset", where, read_int(tr.attr(e, 'presentationTimeOffset'), ZERO), K(start),
                     tr.I.loops, facts=tr.facts, known=tr.known([K(start)]))
    produced(ctx, nm, tr)


def announced(ctx):
    """a list of two or three periods with symbolic values -> Period elements"""
    gen = 'dashlivesim.dashlib.mpd_proxy.generate_period_data'
    where = PROC + '.update_periods'
    f = ctx.anchor(gen)
    keys = PERIOD_KEYS + ('start_s', 'period_duration_s', 'duration')
    texts = [x.value for x in ast.walk(f.module.tree) if isinstance(x, ast.Constant)]
    if any(k not in texts for k in keys):
        ctx.undecided("announced periods", where, "keys of the period descriptions")
        return
    for n in (2, 3):
        for ks in ((), ('peroff',), ('continuous',), ('segtimeline',), ('segtimelinenr',), ('chunkdur',), ('utc',), ('tsbd', 'ato'),
                   ('scte35',), ('segtimeline', 'start', 'stop'), ('segtimeline', 'tsbd')):
            for k, sk in enumerate(({}, {'types': ('audio', 'subtitles', 'video'), 'templates': 2,
                                         'before': ('ProgramInformation', 'BaseURL')}, {'stored': ('presentationTimeOffset',)})):
                if k == 2 and ('peroff' in ks or 'segtimeline' in ks or 'segtimelinenr' in ks):
                    continue
                lit = {i: {'utc': 'head', 'chunkdur': '0.5', 'tsbd': '60', 'start': '0', 'stop': '100000'}.get(x, '1')
                       for i, x in enumerate(ks) if x not in ('tsbd', 'start', 'stop')}
                nm = "%d periods %s%s" % (n, " ".join(ks), ", stored manifest %d" % k if k else "")
                ctx.obligation(nm, where, lambda: announce(ctx, nm, ks, lit, dict(sk, plain=('timescale',)), n, gen), 30)
    for n in (1, 2, 3):
        for ks in ((), ('peroff',), ('continuous',), ('segtimeline',), ('scte35',)):
            for etp, call in (((0,), ()), ((), (0,)), ((n - 1,), (n - 1,)), (range(n), range(n)), ((), ())):
                lit = {i: '1' for i, x in enumerate(ks)}
                nm = "%d periods %s, terminated early %s, events %s" % (n, " ".join(ks), list(etp), list(call))
                ctx.obligation(nm, where, lambda: announce(ctx, nm, ks, lit, {'plain': ('timescale',)}, n, gen, etp, call), 30)
    for n in (1, 2):
        for ks in ((), ('peroff',), ('continuous',), ('segtimeline',), ('segtimelinenr',), ('chunkdur',), ('snr',)):
            lit = {i: '1' for i, x in enumerate(ks) if x != 'snr'}
            nm = "%d periods from time zero %s" % (n, " ".join(ks))
            ctx.obligation(nm, where, lambda: announce(ctx, nm, ks, lit, {'plain': ('timescale',)}, n, gen, zero=True), 30)


def period_list(n, etp=(), call=(), zero=False):
    """n periods with any values in place of the computed list"""
    data = [{k: t.var('P%d_%s' % (i, k), 'i') for k in ('start', 'startNumber', 'presentationTimeOffset', 'period_duration_s',
                                                        'etpDuration')} for i in range(n)]
    if zero:
        data[0].update(start=ZERO, startNumber=ZERO, presentationTimeOffset=ZERO)

    def periods(I, env, node):
        out = []
        for i, d in enumerate(data):
            e = {'id': K('p%d' % (7 + i)), 'start': t.cat('s', [K('PT'), t.conv('d', d['start']), K('S')]),
                 'startNumber': t.conv('d', d['startNumber']), 'duration': DUR, 'start_s': d['start'],
                 'presentationTimeOffset': d['presentationTimeOffset']}
            if i < n - 1:
                e['period_duration_s'] = d['period_duration_s']
            if i in etp:
                e['etpDuration'] = d['etpDuration']
            if i in call:
                e['mpdCallback'] = t.ONE
            out.append(mk('gi', TRUE, I.newref(Obj('dict', d={K(k): v for k, v in e.items()}))))
        return I.new_list(out)
    facts = [(t.cmp_le(t.ONE, d['startNumber'], False), True) for d in data[zero:]]
    facts += [(t.cmp_le(t.ONE, d['presentationTimeOffset'], False), True) for d in data[zero:]]
    return data, periods, facts


def announce(ctx, nm, ks, lit, sk, n, gen, etp=(), call=(), zero=False):
    where = PROC + '.update_periods'
    data, periods, facts = period_list(n, etp, call, zero)
    facts += [has_media('video'), has_media('audio')]
    tr = manifest(ctx, ks, with_numbers(ks, lit), facts, sk, overrides={gen: periods})
    got = tr.find(tr.root, 'Period')
    count(ctx, nm + ": periods", where, len(got), n)
    kn0 = [x for d in data for x in d.values()]
    timed = 'segtimeline' in ks or 'segtimelinenr' in ks
    for i, (p, d) in enumerate(zip(got, data)):
        ctx.same("%s: id of period %d" % (nm, i), where, tr.attr(p, 'id'), K('p%d' % (7 + i)))
        same = lambda what, x, ref: ctx.same("%s: %s of period %d" % (nm, what, i), where, x, ref, tr.I.loops, facts=tr.facts,
                                             known=tr.known(kn0 + TRACKS + (ref if isinstance(ref, list) else [ref])))
        same('start', tr.attr(p, 'start'), t.cat('s', [K('PT'), t.conv('d', d['start']), K('S')]))
        same('duration', tr.attr(p, 'duration'),
             t.cat('s', [K('PT'), t.conv('d', d['etpDuration']), K('S')]) if i in etp else NONE)
        count(ctx, "%s: callback events of period %d" % (nm, i), where,
              len([e for e in tr.find(p, 'EventStream') if tr.attr(e, 'schemeIdUri') is K('urn:mpeg:dash:event:callback:2015')]),
              1 if i in call else 0)
        base = tr.find(p, 'SegmentBase')
        if 'peroff' in ks:
            same('presentationTimeOffset', read_int(tr.attr(base[0], 'presentationTimeOffset') if base else NONE, ZERO),
                 d['presentationTimeOffset'])
        else:
            count(ctx, nm + ": SegmentBase", where, len(base), 0)
        sets = tr.find(p, 'AdaptationSet')
        count(ctx, "%s: adaptation sets of period %d" % (nm, i), where, [t.show(tr.attr(a, 'contentType')) for a in sets],
              [t.show(K(c)) for c in sk.get('types', ('video', 'audio'))])
        for a in sets:
            props = [t.show(tr.attr(e, 'value')) for e in tr.find(a, 'SupplementalProperty')]
            count(ctx, "%s: continuity of period %d" % (nm, i), where, props,
                  [t.show(K('p%d' % (6 + i)))] if 'continuous' in ks and i else [])
            kind = t.kval(tr.attr(a, 'contentType'))
            for e in tr.find(a, 'SegmentTemplate'):
                if timed and kind in TIMED:
                    track = t.item(MEDIA, K(kind))
                    offset = t.mul(d['presentationTimeOffset'], t.item(track, K('timescale')))
                    for g in tr.find(e, 'SegmentTimeline'):
                        refs = [reference(ctx, tr, 'listed', NOW, d['start'], d['period_duration_s'] if i < n - 1 else NONE, form=fm)
                                for fm in range(3)]
                        for j, x in enumerate(('#start', '#end', '#closest')):
                            ctx.same("%s: %s of period %d" % (nm, x[1:], i), where, tr.attr(g, x), [nth(r, j) for r in refs],
                                     tr.I.loops, facts=tr.facts, known=tr.known(kn0 + refs))
                else:
                    offset = d['presentationTimeOffset']
                    same('startNumber', read_int(tr.attr(e, 'startNumber'), t.ONE), d['startNumber'])
                same('presentationTimeOffset', read_int(tr.attr(e, 'presentationTimeOffset'), ZERO),
                     ZERO if 'peroff' in ks else offset)
    produced(ctx, nm, tr)


def loss(ctx):
    """C28: which manifest is given in sessions with segment loss, and its event streams"""
    gen = 'dashlivesim.dashlib.mpd_proxy.generate_dynamic_mpd'
    ctx.anchor(gen)
    for text, up, down in (('u40_d20', 40, 20), ('u20_d10', 20, 10), ('u10_d5', 10, 5), ('u30_d30', 30, 30), ('u7_d13', 7, 13),
                           ('u25_d15', 25, 15), ('u59_d1', 59, 1), ('u5_d20', 5, 20)):
        for ks, lit in ((('segtimelineloss', 'baseurl'), {0: '1', 1: text}), (('baseurl', 'segtimeline', 'segtimelineloss'),
                                                                               {0: text, 1: '1', 2: '1'}),
                        (('baseurl', 'segtimelineloss'), {0: text, 1: '0'}), (('baseurl', 'segtimeline'), {0: text, 1: '1'})):
            nm = "manifest, %s" % " ".join("%s_%s" % (k, lit[i]) for i, k in enumerate(ks))
            active = lit[ks.index('segtimelineloss')] == '1' if 'segtimelineloss' in ks else False
            ctx.obligation(nm, GET, lambda: lossy(ctx, nm, ks, lit, gen, up if active else 60, down if active else 60), 60)
    for ks, lit in ((('segtimelineloss',), {0: '1'}), (('segtimelineloss', 'segtimeline'), {0: '1', 1: '1'})):
        nm = "manifest, %s" % " ".join(ks)
        ctx.obligation(nm, GET, lambda: lossy(ctx, nm, ks, lit, gen, 60, 60), 60)
    where = PROC + '.update_periods'
    for flag in (True, False):
        for ks, lit in (((), {}), (('segtimelineloss', 'segtimeline'), {0: '1', 1: '1'}),
                        (('scte35',), {0: '1'})):
            for n, sk in enumerate(({}, {'types': ('audio', 'subtitles', 'video')})):
                nm = "event streams%s, %s%s" % (" in the last up second" if flag else "", " ".join(ks) or "no option",
                                                ", other stored manifest" if n else "")
                ctx.obligation(nm, where, lambda: event_streams(ctx, nm, ks, lit, sk, flag, where), 60)


def lossy(ctx, nm, ks, lit, gen, up, down):
    def generate(I, env, node):
        vs = list(env.values())
        if len(vs) != 4:
            raise Undecided("arguments of generate_dynamic_mpd")
        cfg = I.getattr_(vs[0], 'cfg')
        return mk('call', 'MANIFEST_AT', I.reify(vs[3]), I.reify(I.getattr_(cfg, 'emsg_last_seg')))
    tr = manifest(ctx, ks, with_numbers(ks, lit), overrides={gen: generate})
    at = reference(ctx, tr, 'loss', NOW, K(up), K(down))
    ref = mk('call', 'MANIFEST_AT', nth(at, 0), nth(at, 1))
    ctx.same(nm, GET, tr.value, ref, tr.I.loops, facts=tr.facts, known=tr.known([ref, mk('call', 'MANIFEST_AT', NOW, FALSE)]))


def event_streams(ctx, nm, ks, lit, sk, flag, where):
    def last(I, prov):
        I.setattr_(I.getattr_(prov, 'cfg'), 'emsg_last_seg', K(flag))
        return TRUE
    tr = manifest(ctx, ks, with_numbers(ks, lit), [(last, True), has_media('video'), has_media('audio')], sk)
    for p in tr.find(tr.root, 'Period'):
        for a in tr.find(p, 'AdaptationSet'):
            got = [t.show(tr.attr(e, 'schemeIdUri')) for e in tr.find(a, 'InbandEventStream')]
            ev = t.show(K('urn:mpeg:dash:event:2012'))
            count(ctx, "%s: signal for %s" % (nm, t.show(tr.attr(a, 'contentType'))), where,
                  sum(1 for x in got if x == ev), 1 if flag else 0)
