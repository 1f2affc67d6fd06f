"""URL options and session times: the provider a request is answered with, against specs/config.py.

The request is partitioned by the list of option names in the URL; option values, clock, asset data and names are symbolic.
"""
from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO, ite
from ..frame import Undecided
from ..interp import Obj

PROXY = 'dashlivesim.dashlib.dash_proxy.'
CONF = 'dashlivesim.dashlib.configprocessor.'
HINTS = {'first_segment_in_loop': 'i', 'nr_segments_in_loop': 'i', 'segment_duration_s': 'i', 'segment_duration_ms': 'i',
         'default_tsbd_secs': 'i', 'media_data': 'D', 'timescale': 'i', 'representations': 'L[s]'}
VOD = {'first_segment_in_loop': ('VOD_FIRST', 'i'), 'nr_segments_in_loop': ('VOD_NR', 'i'),
       'segment_duration_s': ('VOD_SEGDUR', 'i'), 'default_tsbd_secs': ('VOD_TSBD', 'i')}
CONTENT = 'testpic_2s'
t.PLAIN[t.var('HOST', 's')] = '/_'      # host names


def read_config(I, env, node):
    """the asset configuration file is a source (its format is C24)"""
    self, f = list(env.values())[:2]
    I.emit('readconfig', I.reify(f))
    for k, (n, ty) in VOD.items():
        I.setattr_(self, k, t.var(n, ty))
    I.setattr_(self, 'media_data', t.var('VOD_MEDIA', 'D'))
    return NONE


def value(i, key):
    x = t.var('VALUE%d_%s' % (i, key), 's')
    t.PLAIN[x] = '/'
    return x


def lit(x):
    return K(x) if isinstance(x, str) else x


def number(i, key):
    """an option value that is the decimal text of an unknown integer"""
    return mk('conv', 'd', t.var('NUMBER%d_%s' % (i, key), 'i'))


class Req(object):
    def __init__(self, I, st, v, cfg):
        self.I, self.st, self.prov, self.cfg = I, st, v, cfg

    def attr(self, name, of=None):
        self.I.st = self.st
        return self.I.reify(self.I.getattr_(of or self.cfg, name))


def request(ctx, keys, literal=None, tail=('Manifest.mpd',), content=CONTENT, https=FALSE):
    """the provider for a URL with the given options; returns (error condition value, Req, spec settings or error)"""
    f = ctx.anchor(PROXY + 'createProvider')
    ctx.anchor_cls(CONF + 'ConfigProcessor')
    t.HINTS.update(HINTS)
    I = ctx.interp({CONF + 'VodConfig.read_config': read_config})
    vals = [lit(literal[i]) if literal and i in literal else value(i, k) for i, k in enumerate(keys)]
    tl = [K(x) if isinstance(x, str) else x for x in tail]
    parts = [K('dash')] + [t.cat('s', [K(k + '_'), v]) for k, v in zip(keys, vals)] + \
            [K(content) if isinstance(content, str) else content] + tl
    lst = lambda xs: I.new_list([mk('gi', TRUE, x) for x in xs])
    now = t.var('NOW', 'n')
    st0 = I.st.copy()
    v, st = I.run(f, [t.var('HOST', 's'), lst(parts), t.var('QUERY', 'D'), t.var('VODDIR', 's'),
                      t.var('CONTENTDIR', 's'), now, NONE, https])
    ctx.used(I)
    return I, st0, st, v, vals, parts


def ok_value(x):
    """is the provider created?"""
    if x.op == 'ite':
        return ite(x.args[0], ok_value(x.args[1]), ok_value(x.args[2]))
    if x.op == 'raise':
        return FALSE
    if x.weak:
        return x
    return TRUE


def provider_ref(x):
    if x.op == 'ite':
        return provider_ref(x.args[1]) or provider_ref(x.args[2])
    return x if x.op not in ('raise',) else None


def settings(ctx, name, keys, literal=None, forms=(0,), attrs=None, facts=None):
    """obligation: all settings of the session equal the reference"""
    def go():
        I, st0, st, v, vals, parts = request(ctx, keys, literal)
        where = CONF + 'ConfigProcessor.process_url'
        prov = provider_ref(v)
        if prov is None:
            got, gcfg = v, None
        else:
            got = v
            gcfg = I.getattr_(prov, 'cfg')
        spec = ctx.spec('config')
        refs = []
        for form in forms:
            I.st = st0.copy()
            opts = I.new_list([mk('gi', TRUE, mk('tuple', (K(k), x))) for k, x in zip(keys, vals)])
            r, rst = I.run(spec('settings'), [opts, t.toint(t.var('NOW', 'n')), t.var('VOD_TSBD', 'i'),
                                              t.var('VOD_SEGDUR', 'i'), K(form)])
            refs.append((r, rst))
        ok_ref = ok_value(refs[0][0])
        kn = [x for y in vals if not t.isk(y) for x in (y, mk('call', 'int', y))]        # what the request says is known to both
        ctx.same(name + ": accepted", where, ok_value(got), ok_ref, I.loops, known=kn)
        n = 0
        if gcfg is None or ok_ref is FALSE:
            return
        tables = []
        for r, rst in refs:
            I.st = rst
            tables.append(I.reify(r))
        names = sorted(keys_of(tables[0]))
        if not names:
            raise Undecided("reference settings")
        for a in names:
            if attrs and a not in attrs:
                continue
            I.st = st
            g = only_ok(got, I.reify(I.getattr_(gcfg, a)))
            rs = [pick(x, a) for x in tables]
            if any(g is x for x in rs):
                n += 1
                continue
            ctx.same("%s: %s" % (name, a), where, g, rs, I.loops, facts=facts, known=kn)
        ctx.ok(name + ": settings", where, "%d settings identical in normal form" % n)
    return ctx.obligation(name, CONF + 'ConfigProcessor.process_url', go, 60)


def only_ok(v, x):
    """the value where the provider is created, the exception elsewhere"""
    if v.op == 'ite':
        return ite(v.args[0], only_ok(v.args[1], x), only_ok(v.args[2], x))
    return K('refused') if v.op == 'raise' else (v if v.weak else x)


def keys_of(x):
    if x.op == 'ite':
        return keys_of(x.args[1]) | keys_of(x.args[2])
    if x.op == 'dictt':
        return {k.args[1] for _, k, _ in entries(x)}
    return set()


def entries(x):
    for k, g, v in x.args[0]:
        yield g, k, v


def pick(x, a):
    if x.op == 'ite':
        return ite(x.args[0], pick(x.args[1], a), pick(x.args[2], a))
    if x.op == 'raise':
        return K('refused')
    if x.op == 'dictt':
        for g, k, v in entries(x):
            if k is K(a):
                return v
    raise Undecided("reference table %s" % x.op)


SINGLE = ('init', 'tsbd', 'mup', 'periods', 'xlink', 'etp', 'etpDuration', 'insertad', 'mpdcallback', 'peroff', 'scte35', 'spd',
          'timeoffset', 'continuous', 'segtimeline', 'segtimelinenr', 'sidx', 'segtimelineloss', 'baseurl', 'utc', 'snr',
          'ato', 'chunkdur', 'sts', 'sid', 'start', 'ast', 'startrel', 'stop', 'stoprel', 'dur', 'modulo', 'tfdt', 'cont')


NUMBERS = ('0', '1', '-1', '2', '10', '60', '+5', ' 7', '007', '1_0', '', '-', 'x', '1.5', '1e3', '0x10', '2-3', '1_', '123456789012')
TEXTS = {'ato': NUMBERS + ('inf', 'INF', 'Inf', '-inf', 'infinity', 'nan', '0.5', '-0.5', '.5', '5.', 'inf_', '1,5'),
         'chunkdur': NUMBERS + ('0.5', '0.001', '-0.5', '.5', '0.0', 'inf', '1,5'),
         'utc': ('direct', 'direct-head', 'head-direct', 'direct-direct', 'none', '', '-', 'ntp--sntp', 'Direct', 'keep', 'httpxsdate_x'),
         'baseurl': ('u40_d20', 'u20_d40', 'U1_D1', 'a_b', '', 'd10_u20', '40', 'u40_d20_u10', 'u40-d20'),
         'modulo': ('1', '5', '10', '60', '+5', 'x', '', '1.5'),
         'sts': ('1', 'x', ''), 'sid': ('1', 'x', '')}


@check('C11', "The request provider is analysed for a URL with each documented option (symbolic value, clock and asset "
       "data), for repeated options and for contradicting ones; every attribute of the session is compared with the option "
       "table of the reference, on every path, including the refusals")
def c11(ctx):
    settings(ctx, "no option", ())
    for k in SINGLE:
        settings(ctx, k, (k,))
    settings(ctx, "ato_inf", ('ato',), {0: 'inf'})
    for ks in (('baseurl', 'baseurl'), ('start', 'dur', 'dur'), ('start', 'ast'), ('start', 'modulo'), ('tfdt', 'cont'),
               ('utc', 'snr', 'tsbd', 'spd')):
        settings(ctx, " ".join(ks), ks)
    for k in SINGLE:
        settings(ctx, "%s twice" % k, (k, k))
        for text in TEXTS.get(k, NUMBERS):
            settings(ctx, "%s_%s" % (k, text), (k,), {0: text})
    for name in ('content', 'testpic_2s', 'startup_2', 'Start_3', '_x'):
        location(ctx, "content %s" % name, (), name)
        location(ctx, "option, content %s" % name, ('tsbd',), name)
    located(ctx, "request for a segment", ('tsbd', 'mup'), CONTENT, (t.var('REP', 's'), t.var('FILE', 's')))
    located(ctx, "request in a subdirectory", (), CONTENT, (t.var('DIR', 's'), t.var('REP', 's'), t.var('FILE', 's')))
    representations(ctx)


def location(ctx, name, keys, content):
    """option parsing stops at the content name; the rest of the URL is path and file"""
    return located(ctx, name, keys, content, ('Manifest.mpd',))


def located(ctx, name, keys, content, tail):
    def go():
        I, st0, st, v, vals, parts = request(ctx, keys, None, tail, content)
        where = CONF + 'Config.update_with_filedata'
        I.st = st0.copy()
        lst = I.new_list([mk('gi', TRUE, x) for x in parts[1:]])
        base = t.cat('s', [K('http://'), t.var('HOST', 's'), K('/dash/')])
        r, rst = I.run(ctx.spec('config')('place'), [base, lst, K(len(keys))])
        ref = I.reify(r)
        I.st = st
        cfg = I.getattr_(provider_ref(v), 'cfg')
        for a in ('content_name', 'base_url', 'rel_path', 'filename'):
            I.st = st
            ctx.same("%s: %s" % (name, a), where, only_ok(v, I.reify(I.getattr_(cfg, a))), pick(ref, a), I.loops)
        I.st = st
        ctx.same("%s: extension" % name, where, only_ok(v, I.reify(I.getattr_(cfg, 'ext'))),
                 only_ok(ref, t.item(mk('call', 'os.path.splitext', tail[-1]), K(1)) if tail[-1] != 'Manifest.mpd'
                         else K('.mpd')), I.loops)
    return ctx.obligation(name, CONF + 'Config.update_with_filedata', go, 60)


def representations(ctx):
    """the representation part of the URL names one or two (multiplexed) representations of the asset"""
    def go():
        for rep, n in ((t.var('REP', 's'), None), (K('V1'), 1), (K('A1__V1'), 2)):
            I, st0, st, v, vals, parts = request(ctx, (), None, (rep, '7.m4s'))
            I.st = st
            got = only_ok(v, I.reify(I.getattr_(I.getattr_(provider_ref(v), 'cfg'), 'reps')))
            I.st = st0.copy()
            r, rst = I.run(ctx.spec('config')('reps'), [rep, t.var('VOD_MEDIA', 'D')])
            ctx.same("representations %s" % t.show(rep), CONF + 'Config.update_with_reps', got, only_ok(r, I.reify(r)), I.loops)
    return ctx.obligation("representations", CONF + 'Config.update_with_reps', go, 60)


@check('C29', "The request provider is analysed for every combination class of the time options (start/ast, stop, startrel, "
       "stoprel, one to three dur, mup, tfdt, cont, tsbd, in several orders); start, end, durations, update period, window "
       "and last segment number of the session are compared with the reference for symbolic values and clock")
def c29(ctx):
    combos = [('start',), ('ast',), ('start', 'stop'), ('stop', 'start'), ('startrel', 'stoprel'), ('start', 'stoprel'),
              ('start', 'dur'), ('dur', 'start'), ('start', 'dur', 'dur'), ('start', 'mup', 'dur', 'dur'),
              ('start', 'dur', 'dur', 'dur'), ('mup', 'start', 'dur', 'dur', 'dur'), ('tfdt',), ('tfdt', 'start'), ('cont',),
              ('cont', 'start'), ('mup', 'start'), ('start', 'stop', 'tsbd'), ('start', 'stop', 'dur'), ('tfdt', 'mup'),
              ('stop',), ('dur',), ('tsbd', 'start'), ()]
    for ks in combos:
        settings(ctx, " ".join(ks) or "no option", ks, forms=(0, 1, 2) if 'stop' in ks or 'stoprel' in ks else (0,),
                 attrs=TIMES)
        published(ctx, " ".join(ks) or "no option", ks)


TIMES = {'availability_start_time_in_s', 'availability_end_time', 'media_presentation_duration', 'start_time', 'stop_time',
         'minimum_update_period_in_s', 'timeshift_buffer_depth_in_s', 'last_segment_numbers'}


def published(ctx, name, keys):
    """publishTime: the last update time of the manifest"""
    def go():
        I, st0, st, v, vals, parts = request(ctx, keys)
        cfg = I.getattr_(provider_ref(v), 'cfg')
        at = lambda a: only_ok(v, I.reify(I.getattr_(cfg, a)))
        I.st = st
        ast, mup, got = at('availability_start_time_in_s'), at('minimum_update_period_in_s'), at('publish_time')
        ref = ite(t.eq(ast, ZERO), ZERO, t.mul(mup, t.fdiv(t.toint(t.var('NOW', 'n')), mup)))
        ctx.same(name + ": publish time", CONF + 'Config.update_publish_time', got, ref, I.loops)
    if keys in (('start',), ('mup', 'start'), ('cont',), ()):
        ctx.obligation(name + ": publish time", CONF + 'Config.update_publish_time', go, 30)


@check('C19', "The request provider is analysed for a modulo session with symbolic interval length and clock: start, "
       "presentation duration, update period, end and last segment number are compared with the documented table")
def c19(ctx):
    for ks in (('modulo',), ('modulo', 'mup'), ('modulo', 'tsbd'), ('tsbd', 'modulo')):
        settings(ctx, " ".join(ks), ks, attrs=TIMES)
    for n in ('1', '10', '60'):
        settings(ctx, "modulo_%s" % n, ('modulo',), literal={0: n}, attrs=TIMES)


def c15(ctx):
    from . import wsgi
    for scheme, s in ((TRUE, 'https'), (FALSE, 'http')):
        def go():
            I, st0, st, v, vals, parts = request(ctx, ('tsbd',), https=scheme)
            I.st = st
            prov = provider_ref(v)
            root = t.cat('s', [K(s + '://'), t.var('HOST', 's'), K('/dash/tsbd_'), vals[0], K('/' + CONTENT + '/')])
            ctx.same("base URL (%s)" % s, CONF + 'Config.update_with_filedata',
                     I.reify(I.getattr_(I.getattr_(prov, 'cfg'), 'base_url')), root, I.loops)
            ctx.same("time server URL (%s)" % s, PROXY + 'DashProvider.__init__', I.reify(I.getattr_(prov, 'utc_head_url')),
                     t.cat('s', [K(s + '://'), t.var('HOST', 's'), K('/dash/time.txt')]), I.loops)
        ctx.obligation("base URL (%s)" % s, PROXY + 'DashProvider.__init__', go, 30)
    for ext in wsgi.EXTS:
        for opt in (wsgi.OPTIONAL, ()):
            def prov_args():
                got, ref, loops, where = wsgi.run(ctx, ZERO, ext, 'text', False, opt)
                a, b = wsgi.provider_args(got), wsgi.provider_args(ref)
                nm = "%s%s" % (ext, "" if opt else ", no scheme in the environment")
                if len(a) != len(b):
                    raise Undecided("signature of createProvider")
                for i, what in ((0, 'host'), (-1, 'scheme')):
                    ctx.same("%s: %s" % (nm, what), where, a[i], b[i], loops)
            ctx.obligation("provider arguments %s" % ext, wsgi.MOD + 'application', prov_args, 30)
