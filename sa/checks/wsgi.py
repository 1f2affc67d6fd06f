"""The WSGI entry point: effects (start_response, body chunks, sleeps) against specs/wsgi.py.

The analysis is partitioned by the extension of the request and by the abstract kind of the value that the content
function returns (bytes, text, refusal, other dict, chunks, exception), so every partition has a small decision tree.
"""
import ast

from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO, ite, not_, and_, or_
from ..compare import ANYTHING, Facts, assume
from ..frame import Undecided
from ..interp import EV, Obj

MOD = 'dashlivesim.mod_wsgi.mod_dashlivesim.'
PROXY = 'dashlivesim.dashlib.dash_proxy.'
HINTS = {'HTTP_HOST': 's', 'REQUEST_URI': 's', 'VOD_CONF_DIR': 's', 'CONTENT_ROOT': 's', 'HTTP_RANGE': 's',
         'QUERY_STRING': 's', 'path': 's', 'query': 's', 'ext': 's', 'wsgi.url_scheme': 's',
         'chunk_duration_in_s': 'n?', 'chunks': 'L', 'seg_start': 'n', 'cfg': 'O'}
EXTS = ('.m4s', '.mpd', '.period', '.mp4', '.jpg')
KINDS = ('bytes', 'text', 'empty', 'refused', 'dict', 'exception')


def content(name, kind):
    """the content function is a source: its value has the given kind and is otherwise unknown"""
    def h(I, env, node):
        args = [I.reify(v) for v in env.values()]
        I.emit('content', K(name), *args)
        if kind == 'exception':
            I.raise_('Exception')
        if kind == 'empty':
            return K(b'')
        if kind == 'bytes':
            return t.var('BODY', 'b')
        if kind == 'text':
            return t.var('BODYTEXT', 's')
        if kind == 'chunks':
            return mk('ntval', 'ChunkedSegment', (('seg_start', t.var('SEG_START', 'n')),
                                                  ('chunks', t.var('CHUNKS', 'L[b]'))))
        pl = t.var('REASON', 's') if kind == 'refused' else t.var('BODYTEXT', 's')
        return I.newref(Obj('dict', d={K('pl'): pl, K('ok'): FALSE if kind == 'refused' else TRUE}))
    return h


def provider(ext, fails):
    def h(I, env, node):
        names = list(env)
        vals = [I.reify(I.truth(v)) if k == names[-1] else I.reify(v) for k, v in env.items()]
        I.emit('provider', *vals)
        if fails:
            I.raise_('Exception')
        p = I.sym('prov', PROXY + 'DashProvider')
        c = I.sym('cfg', 'dashlivesim.dashlib.configprocessor.Config')
        I.setattr_(p, 'cfg', c)
        I.setattr_(c, 'ext', K(ext))
        return p
    return h


def byterange(I, env, node):
    """result of the range function, which is decided on its own"""
    args = [I.reify(v) for v in env.values()]
    if len(args) != 2:
        raise Undecided("signature of handle_byte_range changed")
    if args[0].op == 'ntval':
        I.emit('rangechunks')
    h = t.var('RANGEHEADER', 's')
    return mk('tuple', (ite(t.truth(h), t.var('RANGED', 'b'), args[0]), h))


ENV = ('HTTP_HOST', 'REQUEST_URI', 'VOD_CONF_DIR', 'CONTENT_ROOT')
OPTIONAL = ('wsgi.url_scheme', 'QUERY_STRING')


def run(ctx, limit, ext, kind, ranged=False, optional=OPTIONAL):
    """event sequences (code, reference) of one partition"""
    f = ctx.anchor(MOD + 'application')
    for q in ('createProvider', 'get_media', 'get_init'):
        ctx.anchor(PROXY + q)
    ctx.anchor('dashlivesim.dashlib.mpd_proxy.get_mpd')
    spec = ctx.spec('wsgi')
    t.HINTS.update(HINTS)
    sid = lambda I, env, node: t.var('SESSION_ID', 's')
    ov = {PROXY + 'createProvider': provider(ext, kind == 'noprovider'),
          PROXY + 'get_media': content('media', kind), PROXY + 'get_init': content('init', kind),
          'dashlivesim.dashlib.mpd_proxy.get_mpd': content('mpd', kind),
          'dashlivesim.dashlib.sessionid.generate_session_id': sid,
          'spec.wsgi.SESSION_ID': sid}
    if ctx.program.func(MOD + 'handle_byte_range'):
        ov[MOD + 'handle_byte_range'] = ov['spec.wsgi.handle_range'] = byterange
    I = ctx.interp(ov, {MOD + 'MAX_SESSION_LENGTH': limit})
    I.call_overrides['time.time'] = lambda I, args, kwargs, e: mk('call', 'time.time', K(0),
                                                                  *[mk('bi', l) for l in I.loopstack])
    keys = ENV + tuple(optional) + (('HTTP_RANGE',) if ranged else ())
    env = I.newref(Obj('dict', d={K(k): t.var(k, 's') for k in keys}))
    sr = t.var('start_response', 'F')
    st0 = I.st.copy()
    out = []
    for fn, extra in ((f, []), (spec('application'), [limit])):
        I.st = st0.copy()
        v, st = I.run(fn, [env, sr] + extra)
        out.append(Obs(I, st, v))
    ctx.used(I)
    return out[0], out[1], I.loops, f.qual


class Obs(object):
    """the observable effects of one request"""
    def __init__(self, I, st, v):
        I.st = st
        self.value = I.reify(v)
        self.items = []
        for x in I.reify(mk('tuple', tuple(st.heap[EV].d))).args[0]:
            flat(x, TRUE, self.items)
        self.weak = [a for g, k, a in self.items if k == 'weak']

    def of(self, *kinds):
        return [(g, a) for g, k, a in self.items if k in kinds]

    def pick(self, kind, fn):
        r = NONE
        for g, a in reversed(self.of(kind)):
            r = ite(g, fn(a), r)
        return r

    def count(self, kind):
        r = ZERO
        for g, a in self.of(kind):
            r = t.add(r, ite(g, K(1), ZERO))
        return r

    def status(self):
        return self.pick('start', lambda a: a[0])

    def header(self, name):
        def look(a):
            hs = a[1]
            r = NONE
            if hs.op not in ('listt', 'tuple'):
                raise Undecided("header list")
            for h in hs.args[0]:
                g, kv = (h.args[0], h.args[1]) if h.op == 'gi' else (TRUE, h)
                if kv.op != 'tuple' or len(kv.args[0]) != 2 or kv.args[0][0].op != 'k':
                    raise Undecided("header entry")
                if kv.args[0][0].args[1].lower() == name.lower():
                    r = ite(g, kv.args[0][1], r)
            return r
        return self.pick('start', look)

    def body(self):
        return self.pick('yield', lambda a: a[0])

    def started_first(self):
        """every body part comes after a start_response"""
        before, r = FALSE, TRUE
        for g, k, a in self.items:
            if k == 'start':
                before = or_(before, g)
            elif k in ('yield', 'loop'):
                if k == 'loop':
                    g = a[0].args[2] if a[0].op == 'each' else TRUE
                r = and_(r, or_(not_(g), before))
        return r


def flat(x, g, out):
    if x.op == 'gi':
        flat(x.args[1], and_(g, x.args[0]), out)
    elif x.op == 'ite':
        flat(x.args[1], and_(g, x.args[0]), out)
        flat(x.args[2], and_(g, not_(x.args[0])), out)
    elif x.op == 'ev':
        kind, args = x.args[0], x.args[1]
        if kind == 'impure':
            return
        if kind == 'call' and args and args[0] is K('traceback.print_exc'):
            return
        if kind == 'call' and args and args[0].op == 'var' and args[0].args[0] == 'start_response':
            kind, args = 'start', args[1:]
        out.append((g, kind, args))
    elif x.op == 'flat':
        flat(x.args[0], g, out)
    elif x.op == 'spread':
        flat(x.args[1], and_(g, x.args[0]), out)
    elif x.op in ('listt', 'tuple') and x.args and isinstance(x.args[0], tuple):
        for y in x.args[0]:
            flat(y, g, out)
    else:
        out.append((g, 'loop', (x,)))


PARTS = {'status': Obs.status, 'content type': lambda o: o.header('Content-Type'),
         'content range': lambda o: o.header('Content-Range'), 'location': lambda o: o.header('Location'),
         'body': Obs.body,
         'stream': lambda o: stream(o)}
PHRASES = ('200 OK', '206 Partial Content', '302 Found', '404 Not Found', '410 Gone')


def stream(o):
    """per chunk: (time waited before it is handed out, what is handed out)"""
    if len(o.of('loop')) != 1 or o.of('yield') or o.of('call'):
        raise Undecided("more than one streaming loop")
    x = o.of('loop')[0][1][0]
    if x.op != 'each':
        raise Undecided("streaming loop not interpreted")
    it, lid, gate, body = x.args
    es = []
    flat(body, TRUE, es)
    wait, out, extra = ZERO, [], ZERO
    for g, k, a in es:
        if k == 'call' and a[0] is K('time.sleep'):
            w = ite(g, ite(t.cmp_le(a[1], ZERO, False), ZERO, a[1]), ZERO)
            if out:
                extra = t.add(extra, w)
            else:
                wait = t.add(wait, w)
        elif k == 'yield':
            out.append(mk('gi', g, a[0]))
        else:
            raise Undecided("effect %s in the streaming loop" % k)
    return mk('listt', (mk('each', it, lid, gate, mk('tuple', (wait, extra, mk('listt', tuple(out))))),))


TEXTS = (t.var('BODY', 'b'), t.var('BODYTEXT', 's'), t.var('REASON', 's'), t.var('RANGED', 'b'))


CFG = t.var('cfg')
# both sides may look at everything the request, the session and the content function provide
KNOWN = (t.var('RANGEHEADER', 's'), t.var('HTTP_RANGE', 's'), t.var('RANGED', 'b'), t.var('CHUNKS', 'L[b]'),
         t.var('SEG_START', 'n')) + TEXTS + tuple(mk('attr', CFG, a) for a in (
             'seg_duration', 'availability_time_offset_in_s', 'availability_start_time_in_s', 'xlink_periods_per_hour',
             'periods_per_hour', 'now', 'now_float', 'reps', 'rel_path', 'filename', 'start_time', 'stop_time')) + tuple(
                 mk('call', f, t.var(k, 's')) for f in ('os.path.splitext', 'urllib.parse.urlparse')
                 for k in ('REQUEST_URI', 'QUERY_STRING')) + (mk('attr', t.var('REQUEST_URI', 's'), 'path'),
                                                              mk('m', 'split', t.var('REQUEST_URI', 's')))


def facts_of(*conds):
    f = Facts()
    for x in TEXTS:
        f = assume(f, mk('truthy', x), True)
    for c, val in conds:
        f = assume(f, c, val)
    return f


def partition(ctx, name, limit, ext, kind, ranged=False, optional=OPTIONAL, parts=('status',), facts=(), consistent=True):
    """obligations of one partition"""
    def go():
        got, ref, loops, where = run(ctx, limit, ext, kind, ranged, optional)
        ctx.require(name + ": chunks are not ranged", not got.of('rangechunks'), where,
                    "the range function is applied to a chunked reply")
        if got.weak:
            raise Undecided("effects not interpreted: %s" % t.show(got.weak[0][0], 4)[:200])
        fs = facts_of(*facts)
        for p in parts:
            ctx.same("%s: %s" % (name, p), where, PARTS[p](got), PARTS[p](ref), loops, facts=fs, known=KNOWN)
        if consistent:
            ctx.same(name + ": status and headers sent once", where, got.count('start'), K(1), loops, facts=fs, known=KNOWN)
            ctx.same(name + ": headers before the body", where, got.started_first(), TRUE, loops, facts=fs, known=KNOWN)
            n = got.header('Content-Length')
            want = sent_length(got)
            if want is not None:
                ctx.same(name + ": content length", where, n, want, loops, facts=fs, known=KNOWN)
            else:
                ctx.same(name + ": no content length", where, n, NONE, loops, facts=fs, known=KNOWN)
        return got, ref, loops, where
    return ctx.obligation(name, MOD + 'application', go, 60)


def sent_length(got):
    if got.of('loop'):
        return None
    return got.pick('yield', lambda a: t.conv('d', t.blen(a[0])))


@check('C14', "The WSGI application is analysed for every partition (extension of the request x kind of value the content "
       "function returns: bytes, text, refusal, positive dict, chunks, exception, provider failure): the number of "
       "start_response calls, their order before body parts, status line, Content-Type, Content-Length and body are "
       "compared with the reference reply; the exception class lattice is checked for handler reachability")
def c14(ctx):
    for ext in EXTS:
        for kind in KINDS + (('chunks',) if ext == '.m4s' else ()):
            parts = ('status', 'content type') + (() if kind in ('exception', 'chunks') else ('body',))
            r = partition(ctx, "%s %s" % (ext, kind), ZERO, ext, kind, parts=parts)
            if r is not None and kind == 'exception':
                got, ref, loops, where = r
                ctx.same("%s %s: body" % (ext, kind), where, t.truth(got.body()), TRUE, loops)
    partition(ctx, "provider failure", ZERO, '.m4s', 'noprovider', parts=('status', 'content type'))
    partition(ctx, "other extension", ZERO, '.xyz', 'bytes', parts=('status', 'content type'))
    raised_classes(ctx)
    partition(ctx, "no query or scheme in the environment", ZERO, '.mpd', 'bytes', optional=(),
              parts=('status', 'content type', 'body'))


SERVER = ('dashlivesim.dashlib', 'dashlivesim.mod_wsgi')


def raised_classes(ctx):
    """every exception that server code raises is caught by 'except Exception'"""
    n = 0
    for m in ctx.program.modules.values():
        if not m.name.startswith(SERVER):
            continue
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Raise) or x.exc is None:
                continue
            e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
            if not isinstance(e, (ast.Name, ast.Attribute)):
                continue
            r = ctx.program.resolve_expr(e, m)
            n += 1
            if r is None:
                continue
            where = "%s line %d" % (m.name, x.lineno)
            if r[0] == 'cls':
                bases = set(ctx.program.ext_bases(r[1]))
                for k in ctx.program.mro(r[1]):
                    bases |= set(ctx.program.ext_bases(k))
                bases = {b.split('.')[-1] for b in bases}
                if bases <= {'object', 'BaseException', 'SystemExit', 'KeyboardInterrupt', 'GeneratorExit'}:
                    ctx.violation("raised exception is an Exception", where, "%s does not derive from Exception" % r[1].qual)
    ctx.counts['raise statements'] = n
    ctx.ok("raised exceptions are Exceptions", "server modules", "%d raise statements" % n)


RANGES = ('bytes=0-', 'bytes=0-0', 'bytes=0-4', 'bytes=4-4', 'bytes=5-4', 'bytes=3-', 'bytes=-3', 'bytes=-0', 'bytes=-100', 'bytes=2-100',
          'bytes=100-200', 'bytes=10-', 'bytes=9-', 'bytes=-', 'bytes=', 'bytes', '', '0-4', 'items=0-4', 'bytes=0-1,2-3', 'bytes=0-,',
          'bytes=,0-1', 'bytes=a-b', 'bytes=0-b', 'bytes=a-4', 'bytes=0-1-2', 'bytes=--1', 'bytes=0', 'bytes= 0-4', 'bytes=0 - 4',
          'bytes=00-04', 'bytes=0-4 ', 'bytes=1.5-4', 'bytes=0-18446744073709551616', 'a=b=1-2', 'BYTES=0-4')


@check('C05', "handle_byte_range is compared, for a symbolic body and a symbolic Range value, with the reference range "
       "selection (returned bytes and Content-Range text on every path); the application is analysed with a Range header "
       "for every kind of reply and its status, headers, Content-Length and body compared with the reference")
def c05(ctx):
    def function():
        f = ctx.anchor(MOD + 'handle_byte_range')
        spec = ctx.spec('wsgi')
        I = ctx.interp()
        args = [t.var('BODY', 'b'), t.var('RANGE', 's')]
        st0 = I.st.copy()
        v, st = I.run(f, list(args))
        got = I.reify(v)
        I.st = st0
        v, st = I.run(spec('handle_range'), list(args))
        ref = I.reify(v)
        ctx.used(I)
        ctx.same("returned bytes", f.qual, tree_item(got, 0), tree_item(ref, 0), I.loops)
        ctx.same("content range text", f.qual, tree_item(got, 1), tree_item(ref, 1), I.loops)
        for text in RANGES:
            for body in (args[0], K(b''), K(b'a'), K(b'0123456789')):
                out = []
                for fn in (f, spec('handle_range')):
                    I.st = st0.copy()
                    out.append(I.reify(I.run(fn, [body, K(text)])[0]))
                for i, what in enumerate(("returned bytes", "content range text")):
                    ctx.same("%s for %s of %s" % (what, text, t.show(body)), f.qual, tree_item(out[0], i), tree_item(out[1], i),
                             I.loops, known=args)
    if ctx.program.func(MOD + 'handle_byte_range'):
        ctx.obligation("range selection", MOD + 'handle_byte_range', function, 100)
    for ext, kind in (('.m4s', 'bytes'), ('.mp4', 'text'), ('.m4s', 'refused'), ('.m4s', 'exception'), ('.mpd', 'dict'),
                      ('.m4s', 'chunks'), ('.jpg', 'bytes')):
        parts = ('status', 'content range') + (() if kind in ('exception', 'chunks') else ('body',))
        partition(ctx, "%s %s with Range" % (ext, kind), ZERO, ext, kind, True, parts=parts)
    partition(ctx, ".m4s bytes without Range", ZERO, '.m4s', 'bytes', parts=('status', 'content range', 'body'))


def tree_item(x, i):
    if x.op == 'ite':
        return ite(x.args[0], tree_item(x.args[1], i), tree_item(x.args[2], i))
    if x.op == 'tuple':
        return x.args[0][i]
    if x.op == 'raise' or x.weak:
        return x
    raise Undecided("result is no tuple")


@check('C26', "The application is analysed with a symbolic session limit (partition limit != 0 and limit == 0): redirect "
       "location, status, body and the condition under which content is produced are compared with the reference on all "
       "paths, for every extension")
def c26(ctx):
    lim = t.var('LIMIT', 'i')
    pos = (t.eq(lim, ZERO), False)
    for ext, kind in (('.mpd', 'text'), ('.m4s', 'bytes'), ('.mp4', 'bytes'), ('.jpg', 'bytes')):
        r = partition(ctx, "limited %s" % ext, lim, ext, kind, parts=('status', 'location', 'body'),
                      facts=[pos])
        if r is not None:
            got, ref, loops, where = r
            served = lambda o: t.or_(*[g for g, a in o.of('provider')])
            ctx.same("limited %s: served" % ext, where, served(got), served(ref), loops, facts=facts_of(pos))
    r = partition(ctx, "unlimited", ZERO, '.mpd', 'text', parts=('status', 'location', 'body'))
    partition(ctx, "limited, no query in the environment", lim, '.mpd', 'text', optional=(),
              parts=('status', 'location'), facts=[pos])


def provider_args(obs):
    r = obs.of('provider')
    if len(r) != 1:
        raise Undecided("provider calls")
    return r[0][1]


if __name__ == '__main__':
    import sys
    from ..frame import Ctx
    sys.setrecursionlimit(30000)
    ctx = Ctx('C14', 'quick', '/repo')
    limit = t.var('LIMIT', 'i') if 'l' in sys.argv[1] else ZERO
    got, ref, loops, where = run(ctx, limit, sys.argv[2], sys.argv[3], 'r' in sys.argv[1])
    for nm, g in (('GOT', got), ('REF', ref)):
        print('=====', nm, t.show(g.value, 4)[:200])
        for ga, k, a in g.items:
            print(k, '::', t.show(ga, 9)[:700], '::', [t.show(y, 8)[:900] for y in a])
