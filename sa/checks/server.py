"""Effects of serving a request: no state between requests, only files below the roots, nothing written.

A whole-program points-to and provenance analysis (sa/effects.py) from the WSGI entry point.
"""
import ast

from . import check
from .. import terms as t
from ..terms import mk, K, TRUE, FALSE
from ..effects import Analysis, Frame, S, S0
from ..frame import Undecided
from .config import request, ok_value, CONF, PROXY, CONTENT, located

ENTRY = 'dashlivesim.mod_wsgi.mod_dashlivesim.application'
ROOTS = {'CONTENT_ROOT': 'content root', 'VOD_CONF_DIR': 'configuration directory'}
CHECKED = {'content_name', 'rel_path', 'filename', 'ext', 'base_url'}
OPENERS = {'open': 0, 'io.open': 0, 'codecs.open': 0, 'os.open': 0, 'xml.etree.ElementTree.parse': 0,
           'xml.etree.ElementTree.iterparse': 0, 'os.listdir': 0, 'os.scandir': 0, 'os.walk': 0, 'glob.glob': 0,
           'glob.iglob': 0, 'gzip.open': 0, 'bz2.open': 0, 'lzma.open': 0, 'linecache.getline': 0, 'linecache.getlines': 0,
           'numpy.fromfile': 0, 'pathlib.Path': 0, 'zipfile.ZipFile': 0, 'tarfile.open': 0, 'mmap.mmap': 0,
           'runpy.run_path': 0, 'shelve.open': 0, 'dbm.open': 0, 'sqlite3.connect': 0, 'os.path.getsize': 0, 'os.stat': 0,
           'os.path.exists': 0, 'os.path.isfile': 0, 'os.path.isdir': 0, 'os.path.getmtime': 0, 'os.access': 0}
READ_METHODS = {'.read': 1, '.parse': 1, '.open': None}      # of library objects, with a text argument
READ_MODES = {'r', 'rb', 'rt', 'br', 'tr', 'rU'}
WRITES = {'os.remove', 'os.unlink', 'os.rename', 'os.renames', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir',
          'os.removedirs', 'os.symlink', 'os.link', 'os.truncate', 'os.chmod', 'os.chown', 'os.system', 'os.popen', 'os.fork',
          'os.kill', 'os.killpg', 'os.startfile', 'os.mkfifo', 'os.mknod', 'os.utime', 'os.write', 'os.creat', 'os.execv',
          'os.execve', 'os.execvp', 'os.execl', 'os.execlp', 'os.spawnl', 'os.spawnv', 'os.spawnlp', 'os.spawnvp',
          'os.posix_spawn', 'os.abort', 'os._exit', 'os.setuid', 'os.setgid', 'os.chroot', 'os.mount', 'eval', 'exec',
          'compile', 'pickle.load', 'pickle.loads', 'marshal.loads', 'pty.spawn', 'shelve.open', 'dbm.open',
          'sqlite3.connect', 'importlib.import_module', '__import__', 'runpy.run_path', 'runpy.run_module',
          'logging.FileHandler', 'logging.basicConfig', 'logging.handlers.RotatingFileHandler', 'numpy.save', 'os.mkstemp'}
WRITE_PREFIX = ('shutil.', 'subprocess.', 'tempfile.', 'ctypes.', 'multiprocessing.', 'ftplib.', 'smtplib.')
WRITE_METHODS = {'write_text', 'write_bytes', 'unlink', 'rmdir', 'touch', 'symlink_to', 'hardlink_to', 'link_to', 'chmod'}


def converts(cls, attr, vals):
    """the checked fields of the session: their parts are proved harmless by the obligations on the URL"""
    if cls.name == 'Config' and attr in CHECKED:
        return frozenset(S((x[1] - {'request'}) | {'checked'}, None) if x[0] == 'str' and 'request' in x[1] else x
                         for x in vals)
    return vals


def loads(key, vals):
    """the identity of a representation of the session: proved to be one that the configuration lists"""
    if key == 'id' and any(x[0] == 'str' and 'request' in x[1] for x in vals):
        return frozenset(S((x[1] - {'request'}) | {'listed'}, None) if x[0] == 'str' and 'request' in x[1] else x
                         for x in vals)
    return vals


def analysis(ctx):
    if 'effects' in ctx.cache:
        return ctx.cache['effects']
    f = ctx.anchor(ENTRY)
    an = Analysis(ctx.program, converts, loads)
    fr = Frame(f, ('entry',), f.module, False)
    env = an.obj('dict', 'request environment', f.node, fr, 'environment')
    env.label = lambda c: frozenset([S([ROOTS.get(c, 'request')])])
    ps = f.params()
    if len(ps) < 2:
        raise Undecided("signature of application")
    an.run(f, {ps[0]: frozenset([('obj', env)]), ps[1]: frozenset([('ext', 'start_response')])})
    ctx.functions.update(an.reached)
    ctx.callsites += an.callcount
    ctx.counts.update({'contexts': len(an.order), 'abstract_objects': len(an.objs), 'points_to_sets': len(an.heap),
                       'static_objects': sum(1 for o in an.objs.values() if o.static)})
    ctx.notes.extend(sorted(an.notes)[:40])
    if any(n.startswith("no fixpoint") for n in an.notes):
        raise Undecided("points-to analysis did not reach its fixpoint")
    ctx.cache['effects'] = an
    return an


def sound(ctx, an):
    """the analysis has followed the request into the parts that serve it"""
    for q in ('dash_proxy.process_media_segment', 'dash_proxy.process_init_segment', 'dash_proxy.process_thumbnail',
              'mpd_proxy.generate_dynamic_mpd', 'mpdprocessor.MpdProcessor.process', 'mediasegmentfilter.MediaSegmentFilter',
              'segtimeline.SegmentTimeLineGenerator', 'chunker.chunk', 'configprocessor.ConfigProcessor.process_url'):
        full = 'dashlivesim.dashlib.' + q
        if ctx.program.func(full) is None and ctx.program.cls(full) is None:
            continue        # renamed: nothing to compare with
        if not any(r == full or r.startswith(full + '.') for r in an.reached):
            ctx.undecided("reach %s" % q, full, "not reached by the call graph")


@check('C12', "Whole-program points-to analysis from the WSGI entry point: every store, deletion, in-place operator, mutating "
       "method call, iterator consumption and library call with an effect on its argument, in every function reached, is an "
       "obligation that none of the objects it may change was made at import (module or class level value, default argument, "
       "decorator closure), that no module, class or function attribute is assigned, no process-wide setting is changed and "
       "no result is cached across requests",
       "points-to and effect analysis")
def c12(ctx):
    def go():
        an = analysis(ctx)
        sound(ctx, an)
        by = {}
        for kind, where, detail in an.events:
            if kind in ('state', 'cache'):
                by.setdefault(where, set()).add(detail)
        for where, details in sorted(by.items()):
            ctx.violation("no state between requests", where, "; ".join(sorted(details)))
        reached = {}
        for q in sorted(an.reached):
            f = ctx.program.func(q)
            if f is None:
                continue
            reached.setdefault(f.module.name, []).append(q)
        for m, qs in sorted(reached.items()):
            bad = [w for w in by if w.startswith(m.split(".", 1)[-1].replace(".", "/") + ".py:")]
            if not bad:
                ctx.ok("functions of %s change only objects of their own request" % m, m, "%d functions" % len(qs))
        for o in sorted({(o.where, o.kind) for o in an.objs.values() if o.static and o.kind in ('list', 'dict', 'set', 'ext', 'inst')}):
            if not any(o[0] in d for ds in by.values() for d in ds):
                ctx.ok("%s made at import is never changed by a request" % o[1], o[0])
    return ctx.obligation("effects", ENTRY, go, 400)


def text(vals):
    return [x for x in vals if x[0] == 'str']


@check('C13', "Abstract evaluation of the request URL for every hostile part ('', '.', '..') in every position after the "
       "options: no session is created and no configuration file is opened. Provenance analysis of every path that is opened "
       "by a function reachable from the WSGI entry point: it is composed of a configured root, checked parts of the session, "
       "values of the configuration file, constants and numbers; files are opened for reading only and no reachable call "
       "writes, deletes, renames or executes",
       "provenance and effect analysis, abstract evaluation")
def c13(ctx):
    def go():
        an = analysis(ctx)
        sound(ctx, an)
        sites = {}
        consts = set()
        for name, args, kw, fr, node in an.reads:
            base = name
            where = an.where(fr, node)
            if name in OPENERS:
                vals = args[OPENERS[name]] if len(args) > OPENERS[name] else kw.get('file', kw.get('source', frozenset()))
                key = (where, base)
                sites.setdefault(key, [set(), set(), False])
                objs = [x for x in vals if x[0] == 'obj']
                tx = text(vals)
                if name.endswith('.parse') and any(o[1].kind == 'ext' and 'IO' in str(o[1].what) for o in objs):
                    tx = [x for x in tx if x[1]]
                if not tx and not objs:
                    sites[key][2] = True
                for x in tx:
                    sites[key][0].add(x[1])
                    if x[2]:
                        consts.add(key)
                if name in ('open', 'io.open', 'codecs.open', 'gzip.open'):
                    mv = args[1] if len(args) > 1 else kw.get('mode')
                    if mv is None:
                        sites[key][1].add('r')
                    else:
                        for x in mv:
                            sites[key][1].add(x[2] if x[0] == 'str' else None)
                        if not mv:
                            sites[key][1].add(None)
                elif name == 'os.open':
                    sites[key][1].add(None)
            elif name in READ_METHODS and READ_METHODS[name] is not None and len(args) > 1:
                recv = [x for x in args[0] if x[0] == 'obj']
                if not any(o[1].kind == 'ext' and ('arser' in str(o[1].what) or 'ElementTree' in str(o[1].what)) for o in recv):
                    continue
                key = (where, base)
                sites.setdefault(key, [set(), set(), False])
                tx = text(args[1])
                for x in tx:
                    sites[key][0].add(x[1])
                if not tx:
                    sites[key][2] = True
            elif name == '.open' and any(x[0] == 'obj' and str(x[1].what).startswith('pathlib') for x in args[0]):
                mv = args[1] if len(args) > 1 else kw.get('mode', frozenset())
                for x in text(mv):
                    if x[2] not in READ_MODES:
                        ctx.violation("nothing is written", where, "opened with mode %r" % (x[2],))
            elif name == '.write' and len(args) > 1:
                recv = [x for x in args[0] if x[0] == 'obj' and x[1].kind == 'ext']
                if any('ElementTree' in str(o[1].what) for o in recv) and not any(x[0] == 'obj' for x in args[1]) \
                        and text(args[1]):
                    ctx.violation("nothing is written", where, "an element tree is written to a path")
        for (where, name), (paths, modes, unknown) in sorted(sites.items()):
            nm = "%s at %s" % (name, where.split(" ", 1)[-1])
            bad = [p for p in paths if 'request' in p]
            dec = [p for p in paths if 'decoded' in p and ('request' in p or 'checked' in p)]
            rooted = [p for p in paths if p & set(ROOTS.values())]
            out = [p for p in paths if not (p & set(ROOTS.values())) and (p or not rooted or (where, name) in consts)]
            if bad:
                ctx.violation("path: " + nm, where, "the path is made of unchecked parts of the request (%s)" % (
                    ", ".join(sorted(bad[0]))))
            elif dec:
                ctx.violation("path: " + nm, where, "a checked part of the URL is decoded or rewritten after the check")
            elif out:
                ctx.violation("path: " + nm, where, "the path is not below a configured root (parts: %s)" % (
                    ", ".join(sorted(out[0])) or "constants only"))
            elif unknown and not paths:
                ctx.undecided("path: " + nm, where, "provenance of the path not determined")
            elif paths:
                ctx.ok("path: " + nm, where, "; ".join(sorted(", ".join(sorted(p)) for p in paths)))
            for m in sorted(modes, key=str):
                if m is None:
                    ctx.undecided("mode: " + nm, where, "mode is not a constant")
                elif m not in READ_MODES:
                    ctx.violation("mode: " + nm, where, "opened with mode %r" % m)
                else:
                    ctx.ok("mode: " + nm, where, m)
        n = 0
        for name, places in sorted(an.extcalls.items()):
            last = name.split(".")[-1]
            n += len(places)
            if name in WRITES or name.startswith(WRITE_PREFIX) or (last in WRITE_METHODS and "." in name) \
                    or (name.startswith('pathlib.') and last in ('mkdir', 'rename', 'replace')):
                if name == 'compile':
                    continue
                for w in sorted(places):
                    ctx.violation("no effects on the system", w, "calls %s" % name)
        ctx.ok("no effects on the system: library calls examined", ENTRY, "%d library functions, %d call sites" % (
            len(an.extcalls), n))
        ctx.counts['file_sites'] = len(sites)
    ctx.obligation("effects", ENTRY, go, 400)

    # the URL
    text_ = lambda n: t.cat('s', [K('x'), t.var(n, 's')])
    tails = [(), (text_('FILE'),), (text_('REP'), text_('FILE')), (text_('DIR'), text_('REP'), text_('FILE')),
             (text_('DIR'), text_('DIR2'), text_('REP'), text_('FILE'))]
    optsets = [(), ('tsbd',)] + ([('start', 'stop'), ('ato',), ('baseurl',), ('segtimeline', 'mup')]
                                 if ctx.tier == 'thorough' else [])
    for keys in optsets:
        for tail in tails:
            for hostile in ('', '.', '..'):
                for pos in range(len(tail) + 1):
                    refuse(ctx, keys, tail, pos, hostile)
    located(ctx, "URL parts are used as they are", ('tsbd',), CONTENT, (t.var('DIR', 's'), t.var('REP', 's'), t.var('FILE', 's')))
    located(ctx, "URL parts are used as they are, no directory", (), CONTENT, (t.var('FILE', 's'),))
    listed(ctx)


def opened(I):
    """(condition, event) of files opened on the paths analysed"""
    from ..interp import EV
    out = []
    for g in I.wobj(EV).d:
        if g.op == 'gi' and g.args[1].op == 'ev' and g.args[1].args[0] in ('readconfig', 'open'):
            out.append((g.args[0], g.args[1]))
        elif g.op != 'gi':
            raise Undecided("events of a loop")
    return out


def refuse(ctx, keys, tail, pos, hostile):
    parts = [K(CONTENT)] + list(tail)
    parts[pos] = K(hostile)
    name = "%r as part %d of %d%s" % (hostile, pos + 1, len(parts), " after " + " ".join(keys) if keys else "")
    where = CONF + 'ConfigProcessor.process_url'

    def go():
        I, st0, st, v, vals, _ = request(ctx, keys, None, tuple(parts[1:]), parts[0])
        ctx.same(name + ": refused", where, ok_value(v), FALSE, I.loops)
        I.st = st
        early = [e for e in opened(I) if e[0] is not FALSE]
        if early:
            ctx.violation(name + ": nothing opened before", where, "a file is opened before the part is refused")
    return ctx.obligation(name, where, go, 60)


def listed(ctx):
    """only representations that the configuration lists get a session (their names are used in paths)"""
    def go():
        from .config import provider_ref, only_ok
        for rep in (t.var('REP', 's'), K('A1__..'), K('..__V1')):
            I, st0, st, v, vals, parts = request(ctx, (), None, (rep, '7.m4s'))
            I.st = st
            got = only_ok(v, I.reify(I.getattr_(I.getattr_(provider_ref(v), 'cfg'), 'reps')))
            I.st = st0.copy()
            r, rst = I.run(ctx.spec('config')('reps'), [rep, t.var('VOD_MEDIA', 'D')])
            ctx.same("representation %s is one of the configuration" % t.show(rep), CONF + 'Config.update_with_reps', got,
                     only_ok(r, I.reify(r)), I.loops)
    return ctx.obligation("representations", CONF + 'Config.update_with_reps', go, 60)
