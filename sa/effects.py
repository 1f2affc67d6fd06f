"""Whole-program points-to, effect and path-provenance analysis.

Abstract objects are allocation sites (with the calling context they were reached in); an object is *static* when it is
allocated while a module is imported: module and class level values, default arguments, closures of decorators. Local
variables are flow-sensitive, fields and module variables flow-insensitive. Text values carry provenance labels. The
analysis starts at an entry function and follows every call it resolves. Nothing of the analysed program is executed.
"""
import ast

from .program import Func, Class, Module

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "__setitem__", "__delitem__", "__setattr__", "appendleft", "popleft", "extendleft", "rotate",
            "difference_update", "intersection_update", "symmetric_difference_update", "put", "put_nowait", "send",
            "throw", "__next__", "move_to_end", "subtract", "set", "add_section", "remove_section", "remove_option",
            "write", "writelines", "seek", "truncate", "addHandler", "setLevel", "acquire", "release", "set_default"}
IMMUTABLE_RESULT = {"re.compile", "struct.Struct", "collections.namedtuple", "logging.getLogger", "int", "str", "bytes",
                    "float", "bool", "len", "frozenset", "time.time", "fractions.Fraction", "decimal.Decimal", "ord", "chr",
                    "repr", "hash", "id", "round", "abs", "isinstance", "hasattr", "callable", "issubclass", "pow",
                    "typing.NamedTuple", "range", "hex", "bin", "oct", "format", "operator.itemgetter",
                    "operator.attrgetter", "functools.partial", "datetime.datetime", "datetime.timedelta", "property",
                    "staticmethod", "classmethod", "sum", "divmod", "any", "all", "os.environ.get", "os.getenv"}
NUMERIC_RESULT = {"int", "float", "bool", "len", "ord", "time.time", "round", "abs", "isinstance", "hasattr", "callable",
                  "hash", "id", "issubclass", "any", "all", "math.ceil", "math.floor", "divmod", "calendar.timegm"}
COPIERS = {"list", "tuple", "set", "frozenset", "sorted", "reversed", "iter", "enumerate", "zip", "filter", "map", "dict",
           "copy.copy", "itertools.chain", "itertools.chain.from_iterable", "itertools.islice", "collections.deque",
           "collections.OrderedDict", "collections.defaultdict", "collections.Counter", "itertools.zip_longest",
           "itertools.cycle", "itertools.repeat", "itertools.count", "itertools.accumulate", "itertools.takewhile",
           "itertools.dropwhile", "itertools.tee", "itertools.product"}
ITERATORS = {"iter", "enumerate", "zip", "filter", "map", "reversed", "itertools.chain", "itertools.chain.from_iterable",
             "itertools.islice", "itertools.cycle", "itertools.repeat", "itertools.count", "itertools.accumulate",
             "itertools.takewhile", "itertools.dropwhile", "itertools.tee", "itertools.product", "itertools.zip_longest"}
ARG_MUTATORS = {"bisect.insort": 0, "bisect.insort_left": 0, "bisect.insort_right": 0, "heapq.heappush": 0,
                "heapq.heappop": 0, "heapq.heapify": 0, "heapq.heapreplace": 0, "random.shuffle": 0,
                "xml.etree.ElementTree.SubElement": 0, "struct.pack_into": 1, "next": 0,
                "xml.etree.ElementTree.indent": 0, "operator.setitem": 0, "operator.delitem": 0, "setattr": 0, "delattr": 0}
PROCESS_STATE = {"os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "locale.setlocale", "time.tzset",
                 "signal.signal", "socket.setdefaulttimeout", "sys.setrecursionlimit", "random.seed", "random.setstate",
                 "xml.etree.ElementTree.register_namespace", "warnings.simplefilter", "warnings.filterwarnings",
                 "logging.basicConfig", "sys.setswitchinterval", "builtins.setattr", "decimal.setcontext",
                 "importlib.reload", "atexit.register", "os.environ.update", "os.environ.pop", "os.environ.setdefault",
                 "os.environ.clear", "sys.path.append", "sys.path.insert", "csv.register_dialect", "sys.settrace"}
CACHES = {"functools.lru_cache", "functools.cache", "functools.singledispatch"}
EMPTY = frozenset()


_S = {}
_PLAIN = {}


def S(labels=EMPTY, const=None):
    k = (frozenset(labels), const, type(const))
    v = _S.get(k)
    if v is None:
        v = _S[k] = ('str', k[0], const)
    return v


def plain(vals):
    """the text elements among values, without their constants"""
    v = _PLAIN.get(vals)
    if v is None:
        v = _PLAIN[vals] = frozenset(S(y[1]) for y in vals if y[0] == 'str')
    return v


S0 = S()
NUM = frozenset([('num',)])      # numbers, None and other values without parts; the empty set means "not known (yet)"


class AObj(object):
    __slots__ = ("kind", "what", "static", "where", "label", "key", "depth", "n")

    def __init__(self, kind, what, static, where, key):
        self.kind = kind      # list dict set tuple gen iter inst ext closure
        self.what = what      # Class, dotted name, ...
        self.static = static
        self.where = where
        self.key = key
        self.label = None

    def __repr__(self):
        return "<%s %s %s%s>" % (self.kind, self.what, self.where, " static" if self.static else "")


class Frame(object):
    def __init__(self, func, ctx, module, static, outer=None):
        self.func = func
        self.ctx = ctx
        self.module = module
        self.static = static
        self.outer = outer
        self.globals = set()
        self.nonlocals = set()
        self.loops = []
        self.depth = 0


class Analysis(object):
    MAXSTEPS = 60000
    MAXCTX = 16

    def __init__(self, program, converts=None, loads=None):
        self.program = program
        self.objs = {}
        self.heap = {}
        self.params = {}      # (func key, ctx) -> {param: values}
        self.rets = {}
        self.infos = {}       # (key, ctx) -> Frame template
        self.order = []
        self.dirty = {}
        self.deps = {}
        self.cur = None
        self.reads = []
        self.events = {}      # (kind, where, detail) -> None, in order
        self.extcalls = {}    # dotted -> set of where
        self.callcount = 0
        self.escaped = {}     # closure variables: (key, ctx, name) -> values
        self.notes = set()
        self.converts = converts or (lambda cls, attr, vals: vals)
        self.loads = loads or (lambda key, vals: vals)
        self.reached = set()
        self.imported = set()
        self.recording = False
        self.final = False
        self.stage = 0
        self.fields_of = {}
        self.contexts = {}

    # ------------------------------------------------------------------ objects and heap
    def obj(self, kind, what, node, fr, extra=None):
        key = (kind, id(node), fr.ctx if fr.depth < 3 else fr.static, extra,
               fr.func if fr.func.__class__ is str else id(fr.func.node))
        o = self.objs.get(key)
        if o is None:
            o = self.objs[key] = AObj(kind, what, fr.static, self.where(fr, node), key)
            o.depth = fr.depth
            o.n = len(self.objs)
        return o

    def where(self, fr, node):
        m = fr.module.name.split(".", 1)[-1].replace(".", "/") + ".py"
        f = fr.func if isinstance(fr.func, str) else fr.func.qual.split(fr.module.name + ".", 1)[-1]
        return "%s:%s %s" % (m, getattr(node, "lineno", "?"), f)

    def get(self, o, f):
        self.uses((o, f))
        return self.heap.get((o, f), EMPTY)

    def uses(self, key):
        d = self.deps.get(key)
        if d is None:
            d = self.deps[key] = set()
        d.add(self.cur)

    def touch(self, key):
        for k in self.deps.get(key, ()):
            self.dirty[k] = True

    def put(self, o, f, vals):
        if not vals:
            return
        old = self.heap.get((o, f), EMPTY)
        new = old | vals
        if len(new) != len(old):
            if len(new) > 400:
                new = frozenset(v for v in new if v[0] != 'str') | frozenset([collapse(new)])
                if new == old:
                    return
            self.heap[(o, f)] = new
            self.touch((o, f))
            if f != '[]' and isinstance(f, tuple):
                ks = self.heap.get((o, '#keys'), EMPTY)
                if f not in ks:
                    self.heap[(o, '#keys')] = ks | frozenset([f])
                    self.touch((o, '#keys'))
            if isinstance(o, AObj) and o not in self.fields_of:
                self.fields_of[o] = set()
            if isinstance(o, AObj):
                self.fields_of[o].add(f)

    def elements(self, o):
        out = self.get(o, '[]')
        for k in self.get(o, '#keys'):
            out = out | self.get(o, k)
        return out

    def keys_of(self, o):
        out = set(self.get(o, '[k]'))
        for k in self.get(o, '#keys'):
            if isinstance(k[1], (str, bytes)):
                out.add(S(EMPTY, k[1]))
        return frozenset(out)

    def event(self, kind, fr, node, detail):
        if self.recording:
            self.events.setdefault((kind, self.where(fr, node), detail))

    # ------------------------------------------------------------------ driving
    def run(self, entry, args):
        """entry: Func; args: {param: values}"""
        self.ensure_module(entry.module)
        key = self.demand(entry, ('entry',), args, static=False, outer=None)
        self.steps = 0
        self.solve()
        self.stage = 1
        for k in self.order:
            self.dirty[k] = True
        self.solve()
        self.final = True       # what is still unknown now stays unknown: fall back to names
        for k in self.order:
            self.dirty[k] = True
        self.solve()
        self.recording = True
        for k in list(self.order):
            self.evaluate(k)
        return key

    def solve(self):
        while self.dirty:
            k = next(iter(self.dirty))
            del self.dirty[k]
            self.evaluate(k)
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                self.notes.add("no fixpoint in %d steps" % self.steps)
                break

    def ensure_module(self, m):
        if m.name in self.imported:
            return
        self.imported.add(m.name)
        fr = Frame("<module>", ('mod', m.name), m, True)
        k = ('modbody', m.name)
        self.infos[k] = (None, fr)
        self.order.append(k)
        self.dirty[k] = True

    def demand(self, func, ctx, args, static, outer):
        fk = id(func.node)
        k = (fk, ctx, outer)
        if k not in self.infos:
            self.infos[k] = (func, None)
            self.params[k] = {}
            self.rets[k] = EMPTY
            self.order.append(k)
            self.dirty[k] = True
            self.reached.add(func.qual)
            self.ensure_module(func.module)
        ps = self.params[k]
        for n, v in args.items():
            old = ps.get(n, EMPTY)
            new = old | v
            if n not in ps or len(new) != len(old):
                ps[n] = new
                self.dirty[k] = True
        return k

    def evaluate(self, k):
        func, fr = self.infos[k]
        self.cur = k
        if func is None:
            env = ModEnv(self, fr.module)
            self.block(fr.module.tree.body, env, fr)
            return
        static = k[1][0] == 'static'
        fr = Frame(func, k[1], func.module, static, k[2])
        fr.key = k
        fr.depth = k[1][-1] if isinstance(k[1][-1], int) else 0
        node = func.node
        env = dict(self.params[k])
        if isinstance(node, ast.Lambda):
            self.result(k, self.ev(node.body, env, fr))
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                fr.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
        if func.is_gen:
            fr.gen = self.obj('gen', func.qual, node, fr)
            self.result(k, frozenset([('obj', fr.gen)]))
        fr.key = k
        env = self.block(node.body, env, fr)
        if env is not None:
            if not func.is_gen:
                self.result(k, NUM)
            self.escape(k, env)

    def escape(self, k, env):
        if isinstance(env, ModEnv) or env is None:
            return
        for n, v in env.items():
            kk = (k, n)
            old = self.escaped.get(kk, EMPTY)
            new = old | v
            if len(new) != len(old) or kk not in self.escaped:
                self.escaped[kk] = new
                self.touch(('esc', kk))

    def result(self, k, vals):
        old = self.rets.get(k, EMPTY)
        new = old | vals
        if len(new) != len(old):
            self.rets[k] = new
            self.touch(('ret', k))

    # ------------------------------------------------------------------ statements
    def block(self, body, env, fr):
        """-> env after the block, None when it does not complete"""
        for n in body:
            env = self.stmt(n, env, fr)
            if env is None:
                return None
        return env

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        if isinstance(a, ModEnv):
            return a
        out = dict(a)
        for n, v in b.items():
            o = out.get(n)
            out[n] = v if o is None else (o | v)
        return out

    @staticmethod
    def same_env(a, b):
        if a is None or b is None:
            return a is b
        return isinstance(a, ModEnv) or a == b

    def copy(self, env):
        return env if isinstance(env, ModEnv) else dict(env)

    def stmt(self, n, env, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n, env, fr)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env, fr)
        return env

    def s_Expr(self, n, env, fr):
        self.ev(n.value, env, fr)
        return env

    def s_Pass(self, n, env, fr):
        return env

    def s_Global(self, n, env, fr):
        return env

    s_Nonlocal = s_Global

    def s_Return(self, n, env, fr):
        v = self.ev(n.value, env, fr) if n.value is not None else NUM
        if not getattr(fr, "gen", None):
            self.result(fr.key, v)
        self.leave(env, fr)
        return None

    def leave(self, env, fr):
        if fr.func.__class__ is not str:
            self.escape(fr.key, env)

    def s_Raise(self, n, env, fr):
        if n.exc is not None:
            self.ev(n.exc, env, fr)
        self.leave(env, fr)
        self.thrown(env, fr)
        return None

    def thrown(self, env, fr):
        for acc in fr.loops:
            if acc[0] == 'try':
                acc[1] = self.join(acc[1], self.copy(env))

    def s_Break(self, n, env, fr):
        for acc in reversed(fr.loops):
            if acc[0] == 'loop':
                acc[1] = self.join(acc[1], self.copy(env))
                break
        return None

    def s_Continue(self, n, env, fr):
        for acc in reversed(fr.loops):
            if acc[0] == 'loop':
                acc[2] = self.join(acc[2], self.copy(env))
                break
        return None

    def s_If(self, n, env, fr):
        self.ev(n.test, env, fr)
        if fr.func == "<module>" and isinstance(n.test, ast.Compare) and "__main__" in ast.dump(n.test):
            return env
        a, b = self.narrow(n.test, env, fr)
        a = self.block(n.body, a, fr)
        b = self.block(n.orelse, b, fr)
        return self.join(a, b)

    def narrow(self, test, env, fr):
        return self.copy(env), self.copy(env)

    def loop(self, n, env, fr, bind):
        acc = ['loop', None, None]
        out = None
        for _ in range(8):
            fr.loops.append(acc)
            cur = self.copy(env)
            bind(cur)
            end = self.block(n.body, cur, fr)
            fr.loops.pop()
            nxt = self.join(self.join(self.copy(env), end), acc[2])
            if self.same_env(nxt, env):
                break
            env = nxt
        out = self.block(n.orelse, self.copy(env), fr) if n.orelse else env
        return self.join(out, acc[1])

    def s_For(self, n, env, fr):
        it = self.ev(n.iter, env, fr)
        self.consume(it, fr, n.iter)
        elts = self.iterate(it)
        return self.loop(n, env, fr, lambda e: self.assign(n.target, elts, e, fr))

    s_AsyncFor = s_For

    def s_While(self, n, env, fr):
        out = self.loop(n, env, fr, lambda e: self.ev(n.test, e, fr))
        if isinstance(n.test, ast.Constant) and n.test.value:
            has_break = any(isinstance(x, ast.Break) for x in ast.walk(n))
            return out if has_break else None
        return out

    def s_With(self, n, env, fr):
        for it in n.items:
            v = self.ev(it.context_expr, env, fr)
            ent = EMPTY
            for x in v:
                if x[0] == 'obj' and x[1].kind == 'inst':
                    r = self.call_method_named(x, "__enter__", it.context_expr, fr)
                    ent = ent | r
                    self.call_method_named(x, "__exit__", it.context_expr, fr, 3)
                else:
                    ent = ent | frozenset([x])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, env, fr)
        return self.block(n.body, env, fr)

    s_AsyncWith = s_With

    def s_Try(self, n, env, fr):
        acc = ['try', self.copy(env), None]
        fr.loops.append(acc)
        cur = self.copy(env)
        for s in n.body:
            cur = self.stmt(s, cur, fr)
            if cur is None:
                break
            acc[1] = self.join(acc[1], self.copy(cur))
        fr.loops.pop()
        if cur is not None:
            cur = self.block(n.orelse, cur, fr)
        out = cur
        for h in n.handlers:
            e = self.copy(acc[1])
            if h.name:
                self.setvar(h.name, frozenset([('obj', self.obj('ext', 'exception', h, fr))]), e, fr)
            out = self.join(out, self.block(h.body, e, fr))
        if n.finalbody:
            e = self.join(out, self.copy(acc[1])) if out is None else out
            f = self.block(n.finalbody, self.copy(e), fr)
            return None if out is None else f
        return out

    s_TryStar = s_Try

    def s_FunctionDef(self, n, env, fr):
        if fr.func == "<module>" and fr.static:
            f = fr.module.funcs.get(n.name)
            if f is None or f.node is not n:
                f = Func(n, fr.module, None, fr.module.name + "." + n.name)
        else:
            f = self.nested(n, fr)
        v = self.closure(f, n, env, fr)
        self.defaults(f, env, fr)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, env, fr)
            v = self.decorate(dv, v, d, fr)
        self.setvar(n.name, v, env, fr)
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def nested(self, n, fr):
        cache = self.__dict__.setdefault("nested_funcs", {})
        f = cache.get(id(n))
        if f is None:
            q = (fr.module.name + "." + fr.func) if isinstance(fr.func, str) else fr.func.qual
            f = cache[id(n)] = Func(n, fr.module, None, q + "." + getattr(n, "name", "<lambda>"))
        return f

    def closure(self, f, n, env, fr):
        if isinstance(env, ModEnv) or fr.func.__class__ is str:
            return frozenset([('fn', f, None)])
        self.escape(fr.key, env)
        return frozenset([('fn', f, fr.key)])

    def defaults(self, f, env, fr):
        """default values are objects of the scope that defines the function"""
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            v = self.ev(d, env, fr)
            self.put(('default', id(f.node)), p.arg, v)

    def decorate(self, dv, v, node, fr):
        out = EMPTY
        known = False
        for d in dv:
            if d[0] == 'ext':
                known = True
                if d[1] in CACHES or (d[1].split(".")[-1] in ("lru_cache", "cache")):
                    self.cached = self.__dict__.get("cached", [])
                    for f in v:
                        if f[0] == 'fn':
                            self.put(('cached',), f[1].qual, frozenset([S0]))
                out = out | v
            elif d[0] == 'obj' and d[1].kind == 'ext':
                known = True
                if "lru_cache" in str(d[1].what) or str(d[1].what).endswith(".cache"):
                    for f in v:
                        if f[0] == 'fn':
                            self.put(('cached',), f[1].qual, frozenset([S0]))
                out = out | v
        proj = frozenset(d for d in dv if d[0] in ('fn', 'cls') or (d[0] == 'obj' and d[1].kind in ('inst', 'bound')))
        if proj:
            known = True
            out = out | self.call(proj, [v], [], {}, EMPTY, node, fr)
        return out if known and out else v

    def s_ClassDef(self, n, env, fr):
        c = fr.module.classes.get(n.name)
        if c is None or c.node is not n:
            c = Class(n, fr.module, fr.module.name + "." + n.name)
        cenv = ModEnv(self, fr.module, c)
        cfr = Frame("<module>", ('cls', c.qual), fr.module, fr.static)
        cfr.func = "<class %s>" % n.name
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = c.methods.get(s.name)
                if f is None or f.node is not s:
                    f = c.setters.get(s.name)
                if f is None:
                    f = Func(s, fr.module, c, c.qual + "." + s.name)
                self.defaults(f, cenv, cfr)
                v = frozenset([('fn', f, None)])
                w = v
                for d in reversed(s.decorator_list):
                    if isinstance(d, ast.Name) and d.id in ("property", "staticmethod", "classmethod"):
                        continue
                    if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                        continue
                    dv = self.ev(d, cenv, cfr)
                    w = self.decorate(dv, w, d, cfr)
                if w is not v:
                    self.put(('cls', c.qual), s.name, w)
            else:
                self.stmt(s, cenv, cfr)
        self.setvar(n.name, frozenset([('cls', c)]), env, fr)
        return env

    def s_Assign(self, n, env, fr):
        v = self.ev(n.value, env, fr)
        for tg in n.targets:
            self.assign(tg, v, env, fr, n.value)
        return env

    def s_AnnAssign(self, n, env, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env, fr), env, fr, n.value)
        return env

    def s_AugAssign(self, n, env, fr):
        load = ast.copy_location(as_load(n.target), n.target)
        old = self.ev(load, env, fr)
        new = self.ev(n.value, env, fr)
        for x in old:
            if x[0] == 'obj' and x[1].kind in ('list', 'set', 'dict'):
                self.mutate(x[1], fr, n, "+=")
                self.put(x[1], '[]', self.iterate(new))
        v = self.binop(old, new, n, fr) | frozenset(x for x in old if x[0] == 'obj' and x[1].kind in ('list', 'set', 'dict'))
        self.assign(n.target, v, env, fr)
        return env

    def s_Delete(self, n, env, fr):
        for tg in n.targets:
            if isinstance(tg, (ast.Subscript, ast.Attribute)):
                b = self.ev(tg.value, env, fr)
                self.mutate_all(b, fr, n, "del")
            elif isinstance(tg, ast.Name) and tg.id in fr.globals:
                self.event("state", fr, n, "deletes the module variable %s" % tg.id)
        return env

    def s_Import(self, n, env, fr):
        for a in n.names:
            name = a.name if a.asname else a.name.split('.')[0]
            m = self.program.module(name)
            if m is not None:
                self.ensure_module(m)
            self.setvar(a.asname or name, frozenset([('mod', m) if m is not None else ('ext', name)]), env, fr)
        return env

    def s_ImportFrom(self, n, env, fr):
        mod = n.module or ''
        if n.level:
            base = fr.module.name.split('.')
            if not fr.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        m = self.program.module(mod)
        for a in n.names:
            if a.name == '*':
                if m is not None:
                    self.ensure_module(m)
                    self.notes.add("star import of %s" % mod)
                continue
            sub = self.program.module(mod + "." + a.name)
            if m is not None:
                self.ensure_module(m)
                if sub is not None and a.name not in m.funcs and a.name not in m.classes:
                    v = frozenset([('mod', sub)])
                    self.ensure_module(sub)
                else:
                    v = self.modvar(m, a.name)
            elif sub is not None:
                self.ensure_module(sub)
                v = frozenset([('mod', sub)])
            else:
                v = frozenset([('ext', mod + "." + a.name)])
            self.setvar(a.asname or a.name, v, env, fr)
        return env

    # ------------------------------------------------------------------ variables
    def modvar(self, m, name):
        return self.get(('mod', m.name), name)

    def setvar(self, name, v, env, fr):
        if isinstance(env, ModEnv):
            env.assign(name, v)
            return
        if name in fr.globals:
            self.event("state", fr, fr.func.node, "assigns the module variable %s" % name)
            self.put(('mod', fr.module.name), name, v)
            return
        if name in fr.nonlocals:
            o = fr.outer
            while o is not None:
                if (o, name) in self.escaped:
                    kk = (o, name)
                    old = self.escaped.get(kk, EMPTY)
                    if not v <= old:
                        self.escaped[kk] = old | v
                        self.touch(('esc', kk))
                    if o[1][0] == 'static':
                        self.event("state", fr, fr.func.node, "assigns %s of a closure made at import" % name)
                    break
                o = o[2]
            return
        env[name] = v

    def var(self, name, env, fr):
        if isinstance(env, ModEnv):
            v = env.lookup(name)
            if v is not None:
                return v
        else:
            if name not in fr.globals:
                if name in env:
                    return env[name]
                o = fr.outer
                while o is not None:
                    self.uses(('esc', (o, name)))
                    v = self.escaped.get((o, name))
                    if v is not None:
                        return v
                    o = o[2]
        v = self.get(('mod', fr.module.name), name)
        if v or (name in fr.module.assigns) or name in fr.module.imports:
            return v
        r = fr.module.lookup(name)
        if r is not None and r[0] == 'expr':
            self.ensure_module(r[2])
            return self.get(('mod', r[2].name), name)
        if r is not None and r[0] in ('fn', 'cls'):
            return frozenset([('fn', r[1], None) if r[0] == 'fn' else ('cls', r[1])])
        if r is None:
            if name in ("True", "False", "None"):
                return EMPTY
            if name == "__name__":
                return frozenset([S0])
            return frozenset([('ext', name)])
        return EMPTY

    def assign(self, tg, v, env, fr, src=None):
        if isinstance(tg, ast.Name):
            self.setvar(tg.id, v, env, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(tg.elts) \
                    and not any(isinstance(x, ast.Starred) for x in src.elts + tg.elts):
                vals = [self.ev(x, env, fr) for x in src.elts]
                for x, y in zip(tg.elts, vals):
                    self.assign(x, y, env, fr)
                return
            el = self.iterate(v)
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    o = self.obj('list', 'list', x, fr)
                    self.put(o, '[]', el)
                    self.assign(x.value, frozenset([('obj', o)]), env, fr)
                else:
                    self.assign(x, self.nth(v, i), env, fr)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env, fr)
            self.setattr(b, tg.attr, v, fr, tg)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env, fr)
            k = self.ev(tg.slice, env, fr)
            c = const_of(tg.slice)
            self.mutate_all(b, fr, tg, "item assignment")
            for x in b:
                if x[0] == 'obj':
                    if isinstance(tg.slice, ast.Slice):
                        self.put(x[1], '[]', self.iterate(v))
                    elif c is not None and x[1].kind == 'dict':
                        self.put(x[1], ('k', c), v)
                    else:
                        self.put(x[1], '[]', v)
                        self.put(x[1], '[k]', k)
                    if x[1].kind == 'inst':
                        self.call_method_named(x, "__setitem__", tg, fr, 0, [k, v])
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env, fr)

    def nth(self, v, i):
        out = EMPTY
        for x in v:
            if x[0] == 'obj':
                out = out | self.get(x[1], '[]') | self.get(x[1], ('k', i))
                if x[1].kind == 'ext':
                    out = out | self.get(x[1], '*')
                if x[1].kind == 'inst':
                    out = out | self.iterate(frozenset([x]))
            elif x[0] == 'str':
                out = out | frozenset([S(x[1])])
        return out

    def setattr(self, base, attr, v, fr, node):
        for x in base:
            if x[0] == 'obj':
                o = x[1]
                self.mutate(o, fr, node, "attribute %s assigned" % attr)
                if o.kind == 'inst':
                    v2 = self.converts(o.what, attr, v)
                    st = self.program.find_setter(o.what, attr)
                    if st is not None:
                        self.call_func(st, [frozenset([x]), v2], [], {}, EMPTY, node, fr, None)
                    self.put(o, attr, v2)
                else:
                    self.put(o, '*', v)
            elif x[0] in ('cls', 'mod', 'fn'):
                nm = x[1].qual if x[0] != 'mod' else x[1].name
                if not fr.static:
                    self.event("state", fr, node, "assigns attribute %s of %s %s" % (
                        attr, {'cls': 'class', 'mod': 'module', 'fn': 'function'}[x[0]], nm))
                self.put(('cls' if x[0] == 'cls' else x[0], nm), attr, v)
            elif x[0] == 'ext' and not fr.static:
                self.event("state", fr, node, "assigns attribute %s of library object %s" % (attr, x[1]))

    def mutate_all(self, vals, fr, node, how):
        for x in vals:
            if x[0] == 'obj':
                self.mutate(x[1], fr, node, how)
            elif x[0] in ('ext', 'cls', 'mod') and not fr.static:
                if x[0] == 'ext' and "." not in x[1]:
                    continue
                nm = x[1] if x[0] == 'ext' else (x[1].name if x[0] == 'mod' else x[1].qual)
                self.event("state", fr, node, "%s on %s" % (how, nm))

    def mutate(self, o, fr, node, how):
        if o.static and not fr.static:
            if o.kind in ('tuple', 'str', 'bound'):
                return
            self.event("state", fr, node, "%s on the %s made once at import (%s)" % (how, o.kind, o.where))

    def consume(self, vals, fr, node):
        for x in vals:
            if x[0] == 'obj' and x[1].static and not fr.static and x[1].kind in ('iter', 'gen'):
                self.event("state", fr, node, "consumes the iterator made once at import (%s)" % x[1].where)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, fr)
        out = EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out = out | self.ev(c, env, fr)
        return frozenset(x for x in out if x[0] == 'str')

    def e_Constant(self, e, env, fr):
        if isinstance(e.value, (str, bytes)):
            return frozenset([S(EMPTY, e.value if len(e.value) < 60 else None)])
        return NUM

    def e_Name(self, e, env, fr):
        return self.var(e.id, env, fr)

    def e_Attribute(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        return self.attr(b, e.attr, e, fr)

    def e_Compare(self, e, env, fr):
        for c in [e.left] + e.comparators:
            v = self.ev(c, env, fr)
            for x in v:
                if x[0] == 'obj' and x[1].kind == 'inst':
                    for nm in ("__eq__", "__lt__", "__contains__"):
                        if self.program.find_method(x[1].what, nm):
                            self.call_method_named(x, nm, e, fr, 1)
        return NUM

    def e_UnaryOp(self, e, env, fr):
        self.ev(e.operand, env, fr)
        return NUM

    def e_BoolOp(self, e, env, fr):
        out = EMPTY
        for c in e.values:
            out = out | self.ev(c, env, fr)
        return out

    def e_IfExp(self, e, env, fr):
        self.ev(e.test, env, fr)
        return self.ev(e.body, env, fr) | self.ev(e.orelse, env, fr)

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Await(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_Starred(self, e, env, fr):
        return self.ev(e.value, env, fr)

    def e_JoinedStr(self, e, env, fr):
        out = frozenset([S0])
        for c in e.values:
            if isinstance(c, ast.FormattedValue):
                out = cross(out, self.textof(self.ev(c.value, env, fr)))
        return out

    def textof(self, vals, seen=None):
        """the text elements a value contributes when it is formatted"""
        out = set()
        other = False
        seen = set() if seen is None else seen
        for x in vals:
            if x[0] == 'str':
                out.add(S(x[1]))
            elif x[0] == 'obj' and x[1] not in seen:
                seen.add(x[1])
                if x[1].kind in ('tuple', 'list', 'dict', 'set', 'gen', 'iter'):
                    out |= self.joined(x[1], seen)
                elif x[1].kind == 'ext':
                    out |= plain(self.get(x[1], '*'))
                else:
                    other = True
            else:
                other = True
        if other or (not out and (vals or self.final)):
            out.add(S0)
        return frozenset(out)

    def joined(self, o, seen=None):
        """the text of a container: every element contributes"""
        seen = set() if seen is None else seen
        out = frozenset([S0])
        for k in self.get(o, '#keys'):
            v = self.get(o, k)
            if v:
                out = cross(out, self.textof(v, seen))
        v = self.get(o, '[]')
        if self.stage == 0 or not (v or self.get(o, '#keys') or self.final):
            return EMPTY        # containers are filled first
        if v:
            tx = self.textof(v, seen)
            if tx:
                out = cross(out, frozenset([collapse(tx)]))
        return out

    def e_BinOp(self, e, env, fr):
        a, b = self.ev(e.left, env, fr), self.ev(e.right, env, fr)
        if isinstance(e.op, ast.Mod) and isinstance(e.right, ast.Tuple):
            txt = frozenset(x for x in a if x[0] == 'str')
            if txt:
                out = frozenset(S(x[1]) for x in txt)
                for x in e.right.elts:
                    out = cross(out, self.textof(self.ev(x, env, fr)))
                return out
        return self.binop(a, b, e, fr)

    def binop(self, a, b, e, fr):
        out = EMPTY
        ta, tb = frozenset(x for x in a if x[0] == 'str'), frozenset(x for x in b if x[0] == 'str')
        if not self.final and not (a and b):
            return EMPTY
        if ('num',) in a or ('num',) in b:
            out = NUM
        if ta and tb:
            out = cross(ta, tb)
        elif ta:
            out = cross(ta, self.textof(b))
        elif tb:
            out = frozenset(S(x[1]) for x in tb)
        for x in a | b:
            if x[0] == 'obj' and x[1].kind in ('list', 'tuple', 'set', 'dict'):
                o = self.obj(x[1].kind, x[1].kind, e, fr)
                self.put(o, '[]', self.elements(x[1]))
                out = out | frozenset([('obj', o)])
            elif x[0] == 'obj' and x[1].kind == 'inst':
                for nm in ("__add__", "__sub__", "__mod__", "__mul__", "__or__", "__iadd__", "__truediv__"):
                    if self.program.find_method(x[1].what, nm):
                        out = out | self.call_method_named(x, nm, e, fr, 1)
            elif x[0] == 'obj' and x[1].kind == 'ext':
                if ta or tb:
                    continue
                o = self.obj('ext', 'operator', e, fr)
                self.put(o, '*', self.get(x[1], '*'))
                out = out | frozenset([('obj', o)]) | frozenset(S(y[1]) for y in self.textof(self.get(x[1], '*')) if y[1])
        return out

    def display(self, kind, e, env, fr):
        o = self.obj(kind, kind, e, fr)
        for i, x in enumerate(e.elts):
            v = self.ev(x, env, fr)
            if isinstance(x, ast.Starred):
                self.put(o, '[]', self.iterate(v))
            elif kind == 'tuple' and len(e.elts) <= 12 and not any(isinstance(y, ast.Starred) for y in e.elts):
                self.put(o, ('k', i), v)
            else:
                self.put(o, '[]', v)
        return frozenset([('obj', o)])

    def e_List(self, e, env, fr):
        return self.display('list', e, env, fr)

    def e_Tuple(self, e, env, fr):
        return self.display('tuple', e, env, fr)

    def e_Set(self, e, env, fr):
        return self.display('set', e, env, fr)

    def e_Dict(self, e, env, fr):
        o = self.obj('dict', 'dict', e, fr)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                for x in vv:
                    if x[0] == 'obj':
                        self.put(o, '[]', self.elements(x[1]))
                        self.put(o, '[k]', self.keys_of(x[1]))
                continue
            kv = self.ev(k, env, fr)
            c = const_of(k)
            if c is not None:
                self.put(o, ('k', c), vv)
            else:
                self.put(o, '[]', vv)
                self.put(o, '[k]', kv)
        return frozenset([('obj', o)])

    def comp(self, kind, e, env, fr, parts):
        cur = self.copy(env) if not isinstance(env, ModEnv) else LocalOver(env)
        for g in e.generators:
            it = self.ev(g.iter, cur, fr)
            self.consume(it, fr, g.iter)
            self.assign(g.target, self.iterate(it), cur, fr)
            for c in g.ifs:
                self.ev(c, cur, fr)
        o = self.obj(kind, kind, e, fr)
        if len(parts) == 2:
            self.put(o, '[k]', self.ev(parts[0], cur, fr))
            self.put(o, '[]', self.ev(parts[1], cur, fr))
        else:
            self.put(o, '[]', self.ev(parts[0], cur, fr))
        return frozenset([('obj', o)])

    def e_ListComp(self, e, env, fr):
        return self.comp('list', e, env, fr, [e.elt])

    def e_SetComp(self, e, env, fr):
        return self.comp('set', e, env, fr, [e.elt])

    def e_GeneratorExp(self, e, env, fr):
        return self.comp('gen', e, env, fr, [e.elt])

    def e_DictComp(self, e, env, fr):
        return self.comp('dict', e, env, fr, [e.key, e.value])

    def e_Lambda(self, e, env, fr):
        f = self.nested(e, fr)
        v = self.closure(f, e, env, fr)
        self.defaults(f, env, fr)
        return v

    def e_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else EMPTY
        g = getattr(fr, "gen", None)
        if g is None:
            return EMPTY
        self.put(g, '[]', v)
        return self.get(g, 'sent')

    def e_YieldFrom(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        g = getattr(fr, "gen", None)
        if g is not None:
            self.put(g, '[]', self.iterate(v))
        return EMPTY

    def e_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        if isinstance(e.slice, ast.Slice):
            for p in (e.slice.lower, e.slice.upper, e.slice.step):
                if p is not None:
                    self.ev(p, env, fr)
            out = EMPTY
            for x in b:
                if x[0] == 'str':
                    out = out | frozenset([S(x[1])])
                elif x[0] == 'obj' and x[1].kind in ('list', 'tuple', 'set'):
                    o = self.obj(x[1].kind, x[1].kind, e, fr)
                    self.put(o, '[]', self.elements(x[1]))
                    out = out | frozenset([('obj', o)])
                elif x[0] == 'obj':
                    o = self.obj('ext', 'slice', e, fr)
                    self.put(o, '*', self.get(x[1], '*'))
                    out = out | frozenset([('obj', o)])
            return out
        k = self.ev(e.slice, env, fr)
        return self.index(b, k, const_of(e.slice), e, fr)

    def index(self, b, k, c, e, fr):
        return self.loads(c, self.index_(b, k, c, e, fr))

    def index_(self, b, k, c, e, fr):
        out = EMPTY
        for x in b:
            if x[0] == 'str':
                out = out | frozenset([S(x[1])])
            elif x[0] == 'obj':
                o = x[1]
                if o.label is not None:
                    out = out | o.label(c)
                    continue
                if o.kind in ('dict', 'tuple') and c is not None:
                    out = out | self.get(o, ('k', c)) | self.get(o, '[]')
                    if isinstance(c, int) and c < 0:
                        out = out | self.elements(o)
                elif o.kind == 'inst':
                    out = out | self.call_method_named(x, "__getitem__", e, fr, 0, [k])
                elif o.kind == 'ext':
                    out = out | self.get(o, '*') | self.get(o, '[]')
                else:
                    out = out | self.elements(o)
        return out

    def iterate(self, vals):
        out = EMPTY
        for x in vals:
            if x[0] == 'str':
                out = out | frozenset([S(x[1])])
            elif x[0] == 'obj':
                o = x[1]
                if o.kind == 'dict':
                    out = out | self.keys_of(o)
                elif o.kind == 'ext':
                    out = out | self.get(o, '*') | self.get(o, '[]')
                elif o.kind == 'inst':
                    for nm in ("__iter__", "__next__", "__getitem__"):
                        f = self.program.find_method(o.what, nm)
                        if f is not None:
                            k = self.demand(f, ('req', id(f.node), o.n, 3), self.bindargs(f, [frozenset([x])]), False, None)
                            self.uses(('ret', k))
                            r = self.rets.get(k, EMPTY)
                            if nm == "__iter__":
                                r2 = EMPTY
                                for y in r:
                                    if y[0] == 'obj' and y[1] is not o:
                                        r2 = r2 | self.iterate(frozenset([y]))
                                r = r2
                            out = out | r
                else:
                    out = out | self.elements(o)
        return out

    def bindargs(self, f, args):
        ps = f.params()
        return {p: v for p, v in zip(ps, args)}

    def class_attr(self, c, attr):
        for x in self.program.mro(c):
            v = self.get(('cls', x.qual), attr)
            if v:
                return v
            if attr in x.attrs:
                return EMPTY
        return EMPTY

    def always_set(self, c, attr):
        """whether every instance of the class gets the attribute in its constructor"""
        cache = self.__dict__.setdefault("_always", {})
        k = c.qual
        if k not in cache:
            out = set()
            seen = set()

            def go(f, cls):
                if f is None or id(f.node) in seen:
                    return
                seen.add(id(f.node))
                if not f.params():
                    return
                me = f.params()[0]
                stop = False
                for s in f.node.body:
                    if any(isinstance(y, ast.Return) for y in ast.walk(s)):
                        stop = True
                    if isinstance(s, (ast.Assign, ast.AnnAssign)):
                        for tg in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                            for y in (tg.elts if isinstance(tg, (ast.Tuple, ast.List)) else [tg]):
                                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == me:
                                    out.add(y.attr)
                    if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(s.value, ast.Call):
                        fn = s.value.func
                        if isinstance(fn, ast.Attribute):
                            if isinstance(fn.value, ast.Name) and fn.value.id == me:
                                go(self.program.find_method(cls, fn.attr), cls)
                            elif isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) \
                                    and fn.value.func.id == "super":
                                owner = f.cls
                                ms = self.program.mro(cls)
                                ms = ms[ms.index(owner) + 1:] if owner in ms else []
                                for b in ms:
                                    if fn.attr in b.methods:
                                        go(b.methods[fn.attr], cls)
                                        break
                            else:
                                r = self.program.resolve_expr(fn.value, f.module)
                                if r is not None and r[0] == 'cls':
                                    go(self.program.find_method(r[1], fn.attr), cls)
                    if stop:
                        break
            go(self.program.find_method(c, "__init__"), c)
            cache[k] = out
        return attr in cache[k]

    def attr(self, base, attr, e, fr):
        out = EMPTY
        for x in base:
            if x[0] == 'mod':
                m = x[1]
                self.ensure_module(m)
                v = self.modvar(m, attr)
                if attr == "__dict__":
                    o = self.obj('dict', 'module dict', e, fr, m.name)
                    o.static = True
                    v = frozenset([('obj', o)])
                sub = self.program.module(m.name + "." + attr)
                if not v and sub is not None:
                    v = frozenset([('mod', sub)])
                out = out | v
            elif x[0] == 'cls':
                out = out | self.cls_attr_load(x[1], attr, e, fr)
            elif x[0] == 'ext':
                out = out | frozenset([('ext', x[1] + "." + attr)])
            elif x[0] == 'fn':
                out = out | self.get(('fn', x[1].qual), attr)
                if attr == "__dict__":
                    o = self.obj('dict', 'function dict', e, fr, x[1].qual)
                    o.static = True
                    out = out | frozenset([('obj', o)])
            elif x[0] == 'str':
                out = out | frozenset([('bm', x, attr), S(x[1])])
            elif x[0] == 'super':
                out = out | self.super_attr(x, attr, e, fr)
            elif x[0] == 'obj':
                o = x[1]
                if o.kind == 'inst':
                    out = out | self.inst_attr(x, attr, e, fr)
                elif o.kind == 'ext':
                    out = out | self.get(o, '*') | frozenset([('bm', x, attr), x])
                else:
                    out = out | frozenset([('bm', x, attr)])
        return out

    def cls_attr_load(self, c, attr, e, fr):
        if attr in ("__dict__",):
            o = self.obj('dict', 'class dict', e, fr, c.qual)
            o.static = True
            return frozenset([('obj', o)])
        f = self.program.find_method(c, attr)
        v = self.class_attr(c, attr)
        if v:
            return v
        if f is not None:
            if f.is_classmethod:
                return frozenset([('bf', f, ('cls', c))])
            return frozenset([('fn', f, None)])
        return EMPTY

    def inst_attr(self, x, attr, e, fr):
        o = x[1]
        c = o.what
        if attr == "__class__":
            return frozenset([('cls', c)])
        if attr == "__dict__":
            return frozenset([x])
        out = self.get(o, attr)
        f = self.program.find_method(c, attr)
        if f is not None:
            wrapped = EMPTY
            for y in self.program.mro(c):
                if attr in y.methods:
                    wrapped = self.get(('cls', y.qual), attr)
                    break
            if f.is_property:
                return out | self.call_func(f, [frozenset([x])], [], {}, EMPTY, e, fr, None)
            if f.is_static:
                return out | frozenset([('fn', f, None)])
            if f.is_classmethod:
                return out | frozenset([('bf', f, ('cls', c))])
            for w in wrapped:
                if w[0] == 'fn' and w[1] is not f:
                    out = out | frozenset([('bf', w[1], x, w[2])])
            return out | frozenset([('bf', f, x)])
        if not self.always_set(c, attr):
            out = out | self.class_attr(c, attr)
        if not out:
            g = self.program.find_method(c, "__getattr__")
            if g is not None:
                out = out | self.call_func(g, [frozenset([x]), frozenset([S(EMPTY, attr)])], [], {}, EMPTY, e, fr, None)
            if self.program.ext_bases(c) and any(b != "object" for b in self.program.ext_bases(c)):
                out = out | frozenset([('bm', x, attr)])
        return out

    def super_attr(self, x, attr, e, fr):
        _, owner, me = x
        out = EMPTY
        for y in me:
            if y[0] == 'obj' and y[1].kind == 'inst':
                ms = self.program.mro(y[1].what)
                ms = ms[ms.index(owner) + 1:] if owner in ms else []
                for b in ms:
                    if attr in b.methods:
                        out = out | frozenset([('bf', b.methods[attr], y)])
                        break
                else:
                    out = out | frozenset([('bm', y, attr)])
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env, fr):
        if self.recording:
            self.callcount += 1
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            owner = fr.func.cls if not isinstance(fr.func, str) else None
            if e.args:
                r = self.ev(e.args[0], env, fr)
                cl = [x[1] for x in r if x[0] == 'cls']
                owner = cl[0] if cl else owner
            if owner is not None:
                ps = fr.func.params()
                me = env.get(ps[0], EMPTY) if ps else EMPTY
                return frozenset([('super', owner, me)])
            return EMPTY
        fv = self.ev(e.func, env, fr)
        args = []
        star = EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env, fr)
                star = star | self.iterate(sv)
            else:
                args.append(self.ev(a, env, fr))
        kw = {}
        dstar = EMPTY
        for k in e.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                for x in v:
                    if x[0] == 'obj':
                        dstar = dstar | self.elements(x[1])
            else:
                kw[k.arg] = v
        fv = frozenset(x for x in fv if x[0] != 'str') if any(x[0] != 'str' for x in fv) else fv
        if not fv and isinstance(e.func, ast.Attribute):
            return self.unknown_method(e, args, kw, star, fr)
        return self.call(fv, args, star, kw, dstar, e, fr)

    def unknown_method(self, e, args, kw, star, fr):
        """receiver of unknown kind: every project method with that name"""
        name = e.func.attr
        out = EMPTY
        if not self.final:
            return EMPTY
        if name in STR_METHODS or name in MUTATORS:
            return frozenset([S0]) if name in STR_METHODS else EMPTY
        for m in [self.program.modules[n] for n in sorted(self.imported) if n in self.program.modules]:
            for c in m.classes.values():
                f = c.methods.get(name)
                if f is not None and not name.startswith("__"):
                    self.notes.add("receiver of .%s() unknown in %s" % (name, self.where(fr, e)))
                    o = self.obj('inst', c, e, fr, c.qual)
                    out = out | self.call_func(f, [frozenset([('obj', o)])] + args, star, kw, EMPTY, e, fr, None)
        return out

    def call_method_named(self, x, name, node, fr, nargs=0, args=None):
        f = self.program.find_method(x[1].what, name) if x[1].kind == 'inst' else None
        if f is None:
            return EMPTY
        return self.call_func(f, [frozenset([x])] + (args if args is not None else [EMPTY] * nargs), [], {}, EMPTY, node, fr, None)

    def call(self, fv, args, star, kw, dstar, node, fr):
        out = EMPTY
        many = len(fv) > 8
        for f in fv:
            if f[0] == 'fn':
                out = out | self.call_func(f[1], args, star, kw, dstar, node, fr, f[2])
            elif f[0] == 'bf':
                out = out | self.call_func(f[1], [frozenset([f[2]])] + args, star, kw, dstar, node, fr,
                                           f[3] if len(f) > 3 else None)
            elif f[0] == 'cls':
                out = out | self.construct(f[1], args, star, kw, dstar, node, fr, many)
            elif f[0] == 'ext':
                out = out | self.ext_call(f[1], args, star, kw, dstar, node, fr)
            elif f[0] == 'bm':
                out = out | self.ext_method(f[1], f[2], args, star, kw, node, fr)
            elif f[0] == 'obj' and f[1].kind == 'inst':
                out = out | self.call_method_named(f, "__call__", node, fr, 0, args)
            elif f[0] == 'obj' and f[1].kind == 'ext':
                if any(g[0] == 'bm' for g in fv):
                    continue
                if str(f[1].what) == "collections.namedtuple" or str(f[1].what) == "operator.itemgetter":
                    o = self.obj('ext', 'record', node, fr)
                    for a in list(args) + list(kw.values()) + [star]:
                        self.put(o, '*', a)
                    out = out | frozenset([('obj', o)])
                    continue
                if str(f[1].what) == "functools.partial":
                    fns = self.get(f[1], 'fn')
                    pre = self.get(f[1], 'args')
                    out = out | self.call(fns, args, star | pre, kw, dstar | pre, node, fr)
                    continue
                out = out | self.ext_result(str(f[1].what), args, star, kw, dstar, node, fr)
        return out

    def construct(self, c, args, star, kw, dstar, node, fr, many=False):
        if many:
            fr2 = Frame(fr.func, ('many',), fr.module, fr.static)
            fr2.depth = 3
            o = self.obj('inst', c, node, fr2, c.qual)
        else:
            o = self.obj('inst', c, node, fr, c.qual)
        me = frozenset([('obj', o)])
        f = self.program.find_method(c, "__init__")
        if f is not None:
            self.call_func(f, [me] + args, star, kw, dstar, node, fr, None)
        else:
            for a in args:
                self.put(o, '[]', a)
        n = self.program.find_method(c, "__new__")
        if n is not None:
            r = self.call_func(n, [frozenset([('cls', c)])] + args, star, kw, dstar, node, fr, None)
            me = me | frozenset(x for x in r if x[0] == 'obj')
        return me

    def call_func(self, f, args, star, kw, dstar, node, fr, outer):
        star = star or EMPTY
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound = {}
        extra = EMPTY
        for i, v in enumerate(args):
            if i < len(pos):
                bound[pos[i]] = v
            else:
                extra = extra | v
        ctxself = None
        depth = fr.depth
        if f.cls is not None and args and len(args[0]) == 1:
            x = next(iter(args[0]))
            if x[0] == 'obj':
                ctxself = x[1].n
                depth = x[1].depth + 1
        static = fr.static
        ctx = ('static' if static else 'req', id(node), ctxself, min(depth, 3))
        seen = self.contexts.setdefault(id(f.node), set())
        if ctx not in seen:
            if len(seen) >= self.MAXCTX:
                ctx = (ctx[0], 'any', None, 3)
            else:
                seen.add(ctx)
        kwextra = EMPTY
        for k, v in kw.items():
            if k in pos or k in kwonly:
                bound[k] = bound.get(k, EMPTY) | v
            else:
                kwextra = kwextra | v
        for p in pos + kwonly:
            if p not in bound:
                v = star | dstar
                v = v | self.get(('default', id(f.node)), p)
                bound[p] = v
            elif dstar and p not in kw and p not in pos[:len(args)]:
                bound[p] = bound[p] | dstar
        k0 = Frame(f, ctx, f.module, static)
        k0.depth = ctx[-1]
        if a.vararg:
            o = self.obj('tuple', 'args', f.node, k0)
            self.put(o, '[]', extra | star)
            bound[a.vararg.arg] = frozenset([('obj', o)])
        if a.kwarg:
            o = self.obj('dict', 'kwargs', f.node, k0)
            self.put(o, '[]', kwextra | dstar)
            bound[a.kwarg.arg] = frozenset([('obj', o)])
        if self.get(('cached',), f.qual) and not static:
            self.event("cache", fr, node, "calls %s, whose results are cached across requests" % f.qual)
        k = self.demand(f, ctx, bound, static, outer)
        self.uses(('ret', k))
        return self.rets.get(k, EMPTY)

    def record_ext(self, name, fr, node):
        if self.recording:
            self.extcalls.setdefault(name, set()).add(self.where(fr, node))

    def ext_call(self, name, args, star, kw, dstar, node, fr):
        short = name.split("builtins.")[-1]
        self.record_ext(short, fr, node)
        if self.recording:
            self.reads.append((short, args, kw, fr, node))
        if not fr.static:
            if short in PROCESS_STATE:
                self.event("state", fr, node, "calls %s, which changes process-wide state" % short)
            if short in ARG_MUTATORS:
                i = ARG_MUTATORS[short]
                if i < len(args):
                    if short == "next":
                        self.consume(args[i], fr, node)
                        for x in args[i]:
                            if x[0] == 'obj' and x[1].static and x[1].kind == 'ext' and not immutable(x[1].what):
                                self.mutate(x[1], fr, node, "next()")
                    else:
                        self.mutate_all(args[i], fr, node, short)
            if short.startswith(("os.environ.", "sys.modules.", "sys.path.")) and short.split(".")[-1] in MUTATORS:
                self.event("state", fr, node, "calls %s" % short)
        if short in ("setattr",) and len(args) == 3:
            names = [x[2] for x in args[1] if x[0] == 'str' and x[2]]
            for nm in names or ["*"]:
                self.setattr(args[0], nm, args[2], fr, node)
            return EMPTY
        if short == "getattr" and len(args) >= 2:
            return self.dyn_getattr(args, node, fr)
        if short == "type" and len(args) == 1:
            return frozenset(('cls', x[1].what) for x in args[0] if x[0] == 'obj' and x[1].kind == 'inst')
        if short in ("globals", "locals"):
            o = self.obj('dict', 'globals', node, fr, fr.module.name)
            o.static = True
            for n in list(fr.module.classes) + list(fr.module.funcs) + list(fr.module.assigns):
                self.put(o, '[]', self.modvar(fr.module, n))
            self.put(o, '[k]', frozenset([S0]))
            if short == "locals":
                return EMPTY
            return frozenset([('obj', o)])
        if short == "vars" and args:
            out = EMPTY
            for x in args[0]:
                if x[0] == 'obj' and x[1].kind == 'inst':
                    out = out | frozenset([x])
                elif x[0] in ('cls', 'mod'):
                    o = self.obj('dict', 'vars', node, fr)
                    o.static = True
                    out = out | frozenset([('obj', o)])
            return out
        if short == "next" and args:
            out = self.iterate(args[0])
            for x in args[0]:
                if x[0] == 'obj' and x[1].kind == 'inst':
                    out = out | self.call_method_named(x, "__next__", node, fr)
            return out | (args[1] if len(args) > 1 else EMPTY)
        if short in ("max", "min"):
            out = EMPTY
            for a in args:
                out = out | (self.iterate(a) if len(args) == 1 else a)
            return out
        if short in COPIERS:
            kind = 'iter' if short in ITERATORS else {'list': 'list', 'sorted': 'list', 'tuple': 'tuple', 'dict': 'dict',
                                                      'collections.OrderedDict': 'dict', 'collections.defaultdict': 'dict',
                                                      'collections.Counter': 'dict', 'set': 'set',
                                                      'collections.deque': 'list', 'frozenset': 'tuple'}.get(short, 'list')
            o = self.obj(kind, short, node, fr)
            vals = list(args)
            if short in ("map", "filter") and vals:
                els = EMPTY
                for a in vals[1:]:
                    els = els | self.iterate(a)
                if short == "map":
                    self.put(o, '[]', self.call(vals[0], [self.iterate(a) for a in vals[1:]], EMPTY, {}, EMPTY, node, fr))
                else:
                    self.call(vals[0], [els], EMPTY, {}, EMPTY, node, fr)
                    self.put(o, '[]', els)
                return frozenset([('obj', o)])
            if short in ("zip", "enumerate", "itertools.zip_longest", "itertools.product"):
                t = self.obj('tuple', 'tuple', node, fr, 'el')
                if short == "enumerate":
                    self.put(t, ('k', 1), self.iterate(vals[0]) if vals else EMPTY)
                else:
                    for i, a in enumerate(vals):
                        self.put(t, ('k', i), self.iterate(a))
                    self.put(t, '[]', self.iterate(star) if star else EMPTY)
                self.put(o, '[]', frozenset([('obj', t)]))
                return frozenset([('obj', o)])
            if short == "copy.copy" and vals:
                out = EMPTY
                for x in vals[0]:
                    if x[0] == 'obj':
                        n = self.obj(x[1].kind, x[1].what, node, fr, str(x[1].what))
                        for ff in sorted(self.fields_of.get(x[1], ()), key=str):
                            self.put(n, ff, self.get(x[1], ff))
                        out = out | frozenset([('obj', n)])
                    else:
                        out = out | frozenset([x])
                return out
            if kind == 'dict':
                for a in vals:
                    for x in a:
                        if x[0] == 'obj' and x[1].kind == 'dict':
                            for kk in self.get(x[1], '#keys'):
                                self.put(o, kk, self.get(x[1], kk))
                            self.put(o, '[]', self.get(x[1], '[]'))
                            self.put(o, '[k]', self.get(x[1], '[k]'))
                        elif x[0] == 'obj':
                            for y in self.iterate(frozenset([x])):
                                if y[0] == 'obj':
                                    self.put(o, '[]', self.elements(y[1]))
                                    self.put(o, '[k]', self.elements(y[1]))
                        elif x[0] in ('cls', 'fn') and short == 'collections.defaultdict':
                            self.put(o, '[]', self.call(frozenset([x]), [], EMPTY, {}, EMPTY, node, fr))
                for n, v in kw.items():
                    self.put(o, ('k', n), v)
                return frozenset([('obj', o)])
            for a in vals:
                e = self.iterate(a)
                if short in ("itertools.chain.from_iterable",):
                    e = self.iterate(e)
                self.put(o, '[]', e)
            if short == "itertools.chain":
                self.put(o, '[]', self.iterate(star))
            if short in ("itertools.repeat", "itertools.cycle") and vals:
                self.put(o, '[]', vals[0] if short.endswith("repeat") else EMPTY)
            for n, v in kw.items():
                if n == "key":
                    self.call(v, [self.elements(o)], EMPTY, {}, EMPTY, node, fr)
            return frozenset([('obj', o)])
        if short in ("functools.reduce",) and len(args) >= 2:
            el = self.iterate(args[1])
            acc = (args[2] if len(args) > 2 else EMPTY) | el
            acc = acc | self.call(args[0], [acc, el], EMPTY, {}, EMPTY, node, fr)
            return acc
        if short == "functools.partial" and args:
            o = self.obj('ext', short, node, fr)
            self.put(o, 'fn', args[0])
            for a in list(args[1:]) + list(kw.values()):
                self.put(o, 'args', a)
            return frozenset([('obj', o)])
        if short == "copy.deepcopy":
            out = EMPTY
            for x in (args[0] if args else EMPTY):
                if x[0] == 'obj':
                    out = out | frozenset([('obj', self.deep(x[1], node, fr, {}))])
                else:
                    out = out | frozenset([x])
            return out
        if short in NUMERIC_RESULT:
            for a in args:
                for x in a:
                    if x[0] == 'obj' and x[1].kind == 'inst':
                        for nm in ("__int__", "__len__", "__float__", "__hash__", "__bool__"):
                            self.call_method_named(x, nm, node, fr)
            return NUM
        if short in ("str", "repr", "bytes", "format", "ascii", "bytearray"):
            out = frozenset([S0])
            for a in args:
                out = cross(out, self.textof(a))
            for a in args:
                for x in a:
                    if x[0] == 'obj' and x[1].kind == 'inst':
                        for nm in ("__str__", "__repr__", "__bytes__"):
                            out = out | self.call_method_named(x, nm, node, fr)
            if short == "bytearray":
                o = self.obj('list', 'bytearray', node, fr)
                out = out | frozenset([('obj', o)])
            return out
        # functions handed to library code may be called there
        for a in list(args) + list(kw.values()):
            fns = frozenset(x for x in a if x[0] in ('fn', 'bf'))
            if fns:
                self.call(fns, [EMPTY] * 3, EMPTY, {}, EMPTY, node, fr)
        return self.ext_result(short, args, star, kw, dstar, node, fr)

    def deep(self, o, node, fr, memo):
        if o in memo:
            return memo[o]
        n = memo[o] = self.obj(o.kind, o.what, node, fr, ('deep', str(o.what), o.where))
        for ff in sorted(self.fields_of.get(o, ()), key=str):
            out = EMPTY
            for x in self.get(o, ff):
                if x[0] == 'obj' and len(memo) < 30:
                    out = out | frozenset([('obj', self.deep(x[1], node, fr, memo))])
                else:
                    out = out | frozenset([x])
            self.put(n, ff, out)
        return n

    def ext_result(self, name, args, star, kw, dstar, node, fr):
        o = self.obj('ext', name, node, fr)
        txt = frozenset([S0])
        for a in list(args) + list(kw.values()):
            if not a and not self.final:
                return EMPTY
        for a in list(args) + list(kw.values()) + [star or EMPTY, dstar or EMPTY]:
            if a:
                self.put(o, '*', frozenset(x for x in a if x[0] != 'str'))
                txt = cross(txt, self.textof(a))
        if name in DECODERS or name.split(".")[-1] in DECODERS:
            txt = frozenset(S(x[1] | {'decoded'} if x[1] else x[1]) for x in txt)
        txt = frozenset(x for x in txt if x[1])
        self.put(o, '*', txt)
        res = frozenset([('obj', o)])
        if name.split(".")[-1] in PLAIN_TEXT or name in PLAIN_TEXT:
            return (txt or frozenset([S0]))
        return res | txt

    def dyn_getattr(self, args, node, fr):
        out = args[2] if len(args) > 2 else EMPTY
        names = set()
        unknown = False
        for x in args[1]:
            if x[0] == 'str' and x[2] is not None:
                names.add(x[2])
            else:
                unknown = True
        if unknown:
            pre = self.prefix(node.args[1], fr)
            for x in args[0]:
                if x[0] == 'obj' and x[1].kind == 'inst':
                    for c in self.program.mro(x[1].what):
                        for n in c.methods:
                            if n.startswith(pre) and not n.startswith("__"):
                                names.add(n)
        for n in sorted(x for x in names if isinstance(x, str)):
            out = out | self.attr(args[0], n, node, fr)
        return out

    def prefix(self, e, fr):
        if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return e.left.value.split("%")[0]
        if isinstance(e, ast.JoinedStr) and e.values and isinstance(e.values[0], ast.Constant):
            return str(e.values[0].value)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format" \
                and isinstance(e.func.value, ast.Constant):
            return str(e.func.value.value).split("{")[0]
        if isinstance(e, ast.Name) and not isinstance(fr.func, str):
            for n in ast.walk(fr.func.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                        and n.targets[0].id == e.id and not isinstance(n.value, ast.Name):
                    return self.prefix(n.value, fr)
        return ""

    def ext_method(self, x, name, args, star, kw, node, fr):
        """method of a container, text or library object"""
        if x[0] == 'str':
            out = frozenset([S(x[1])])
            if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                o = self.obj('list', 'list', node, fr)
                self.put(o, '[]', out)
                return frozenset([('obj', o)])
            if name in ("startswith", "endswith", "find", "index", "count", "isdigit", "rfind", "rindex", "isalpha"):
                return NUM
            if name == "join":
                for a in args:
                    alt = frozenset()
                    for y in a:
                        if y[0] == 'obj' and y[1].kind in ('tuple', 'list', 'set', 'gen', 'iter'):
                            alt = alt | self.joined(y[1])
                        else:
                            alt = alt | self.textof(self.iterate(frozenset([y])))
                    out = cross(out, alt) if alt or not self.final else out
                return out
            if name in ("format", "format_map"):
                for a in list(args) + list(kw.values()):
                    out = cross(out, self.textof(a))
                return out
            if name in ("replace", "translate"):
                for a in args:
                    out = cross(out, frozenset([S0]) | frozenset(S(y[1]) for y in a if y[0] == 'str' and y[1]))
                return frozenset(S(y[1] | {'decoded'} if y[1] else y[1]) for y in out)
            if name == "decode" and args and any(y[0] == 'str' and y[2] not in (None, 'utf-8', 'ascii', 'utf8', 'latin-1')
                                                 for y in args[0]):
                return frozenset(S(y[1] | {'decoded'} if y[1] else y[1]) for y in out)
            return out
        o = x[1]
        if self.recording:
            self.reads.append(("." + name, [frozenset([x])] + args, kw, fr, node))
            self.extcalls.setdefault("%s.%s" % (o.what if isinstance(o.what, str) else o.kind, name), set()).add(
                self.where(fr, node))
        if name in MUTATORS and not (o.kind == 'ext' and immutable(o.what)):
            self.mutate(o, fr, node, ".%s()" % name)
        if o.label is not None and name == "get":
            c = [y[2] for y in args[0] if y[0] == 'str'] if args else []
            return o.label(c[0] if len(c) == 1 else None) | (args[1] if len(args) > 1 else EMPTY)
        if o.kind == 'ext' and (name == "_make" and str(o.what) == "collections.namedtuple" or
                                name == "_replace" and o.what == 'record'):
            r = self.obj('ext', 'record', node, fr)
            for a in args:
                self.put(r, '*', self.iterate(a))
            for v in kw.values():
                self.put(r, '*', v)
            if name == "_replace":
                self.put(r, '*', self.get(o, '*'))
            return frozenset([('obj', r)])
        if o.kind in ('list', 'set', 'dict', 'tuple', 'gen', 'iter', 'inst'):
            if name in ("append", "add", "appendleft", "insert", "send"):
                if name == "send" and o.kind == 'gen':
                    self.put(o, 'sent', args[0] if args else EMPTY)
                    return self.elements(o)
                if args:
                    self.put(o, '[]', args[-1])
                return NUM
            if name in ("extend", "update", "extendleft"):
                for a in args:
                    if o.kind == 'dict':
                        for y in a:
                            if y[0] == 'obj' and y[1].kind == 'dict':
                                for kk in self.get(y[1], '#keys'):
                                    self.put(o, kk, self.get(y[1], kk))
                                self.put(o, '[]', self.get(y[1], '[]'))
                                self.put(o, '[k]', self.get(y[1], '[k]'))
                            elif y[0] == 'obj':
                                for z in self.iterate(frozenset([y])):
                                    if z[0] == 'obj':
                                        self.put(o, '[]', self.elements(z[1]))
                    else:
                        self.put(o, '[]', self.iterate(a))
                for n, v in kw.items():
                    self.put(o, ('k', n), v)
                return NUM
            if name in ("get", "pop", "setdefault", "popleft", "popitem", "__getitem__"):
                c = [y[2] for y in args[0] if y[0] == 'str'] if args else []
                if name == "setdefault" and len(args) > 1:
                    self.put(o, '[]', args[1])
                out = self.get(o, '[]') | self.get(o, ('k', c[0])) if len(c) == 1 and c[0] is not None and o.kind == 'dict' \
                    else self.elements(o)
                return out | (args[1] if len(args) > 1 else EMPTY)
            if name in ("items",):
                t = self.obj('tuple', 'tuple', node, fr, 'item')
                self.put(t, ('k', 0), self.keys_of(o))
                self.put(t, ('k', 1), self.elements(o))
                r = self.obj('list', 'items', node, fr)
                self.put(r, '[]', frozenset([('obj', t)]))
                return frozenset([('obj', r)])
            if name == "keys":
                r = self.obj('list', 'keys', node, fr)
                self.put(r, '[]', self.keys_of(o))
                return frozenset([('obj', r)])
            if name == "values":
                r = self.obj('list', 'values', node, fr)
                self.put(r, '[]', self.elements(o))
                return frozenset([('obj', r)])
            if name in ("copy", "union", "difference", "intersection"):
                r = self.obj(o.kind, o.what, node, fr, 'copy')
                self.put(r, '[]', self.get(o, '[]'))
                self.put(r, '[k]', self.get(o, '[k]'))
                for kk in self.get(o, '#keys'):
                    self.put(r, kk, self.get(o, kk))
                for a in args:
                    self.put(r, '[]', self.iterate(a))
                return frozenset([('obj', r)])
            if name in ("sort",):
                for n, v in kw.items():
                    if n == "key":
                        self.call(v, [self.elements(o)], EMPTY, {}, EMPTY, node, fr)
                return NUM
            return NUM
        # library object
        if name in ("append", "insert", "extend", "add", "set"):
            for a in args:
                self.put(o, '*', a)
        if name in ("write", "writelines"):
            for a in args:
                self.put(o, '*', frozenset(x for x in a if x[0] == 'str'))
                for y in a:
                    if y[0] == 'obj' and y[1].kind == 'ext':
                        self.put(y[1], '*', self.get(o, '*'))
        r = self.obj('ext', "%s.%s" % (o.what, name) if len(str(o.what)) < 120 else "library", node, fr,
                     o.kind if o.static else None)
        if o.static and not immutable(o.what) and name not in ("copy", "deepcopy", "format", "get_text"):
            r.static = True
        inner = self.get(o, '*')
        self.put(r, '*', inner)
        txt = frozenset(y for y in plain(inner) if y[1])
        for a in args:
            txt = txt | frozenset(y for y in self.textof(a) if y[1])
        self.put(r, '*', txt)
        return frozenset([('obj', r)]) | txt


class ModEnv(object):
    """variables of a module or class body: flow-insensitive, kept in the heap"""
    def __init__(self, an, module, cls=None):
        self.an = an
        self.module = module
        self.cls = cls

    def assign(self, name, v):
        k = ('cls', self.cls.qual) if self.cls is not None else ('mod', self.module.name)
        self.an.put(k, name, v)

    def lookup(self, name):
        if self.cls is not None:
            v = self.an.get(('cls', self.cls.qual), name)
            if v:
                return v
            if name in self.cls.methods:
                return frozenset([('fn', self.cls.methods[name], None)])
        return self.an.get(('mod', self.module.name), name) or None

    def get(self, name, d=None):
        return self.lookup(name) or d


class LocalOver(ModEnv):
    def __init__(self, base):
        ModEnv.__init__(self, base.an, base.module, base.cls)
        self.base = base
        self.vars = {}

    def assign(self, name, v):
        self.vars[name] = v

    def lookup(self, name):
        if name in self.vars:
            return self.vars[name]
        return self.base.lookup(name)


DECODERS = {"unquote", "unquote_plus", "unquote_to_bytes", "b64decode", "unescape", "sub", "subn", "unhexlify", "fromhex",
            "normpath", "expanduser", "expandvars", "url2pathname", "literal_eval", "loads"}
PLAIN_TEXT = {"os.path.join", "posixpath.join", "os.path.basename", "os.path.dirname", "os.path.abspath",
              "os.path.realpath", "os.path.normpath", "binascii.hexlify", "struct.pack", "os.fspath", "quote", "unquote",
              "hexlify", "os.path.expanduser", "os.path.expandvars", "unescape", "escape", "time.strftime", "sub"}
STR_METHODS = {"format", "join", "strip", "lstrip", "rstrip", "upper", "lower", "encode", "decode", "replace", "split",
               "zfill", "ljust", "rjust", "title", "tobytes", "isoformat", "strftime", "hex", "group"}


def immutable(what):
    w = str(what)
    return w in IMMUTABLE_RESULT or w.startswith(("re.compile", "struct.Struct", "collections.namedtuple",
                                                  "logging.getLogger", "operator.")) or w == "record"


def collapse(vals):
    labels = set()
    for v in vals:
        if v[0] == 'str':
            labels |= v[1]
    return S(labels)


def cross(a, b):
    out = set()
    for x in a:
        for y in b:
            if x[0] == 'str' and y[0] == 'str':
                out.add(S(x[1] | y[1]))
    return frozenset(out)


def const_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (str, int, bytes)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value if isinstance(e.operand.value, int) else None
    return None


def as_load(tg):
    if isinstance(tg, ast.Name):
        return ast.Name(tg.id, ast.Load())
    if isinstance(tg, ast.Attribute):
        return ast.Attribute(tg.value, tg.attr, ast.Load())
    if isinstance(tg, ast.Subscript):
        return ast.Subscript(tg.value, tg.slice, ast.Load())
    return tg
