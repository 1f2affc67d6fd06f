"""Whole-program kind inference: which kinds of values reach every expression, and which operations cannot succeed.

Kinds are over-approximated (anything not understood is 'any', None is never held against an operation), contexts are
the kinds of the arguments, containers are allocation sites, fields are kept per class. An operation is reported when it
fails for every kind that can reach it. Nothing of the analysed program is executed.
"""
import ast
import builtins
import importlib
import re
import string
import struct

from .program import Func, Class

ANY = ('any',)
NONE = ('none',)
INT = ('int',)
FLOAT = ('float',)
BOOL = ('bool',)
STR = ('str', None)
BYTES = ('bytes', None)
BARR = ('bytearray',)


def F(*a):
    return frozenset(a)


UNK = F(ANY)
EMPTY = frozenset()
NUMS = ('int', 'float', 'bool')
PYTYPE = {'str': str, 'bytes': bytes, 'bytearray': bytearray, 'int': int, 'float': float, 'bool': bool, 'list': list,
          'dict': dict, 'set': set, 'tuple': tuple, 'none': type(None), 'nt': tuple}

SUPPRESS = {"attribute": {"AttributeError"}, "name": {"NameError", "UnboundLocalError", "ImportError", "ModuleNotFoundError"},
            "import": {"ImportError", "ModuleNotFoundError"}}


class Frame(object):
    def __init__(self, func, module, key, cls=None):
        self.func = func
        self.module = module
        self.key = key
        self.cls = cls
        self.globals = set()
        self.nonlocals = set()
        self.accs = []
        self.guards = 0       # depth of tests on parameters the current statement depends on
        self.trys = []        # exception names handled around the current statement
        self.params = set()
        self.locals = set()
        self.outer = None
        self.gen = None
        self.merged = True


class Report(object):
    def __init__(self, kind, where, line, msg):
        self.kind, self.where, self.line, self.msg = kind, where, line, msg


class Kinds(object):
    MAXSTEPS = 40000
    MAXCTX = 24

    def __init__(self, program):
        self.program = program
        self.heap = {}
        self.rets = {}
        self.infos = {}
        self.order = []
        self.dirty = {}
        self.deps = {}
        self.cur = None
        self.byfunc = {}
        self.merge = {}
        self.nested_funcs = {}
        self.reports = {}
        self.universe = None
        self.foreign = ()
        self.bynames = None
        self.scalar_attrs = None
        self.sites = {}
        self.lib = None
        self.found = {}
        self.edges = {}            # context -> contexts called from statements no test on a parameter guards
        self.counts = {}
        self.seen = {}
        self.recording = False
        self.frozen = False
        self.mergedkeys = set()
        self.wild = set()          # attribute names set through receivers of unknown kind, or tested with hasattr
        self.wildcls = set()       # classes with attributes of computed names
        self.escaped = set()
        self.fields = {}
        self.steps = 0
        self.sub = {}
        for m in program.modules.values():
            for c in m.classes.values():
                for b in program.mro(c)[1:]:
                    self.sub.setdefault(b.qual, set()).add(c)
        for m in program.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "setattr", "delattr") \
                        and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.wild.add(n.args[1].value)

    # ------------------------------------------------------------------ heap
    def uses(self, key):
        if self.frozen:
            return
        d = self.deps.get(key)
        if d is None:
            d = self.deps[key] = set()
        d.add(self.cur)

    def touch(self, key):
        if self.frozen:
            return
        for k in self.deps.get(key, ()):
            self.dirty[k] = True

    def get(self, o, f):
        self.uses((o, f))
        return self.heap.get((o, f), EMPTY)

    def put(self, o, f, v):
        if not v or self.frozen:
            return
        old = self.heap.get((o, f), EMPTY)
        new = widen(old | v)
        if new != old:
            self.heap[(o, f)] = new
            self.touch((o, f))
            fs = self.fields.setdefault(o, set())
            if f not in fs:
                fs.add(f)
                self.touch((o, '#'))

    def names_of(self, o):
        self.uses((o, '#'))
        return self.fields.get(o, ())

    def escape(self, vals, depth=0):
        if self.frozen:
            return
        for x in vals:
            if x[0] in ('list', 'dict', 'set', 'gen') and x not in self.escaped:
                self.escaped.add(x)
                self.touch((x, '!'))
                for f in sorted(self.fields.get(x, ()), key=str):
                    self.escape(self.heap.get((x, f), EMPTY), depth + 1)
            elif x[0] == 'tuple' and depth < 6:
                for y in x[1]:
                    self.escape(y, depth + 1)

    def elements(self, x):
        out = self.get(x, '[]')
        if x[0] == 'dict':
            for f in list(self.names_of(x)):
                if isinstance(f, tuple):
                    out = out | self.get(x, f)
        self.uses((x, '!'))
        if x in self.escaped:
            out = out | UNK
        return out

    def keysof(self, x):
        out = self.get(x, '[k]')
        for f in list(self.names_of(x)):
            if isinstance(f, tuple):
                out = out | F(of_const(f[1]))
        self.uses((x, '!'))
        if x in self.escaped:
            out = out | UNK
        return widen(out)

    # ------------------------------------------------------------------ reports
    def where(self, fr, node):
        m = fr.module.name.split(".", 1)[-1].replace(".", "/") + ".py"
        f = fr.func if isinstance(fr.func, str) else fr.func.qual[len(fr.module.name) + 1:]
        return m, f, getattr(node, "lineno", 0)

    def report(self, kind, fr, node, msg):
        if not self.recording:
            return
        for names in fr.trys:
            if names & SUPPRESS.get(kind, {"TypeError", "IndexError", "ValueError"}):
                return
        if not fr.merged and fr.guards:
            return
        m, f, line = self.where(fr, node)
        self.found.setdefault((kind, m, f, line, getattr(node, "col_offset", 0)), []).append((fr.key, fr.merged, msg))

    def count(self, kind, node):
        if self.recording:
            s = self.seen.setdefault(kind, set())
            s.add(id(node))

    # ------------------------------------------------------------------ driving
    def run(self):
        for m in sorted(self.program.modules):
            k = ('module', m)
            self.infos[k] = (None, self.program.modules[m])
            self.order.append(k)
            self.dirty[k] = True
        self.solve()
        # every function that no call reached is started with arguments of unknown kind
        for m in sorted(self.program.modules):
            mm = self.program.modules[m]
            for f in list(mm.funcs.values()) + [x for c in mm.classes.values() for x in
                                                list(c.methods.values()) + list(c.setters.values())]:
                if id(f.node) not in self.byfunc:
                    self.start(f)
        self.solve()
        # calls of function values by unknown callers: functions that escape are started too (they are started above)
        self.merged()
        self.settle()

    def deviants(self):
        """a constant text where every other place that uses the same attribute, variable or parameter has bytes, or the reverse"""
        uses = {}

        def add(key, c, m, func):
            if isinstance(c, ast.Constant) and isinstance(c.value, (str, bytes)):
                uses.setdefault(key, []).append((type(c.value), c, m, func))

        def base(c):
            return self.program.mro(c)[-1].qual
        for m in self.program.modules.values():
            owner = {}
            for f in list(m.funcs.values()) + [x for c in m.classes.values() for x in list(c.methods.values()) + list(c.setters.values())]:
                for n in ast.walk(f.node):
                    owner[id(n)] = f
            for n in ast.walk(m.tree):
                f = owner.get(id(n))
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for x, y in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                        ys = y.elts if isinstance(y, (ast.Tuple, ast.List, ast.Set)) else [y]
                        for c in ys:
                            if isinstance(x, ast.Attribute):
                                add(('attr', x.attr), c, m, f)
                            elif isinstance(x, ast.Name) and f is not None:
                                add(('name', m.name, base(f.cls) if f.cls else f.qual, x.id), c, m, f)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr != "__init__":
                    if self.methods_named(n.func.attr) and n.func.attr not in ("get", "set", "append", "format"):
                        for i, c in enumerate(n.args):
                            add(('arg', n.func.attr, i), c, m, f)
                    elif n.func.attr == "append" and f is not None and isinstance(n.func.value, ast.Name) and n.args:
                        add(('append', f.qual, n.func.value.id), n.args[0], m, f)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                    for i, c in enumerate(n.args):
                        add(('fn', n.func.id, i), c, m, f)
                elif isinstance(n, ast.Call) and f is not None and f.cls is not None and isinstance(n.func, ast.Attribute) \
                        and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) \
                        and n.func.value.func.id == "super":
                    for i, c in enumerate(n.args):
                        add(('super', base(f.cls), i), c, m, f)
                elif isinstance(n, ast.Assign) and isinstance(n.value, (ast.List, ast.Tuple)):
                    for x in n.targets:
                        if isinstance(x, ast.Attribute):
                            for c in n.value.elts:
                                add(('attr', x.attr), c, m, f)
                elif isinstance(n, ast.Yield) and n.value is not None and f is not None and f.cls is not None:
                    add(('yield', base(f.cls), f.name), n.value, m, f)
        for key, l in sorted(uses.items(), key=str):
            for ty, other in ((str, bytes), (bytes, str)):
                odd_ = [x for x in l if x[0] is ty]
                if len(odd_) == 1 and len(l) >= 5:
                    _t, c, m, f = odd_[0]
                    where = m.name.split(".", 1)[-1].replace(".", "/") + ".py"
                    fn = f.qual[len(m.name) + 1:] if f is not None else "<module>"
                    self.reports.setdefault(("kind", where, fn, c.lineno, c.col_offset), "%r among %d %s constants of the same %s" % (
                        c.value, len(l) - 1, other.__name__, key[0]))
        self.seen['constants of the same use'] = set(range(sum(len(x) for x in uses.values())))

    def settle(self):
        self.deviants()
        """a report of one context counts when some chain of unguarded calls leads to that context"""
        todo = [k for k in self.infos if k[0] == 'module' or k in self.mergedkeys]
        opened = set(todo)
        while todo:
            for k in self.edges.get(todo.pop(), ()):
                if k not in opened:
                    opened.add(k)
                    todo.append(k)
        for key, l in self.found.items():
            for k, merged, msg in l:
                if merged or k in opened:
                    self.reports.setdefault(key, msg)

    def start(self, f):
        ps = f.params()
        args = {}
        for i, p in enumerate(ps):
            if i == 0 and f.cls is not None and not f.is_static:
                args[p] = F(('cls', f.cls)) if f.is_classmethod else F(('inst', f.cls, True))
            else:
                args[p] = UNK
        self.demand(f, None, self.fill(f, args, UNK))

    def fill(self, f, args, default):
        a = f.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg not in args:
                args[p.arg] = default
        if a.vararg:
            args.setdefault(a.vararg.arg, F(self.site('any', a, 'varargs')))
        if a.kwarg:
            args.setdefault(a.kwarg.arg, F(self.site('any', a, 'kwargs')))
        return args

    def site(self, kind, node, extra=None):
        if kind == 'any':
            return ANY
        return (kind, id(node), extra)

    def merged(self):
        """every function with several contexts is also evaluated with the union of their arguments, which changes nothing"""
        todo = []
        for fk in sorted(self.byfunc, key=lambda x: self.order.index(self.byfunc[x][0])):
            ks = self.byfunc[fk]
            if len(ks) == 1:
                self.mergedkeys.add(ks[0])
                continue
            func, outer, _args = self.infos[ks[0]]
            args = {}
            for k in ks:
                for p, v in self.infos[k][2].items():
                    args[p] = widen(args.get(p, EMPTY) | v)
            todo.append((('u', fk), func, outer, args))
        self.recording = True
        for k in self.order:
            self.evaluate(k)
        self.frozen = True
        for k, func, outer, args in todo:
            self.infos[k] = (func, outer, args)
            self.mergedkeys.add(k)
            self.evaluate(k)
        self.recording = False

    def solve(self):
        while self.dirty:
            k = next(iter(self.dirty))
            del self.dirty[k]
            self.evaluate(k)
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise RuntimeError("no fixpoint")

    def demand(self, func, outer, args, force=False):
        fk = id(func.node)
        args = {p: widen(generic(v)) for p, v in args.items()}
        ks = self.byfunc.setdefault(fk, [])
        key = ('f', fk, outer, tuple(sorted((p, v) for p, v in ((p, canon(v)) for p, v in args.items()))))
        if key in self.infos:
            return key
        if self.frozen:
            return None
        if len(ks) >= self.MAXCTX and not force:
            mk = ('m', fk, outer)
            if mk not in self.infos:
                self.infos[mk] = (func, outer, {})
                self.rets[mk] = EMPTY
                self.order.append(mk)
                ks.append(mk)
                self.dirty[mk] = True
            cur = self.infos[mk][2]
            new = {p: widen(cur.get(p, EMPTY) | v) for p, v in args.items()}
            if new != cur:
                self.infos[mk] = (func, outer, new)
                self.dirty[mk] = True
            return mk
        self.infos[key] = (func, outer, args)
        self.rets[key] = EMPTY
        self.order.append(key)
        ks.append(key)
        self.dirty[key] = True
        return key

    def evaluate(self, k):
        self.cur = k
        if k[0] == 'module':
            m = self.infos[k][1]
            fr = self.fr = Frame("<module>", m, k)
            self.block(m.tree.body, MEnv(self, m), fr)
            return
        func, outer, args = self.infos[k]
        node = func.node
        fr = self.fr = Frame(func, func.module, k, func.cls)
        fr.outer = outer
        fr.params = set(args)
        if self.recording:
            fr.merged = k in self.mergedkeys
        env = dict(args)
        if isinstance(node, ast.Lambda):
            self.result(k, self.ev(node.body, env, fr))
            return
        fr.locals = locals_of(node)
        for n in ast.walk(node):
            if isinstance(n, ast.Global):
                fr.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fr.nonlocals.update(n.names)
        for n, v in env.items():
            self.put(('cell', id(node)), n, v)
        if func.is_gen:
            fr.gen = ('gen', id(node), None)
            self.result(k, F(fr.gen))
        env = self.block(node.body, env, fr)
        if env is not None and not func.is_gen:
            self.result(k, F(NONE))

    def result(self, k, v):
        if self.frozen:
            return
        old = self.rets.get(k, EMPTY)
        new = widen(old | v)
        if new != old:
            self.rets[k] = new
            self.touch(('ret', k))

    # ------------------------------------------------------------------ statements
    def block(self, body, env, fr):
        held = fr.guards
        for n in body:
            env = self.stmt(n, env, fr)
            if env is None:
                break
            if isinstance(n, (ast.If, ast.Try)) and leaves(n) and (isinstance(n, ast.Try) or self.on_param(n.test, fr)):
                fr.guards += 1
        fr.guards = held
        return env

    def on_param(self, test, fr):
        if isinstance(test, ast.Compare):
            parts = [test.left] + test.comparators
            if all(isinstance(x, ast.Constant) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len"
                   for x in parts):
                return False           # lengths say nothing about kinds
        return any(isinstance(x, ast.Name) and (x.id in fr.params or x.id in fr.locals) for x in ast.walk(test))

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a is b:
            return a
        if isinstance(a, MEnv):
            return a
        out = dict(a)
        for n, v in b.items():
            o = out.get(n)
            out[n] = v if o is None else widen(o | v)
        return out

    def copy(self, env):
        return env if isinstance(env, MEnv) else dict(env)

    def stmt(self, n, env, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is not None:
            return m(n, env, fr)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, env, fr)
        return env

    def s_Return(self, n, env, fr):
        v = self.ev(n.value, env, fr) if n.value is not None else F(NONE)
        if fr.gen is None and fr.func.__class__ is not str:
            self.result(fr.key, v)
        return None

    def s_Raise(self, n, env, fr):
        if n.exc is not None:
            v = self.ev(n.exc, env, fr)
            bad = [x for x in v if x[0] in PYTYPE and x[0] != 'none' or x[0] in ('mod', 'fn') or (
                x[0] in ('inst', 'cls') and self.no_exception(x[1])) or x == ('ext', 'NotImplemented')]
            self.count("raised values", n)
            if v and len(bad) == len(v):
                self.report("raise", fr, n, "raises %s, which is no exception" % show(bad))
        self.thrown(env, fr)
        return None

    def no_exception(self, c):
        ext = self.program.ext_bases(c)
        return all(b == "object" for b in ext)

    def thrown(self, env, fr):
        for a in fr.accs:
            if a[0] == 'try':
                a[1] = self.join(a[1], self.copy(env))

    def s_Break(self, n, env, fr):
        for a in reversed(fr.accs):
            if a[0] == 'loop':
                a[1] = self.join(a[1], self.copy(env))
                break
        return None

    def s_Continue(self, n, env, fr):
        for a in reversed(fr.accs):
            if a[0] == 'loop':
                a[2] = self.join(a[2], self.copy(env))
                break
        return None

    def s_If(self, n, env, fr):
        self.ev(n.test, env, fr)
        self.condition(n.test, env, fr)
        g = 1 if self.on_param(n.test, fr) else 0
        fr.guards += g
        a, b = self.narrow(n.test, env, fr)
        a = self.block(n.body, a, fr) if a is not None else None
        b = self.block(n.orelse, b, fr) if b is not None else None
        fr.guards -= g
        return self.join(a, b)

    def narrow(self, test, env, fr):
        a, b = self.copy(env), self.copy(env)
        if isinstance(env, MEnv):
            return a, b
        t, neg = test, False
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and len(t.args) == 2 \
                and isinstance(t.args[0], ast.Name) and t.args[0].id in env:
            v = env[t.args[0].id]
            yes, no = set(), set()
            for x in v:
                r = self.isinst(x, self.ev(t.args[1], env, fr))
                if r is not False:
                    yes.add(x)
                if r is not True:
                    no.add(x)
            if neg:
                yes, no = no, yes
            n = t.args[0].id
            ra = rb = None
            if yes or not v:
                ra = dict(a)
                ra[n] = frozenset(yes)
            if no or not v:
                rb = dict(b)
                rb[n] = frozenset(no)
            return ra, rb
        if isinstance(t, ast.Name) and t.id in env:
            r = self.truth(env[t.id], neg)
            return (a if r is not False else None), (b if r is not True else None)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(t.left, ast.Name) and t.left.id in env and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None:
            v = env[t.left.id]
            if isinstance(t.ops[0], ast.IsNot):
                neg = not neg
            yes = frozenset(x for x in v if x in (NONE, ANY))
            no = frozenset(x for x in v if x != NONE)
            if neg:
                yes, no = no, yes
            ra = rb = None
            if yes or not v:
                ra = dict(a)
                ra[t.left.id] = yes
            if no or not v:
                rb = dict(b)
                rb[t.left.id] = no
            return ra, rb
        return a, b

    def truth(self, v, neg):
        if v and all(x == NONE for x in v):
            return neg
        if v and all(x[0] in ('fn', 'cls', 'mod') for x in v):
            return not neg
        return None

    def isinst(self, x, types):
        """True, False or None (not known)"""
        res = []
        flat = []
        for y in types:
            if y[0] == 'tuple':
                for z in y[1]:
                    flat += list(z)
            else:
                flat.append(y)
        if x == ANY or not flat:
            return None
        for y in flat:
            if y[0] == 'ext' and y[1] in ("str", "bytes", "int", "float", "bool", "list", "dict", "set", "tuple", "bytearray"):
                py = PYTYPE.get(x[0])
                if py is not None:
                    res.append(issubclass(py, getattr(builtins, y[1])))
                elif x[0] in ('inst', 'cls', 'fn', 'mod'):
                    res.append(None if x[0] == 'inst' and self.program.ext_bases(x[1]) else False)
                else:
                    res.append(None)
            elif y[0] == 'cls' and x[0] == 'inst':
                if y[1] in self.program.mro(x[1]):
                    res.append(True)
                else:
                    res.append(None if x[2] else False)
            elif y[0] == 'cls' and x[0] in PYTYPE:
                res.append(None if self.program.ext_bases(y[1]) else False)
            else:
                res.append(None)
        if any(r is True for r in res):
            return True
        if all(r is False for r in res):
            return False
        return None

    def loop(self, n, env, fr, bind):
        acc = ['loop', None, None]
        for _ in range(10):
            fr.accs.append(acc)
            cur = self.copy(env)
            bind(cur)
            end = self.block(n.body, cur, fr)
            fr.accs.pop()
            nxt = self.join(self.join(self.copy(env), end), acc[2])
            if isinstance(nxt, MEnv) or nxt == env:
                break
            env = nxt
        out = self.block(n.orelse, self.copy(env), fr) if n.orelse else env
        return self.join(out, acc[1])

    def s_For(self, n, env, fr):
        it = self.ev(n.iter, env, fr)
        el = self.iterate(it, fr, n.iter)
        if not el:
            el = UNK
        return self.loop(n, env, fr, lambda e: self.assign(n.target, el, e, fr))

    s_AsyncFor = s_For

    def s_While(self, n, env, fr):
        g = 1 if self.on_param(n.test, fr) else 0
        fr.guards += g
        out = self.loop(n, env, fr, lambda e: self.ev(n.test, e, fr))
        fr.guards -= g
        if isinstance(n.test, ast.Constant) and n.test.value:
            return out if any(isinstance(x, ast.Break) for x in ast.walk(n)) else None
        return out

    def s_With(self, n, env, fr):
        for it in n.items:
            v = self.ev(it.context_expr, env, fr)
            ent = EMPTY
            for x in v:
                if x[0] == 'inst':
                    f = self.program.find_method(x[1], "__enter__")
                    ent = ent | (self.call_func(f, [F(x)], None, {}, None, it.context_expr, fr, None) if f else UNK)
                elif x[0] in ('file', 'x'):
                    ent = ent | F(x)
                else:
                    ent = ent | UNK
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent or UNK, env, fr)
        return self.block(n.body, env, fr)

    s_AsyncWith = s_With

    def s_Try(self, n, env, fr):
        names = set()
        for h in n.handlers:
            if h.type is not None:
                for x in ast.walk(h.type):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        names.add(x.attr)
        acc = ['try', self.copy(env), None]
        fr.accs.append(acc)
        fr.trys.append(names)
        cur = self.copy(env)
        for s in n.body:
            cur = self.stmt(s, cur, fr)
            if cur is None:
                break
            acc[1] = self.join(acc[1], self.copy(cur))
        fr.accs.pop()
        fr.trys.pop()
        if cur is not None:
            cur = self.block(n.orelse, cur, fr)
        out = cur
        for h in n.handlers:
            if h.type is not None:
                self.ev(h.type, env, fr)
            e = self.copy(acc[1])
            if h.name:
                self.setvar(h.name, UNK, e, fr)
            if not isinstance(e, MEnv):       # what made the body fail is not known here
                for b in n.body:
                    for x in ast.walk(b):
                        if isinstance(x, ast.Name) and x.id in e:
                            e[x.id] = UNK
            out = self.join(out, self.block(h.body, e, fr))
        if n.finalbody:
            e = self.copy(acc[1]) if out is None else out
            f = self.block(n.finalbody, self.copy(e), fr)
            return None if out is None else f
        return out

    s_TryStar = s_Try

    def s_FunctionDef(self, n, env, fr):
        if fr.func == "<module>":
            f = fr.module.funcs.get(n.name)
            if f is None or f.node is not n:
                f = Func(n, fr.module, None, fr.module.name + "." + n.name)
            v = F(('fn', f, None, None))
        else:
            f = self.nested(n, fr)
            v = F(('fn', f, None, fr.key))
            if id(n) not in self.byfunc:
                self.demand(f, fr.key, self.fill(f, {}, UNK))
        self.defaults(f, env, fr)
        for d in n.decorator_list:
            self.ev(d, env, fr)
            v = UNK
        self.setvar(n.name, v, env, fr)
        return env

    s_AsyncFunctionDef = s_FunctionDef

    def nested(self, n, fr):
        f = self.nested_funcs.get(id(n))
        if f is None:
            q = (fr.module.name + "." + fr.func) if isinstance(fr.func, str) else fr.func.qual
            f = self.nested_funcs[id(n)] = Func(n, fr.module, None, q + "." + getattr(n, "name", "<lambda>"))
        return f

    def defaults(self, f, env, fr):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            self.put(('default', id(f.node)), p.arg, self.ev(d, env, fr))

    def s_ClassDef(self, n, env, fr):
        c = fr.module.classes.get(n.name)
        if c is None or c.node is not n:
            c = Class(n, fr.module, fr.module.name + "." + n.name)
        for b in n.bases:
            self.ev(b, env, fr)
        cenv = MEnv(self, fr.module, c)
        cfr = Frame("<class %s>" % n.name, fr.module, fr.key)
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = c.methods.get(s.name)
                if f is None or f.node is not s:
                    f = c.setters.get(s.name) or Func(s, fr.module, c, c.qual + "." + s.name)
                self.defaults(f, cenv, cfr)
                for d in s.decorator_list:
                    self.ev(d, LEnv(cenv, {s.name: UNK, **{m: UNK for m in c.methods}}), cfr)
            else:
                self.stmt(s, cenv, cfr)
        self.setvar(n.name, F(('cls', c)), env, fr)
        return env

    def s_Assign(self, n, env, fr):
        v = self.ev(n.value, env, fr)
        for tg in n.targets:
            self.assign(tg, v, env, fr, n.value)
        return env

    def s_AnnAssign(self, n, env, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env, fr), env, fr, n.value)
        return env

    def s_AugAssign(self, n, env, fr):
        load = ast.copy_location(as_load(n.target), n.target)
        old = self.ev(load, env, fr)
        new = self.ev(n.value, env, fr)
        if isinstance(n.op, ast.Add) and any(x[0] == 'list' for x in old):
            for x in old:
                if x[0] == 'list':
                    self.put(x, '[]', self.iterate(new, fr, n.value) or UNK)
            v = frozenset(x for x in old if x[0] == 'list')
            rest = frozenset(x for x in old if x[0] != 'list')
            if rest:
                v = v | self.binop(n.op, rest, new, n, fr)
        else:
            v = self.binop(n.op, old, new, n, fr, n.value)
        self.assign(n.target, v, env, fr)
        return env

    def s_Delete(self, n, env, fr):
        for tg in n.targets:
            if isinstance(tg, ast.Name):
                if not isinstance(env, MEnv):
                    env.pop(tg.id, None)
            else:
                self.ev(as_load(tg), env, fr)
        return env

    def s_Import(self, n, env, fr):
        for a in n.names:
            name = a.name if a.asname else a.name.split('.')[0]
            m = self.program.modules.get(name)
            if m is None:
                self.importable(a.name, fr, n)
            self.setvar(a.asname or name, F(('mod', m) if m is not None else ('ext', name)), env, fr)
        return env

    def importable(self, name, fr, n):
        self.count("imports", n)
        if name.split(".")[0] == "dashlivesim" and name not in self.program.modules and name not in self.packages():
            self.report("import", fr, n, "there is no module %s" % name)
        elif "." not in name and name not in self.program.modules:
            for d in self.program.modules.values():
                if d.name.split(".")[-1] == name and d.name.rsplit(".", 1)[0] == fr.module.name.rsplit(".", 1)[0] \
                        and not stdlib(name):
                    if not self.runs_alone(fr):
                        self.report("import", fr, n, "module %s is %s: not importable by that name" % (name, d.name))

    def runs_alone(self, fr):
        """a module run as a script, which finds the modules beside it"""
        main = any(isinstance(n, ast.If) and any(isinstance(x, ast.Name) and x.id == "__name__" for x in ast.walk(n.test))
                   for n in fr.module.tree.body)
        if not main:
            return False
        name = fr.module.name
        pkg, _, last = name.rpartition(".")
        for m in self.program.modules.values():
            if m is fr.module:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import) and any(a.name == name for a in n.names):
                    return False
                if isinstance(n, ast.ImportFrom) and (n.module == name or n.module == pkg and any(a.name == last for a in n.names)):
                    return False
        return True

    def condition(self, e, env, fr):
        """operands of a condition that are always true: classes, functions, modules, numbers other than zero"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.condition(e.operand, env, fr)
        if isinstance(e, ast.BoolOp):
            for c in e.values:
                if isinstance(c, ast.Constant) and not isinstance(c.value, bool) and c.value is not None:
                    self.report("condition", fr, c, "%r as an operand of a condition decides nothing" % (c.value,))
                elif isinstance(c, (ast.Name, ast.Attribute, ast.UnaryOp)):
                    self.condition(c, env, fr)
            return
        if isinstance(e, (ast.Name, ast.Attribute)):
            self.count("conditions", e)
            v = self.ev(e, env, fr)
            if v and all(x[0] in ('cls', 'fn', 'mod') for x in v):
                self.report("condition", fr, e, "%s as a condition is always true" % show(v))

    def packages(self):
        out = set()
        for m in self.program.modules:
            ps = m.split(".")
            for i in range(1, len(ps) + 1):
                out.add(".".join(ps[:i]))
        return out

    def s_ImportFrom(self, n, env, fr):
        mod = n.module or ''
        if n.level:
            base = fr.module.name.split('.')
            if not fr.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        m = self.program.modules.get(mod)
        if m is None:
            self.importable(mod, fr, n)
        for a in n.names:
            if a.name == '*':
                self.notes_star = True
                continue
            sub = self.program.modules.get(mod + "." + a.name)
            if m is not None:
                self.count("imports", a)
                if m.lookup(a.name) is not None:
                    v = self.get(('mod', m.name), a.name) or self.global_(m, a.name)
                elif sub is not None:
                    v = F(('mod', sub))
                else:
                    self.report("import", fr, n, "module %s has no %s" % (mod, a.name))
                    v = UNK
            elif sub is not None:
                v = F(('mod', sub))
            else:
                v = F(('ext', mod + "." + a.name))
                st = stdlib(mod)
                if st is not None:
                    self.count("imports", a)
                    if not hasattr(st, a.name) and stdlib(mod + "." + a.name) is None:
                        self.report("import", fr, n, "module %s has no %s" % (mod, a.name))
            self.setvar(a.asname or a.name, v, env, fr)
        return env

    def s_Assert(self, n, env, fr):
        self.ev(n.test, env, fr)
        if n.msg is not None:
            self.ev(n.msg, env, fr)
        return env

    # ------------------------------------------------------------------ variables
    def setvar(self, name, v, env, fr):
        if isinstance(env, MEnv):
            env.assign(name, v)
            return
        if name in fr.globals:
            self.put(('mod', fr.module.name), name, v)
            return
        if name in fr.nonlocals:
            o = fr.outer
            while o is not None:
                f = self.infos[o][0]
                self.put(('cell', id(f.node)), name, v)
                o = self.infos[o][1]
            return
        env[name] = v
        if fr.func.__class__ is not str:
            self.put(('cell', id(fr.func.node)), name, v)

    def global_(self, m, name):
        v = self.get(('mod', m.name), name)
        if v:
            return v
        r = m.lookup(name)
        if r is None:
            return None
        if r[0] == 'fn':
            return F(('fn', r[1], None, None)) if not r[1].node.decorator_list else UNK
        if r[0] == 'cls':
            return F(('cls', r[1]))
        if r[0] == 'module':
            return F(('mod', r[1]))
        if r[0] == 'ext':
            return F(('ext', r[1]))
        if r[0] == 'expr':
            return self.get(('mod', r[2].name), name)
        return UNK

    def var(self, e, env, fr):
        name = e.id
        if isinstance(env, MEnv):
            v = env.lookup(name)
            if v is not None:
                return v
        else:
            if name in env:
                return env[name]
            if name in getattr(fr, "locals", ()) and name not in fr.globals and name not in fr.nonlocals:
                self.count("names", e)
                self.report("name", fr, e, "%s is used before any assignment of it" % name)
                return UNK
            if name not in fr.globals:
                o = fr.outer
                while o is not None:
                    f = self.infos[o][0]
                    self.uses((('cell', id(f.node)), name))
                    if name in self.infos[o][2] or name in locals_of(f.node):
                        return self.heap.get((('cell', id(f.node)), name), EMPTY)
                    o = self.infos[o][1]
        self.count("names", e)
        v = self.global_(fr.module, name)
        if v is not None:
            return v
        if hasattr(builtins, name):
            if name in ("True", "False", "None"):
                return UNK
            return F(('ext', name))
        if name in ("__name__", "__file__", "__doc__", "__package__"):
            return F(STR)
        if name in ("__spec__", "__loader__", "__builtins__", "__path__", "__class__"):
            return UNK
        if fr.module.star:
            return UNK
        if any(isinstance(g, ast.Global) and name in g.names for g in ast.walk(fr.module.tree)):
            return self.get(('mod', fr.module.name), name)
        self.report("name", fr, e, "%s is not defined" % name)
        return UNK

    def assign(self, tg, v, env, fr, src=None):
        if isinstance(tg, ast.Name):
            self.setvar(tg.id, v, env, fr)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            starred = any(isinstance(x, ast.Starred) for x in tg.elts)
            self.count("unpackings", tg)
            bad = []
            for x in v:
                n = None
                if x[0] == 'tuple':
                    n = len(x[1])
                elif x[0] == 'nt':
                    n = len(x[2])
                elif x[0] in ('int', 'float', 'bool', 'fn', 'mod', 'cls'):
                    bad.append(x)
                if n is not None and (n != len(tg.elts) if not starred else n < len(tg.elts) - 1):
                    bad.append(x)
            if v and len(bad) == len(v):
                self.report("unpack", fr, tg, "%s cannot be unpacked into %d variables" % (show(bad), len(tg.elts)))
            for i, x in enumerate(tg.elts):
                if isinstance(x, ast.Starred):
                    s = ('list', id(x), None)
                    self.put(s, '[]', UNK)
                    self.assign(x.value, F(s), env, fr)
                else:
                    self.assign(x, self.nth(v, i, starred, fr, tg), env, fr)
        elif isinstance(tg, ast.Attribute):
            b = self.ev(tg.value, env, fr)
            self.setattr(b, tg.attr, v, fr, tg)
        elif isinstance(tg, ast.Subscript):
            b = self.ev(tg.value, env, fr)
            k = EMPTY if isinstance(tg.slice, ast.Slice) else self.ev(tg.slice, env, fr)
            self.count("item assignments", tg)
            bad = [x for x in b if x[0] in ('str', 'bytes', 'tuple', 'int', 'float', 'bool', 'fn', 'mod', 'nt')]
            if b and len(bad) == len(b):
                self.report("item", fr, tg, "items of %s cannot be assigned" % show(bad))
            c = const_of(tg.slice)
            for x in b:
                if x[0] == 'dict':
                    if c is not None:
                        self.put(x, ('k', c), v)
                    else:
                        self.put(x, '[]', v)
                        self.put(x, '[k]', k)
                elif x[0] == 'list':
                    self.put(x, '[]', (self.iterate(v, fr, tg) or UNK) if isinstance(tg.slice, ast.Slice) else v)
                elif x[0] == 'xattrib':
                    self.text_needed(v, fr, tg, "an XML attribute")
                else:
                    self.escape(v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, env, fr)

    def nth(self, v, i, starred, fr, node):
        out = EMPTY
        for x in v:
            if x[0] == 'tuple' and not starred:
                out = out | (x[1][i] if i < len(x[1]) else UNK)
            elif x[0] == 'tuple':
                out = out | UNK
            else:
                out = out | (self.iterate(F(x), fr, None) or UNK)
        return out or UNK

    def setattr(self, base, attr, v, fr, node):
        for x in base:
            if x[0] == 'inst':
                st = self.program.find_setter(x[1], attr)
                if st is not None:
                    self.call_func(st, [F(x), v], None, {}, None, node, fr, None)
                    self.put(('a', x[1].qual), attr, UNK)
                else:
                    f = self.program.find_method(x[1], attr)
                    if f is not None and f.is_property:
                        self.report("attribute", fr, node, "property %s of %s has no setter" % (attr, x[1].name))
                    self.put(('a', x[1].qual), attr, v)
            elif x[0] == 'cls':
                self.put(('a', x[1].qual), attr, v)
            elif x[0] == 'mod':
                self.put(('mod', x[1].name), attr, v)
            elif x[0] == 'x' and x[1].endswith("ElementTree.Element") and attr in ("text", "tail"):
                self.text_needed(v, fr, node, "the text of an XML element")
            elif x[0] in PYTYPE and x[0] != 'none' and len(base) == 1:
                self.report("attribute", fr, node, "%s has no attributes to assign (%s)" % (show([x]), attr))
            elif x[0] == 'any':
                if attr not in self.wild:
                    self.wild.add(attr)
                    self.touch(('wild', attr))
                self.escape(v)

    def text_needed(self, v, fr, node, what):
        self.count("XML values", node)
        bad = [x for x in v if x[0] in PYTYPE and x[0] not in ('str', 'none')]
        if v and len(bad) == len(v):
            self.report("kind", fr, node, "%s as %s cannot be serialised" % (show(bad), what))

    # ------------------------------------------------------------------ expressions
    def ev(self, e, env, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is not None:
            return m(e, env, fr)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env, fr)
        return UNK

    def e_Constant(self, e, env, fr):
        return F(of_const(e.value))

    def e_Name(self, e, env, fr):
        return self.var(e, env, fr)

    def e_Attribute(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        return self.attr(b, e.attr, e, fr)

    def attr(self, base, attr, e, fr):
        out = EMPTY
        bad = []
        self.count("attributes", e)
        if ANY in base and self.recording and not self.anywhere(attr, fr):
            self.report("attribute", fr, e, "nothing has an attribute %s" % attr)
        for x in base:
            r = self.attr1(x, attr, e, fr)
            if r is None:
                bad.append(x)
            else:
                out = out | r
        if base and len(bad) == len(base) and any(x[0] != 'none' for x in bad):
            self.report("attribute", fr, e, "%s has no attribute %s" % (show(bad), attr))
        return out or (UNK if bad else EMPTY)

    def anywhere(self, attr, fr):
        """whether anything the program or the libraries it imports define has an attribute of this name"""
        if self.universe is None:
            self.universe, self.foreign = universe(self.program)
        return attr in self.universe or fr.module.name in self.foreign

    def attr1(self, x, attr, e, fr):
        k = x[0]
        if k == 'any':
            return UNK
        if k == 'mod':
            m = x[1]
            v = self.global_(m, attr)
            if v is not None:
                return v
            sub = self.program.modules.get(m.name + "." + attr)
            if sub is not None:
                return F(('mod', sub))
            if m.star or attr in self.wild or attr.startswith("__") or m.name + "." + attr in self.packages() \
                    or any(isinstance(g, ast.Global) and attr in g.names for g in ast.walk(m.tree)):
                return UNK
            return None
        if k == 'ext':
            st = stdlib(x[1])
            if st is None:
                py = pytype(x[1])
                if py is not None and not hasattr(py, attr) and not hasattr(type(py), attr):
                    return None
            if st is not None and not hasattr(st, attr) and stdlib(x[1] + "." + attr) is None:
                return None
            return F(('ext', x[1] + "." + attr))
        if k == 'inst':
            return self.inst_attr(x, attr, e, fr)
        if k == 'cls':
            c = x[1]
            if attr in ("__name__", "__module__", "__qualname__", "__doc__"):
                return F(STR)
            f = self.program.find_method(c, attr)
            v = self.class_attr(c, attr)
            if f is not None:
                return F(('fn', f, x if f.is_classmethod else None, None)) | v if not odd(f) else UNK
            if v:
                return v
            return self.missing(c, attr, True)
        if k == 'super':
            ms = self.program.mro(x[2])
            ms = ms[ms.index(x[1]) + 1:] if x[1] in ms else []
            for b in ms:
                if attr in b.methods:
                    f = b.methods[attr]
                    return F(('fn', f, None if f.is_static else ('inst', x[2], x[3]), None)) if not f.is_property else UNK
            if self.program.ext_bases(x[2]):
                return UNK
            return UNK if hasattr(object, attr) else None
        if k == 'nt':
            if attr in x[2]:
                return x[3][x[2].index(attr)] if len(x) > 3 and x[3] else UNK
            return F(('bm', x, attr)) if hasattr(tuple, attr) or attr in ("_asdict", "_replace", "_fields", "_make") else None
        if k == 'ntc':
            return UNK
        if k == 'x':
            py = pytype(x[1])
            if py is not None and not hasattr(py, attr) and not attr.startswith("__"):
                if attr in XFIELDS.get(x[1], {}):
                    return XFIELDS[x[1]][attr]
                return None if x[1] in CLOSED or attr not in mentioned(py) else UNK
            if attr in XFIELDS.get(x[1], {}):
                return XFIELDS[x[1]][attr]
            return F(('bm', x, attr))
        if k == 'struct':
            return F(('bm', x, attr)) if hasattr(struct.Struct, attr) else None
        if k == 'file':
            return F(('bm', x, attr))
        if k == 'fn':
            return UNK
        if k == 'gen' and not any(hasattr(y, attr) for y in ITERATORS):
            return None
        if k == 'gen' and attr == "send":
            return F(('bm', x, attr))
        py = PYTYPE.get(k)
        if py is not None:
            if not hasattr(py, attr):
                return None
            return F(('bm', x, attr))
        return UNK

    def class_attr(self, c, attr):
        out = EMPTY
        for y in self.program.mro(c):
            out = out | self.get(('a', y.qual), attr)
        return out

    def inst_attr(self, x, attr, e, fr):
        c = x[1]
        if attr == "__class__":
            return F(('cls', c)) if not x[2] else UNK
        if attr == "__dict__":
            return UNK
        f = self.program.find_method(c, attr)
        if f is not None and x[2] and any(attr in y.methods for y in self.sub.get(c.qual, ())):
            return UNK
        out = self.class_attr(c, attr)
        if x[2]:
            for y in self.sub.get(c.qual, ()):
                out = out | self.class_attr(y, attr)
        self.uses(('wild', attr))
        if attr in self.wild:
            out = out | UNK
        if f is not None:
            if f.is_property:
                return out | self.call_func(f, [F(x)], None, {}, None, e, fr, None)
            if odd(f):
                return UNK
            if f.is_static:
                return out | F(('fn', f, None, None))
            if f.is_classmethod:
                return out | F(('fn', f, ('cls', c), None))
            return out | F(('fn', f, x, None))
        if out:
            return out
        if x[2]:
            for y in self.sub.get(c.qual, ()):
                if self.program.find_method(y, attr) or self.program.ext_bases(y) and not self.plain_bases(y):
                    return UNK
        return self.missing(c, attr, False)

    def plain_bases(self, c):
        return all(b == "object" for b in self.program.ext_bases(c))

    def missing(self, c, attr, is_class):
        if attr in self.wild or c in self.wildcls or (attr.startswith("__") and attr.endswith("__")):
            return UNK
        for y in self.program.mro(c):
            if "__getattr__" in y.methods or "__getattribute__" in y.methods or y.node.keywords:
                return UNK
            if any(isinstance(n, ast.Constant) and n.value == attr for n in y.node.body) or attr in y.attrs:
                return UNK
            if y.node.decorator_list:
                return UNK
            if any(isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == attr for n in y.node.body):
                return UNK
            if any(isinstance(n, ast.ClassDef) and n.name == attr for n in y.node.body):
                return UNK
        for b in self.program.ext_bases(c):
            if b == "object":
                continue
            py = pytype(b)
            if py is None or hasattr(py, attr):
                return UNK
            if issubclass(py, BaseException):
                continue
            return UNK
        return None

    def e_Compare(self, e, env, fr):
        a = self.ev(e.left, env, fr)
        left = e.left
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env, fr)
            self.count("comparisons", e)
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                self.pairs(a, b, lambda x, y: order_fails(x, y), fr, e, "compared in order")
            elif isinstance(op, (ast.In, ast.NotIn)):
                self.pairs(a, b, lambda x, y: in_fails(x, y), fr, e, "tested for membership in")
                self.member(a, b, fr, e)
            elif isinstance(op, (ast.Eq, ast.NotEq)):
                self.pairs(a, b, never_equal, fr, e, "equal to")
            a, left = b, c
        return F(BOOL)

    def member(self, a, b, fr, node):
        """text is never found among bytes"""
        for y in b:
            if y == NONE:
                continue
            if y[0] in ('list', 'set', 'dict'):
                el = self.elements(y) if y[0] != 'dict' else self.keysof(y)
            elif y[0] == 'tuple':
                el = frozenset(z for w in y[1] for z in w)
            else:
                return
            if not el:
                return
            for x in a:
                for z in el:
                    if x != NONE and z != NONE and not never_equal(x, z):
                        return
        if [x for x in a if x != NONE] and [y for y in b if y != NONE]:
            self.report("kind", fr, node, "%s is never among the elements" % show([x for x in a if x != NONE]))

    def pairs(self, a, b, fails, fr, node, what):
        if not a or not b:
            return
        for x in a:
            for y in b:
                if x == NONE or y == NONE:
                    continue
                if not fails(x, y):
                    return
        a1, b1 = [x for x in a if x != NONE], [y for y in b if y != NONE]
        if a1 and b1:
            self.report("kind", fr, node, "%s cannot be %s %s" % (show(a1), what, show(b1)))

    def e_UnaryOp(self, e, env, fr):
        v = self.ev(e.operand, env, fr)
        if isinstance(e.op, ast.Not):
            return F(BOOL)
        bad = [x for x in v if x[0] in PYTYPE and x[0] not in NUMS and x[0] != 'none']
        if v and len(bad) == len(v):
            self.report("kind", fr, e, "sign of %s" % show(bad))
        return frozenset(INT if x[0] == 'bool' else x for x in v if x[0] in NUMS) | (UNK if any(x[0] not in NUMS for x in v) else EMPTY)

    def e_BoolOp(self, e, env, fr):
        out = EMPTY
        cur = env
        held = fr.guards
        for c in e.values:
            out = out | self.ev(c, cur, fr)
            if self.on_param(c, fr):
                fr.guards += 1
            if not isinstance(env, MEnv):
                a, b = self.narrow(c, cur, fr)
                nxt = a if isinstance(e.op, ast.And) else b
                if nxt is None:
                    break
                cur = nxt
        fr.guards = held
        return out

    def e_IfExp(self, e, env, fr):
        self.ev(e.test, env, fr)
        self.condition(e.test, env, fr)
        g = 1 if self.on_param(e.test, fr) else 0
        fr.guards += g
        a, b = self.narrow(e.test, env, fr)
        out = EMPTY
        if a is not None:
            out = out | self.ev(e.body, a, fr)
        if b is not None:
            out = out | self.ev(e.orelse, b, fr)
        fr.guards -= g
        return out

    def e_NamedExpr(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        self.assign(e.target, v, env, fr)
        return v

    def e_Starred(self, e, env, fr):
        self.ev(e.value, env, fr)
        return UNK

    def e_JoinedStr(self, e, env, fr):
        for c in e.values:
            if isinstance(c, ast.FormattedValue):
                v = self.ev(c.value, env, fr)
                if c.format_spec is not None:
                    self.ev(c.format_spec, env, fr)
                    if c.conversion == -1 and len(c.format_spec.values) == 1 and isinstance(c.format_spec.values[0], ast.Constant):
                        self.spec(v, c.format_spec.values[0].value, fr, c)
        return F(STR)

    def spec(self, v, spec, fr, node):
        self.count("formatted values", node)
        if not spec:
            return
        m = re.match(r"^(?:.?[<>=^])?[-+ ]?z?#?0?\d*[,_]?(?:\.\d+)?([a-zA-Z%]?)$", spec)
        bad = []
        for x in v:
            if x[0] == 'none':
                bad.append(x)
            elif x[0] in ('list', 'dict', 'tuple', 'set', 'bytes', 'bytearray', 'gen', 'inst'):
                if x[0] != 'inst' or not (self.program.find_method(x[1], "__format__") or self.program.ext_bases(x[1])):
                    bad.append(x)
            elif m is None:
                continue
            elif x[0] == 'str' and m.group(1) and m.group(1) in "bcdoxXeEfFgGn%":
                bad.append(x)
            elif x[0] == 'float' and m.group(1) and m.group(1) in "bcdoxX":
                bad.append(x)
            elif x[0] in ('int', 'float') and m.group(1) == 's':
                bad.append(x)
        bad1 = [x for x in bad if x != NONE]
        if v and len(bad) == len(v) and bad1:
            self.report("format", fr, node, "%s cannot be formatted with %r" % (show(bad1), spec))

    def e_BinOp(self, e, env, fr):
        a = self.ev(e.left, env, fr)
        b = self.ev(e.right, env, fr)
        return self.binop(e.op, a, b, e, fr, e.right)

    def binop(self, op, a, b, e, fr, right=None):
        self.count("operators", e)
        if isinstance(op, ast.Mod):
            txt = [x for x in a if x[0] in ('str', 'bytes')]
            if txt and len(txt) == len([x for x in a if x != NONE]):
                self.percent(txt, b, e, fr, right)
                return frozenset(STR if x[0] == 'str' else BYTES for x in txt)
        out = set()
        fails = True
        any_pair = False
        for x in a:
            for y in b:
                r = bin_kind(op, x, y)
                if r is None:
                    if x != NONE and y != NONE:
                        any_pair = True
                    continue
                fails = False
                out |= r
        if a and b and fails and any_pair:
            self.report("kind", fr, e, "%s of %s and %s" % (type(op).__name__, show([x for x in a if x != NONE]),
                                                           show([y for y in b if y != NONE])))
            return UNK
        res = set()
        for x in out:
            if x == ('list', 'new'):
                s = ('list', id(e), 'op')
                for y in list(a) + list(b):
                    if y[0] == 'list':
                        self.put(s, '[]', self.elements(y))
                res.add(s)
            elif x == ('set', 'new'):
                s = ('set', id(e), 'op')
                for y in list(a) + list(b):
                    if y[0] == 'set':
                        self.put(s, '[]', self.elements(y))
                res.add(s)
            else:
                res.add(x)
        return frozenset(res) if res else (UNK if a and b else EMPTY)

    def percent(self, txt, b, e, fr, right):
        self.count("%-formats", e)
        for x in txt:
            if x[1] is None:
                continue
            convs = conversions(x[1])
            if convs is None:
                if len(txt) == 1:
                    self.report("format", fr, e, "malformed format %r" % (x[1],))
                continue
            named = [c for c in convs if c[0] is not None]
            if named:
                bad = [y for y in b if y[0] in ('str', 'bytes', 'int', 'float', 'list', 'tuple', 'bool')]
                if b and len(bad) == len(b):
                    self.report("format", fr, e, "named conversions of %r need a mapping, not %s" % (x[1], show(bad)))
                for y in b:
                    if y[0] == 'dict' and len(b) == 1:
                        self.uses((y, '!'))
                        if y in self.escaped or self.get(y, '[]') or self.get(y, '[k]'):
                            continue
                        have = {f[1] for f in self.names_of(y) if isinstance(f, tuple)}
                        miss = sorted(str(c[0]) for c in named if c[0] not in have)
                        if have and miss:
                            self.report("format", fr, e, "no value for %s in %r" % (", ".join(miss), x[1]))
                continue
            n = len(convs)
            probs = []
            for y in b:
                if y[0] == 'any' and n > 1 and right is not None and self.scalar(right, fr):
                    probs.append("%r has %d conversions for the one value %s" % (x[1], n, ast.unparse(right)))
                    continue
                if y[0] == 'any':
                    probs = None
                    break
                if y[0] == 'none':
                    vals = [F(y)]
                elif y[0] == 'tuple':
                    vals = list(y[1])
                elif y[0] == 'nt':
                    vals = [UNK] * len(y[2])
                elif y[0] == 'inst' and self.program.ext_bases(y[1]) and not self.plain_bases(y[1]):
                    probs = None
                    break
                else:
                    vals = [F(y)]
                if y[0] == 'dict' and n == 0:
                    probs = None
                    break
                if len(vals) != n:
                    if y == NONE:
                        continue
                    probs.append("%r has %d conversions for %d values" % (x[1], n, len(vals)))
                    continue
                p = None
                for c, v in zip(convs, vals):
                    bad = [z for z in v if percent_fails(c[1], z, x[0])]
                    if v and len(bad) == len(v) and any(z != NONE for z in v):
                        p = "%%%s of %r cannot format %s" % (c[1], x[1], show([z for z in bad if z != NONE]))
                if p is None:
                    probs = None
                    break
                probs.append(p)
            if probs and len(txt) == 1:
                self.report("format", fr, e, probs[0])
            elif probs and not fr.guards:
                self.report("format", fr, e, probs[0])

    def scalar(self, e, fr):
        """whether a name or attribute of unknown kind is used as a number, a text or a value to be formatted elsewhere"""
        if isinstance(e, ast.Name):
            node = fr.module.tree if isinstance(fr.func, str) else fr.func.node
            return e.id in scalars(node, e)[0]
        if isinstance(e, ast.Attribute):
            if self.scalar_attrs is None:
                names, tuples = set(), set()
                for m in self.program.modules.values():
                    names |= scalars(m.tree, None)[1]
                    for n in ast.walk(m.tree):
                        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Tuple, ast.Call, ast.Subscript)):
                            tuples |= {t.attr for t in n.targets if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Tuple)}
                self.scalar_attrs = names - tuples
            return e.attr in self.scalar_attrs
        return False

    def display(self, kind, e, env, fr):
        s = (kind, id(e), None)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                self.put(s, '[]', self.iterate(self.ev(x.value, env, fr), fr, x) or UNK)
            else:
                self.put(s, '[]', self.ev(x, env, fr))
        return F(s)

    def e_List(self, e, env, fr):
        self.uniform(e, fr)
        return self.display('list', e, env, fr)

    def e_Set(self, e, env, fr):
        self.uniform(e, fr)
        return self.display('set', e, env, fr)

    def uniform(self, e, fr):
        ks = {type(x.value) for x in e.elts if isinstance(x, ast.Constant)}
        if isinstance(e.ctx if hasattr(e, 'ctx') else ast.Load(), ast.Load) and len(e.elts) > 1 and {str, bytes} <= ks \
                and len([x for x in e.elts if isinstance(x, ast.Constant)]) == len(e.elts):
            self.report("kind", fr, e, "text and bytes among the same constants")

    def e_Tuple(self, e, env, fr):
        vals = []
        unk = False
        for x in e.elts:
            v = self.ev(x, env, fr)
            unk = unk or isinstance(x, ast.Starred)
            vals.append(v)
        if unk:
            return UNK
        return F(tup(vals))

    def e_Dict(self, e, env, fr):
        s = ('dict', id(e), None)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, env, fr)
            if k is None:
                self.put(s, '[]', UNK)
                self.put(s, '[k]', UNK)
                continue
            kv = self.ev(k, env, fr)
            c = const_of(k)
            if c is not None:
                self.put(s, ('k', c), vv)
            else:
                self.put(s, '[]', vv)
                self.put(s, '[k]', kv)
        return F(s)

    def comp(self, kind, e, env, fr, parts):
        cur = LEnv(env, {}) if isinstance(env, MEnv) else dict(env)
        held = fr.guards
        hadlocals = getattr(fr, "locals", None)
        for g in e.generators:
            it = self.ev(g.iter, cur, fr)
            self.bind(g.target, self.iterate(it, fr, g.iter) or UNK, cur, fr)
            for c in g.ifs:
                self.ev(c, cur, fr)
                if self.on_param(c, fr):
                    fr.guards += 1
                if not isinstance(cur, MEnv):
                    a, _ = self.narrow(c, cur, fr)
                    if a is not None:
                        cur = a
        s = (kind, id(e), None)
        if len(parts) == 2:
            self.put(s, '[k]', self.ev(parts[0], cur, fr))
            self.put(s, '[]', self.ev(parts[1], cur, fr))
        else:
            self.put(s, '[]', self.ev(parts[0], cur, fr))
        fr.guards = held
        if hadlocals is not None:
            fr.locals = hadlocals
        return F(s)

    def bind(self, tg, v, env, fr):
        for x in ast.walk(tg):
            if isinstance(x, ast.Name) and not isinstance(env, MEnv):
                env[x.id] = UNK
        self.assign(tg, v, env, fr)

    def e_ListComp(self, e, env, fr):
        return self.comp('list', e, env, fr, [e.elt])

    def e_SetComp(self, e, env, fr):
        return self.comp('set', e, env, fr, [e.elt])

    def e_GeneratorExp(self, e, env, fr):
        return self.comp('gen', e, env, fr, [e.elt])

    def e_DictComp(self, e, env, fr):
        return self.comp('dict', e, env, fr, [e.key, e.value])

    def e_Lambda(self, e, env, fr):
        f = self.nested(e, fr)
        self.defaults(f, env, fr)
        if isinstance(env, MEnv):
            return UNK
        if id(e) not in self.byfunc:
            self.demand(f, fr.key, self.fill(f, {}, UNK))
        return F(('fn', f, None, fr.key))

    def e_Yield(self, e, env, fr):
        v = self.ev(e.value, env, fr) if e.value is not None else F(NONE)
        if fr.gen is not None:
            self.put(fr.gen, '[]', v)
        return UNK

    def e_YieldFrom(self, e, env, fr):
        v = self.ev(e.value, env, fr)
        if fr.gen is not None:
            self.put(fr.gen, '[]', self.iterate(v, fr, e) or UNK)
        return UNK

    def e_Await(self, e, env, fr):
        self.ev(e.value, env, fr)
        return UNK

    def e_Subscript(self, e, env, fr):
        b = self.ev(e.value, env, fr)
        if isinstance(e.slice, ast.Slice):
            for p in (e.slice.lower, e.slice.upper, e.slice.step):
                if p is not None:
                    v = self.ev(p, env, fr)
                    bad = [x for x in v if x[0] in PYTYPE and x[0] not in ('int', 'bool', 'none')]
                    if v and len(bad) == len(v):
                        self.report("kind", fr, e, "slice bound %s" % show(bad))
            out = EMPTY
            for x in b:
                if x[0] in ('str', 'bytes'):
                    out = out | F((x[0], None))
                elif x[0] in ('list', 'bytearray'):
                    out = out | F(x)
                else:
                    out = out | UNK
            bad = [x for x in b if x[0] in ('int', 'float', 'bool', 'fn', 'mod', 'set', 'dict', 'gen')]
            self.count("subscripts", e)
            if b and len(bad) == len(b):
                self.report("kind", fr, e, "slice of %s" % show(bad))
            return out
        k = self.ev(e.slice, env, fr)
        return self.index(b, k, const_of(e.slice), e, fr)

    def index(self, b, k, c, e, fr):
        out = EMPTY
        bad = []
        self.count("subscripts", e)
        ints = [y for y in k if y[0] in ('int', 'bool', 'any', 'none') or y[0] not in PYTYPE]
        for x in b:
            if x[0] in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'nt'):
                if k and not ints:
                    bad.append(x)
                    continue
                if x[0] == 'str':
                    out = out | F(STR)
                elif x[0] in ('bytes', 'bytearray'):
                    out = out | F(INT)
                elif x[0] == 'list':
                    out = out | (self.elements(x) or (EMPTY if not self.recording else UNK))
                elif x[0] == 'tuple':
                    if isinstance(c, int):
                        if -len(x[1]) <= c < len(x[1]):
                            out = out | x[1][c]
                        else:
                            bad.append(x)
                    else:
                        for y in x[1]:
                            out = out | y
                else:
                    out = out | UNK
            elif x[0] == 'dict':
                if c is not None:
                    out = out | self.get(x, ('k', c)) | self.get(x, '[]')
                    self.uses((x, '!'))
                    if x in self.escaped:
                        out = out | UNK
                else:
                    out = out | self.elements(x)
            elif x[0] in ('int', 'float', 'bool', 'fn', 'mod', 'set', 'gen', 'file', 'struct'):
                bad.append(x)
            elif x[0] == 'inst':
                f = self.program.find_method(x[1], "__getitem__")
                if f is not None:
                    out = out | self.call_func(f, [F(x), k], None, {}, None, e, fr, None)
                elif self.plain_bases(x[1]) and not x[2]:
                    bad.append(x)
                else:
                    out = out | UNK
            elif x[0] == 'x' and x[1].endswith("ElementTree.Element"):
                out = out | F(x)
            elif x[0] == 'xattrib':
                out = out | F(STR)
            elif x[0] == 'none':
                continue
            else:
                out = out | UNK
        live = [x for x in b if x != NONE]
        if live and len(bad) == len(live):
            self.report("kind", fr, e, "%s indexed with %s" % (show(bad), show(k)))
        return out

    def iterate(self, v, fr, node):
        out = EMPTY
        bad = []
        for x in v:
            if x[0] == 'str':
                out = out | F(STR)
            elif x[0] in ('bytes', 'bytearray'):
                out = out | F(INT)
            elif x[0] in ('list', 'set', 'gen'):
                out = out | self.elements(x)
            elif x[0] == 'dict':
                out = out | self.keysof(x)
            elif x[0] == 'tuple':
                for y in x[1]:
                    out = out | y
            elif x[0] == 'x' and x[1].endswith("ElementTree.Element"):
                out = out | F(x)
            elif x[0] in ('int', 'float', 'bool', 'fn', 'mod'):
                bad.append(x)
            elif x[0] == 'inst' and not x[2] and self.plain_bases(x[1]) and not any(
                    self.program.find_method(x[1], n) for n in ("__iter__", "__getitem__")):
                bad.append(x)
            elif x[0] == 'file':
                out = out | F(BYTES if x[1] == 'b' else STR)
            elif x[0] == 'none':
                continue
            else:
                out = out | UNK
        live = [x for x in v if x != NONE]
        if node is not None:
            self.count("iterations", node)
            if live and len(bad) == len(live):
                self.report("kind", fr, node, "%s cannot be iterated" % show(bad))
                return UNK
        return out

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in fr.module.funcs:
            f = fr.func
            o = fr
            cls = fr.cls
            if cls is None or isinstance(f, str):
                return UNK
            ps = f.params()
            out = EMPTY
            for x in (env.get(ps[0], EMPTY) if ps else EMPTY):
                out = out | (F(('super', cls, x[1], x[2])) if x[0] == 'inst' else UNK)
            return out or UNK
        fv = self.ev(e.func, env, fr)
        owner = self.ev(e.func.value, env, fr) if fv == UNK and isinstance(e.func, ast.Attribute) else EMPTY
        args = []
        star = dstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(a.value, env, fr)
                one = list(sv)
                if len(one) == 1 and one[0][0] == 'tuple' and star is None:
                    args += list(one[0][1])
                else:
                    star = (star or EMPTY) | (self.iterate(sv, fr, a) or UNK)
            else:
                args.append(self.ev(a, env, fr))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, fr)
            if k.arg is None:
                dstar = UNK
            else:
                kw[k.arg] = v
        if owner == UNK:
            return self.unknown_method(e.func.attr, args, star, kw, dstar, e, fr)
        return self.call(fv, args, star, kw, dstar, e, fr)

    def unknown_method(self, name, args, star, kw, dstar, e, fr):
        """a method of a value of unknown kind: methods only texts have, methods only the classes of the project have"""
        self.anywhere(name, fr)
        out = self.call(UNK, args, star, kw, dstar, e, fr)
        own = self.methods_named(name)
        if not own and name in TEXTRES:
            r = TEXTRES[name]
            if name in ("split", "rsplit", "splitlines"):
                s = ('list', id(e), 'split')
                ks = [y[0] for y in args[0]] if args else []
                el = F(BYTES) if ks and all(k == 'bytes' for k in ks) else (F(STR) if ks and all(k == 'str' for k in ks) else UNK)
                self.put(s, '[]', el)
                return F(s)
            if name in ("startswith", "endswith") or r is not None:
                return r
        if own and name not in self.libnames() and fr.module.name not in self.foreign:
            why = None
            for f in own:
                if odd(f) or f.is_property or f.is_static or f.is_classmethod:
                    return out
                b, why = self.bindsig(f, [UNK] + args, star, kw, dstar)
                if b is not None:
                    return out
            self.report("call", fr, e, "%s: %s" % (name, why))
        return out

    def methods_named(self, name):
        if self.bynames is None:
            self.bynames = {}
            for m in self.program.modules.values():
                for c in m.classes.values():
                    for n, f in c.methods.items():
                        self.bynames.setdefault(n, []).append(f)
                    for n in c.attrs:
                        self.bynames.setdefault(n, [])
        return self.bynames.get(name, [])

    def libnames(self):
        if self.lib is None:
            self.lib = library_names(self.program)[0]
        return self.lib

    def misplaced(self, e, fr):
        """f("%s %s" % a, b): the value of a format with several conversions is followed by the values left out"""
        for i, a in enumerate(e.args):
            if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) and isinstance(a.left, ast.Constant) \
                    and isinstance(a.left.value, str) and not isinstance(a.right, (ast.Tuple, ast.Call)):
                cs = conversions(a.left.value)
                if cs and not any(c[0] for c in cs) and len(cs) > 1 and len(e.args) - i == len(cs):
                    self.report("format", fr, a, "%r has %d conversions, the other values are arguments of the call" % (
                        a.left.value, len(cs)))

    def call(self, fv, args, star, kw, dstar, e, fr):
        out = EMPTY
        if isinstance(e, ast.Call):
            self.misplaced(e, fr)
        self.count("calls", e)
        bad = []
        sig = []
        live = [f for f in fv if f != NONE]
        for f in fv:
            if f[0] == 'fn':
                func, me = f[1], f[2]
                aa = ([F(me)] if me is not None else []) + args
                b, why = self.bindsig(func, aa, star, kw, dstar)
                if b is None:
                    sig.append("%s: %s" % (func.qual.split(".", 1)[-1], why))
                    continue
                out = out | self.invoke(func, f[3], b)
            elif f[0] == 'cls':
                r, why = self.construct(f[1], args, star, kw, dstar, e, fr)
                if why:
                    sig.append(why)
                else:
                    out = out | r
            elif f[0] == 'ntc':
                n = len(f[2])
                given = len(args) + len(kw)
                if star is None and dstar is None and (given > n or given + f[3] < n or [k for k in kw if k not in f[2]]):
                    sig.append("%s takes %d fields (%s), not %d" % (f[1], n, " ".join(f[2]), given))
                vals = list(args) + [kw.get(x, UNK) for x in f[2][len(args):]] if star is None and dstar is None else None
                out = out | F(('nt', f[1], f[2], tuple(tiny(v) for v in vals) if vals else None))
            elif f[0] == 'ext':
                out = out | self.extern(f[1], args, star, kw, dstar, e, fr)
            elif f[0] == 'bm':
                out = out | self.method(f[1], f[2], args, star, kw, e, fr)
            elif f[0] == 'inst':
                m = self.program.find_method(f[1], "__call__")
                if m is not None:
                    out = out | self.call_func(m, [F(f)] + args, star, kw, dstar, e, fr, None)
                elif self.plain_bases(f[1]) and not f[2]:
                    bad.append(f)
                else:
                    out = out | UNK
            elif f[0] in PYTYPE and f[0] != 'none' or f[0] in ('mod', 'struct', 'file', 'xattrib'):
                bad.append(f)
            elif f[0] == 'none':
                continue
            else:
                for a in args + list(kw.values()):
                    self.escape(a)
                out = out | UNK
        if live and len(bad) == len(live):
            self.report("call", fr, e, "%s is called" % show(bad))
        elif live and sig and len(sig) + len(bad) == len(live):
            self.report("call", fr, e, sig[0])
        return out or (UNK if (bad or sig) else EMPTY)

    def call_func(self, f, args, star, kw, dstar, e, fr, outer):
        b, why = self.bindsig(f, args, star, kw, dstar)
        if b is None:
            self.report("call", fr, e, "%s: %s" % (f.qual.split(".", 1)[-1], why))
            return UNK
        return self.invoke(f, outer, b)

    def invoke(self, f, outer, b):
        k = self.demand(f, outer, b)
        if k is None:
            return UNK
        if self.recording and self.fr is not None and not self.fr.guards:
            self.edges.setdefault(self.fr.key, set()).add(k)
        self.uses(('ret', k))
        return self.rets.get(k, EMPTY)

    def bindsig(self, f, args, star, kw, dstar):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        posonly = {x.arg for x in a.posonlyargs}
        kwonly = [x.arg for x in a.kwonlyargs]
        b = {}
        if len(args) > len(pos) and a.vararg is None:
            return None, "takes %d positional arguments, %d given" % (len(pos), len(args))
        for p, v in zip(pos, args):
            b[p] = v
        if a.vararg:
            s = ('list', id(a), 'varargs')
            self.put(s, '[]', UNK)
            b[a.vararg.arg] = UNK if len(args) > len(pos) or star is not None else F(tup(()))
        if a.kwarg:
            b[a.kwarg.arg] = UNK
        for k, v in kw.items():
            if k in b and k in pos and k not in posonly:
                return None, "got several values for argument %s" % k
            if (k in pos and k not in posonly) or k in kwonly:
                b[k] = v
            elif a.kwarg is None:
                return None, "has no parameter %s" % k
        nd = len(a.defaults)
        withdef = set(pos[len(pos) - nd:]) if nd else set()
        withdef |= {x for x, d in zip(kwonly, a.kw_defaults) if d is not None}
        for p in pos + kwonly:
            if p in b:
                continue
            if star is not None and p in pos:
                b[p] = star | (self.get(('default', id(f.node)), p) if p in withdef else EMPTY)
            elif dstar is not None:
                b[p] = UNK
            elif p in withdef:
                b[p] = self.get(('default', id(f.node)), p) or (UNK if self.recording else EMPTY)
            else:
                return None, "argument %s is missing" % p
        return b, None

    def construct(self, c, args, star, kw, dstar, e, fr):
        ext = [b for b in self.program.ext_bases(c) if b != "object"]
        inst = ('inst', c, False)
        f = self.program.find_method(c, "__init__")
        if f is not None:
            b, why = self.bindsig(f, [F(inst)] + args, star, kw, dstar)
            if b is None:
                return None, "%s.%s" % (c.name, why if False else "__init__ " + why)
            self.invoke(f, None, b)
        elif not ext and self.program.find_method(c, "__new__") is None and not c.node.decorator_list and (args or kw) \
                and not any(y.node.keywords or y.node.decorator_list for y in self.program.mro(c)):
            return None, "%s takes no arguments" % c.name
        for b in ext:
            if b.split(".")[-1] in ("NamedTuple", "Enum", "IntEnum", "TypedDict"):
                return UNK, None
        return F(inst), None

    def method(self, x, name, args, star, kw, e, fr):
        k = x[0]
        if k in ('str', 'bytes', 'bytearray'):
            return self.text_method(x, name, args, star, kw, e, fr)
        if k in ('list', 'set'):
            if name in ("append", "add", "insert"):
                if args:
                    self.put(x, '[]', args[-1])
                self.arity(k, name, args, star, kw, e, fr)
                return F(NONE)
            if name in ("extend", "update"):
                for a in args:
                    self.put(x, '[]', self.iterate(a, fr, e) or UNK)
                return F(NONE)
            self.arity(k, name, args, star, kw, e, fr)
            if name == "pop":
                return self.elements(x)
            if name == "copy":
                return F(x)
            if name in ("index", "count"):
                return F(INT)
            if name == "sort":
                self.escape(kw.get("key", EMPTY))
                return F(NONE)
            if name in ("remove", "reverse", "clear", "discard"):
                return F(NONE)
            for a in args:
                self.escape(a)
            return UNK
        if k == 'dict':
            self.arity(k, name, args, star, kw, e, fr)
            if name in ("get", "pop", "setdefault"):
                c = [y[1] for y in args[0] if y[0] in ('str', 'bytes')] if args else []
                one = len(args[0]) == 1 and len(c) == 1 and c[0] is not None if args else False
                if name == "setdefault" and len(args) > 1:
                    self.put(x, '[]', args[1])
                    self.put(x, '[k]', args[0])
                out = (self.get(x, ('k', c[0])) | self.get(x, '[]')) if one else self.elements(x)
                self.uses((x, '!'))
                if x in self.escaped:
                    out = out | UNK
                return out | (args[1] if len(args) > 1 else (F(NONE) if name == "get" else EMPTY))
            if name == "items":
                s = ('gen', id(e), 'items')
                self.put(s, '[]', F(tup([self.keysof(x) or UNK, self.elements(x) or UNK])))
                return F(s)
            if name in ("keys", "values"):
                s = ('gen', id(e), name)
                self.put(s, '[]', (self.keysof(x) if name == "keys" else self.elements(x)) or UNK)
                return F(s)
            if name == "update":
                for a in args:
                    for y in a:
                        if y[0] == 'dict':
                            for f in list(self.names_of(y)):
                                self.put(x, f, self.get(y, f))
                            self.uses((y, '!'))
                            if y in self.escaped:
                                self.put(x, '[]', UNK)
                                self.put(x, '[k]', UNK)
                        else:
                            self.put(x, '[]', UNK)
                            self.put(x, '[k]', UNK)
                for n, v in kw.items():
                    self.put(x, ('k', n), v)
                return F(NONE)
            if name == "copy":
                return F(x)
            if name in ("clear",):
                return F(NONE)
            for a in args:
                self.escape(a)
            return UNK
        if k == 'file':
            if name in ("read", "readline"):
                return F(BYTES if x[1] == 'b' else STR)
            if name == "readlines":
                s = ('list', id(e), None)
                self.put(s, '[]', F(BYTES if x[1] == 'b' else STR))
                return F(s)
            if name == "write" and args:
                self.count("writes", e)
                want = ('bytes', 'bytearray') if x[1] == 'b' else ('str',)
                v = args[0]
                bad = [y for y in v if y[0] in PYTYPE and y[0] not in want and y[0] != 'none']
                if v and len(bad) == len(v):
                    self.report("kind", fr, e, "%s written to a file opened in %s mode" % (
                        show(bad), "binary" if x[1] == 'b' else "text"))
                return F(INT)
            if name in ("tell", "seek"):
                return F(INT)
            return UNK
        if k == 'struct':
            return self.structs(x[1], name, args, star, e, fr)
        if k == 'gen' and name == "send":
            self.arity(k, name, args, star, kw, e, fr)
            return UNK
        if k == 'x':
            return self.xmethod(x, name, args, star, kw, e, fr)
        if k in ('int', 'bool', 'float'):
            self.arity(k, name, args, star, kw, e, fr)
            return F(BYTES) if name == "to_bytes" else (F(INT) if name == "bit_length" else UNK)
        for a in args:
            self.escape(a)
        return UNK

    def arity(self, k, name, args, star, kw, e, fr):
        if star is not None:
            return
        lim = ARITY.get((k, name))
        if lim is None:
            return
        if not lim[0] <= len(args) + len([x for x in kw if x in lim[2:]]) <= lim[1]:
            self.report("call", fr, e, "%s.%s takes %d to %d arguments, %d given" % (k, name, lim[0], lim[1], len(args)))

    def text_method(self, x, name, args, star, kw, e, fr):
        k = x[0]
        same = F((k, None)) if k != 'bytearray' else F(BARR)
        self.count("text methods", e)
        if name in ("startswith", "endswith", "find", "rfind", "index", "rindex", "count", "strip", "lstrip", "rstrip", "split",
                    "rsplit", "replace", "partition", "rpartition") and args and star is None:
            for a in (args[:2] if name == "replace" else args[:1]):
                bad = [y for y in a if y[0] in PYTYPE and text_arg_fails(k, name, y)]
                if a and len(bad) == len(a):
                    self.report("kind", fr, e, "%s.%s with %s" % (k, name, show(bad)))
        if name == "join" and args and star is None:
            el = EMPTY
            full = True
            for y in args[0]:
                if y[0] in ('list', 'gen', 'set', 'tuple', 'dict'):
                    el = el | self.iterate(F(y), fr, None)
                elif y[0] == k and k == 'str':
                    el = el | F(STR)
                elif y[0] == 'inst' and not y[2] and self.plain_bases(y[1]) and not any(
                        self.program.find_method(y[1], n) for n in ("__iter__", "__getitem__")):
                    el = el | F(INT)
                else:
                    full = False
            want = ('str',) if k == 'str' else ('bytes', 'bytearray')
            bad = [y for y in el if y[0] in PYTYPE and y[0] not in want and y[0] != 'none']
            if full and el and bad and (len(bad) == len([y for y in el if y != NONE]) or self.local(args[0], fr)
                                        and any(y[0] in ('str', 'bytes') for y in bad)):
                self.report("kind", fr, e, "%s joined as %s" % (show(bad), k))
            return same
        if name in ("split", "rsplit", "splitlines"):
            s = ('list', id(e), k)
            self.put(s, '[]', same)
            return F(s)
        if name in ("partition", "rpartition"):
            return F(tup([same] * 3))
        if name == "encode":
            return F(BYTES)
        if name == "decode" or name == "hex":
            return F(STR)
        if name in ("find", "rfind", "index", "rindex", "count"):
            return F(INT)
        if name.startswith("is") or name in ("startswith", "endswith"):
            return F(BOOL)
        if name == "format":
            if x[1] is not None and star is None and not any(kk is None for kk in kw):
                self.strformat(x[1], args, kw, e, fr)
            return F(STR)
        if name in ("strip", "lstrip", "rstrip", "upper", "lower", "replace", "zfill", "ljust", "rjust", "center", "title",
                    "capitalize", "translate", "swapcase", "expandtabs", "removeprefix", "removesuffix"):
            return same
        if name in ("append", "extend"):
            return F(NONE)
        return UNK

    def local(self, v, fr):
        """a list only this function builds, in its only context"""
        if not isinstance(fr.func, Func) or len(self.byfunc.get(id(fr.func.node), ())) != 1 or fr.guards:
            return False
        if fr.func.node not in self.sites:
            self.sites[fr.func.node] = {id(n) for n in ast.walk(fr.func.node) if isinstance(n, (ast.List, ast.ListComp))}
        return all(x[0] == 'list' and x[1] in self.sites[fr.func.node] and x not in self.escaped for x in v)

    def strformat(self, fmt, args, kw, e, fr):
        self.count("str.format calls", e)
        try:
            parts = list(string.Formatter().parse(fmt))
        except ValueError:
            self.report("format", fr, e, "malformed format %r" % fmt)
            return
        auto = 0
        for lit, field, spec, conv in parts:
            if field is None:
                continue
            base = re.split(r"[.\[]", field)[0]
            if base == "":
                i, auto = auto, auto + 1
            elif base.isdigit():
                i = int(base)
            else:
                if base not in kw and not getattr(self, "dstar", None):
                    self.report("format", fr, e, "no value for {%s} in %r" % (base, fmt))
                elif base == field and not conv:
                    self.spec(kw[base], spec, fr, e)
                continue
            if i >= len(args):
                self.report("format", fr, e, "%r has more fields than the %d values" % (fmt, len(args)))
                return
            if base == field and not conv and spec and "{" not in spec:
                self.spec(args[i], spec, fr, e)

    def structs(self, fmt, name, args, star, e, fr):
        try:
            kinds = struct_kinds(fmt)
        except (struct.error, ValueError):
            self.report("format", fr, e, "malformed struct format %r" % fmt)
            return UNK
        self.count("struct formats", e)
        if name == "pack" and star is None:
            if len(args) != len(kinds):
                self.report("format", fr, e, "struct format %r packs %d values, %d given" % (fmt, len(kinds), len(args)))
            for v, kd in zip(args, kinds):
                ok = {'int': ('int', 'bool'), 'float': NUMS, 'bytes': ('bytes', 'bytearray')}[kd]
                bad = [y for y in v if y[0] in PYTYPE and y[0] not in ok and y[0] != 'none']
                if v and len(bad) == len(v):
                    self.report("kind", fr, e, "struct format %r packs %s from %s" % (fmt, kd, show(bad)))
            return F(BYTES)
        if name == "pack":
            return F(BYTES)
        if name in ("unpack", "unpack_from"):
            if args:
                bad = [y for y in args[0] if y[0] in PYTYPE and y[0] not in ('bytes', 'bytearray', 'none')]
                if args[0] and len(bad) == len(args[0]):
                    self.report("kind", fr, e, "struct.%s from %s" % (name, show(bad)))
            return F(tup([F({'int': INT, 'float': FLOAT, 'bytes': BYTES}[kd]) for kd in kinds]))
        if name == "iter_unpack":
            s = ('gen', id(e), 'unpack')
            self.put(s, '[]', F(tup([F({'int': INT, 'float': FLOAT, 'bytes': BYTES}[kd]) for kd in kinds])))
            return F(s)
        return UNK

    def xmethod(self, x, name, args, star, kw, e, fr):
        t = x[1]
        if t.endswith("ElementTree.Element"):
            if name == "set" and len(args) == 2:
                self.text_needed(args[1], fr, e, "an XML attribute")
                return F(NONE)
            if name == "get":
                return F(STR, NONE) | (args[1] if len(args) > 1 else EMPTY)
            if name == "find":
                return F(x, NONE)
            if name in ("findall", "iter", "iterfind"):
                s = ('list' if name == "findall" else 'gen', id(e), None)
                self.put(s, '[]', F(x))
                return F(s)
            if name in ("append", "remove", "insert"):
                return F(NONE)
            if name == "findtext":
                return F(STR, NONE)
        if t.endswith("ElementTree.ElementTree"):
            if name == "getroot":
                return F(('x', "xml.etree.ElementTree.Element"))
        if t == "io.BytesIO":
            if name in ("read", "getvalue"):
                return F(BYTES)
            if name == "write" and args:
                bad = [y for y in args[0] if y[0] in PYTYPE and y[0] not in ('bytes', 'bytearray', 'none')]
                self.count("writes", e)
                if args[0] and len(bad) == len(args[0]):
                    self.report("kind", fr, e, "%s written to BytesIO" % show(bad))
        if t == "io.StringIO":
            if name in ("read", "getvalue"):
                return F(STR)
            if name == "write" and args:
                bad = [y for y in args[0] if y[0] in PYTYPE and y[0] not in ('str', 'none')]
                self.count("writes", e)
                if args[0] and len(bad) == len(args[0]):
                    self.report("kind", fr, e, "%s written to StringIO" % show(bad))
        for a in args:
            self.escape(a)
        return UNK

    # ------------------------------------------------------------------ library functions
    def extern(self, name, args, star, kw, dstar, e, fr):
        n = len(args)
        if star is None and dstar is None:
            self.library_signature(name, args, kw, e, fr)
        if name == "getattr" and n >= 2:
            c = [y[1] for y in args[1] if y[0] == 'str']
            if len(args[1]) == 1 and len(c) == 1 and c[0] is not None:
                if n == 2:
                    return self.attr(args[0], c[0], e, fr)
                return UNK
            pre = self.prefix(e.args[1], fr)
            out = set()
            if pre:
                for x in args[0]:
                    if x[0] != 'inst' or x[2]:
                        return UNK
                    for y in self.program.mro(x[1]):
                        for nm in y.methods:
                            if nm.startswith(pre):
                                f = self.program.find_method(x[1], nm)
                                if f.is_static or f.is_property or odd(f):
                                    return UNK
                                out.add(('fn', f, x, None))
            return frozenset(out) or UNK
        if name == "setattr" and n == 3:
            c = [y[1] for y in args[1] if y[0] == 'str']
            if len(args[1]) == 1 and len(c) == 1 and c[0] is not None:
                self.setattr(args[0], c[0], args[2], fr, e)
            else:
                for x in args[0]:
                    if x[0] in ('inst', 'cls'):
                        for y in self.program.mro(x[1]):
                            self.wildcls.add(y)
            self.escape(args[2])
            return F(NONE)
        if name in ("len", "ord", "abs", "int", "float", "sum") and n >= 1 and star is None:
            bad = [y for y in args[0] if builtin_fails(name, y)]
            bad += [y for y in args[0] if name in ("len", "ord", "int", "float", "abs") and y[0] == 'inst' and not y[2]
                    and self.plain_bases(y[1]) and self.program.find_method(y[1], "__%s__" % name) is None
                    and not (name in ("int", "float") and self.program.find_method(y[1], "__index__"))]
            if args[0] and len(bad) == len(args[0]) and any(y != NONE for y in bad):
                self.report("kind", fr, e, "%s() of %s" % (name, show([y for y in bad if y != NONE])))
        if name in RESULTS:
            for a in args:
                self.escape(a) if name not in PURE else None
            return RESULTS[name]
        if name in ("abs", "round") and n:
            if name == "round":
                return F(INT) if n == 1 else F(FLOAT, INT)
            return frozenset(INT if y[0] == 'bool' else y for y in args[0] if y[0] in NUMS) or UNK
        if name in ("list", "sorted", "set", "tuple", "frozenset", "iter", "reversed", "filter", "enumerate", "zip", "map", "range"):
            s = ({"list": "list", "sorted": "list", "set": "set"}.get(name, "gen"), id(e), name)
            if name == "tuple":
                return UNK
            if name == "range":
                self.put(s, '[]', F(INT))
                for a in args:
                    bad = [y for y in a if y[0] in PYTYPE and y[0] not in ('int', 'bool', 'none')]
                    if a and len(bad) == len(a):
                        self.report("kind", fr, e, "range() of %s" % show(bad))
                return F(s)
            if name == "enumerate" and n:
                self.put(s, '[]', F(tup([F(INT), self.iterate(args[0], fr, e) or UNK])))
                return F(s)
            if name == "zip" and star is None:
                self.put(s, '[]', F(tup([self.iterate(a, fr, e) or UNK for a in args])))
                return F(s)
            if name == "map":
                for a in args:
                    self.escape(a)
                r = EMPTY
                if n >= 2 and star is None:
                    r = self.call(args[0], [self.iterate(a, fr, e) or UNK for a in args[1:]], None, {}, None, e, fr)
                self.put(s, '[]', r or UNK)
                return F(s)
            if name == "filter" and n == 2:
                it = self.iterate(args[1], fr, e)
                if any(y[0] == 'fn' for y in args[0]):
                    self.call(args[0], [it or UNK], None, {}, None, e, fr)
                self.put(s, '[]', it or UNK)
                return F(s)
            for k in kw.values():
                if any(y[0] == 'fn' for y in k):
                    self.call(k, [(self.iterate(args[0], fr, e) if n else UNK) or UNK], None, {}, None, e, fr)
            if n:
                self.put(s, '[]', self.iterate(args[0], fr, e) or (UNK if self.recording else EMPTY))
            elif star is not None:
                self.put(s, '[]', UNK)
            return F(s)
        if name == "dict":
            s = ('dict', id(e), name)
            for a in args:
                for y in a:
                    if y[0] == 'dict':
                        for f in list(self.names_of(y)):
                            self.put(s, f, self.get(y, f))
                        self.uses((y, '!'))
                        if y in self.escaped:
                            self.put(s, '[]', UNK)
                            self.put(s, '[k]', UNK)
                    else:
                        self.put(s, '[]', UNK)
                        self.put(s, '[k]', UNK)
            if dstar is not None:
                self.put(s, '[]', UNK)
                self.put(s, '[k]', UNK)
            for k, v in kw.items():
                self.put(s, ('k', k), v)
            return F(s)
        if name in ("min", "max") and n and star is None:
            if n == 1:
                return self.iterate(args[0], fr, e) or UNK
            out = EMPTY
            for a in args:
                out = out | a
            for i in range(n - 1):
                self.pairs(args[i], args[i + 1], order_fails, fr, e, "compared in order")
            return out
        if name == "divmod" and n == 2:
            self.pairs(args[0], args[1], lambda x, y: bin_kind(ast.Sub(), x, y) is None, fr, e, "divided by")
            if all(y[0] in ('int', 'bool') for a in args for y in a):
                return F(tup([F(INT), F(INT)]))
            return F(tup([F(INT, FLOAT), F(INT, FLOAT)])) if all(y[0] in NUMS for a in args for y in a) else UNK
        if name == "sum":
            return UNK
        if name == "open" or name == "io.open":
            m = args[1] if n > 1 else kw.get("mode")
            if m is None:
                return F(('file', 't'))
            out = set()
            for y in m:
                if y[0] == 'str' and y[1] is not None:
                    out.add(('file', 'b' if 'b' in y[1] else 't'))
                else:
                    return UNK
            return frozenset(out)
        if name.startswith("struct.") and name.split(".")[1] in ("pack", "unpack", "unpack_from", "iter_unpack", "Struct") and n \
                and star is None:
            out = EMPTY
            for y in args[0]:
                if y[0] in ('str', 'bytes') and y[1] is not None:
                    f = y[1] if isinstance(y[1], str) else y[1].decode('latin-1')
                    if name == "struct.Struct":
                        out = out | F(('struct', f))
                    else:
                        out = out | self.structs(f, name.split(".")[1], args[1:], star, e, fr)
                else:
                    out = out | (F(BYTES) if name == "struct.pack" else UNK)
            return out
        if name in ("collections.namedtuple",) and n >= 2:
            fs = None
            for y in args[1]:
                if y[0] == 'str' and y[1] is not None:
                    fs = tuple(y[1].replace(",", " ").split())
            if fs is None and isinstance(e.args[1], (ast.List, ast.Tuple)) and all(isinstance(z, ast.Constant) for z in e.args[1].elts):
                fs = tuple(z.value for z in e.args[1].elts)
            nm = [y[1] for y in args[0] if y[0] == 'str']
            if fs is not None:
                nd = 0
                if kw:
                    nd = len(fs)
                return F(('ntc', nm[0] if nm else "namedtuple", fs, nd))
            return UNK
        if name in ("copy.copy", "copy.deepcopy") and n:
            return args[0]
        if name in ("xml.etree.ElementTree.SubElement", "xml.etree.ElementTree.Element"):
            for v in kw.values():
                self.text_needed(v, fr, e, "an XML attribute")
            for y in (args[-1] if n else EMPTY):
                if y[0] == 'dict':
                    for f in list(self.names_of(y)):
                        if isinstance(f, tuple):
                            self.text_needed(self.get(y, f), fr, e, "an XML attribute")
            return F(('x', "xml.etree.ElementTree.Element"))
        if name in ("xml.etree.ElementTree.fromstring", "xml.etree.ElementTree.XML"):
            return F(('x', "xml.etree.ElementTree.Element"))
        if name in ("xml.etree.ElementTree.parse", "xml.etree.ElementTree.ElementTree"):
            return F(('x', "xml.etree.ElementTree.ElementTree"))
        if name == "xml.etree.ElementTree.tostring":
            enc = kw.get("encoding") or (args[1] if n > 1 else None)
            if enc is None:
                return F(BYTES)
            cs = [y[1] for y in enc if y[0] == 'str']
            if len(cs) == 1 and len(enc) == 1 and cs[0] is not None:
                return F(STR) if cs[0] == "unicode" else F(BYTES)
            return F(STR, BYTES)
        if name in ("io.BytesIO", "io.StringIO"):
            return F(('x', name))
        if name in ("str", "repr", "format", "ascii"):
            return F(STR)
        if name in ("os.path.join", "os.path.abspath", "os.path.normpath", "os.path.dirname", "os.path.basename", "os.path.realpath",
                    "os.path.expanduser") and n:
            if name == "os.path.join" and star is None:
                for i in range(n - 1):
                    self.pairs(args[i], args[i + 1], lambda x, y: {x[0], y[0]} == {'str', 'bytes'} or x[0] in NUMS or y[0] in NUMS
                               or x[0] in ('list', 'dict') or y[0] in ('list', 'dict'), fr, e, "joined as a path with")
            if any(y[0] == 'str' for a in args for y in a):
                return F(STR)
            return UNK
        if name in ("os.path.split", "os.path.splitext"):
            return F(tup([F(STR), F(STR)])) if n and all(y[0] == 'str' for y in args[0]) else UNK
        if name == "os.listdir":
            s = ('list', id(e), None)
            self.put(s, '[]', F(STR) if not n or all(y[0] == 'str' for y in args[0]) else UNK)
            return F(s)
        if name == "bytes":
            return F(BYTES)
        for a in args + list(kw.values()):
            self.escape(a)
            fns = frozenset(y for y in a if y[0] == 'fn')
            for f in fns:
                self.start_unknown(f)
        return UNK

    def prefix(self, e, fr):
        if isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            return e.left.value.split("%")[0]
        if isinstance(e, ast.JoinedStr) and e.values and isinstance(e.values[0], ast.Constant):
            return str(e.values[0].value)
        if isinstance(e, ast.Name) and not isinstance(fr.func, str):
            vals = [n.value for n in ast.walk(fr.func.node) if isinstance(n, ast.Assign) and len(n.targets) == 1
                    and isinstance(n.targets[0], ast.Name) and n.targets[0].id == e.id]
            if len(vals) == 1 and not isinstance(vals[0], ast.Name):
                return self.prefix(vals[0], fr)
        return ""

    def start_unknown(self, f):
        """a function handed to library code: called there with arguments of unknown kind"""
        ps = f[1].params()
        args = {}
        if f[2] is not None and ps:
            args[ps[0]] = F(f[2])
        self.demand(f[1], f[3], self.fill(f[1], args, UNK))

    def library_signature(self, name, args, kw, e, fr):
        import inspect
        fn = pyobj(name)
        if fn is None or name in NOSIG and name not in BUILTIN_ARITY or not callable(fn):
            return
        if name in NOSIG:
            _SIGS[name] = None
        if name not in _SIGS:
            try:
                _SIGS[name] = inspect.signature(fn)
            except (ValueError, TypeError):
                _SIGS[name] = None
        s = _SIGS[name]
        if s is None:
            lim = BUILTIN_ARITY.get(name)
            if lim:
                self.count("library calls", e)
                if not lim[0] <= len(args) <= lim[1] and not kw:
                    self.report("call", fr, e, "%s takes %d to %d arguments, %d given" % (name, lim[0], lim[1], len(args)))
            return
        self.count("library calls", e)
        try:
            s.bind(*([0] * len(args)), **{k: 0 for k in kw})
        except TypeError as ex:
            self.report("call", fr, e, "%s: %s" % (name, ex))


_SIGS = {}
NOSIG = {"dict", "type", "super", "print", "zip", "map", "filter", "enumerate", "range"}
RESULTS = {"len": F(INT), "int": F(INT), "ord": F(INT), "hash": F(INT), "id": F(INT), "float": F(FLOAT), "bool": F(BOOL),
           "isinstance": F(BOOL), "hasattr": F(BOOL), "callable": F(BOOL), "any": F(BOOL), "all": F(BOOL), "chr": F(STR),
           "hex": F(STR), "bin": F(STR), "oct": F(STR), "time.time": F(FLOAT), "math.ceil": F(INT), "math.floor": F(INT),
           "struct.calcsize": F(INT), "os.path.exists": F(BOOL), "os.path.isfile": F(BOOL), "os.path.isdir": F(BOOL),
           "os.path.getsize": F(INT), "calendar.timegm": F(INT), "time.strftime": F(STR), "binascii.hexlify": F(BYTES),
           "base64.b64encode": F(BYTES), "base64.b64decode": F(BYTES), "int.from_bytes": F(INT), "issubclass": F(BOOL),
           "bytes.fromhex": F(BYTES), "binascii.unhexlify": F(BYTES), "input": F(STR), "os.getcwd": F(STR),
           "math.log": F(FLOAT), "math.sqrt": F(FLOAT), "bytearray": F(BARR), "urllib.parse.quote": F(STR),
           "urllib.parse.unquote": F(STR), "xml.sax.saxutils.escape": F(STR), "time.perf_counter": F(FLOAT)}
PURE = set(RESULTS)
BUILTIN_ARITY = {"range": (1, 3), "next": (1, 2), "iter": (1, 2), "struct.Struct": (1, 1), "bool": (0, 1), "enumerate": (1, 2),
                 "min": (1, 99), "max": (1, 99), "getattr": (2, 3)}
CLOSED = {"xml.etree.ElementTree.Element", "xml.etree.ElementTree.ElementTree", "io.BytesIO", "io.StringIO"}
ELEM = "xml.etree.ElementTree.Element"
XFIELDS = {ELEM: {"attrib": F(('xattrib',)), "tag": F(STR), "text": F(STR, NONE), "tail": F(STR, NONE)}}
ITERATORS = (type(x for x in ()), type({}.items()), type({}.keys()), type({}.values()), range, zip, map, enumerate, filter)
ARITY = {('gen', 'send'): (1, 1), ('list', 'append'): (1, 1), ('list', 'insert'): (2, 2), ('list', 'pop'): (0, 1), ('list', 'remove'): (1, 1),
         ('list', 'index'): (1, 3), ('list', 'reverse'): (0, 0), ('set', 'add'): (1, 1), ('dict', 'get'): (1, 2),
         ('dict', 'items'): (0, 0), ('dict', 'keys'): (0, 0), ('dict', 'values'): (0, 0), ('dict', 'pop'): (1, 2),
         ('dict', 'setdefault'): (1, 2), ('list', 'extend'): (1, 1)}


def stdlib(name):
    """a standard library module, or None"""
    if name in _MODS:
        return _MODS[name]
    import sys
    r = None
    if name.split(".")[0] in sys.stdlib_module_names and name.split(".")[0] not in ("antigravity", "this", "idlelib"):
        try:
            r = importlib.import_module(name)
        except Exception:
            r = None
    _MODS[name] = r
    return r


_MODS = {}


def pyobj(name):
    if hasattr(builtins, name):
        return getattr(builtins, name)
    mod, _, attr = name.rpartition(".")
    if not mod:
        return None
    m = stdlib(mod)
    if m is not None:
        return getattr(m, attr, None)
    return None


def pytype(name):
    o = pyobj(name)
    return o if isinstance(o, type) else None


def of_const(v):
    if v is None:
        return NONE
    if isinstance(v, bool):
        return BOOL
    if isinstance(v, int):
        return INT
    if isinstance(v, float):
        return FLOAT
    if isinstance(v, str):
        return ('str', v)
    if isinstance(v, bytes):
        return ('bytes', v)
    return ANY


def tiny(v, depth=0):
    """kinds kept inside tuples: no deep nesting"""
    out = set()
    for x in v:
        if x[0] == 'tuple' and depth >= 2:
            return UNK
        if x[0] == 'nt' and depth >= 1:
            x = x[:3] + (None,)
        out.add(x)
    return frozenset(out)


def nest(x):
    if x[0] != 'tuple':
        return 0
    return 1 + max([nest(z) for y in x[1] for z in y] or [0])


def tup(vals):
    out = []
    for v in vals:
        v = widen(v)
        if any(nest(x) >= 3 for x in v):
            v = UNK
        out.append(frozenset(STRIP(x) for x in v))
    if len(out) > 24:
        return ANY
    return ('tuple', tuple(out))


def STRIP(x):
    if x[0] in ('str', 'bytes') and x[1] is not None and len(x[1]) > 200:
        return (x[0], None)
    return x


def widen(v):
    if ANY in v:
        return UNK
    if len(v) > 3:
        for k in ('str', 'bytes'):
            cs = [x for x in v if x[0] == k]
            if len(cs) > 6 or (len(cs) > 1 and (k, None) in v):
                v = frozenset(x for x in v if x[0] != k) | F((k, None))
        ts = [x for x in v if x[0] in ('tuple', 'nt')]
        if len(ts) > 6:
            return UNK
        if len(v) > 24:
            return UNK
    elif len(v) > 1:
        for k in ('str', 'bytes'):
            if (k, None) in v:
                v = frozenset(x for x in v if x[0] != k or x[1] is None)
    return v


def generic(v):
    """argument kinds as a context: texts lose their constants"""
    return frozenset((x[0], None) if x[0] in ('str', 'bytes') else x for x in v)


def canon(v):
    return tuple(sorted(repr(x) for x in v))


TEXTRES = {"split": None, "rsplit": None, "splitlines": None, "startswith": F(BOOL), "endswith": F(BOOL), "encode": F(BYTES),
           "decode": F(STR), "strip": F(STR, BYTES), "lstrip": F(STR, BYTES), "rstrip": F(STR, BYTES), "upper": F(STR, BYTES),
           "lower": F(STR, BYTES), "isdigit": F(BOOL), "isalpha": F(BOOL), "zfill": F(STR, BYTES), "hex": F(STR)}


def mentioned(py):
    """names of attributes that the source of a library class mentions (or anything, when its source is not there)"""
    if py not in _MENT:
        import inspect
        out = set()
        for c in py.__mro__:
            if hasattr(c, "__getattr__"):
                out = Everything()
                break
            if c is object or c.__module__ == "builtins":
                continue
            try:
                out.update(re.findall(r"\.(\w+)", inspect.getsource(c)))
            except (OSError, TypeError):
                if hasattr(c, "__dict__") and "__dict__" in c.__dict__:
                    out = Everything()
                    break
        _MENT[py] = out
    return _MENT[py]


_MENT = {}


class Everything(object):
    def __contains__(self, x):
        return True


def imports(program):
    libs, foreign = set(), set()
    for m in program.modules.values():
        for n in ast.walk(m.tree):
            names = []
            if isinstance(n, ast.Import):
                names = [a.name for a in n.names]
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                names = [n.module] + [n.module + "." + a.name for a in n.names]
            for i, x in enumerate(names):
                if stdlib(x) is not None:
                    libs.add(x)
                elif x.split(".")[0] not in {y.split(".")[0] for y in program.modules} and (i == 0 or isinstance(n, ast.Import)) \
                        and not any(y.endswith("." + x) for y in program.modules):
                    foreign.add(m.name)
    return libs, foreign


def library_names(program):
    """names of all attributes of the modules of the standard library that are imported, of their classes and of the built-ins"""
    libs, foreign = imports(program)
    out = set(dir(builtins))
    types = [x for x in vars(builtins).values() if isinstance(x, type)] + list(ITERATORS) + [
        type(lambda: 0), type(re), type(re.compile("")), type(re.match("", "")), type((lambda: 0).__code__)]
    for name in libs:
        m = stdlib(name)
        out.update(dir(m))
        for v in vars(m).values():
            if isinstance(v, type):
                types.append(v)
            elif isinstance(v, type(re)):
                out.update(dir(v))
        try:
            import inspect
            out.update(re.findall(r"\.(\w+)", inspect.getsource(m)))
        except (OSError, TypeError):
            pass
    for ty in types:
        out.update(dir(ty))
    return out, foreign


def universe(program):
    out, foreign = library_names(program)
    out = set(out)
    for m in program.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.keyword) and n.arg:
                out.add(n.arg)
            elif isinstance(n, ast.alias):
                out.update((n.asname or n.name).split("."))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)):
                v = n.value if isinstance(n.value, str) else n.value.decode("latin-1")
                out.update(re.findall(r"\w+", v.replace("-", "_")) if len(v) < 400 else ())
    return out, foreign


def bin_kind(op, x, y):
    """resulting kinds of x op y, None when it must fail"""
    a, b = x[0], y[0]
    if isinstance(op, ast.Add) and 'any' in (a, b):
        for k in ('str', 'bytes'):
            if k in (a, b):
                return F((k, None))
    if a not in PYTYPE and a not in ('gen', 'mod', 'cls', 'struct', 'file') or b not in PYTYPE and b not in (
            'gen', 'mod', 'cls', 'struct', 'file'):
        return UNK
    num = a in NUMS and b in NUMS
    if isinstance(op, ast.Add):
        if num:
            return F(FLOAT) if 'float' in (a, b) else F(INT)
        if a == b == 'str':
            return F(STR)
        if a in ('bytes', 'bytearray') and b in ('bytes', 'bytearray'):
            return F(BYTES) if a == 'bytes' else F(BARR)
        if a == b == 'list':
            return F(('list', 'new'))
        if a in ('tuple', 'nt') and b in ('tuple', 'nt'):
            if a == b == 'tuple':
                return F(tup(list(x[1]) + list(y[1])))
            return UNK
        return None
    if isinstance(op, ast.Sub):
        if num:
            return F(FLOAT) if 'float' in (a, b) else F(INT)
        return F(('set', 'new')) if a == b == 'set' else (UNK if 'gen' in (a, b) else None)
    if isinstance(op, ast.Mult):
        if num:
            return F(FLOAT) if 'float' in (a, b) else F(INT)
        for p, q in ((x, y), (y, x)):
            if p[0] in ('str', 'bytes', 'bytearray', 'list', 'tuple', 'nt') and q[0] in ('int', 'bool'):
                return F((p[0], None)) if p[0] in ('str', 'bytes') else (F(p) if p[0] in ('list', 'bytearray') else UNK)
        return None
    if isinstance(op, ast.Div):
        return F(FLOAT) if num else None
    if isinstance(op, (ast.FloorDiv, ast.Pow)):
        return (F(FLOAT) if 'float' in (a, b) else (F(INT) if isinstance(op, ast.FloorDiv) else F(INT, FLOAT))) if num else None
    if isinstance(op, ast.Mod):
        if a in ('str', 'bytes'):
            return F((a, None))
        return (F(FLOAT) if 'float' in (a, b) else F(INT)) if num else None
    if isinstance(op, (ast.LShift, ast.RShift)):
        return F(INT) if a in ('int', 'bool') and b in ('int', 'bool') else None
    if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
        if a in ('int', 'bool') and b in ('int', 'bool'):
            return F(BOOL) if a == b == 'bool' else F(INT)
        if a == b == 'set':
            return F(('set', 'new'))
        if a == b == 'dict' and isinstance(op, ast.BitOr):
            return UNK
        return UNK if 'gen' in (a, b) else None
    return UNK


def never_equal(x, y):
    """text and bytes, text and numbers"""
    grp = {'bytearray': 'bytes', 'int': 'num', 'float': 'num', 'bool': 'num'}
    a, b = grp.get(x[0], x[0]), grp.get(y[0], y[0])
    return {a, b} in ({'str', 'bytes'}, {'str', 'num'}, {'bytes', 'num'})


def order_fails(x, y):
    a, b = x[0], y[0]
    if a not in PYTYPE or b not in PYTYPE:
        return False
    if a in NUMS and b in NUMS:
        return False
    grp = {'bytearray': 'bytes', 'nt': 'tuple'}
    a, b = grp.get(a, a), grp.get(b, b)
    if a == b and a not in ('dict', 'none'):
        return False
    return True


def in_fails(x, y):
    a, b = x[0], y[0]
    if b in NUMS or b in ('fn', 'mod'):
        return True
    if b == 'str' and a in PYTYPE:
        return a != 'str'
    if b in ('bytes', 'bytearray') and a in PYTYPE:
        return a not in ('bytes', 'bytearray', 'int', 'bool')
    return False


def text_arg_fails(k, name, y):
    if y[0] == 'none':
        return name not in ("strip", "lstrip", "rstrip", "split", "rsplit") and False
    if y[0] == 'tuple':
        return name not in ("startswith", "endswith")
    if k == 'str':
        return y[0] != 'str'
    if y[0] in ('int', 'bool') and name in ("find", "rfind", "index", "rindex", "count"):
        return False
    return y[0] not in ('bytes', 'bytearray')


def builtin_fails(name, y):
    k = y[0]
    if name == "len":
        return k in NUMS or k in ('fn', 'mod', 'gen', 'file', 'none')
    if name == "ord":
        return k in PYTYPE and k not in ('str', 'bytes', 'bytearray') or (k in ('str', 'bytes') and y[1] is not None and len(y[1]) != 1)
    if name == "abs":
        return k in PYTYPE and k not in NUMS
    if name in ("int", "float"):
        return k in PYTYPE and k not in NUMS and k not in ('str', 'bytes', 'bytearray')
    if name == "sum":
        return k in NUMS or k == 'mod'
    return False


CONV = re.compile(r"%(?:\((?P<name>[^)]*)\))?(?P<flags>[-#0 +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)", re.S)


def conversions(fmt):
    """[(name, conversion)] or None when malformed"""
    s = fmt if isinstance(fmt, str) else fmt.decode("latin-1")
    out = []
    i = 0
    while True:
        i = s.find("%", i)
        if i < 0:
            return out
        m = CONV.match(s, i)
        if m is None or m.group("c") not in "diouxXeEfFgGcrsab%":
            return None
        for g in ("w", "p"):
            if m.group(g) == "*":
                out.append((None, "d"))
        if m.group("c") != "%":
            nm = m.group("name")
            out.append((nm if nm is None or isinstance(fmt, str) else nm.encode("latin-1"), m.group("c")))
        i = m.end()


SCALARS = {"int", "float", "abs", "round", "ord", "chr", "os.path.join", "os.path.splitext", "join", "splitext", "open",
           "os.path.exists", "exists", "str"}


def scalars(node, skip):
    """names and attributes used as numbers or texts"""
    if node not in _SCAL:
        names, attrs = [], set()

        def add(x):
            if isinstance(x, ast.Name):
                names.append(x)
            elif isinstance(x, ast.Attribute):
                attrs.add(x.attr)

        def number(x):
            return isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) or isinstance(x, (ast.Name, ast.Attribute)) or \
                isinstance(x, ast.BinOp) and not (isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant))
        for n in ast.walk(node):
            if isinstance(n, ast.BinOp):
                if isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv)):
                    add(n.left)
                    add(n.right)
                elif isinstance(n.op, (ast.Add, ast.Mult)):
                    for x, y in ((n.left, n.right), (n.right, n.left)):
                        if isinstance(y, ast.Constant) and (isinstance(n.op, ast.Add) or isinstance(y.value, float)):
                            add(x)
                elif isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Tuple):
                    for x in n.right.elts:
                        add(x)
            elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                for x, y in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
                    if isinstance(y, ast.Constant) and y.value is not None:
                        add(x)
                if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    add(n.left)
                    add(n.comparators[0])
            elif isinstance(n, ast.Call):
                if ast.unparse(n.func) in SCALARS:
                    for x in n.args:
                        add(x)
                if isinstance(n.func, ast.Attribute) and n.func.attr in TEXTRES:
                    add(n.func.value)
            elif isinstance(n, ast.FormattedValue):
                add(n.value)
            elif isinstance(n, ast.Subscript):
                add(n.slice)
        _SCAL[node] = (names, attrs)
    names, attrs = _SCAL[node]
    return {x.id for x in names if x is not skip}, attrs


_SCAL = {}


def percent_fails(c, z, fmtkind):
    k = z[0]
    if k == 'any' or k not in PYTYPE and k not in ('gen', 'mod', 'cls', 'fn'):
        return False
    if c in "di":
        return k not in NUMS
    if c in "uoxX":
        return k not in ('int', 'bool') and not (c == "u" and k == 'float')
    if c in "eEfFgG":
        return k not in NUMS
    if c == "c":
        return k not in ('int', 'bool', 'str', 'bytes')
    if fmtkind == 'bytes' and c in "sb":
        return k not in ('bytes', 'bytearray')
    return False


def struct_kinds(fmt):
    struct.calcsize(fmt)
    out = []
    f = fmt.strip()
    if f and f[0] in "@=<>!":
        f = f[1:]
    for n, c in re.findall(r"(\d*)([a-zA-Z?])", f):
        k = int(n) if n else 1
        if c == 'x':
            continue
        if c in 'sp':
            out.append('bytes')
        elif c == 'c':
            out += ['bytes'] * k
        elif c in 'efd':
            out += ['float'] * k
        else:
            out += ['int'] * k
    return out


def odd(f):
    return any(d not in ("property", "staticmethod", "classmethod", "setter", "getter", "abstractmethod") for d in f.decorators) \
        or len(f.decorators) != len(f.node.decorator_list)


_LOC = {}


def locals_of(fn):
    r = _LOC.get(id(fn))
    if r is not None and r[0] is fn:
        return r[1]
    out = set()
    if isinstance(fn, ast.Lambda):
        _LOC[id(fn)] = (fn, out)
        return out
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    _LOC[id(fn)] = (fn, out)
    return out


def leaves(n):
    """whether a branch of the statement leaves the block"""
    return any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for x in ast.walk(n))


def const_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (str, int, bytes)) and not isinstance(e.value, bool):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
        return -e.operand.value if isinstance(e.operand.value, int) else None
    return None


def as_load(tg):
    if isinstance(tg, ast.Name):
        r = ast.Name(tg.id, ast.Load())
    elif isinstance(tg, ast.Attribute):
        r = ast.Attribute(tg.value, tg.attr, ast.Load())
    elif isinstance(tg, ast.Subscript):
        r = ast.Subscript(tg.value, tg.slice, ast.Load())
    else:
        return tg
    return ast.copy_location(r, tg)


def show(vals):
    out = []
    for x in sorted(vals, key=repr):
        if x[0] == 'inst':
            s = x[1].name
        elif x[0] == 'cls':
            s = "class " + x[1].name
        elif x[0] == 'mod':
            s = "module " + x[1].name
        elif x[0] == 'fn':
            s = "function " + x[1].name
        elif x[0] in ('ext', 'x'):
            s = x[1]
        elif x[0] == 'nt':
            s = x[1]
        elif x[0] == 'super':
            s = "super() of " + x[1].name
        else:
            s = x[0]
        if s not in out:
            out.append(s)
    return " or ".join(out)


class MEnv(object):
    """variables of a module or class body: flow-insensitive, kept in the heap"""
    def __init__(self, an, module, cls=None):
        self.an, self.module, self.cls = an, module, cls

    def assign(self, name, v):
        self.an.put(('a', self.cls.qual) if self.cls is not None else ('mod', self.module.name), name, v)

    def lookup(self, name):
        if self.cls is not None:
            v = self.an.get(('a', self.cls.qual), name)
            if v:
                return v
            if name in self.cls.methods:
                return F(('fn', self.cls.methods[name], None, None))
        return self.an.get(('mod', self.module.name), name) or None

    def get(self, name, d=None):
        return self.lookup(name) or d


class LEnv(MEnv):
    def __init__(self, base, names):
        if isinstance(base, MEnv):
            MEnv.__init__(self, base.an, base.module, base.cls)
        self.base, self.names = base, dict(names)

    def assign(self, name, v):
        self.names[name] = v

    def lookup(self, name):
        if name in self.names:
            return self.names[name]
        return self.base.lookup(name)
