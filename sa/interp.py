"""Gated value-flow analysis of functions: every variable, attribute and container at every point gets a value term.

Branches are analysed separately and joined (gated terms), loops are summarised by their transfer functions (closed
forms for counters, sums, appends, searches; recurrences otherwise), calls to project functions are inlined.  No
program path is enumerated and nothing is executed.
"""
import ast
import builtins
import itertools

from . import terms as t
from .terms import T, K, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, mk, weak, isk, is_ki, is_ks, is_kb, ite, and_, or_, not_
from .compare import Facts, assume, simp
from .program import Func


class Unsupported(Exception):
    pass


class Dead(Exception):
    """control does not continue after this expression/statement"""


class Obj(object):
    __slots__ = ("kind", "cls", "d", "lazy", "base")

    def __init__(self, kind, cls=None, d=None, lazy=False, base=None):
        self.kind = kind      # 'inst' 'list' 'dict'
        self.cls = cls
        self.d = d            # attrs dict | list of entries | dict key->value
        self.lazy = lazy      # inst: unknown attributes are symbolic;  dict: reads fall through to base
        self.base = base

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.d) if self.kind != 'list' else list(self.d), self.lazy, self.base)


class State(object):
    __slots__ = ("env", "heap", "pc", "facts")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.pc = TRUE
        self.facts = Facts()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.facts = self.facts
        return s


class Frame(object):
    def __init__(self, func, module, parent_env=None):
        self.func = func
        self.module = module
        self.exits = []          # (kind, pc, value, state)
        self.loops = []          # loop contexts
        self.yield_ref = None
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.closure = parent_env      # (frame of the enclosing function, closure id)
        self.caller_env = {}


class LoopCtx(object):
    def __init__(self):
        self.breaks = []
        self.continues = []


def refine(x, f):
    """x with the parts of nested lists simplified under the conditions they are guarded by"""
    if f is None:
        return x
    if x.op == 'ite':
        c = simp(x.args[0], f)
        if c is TRUE or c is FALSE:
            return refine(x.args[1] if c is TRUE else x.args[2], f)
        return ite(c, refine(x.args[1], assume(f, c, True)), refine(x.args[2], assume(f, c, False)))
    if x.op == 'listt':
        out = []
        for e in x.args[0]:
            if e.op in ('gi', 'spread'):
                g = simp(e.args[0], f)
                if g is FALSE:
                    continue
                v = refine(e.args[1], assume(f, g, True) if g is not TRUE else f)
                if e.op == 'spread' and g is TRUE and v.op == 'listt':
                    out += list(v.args[0])
                else:
                    out.append(mk(e.op, g, v))
            else:
                out.append(e)
        if len(out) == 1 and out[0].op == 'spread' and out[0].args[0] is TRUE and t.ty(out[0].args[1]) == 'L':
            return out[0].args[1]
        return t.listt(out)
    return simp(x, f)


class Loop(object):
    """summary of a loop with recurrences"""

    def __init__(self, lid, kind, it, cond):
        self.lid = lid
        self.kind = kind
        self.iter = it
        self.cond = cond
        self.init = {}
        self.next = {}
        self.phs = {}

    def closure(self, k):
        out = [k]
        todo = [k]

        def scan(x):
            for kk, p in self.phs.items():
                if kk not in out and t.mentions(x, p):
                    out.append(kk)
                    todo.append(kk)
        if self.cond is not None:
            scan(self.cond)
        while todo:
            scan(self.next[todo.pop()])
        return out

    def mu(self, k):
        """self-contained recurrence term of carried value k (companions in a structural order)"""
        cl = self.closure(k)
        blank = {p: mk('ph', '_', '_', p.args[2]) for p in self.phs.values()}

        def sig(x):
            return (t.subst(self.init[x], blank).key, t.subst(self.next[x], blank).key)
        rest = sorted(cl[1:], key=sig)
        order = [k] + rest
        ren = {self.phs[x]: mk('ph', self.lid, "k%d" % i, self.phs[x].args[2]) for i, x in enumerate(order)}

        def f(x):
            return t.subst(x, ren)
        return mk('mu', self.lid, "k0", self.phs[k].args[2], self.kind, self.iter if self.iter is not None else NONE,
                  f(self.cond) if self.cond is not None else NONE,
                  tuple(ren[self.phs[x]] for x in order),
                  tuple(self.init[x] for x in order), tuple(f(self.next[x]) for x in order))


EV = mk('ref', 'events')
ABSENT = UNDEF
IGNORED_CALLS = {'print', 'traceback.print_exc', 'logging.debug', 'logging.info', 'logging.warning', 'logging.error',
                 'sys.stderr.write', 'sys.stdout.write', 'sys.exit_', 'warnings.warn'}
IMPURE = {'time.time', 'random.randint', 'random.random', 'random.choice', 'random.getrandbits', 'uuid.uuid4',
          'time.sleep', 'os.remove', 'os.unlink', 'os.rename', 'os.system', 'os.makedirs', 'os.mkdir', 'input',
          'datetime.datetime.utcnow', 'datetime.datetime.now', 'time.monotonic'}
ALIASES = {'xml.etree.cElementTree': 'ET', 'xml.etree.ElementTree': 'ET', 'math.floor': 'floor', 'math.ceil': 'ceil',
           'os.path.join': 'os.path.join', 'posixpath.join': 'os.path.join'}
PACK = {'B': (1, 'u'), 'H': (2, 'u'), 'I': (4, 'u'), 'L': (4, 'u'), 'Q': (8, 'u'),
        'b': (1, 'i'), 'h': (2, 'i'), 'i': (4, 'i'), 'l': (4, 'i'), 'q': (8, 'i')}
MAXDEPTH = 40
MAXUNROLL = 24


def widened(ty, nv):
    "type of a loop variable of type ty that may also get the value nv"
    if t.isnone(nv) is not FALSE:
        return '?'
    k = t.ty(nv)
    if k == ty or ty == 'n' and k in ('i', 'B') or ty == 'i' and k == 'B':
        return ty
    if ty in ('i', 'B') and k in ('i', 'n', 'B'):
        return 'n' if 'n' in (ty, k) else 'i'
    return '?'


_LOCALS = {}


def locals_of(node):
    "names that are local to the function because it binds them somewhere"
    r = _LOCALS.get(node)
    if r is None:
        r = set()
        decl = set()
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            todo = list(node.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    decl.update(x.names)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    r.add(x.id)
                todo.extend(ast.iter_child_nodes(x))
        r -= decl
        _LOCALS[node] = r
    return r


class Interp(object):
    def __init__(self, program, overrides=None, consts=None):
        self.maxrec = 2         # nested activations of one function
        self.p = program
        self.overrides = overrides or {}      # function qual -> handler(interp, bound args dict, call info)
        self.consts = consts or {}            # 'module.NAME' -> term
        self.loops = {}
        self.ids = itertools.count(1)
        self.frames = []
        self.st = State()
        self.st.heap[EV] = Obj('list', d=[])
        self.closures = {}
        self.counters = {}
        self.mutated_names = {}
        self.trylevel = []                    # list of handler-class-name sets
        self.visited = {}                     # func qual -> number of times analysed
        self.notes = []
        self.callsites = 0
        self.globals_cache = {}
        self.method_overrides = {}
        self.patterns = {}
        self.call_overrides = {}              # external dotted name -> handler
        self.symcls = {}
        self.stmt_node = None
        self.loopstack = []
        self.raising = set()                  # external functions that may raise
        self.closure_env = {}
        self.closure_ids = {}

    # ------------------------------------------------------------------ helpers
    def fresh(self):
        return next(self.ids)

    def newref(self, obj):
        r = mk('ref', self.fresh())
        self.st.heap[r] = obj
        return r

    def new_list(self, entries):
        return self.newref(Obj('list', d=list(entries)))

    def sym(self, name, cls=None, ty='?', attrs=None):
        """a symbolic object whose unknown attributes are input terms"""
        v = t.var(name, ty)
        c = self.p.cls(cls) if isinstance(cls, str) else cls
        self.st.heap[v] = Obj('inst', c, dict(attrs or {}), lazy=True)
        return v

    def note(self, msg, node=None):
        self.notes.append(msg if node is None else "%s (line %s)" % (msg, getattr(node, "lineno", "?")))

    @property
    def frame(self):
        return self.frames[-1]

    def obj(self, term):
        return self.st.heap.get(term)

    def wobj(self, term):
        o = self.st.heap[term].copy()
        self.st.heap[term] = o
        return o

    def emit(self, kind, *args):
        ev = mk('ev', kind, tuple(self.reify(a) for a in args))
        self.wobj(EV).d.append(mk('gi', TRUE, ev))

    def counter(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return n

    # ------------------------------------------------------------------ branching
    def cond(self, c):
        """simplify a condition under the facts of the current region"""
        if c is TRUE or c is FALSE:
            return c
        return simp(c, self.st.facts)

    def branch(self, c, fa, fb):
        """run fa where c holds and fb elsewhere, join states; value ite(c, a, b)"""
        c = self.cond(c)
        if c is TRUE:
            return fa()
        if c is FALSE:
            return fb()
        st0 = self.st
        f1 = assume(st0.facts, c, True)
        f2 = assume(st0.facts, c, False)
        if f1 is None:
            return fb()
        if f2 is None:
            return fa()
        s1 = st0.copy()
        s1.pc = and_(st0.pc, c)
        s1.facts = f1
        self.st = s1
        va = vb = None
        try:
            va = fa()
            ea = self.st
        except Dead:
            ea = None
        s2 = st0.copy()
        s2.pc = and_(st0.pc, not_(c))
        s2.facts = f2
        self.st = s2
        try:
            vb = fb()
            eb = self.st
        except Dead:
            eb = None
        if ea is None and eb is None:
            self.st = st0
            raise Dead()
        if ea is None:
            self.st = eb
            return vb
        if eb is None:
            self.st = ea
            return va
        if ea.pc is s1.pc and eb.pc is s2.pc:
            npc = st0.pc
        else:
            npc = or_(ea.pc, eb.pc)
        self.st = self.merge(c, ea, eb)
        self.st.pc = npc
        self.st.facts = st0.facts
        if va is None or vb is None:
            return None
        return self.ite_val(c, va, vb)

    def ite_val(self, c, a, b):
        return ite(c, a, b)

    def merge(self, c, a, b):
        if a is b:
            return a
        s = State()
        s.facts = a.facts if a.facts is b.facts else Facts()
        env = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            env[k] = x if x is y else ite(c, x, y)
        s.env = env
        heap = dict(a.heap)
        for k, oa in a.heap.items():
            if k.op != 'ref' and k not in b.heap:       # a symbolic value touched in one state only
                heap[k] = self.merge_obj(c, oa, untouched(k, oa), k)
        for k, ob in b.heap.items():
            oa = a.heap.get(k)
            if oa is None and k.op == 'ref':
                heap[k] = ob
            elif oa is None:
                heap[k] = self.merge_obj(c, untouched(k, ob), ob, k)
            elif oa is not ob:
                heap[k] = self.merge_obj(c, oa, ob, k)
        s.heap = heap
        s.pc = a.pc
        return s

    def merge_obj(self, c, a, b, key):
        if a.kind != b.kind:
            return Obj('inst', None, {}, lazy=True)
        if a.kind == 'inst':
            d = {}
            for k in list(a.d) + [x for x in b.d if x not in a.d]:
                x = a.d.get(k)
                y = b.d.get(k)
                if x is None:
                    x = mk('attr', key, k) if a.lazy else UNDEF
                if y is None:
                    y = mk('attr', key, k) if b.lazy else UNDEF
                d[k] = x if x is y else ite(c, x, y)
            return Obj('inst', a.cls or b.cls, d, a.lazy or b.lazy, a.base)
        if a.kind == 'dict':
            d = {}
            for k in list(a.d) + [x for x in b.d if x not in a.d]:
                x = a.d.get(k)
                y = b.d.get(k)
                if x is None:
                    x = mk('dbase', a.base, k) if a.base is not None else UNDEF
                if y is None:
                    y = mk('dbase', b.base, k) if b.base is not None else UNDEF
                d[k] = x if x is y else ite(c, x, y)
            return Obj('dict', None, d, a.lazy or b.lazy, a.base)
        # lists
        xs, ys = a.d, b.d
        if len(xs) == len(ys) and all(e.op == 'gi' and e.args[0] is TRUE for e in xs) and \
                all(e.op == 'gi' and e.args[0] is TRUE for e in ys):
            return Obj('list', d=[e if e is f else mk('gi', TRUE, ite(c, e.args[1], f.args[1]))
                                  for e, f in zip(xs, ys)])
        n = 0
        while n < len(xs) and n < len(ys) and xs[n] is ys[n]:
            n += 1
        out = list(xs[:n])
        out += [gate(c, e) for e in xs[n:]]
        out += [gate(not_(c), e) for e in ys[n:]]
        return Obj('list', d=[e for e in out if e is not None])

    def merge_many(self, items):
        """items: list of (pc, value, state) with mutually exclusive pcs -> (value, state)"""
        pcs = [i[0] for i in items]
        if len(items) == 1:
            return items[0][1], items[0][2]
        # common conjuncts are dropped
        sets = [set(p.args[0]) if p.op == 'and' else {p} for p in pcs]
        common = set.intersection(*sets) if sets else set()
        conds = []
        known_false = set()
        for p, s in zip(pcs, sets):
            rest = [x for x in s if x not in common and not_(x) not in known_false]
            c = and_(*rest)
            conds.append(c)
            known_false.add(c)
        val, st = items[-1][1], items[-1][2]
        for i in range(len(items) - 2, -1, -1):
            c = conds[i]
            _, v, s = items[i]
            m = self.merge(c, s, st)
            st = m
            if val is not None or v is not None:
                val = ite(c, v if v is not None else UNDEF, val if val is not None else UNDEF)
        st = st.copy() if st in [i[2] for i in items] else st
        st.pc = or_(*pcs)
        return val, st

    # ------------------------------------------------------------------ reification
    def reify(self, term, memo=None, depth=0):
        """replace heap references inside a term by structural terms"""
        if not isinstance(term, T):
            return term
        if memo is None:
            memo = {}
        heap = self.st.heap

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            if x.op == 'ref' or (x in heap and x.op != 'var'):
                o = heap.get(x)
                if o is None:
                    return x
                memo[x] = mk('cyc', str(x.args[0])) if x.op == 'ref' else x
                if o.kind == 'list':
                    r = t.listt([go(e) for e in o.d])
                elif o.kind == 'dict':
                    r = mk('dictt', tuple((k, TRUE, go(v)) for k, v in
                                          sorted(((go(k), v) for k, v in o.d.items()), key=lambda z: z[0].key)
                                          if v is not UNDEF), go(o.base) if o.base is not None else NONE)
                else:
                    if x.op != 'ref':
                        r = x
                    else:
                        r = mk('obj', o.cls.qual if o.cls is not None else (o.base or '?'),
                               tuple((k, go(v)) for k, v in sorted(o.d.items())))
                memo[x] = r
                return r
            if x.op == 'var' and x in heap and heap[x].kind in ('list', 'dict'):
                o = heap[x]
                memo[x] = x
                if o.kind == 'list':
                    r = t.listt([go(e) for e in o.d])
                else:
                    r = mk('dictt', tuple((k, TRUE, go(v)) for k, v in
                                          sorted(((go(k), v) for k, v in o.d.items()), key=lambda z: z[0].key)
                                          if v is not UNDEF), x)
                memo[x] = r
                return r
            if x.op == 'listt':       # a spread symbolic list stands for its contents before it was touched
                r = t.listt([mk('spread', go(e.args[0]), e.args[1])
                             if e.op == 'spread' and e.args[1].op != 'ref' and e.args[1] in heap else go(e)
                             for e in x.args[0]])
            elif x.op == 'dictt' and x.args[1].op != 'ref' and x.args[1] in heap:
                r = mk('dictt', tuple((go(k), go(g), go(v)) for k, g, v in x.args[0]), x.args[1])
            else:
                r = t.rebuild(x, go)
            memo[x] = r
            return r
        return go(term)

    # ------------------------------------------------------------------ running a function at top level
    def run(self, func, args=None, kwargs=None, self_term=None):
        """analyse func; returns (value, state) with raise exits folded in as ('raise', class) values"""
        fr_n = len(self.frames)
        outer = Frame(None, func.module)
        self.frames.append(outer)
        self.root_yield = func if func.is_gen else None
        try:
            try:
                v = self.call_func(func, list(args or []), dict(kwargs or {}), self_term, None, root=True)
                end = [(self.st.pc, v if v is not None else NONE, self.st)]
            except Dead:
                end = []
            items = list(end)
            for kind, pc, val, st in outer.exits:
                if kind == 'raise':
                    items.append((pc, val, st))
            if not items:
                return UNDEF, self.st
            val, st = self.merge_many(items)
            self.st = st
            return val, st
        finally:
            del self.frames[fr_n:]

    # ------------------------------------------------------------------ calls to project functions
    def bind(self, func, args, kwargs, self_term, node, extra_kw=None):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if func.cls is not None and not func.is_static and self_term is not None:
            pos = [self_term] + pos
        if a.vararg is None and len(pos) > len(names):
            raise Unsupported("too many arguments for %s" % func.qual)
        for n, v in zip(names, pos):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = mk('tuple', tuple(pos[len(names):]))
        kwleft = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                kwleft[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.newref(Obj('dict', d={K(k): v for k, v in kwleft.items()}))
        elif kwleft:
            raise Unsupported("unexpected keyword for %s" % func.qual)
        defaults = list(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults += [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in env:
                env[n] = self.eval_in_module(d, func.module)
        for n in names:
            if n not in env:
                env[n] = weak("missing argument %s" % n)
        return env

    def eval_in_module(self, node, module):
        saved = self.st.env
        self.st.env = {}
        fr = Frame(None, module)
        fr.caller_env = saved
        self.frames.append(fr)
        try:
            return self.eval(node)
        finally:
            self.frames.pop()
            self.st.env = saved

    def call_func(self, func, args, kwargs, self_term, node, root=False, closure=None, cls_term=None):
        ov = self.overrides.get(func.qual)
        if ov is not None and not root:
            env = self.bind(func, args, kwargs, self_term, node)
            return ov(self, env, node)
        depth = sum(1 for f in self.frames if f.func is func)
        if depth >= self.maxrec or len(self.frames) > MAXDEPTH:
            self.note("recursion into %s" % func.qual)
            return mk('call', 'rec:' + func.qual, *[self.reify(a) for a in args])
        self.callsites += 1
        self.visited[func.qual] = self.visited.get(func.qual, 0) + 1
        env = self.bind(func, args, kwargs, self_term, node)
        fr = Frame(func, func.module, closure)
        caller_env = self.st.env
        caller_pc = self.st.pc
        caller_facts = self.st.facts
        fr.caller_env = caller_env
        self.frames.append(fr)
        self.st.env = env
        self.st.pc = TRUE
        if func.is_gen:
            if root:
                fr.yield_ref = EV
            else:
                fr.yield_ref = self.new_list([])
        body = func.node.body
        try:
            try:
                if isinstance(body, list):
                    self.exec_block(body)
                    fr.exits.append(('return', self.st.pc, NONE, self.st))
                else:
                    v = self.eval(body)
                    fr.exits.append(('return', self.st.pc, v, self.st))
            except Dead:
                pass
        finally:
            self.frames.pop()
        rets = [(pc, v, s) for k, pc, v, s in fr.exits if k == 'return']
        raises = [(pc, v, s) for k, pc, v, s in fr.exits if k == 'raise']
        for pc, v, s in raises:
            s2 = s.copy()
            s2.env = caller_env
            s2.pc = and_(caller_pc, pc)
            if self.frames:
                self.frame.exits.append(('raise', s2.pc, v, s2))
        if not rets:
            raise Dead()
        val, st = self.merge_many(rets)
        st = st.copy()
        st.env = dict(caller_env)
        if raises:
            notr = or_(*[r[0] for r in rets])
            st.pc = and_(caller_pc, notr)
            f = assume(caller_facts, simp(notr, caller_facts), True)
            st.facts = f if f is not None else caller_facts
        else:
            st.pc = caller_pc
            st.facts = caller_facts
        self.st = st
        if func.is_gen:
            return fr.yield_ref
        return val

    def construct(self, cls, args, kwargs, node):
        ov = self.overrides.get(cls.qual)
        if ov is not None:
            init = self.p.find_method(cls, "__init__")
            ref = self.newref(Obj('inst', cls, {}))
            env = self.bind(init, args, kwargs, ref, node) if init else {}
            return ov(self, env, node)
        ext = self.p.ext_bases(cls)
        ref = self.newref(Obj('inst', cls, {}))
        init = self.p.find_method(cls, "__init__")
        if init is not None:
            self.call_func(init, args, kwargs, ref, node)
        else:
            if args:
                o = self.wobj(ref)
                o.d['args'] = mk('tuple', tuple(args))
        return ref

    # ------------------------------------------------------------------ exceptions
    def raise_(self, clsname, val=None):
        v = mk('raise', clsname) if val is None else val
        self.frame.exits.append(('raise', self.st.pc, v, self.st))
        raise Dead()

    def may_raise(self, clsname, term):
        """the evaluation of term may raise clsname: control splits if a surrounding handler would see it"""
        if not self.caught(clsname):
            return
        if term.weak:
            c = mk('truthy', weak("raises", term))
        else:
            c = mk('raises', clsname, term)

        def bad():
            self.raise_(clsname)

        def good():
            return NONE
        self.branch(c, bad, good)

    def caught(self, clsname):
        for handlers in self.trylevel:
            for h in handlers:
                if self.exc_matches(clsname, h):
                    return True
        return False

    def exc_matches(self, raised, handler):
        if handler in ('', 'BaseException'):
            return True
        chain = self.exc_chain(raised)
        h = handler.split(".")[-1]
        return h in [c.split(".")[-1] for c in chain]

    def exc_chain(self, name):
        base = {'ValueError': ['Exception'], 'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
                'TypeError': ['Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
                'AttributeError': ['Exception'], 'OSError': ['Exception'], 'IOError': ['OSError', 'Exception'],
                'FileNotFoundError': ['OSError', 'Exception'], 'RuntimeError': ['Exception'],
                'NoOptionError': ['Error', 'Exception'], 'NoSectionError': ['Error', 'Exception'],
                'StopIteration': ['Exception'], 'NameError': ['Exception'],
                'UnboundLocalError': ['NameError', 'Exception'], 'KeyboardInterrupt': ['BaseException'], 'SystemExit': ['BaseException'],
                'AssertionError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'],
                'Exception': ['BaseException'], 'BaseException': []}
        short = name.split(".")[-1]
        c = None
        for m in self.p.modules.values():
            if name.startswith(m.name + ".") and short in m.classes:
                c = m.classes[short]
        if c is not None:
            out = [name]
            for x in self.p.mro(c)[1:]:
                out.append(x.qual)
            for e in self.p.ext_bases(c):
                out.append(e)
                out += base.get(e.split(".")[-1], [])
            return out
        return [name] + base.get(short, ['Exception'])

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        st0 = self.st
        try:
            if m is None:
                raise Unsupported(type(s).__name__)
            m(s)
        except (Unsupported, RecursionError) as e:
            self.st = st0
            self.note("unsupported: %s" % e, s)
            self.havoc(s)

    def havoc(self, s):
        """give up on a statement: everything it may assign becomes unknown"""
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.st.env[n.id] = weak("havoc", )
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                try:
                    b = self.eval(n.value)
                    if b in self.st.heap and self.st.heap[b].kind == 'inst':
                        self.wobj(b).d[n.attr] = weak("havoc")
                except Exception:
                    pass
            elif isinstance(n, ast.Call):
                for a in list(n.args) + [k.value for k in n.keywords] + \
                        ([n.func.value] if isinstance(n.func, ast.Attribute) else []):
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        try:
                            self.lose(self.eval(a))
                        except Exception:
                            pass
            elif isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
                try:
                    self.lose(self.eval(n.value))
                except Exception:
                    pass
            elif isinstance(n, (ast.Yield, ast.YieldFrom)) and self.frame.yield_ref is not None and self.frame.yield_ref is not EV:
                self.lose(self.frame.yield_ref)
        self.emit('weak', weak("statement"))

    def lose(self, v):
        """the contents of an object become unknown"""
        if v.op == 'ite':
            self.lose(v.args[1])
            self.lose(v.args[2])
            return
        o = self.st.heap.get(v)
        if o is None:
            return
        w = self.wobj(v)
        if o.kind == 'list':
            w.d[:] = [mk('spread', TRUE, weak("havoc"))]
        else:
            for k in list(w.d):
                w.d[k] = weak("havoc")
            if o.kind == 'dict':
                w.base = weak("havoc")

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        keep = self.stmt_node
        self.stmt_node = s.value
        try:
            self.eval(s.value)
        finally:
            self.stmt_node = keep

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            m = self.p.module(a.name if a.asname else a.name.split('.')[0])
            self.st.env[nm] = mk('mod', m.name) if m else mk('ext', a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, s):
        from .program import Module
        for a in s.names:
            m = self.p.module(s.module or '')
            if m is not None:
                r = m.lookup(a.name)
                sub = self.p.module((s.module or '') + "." + a.name)
                if r is None and sub is not None:
                    r = ('module', sub)
                self.st.env[a.asname or a.name] = self.from_lookup(r)
            else:
                sub = self.p.module((s.module or '') + "." + a.name)
                if sub is not None:
                    self.st.env[a.asname or a.name] = mk('mod', sub.name)
                else:
                    self.st.env[a.asname or a.name] = mk('ext', (s.module or '') + "." + a.name)

    def s_Global(self, s):
        self.frame.globals_decl.update(s.names)

    def s_Nonlocal(self, s):
        raise Unsupported("nonlocal")

    def s_FunctionDef(self, s):
        f = Func(s, self.frame.module, None, (self.frame.func.qual if self.frame.func else self.frame.module.name) +
                 ".<locals>." + s.name)
        self.st.env[s.name] = self.make_closure(f)

    def make_closure(self, f):
        key = (id(f.node), id(self.frame))
        cid = self.closure_ids.get(key)
        if cid is None:
            cid = self.fresh()
            self.closure_ids[key] = cid
        self.closures[cid] = (f, None, self.frame)
        self.closure_env[cid] = self.st.env
        return mk('clo', cid)

    def s_ClassDef(self, s):
        self.st.env[s.name] = weak("local class")

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.frame.exits.append(('return', self.st.pc, v, self.st))
        raise Dead()

    def s_Raise(self, s):
        name = 'Exception'
        if s.exc is not None:
            e = s.exc
            target = e.func if isinstance(e, ast.Call) else e
            r = self.p.resolve_expr(target, self.frame.module)
            if r is not None and r[0] == 'cls':
                name = r[1].qual
            elif r is not None and r[0] == 'ext':
                name = r[1]
            if isinstance(e, ast.Call):
                for a in e.args:
                    self.eval(a)
        else:
            cur = self.st.env.get('%exc')
            if cur is not None and cur.op == 'raise':
                name = cur.args[0]
        self.raise_(name)

    def s_Assert(self, s):
        pass

    def s_Delete(self, s):
        for tg in s.targets:
            if isinstance(tg, ast.Name):
                self.st.env[tg.id] = UNDEF
            elif isinstance(tg, ast.Subscript):
                base = self.eval(tg.value)
                if isinstance(tg.slice, ast.Slice):
                    raise Unsupported("del slice")
                k = self.eval(tg.slice)
                o = self.dictobj(base)
                if o is not None:
                    self.wobj(base).d[k] = ABSENT
                    continue
                lo = self.listobj(base)
                if lo is not None and is_ki(k):
                    o = self.wobj(base)
                    i = t.kval(k)
                    es = o.d
                    if -len(es) <= i < len(es):
                        if i < 0:
                            tail = es[i:]
                        else:
                            tail = es[:i + 1]
                        if all(e.op == 'gi' and e.args[0] is TRUE for e in tail):
                            del es[i]
                            continue
                raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def s_Assign(self, s):
        v = self.eval(s.value)
        if v.op in ('m', 'call') and isinstance(s.value, ast.Call) and len(s.targets) == 1 and t.ty(v)[:1] == 'L' and \
                isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.mutated():
            v = self.new_list([mk('spread', TRUE, v)])
        for tg in s.targets:
            self.assign(tg, v)

    def mutated(self):
        """names of the current function whose list may be changed in place"""
        f = self.frame.func
        if f is None:
            return ()
        if f not in self.mutated_names:
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
                        out.add(n.func.value.id)
                    if isinstance(n.func, ast.Name) and n.func.id not in BUILTIN_NAMES or \
                            isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                            n.func.value.id == 'self':
                        out.update(a.id for a in n.args if isinstance(a, ast.Name))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
                    out.add(n.value.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
            self.mutated_names[f] = out
        return self.mutated_names[f]

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        tg = s.target
        if isinstance(tg, ast.Name):
            cur = self.load_name(tg.id, tg)
        elif isinstance(tg, ast.Attribute):
            base = self.eval(tg.value)
            cur = self.getattr_(base, tg.attr)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value)
            if isinstance(tg.slice, ast.Slice):
                raise Unsupported("augassign slice")
            k = self.eval(tg.slice)
            cur = self.getitem(base, k)
        else:
            raise Unsupported("augassign")
        val = self.eval(s.value)
        lo = self.listobj(cur) if isinstance(s.op, ast.Add) else None
        if lo is not None:
            entries = self.list_entries(val)
            self.wobj(cur).d.extend(entries)
            return
        v = self.binop(s.op, cur, val, s)
        if isinstance(tg, ast.Name):
            self.store_name(tg.id, v)
        elif isinstance(tg, ast.Attribute):
            self.setattr_(base, tg.attr, v)
        else:
            self.setitem(base, k, v)

    def store_name(self, name, v):
        if name in self.frame.globals_decl:
            self.emit('global', K(self.frame.module.name + "." + name), v)
            self.st.env["global " + name] = v
            return
        self.st.env[name] = v

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.store_name(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                i = [isinstance(e, ast.Starred) for e in tg.elts].index(True)
                for j, e in enumerate(tg.elts[:i]):
                    self.assign(e, self.getitem(v, K(j)))
                tail = n - i - 1
                self.assign(tg.elts[i].value, self.slice_term(v, K(i), K(-tail) if tail else NONE))
                for j, e in enumerate(tg.elts[i + 1:]):
                    self.assign(e, self.getitem(v, K(j - tail)))
                return
            for i, e in enumerate(tg.elts):
                self.assign(e, self.getitem(v, K(i), unpack=n))
        elif isinstance(tg, ast.Attribute):
            self.setattr_(self.eval(tg.value), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            base = self.eval(tg.value)
            if isinstance(tg.slice, ast.Slice):
                raise Unsupported("slice assignment")
            self.setitem(base, self.eval(tg.slice), v)
        else:
            raise Unsupported("assign target")

    def s_If(self, s):
        c = self.truth(self.eval(s.test))

        def a():
            self.exec_block(s.body)
            return NONE

        def b():
            self.exec_block(s.orelse)
            return NONE
        self.branch(c, a, b)

    def s_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def s_Try(self, s):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append([''])
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                ns = []
                for x in ts:
                    r = self.p.resolve_expr(x, self.frame.module)
                    ns.append(r[1].qual if r and r[0] == 'cls' else (r[1] if r and r[0] == 'ext' else '?'))
                names.append(ns)
        st0 = self.st
        n0 = len(self.frame.exits)
        self.trylevel.append([x for ns in names for x in ns])
        cont = None
        try:
            self.st = st0.copy()
            try:
                self.exec_block(s.body)
                if s.orelse:
                    self.trylevel.pop()
                    try:
                        self.exec_block(s.orelse)
                    finally:
                        self.trylevel.append([])
                cont = self.st
            except Dead:
                cont = None
        finally:
            self.trylevel.pop()
        new = self.frame.exits[n0:]
        del self.frame.exits[n0:]
        ends = []
        if cont is not None:
            ends.append((cont.pc, NONE, cont))
        taken = [[] for _ in s.handlers]
        for ex in new:
            kind, pc, v, st = ex
            placed = False
            if kind == 'raise' and v.op in ('raise', 'ite'):
                nm = v.args[0] if v.op == 'raise' else 'Exception'
                for i, ns in enumerate(names):
                    if any(self.exc_matches(nm, h) for h in ns):
                        taken[i].append((pc, v, st))
                        placed = True
                        break
            if not placed:
                self.frame.exits.append(ex)
        for h, tk in zip(s.handlers, taken):
            if not tk:
                continue
            v, st = self.merge_many(tk)
            st = st.copy()
            st.pc = or_(*[x[0] for x in tk])
            f = assume(st0.facts, simp(st.pc, st0.facts), True)
            if f is None:
                continue
            st.facts = f
            self.st = st
            st.env['%exc'] = v if v.op == 'raise' else mk('raise', 'Exception')
            if h.name:
                st.env[h.name] = mk('excobj', v)
            try:
                self.exec_block(h.body)
                ends.append((self.st.pc, NONE, self.st))
            except Dead:
                pass
        if s.finalbody:
            fin_exits = []
            for ex in self.frame.exits[n0:]:
                fin_exits.append(ex)
            if ends:
                _, st = self.merge_many(ends)
                self.st = st
                self.exec_block(s.finalbody)
                ends = [(self.st.pc, NONE, self.st)]
        if not ends:
            self.st = st0
            raise Dead()
        _, st = self.merge_many(ends)
        if len(ends) > 1 or st is not self.st:
            st = st.copy()
        if not [e for e in self.frame.exits[n0:]]:
            st.pc = st0.pc
        st.facts = st0.facts
        self.st = st

    s_TryStar = s_Try

    def s_Break(self, s):
        self.frame.loops[-1].breaks.append((self.st.pc, NONE, self.st))
        raise Dead()

    def s_Continue(self, s):
        self.frame.loops[-1].continues.append((self.st.pc, NONE, self.st))
        raise Dead()

    # ------------------------------------------------------------------ loops
    def s_For(self, s):
        it = self.eval(s.iter)

        def body(elem):
            self.assign(s.target, elem)
            self.exec_block(s.body)
        src = s.iter
        self.loop_over(it, body, s.orelse, any(isinstance(n, ast.Break) for x in s.body for n in ast.walk(x)))

    def loop_over(self, it, body, orelse=(), leaves=False):
        segs = self.segments(it)
        breaks = []
        pc0 = self.st.pc
        n_exit0 = len(self.frame.exits)
        alive = True
        try:
            for seg in segs:
                if seg[0] == 'one':
                    _, g, elem = seg
                    ctx = LoopCtx()
                    self.frame.loops.append(ctx)

                    def run():
                        ends = []
                        try:
                            body(elem)
                            ends.append((self.st.pc, NONE, self.st))
                        except Dead:
                            pass
                        ends += ctx.continues
                        if not ends:
                            raise Dead()
                        f = self.st.facts
                        _, st = self.merge_many(ends)
                        if len(ends) > 1:
                            st.facts = Facts()
                        self.st = st
                        return NONE
                    try:
                        base_facts = self.st.facts
                        self.branch(g, run, lambda: NONE)
                        if ctx.continues and len(ctx.continues) > 0:
                            self.st.facts = base_facts
                    finally:
                        self.frame.loops.pop()
                        breaks += ctx.breaks
                else:
                    _, iterm, lid, elem, g, src = seg
                    if elem.op == 'flat':              # several elements per round
                        if leaves:
                            raise Unsupported("break out of several elements per round")
                        self.sym_loop('for', iterm, lid, elem, g, lambda e: self.loop_over(e.args[0], body), None, breaks, None)
                        continue
                    self.sym_loop('for', iterm, lid, elem, g, body, None, breaks, src)
        except Dead:
            alive = False
        if alive and orelse:
            try:
                self.exec_block(orelse)
            except Dead:
                alive = False
        ends = []
        if alive:
            ends.append((self.st.pc, NONE, self.st))
        ends += breaks
        if not ends:
            raise Dead()
        if len(ends) == 1:
            self.st = ends[0][2]
            return
        _, st = self.merge_many(ends)
        st.facts = Facts() if len(self.frame.exits) > n_exit0 else st.facts
        if len(self.frame.exits) == n_exit0:
            st.pc = pc0
        self.st = st

    def iterated(self, it):
        """iter(it) for objects of project classes that define it"""
        if it.op == 'obj' and self.p.cls(it.args[0]) is not None:
            it = self.hydrate(it)[0]
        o = self.obj(it)
        if o is not None and o.kind == 'inst' and o.cls is not None:
            m = self.p.find_method(o.cls, '__iter__')
            if m is not None:
                return self.call_func(m, [], {}, it, None)
        return it

    def segments(self, it):
        """iterable term -> list of ('one', gate, elem) / ('sym', iterterm, lid, elem, gate, source)"""
        if it.weak:
            raise Unsupported("iteration over unknown value")
        it = self.iterated(it)
        o = self.obj(it)
        if o is not None:
            if o.kind == 'list':
                return self.entry_segments(o.d, it)
            if o.kind == 'dict':
                if o.base is None and all(not t.ite(TRUE, v, v).op == 'dbase' for v in o.d.values()):
                    return [('one', self.present(v), k) for k, v in o.d.items()]
                return self.symseg(mk('m', 'keys', self.reify(it)), 's')
            if o.kind == 'inst' and o.base == 'Element':
                return self.segments(o.d['#children'])
        op = it.op
        if op == 'tuple':
            return [('one', TRUE, x) for x in it.args[0]]
        if op == 'listt':
            return self.entry_segments(it.args[0], None)
        if op == 'ite':
            # iterate over either sequence: normalise as gated segments when both are finite
            c, a, b = it.args
            sa, sb = self.segments(a), self.segments(b)
            out = []
            for g, segs in ((c, sa), (not_(c), sb)):
                for sg in segs:
                    if sg[0] == 'one':
                        out.append(('one', and_(g, sg[1]), sg[2]))
                    elif g is self.truth(sg[1]):         # every sequence with an element is true
                        out.append(sg)
                    else:
                        out.append(('sym', sg[1], sg[2], sg[3], and_(g, sg[4]), None))
            return out
        if isk(it) and it.args[0] == 's' and len(it.args[1]) <= MAXUNROLL:
            return [('one', TRUE, K(ch)) for ch in it.args[1]]
        if isk(it) and it.args[0] == 'b' and len(it.args[1]) <= MAXUNROLL:
            return [('one', TRUE, K(ch)) for ch in it.args[1]]
        if op == 'range':
            lo, hi, stp = it.args
            if is_ki(lo) and is_ki(hi) and is_ki(stp):
                r = range(t.kval(lo), t.kval(hi), t.kval(stp))
                if len(r) <= MAXUNROLL:
                    return [('one', TRUE, K(i)) for i in r]
            n = t.sub(hi, lo)
            if not is_ki(stp):
                if self.cond(t.cmp_le(ZERO, stp, True)) is not TRUE:
                    raise Unsupported("range step")
                n = t.neg(t.fdiv(t.neg(n), stp))
            elif stp is not ONE:
                k = stp
                if stp.args[1] < 0:
                    n = t.sub(lo, hi)
                    k = t.neg(stp)
                n = t.neg(t.fdiv(t.neg(n), k))
            lid = "L%d" % self.fresh()
            return [('sym', mk('rng', n), lid, t.add(lo, t.mul(stp, mk('bi', lid))), TRUE, None)]
        if op == 'enum':
            inner, start = it.args
            segs = self.segments(inner)
            out = []
            pos = start
            for sg in segs:
                if sg[0] == 'one':
                    if pos is None:
                        raise Unsupported("enumerate after loop")
                    out.append(('one', sg[1], mk('tuple', (pos, sg[2]))))
                    pos = t.add(pos, ite(sg[1], ONE, ZERO))
                else:
                    if sg[4] is not TRUE or sg[3].op == 'flat':
                        raise Unsupported("enumerate of filtered sequence")
                    out.append(('sym', sg[1], sg[2], mk('tuple', (t.add(pos, mk('bi', sg[2])), sg[3])), sg[4],
                                ('enum', sg[5]) if sg[5] is not None else None))
                    pos = t.add(pos, t.cnt(sg[1]))
            return out
        if op == 'zip':
            parts = [self.segments(x) for x in it.args]
            if all(all(sg[0] == 'one' and sg[1] is TRUE for sg in p) for p in parts):
                return [('one', TRUE, mk('tuple', tuple(sg[2] for sg in row))) for row in zip(*parts)]
            inner = [self.reify(x) for x in it.args]
            lid = "L%d" % self.fresh()
            el = mk('tuple', tuple(self.elem_of(x, lid) for x in inner))
            return [('sym', mk('zip', *inner), lid, el, TRUE, None)]
        if op == 'rev':
            inner = self.segments(it.args[0])
            if all(s[0] == 'one' for s in inner):
                return list(reversed(inner))
        if op == 'm' and it.args[0] == 'items':
            base = it.args[1]
            ob = self.obj(base)
            if ob is not None and ob.kind == 'dict' and ob.base is None:
                return [('one', self.present(v), mk('tuple', (k, v))) for k, v in ob.d.items()]
            if base.op == 'dictt' and base.args[1] is NONE:
                return [('one', self.present(v), mk('tuple', (k, v))) for k, g, v in base.args[0]]
            lid = "L%d" % self.fresh()
            b = self.reify(base)
            kk = mk('bv', lid, 's')
            return [('sym', mk('m', 'keys', b), lid, mk('tuple', (kk, t.item(b, kk))), TRUE, None)]
        r = self.reify(it)
        if r is not it and r.op == 'listt':
            return self.entry_segments(r.args[0], None)
        return self.symseg(r)

    def elem_of(self, seq, lid):
        """generic element of a sequence at position bi"""
        i = mk('bi', lid)
        if seq.op == 'rev':
            return mk('item', seq, i)
        return t.item(seq, i) if seq.op not in ('listt',) else mk('item', seq, i)

    def symseg(self, r, ety=None):
        lid = "L%d" % self.fresh()
        e = ety or t.elemty(r)
        if e in ('B',):
            e = '?'
        if r.op in ('slice', 'rev', 'm', 'attr', 'var', 'item', 'call'):
            pass
        return [('sym', r, lid, mk('bv', lid, e or '?'), TRUE, None)]

    def entry_segments(self, entries, src):
        out = []
        for e in entries:
            if e.op == 'gi':
                out.append(('one', e.args[0], e.args[1]))
            elif e.op == 'each':
                it, lid, g, b = e.args
                new = "L%d" % self.fresh()
                memo = {}
                out.append(('sym', it, new, t.rename_loop(b, lid, new, memo), t.rename_loop(g, lid, new, memo),
                            (src, e) if src is not None else None))
            elif e.op == 'spread':
                for sg in self.segments(e.args[1]):
                    if sg[0] == 'one':
                        out.append(('one', and_(e.args[0], sg[1]), sg[2]))
                    else:
                        out.append(('sym', sg[1], sg[2], sg[3], and_(e.args[0], sg[4]), None))
            else:
                raise Unsupported("iteration over %s" % e.op)
        return out

    def present(self, v):
        """condition that a dict value (possibly gated absent) is present"""
        if v is UNDEF:
            return FALSE
        if v.op == 'ite':
            return ite(v.args[0], self.present(v.args[1]), self.present(v.args[2]))
        if v.op == 'dbase':
            return mk('in', v.args[1], v.args[0])
        return TRUE

    def value_if_present(self, v):
        if v.op == 'ite':
            a, b = self.value_if_present(v.args[1]), self.value_if_present(v.args[2])
            if a is UNDEF:
                return b
            if b is UNDEF:
                return a
            return ite(v.args[0], a, b)
        if v.op == 'dbase':
            return t.item(v.args[0], v.args[1])
        return v

    def s_While(self, s):
        breaks = []
        pc0 = self.st.pc
        nex = len(self.frame.exits)

        def body(_):
            self.exec_block(s.body)
        # a loop whose condition is already decided
        c0 = self.cond(self.truth(self.peek(s.test)))
        if c0 is FALSE:
            self.exec_block(s.orelse)
            return
        if c0 is TRUE and self.unroll(s):
            return
        alive = True
        try:
            self.sym_loop('while', None, "L%d" % self.fresh(), None, TRUE, body, s.test, breaks, None)
            if s.orelse:
                self.exec_block(s.orelse)
        except Dead:
            alive = False
        ends = ([(self.st.pc, NONE, self.st)] if alive else []) + breaks
        if not ends:
            raise Dead()
        _, st = self.merge_many(ends)
        if len(self.frame.exits) == nex:
            st.pc = pc0
        self.st = st

    def unroll(self, s):
        """a while loop whose condition is decided before every iteration"""
        st0, pc0 = self.st.copy(), self.st.pc
        nex = len(self.frame.exits)
        saved = dict(self.counters)
        breaks = []
        done = alive = False
        try:
            for _ in range(40):
                c = self.cond(self.truth(self.eval(s.test)))
                if c is FALSE:
                    done = alive = True
                    break
                if c is not TRUE:
                    break
                ctx = LoopCtx()
                self.frame.loops.append(ctx)
                ends = []
                try:
                    try:
                        self.exec_block(s.body)
                        ends.append((self.st.pc, NONE, self.st))
                    except Dead:
                        pass
                finally:
                    self.frame.loops.pop()
                ends += ctx.continues
                if not ends:
                    breaks += ctx.breaks
                    done = True
                    break
                breaks += ctx.breaks
                if isinstance(s.test, ast.Constant) and (breaks or any(x[0] != 'raise' for x in self.frame.exits[nex:])):
                    break                        # leaving it is not decided
                _, st = self.merge_many(ends)
                if len(ends) > 1:
                    st.facts = Facts()
                self.st = st
        except Dead:
            done, alive = True, False
        if not done:
            self.st = st0
            del self.frame.exits[nex:]
            self.counters.clear()
            self.counters.update(saved)
            return False
        if alive and s.orelse:
            try:
                self.exec_block(s.orelse)
            except Dead:
                alive = False
        ends = ([(self.st.pc, NONE, self.st)] if alive else []) + breaks
        if not ends:
            raise Dead()
        _, st = self.merge_many(ends)
        if len(ends) > 1:
            st.facts = Facts() if len(self.frame.exits) > nex else st.facts
        if len(self.frame.exits) == nex:
            st.pc = pc0
        self.st = st
        return True

    def peek(self, node):
        st = self.st
        self.st = st.copy()
        n = len(self.frame.exits)
        try:
            return self.eval(node)
        except Dead:
            return weak("dead")
        finally:
            del self.frame.exits[n:]
            self.st = st

    def heap_keys_changed(self, a, b):
        """keys ('e',name) ('a',obj,attr) ('l',obj) ('d',obj,key) whose value differs between two states"""
        out = {}
        for k in a.env.keys() | b.env.keys():
            x, y = a.env.get(k, UNDEF), b.env.get(k, UNDEF)
            if x is not y:
                out[('e', k)] = (x, y)
        for r, ob in b.heap.items():
            oa = a.heap.get(r)
            if oa is ob:
                continue
            if oa is None:
                if r.op == 'ref':
                    continue              # allocated inside
                oa = untouched(r, ob)
            if ob.kind == 'inst':
                for k in list(oa.d) + [x for x in ob.d if x not in oa.d]:
                    x = oa.d.get(k)
                    y = ob.d.get(k)
                    if x is None:
                        x = mk('attr', r, k) if oa.lazy else UNDEF
                    if y is None:
                        y = mk('attr', r, k) if ob.lazy else UNDEF
                    if x is not y:
                        out[('a', r, k)] = (x, y)
            elif ob.kind == 'dict':
                for k in list(oa.d) + [x for x in ob.d if x not in oa.d]:
                    x = oa.d.get(k, UNDEF if oa.base is None else mk('dbase', oa.base, k))
                    y = ob.d.get(k, UNDEF if ob.base is None else mk('dbase', ob.base, k))
                    if x is not y:
                        out[('d', r, k)] = (x, y)
            else:
                if len(oa.d) != len(ob.d) or any(p is not q for p, q in zip(oa.d, ob.d)):
                    out[('l', r)] = (oa.d, ob.d)
        return out

    def referrers(self, st, r):
        """the keys under which a state holds an object"""
        out = set()
        for k, v in st.env.items():
            if isinstance(v, T) and t.mentions(v, {r}):
                out.add(('e', k))
        for q, o in st.heap.items():
            for k, v in (o.d.items() if o.kind != 'list' else [(None, x) for x in o.d]):
                if isinstance(v, T) and t.mentions(v, {r}):
                    out.add(('l', q) if o.kind == 'list' else ('a' if o.kind == 'inst' else 'd', q, k))
        return out

    def kept(self, st, r, key, v):
        """may the object also be reached elsewhere while key holds it?"""
        def when(v):
            if v is r:
                return TRUE
            if v.op == 'ite':
                return t.ite(v.args[0], when(v.args[1]), when(v.args[2]))
            return K(t.mentions(v, {r}))
        c = when(v)
        for q in self.referrers(st, r) - {key}:
            if q[0] != 'l':
                return True
            for e in st.heap[q[1]].d:
                if t.mentions(e, {r}):
                    if e.op != 'gi':
                        return True
                    f = assume(st.facts, and_(e.args[0], c), True) if and_(e.args[0], c) is not FALSE else None
                    if f is not None:
                        return True
        return False

    def read_key(self, st, key):
        if key[0] == 'e':
            return st.env.get(key[1], UNDEF)
        o = st.heap.get(key[1])
        if key[0] == 'a':
            if o is None or key[2] not in o.d:
                return mk('attr', key[1], key[2]) if (o is None or o.lazy) else UNDEF
            return o.d[key[2]]
        if key[0] == 'd':
            if o is None:
                return UNDEF
            if key[2] in o.d:
                return o.d[key[2]]
            return UNDEF if o.base is None else mk('dbase', o.base, key[2])
        return o.d if o is not None else [mk('spread', TRUE, key[1])]

    def write_key(self, st, key, v):
        if key[0] == 'e':
            st.env[key[1]] = v
            return
        o = st.heap.get(key[1])
        if o is None:
            o = Obj({'a': 'inst', 'd': 'dict', 'l': 'list'}[key[0]], None, {} if key[0] != 'l' else [], True,
                    key[1] if key[0] == 'd' else None)
        o = o.copy()
        st.heap[key[1]] = o
        if key[0] in ('a', 'd'):
            o.d[key[2]] = v
        else:
            o.d = list(v)

    def sym_loop(self, kind, iterm, lid, elem, gate_, body, test, breaks, src):
        st0 = self.st
        fr = self.frame
        keys = {}           # key -> placeholder
        rebound = {}        # keys that hold a list -> that list; the loop starts with a list of its own
        hyd = None
        for attempt in range(9):
            n_ex = len(fr.exits)
            st = st0.copy()
            st.pc = TRUE
            # facts about the pre-state stay valid for values that the loop does not change
            own = {}
            for key, ph in keys.items():
                if key in rebound:
                    own[key] = mk('ref', self.fresh())
                    st.heap[own[key]] = Obj('list', d=[mk('spread', TRUE, ph)])
                    self.write_key(st, key, own[key])
                    continue
                self.write_key(st, key, [mk('spread', TRUE, ph)] if key[0] == 'l' else ph)
            start = st.copy()
            ctx = LoopCtx()
            fr.loops.append(ctx)
            self.loopstack.append(lid)
            saved_counters = dict(self.counters)
            self.st = st
            ends = []
            el = elem
            hyd = None
            condterm = None
            try:
                if elem is not None and elem.op in ('dictt', 'obj') or (elem is not None and elem.op == 'tuple' and
                                                                        any(x.op in ('dictt', 'obj') for x in elem.args[0])):
                    el, hyd = self.hydrate(elem)
                    start = self.st.copy()
                if test is not None:
                    condterm = self.cond(self.truth(self.eval(test)))
                    start2 = self.st

                def go():
                    body(el)
                    return NONE
                try:
                    if test is not None:
                        f = assume(self.st.facts, condterm, True) if condterm.op != 'k' else self.st.facts
                        if f is not None:
                            self.st.facts = f
                        body(el)
                    else:
                        self.branch(gate_, go, lambda: NONE)
                    ends.append((self.st.pc, NONE, self.st))
                except Dead:
                    pass
            finally:
                fr.loops.pop()
                self.loopstack.pop()
            ends += ctx.continues
            exits = [('break', pc, v, s) for pc, v, s in ctx.breaks] + fr.exits[n_ex:]
            del fr.exits[n_ex:]
            newkeys = {}
            cont = None
            if ends:
                _, cont = self.merge_many(ends)
                for k in self.heap_keys_changed(start, cont):
                    newkeys[k] = 1
            for ek, pc, v, s in exits:
                for k in self.heap_keys_changed(start, s):
                    if ek in ('return', 'raise') and k[0] == 'e':
                        continue
                    newkeys[k] = 1
            hydrefs = set(hyd.values()) if hyd else set()
            hydrefs.update(own.values())
            newkeys = {k: 1 for k in newkeys if not (k[0] != 'e' and k[1] in hydrefs)}
            fresh = [k for k in newkeys if k not in keys]
            for k in fresh:
                cur = self.read_key(st0, k)
                if k[0] != 'l' and isinstance(cur, T) and cur.op == 'ref' and cur in st0.heap and st0.heap[cur].kind == 'list':
                    rebound[k] = cur
            if rebound:
                held = {}
                for k, r in rebound.items():
                    held.setdefault(r, set()).add(k)
                for r, ks in held.items():
                    if len(ks) > 1 or self.referrers(st0, r) - ks:
                        if ('l', r) in newkeys or ('l', r) in keys:
                            raise Unsupported("list shared by several names is rebound in a loop")
                fresh = [k for k in fresh if k[0] != 'l' or k[1] not in held]
            widen = {}
            if cont is not None:
                for k, ph in keys.items():
                    if k[0] == 'l' or ph.args[2] == '?' or k in rebound:
                        continue
                    nv = self.read_key(cont, k)
                    if nv is ph or not isinstance(nv, T) or nv.weak:
                        continue
                    w = widened(ph.args[2], nv)
                    if w != ph.args[2]:
                        widen[k] = w
            if not fresh and not widen:
                break
            self.counters = saved_counters
            for k, w in widen.items():
                keys[k] = mk('ph', lid, keys[k].args[1], w)
            for k in fresh:
                cur = self.read_key(st0, k)
                if k[0] == 'l' or k in rebound:
                    keys[k] = mk('ph', lid, "v%d" % len(keys), 'L')
                    continue
                else:
                    tyy = t.ty(cur) if cur is not UNDEF and cur.op != 'dbase' else '?'
                    if tyy in ('?', 'N') and cont is not None:
                        nv = self.read_key(cont, k)
                        tt = t.ty(nv) if isinstance(nv, T) else '?'
                        tyy = tt if tt in ('i', 'n', 's', 'b', 'B') and cur is UNDEF else tyy
                    # int counters that become fractional
                    if tyy == 'i' and cont is not None:
                        nv = self.read_key(cont, k)
                        if isinstance(nv, T) and t.ty(nv) == 'n':
                            tyy = 'n'
                if tyy == 'N' or cur is not UNDEF and isinstance(cur, T) and cur.op != 'dbase' and t.isnone(cur) is not FALSE:
                    tyy = '?'
                keys[k] = mk('ph', lid, "v%d" % len(keys), tyy)
        else:
            raise Unsupported("loop does not stabilise")
        # ------------------------------------------------ summarise
        phs = {ph: k for k, ph in keys.items()}
        phset = set(phs)
        nxt = {}
        if cont is not None:
            for k, ph in keys.items():
                nxt[k] = self.read_key(cont, k)
                if k in rebound:
                    if t.mentions(nxt[k], {own[k]}) and self.kept(cont, own[k], k, nxt[k]):
                        raise Unsupported("list kept over iterations under several names")
                    v = self.reify_in(cont, nxt[k])
                    nxt[k] = ph if v.op == 'listt' and self.is_same_list(v.args[0], ph) else v
        C = or_(*[e[1] for e in exits]) if exits else FALSE

        # closed forms of induction variables (constant step)
        closed = {}
        idx = mk('bi', lid)
        changed = True
        m = {}
        while changed and cont is not None:
            changed = False
            for k, ph in keys.items():
                if k in closed or k[0] == 'l':
                    continue
                n = t.subst(nxt[k], m) if m else nxt[k]
                if n is ph:
                    continue
                if not t.isnum(ph) or n.op == 'ite' and True and not t.isnum(n):
                    continue
                if not t.isnum(n):
                    continue
                step = self.delta(n, ph)
                if step is None or t.mentions(step, phset) or t.has_loop_id(step, lid) or step.weak:
                    continue
                init = self.read_key(st0, k)
                if init is UNDEF or init.op == 'dbase':
                    continue
                closed[k] = (init, step)
                m[ph] = t.add(init, t.mul(step, idx))
                changed = True

        def cl(x):
            return t.subst(x, m) if m else x

        if kind == 'while':
            it2, cond2 = self.while_range(condterm, closed, keys, lid)
            if it2 is not None:
                iterm = it2
                kind = 'for'
            else:
                iterm = None
        st1 = st0.copy()
        # ------------------------------------------------ exits
        search_only = False
        if exits:
            onlybreak = all(e[0] == 'break' for e in exits)
            Cc = cl(C)
            exit_changes = any(self.exit_changed(e, keys, closed, cl) for e in exits)
            if kind == 'for' and cont is not None and not t.mentions(Cc, phset):
                if onlybreak and not exit_changes:
                    # leaves early without further effect: the loop runs over the elements before the first match
                    iterm = mk('takewhile', iterm, lid, not_(Cc))
                    # values are those after the iterations done
                    exits = []
                else:
                    search_only = True
            elif kind == 'for' and cont is None:
                # every iteration leaves: only the first element matters
                search_only = True
                Cc = TRUE
            elif kind == 'while' and onlybreak and condterm is TRUE and not exit_changes:
                # while True: ... break
                kind = 'whilebreak'
                condterm = not_(C)
                exits = []
            else:
                self.note("loop with carried values and early exits")
                self.weaken(st1, keys, exits, breaks, fr, st0)
                self.st = st1
                return
        def after(st1, iterm, fill):
            """values of the carried keys after iterating over iterm, written to st1"""
            if self.loops.get(lid) is None:
                if kind != 'for':
                    self.loops[lid] = Loop(lid, 'while', None, condterm)
                else:
                    self.loops[lid] = Loop(lid, 'for', tw if search_only else iterm, None)
            lp = self.loops[lid]
            mode_for = kind == 'for'
            clf = cl if mode_for else (lambda x: x)
            for k, ph in keys.items():
                if only is not None and ph not in only:
                    continue
                if mode_for and k in closed:
                    init, step = closed[k]
                    fill(k, t.add(init, t.mul(step, t.cnt(iterm))))
                    continue
                init = self.reify_in(st0, rebound[k]) if k in rebound else self.read_key(st0, k)
                n = nxt[k]
                if k[0] == 'l':
                    if self.is_same_list(n, ph):
                        continue
                    if n and n[0].op == 'spread' and n[0].args[1] is ph and mode_for:
                        app = [self.reify_in(cont, e) for e in n[1:]]
                        app = [cl(e) for e in app]
                        app = [t.rebuild(e, lambda x: x) for e in app]
                        if not any(t.mentions(e, phset) for e in app):
                            if len(app) == 1 and app[0].op == 'gi':
                                ent = [mk('each', iterm, lid, app[0].args[0], app[0].args[1])]
                            else:
                                ent = [mk('each', iterm, lid, TRUE, mk('flat', t.listt(app)))]
                            fill(k, list(init) + ent)
                            continue
                        # elements depend on carried values
                    fill(k, [mk('spread', TRUE, self.mu_for(lp, keys, nxt, st0, k, cont, clf))])
                    continue
                if n is ph:
                    continue
                n = self.reify_in(cont, n)
                r = self.closed_value(clf(n), ph, init, iterm, lid, phset, mode_for)
                if r is None:
                    r = self.mu_for(lp, keys, nxt, st0, k, cont, clf)
                fill(k, r)

        def own_list(st, k, v):
            r = mk('ref', self.fresh())
            st.heap[r] = Obj('list', d=list(v.args[0]) if v.op == 'listt' else [mk('spread', TRUE, v)])
            self.write_key(st, k, r)

        only = None
        tw = None
        if search_only:
            anyC = t.any_(iterm, lid, Cc)
            if Cc is TRUE:
                anyC = t.iter_nonempty(iterm)
            tw = mk('takewhile', iterm, lid, not_(Cc))
            phval = {}
            if cont is not None:
                # carried values at the exit: those after the iterations before it
                only = set()
                for ek, pc, v, s in exits:
                    vals = [cl(v)] if isinstance(v, T) else []
                    vals.append(cl(pc))
                    for k in self.heap_keys_changed(start, s):
                        x = self.read_key(s, k)
                        vals += [cl(self.reify_in(s, y)) for y in (x if k[0] == 'l' else [x])]
                    only |= {ph for ph in phset if any(t.mentions(y, ph) for y in vals)}
                if only:
                    def rec(k, v):
                        phval[keys[k]] = t.listt(v) if k[0] == 'l' else v
                    after(st1, tw, rec)
                    for ph in only:
                        if ph not in phval:
                            x = self.read_key(st0, phs[ph])
                            phval[ph] = t.listt(x) if isinstance(x, list) else self.reify_in(st0, x)
                only = None

            def cx(x):
                x = cl(x)
                return t.subst(x, phval) if phval else x
            out = []
            for ek, pc, v, s in exits:
                pcc = cx(pc)
                s2 = st0.copy()
                for k in self.heap_keys_changed(start, s):
                    if ek in ('return', 'raise') and k[0] == 'e':
                        continue
                    val = self.read_key(s, k)
                    if k[0] == 'l':
                        ph = keys[k]
                        init = self.read_key(st0, k)
                        if val and val[0].op == 'spread' and val[0].args[1] is ph and not t.mentions(cl(nxt[k][0]), phset - {ph}) \
                                and self.is_same_list(nxt[k], ph):
                            ext = [self.sel_entry(iterm, lid, Cc, self.reify_in(s, e), cx) for e in val[1:]]
                            self.write_key(s2, k, list(init) + ext)
                        elif val and val[0].op == 'spread' and val[0].args[1] is ph and ph in phval:
                            pre = phval[ph]
                            ext = [self.sel_entry(iterm, lid, Cc, self.reify_in(s, e), cx) for e in val[1:]]
                            self.write_key(s2, k, list(pre.args[0] if pre.op == 'listt'
                                                       else [mk('spread', TRUE, pre)]) + ext)
                        else:
                            self.write_key(s2, k, [mk('spread', TRUE, weak("list"))])
                    elif k in rebound:
                        own_list(s2, k, self.sel(iterm, lid, Cc, cx(self.reify_in(s, val))))
                    else:
                        self.write_key(s2, k, self.sel(iterm, lid, Cc, cx(self.reify_in(s, val))))
                vv = self.sel(iterm, lid, Cc, cx(self.reify_in(s, v))) if isinstance(v, T) else v
                sub = anyC if len(exits) == 1 else and_(anyC, self.sel(iterm, lid, Cc, pcc))
                s2.pc = and_(st0.pc, sub)
                out.append((ek, s2.pc, vv, s2))
            for ek, pc, v, s2 in out:
                if ek == 'break':
                    breaks.append((pc, v, s2))
                else:
                    fr.exits.append((ek, pc, v, s2))
            if cont is not None:
                after(st1, iterm, lambda k, v: own_list(st1, k, v) if k in rebound else self.write_key(st1, k, v))
            st1.pc = and_(st0.pc, not_(anyC))
            f = assume(st0.facts, simp(not_(anyC), st0.facts), True)
            if f is None or (cont is None and Cc is TRUE and anyC is TRUE):
                self.st = st1
                raise Dead()
            st1.facts = f
            self.st = st1
            return
        if cont is None:
            self.st = st1
            raise Dead()
        # ------------------------------------------------ no early exits: values after the loop
        after(st1, iterm, lambda k, v: own_list(st1, k, v) if k in rebound else self.write_key(st1, k, v))
        # objects of a list that were updated in place
        if hyd and src is not None:
            self.write_back(st1, src, hyd, cont, lid, cl, elem)
        st1.pc = st0.pc
        st1.facts = st0.facts
        self.st = st1

    def is_same_list(self, n, ph):
        return len(n) == 1 and n[0].op == 'spread' and n[0].args[1] is ph

    def exit_changed(self, e, keys, closed, cl):
        ek, pc, v, s = e
        for k, ph in keys.items():
            x = self.read_key(s, k)
            if k[0] == 'l':
                if not self.is_same_list(x, ph):
                    return True
            elif x is not ph:
                return True
        return False

    def sel_entry(self, it, lid, C, e, cl):
        if e.op == 'gi':
            return mk('gi', self.sel(it, lid, C, cl(e.args[0])), self.sel(it, lid, C, cl(e.args[1])))
        return mk('spread', TRUE, weak("entry"))

    def sel(self, it, lid, C, v):
        """value of v at the first element where C holds"""
        if not t.has_loop_id(v, lid):
            return v
        if v.op == 'raise':
            return v
        if v.op == 'tuple':
            return mk('tuple', tuple(self.sel(it, lid, C, x) for x in v.args[0]))
        if v.weak:
            return weak("sel", v)
        return mk('sel', it, lid, C, v)

    def reify_in(self, st, v):
        keep = self.st
        self.st = st
        try:
            return self.reify(v)
        finally:
            self.st = keep

    def closed_value(self, n, ph, init, it, lid, phset, mode_for):
        if not mode_for or n.weak:
            return None
        if init is UNDEF or init.op == 'dbase':
            init = None
        # sums
        if init is not None and t.isnum(ph):
            d = self.delta(n, ph)
            if d is not None and not t.mentions(d, phset):
                return t.add(init, t.sum_(it, lid, d))
        if init is not None and t.ty(ph) in ('s', 'b'):
            app = self.appended(n, ph, t.ty(ph))
            if app is not None and not t.mentions(app, phset):
                return t.cat(t.ty(ph), [init, mk('each', it, lid, TRUE, app)])
        if init is not None and t.ty(ph) == 'B':
            # n = ph or c / ph and c
            a = t.subst(n, {ph: FALSE})
            b = t.subst(n, {ph: TRUE})
            if not t.mentions(a, phset) and not t.mentions(b, phset):
                if b is TRUE:
                    return or_(init, t.any_(it, lid, a))
                if a is FALSE:
                    return and_(init, not_(t.any_(it, lid, not_(b))))
        # n = X if c else ph  with X loop invariant
        if init is not None and n.op == 'ite':
            c, x, y = n.args
            if y is ph and not t.mentions(c, phset) and not t.mentions(x, phset) and not t.has_loop_id(x, lid):
                return ite(t.any_(it, lid, c), x, init)
            if x is ph and not t.mentions(c, phset) and not t.mentions(y, phset) and not t.has_loop_id(y, lid):
                return ite(t.any_(it, lid, not_(c)), y, init)
        if not t.mentions(n, phset) and not t.has_loop_id(n, lid):
            return ite(t.iter_nonempty(it), n, init if init is not None else UNDEF)
        if not t.mentions(n, phset):
            return ite(t.iter_nonempty(it), mk('lastv', it, lid, n), init if init is not None else UNDEF)
        return None

    def delta(self, n, ph):
        if n is ph:
            return ZERO
        if n.op == 'ite':
            a, b = self.delta(n.args[1], ph), self.delta(n.args[2], ph)
            if a is None or b is None or t.mentions(n.args[0], ph):
                return None
            k = t.sub(b, a)
            if t.is_kn(k):
                return t.add(a, ite(n.args[0], ZERO, k))
            return ite(n.args[0], a, b)
        d = t.sub(n, ph)
        if not t.mentions(d, ph):
            return d
        if n.op == 'p':
            for m, c in n.args[0]:
                if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'ite' and t.mentions(m[0][0], ph):
                    rest = t.sub(n, m[0][0])
                    if not t.mentions(rest, ph):
                        d = self.delta(m[0][0], ph)
                        return None if d is None else t.add(d, rest)
        return None

    def appended(self, n, ph, kind):
        if n is ph:
            return K('' if kind == 's' else b'')
        if n.op == 'ite':
            a, b = self.appended(n.args[1], ph, kind), self.appended(n.args[2], ph, kind)
            if a is None or b is None or t.mentions(n.args[0], ph):
                return None
            return ite(n.args[0], a, b)
        if n.op == 'cat' and n.args[0] == kind and n.args[1][0] is ph:
            r = t.cat(kind, n.args[1][1:])
            return None if t.mentions(r, ph) else r
        return None

    def mu_for(self, lp, keys, nxt, st0, k, cont, cl):
        """recurrence value of a carried key"""
        if not lp.phs:
            for kk, ph in keys.items():
                tag = ph.args[1]
                lp.phs[tag] = ph
                init = self.read_key(st0, kk)
                n = nxt[kk]
                if kk[0] == 'l':
                    init = t.listt(init)
                    n = t.listt([self.reify_in(cont, e) for e in n]) if not self.is_same_list(n, ph) else ph
                else:
                    n = self.reify_in(cont, n)
                init = self.reify_in(st0, init)
                lp.init[tag] = init
                if n.op in ('ite', 'listt') and lp.kind == 'for' and t.ty(ph) == 'L':
                    n = refine(n, Facts())
                lp.next[tag] = cl(n) if lp.kind == 'for' else n
        tag = keys[k].args[1]
        if any(lp.next[x].weak or lp.init[x].weak for x in lp.closure(tag)):
            return weak("loop", lp.init[tag])
        return lp.mu(tag)

    def weaken(self, st1, keys, exits, breaks, fr, st0):
        u = mk('truthy', weak("loop exit"))
        for k in keys:
            self.write_key(st1, k, [mk('spread', TRUE, weak("loop"))] if k[0] == 'l' else weak("loop"))
        for ek, pc, v, s in exits:
            s2 = st1.copy()
            s2.pc = and_(st0.pc, u)
            if ek == 'break':
                continue
            vv = v if v.op == 'raise' else weak("loop exit value", )
            fr.exits.append((ek, s2.pc, vv, s2))
        if any(e[0] != 'break' for e in exits):
            st1.pc = and_(st0.pc, not_(u))

    def while_range(self, c, closed, keys, lid):
        """recognise  while v < bound: ... v += step  -> number of iterations"""
        if c is None or c is TRUE or c.op not in ('le', 'lt', 'not'):
            return None, None
        negated = c.op == 'not'
        a = c.args[0] if negated else c
        if a.op not in ('le', 'lt'):
            return None, None
        d, k = a.args[0], a.args[1]
        strict = a.op == 'lt'
        if negated:
            # d > k / d >= k   ->  -d < -k / -d <= -k
            d, k = t.neg(d), t.neg(k)
            strict = not strict
        vs = [(kk, ph) for kk, ph in keys.items() if t.mentions(d, ph)]
        if len(vs) != 1 or vs[0][0] not in closed:
            return None, None
        kk, ph = vs[0]
        init, step = closed[kk]
        l = t.lin(d)
        coef = l.get(((ph, 1),))
        if coef is None or coef <= 0:
            return None, None
        rest = t.sub(d, t.mul(K(coef), ph))
        if t.mentions(rest, set(keys.values())) or t.has_loop_id(rest, lid):
            return None, None
        if not t.is_kn(step) and False:
            return None, None
        if t.is_kn(step) and step.args[1] <= 0:
            return None, None
        # coef*(init + step*i) + rest <= k
        num = t.sub(t.sub(k, rest), t.mul(K(coef), init))
        den = t.mul(K(coef), step)
        if strict and not t.isint(num):
            n = t.neg(t.fdiv(t.neg(num), den))
        else:
            if strict:
                num = t.sub(num, ONE)
            n = t.add(t.fdiv(num, den), ONE)
        return mk('rng', n), None

    def hydrate(self, elem):
        """make heap objects for structural element terms"""
        hyd = {}

        def one(x):
            if x.op == 'dictt':
                r = self.newref(Obj('dict', d={k: v for k, g, v in x.args[0]},
                                    base=None if x.args[1] is NONE else x.args[1]))
                hyd[x] = r
                return r
            if x.op == 'obj':
                c = self.p.cls(x.args[0])
                r = self.newref(Obj('inst', c, {k: v for k, v in x.args[1]}, base=x.args[0] if c is None else None))
                hyd[x] = r
                return r
            return x
        if elem.op == 'tuple':
            return mk('tuple', tuple(one(x) for x in elem.args[0])), hyd
        return one(elem), hyd

    def write_back(self, st1, src, hyd, cont, lid, cl, elem):
        if src[0] == 'enum':
            src = src[1]
        if src is None:
            return
        ref, entry = src
        o = st1.heap.get(ref)
        if o is None or entry not in o.d:
            return
        for x, r in hyd.items():
            new = cl(self.reify_in(cont, r))
            if new is x:
                continue
            it, elid, g, b = entry.args
            o2 = o.copy()
            i = o2.d.index(entry)
            nb = t.rename_loop(new, lid, elid)
            o2.d[i] = mk('each', it, elid, g, nb)
            st1.heap[ref] = o2

    # ------------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def truth(self, v):
        o = self.obj(v)
        if o is not None:
            if o.kind == 'list':
                return t.truth(t.listt(o.d)) if o.d else FALSE
            if o.kind == 'dict':
                if o.base is not None:
                    return mk('truthy', self.reify(v))
                return or_(*[self.present(x) for x in o.d.values()])
            if o.kind == 'inst' and v.op == 'ref':
                return TRUE
        if v.op == 'ite':
            return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        return t.truth(self.reify(v) if v.op in ('ref',) else v)

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return weak("...")
        return K(e.value)

    def e_Name(self, e):
        return self.load_name(e.id, e)

    def load_name(self, name, node):
        st = self.st
        if name in self.frame.globals_decl:
            g = st.env.get("global " + name)
            if g is not None:
                return g
        elif name in st.env:
            v = st.env[name]
            if v is UNDEF:
                return self.unbound(name)
            if v.op == 'ite' and (v.args[1] is UNDEF or v.args[2] is UNDEF) and self.caught('UnboundLocalError'):
                return self.bound(name, v)
            return v
        elif self.frame.func is not None and name in locals_of(self.frame.func.node):
            return self.unbound(name)
        # enclosing functions
        clo = self.frame.closure
        while clo is not None:
            fr, cid = clo
            env = None
            for i, x in enumerate(self.frames):
                if x is fr:
                    env = self.frames[i + 1].caller_env if i + 1 < len(self.frames) else st.env
            if env is None:
                env = self.closure_env.get(cid, {})
            if name in env:
                return env[name] if env[name] is not UNDEF else weak("undefined %s" % name)
            clo = fr.closure
        c = self.consts.get(self.frame.module.name + "." + name)
        if c is not None:
            return c
        r = self.frame.module.lookup(name)
        if r is not None:
            if r[0] == 'expr':
                c = self.consts.get(r[2].name + "." + name)
                if c is not None:
                    return c
            return self.from_lookup(r, name)
        return mk('ext', name)

    def bound(self, name, v):
        """v where it is assigned; an exception elsewhere"""
        if v is UNDEF:
            return self.unbound(name)
        if v.op == 'ite' and (v.args[1] is UNDEF or v.args[2] is UNDEF):
            return self.branch(v.args[0], lambda: self.bound(name, v.args[1]), lambda: self.bound(name, v.args[2]))
        return v

    def unbound(self, name):
        if self.caught('UnboundLocalError'):
            self.raise_('UnboundLocalError')
        return weak("undefined %s" % name)

    def from_lookup(self, r, name=None):
        if r is None:
            return weak("unresolved")
        if r[0] == 'fn':
            return mk('fn', r[1].qual)
        if r[0] == 'cls':
            return mk('cls', r[1].qual)
        if r[0] == 'module':
            return mk('mod', r[1].name)
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'expr':
            node, module = r[1], r[2]
            if node is None:
                return weak("module variable")
            key = (module.name, id(node))
            if key in self.globals_cache:
                v, fresh_needed = self.globals_cache[key]
                if not fresh_needed:
                    return v
            if isinstance(node, ast.Call):
                f = self.p.resolve_expr(node.func, module)
                if f is not None and f[0] == 'ext' and f[1].split(".")[-1] == 'namedtuple':
                    nm, fields = nt_fields(node)
                    v = mk('nt', nm, tuple(fields))
                    self.globals_cache[key] = (v, False)
                    return v
            v = self.eval_in_module(node, module)
            v = self.reify(v)
            self.globals_cache[key] = (v, False)
            return v
        return weak("?")

    def e_Tuple(self, e):
        return mk('tuple', tuple(self.eval(x) for x in e.elts)) if not any(isinstance(x, ast.Starred) for x in e.elts) \
            else self._starred(e)

    def _starred(self, e):
        ents = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ents += self.list_entries(self.eval(x.value))
            else:
                ents.append(mk('gi', TRUE, self.eval(x)))
        return t.listt(ents)

    def e_List(self, e):
        ents = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ents += self.list_entries(self.eval(x.value))
            else:
                ents.append(mk('gi', TRUE, self.eval(x)))
        return self.new_list(ents)

    def e_Set(self, e):
        return mk('tuple', tuple(self.eval(x) for x in e.elts))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                o = self.dictobj(src)
                if o is None or o.base is not None:
                    raise Unsupported("dict spread")
                d.update(o.d)
                continue
            d[self.eval(k)] = self.eval(v)
        return self.newref(Obj('dict', d=d))

    def e_Attribute(self, e):
        return self.getattr_(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            lo = self.eval(sl.lower) if sl.lower is not None else NONE
            hi = self.eval(sl.upper) if sl.upper is not None else NONE
            if sl.step is not None:
                stp = self.eval(sl.step)
                if is_ki(stp) and stp.args[1] == -1 and lo is NONE and hi is NONE:
                    return self.reverse(base)
                raise Unsupported("slice step")
            return self.slice_term(base, lo, hi)
        return self.getitem(base, self.eval(e.slice))

    def reverse(self, base):
        o = self.listobj(base)
        if o is not None:
            if all(x.op == 'gi' for x in o.d):
                return self.new_list(reversed(o.d))
            return mk('rev', self.reify(base))
        if base.op == 'rev':
            return base.args[0]
        if base.op == 'tuple':
            return mk('tuple', tuple(reversed(base.args[0])))
        return mk('rev', base)

    def slice_term(self, base, lo, hi):
        if base.op == 'ite':
            return self.branch(base.args[0], lambda: self.slice_term(base.args[1], lo, hi),
                               lambda: self.slice_term(base.args[2], lo, hi))
        for x in (lo, hi):
            if x.op == 'ite':
                return ite(x.args[0], self.slice_term(base, x.args[1] if x is lo else lo, x.args[1] if x is hi else hi),
                           self.slice_term(base, x.args[2] if x is lo else lo, x.args[2] if x is hi else hi))
        o = self.listobj(base)
        if o is None and base.op == 'listt':
            o = Obj('list', d=list(base.args[0]))
        if o is not None:
            es = o.d
            if (lo is NONE or is_ki(lo)) and (hi is NONE or is_ki(hi)):
                l = None if lo is NONE else t.kval(lo)
                h = None if hi is NONE else t.kval(hi)
                if all(x.op == 'gi' and x.args[0] is TRUE for x in es):
                    return self.new_list(es[l:h])
                if (l is None or l >= 0) and h is None and all(x.op == 'gi' and x.args[0] is TRUE for x in es[:l or 0]) \
                        and len(es) >= (l or 0):
                    return self.new_list(es[l:])
                if h is not None and h < 0 and (l is None or l >= 0) and len(es) >= -h and \
                        all(x.op == 'gi' and x.args[0] is TRUE for x in es[h:]) and \
                        all(x.op == 'gi' and x.args[0] is TRUE for x in es[:l or 0]):
                    return self.new_list(es[l:h])
            base = self.reify(base)
        return t.slice_(base, lo, hi)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        def go(vals):
            v = self.eval(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if isinstance(e.op, ast.And):
                # value v where v is false: for text/number/None the false value itself
                return self.branch(c, lambda: go(vals[1:]), lambda: self.falsy(v))
            return self.branch(c, lambda: self.truthyval(v), lambda: go(vals[1:]))
        return go(e.values)

    def falsy(self, v):
        if t.ty(v) == 'B':
            return FALSE
        if v.op == 'ite':
            return self.falsy_ite(v)
        return v

    def falsy_ite(self, v):
        return v

    def truthyval(self, v):
        if t.ty(v) == 'B' and v.op in t.BOOLOPS:
            return TRUE
        if v.op == 'ite':
            # the alternatives that are false cannot be the value here
            if self.truth(v.args[2]) is FALSE:
                return self.truthyval(v.args[1])
            if self.truth(v.args[1]) is FALSE:
                return self.truthyval(v.args[2])
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return t.sub(t.neg(v), ONE)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(e.op, a, b, e)

    def binop(self, op, a, b, node):
        if isinstance(op, ast.Mod) and (t.ty(a) in ('s', 'b') or is_ks(a) or is_kb(a)):
            return self.percent(a, b)
        if isinstance(op, ast.Add):
            la, lb = self.is_list(a), self.is_list(b)
            if la or lb:
                return self.new_list(self.list_entries(a) + self.list_entries(b))
            if a.op == 'tuple' and b.op == 'tuple':
                return mk('tuple', a.args[0] + b.args[0])
        # distribute gated text over concatenation lazily: keep as pieces
        if a.weak or b.weak:
            return weak("binop", a, b)
        ta, tb = t.ty(a), t.ty(b)
        if isinstance(op, ast.Add):
            if ta in ('s', 'b') or tb in ('s', 'b'):
                k = ta if ta in ('s', 'b') else tb
                if ta != tb and ta in ('s', 'b') and tb in ('s', 'b'):
                    return weak("text/bytes mix")
                return t.cat(k, [a, b])
            return t.add(a, b)
        if isinstance(op, ast.Sub):
            return t.sub(a, b)
        if isinstance(op, ast.Mult):
            if ta in ('s', 'b', 'L'):
                if self.is_list(a) and is_ki(b) and 0 <= t.kval(b) < 16:
                    return self.new_list(self.list_entries(a) * t.kval(b))
                return t.rep(a, b)
            if tb in ('s', 'b', 'L'):
                return t.rep(b, a)
            return t.mul(a, b)
        if isinstance(op, ast.Div):
            if is_ks(b) or ta == '?' and tb == 's':
                return mk('call', 'pathdiv', a, b)
            return t.div(a, b)
        if isinstance(op, ast.FloorDiv):
            return self.over_ite(t.fdiv, a, b)
        if isinstance(op, ast.Mod):
            return self.over_ite(t.mod, a, b)
        if isinstance(op, ast.Pow):
            return t.power(a, b)
        nm = {ast.BitAnd: 'band', ast.BitOr: 'bor', ast.BitXor: 'bxor', ast.LShift: 'shl', ast.RShift: 'shr'}.get(type(op))
        if nm:
            if ta == 'B' and tb == 'B' and nm in ('band', 'bor'):
                return and_(a, b) if nm == 'band' else or_(a, b)
            return self.over_ite(lambda x, y: t.bitop(nm, x, y), a, b)
        raise Unsupported("operator")

    def over_ite(self, f, a, b):
        if a.op == 'ite':
            return ite(a.args[0], self.over_ite(f, a.args[1], b), self.over_ite(f, a.args[2], b))
        if b.op == 'ite':
            return ite(b.args[0], self.over_ite(f, a, b.args[1]), self.over_ite(f, a, b.args[2]))
        return f(a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            out = and_(out, self.compare(op, left, right))
            left = right
        return out

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.Eq)):
            return self.eq(a, b)
        if isinstance(op, (ast.IsNot, ast.NotEq)):
            return not_(self.eq(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not_(self.contains(b, a))
        if a.weak or b.weak:
            return mk('truthy', weak("cmp", a, b))

        def le(x, y, strict):
            if x.op == 'ite':
                return ite(x.args[0], le(x.args[1], y, strict), le(x.args[2], y, strict))
            if y.op == 'ite':
                return ite(y.args[0], le(x, y.args[1], strict), le(x, y.args[2], strict))
            xs, ys = self.complete(x), self.complete(y)
            if xs is not None and ys is not None:
                out = K(len(xs) < len(ys) if strict else len(xs) <= len(ys))
                for p, q in reversed(list(zip(xs, ys))):
                    out = or_(le(p, q, True), and_(self.eq(p, q), out))
                return out
            return t.cmp_le(x, y, strict)
        if isinstance(op, ast.Lt):
            return le(a, b, True)
        if isinstance(op, ast.LtE):
            return le(a, b, False)
        if isinstance(op, ast.Gt):
            return le(b, a, True)
        if isinstance(op, ast.GtE):
            return le(b, a, False)
        raise Unsupported("compare")

    def complete(self, x):
        """the members of a tuple or list that are all known to be there"""
        if x.op == 'ntval':
            return [v for _, v in x.args[1]]
        if x.op != 'tuple' and x.op != 'listt' and self.listobj(x) is None:
            return None
        es = self.list_entries(x)
        return [g.args[1] for g in es] if all(g.op == 'gi' and g.args[0] is TRUE for g in es) else None

    def eq(self, a, b):
        if a.op == 'ite' and not isk(b):
            return ite(a.args[0], self.eq(a.args[1], b), self.eq(a.args[2], b))
        if b.op == 'ite' and not isk(a):
            return ite(b.args[0], self.eq(a, b.args[1]), self.eq(a, b.args[2]))
        for x, y in ((a, b), (b, a)):
            o = self.obj(x)
            if o is not None and y is NONE:
                return FALSE
            if o is not None and o.kind == 'list' and not o.d and self.listobj(y) is None:
                pass
        if a.op == 'ref' or b.op == 'ref':
            a, b = self.reify(a), self.reify(b)
            if a.op == 'listt' and b.op == 'listt':
                if not b.args[0]:
                    return not_(t.truth(a))
                if not a.args[0]:
                    return not_(t.truth(b))
        return t.eq(a, b)

    def contains(self, seq, x):
        if seq.op == 'ite':
            return ite(seq.args[0], self.contains(seq.args[1], x), self.contains(seq.args[2], x))
        o = self.obj(seq)
        if o is not None and o.kind == 'dict':
            if x in o.d:
                return self.present(o.d[x])
            if isk(x) and all(isk(k) for k in o.d):
                return FALSE if o.base is None else mk('in', x, o.base)
            if not o.d:
                return FALSE if o.base is None else mk('in', x, o.base)
            return or_(*[and_(self.present(v), t.eq(x, k)) for k, v in o.d.items()])
        if o is not None and o.kind == 'list':
            return self.in_entries(o.d, x)
        if seq.op == 'dictt':
            for k, g, v in seq.args[0]:
                if k is x:
                    return self.present(v)
            if seq.args[1] is NONE:
                return or_(*[and_(self.present(v), t.eq(x, k)) for k, g, v in seq.args[0]])
            return mk('in', x, seq.args[1])
        if seq.op == 'listt':
            return self.in_entries(seq.args[0], x)
        if seq.op == 'ref' or x.op == 'ref':
            seq, x = self.reify(seq), self.reify(x)
        if is_ks(x) and x.args[1] and seq.op in ('cat', 'var'):
            ps = seq.args[1] if seq.op == 'cat' else (seq,)
            if any(is_ks(p) and x.args[1] in p.args[1] for p in ps):
                return TRUE
            if all(_lacks(p, x.args[1]) for p in ps):
                return FALSE
        if seq.op == 'attr' and seq.args[1] == 'attrib':
            return mk('in', x, seq)
        return t.in_(x, seq)

    def in_entries(self, entries, x):
        cs = []
        for e in entries:
            if e.op == 'gi':
                cs.append(and_(e.args[0], self.eq(x, e.args[1])))
            elif e.op == 'each':
                it, lid, g, b = e.args
                eq = self.in_entries(b.args[0].args[0], x) if b.op == 'flat' else t.eq(self.reify(x), b)
                cs.append(t.any_(it, lid, and_(g, eq)))
            else:
                cs.append(and_(e.args[0], t.in_(self.reify(x), e.args[1])))
        return or_(*cs)

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(K(v.value))
            else:
                x = self.eval(v.value)
                spec = ''
                if v.format_spec is not None:
                    sp = self.eval(v.format_spec)
                    if not is_ks(sp):
                        raise Unsupported("format spec")
                    spec = sp.args[1]
                out.append(self.fmt(x, spec or 's', fstring=True))
        return t.cat('s', out)

    def e_FormattedValue(self, e):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]))

    def fmt(self, x, spec, fstring=False):
        x = self.reify(x)
        if x.weak:
            return weak("fmt", x)
        if spec in ('s', 'd', ''):
            return t.conv(spec or 's', x)
        if fstring and spec.startswith('0') and spec[1:].rstrip('dxX').isdigit():
            return t.conv(spec if spec[-1] in 'dxX' else spec + 'd', x)
        return t.conv(spec, x)

    def e_ListComp(self, e):
        return self.comp(e.generators, e.elt)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e):
        return mk('call', 'set', self.reify(self.comp(e.generators, e.elt)))

    def e_DictComp(self, e):
        pair = ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e)
        d = {}
        for en in self.obj(self.comp(e.generators, pair)).d:
            if en.op != 'gi' or en.args[1].op != 'tuple' or not isk(en.args[1].args[0][0]):
                raise Unsupported("dict comprehension")
            k, v = en.args[1].args[0]
            d[k] = ite(en.args[0], v, d.get(k, UNDEF))
        return self.newref(Obj('dict', d=d))

    def comp(self, gens, elt):
        res = self.new_list([])
        saved = dict(self.st.env)

        def rec(i):
            if i == len(gens):
                v = self.eval(elt)
                self.wobj(res).d.append(mk('gi', TRUE, v))
                return NONE
            g = gens[i]
            it = self.eval(g.iter)

            def body(elem):
                self.assign(g.target, elem)
                c = TRUE
                for f in g.ifs:
                    c = and_(c, self.truth(self.eval(f)))
                self.branch(c, lambda: rec(i + 1), lambda: NONE)
            self.loop_over(it, body)
            return NONE
        rec(0)
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    if n.id in saved:
                        self.st.env[n.id] = saved[n.id]
                    else:
                        self.st.env.pop(n.id, None)
        return res

    def e_Lambda(self, e):
        f = Func(e, self.frame.module, None, (self.frame.func.qual if self.frame.func else "?") + ".<lambda>")
        return self.make_closure(f)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        y = self.frame.yield_ref
        if y is EV:
            self.emit('yield', v)
        elif y is not None:
            self.wobj(y).d.append(mk('gi', TRUE, self.reify(v)))
        else:
            raise Unsupported("yield")
        return NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        y = self.frame.yield_ref
        if y is EV:
            self.loop_over(v, lambda el: self.emit('yield', el))
        else:
            self.wobj(y).d.extend(self.list_entries(v))
        return NONE

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        raise Unsupported("starred")

    def e_Await(self, e):
        raise Unsupported("await")

    # ------------------------------------------------------------------ % formatting
    def percent(self, f, b):
        if f.op == 'ite':
            return ite(f.args[0], self.percent(f.args[1], b), self.percent(f.args[2], b))
        if not isk(f):
            return weak("format", f)
        isb = f.args[0] == 'b'
        s = f.args[1].decode('latin-1') if isb else f.args[1]
        if b.op == 'tuple':
            args = list(b.args[0])
        else:
            args = [b]
        out = []
        i = 0
        pos = 0
        buf = ''
        mapping = None
        while pos < len(s):
            ch = s[pos]
            if ch != '%':
                buf += ch
                pos += 1
                continue
            j = pos + 1
            if j < len(s) and s[j] == '%':
                buf += '%'
                pos = j + 1
                continue
            key = None
            if j < len(s) and s[j] == '(':
                q = s.index(')', j)
                key = s[j + 1:q]
                j = q + 1
            st = j
            while j < len(s) and s[j] in '#0- +123456789.*hlL':
                j += 1
            spec = s[st:j + 1]
            if buf:
                out.append(K(buf.encode('latin-1') if isb else buf))
                buf = ''
            if key is not None:
                x = self.getitem(b, K(key))
            else:
                if i >= len(args):
                    return weak("too few format arguments")
                x = args[i]
                i += 1
            if isb:
                if t.ty(x) == 'b':
                    out.append(x)
                elif spec[-1:] in ('d', 'i', 'u', 'x', 'X') and t.ty(x) in ('i', 'n'):
                    from . import calls
                    out.append(calls.encode(self.fmt(x, spec[:-1] + 'd' if spec[-1] in 'iu' else spec)))
                else:
                    return weak("bytes format")
            else:
                if spec in ('i', 'u'):
                    spec = 'd'
                out.append(self.fmt(x, spec))
            pos = j + 1
        if buf:
            out.append(K(buf.encode('latin-1') if isb else buf))
        if any(o.weak for o in out):
            return weak("format", *[o for o in out if o.weak])
        return t.cat('b' if isb else 's', out)

    # ------------------------------------------------------------------ containers
    def is_list(self, v):
        o = self.obj(v)
        if o is not None:
            return o.kind == 'list'
        return v.op == 'listt' or t.ty(v) == 'L'

    def listobj(self, v):
        o = self.obj(v)
        return o if o is not None and o.kind == 'list' else None

    def dictobj(self, v):
        o = self.obj(v)
        return o if o is not None and o.kind == 'dict' else None

    def list_entries(self, v):
        o = self.obj(v)
        if o is not None and o.kind == 'list':
            return list(o.d)
        if v.op == 'listt':
            return list(v.args[0])
        if v.op == 'tuple':
            return [mk('gi', TRUE, x) for x in v.args[0]]
        if v.op == 'ite':
            a, b = self.list_entries(v.args[1]), self.list_entries(v.args[2])
            return [x for x in [gate(v.args[0], e) for e in a] + [gate(not_(v.args[0]), e) for e in b] if x is not None]
        return [mk('spread', TRUE, v)]

    def getitem(self, base, k, unpack=None):
        if base.op == 'ite':
            c = base.args[0]
            return self.branch(c, lambda: self.getitem(base.args[1], k, unpack),
                               lambda: self.getitem(base.args[2], k, unpack))
        o = self.obj(base)
        if o is not None and o.kind == 'inst' and o.base == 'Match':
            from . import calls
            r = calls.match_method(self, o, '__getitem__', [k], {})
            return r if r is not None else weak("group")
        if o is not None and o.kind == 'dict':
            if k in o.d:
                v = o.d[k]
                if v is UNDEF:
                    return weak("missing key")
                return self.value_if_present(v)
            if o.base is not None:
                if isk(k) and all(isk(x) for x in o.d):
                    return t.item(o.base, k)
                if not o.d:
                    return t.item(o.base, k)
                r = t.item(o.base, k)
            else:
                r = weak("missing key %s" % t.show(k))
            if isk(k) and all(isk(x) for x in o.d):
                return r
            for kk, v in reversed(list(o.d.items())):
                r = ite(t.eq(k, kk), self.value_if_present(v), r)
            return r
        if o is not None and o.kind == 'list':
            es = o.d
            if is_ki(k):
                i = t.kval(k)
                if i >= 0 and len(es) > i and all(e.op == 'gi' and e.args[0] is TRUE for e in es[:i + 1]):
                    return es[i].args[1]
                if i < 0 and len(es) >= -i and all(e.op == 'gi' and e.args[0] is TRUE for e in es[i:]):
                    return es[i].args[1]
                if i == -1 and es and all(e.op == 'gi' for e in es):
                    # last present entry
                    r = None
                    for e in es:
                        r = e.args[1] if r is None else ite(e.args[0], e.args[1], r)
                    return r
                if (i >= len(es) or i < -len(es)) and all(e.op == 'gi' and e.args[0] is TRUE for e in es):
                    self.raise_('IndexError')
            return t.item(self.reify(base), self.reify(k))
        if o is not None and o.kind == 'inst':
            if o.base == 'ntinst':
                if is_ki(k):
                    names = list(o.d)
                    return o.d[names[t.kval(k)]]
            if o.cls is not None:
                m = self.p.find_method(o.cls, "__getitem__")
                if m is not None:
                    return self.call_func(m, [k], {}, base, None)
        if base.op == 'obj' and is_ki(k):
            return base.args[1][t.kval(k)][1]
        if base.op == 'ntval' and is_ki(k):
            return base.args[1][t.kval(k)][1]
        if base.op == 'dictt':
            for kk, g, v in base.args[0]:
                if kk is k:
                    return self.value_if_present(v)
        if k.op == 'ref':
            k = self.reify(k)
        if is_ki(k) and t.ty(base) == 'b' and not base.weak:
            n = t.blen(base)
            if is_ki(n) and not -n.args[1] <= k.args[1] < n.args[1]:
                self.raise_('IndexError')
        r = t.item(base, k)
        if r.op == 'item':
            self.may_raise('KeyError' if t.ty(base) in ('D', '?') and not is_ki(k) else 'IndexError', r)
        return r

    def setitem(self, base, k, v):
        if base.op == 'ite':
            self.branch(base.args[0], lambda: self.setitem(base.args[1], k, v) or NONE,
                        lambda: self.setitem(base.args[2], k, v) or NONE)
            return
        o = self.obj(base)
        if o is None:
            # symbolic mapping: overlay
            if t.ty(base) == 'L' or t.ty(base) == 'b':
                raise Unsupported("store into symbolic list")
            self.st.heap[base] = Obj('dict', None, {}, True, base)
            o = self.st.heap[base]
        if o.kind == 'dict':
            o = self.wobj(base)
            if not isk(k) and any(not isk(x) or True for x in o.d if x is not k):
                # a store through a computed key may hit any other key
                for kk in list(o.d):
                    if kk is not k:
                        o.d[kk] = ite(t.eq(k, kk), v, o.d[kk])
            o.d[k] = v
            return
        if o.kind == 'list':
            if is_ki(k):
                i = t.kval(k)
                es = self.wobj(base).d
                if -len(es) <= i < len(es):
                    part = es[:i + 1] if i >= 0 else es[i:]
                    if all(e.op == 'gi' and e.args[0] is TRUE for e in part):
                        es[i] = mk('gi', TRUE, v)
                        return
            raise Unsupported("list store")
        raise Unsupported("item store")

    def getattr_(self, base, name):
        op = base.op
        if base.weak:
            return weak("attr", base)
        if op == 'ite':
            if base.args[1].op in ('fn', 'cls', 'mod', 'ext') or True:
                return self.branch(base.args[0], lambda: self.getattr_(base.args[1], name),
                                   lambda: self.getattr_(base.args[2], name))
        o = self.obj(base)
        if o is not None and o.kind == 'inst':
            if name in o.d:
                v = o.d[name]
                if v is UNDEF:
                    return weak("attribute %s may be missing" % name)
                return v
            if o.cls is not None:
                m = self.p.find_method(o.cls, name)
                if m is not None:
                    if m.is_property:
                        return self.call_func(m, [], {}, base, None)
                    return mk('bm', base, m.qual)
                ca = self.p.find_classattr(o.cls, name)
                if ca is not None:
                    return self.reify(self.eval_in_module(ca[1], ca[0].module))
                if name == '__class__':
                    return mk('cls', o.cls.qual)
            if name == '__dict__':
                raise Unsupported("__dict__")
            if o.lazy:
                return mk('attr', base, name)
            if o.cls is not None and self.p.ext_bases(o.cls) and \
                    any(b not in ('object',) for b in self.p.ext_bases(o.cls)):
                return mk('bmx', base, name)
            if o.base is not None and o.cls is None:
                return mk('bmx', base, name)
            return weak("no attribute %s" % name)
        if op == 'mod':
            m = self.p.modules[base.args[0]]
            c = self.consts.get(m.name + "." + name)
            if c is not None:
                return c
            r = m.lookup(name)
            if r is None:
                s = self.p.module(m.name + "." + name)
                if s is not None:
                    return mk('mod', s.name)
                return weak("no module attribute")
            if r[0] == 'expr':
                c = self.consts.get(r[2].name + "." + name)
                if c is not None:
                    return c
            return self.from_lookup(r, name)
        if op == 'ext':
            full = base.args[0] + "." + name
            m = self.p.module(full)
            if m is not None:
                return mk('mod', m.name)
            return mk('ext', full)
        if op == 'cls':
            c = self.p.cls(base.args[0])
            if c is not None:
                m = self.p.find_method(c, name)
                if m is not None:
                    return mk('fn', m.qual)
                ca = self.p.find_classattr(c, name)
                if ca is not None:
                    return self.reify(self.eval_in_module(ca[1], ca[0].module))
                if name == '__name__':
                    return K(c.name)
            return weak("class attribute")
        if op == 'obj':
            for k, v in base.args[1]:
                if k == name:
                    return v
            c = self.p.cls(base.args[0])
            if c is not None:
                ref, hyd = self.hydrate(base)
                return self.getattr_(ref, name)
        if op == 'ntval':
            for k, v in base.args[1]:
                if k == name:
                    return v
        if op == 'super':
            c = self.p.cls(base.args[1])
            for x in self.p.mro(c)[1:]:
                if name in x.methods:
                    return mk('bm', base.args[0], x.methods[name].qual)
            return mk('bmx', base.args[0], name)
        if op in ('fn', 'clo', 'bm') and name in ('__name__', '__doc__'):
            return mk('attr', base, name)
        ty = t.ty(base)
        if ty in ('s', 'b', 'L', 'D', 'T') or o is not None or op in ('tuple', 'listt', 'dictt'):
            return mk('bmx', base, name)
        return mk('attr', base, name)

    def setattr_(self, base, name, v):
        if base.op == 'ite':
            self.branch(base.args[0], lambda: self.setattr_(base.args[1], name, v) or NONE,
                        lambda: self.setattr_(base.args[2], name, v) or NONE)
            return
        o = self.obj(base)
        if o is None:
            if base.weak:
                raise Unsupported("attribute of unknown object")
            if base.op == 'mod':
                self.emit('global', K(base.args[0] + "." + name), v)
                return
            if base.op in ('cls', 'fn', 'ext', 'k'):
                self.emit('global', base, K(name), v)
                return
            self.st.heap[base] = Obj('inst', None, {}, lazy=True)
            o = self.st.heap[base]
        if o.kind != 'inst':
            raise Unsupported("attribute of container")
        if o.cls is not None:
            m = self.p.find_setter(o.cls, name)
            if m is not None:
                self.call_func(m, [v], {}, base, None)
                return
        self.wobj(base).d[name] = v

    def assign_expr(self, node, v):
        import copy
        tg = copy.copy(node)
        tg.ctx = ast.Store()
        self.assign(tg, v)

    def deep_ref(self, x):
        """fresh heap objects for a structural term (deep copy)"""
        if x.op == 'dictt':
            return self.newref(Obj('dict', d={k: self.deep_ref(v) for k, g, v in x.args[0]},
                                   base=None if x.args[1] is NONE else x.args[1]))
        if x.op == 'listt':
            return self.new_list([mk('gi', e.args[0], self.deep_ref(e.args[1])) if e.op == 'gi' else e
                                  for e in x.args[0]])
        if x.op == 'obj':
            c = self.p.cls(x.args[0])
            return self.newref(Obj('inst', c, {k: self.deep_ref(v) for k, v in x.args[1]},
                                   base=x.args[0] if c is None else None))
        return x

    # ------------------------------------------------------------------ calls
    def e_Call(self, e):
        from .calls import call_expr
        return call_expr(self, e)


def _lacks(x, sep):
    from .calls import lacks
    return lacks(x, sep)


MUTATORS = ('append', 'extend', 'insert', 'sort', 'reverse', 'pop', 'remove', 'clear')
BUILTIN_NAMES = set(dir(builtins))


def untouched(key, o):
    """the object of a symbolic value before it was touched"""
    return Obj(o.kind, o.cls, {} if o.kind != 'list' else [mk('spread', TRUE, key)], o.lazy, o.base)


def gate(c, e):
    if c is TRUE:
        return e
    if c is FALSE:
        return None
    if e.op == 'gi':
        g = and_(c, e.args[0])
        return None if g is FALSE else mk('gi', g, e.args[1])
    if e.op == 'spread':
        g = and_(c, e.args[0])
        return None if g is FALSE else mk('spread', g, e.args[1])
    if e.op == 'each':
        return mk('each', e.args[0], e.args[1], and_(c, e.args[2]), e.args[3])
    return mk('spread', c, t.listt([e]))


def nt_fields(node):
    nm = node.args[0].value if isinstance(node.args[0], ast.Constant) else "nt"
    f = node.args[1]
    if isinstance(f, ast.Constant):
        fields = f.value.replace(",", " ").split()
    else:
        fields = [x.value for x in f.elts]
    return nm, fields
