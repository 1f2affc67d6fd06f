"""Loads the source of /repo/dashlivesim (and reference modules), resolves modules, classes, functions and names."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")


class Func(object):
    def __init__(self, node, module, cls, qual):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            if isinstance(d, ast.Name):
                self.decorators.append(d.id)
            elif isinstance(d, ast.Attribute):
                self.decorators.append(d.attr)
        self.is_gen = _has_yield(node)

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return "<%s>" % self.qual


def _has_yield(fn):
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class(object):
    def __init__(self, node, module, qual):
        self.node = node
        self.module = module
        self.qual = qual
        self.name = node.name
        self.methods = {}
        self.attrs = {}
        self.setters = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                f = Func(n, module, self, qual + "." + n.name)
                if "setter" in f.decorators:
                    self.setters[n.name] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Name):
                        self.attrs[tg.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.attrs[n.target.id] = n.value

    def __repr__(self):
        return "<class %s>" % self.qual


class Module(object):
    def __init__(self, name, path, src, program):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.program = program
        self.funcs = {}
        self.classes = {}
        self.imports = {}     # local name -> ('mod', modname) | ('from', modname, name)
        self.assigns = {}     # global name -> list of value expressions
        self.star = []
        self._collect(self.tree.body)
        self.dup = set()

    def _collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = Func(n, self, None, self.name + "." + n.name)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Class(n, self, self.name + "." + n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                m = n.module or ''
                if n.level:
                    base = self.name.split('.')
                    if not self.path.endswith("__init__.py"):
                        base = base[:-1]
                    base = base[:len(base) - (n.level - 1)]
                    m = ".".join(base + ([m] if m else []))
                for a in n.names:
                    if a.name == '*':
                        self.star.append(m)
                    else:
                        self.imports[a.asname or a.name] = ('from', m, a.name)
            elif isinstance(n, ast.Assign):
                for tg in n.targets:
                    if isinstance(tg, ast.Name):
                        self.assigns.setdefault(tg.id, []).append(n.value)
                    elif isinstance(tg, (ast.Tuple, ast.List)):
                        for e in tg.elts:
                            if isinstance(e, ast.Name):
                                self.assigns.setdefault(e.id, []).append(None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.assigns.setdefault(n.target.id, []).append(None)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for b in ("body", "orelse", "finalbody"):
                    self._collect(getattr(n, b, []) or [])
                for h in getattr(n, "handlers", []):
                    self._collect(h.body)
                if isinstance(n, ast.For):
                    for e in ast.walk(n.target):
                        if isinstance(e, ast.Name):
                            self.assigns.setdefault(e.id, []).append(None)

    def last_is_direct(self, name):
        """whether the last assignment of a module variable is an unconditional one"""
        last = None
        for n in self.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
                last = n.value
            elif any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(n)) \
                    and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                last = None
            elif any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(n)):
                return False
        return last is not None and last is self.assigns[name][-1]

    def lookup(self, name, depth=0):
        """-> ('fn',Func) ('cls',Class) ('module',Module) ('ext',dotted) ('expr',node,Module) or None"""
        if name in self.funcs:
            return ('fn', self.funcs[name])
        if name in self.classes:
            return ('cls', self.classes[name])
        if name in self.assigns:
            vs = self.assigns[name]
            return ('expr', vs[-1] if len(vs) == 1 or self.last_is_direct(name) else None, self)
        if name in self.imports:
            imp = self.imports[name]
            if imp[0] == 'mod':
                m = self.program.module(imp[1])
                return ('module', m) if m else ('ext', imp[1])
            m = self.program.module(imp[1])
            if m is not None:
                sub = self.program.module(imp[1] + "." + imp[2])
                if sub is not None and imp[2] not in m.funcs and imp[2] not in m.classes:
                    return ('module', sub)
                if depth < 6:
                    return m.lookup(imp[2], depth + 1)
                return None
            sub = self.program.module(imp[1] + "." + imp[2])
            if sub is not None:
                return ('module', sub)
            return ('ext', imp[1] + "." + imp[2])
        for m in self.star:
            mm = self.program.module(m)
            if mm is not None and depth < 6:
                r = mm.lookup(name, depth + 1)
                if r is not None:
                    return r
        return None


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.errors = []
        self._bases = {}
        self._mro = {}
        self._load_tree()

    def _load_tree(self):
        root = os.path.join(self.repo, "dashlivesim")
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(d for d in dn if d not in ("tests", "test", "__pycache__", "vod_cfg_default"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                if name.split(".")[-1].startswith("test"):
                    continue
                with open(path, encoding="utf-8") as h:
                    src = h.read()
                self.modules[name] = Module(name, path, src, self)

    def add_source(self, name, src, path="<reference>"):
        self.modules[name] = Module(name, path, src, self)
        return self.modules[name]

    def module(self, name):
        m = self.modules.get(name)
        if m is None and name and "dashlivesim." not in name:
            # scripts import siblings without package name
            for base in ("dashlivesim.dashlib.stpp_generator.", "dashlivesim.dashlib.", "dashlivesim.vodanalyzer.",
                         "dashlivesim.cc_inserter."):
                if base + name in self.modules and name in ("stpp_creator", "mpdprocessor"):
                    return self.modules[base + name]
        return m

    def func(self, qual):
        """find a Func by qualified name 'module.func' or 'module.Class.method'; None if absent"""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1:
                return m.funcs.get(rest[0])
            if len(rest) == 2:
                c = m.classes.get(rest[0])
                if c is None:
                    r = m.lookup(rest[0])
                    c = r[1] if r and r[0] == 'cls' else None
                return self.find_method(c, rest[1]) if c else None
        return None

    def cls(self, qual):
        mod, _, name = qual.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            return None
        r = m.lookup(name)
        return r[1] if r and r[0] == 'cls' else None

    def bases(self, c):
        """resolved base classes: list of Class or ('ext', name)"""
        if c in self._bases:
            return self._bases[c]
        out = self._bases[c] = []
        for b in c.node.bases:
            r = self.resolve_expr(b, c.module)
            if r is None:
                out.append(('ext', ast.dump(b)))
            elif r[0] == 'cls':
                out.append(r[1])
            elif r[0] == 'ext':
                out.append(('ext', r[1]))
            else:
                out.append(('ext', '?'))
        return out

    def resolve_expr(self, e, module):
        """resolve a Name/Attribute expression at module scope"""
        if isinstance(e, ast.Name):
            r = module.lookup(e.id)
            if r is None:
                return ('ext', e.id)
            return r
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(e.value, module)
            if r is None:
                return None
            if r[0] == 'module':
                return r[1].lookup(e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + "." + e.attr)
            if r[0] == 'cls':
                f = self.find_method(r[1], e.attr)
                return ('fn', f) if f else None
        return None

    def mro(self, c):
        if c in self._mro:
            return self._mro[c]
        out = self._mro[c] = []
        seen = set()

        def go(x):
            if isinstance(x, tuple):
                return
            if x.qual in seen:
                return
            seen.add(x.qual)
            out.append(x)
            for b in self.bases(x):
                go(b)
        go(c)
        return out

    def ext_bases(self, c):
        out = []
        for x in self.mro(c):
            for b in self.bases(x):
                if isinstance(b, tuple):
                    out.append(b[1])
        return out

    def find_method(self, c, name):
        for x in self.mro(c):
            if name in x.methods:
                return x.methods[name]
        return None

    def find_setter(self, c, name):
        for x in self.mro(c):
            if name in x.setters:
                return x.setters[name]
        return None

    def find_classattr(self, c, name):
        for x in self.mro(c):
            if name in x.attrs:
                return x, x.attrs[name]
        return None

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f
                for f in c.setters.values():
                    yield f
