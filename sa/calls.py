"""Transfer functions of calls: project functions are inlined, library functions have models, the rest stays opaque."""
import re
import ast
import string

from . import regex
from . import terms as t
from .terms import T, K, NONE, TRUE, FALSE, UNDEF, ZERO, ONE, mk, weak, isk, is_ki, is_kn, is_ks, is_kb, ite, and_, \
    or_, not_


def _I():
    from . import interp
    return interp


STDLIB = {}


def call_expr(I, e):
    M = _I()
    f = e.func
    # super()
    if isinstance(f, ast.Name) and f.id == 'super':
        fn = None
        for fr in reversed(I.frames):
            if fr.func is not None and fr.func.cls is not None:
                fn = fr.func
                break
        if fn is None:
            raise M.Unsupported("super")
        first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
        return mk('super', I.load_name(first, e), fn.cls.qual)
    if isinstance(f, ast.Name) and f.id == 'globals' and not e.args:
        m = I.frame.module
        d = {}
        for n in m.funcs:
            d[K(n)] = mk('fn', m.funcs[n].qual)
        for n in m.classes:
            d[K(n)] = mk('cls', m.classes[n].qual)
        for n in m.assigns:
            d.setdefault(K(n), weak("global"))
        return I.newref(M.Obj('dict', d=d))
    if isinstance(f, ast.Name) and f.id in ('locals', 'vars', 'eval', 'exec'):
        raise M.Unsupported(f.id)
    base = None
    if isinstance(f, ast.Attribute):
        base = I.eval(f.value)
        callee = callee_attr(I, base, f.attr)
    else:
        callee = I.eval(f)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            ents = I.list_entries(I.eval(a.value))
            if not all(x.op == 'gi' and x.args[0] is TRUE for x in ents):
                args.append(mk('star', I.reify(t.listt(ents))))
                continue
            args += [x.args[1] for x in ents]
        else:
            args.append(I.eval(a))
    kwargs = {}
    for k in e.keywords:
        if k.arg is None:
            v = I.eval(k.value)
            o = I.dictobj(v)
            if o is None or o.base is not None or not all(is_ks(x) for x in o.d):
                raise M.Unsupported("** argument")
            for kk, vv in o.d.items():
                kwargs[kk.args[1]] = I.value_if_present(vv)
        else:
            kwargs[k.arg] = I.eval(k.value)
    # in-place growth of a byte buffer
    if base is not None and t.ty(base) == 'b' and f.attr in ('extend', 'append') and callee.op == 'bmx':
        v = args[0]
        if f.attr == 'append':
            v = t.wr(1, 'u', v)
        I.assign_expr(f.value, t.cat('b', [base, v]))
        return NONE
    return apply(I, callee, args, kwargs, e)


def callee_attr(I, base, name):
    if base.op == 'super':
        return I.getattr_(base, name)
    return I.getattr_(base, name)


def apply(I, c, args, kwargs, e):
    M = _I()
    op = c.op
    if op == 'ite':
        return I.branch(c.args[0], lambda: apply(I, c.args[1], args, kwargs, e),
                        lambda: apply(I, c.args[2], args, kwargs, e))
    if c.weak:
        I.emit('weak', weak("call of unknown"))
        return weak("call of unknown")
    if op == 'fn':
        f = I.p.func(c.args[0])
        if f.cls is not None and not f.is_static and not f.is_classmethod:
            if not args:
                raise M.Unsupported("unbound call")
            return I.call_func(f, args[1:], kwargs, args[0], e)
        if f.cls is not None and f.is_classmethod:
            return I.call_func(f, args, kwargs, mk('cls', f.cls.qual), e)
        return I.call_func(f, args, kwargs, None, e)
    if op == 'bm':
        f = I.p.func(c.args[1])
        st = c.args[0]
        if f.is_static:
            return I.call_func(f, args, kwargs, None, e)
        if f.is_classmethod:
            o = I.obj(st)
            st = mk('cls', o.cls.qual) if o is not None and o.cls is not None else mk('cls', f.cls.qual)
        ov = I.method_overrides.get(f.node.name)
        if ov is not None and (ov[0] is None or ov[0](I, st)):
            return ov[1](I, st, args, kwargs, e)
        return I.call_func(f, args, kwargs, st, e)
    if op == 'cls':
        return I.construct(I.p.cls(c.args[0]), args, kwargs, e)
    if op == 'clo':
        f, _, fr = I.closures[c.args[0]]
        return I.call_func(f, args, kwargs, None, e, closure=(fr, c.args[0]))
    if op == 'nt':
        fields = c.args[1]
        vals = dict(zip(fields, args))
        vals.update(kwargs)
        if len(args) == 1 and args[0].op == 'star':
            s = args[0].args[0]
            return mk('ntval', c.args[0], tuple((fl, t.item(s, K(i))) for i, fl in enumerate(fields)))
        return mk('ntval', c.args[0], tuple((fl, vals.get(fl, weak("missing field"))) for fl in fields))
    if op == 'ext':
        return external(I, c.args[0], args, kwargs, e)
    if op == 'bmx':
        return method(I, c.args[0], c.args[1], args, kwargs, e)
    if op == 'attr':
        return method(I, c.args[0], c.args[1], args, kwargs, e)
    if op == 'var':
        I.emit('call', c, *(args + [v for k, v in sorted(kwargs.items())]))
        return mk('call', c.args[0], *[I.reify(a) for a in args])
    if op in ('item', 'mu', 'sel', 'm', 'call', 'bv'):
        return mk('call', c, *[I.reify(a) for a in args])
    raise M.Unsupported("call of %s" % op)


# ------------------------------------------------------------------ library functions
def norm_name(n):
    for p in ('builtins.',):
        if n.startswith(p):
            n = n[len(p):]
    if n.startswith('xml.etree.cElementTree'):
        n = 'ET' + n[len('xml.etree.cElementTree'):]
    if n.startswith('xml.etree.ElementTree'):
        n = 'ET' + n[len('xml.etree.ElementTree'):]
    if n.startswith('posixpath.'):
        n = 'os.path.' + n[len('posixpath.'):]
    return n


def first(args, kwargs, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kwargs.get(name, default)


def is_exc_name(n):
    s = n.split(".")[-1]
    return s.endswith("Error") or s.endswith("Exception") or s in ('KeyboardInterrupt', 'SystemExit', 'StopIteration')


def external(I, name, args, kwargs, e):
    M = _I()
    n = norm_name(name)
    ov = I.call_overrides.get(n)
    if ov is not None:
        return ov(I, args, kwargs, e)
    if n in M.IGNORED_CALLS:
        return NONE
    h = EXT.get(n)
    if h is not None:
        return h(I, args, kwargs, e)
    if args and n.split('.')[0] in ('str', 'bytes', 'dict', 'list') and n.count('.') == 1 and n.split('.')[1] not in ('maketrans', 'fromhex'):
        return method(I, args[0], n.split('.')[1], args[1:], kwargs, e)
    if n.startswith('math.') and n[5:] in ('floor', 'ceil', 'trunc'):
        x = args[0]
        if t.isnum(x):
            return {'floor': lambda v: I.over_ite(t.fdiv, v, ONE), 'ceil': t.ceil_, 'trunc': t.toint}[n[5:]](x)
    if n == 'sys.exit':
        I.emit('exit')
        I.raise_('SystemExit')
    if n in M.IMPURE:
        rargs = [I.reify(a) for a in args]
        if n in ('time.sleep', 'os.remove', 'os.unlink', 'os.rename', 'os.system', 'os.makedirs', 'os.mkdir'):
            I.emit('call', K(n), *rargs)
            return NONE
        k = I.counter(n)
        I.emit('impure', K(n), K(k))
        return mk('call', n, *(rargs + [K(k)] + [mk('bi', l) for l in I.loopstack]))
    if is_exc_name(n):
        return I.newref(M.Obj('inst', None, {'args': mk('tuple', tuple(args))}, base=n))
    if any(a.weak for a in args):
        return weak("call " + n, *args)
    if I.stmt_node is e and any(o is not None and o.kind in ('list', 'dict') for o in map(I.obj, args)):
        raise M.Unsupported("changes by " + n)      # a call for its effect on a container
    rargs = [I.reify(a) for a in args]
    for k in sorted(kwargs):
        rargs.append(mk('kw', k, I.reify(kwargs[k])))
    r = mk('call', n, *rargs)
    if I.stmt_node is e:
        I.emit('call', K(n), *rargs)
    I.may_raise('Exception', r) if n in I.raising else None
    return r


def x_len(I, args, kwargs, e):
    x = args[0]
    if x.op == 'ite':
        return I.branch(x.args[0], lambda: x_len(I, [x.args[1]], kwargs, e), lambda: x_len(I, [x.args[2]], kwargs, e))
    o = I.obj(x)
    if o is not None and o.kind == 'dict':
        if o.base is None:
            r = ZERO
            for v in o.d.values():
                r = t.add(r, ite(I.present(v), ONE, ZERO))
            return r
    if o is not None and o.kind == 'inst' and o.cls is not None:
        m = I.p.find_method(o.cls, "__len__")
        if m is not None:
            return I.call_func(m, [], {}, x, e)
    if o is not None and o.base == 'Element':
        return x_len(I, [o.d['#children']], kwargs, e)
    if x.op == 'range':
        segs = I.segments(x)
        if all(s[0] == 'one' for s in segs):
            return K(len(segs))
        return t.cnt(segs[0][1])
    return t.blen(I.reify(x))


def x_int(I, args, kwargs, e):
    if not args:
        return ZERO
    x = args[0]
    if x.op == 'ite':
        return I.branch(x.args[0], lambda: x_int(I, [x.args[1]] + args[1:], kwargs, e),
                        lambda: x_int(I, [x.args[2]] + args[1:], kwargs, e))
    if x.weak:
        return weak("int", x)
    k = t.ty(x)
    base = args[1] if len(args) > 1 else kwargs.get('base')
    if base is not None and t.is_ki(base):
        # reading back a number that was formatted in this base
        p = x.args[1] if x.op == 'cat' and x.args[0] == 's' else (x,)
        if p and is_ks(p[0]) and (base.args[1], p[0].args[1]) in ((16, '0x'), (16, '0X'), (8, '0o'), (2, '0b')):
            p = p[1:]
        if len(p) == 1 and p[0].op == 'conv' and (base.args[1], p[0].args[0]) in ((16, 'x'), (16, 'X'), (10, 'd'), (8, 'o'), (2, 'b')) \
                and t.ty(p[0].args[1]) == 'i':
            return p[0].args[1]
    if len(args) > 1 or kwargs:
        r = mk('call', 'int', x, *([a for a in args[1:]] + [kwargs[q] for q in sorted(kwargs)]))
        I.may_raise('ValueError', r)
        return r
    if k == 'i':
        return x
    if k == 'n':
        return t.toint(x)
    if k == 'B':
        return ite(I.truth(x), ONE, ZERO)
    if is_ks(x):
        try:
            return K(int(x.args[1]))
        except ValueError:
            I.raise_('ValueError')
    if x.op == 'conv' and re.fullmatch(r'0?[0-9]*d', x.args[0]) and t.ty(x.args[1]) == 'i':
        return x.args[1]
    if x.op == 'conv' and x.args[0] == 's' and t.ty(x.args[1]) == 'i':
        return x.args[1]
    if x is NONE:
        I.raise_('TypeError')
    if k == 'N':
        I.raise_('TypeError')
    r = mk('call', 'int', I.reify(x))
    I.may_raise('ValueError', r)
    return r


def x_float(I, args, kwargs, e):
    if not args:
        return ZERO
    x = args[0]
    if x.op == 'ite':
        return I.branch(x.args[0], lambda: x_float(I, [x.args[1]], kwargs, e), lambda: x_float(I, [x.args[2]], kwargs, e))
    if x.weak:
        return weak("float", x)
    if t.ty(x) in ('i', 'n'):
        return x
    if is_ks(x):
        try:
            return K(float(x.args[1]))
        except ValueError:
            I.raise_('ValueError')
    if x.op == 'conv' and (x.args[0] == 'd' or x.args[0] == 'f' and t.ty(x.args[1]) == 'i'):
        return x.args[1]
    if x is NONE:
        I.raise_('TypeError')
    r = mk('call', 'float', I.reify(x))
    I.may_raise('ValueError', r)
    return r


def x_str(I, args, kwargs, e):
    if not args:
        return K('')
    x = args[0]
    if len(args) > 1 or kwargs:
        return method(I, x, 'decode', args[1:], kwargs, e)
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and o.cls is not None and x.op == 'ref':
        m = I.p.find_method(o.cls, "__str__")
        if m is not None:
            return I.call_func(m, [], {}, x, e)
    return t.conv('s', I.reify(x))


def minmax(name):
    def f(I, args, kwargs, e):
        if kwargs:
            return weak("key")
        if len(args) == 1:
            o = I.listobj(args[0])
            ents = o.d if o is not None else (I.list_entries(args[0]) if args[0].op in ('tuple', 'listt') else None)
            if ents is not None and ents and all(x.op == 'gi' and x.args[0] is TRUE for x in ents):
                args = [x.args[1] for x in ents]
            else:
                return mk('call', name, I.reify(args[0]))
        if any(a.weak for a in args):
            return weak(name, *args)
        r = args[0]
        import ast as _a
        for x in args[1:]:
            c = I.compare(_a.Lt() if name == 'min' else _a.Gt(), x, r)
            r = ite(c, x, r)
        return r
    return f


def x_abs(I, args, kwargs, e):
    x = args[0]
    c = I.compare(ast.Lt(), x, ZERO)
    return ite(c, t.neg(x), x)


def x_round(I, args, kwargs, e):
    x = args[0]
    if x.op == 'ite':
        return I.branch(x.args[0], lambda: x_round(I, [x.args[1]] + args[1:], kwargs, e),
                        lambda: x_round(I, [x.args[2]] + args[1:], kwargs, e))
    if len(args) == 1 and t.isint(x):
        return x
    if x.weak:
        return weak("round", x)
    return mk('call', 'round', *args)


def x_range(I, args, kwargs, e):
    if len(args) == 1:
        return mk('range', ZERO, args[0], ONE)
    if len(args) == 2:
        return mk('range', args[0], args[1], ONE)
    return mk('range', *args)


def x_enumerate(I, args, kwargs, e):
    st = first(args, kwargs, 1, 'start', ZERO)
    return mk('enum', args[0], st)


def x_zip(I, args, kwargs, e):
    if any(a.op == 'star' for a in args):
        return weak("zip")
    return mk('zip', *args)


def x_reversed(I, args, kwargs, e):
    return I.reverse(args[0])


def x_sorted(I, args, kwargs, e):
    if kwargs:
        es = keyed(I, I.list_entries(args[0]), kwargs, e)
        return I.new_list(es) if es is not None else mk('call', 'sorted', I.reify(args[0]), weak("key"))
    x = I.reify(args[0])
    if x.op == 'sorted':
        return x
    es = in_order(x.args[0]) if x.op == 'listt' else in_order([mk('gi', TRUE, a) for a in x.args[0]]) if x.op == 'tuple' else None
    if es is not None:
        return I.new_list(es)
    return mk('sorted', x)


def x_bisect(left):
    def f(I, args, kwargs, e):
        """number of entries below (or equal to) a value, where every comparison is decided"""
        if len(args) == 2 and not kwargs:
            es = [x.args if x.op == 'gi' and x.args[0] is TRUE else None for x in I.list_entries(args[0])]
            if None not in es:
                cs = [I.cond(t.cmp_le(x[1], args[1], left)) if t.isnum(x[1]) and t.isnum(args[1]) else None for x in es]
                if all(c is TRUE or c is FALSE for c in cs) and TRUE not in cs[cs.index(FALSE) if FALSE in cs else len(cs):]:
                    return K(sum(c is TRUE for c in cs))
        return mk('call', 'bisect.bisect_left' if left else 'bisect.bisect', *[I.reify(a) for a in args])
    return f


def keyed(I, es, kwargs, e):
    """the entries sorted by a key (and in reverse), if the keys are constants of one kind"""
    es = list(es)
    key, back = kwargs.get('key', NONE), kwargs.get('reverse', FALSE)
    if set(kwargs) - {'key', 'reverse'} or back not in (TRUE, FALSE) or any(x.op != 'gi' or x.args[0] is not TRUE for x in es):
        return None
    ks = [x.args[1] if key is NONE else apply(I, key, [x.args[1]], {}, e) for x in es]
    if not (all(t.is_ki(k) for k in ks) or all(is_ks(k) for k in ks)):
        return None
    return [es[j] for j in sorted(range(len(es)), key=lambda j: ks[j].args[1], reverse=back is TRUE)]


def in_order(es):
    """the entries sorted, if they are constants of one kind"""
    if all(e.op == 'gi' and e.args[0] is TRUE for e in es) and \
            (all(t.is_ki(e.args[1]) for e in es) or all(is_ks(e.args[1]) for e in es)):
        return sorted(es, key=lambda e: e.args[1].args[1])
    return None


def as_list(I, x):
    """entries of list(x)"""
    x = I.iterated(x)
    o = I.obj(x)
    if o is not None and o.kind == 'list':
        return list(o.d)
    if x.op in ('listt', 'tuple', 'ite'):
        if x.op == 'ite' and not all(I.is_list(y) or y.op == 'tuple' for y in x.args[1:]):
            return [mk('spread', TRUE, x)]
        return I.list_entries(x)
    if x.op in ('range', 'enum', 'zip', 'rev') or (x.op == 'm' and x.args[0] in ('items', 'keys', 'values')) or \
            (o is not None and o.kind == 'dict'):
        res = I.new_list([])
        I.loop_over(x, lambda el: I.wobj(res).d.append(mk('gi', TRUE, el)))
        return list(I.obj(res).d)
    if is_ks(x):
        return [mk('gi', TRUE, K(ch)) for ch in x.args[1]]
    if is_elem(I, x):
        c = I.listobj(elem_children_ref(I, x))
        return list(c.d) if c is not None else [mk('spread', TRUE, elem_children(I, x))]
    return [mk('spread', TRUE, I.reify(x))]


def x_list(I, args, kwargs, e):
    if not args:
        return I.new_list([])
    return I.new_list(as_list(I, args[0]))


def x_tuple(I, args, kwargs, e):
    if not args:
        return mk('tuple', ())
    ents = as_list(I, args[0])
    if all(x.op == 'gi' and x.args[0] is TRUE for x in ents):
        return mk('tuple', tuple(x.args[1] for x in ents))
    return I.reify(t.listt(ents))


def x_set(I, args, kwargs, e):
    if not args:
        return I.new_list([])
    return I.new_list(distinct(as_list(I, args[0])))


def x_dict(I, args, kwargs, e):
    M = _I()
    d = {}
    base = None
    if args:
        o = I.dictobj(args[0])
        if o is None:
            if I.is_list(args[0]) or args[0].op == 'zip':
                ref = I.newref(M.Obj('dict', d={}))
                I.loop_over(args[0], lambda el: I.setitem(ref, I.getitem(el, ZERO), I.getitem(el, ONE)))
                for k, v in kwargs.items():
                    I.setitem(ref, K(k), v)
                return ref
            base = I.reify(args[0])
        else:
            d.update(o.d)
            base = o.base
    for k, v in kwargs.items():
        d[K(k)] = v
    return I.newref(M.Obj('dict', d=d, base=base))


def x_fromkeys(I, args, kwargs, e):
    v = args[1] if len(args) > 1 else NONE
    es = as_list(I, args[0])
    if all(n.op == 'gi' and n.args[0] is TRUE and isk(n.args[1]) for n in es):
        return I.newref(_I().Obj('dict', d={n.args[1]: v for n in es}))
    return None


def distinct(es):
    """the entries of a set, when they are known"""
    if all(n.op == 'gi' and n.args[0] is TRUE and isk(n.args[1]) for n in es):
        return list(dict.fromkeys(es))
    return es


def x_sum(I, args, kwargs, e):
    x = args[0]
    r = args[1] if len(args) > 1 else ZERO
    for en in as_list(I, x):
        en = I.reify(en)
        if en.op == 'gi':
            v = en.args[1]
            r = t.add(r, ite(en.args[0], v, ZERO))
        elif en.op == 'each':
            if en.args[3].op == 'flat':
                return weak("sum of flat")
            r = t.add(r, t.sum_(en.args[0], en.args[1], ite(en.args[2], en.args[3], ZERO)))
        elif en.op == 'spread':
            lid = "L%d" % I.fresh()
            s = en.args[1]
            r = t.add(r, ite(en.args[0], t.sum_(s, lid, mk('bv', lid, t.elemty(s))), ZERO))
        else:
            return weak("sum")
    return r


def anyall(isany):
    def f(I, args, kwargs, e):
        out = []
        for en in as_list(I, args[0]):
            if en.op == 'gi':
                c = I.truth(en.args[1])
                out.append(and_(en.args[0], c) if isany else or_(not_(en.args[0]), c))
            elif en.op == 'each':
                c = t.truth(en.args[3])
                if isany:
                    out.append(t.any_(en.args[0], en.args[1], and_(en.args[2], c)))
                else:
                    out.append(not_(t.any_(en.args[0], en.args[1], and_(en.args[2], not_(c)))))
            else:
                s = en.args[1]
                lid = "L%d" % I.fresh()
                c = t.truth(mk('bv', lid, t.elemty(s)))
                a = t.any_(s, lid, c if isany else not_(c))
                out.append(and_(en.args[0], a if isany else not_(a)))
        return or_(*out) if isany else and_(*out)
    return f


def x_map(I, args, kwargs, e):
    res = I.new_list([])
    fn = args[0]
    src = args[1] if len(args) == 2 else mk('zip', *args[1:])

    def body(el):
        a = [el] if len(args) == 2 else [I.getitem(el, K(i)) for i in range(len(args) - 1)]
        v = apply(I, fn, a, {}, e)
        I.wobj(res).d.append(mk('gi', TRUE, v))
    I.loop_over(src, body)
    return res


def x_filter(I, args, kwargs, e):
    res = I.new_list([])
    fn = args[0]

    def body(el):
        c = I.truth(el) if fn is NONE else I.truth(apply(I, fn, [el], {}, e))

        def add():
            I.wobj(res).d.append(mk('gi', TRUE, el))
            return NONE
        I.branch(c, add, lambda: NONE)
    I.loop_over(args[1], body)
    return res


TYNAMES = {'s': 'str', 'b': 'bytes', 'i': 'int', 'n': 'float', 'B': 'bool', 'L': 'list', 'D': 'dict', 'T': 'tuple'}


def x_isinstance(I, args, kwargs, e):
    x, c = args
    if c.op == 'tuple':
        return or_(*[x_isinstance(I, [x, y], kwargs, e) for y in c.args[0]])
    if x.op == 'ite':
        return ite(x.args[0], x_isinstance(I, [x.args[1], c], kwargs, e), x_isinstance(I, [x.args[2], c], kwargs, e))
    nm = c.args[0] if c.op in ('ext', 'cls', 'nt') else None
    if nm is None or x.weak:
        return mk('truthy', weak("isinstance"))
    o = I.obj(x)
    if o is not None:
        if o.kind == 'list':
            return K(nm in ('list', 'object'))
        if o.kind == 'dict':
            return K(nm in ('dict', 'object'))
        if x.op == 'ref' and o.cls is not None and c.op == 'cls':
            return K(any(k.qual == nm for k in I.p.mro(o.cls)))
        if x.op == 'ref' and o.cls is not None and nm in ('str', 'bytes', 'int', 'float', 'list', 'dict', 'tuple'):
            return FALSE
    if x.op == 'ntval':
        return K(nm in (x.args[0], 'tuple', 'object'))
    if x is NONE:
        return FALSE
    k = t.ty(x)
    if k in TYNAMES and c.op in ('nt', 'cls'):
        return FALSE
    if k in TYNAMES and nm in ('str', 'bytes', 'int', 'float', 'list', 'dict', 'tuple', 'bool'):
        if k == 'n' and nm == 'float' or not t.nullable(x) or TYNAMES[k] != nm:
            return K(TYNAMES[k] == nm or (k == 'B' and nm == 'int'))
    return mk('isinst', I.reify(x), nm.split(".")[-1])


def x_setattr(I, args, kwargs, e):
    M = _I()
    if len(args) != 3 or not is_ks(args[1]):
        raise M.Unsupported("setattr")
    I.setattr_(args[0], args[1].args[1], args[2])
    return NONE


def x_hasattr(I, args, kwargs, e):
    x, n = args
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and is_ks(n):
        if n.args[1] in o.d:
            return I.present(o.d[n.args[1]])
        if o.cls is not None and (I.p.find_method(o.cls, n.args[1]) or I.p.find_classattr(o.cls, n.args[1])):
            return TRUE
        if not o.lazy:
            return FALSE
    return mk('truthy', mk('call', 'hasattr', I.reify(x), n))


def x_getattr(I, args, kwargs, e):
    x, n = args[0], args[1]
    if n.op == 'ite':
        return I.branch(n.args[0], lambda: x_getattr(I, [x, n.args[1]] + args[2:], kwargs, e),
                        lambda: x_getattr(I, [x, n.args[2]] + args[2:], kwargs, e))
    o = I.obj(x)
    if is_ks(n):
        if len(args) > 2 and o is not None and o.kind == 'inst' and not o.lazy:
            nm = n.args[1]
            if nm not in o.d and not (o.cls is not None and (I.p.find_method(o.cls, nm) or
                                                             I.p.find_classattr(o.cls, nm))):
                return args[2]
        return I.getattr_(x, n.args[1])
    if o is not None and o.kind == 'inst' and o.cls is not None:
        pre = ''
        if n.op == 'cat' and is_ks(n.args[1][0]):
            pre = n.args[1][0].args[1]
        names = []
        for c in I.p.mro(o.cls):
            for m in c.methods:
                if m.startswith(pre) and m not in names:
                    names.append(m)
        r = args[2] if len(args) > 2 else weak("attribute missing")
        for m in sorted(names, reverse=True):
            r = ite(t.eq(n, K(m)), I.getattr_(x, m), r)
        return r
    return weak("getattr")


def x_divmod(I, args, kwargs, e):
    a, b = args
    if a.weak or b.weak:
        return mk('tuple', (weak("divmod", a, b), weak("divmod", a, b)))
    return mk('tuple', (I.over_ite(t.fdiv, a, b), I.over_ite(t.mod, a, b)))


def x_ord(I, args, kwargs, e):
    x = args[0]
    if isk(x) and x.args[0] in 'sb' and len(x.args[1]) == 1:
        return K(ord(x.args[1]))
    return mk('ord', x)


def x_chr(I, args, kwargs, e):
    if is_ki(args[0]):
        return K(chr(t.kval(args[0])))
    if args[0].op == 'ord':
        return args[0].args[0]
    return mk('call', 'chr', args[0])


def octets(q):
    """the bytes of an entry of a list of numbers"""
    if q.op == 'gi':
        if q.args[1].weak or t.ty(q.args[1]) in 'sbLDN':
            return None
        return ite(q.args[0], t.wr(1, 'u', q.args[1]), K(b''))
    if q.op == 'each':
        it, lid, g, b = q.args
        if b.op == 'flat':
            if b.args[0].op != 'listt':
                return None
            ps = [octets(x) for x in b.args[0].args[0]]
            if any(p is None for p in ps):
                return None
            b = t.cat('b', ps)
        elif b.weak or t.ty(b) in 'sbLDN':
            return None
        else:
            b = t.wr(1, 'u', b)
        return mk('each', it, lid, TRUE, ite(g, b, K(b'')))
    return None


def x_bytes(I, args, kwargs, e):
    if not args:
        return K(b'')
    x = args[0]
    if x.op == 'ite':
        return I.branch(x.args[0], lambda: x_bytes(I, [x.args[1]] + args[1:], kwargs, e),
                        lambda: x_bytes(I, [x.args[2]] + args[1:], kwargs, e))
    if len(args) > 1 or kwargs or t.ty(x) == 's':
        return method(I, x, 'encode', args[1:], kwargs, e)
    if t.ty(x) == 'b':
        return x
    if t.ty(x) == 'i':
        return t.rep(K(b'\x00'), x)
    o = I.listobj(x)
    ents = o.d if o is not None else (I.list_entries(x) if x.op in ('tuple', 'listt') else None)
    if ents is not None:
        ps = [octets(q) for q in ents]
        if all(p is not None for p in ps):
            return t.cat('b', ps)
    return mk('m', 'tobytes', I.reify(x)) if False else weak("bytes()")


def x_bool(I, args, kwargs, e):
    return I.truth(args[0]) if args else FALSE


def x_open(I, args, kwargs, e):
    mode = first(args, kwargs, 1, 'mode', K('r'))
    p = I.reify(args[0])
    I.emit('open', p, mode)
    r = mk('call', 'open', p, mode)
    I.may_raise('OSError', r)
    return r


def x_pack(I, args, kwargs, e):
    fmt = args[0]
    return pack(I, fmt, args[1:])


def pack(I, fmt, vals):
    M = _I()
    if is_kb(fmt):
        fmt = K(fmt.args[1].decode())
    if not is_ks(fmt):
        return weak("pack")
    f = fmt.args[1]
    little = little_endian(f)
    codes = expand(f.lstrip('<>=!@'), little and f[:1] not in ('<', '='))
    if codes is None:
        return weak("pack format")
    out = []
    i = 0
    for n, c in codes:
        if c == 'x':
            out.append(K(b'\x00' * n))
        elif c == 's':
            v = vals[i]
            i += 1
            if is_kb(v):
                out.append(K(v.args[1][:n].ljust(n, b'\x00')))
            else:
                out.append(mk('call', 'pad', K(n), v) if t.blen(v) is not K(n) else v)
        else:
            if i >= len(vals):
                return weak("too few values to pack")
            w, s = field(c, n, little)
            v = vals[i]
            i += 1
            if v.weak:
                return weak("pack", v)
            if t.ty(v) == 'B' and v.op in t.BOOLOPS:
                v = ite(v, ONE, ZERO)
            if v.op == 'ite':
                v2 = v
                out.append(wr_ite(w, s, v2))
            else:
                out.append(t.wr(w, s, v))
    return t.cat('b', out)


def wr_ite(w, s, v):
    return t.wr(w, s, v)


def little_endian(f):
    return f[:1] not in ('>', '!') and re.search(r'[^0-9sxcbB?]', f) is not None


def field(c, n, little):
    """width and kind of a number; n: width in the native layout"""
    w, s = _I().PACK[c]
    return (max(w, n), 'l' + s) if little and max(w, n) > 1 else (w, s)


def expand(f, native=False):
    """(count or width, code) of a format; the native layout has its own widths and aligns every number"""
    M = _I()
    out = []
    num = ''
    pos = 0
    for ch in f:
        if ch.isdigit():
            num += ch
        elif ch in M.PACK:
            for _ in range(int(num) if num else 1):
                w = 8 if native and ch in 'lL' else M.PACK[ch][0]
                if native and pos % w:
                    out.append((w - pos % w, 'x'))
                    pos += w - pos % w
                out.append((w if native else 1, ch))
                pos += w
            num = ''
        elif ch in 'sx':
            out.append((int(num) if num else 1, ch))
            pos += int(num) if num else 1
            num = ''
        elif ch == ' ':
            continue
        else:
            return None
    return out


def unpack(I, fmt, data, off=ZERO, exact=False):
    M = _I()
    if not is_ks(fmt):
        return weak("unpack")
    f = fmt.args[1]
    little = little_endian(f)
    codes = expand(f.lstrip('<>=!@'), little and f[:1] not in ('<', '='))
    if codes is None or data.weak:
        return weak("unpack")
    have = t.blen(data) if t.ty(data) == 'b' else NONE
    if exact and t.is_ki(have) and have.args[1] != sum(n if c in 'xs' else field(c, n, little)[0] for n, c in codes):
        I.raise_('struct.error')
    out = []
    pos = off
    for n, c in codes:
        if c == 'x':
            pos = t.add(pos, K(n))
        elif c == 's':
            out.append(t.slice_(data, pos, t.add(pos, K(n))))
            pos = t.add(pos, K(n))
        else:
            w, s = field(c, n, little)
            p = t.slice_(data, pos, t.add(pos, K(w)))
            if pos is ZERO and len(codes) == 1:
                p = data        # the argument has exactly this length
            out.append(rd_ite(w, s, p))
            pos = t.add(pos, K(w))
    return mk('tuple', tuple(out))


def rd_ite(w, s, p):
    if p.op == 'ite':
        return ite(p.args[0], rd_ite(w, s, p.args[1]), rd_ite(w, s, p.args[2]))
    return t.rd(w, s, p)


def calcsize(fmt):
    if not is_ks(fmt):
        return weak("calcsize")
    f = fmt.args[1]
    little = little_endian(f)
    codes = expand(f.lstrip('<>=!@'), little and f[:1] not in ('<', '='))
    if codes is None:
        return weak("calcsize")
    return K(sum(n if c in 'xs' else field(c, n, little)[0] for n, c in codes))


def x_unpack(I, args, kwargs, e):
    return unpack(I, args[0], args[1], exact=True)


def x_unpack_from(I, args, kwargs, e):
    off = first(args, kwargs, 2, 'offset', ZERO)
    r = unpack(I, args[0], args[1], off)
    return r


def x_from_bytes(I, args, kwargs, e):
    x = args[0]
    o = first(args, kwargs, 1, 'byteorder', K('big'))
    signed = kwargs.get('signed', FALSE)
    n = t.blen(x)
    if is_ks(o) and o.args[1] == 'big' and is_ki(n) and isk(signed):
        return rd_ite(t.kval(n), 'i' if signed is TRUE else 'u', x)
    return mk('call', 'int.from_bytes', I.reify(x), o, signed)


def x_join(I, args, kwargs, e):
    out = []
    for i, a in enumerate(args):
        if a.weak:
            return weak("path", a)
        if i:
            out.append(K('/'))
        out.append(t.conv('s', a) if t.ty(a) != 's' else a)
    return t.cat('s', out)


def x_path(name):
    def f(I, args, kwargs, e):
        x = args[0]
        if is_ks(x):
            import posixpath
            r = getattr(posixpath, name)(x.args[1])
            return K(r) if isinstance(r, str) else mk('tuple', tuple(K(a) for a in r))
        return mk('call', 'os.path.' + name, I.reify(x))
    return f


def x_copy(I, args, kwargs, e):
    x = args[0]
    o = I.obj(x)
    if o is not None:
        return I.newref(o.copy())
    return x if t.ty(x) in ('s', 'i', 'n', 'b', 'B', 'N') else mk('call', 'copy.copy', x)


def x_deepcopy(I, args, kwargs, e):
    x = args[0]
    o = I.obj(x)
    if o is not None and x.op == 'ref':
        r = I.reify(x)
        return I.deep_ref(r)
    return mk('call', 'copy.deepcopy', I.reify(x))


def x_element(I, args, kwargs, e):
    M = _I()
    attrib = I.newref(M.Obj('dict', d={}))
    if len(args) > 1 or 'attrib' in kwargs:
        src = first(args, kwargs, 1, 'attrib')
        o = I.dictobj(src)
        if o is None:
            return weak("element attributes")
        I.obj(attrib).d.update(o.d)
    for k, v in kwargs.items():
        if k not in ('attrib', 'tag'):
            I.obj(attrib).d[K(k)] = v
    ch = I.newref(M.Obj('list', d=[]))
    tag = first(args, kwargs, 0, 'tag')
    return I.newref(M.Obj('inst', None, {'tag': tag, 'attrib': attrib, '#children': ch, 'text': NONE, 'tail': NONE},
                          base='Element'))


def x_subelement(I, args, kwargs, e):
    el = x_element(I, args[1:], kwargs, e)
    method(I, args[0], 'append', [el], {}, e)
    return el


def x_stringio(I, args, kwargs, e):
    M = _I()
    init = args[0] if args else None
    return I.newref(M.Obj('inst', None, {'#buf': init if init is not None else K('')}, base='StringIO'))


def x_bytesio(I, args, kwargs, e):
    M = _I()
    return I.newref(M.Obj('inst', None, {'#buf': args[0] if args else K(b'')}, base='StringIO'))


def x_recompile(I, args, kwargs, e):
    return mk('call', 're.compile', *[I.reify(a) for a in args])


def pattern_of(pat, I=None):
    """the pattern of a compiled or plain constant expression"""
    flags = 0
    if pat.op == 'call' and pat.args[0] == 're.compile':
        if len(pat.args) > 2:
            return None
        pat = pat.args[1]
    if not (is_ks(pat) or t.is_kb(pat)):
        return None
    try:
        p = regex.pattern(pat.args[1], flags)
    except regex.Unreadable:
        return None
    if I is not None:
        I.patterns[p.key] = p
    return p


def folded(p, name, text):
    return getattr(re, name)(p.text, text.args[1])


def new_match(I, p, text, how=None):
    M = _I()
    d = {'#pattern': K(p.text), '#text': text}
    if how:
        d['#how'] = K(how)
    return I.newref(M.Obj('inst', None, d, base='Match'))


def group(I, m, k, default=NONE):
    """text of a group of a match object: the part of the pattern it stands for, whatever its name or number"""
    p = pattern_of(m['#pattern'])
    if p is None or not (is_ks(k) or t.is_ki(k)):
        return weak("group")
    if '#how' in m:                 # constant text
        x = folded(p, m['#how'].args[1], m['#text'])
        try:
            x = x.group(k.args[1] if is_ks(k) else int(k.args[1]))
        except IndexError:
            I.raise_('IndexError')
        return default if x is None else K(x)
    n = p.names.get(k.args[1]) if is_ks(k) else int(k.args[1])
    if n == 0:
        return mk('call', 'group:' + p.kind, K(p.key), K('all'), m['#text'])
    if n not in p.groups:
        I.raise_('IndexError')
        return weak("no such group")
    path, optional = p.groups[n]
    if p.constant(n) is not None:
        return K(p.constant(n))
    x = mk('call', ('group+:' if p.width(n) else 'group:') + p.kind, K(p.key), K(repr(path)), m['#text'])
    for o in optional:
        x = ite(t.truth(mk('call', 'group matched', K(p.key), K(repr(o)), m['#text'])), x, NONE)
    return x


def match_method(I, o, name, args, kwargs):
    m = o.d
    p = pattern_of(m['#pattern'])
    if p is None:
        return None
    if name in ('group', '__getitem__'):
        xs = [group(I, m, a) for a in (args or [ZERO])]
        return xs[0] if len(xs) == 1 else mk('tuple', tuple(xs))
    if name == 'groups' and (not args or '#how' in m):
        return mk('tuple', tuple(group(I, m, K(i), *args) for i in range(1, len(p.groups) + 1)))
    if name == 'groupdict' and not args:
        return I.newref(_I().Obj('dict', d={K(n): group(I, m, K(n)) for n in p.names}))
    return None


def resub_fn(I, pat, fn, text, e):
    """re.sub with a function: its result for any match"""
    p = pattern_of(pat, I)
    text = I.reify(text)
    if p is None or t.ty(text) != p.kind or text.weak:
        return None
    if text.op == 'ite':
        return I.branch(text.args[0], lambda: resub_fn(I, pat, fn, text.args[1], e),
                        lambda: resub_fn(I, pat, fn, text.args[2], e))
    body = I.reify(apply(I, fn, [new_match(I, p, K('this match'))], {}, e))
    if body.weak:
        return body
    return mk('call', 'substituted:' + p.kind, K(p.key), body, text)


def re_fn(name):
    def f(I, args, kwargs, e):
        pat = args[0]
        p = pattern_of(pat, I) if name in ('match', 'search', 'fullmatch') and len(args) == 2 else None
        if p is not None and t.ty(args[1]) == p.kind:
            return re_match(I, p, name, I.reify(args[1]))
        if not (pat.op == 'call' and pat.args[0] == 're.compile'):
            pat = mk('call', 're.compile', pat)
        return method(I, pat, name, args[1:], kwargs, e)
    return f


def re_match(I, p, name, text):
    if text.weak:
        return weak("match", text)
    if isk(text):
        return new_match(I, p, text, name) if folded(p, name, text) else NONE
    return ite(t.truth(mk('call', 're ' + name, K(p.key), text)), new_match(I, p, text), NONE)


for _k in ('s', 'b'):
    t.NONEMPTY.add('group+:' + _k)
    t.CALL_TY['group:' + _k] = t.CALL_TY['group+:' + _k] = t.CALL_TY['substituted:' + _k] = _k
for _k in ('group matched', 're match', 're search', 're fullmatch'):
    t.CALL_TY[_k] = 'B'


def x_namedtuple(I, args, kwargs, e):
    f = args[1]
    if is_ks(f):
        fields = f.args[1].replace(",", " ").split()
    else:
        fields = [x.args[1].args[1] for x in I.list_entries(f)]
    return mk('nt', t.kval(args[0]), tuple(fields))


def x_type(I, args, kwargs, e):
    o = I.obj(args[0])
    if o is not None and o.cls is not None:
        return mk('cls', o.cls.qual)
    k = t.ty(args[0])
    if k in TYNAMES:
        return mk('ext', TYNAMES[k])
    return weak("type")


def x_pow(I, args, kwargs, e):
    if len(args) == 2:
        return t.power(args[0], args[1])
    return weak("pow")


def x_hex(I, args, kwargs, e):
    return mk('call', 'hex', args[0])


def x_iter(I, args, kwargs, e):
    return args[0]


def x_next(I, args, kwargs, e):
    ents = None
    x = args[0]
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and o.cls is not None and I.p.find_method(o.cls, '__next__') is not None:
        return I.call_func(I.p.find_method(o.cls, '__next__'), [], {}, x, e)
    if I.is_list(x) or x.op in ('listt', 'tuple'):
        ents = I.list_entries(x)
    if ents is None:
        return weak("next")
    if ents and ents[0].op == 'gi' and ents[0].args[0] is TRUE:
        return ents[0].args[1]
    # first element of a filtered sequence: sel
    if len(ents) == 1 and ents[0].op == 'each' and len(args) > 1:
        it, lid, g, b = ents[0].args
        return ite(t.any_(it, lid, g), I.sel(it, lid, g, b), args[1])
    if len(ents) == 1 and ents[0].op == 'each':
        it, lid, g, b = ents[0].args
        return I.sel(it, lid, g, b)
    if all(q.op == 'gi' for q in ents) and len(args) > 1:
        r = args[1]
        for q in reversed(ents):
            r = ite(q.args[0], q.args[1], r)
        return r
    return weak("next")


def x_fromiter(I, args, kwargs, e):
    """itertools.chain.from_iterable"""
    res = I.new_list([])

    def outer(el):
        I.loop_over(el, lambda x: I.wobj(res).d.append(mk('gi', TRUE, x)))
    I.loop_over(args[0], outer)
    return res


def x_chain(I, args, kwargs, e):
    out = []
    for a in args:
        out += as_list(I, a)
    return I.new_list(out)


EXT = {
    'len': x_len, 'int': x_int, 'float': x_float, 'str': x_str, 'min': minmax('min'), 'max': minmax('max'),
    'abs': x_abs, 'round': x_round, 'range': x_range, 'enumerate': x_enumerate, 'zip': x_zip, 'reversed': x_reversed,
    'sorted': x_sorted, 'list': x_list, 'tuple': x_tuple, 'set': x_set, 'frozenset': x_set, 'dict': x_dict,
    'sum': x_sum, 'any': anyall(True), 'all': anyall(False), 'map': x_map, 'filter': x_filter,
    'isinstance': x_isinstance, 'hasattr': x_hasattr, 'setattr': x_setattr, 'getattr': x_getattr, 'divmod': x_divmod, 'ord': x_ord,
    'chr': x_chr, 'bytes': x_bytes, 'bytearray': x_bytes, 'bool': x_bool, 'open': x_open, 'io.open': x_open,
    'bisect.bisect': x_bisect(False), 'bisect.bisect_right': x_bisect(False), 'bisect.bisect_left': x_bisect(True),
    'struct.calcsize': lambda I, args, kwargs, e: calcsize(args[0]), 'struct.pack': x_pack, 'struct.unpack': x_unpack, 'struct.unpack_from': x_unpack_from,
    'int.from_bytes': x_from_bytes, 'os.path.join': x_join, 'os.path.splitext': x_path('splitext'), 'os.path.split': x_path('split'),
    'os.path.dirname': x_path('dirname'), 'os.path.basename': x_path('basename'), 'copy.copy': x_copy,
    'copy.deepcopy': x_deepcopy, 'ET.Element': x_element, 'ET.SubElement': x_subelement, 'io.StringIO': x_stringio,
    'io.BytesIO': x_bytesio, 're.compile': x_recompile, 're.match': re_fn('match'), 're.search': re_fn('search'),
    're.findall': re_fn('findall'), 're.sub': None, 'collections.namedtuple': x_namedtuple, 'type': x_type,
    'pow': x_pow, 'math.pow': x_pow, 'hex': x_hex, 'iter': x_iter, 'next': x_next,
    'itertools.chain.from_iterable': x_fromiter, 'itertools.chain': x_chain,
    'dict.fromkeys': x_fromkeys, 'memoryview': lambda I, a, k, e: a[0],
}


def resub(I, pat, args, kwargs, e):
    """re.sub with a known pattern: on text of known structure, or with a function"""
    if len(args) != 2 or kwargs:
        return None
    if len(pat.args) == 2 and is_ks(pat.args[1]):
        r = substituted(pat.args[1].args[1], I.reify(args[0]), I.reify(args[1]))
        if r is not None:
            return r
    if args[0].op in ('fn', 'clo', 'bm'):
        return resub_fn(I, pat, args[0], args[1], e)
    return None


def x_resub(I, args, kwargs, e):
    pat = args[0]
    if not (pat.op == 'call' and pat.args[0] == 're.compile'):
        pat = mk('call', 're.compile', pat)
    return method(I, pat, 'sub', args[1:], kwargs, e)


def substituted(pattern, new, text):
    """re.sub for a pattern of literal text followed by one character class, on text whose numbers are known pieces;
    unknown pieces (host names) are taken not to contain the literal text"""
    n = 0
    while n < len(pattern) and (pattern[n].isalnum() or pattern[n] in "/_-:=&%,;@! "):
        n += 1
    if n and n < len(pattern) and pattern[n] in "*+?{":
        n -= 1
    lead, tail = pattern[:n], pattern[n:]
    if len(lead) < 3 or not tail:
        return None
    pieces = list(new.args[1]) if new.op == 'cat' else [new]
    for n, x in enumerate(pieces):
        if x.op == 'ite':
            a, b = [substituted(pattern, t.cat('s', pieces[:n] + [y] + pieces[n + 1:]), text) for y in x.args[1:]]
            return None if a is None or b is None else ite(x.args[0], a, b)
    if any(not (is_ks(x) and '\\' not in x.args[1]) and not (x.op == 'conv' and x.args[0] == 'd') for x in pieces):
        return None
    try:
        rx, whole = re.compile(tail), re.compile(pattern)
    except re.error:
        return None
    if text.op == 'ite':
        a, b = substituted(pattern, new, text.args[1]), substituted(pattern, new, text.args[2])
        return None if a is None or b is None else ite(text.args[0], a, b)
    src = list(text.args[1]) if text.op == 'cat' else [text]
    if not all(is_ks(x) or x.op in ('conv', 'var') for x in src):
        return None
    out, i = [], 0
    while i < len(src):
        x = src[i]
        i += 1
        if not is_ks(x):
            out.append(x)
            continue
        v = x.args[1]
        at = v.find(lead)
        if at < 0:
            out.append(x)
            continue
        out.append(K(v[:at]))
        rest = v[at:]
        if len(rest) == len(lead) and i < len(src) and src[i].op == 'conv' and src[i].args[0] == 'd':
            after = src[i + 1].args[1][:1] if i + 1 < len(src) and is_ks(src[i + 1]) else ''
            if not all(rx.fullmatch(y) for y in ('0', '7', '10', '123456789')) or \
                    i + 1 < len(src) and (not after or rx.fullmatch('7' + after)):
                return None
            rest = substituted(pattern, new, t.cat('s', src[i + 1:]))
            if rest is None:
                return None
            yes = t.cat('s', out + pieces + [rest])
            if rx.fullmatch('-7') and rx.fullmatch('-123456789'):
                return yes
            if rx.match('-7') or t.ty(src[i].args[1]) != 'i':
                return None
            return ite(t.cmp_le(ZERO, src[i].args[1], False), yes, t.cat('s', out + [K(lead), src[i], rest]))
        m = whole.match(rest)
        if m is None and (i == len(src) or len(rest) > len(lead)):
            out.append(K(rest[:len(lead)]))
            src[i:i] = [K(rest[len(lead):])]
            continue
        if m is None or m.end() == len(rest) and i < len(src):
            return None
        out += pieces
        src[i:i] = [K(rest[m.end():])]
    return t.cat('s', out)


EXT['re.sub'] = x_resub


# ------------------------------------------------------------------ elements
def is_elem(I, x):
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and o.base == 'Element':
        return True
    return t.ty(x) == 'X'


def elem_attrib(I, x):
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and 'attrib' in o.d:
        return o.d['attrib']
    return mk('attr', x, 'attrib')


def elem_children_ref(I, x):
    M = _I()
    o = I.obj(x)
    if o is not None and o.kind == 'inst' and o.base == 'Element':
        return o.d['#children']
    k = mk('attr', x, '#children')
    if k not in I.st.heap:
        I.st.heap[k] = M.Obj('list', d=[mk('spread', TRUE, k)])
    return k


def elem_children(I, x):
    k = mk('attr', x, '#children')
    o = I.obj(x)
    if o is not None and o.base == 'Element':
        return I.reify(o.d['#children'])
    if k in I.st.heap:
        return I.reify(k)
    return k


def dict_get(I, base, k, d):
    """d[k] if k in d else default"""
    c = I.contains(base, k)
    if c is TRUE:
        return I.getitem(base, k)
    if c is FALSE:
        return d
    I2 = I

    def yes():
        I2.trylevel.append([])
        saved = I2.trylevel[:]
        I2.trylevel[:] = []
        try:
            return I2.getitem(base, k)
        finally:
            I2.trylevel[:] = saved
            I2.trylevel.pop()
    return I.branch(c, yes, lambda: d)


def is_parser(x):
    return x.op == 'call' and isinstance(x.args[0], str) and 'ConfigParser' in x.args[0]


# ------------------------------------------------------------------ methods of values
def method(I, base, name, args, kwargs, e):
    M = _I()
    if base.op == 'ite':
        return I.branch(base.args[0], lambda: method(I, base.args[1], name, args, kwargs, e),
                        lambda: method(I, base.args[2], name, args, kwargs, e))
    if base.weak:
        I.emit('weak', weak("method"))
        return weak("method " + name, base)
    ov = I.method_overrides.get(name)
    if ov is not None and (ov[0] is None or ov[0](I, base)):
        return ov[1](I, base, args, kwargs, e)
    o = I.obj(base)
    kind = t.ty(base)
    if kind == 'i' and o is None and base.op in ('var', 'p', 'fdiv', 'k') and not hasattr(int, name):
        I.raise_('AttributeError')
    if o is not None and o.kind == 'inst' and o.base == 'Match':
        r = match_method(I, o, name, args, kwargs)
        if r is not None:
            return r
    if base.op == 'call' and base.args[0] == 're.compile':
        if name in ('match', 'search', 'fullmatch') and len(args) == 1 and not kwargs:
            p = pattern_of(base, I)
            if p is not None and t.ty(args[0]) == p.kind:
                return re_match(I, p, name, I.reify(args[0]))
        if name == 'sub' and len(args) == 2 and not kwargs:
            r = resub(I, base, args, kwargs, e)
            if r is not None:
                return r
    if o is not None and o.kind == 'inst' and o.base == 'StringIO':
        if name == 'write':
            cur = o.d['#buf']
            I.wobj(base).d['#buf'] = t.cat(t.ty(cur), [cur, args[0]])
            return NONE
        if name == 'getvalue':
            return o.d['#buf']
        if name in ('read', 'close', 'seek', 'flush'):
            return o.d['#buf'] if name == 'read' else NONE
    if is_elem(I, base):
        r = elem_method(I, base, name, args, kwargs, e)
        if r is not None:
            return r
    if base.op == 'nt' and name == '_make' and len(args) == 1:
        s = args[0]
        vals = s.args[0] if s.op == 'tuple' else [t.item(s, K(i)) for i in range(len(base.args[1]))]
        return mk('ntval', base.args[0], tuple(zip(base.args[1], vals))) if len(vals) == len(base.args[1]) else weak("_make")
    if base.op == 'ntval':
        if name == '_replace' and not args:
            return mk('ntval', base.args[0], tuple((k, kwargs.get(k, v)) for k, v in base.args[1]))
        if name == '_asdict':
            return I.newref(M.Obj('dict', d={K(k): v for k, v in base.args[1]}))
    if base.op == 'call' and base.args[0] == 'struct.Struct':
        if name == 'pack':
            return pack(I, base.args[1], args)
        if name == 'unpack':
            return unpack(I, base.args[1], args[0], exact=True)
        if name == 'unpack_from':
            return unpack(I, base.args[1], args[0], args[1] if len(args) > 1 else ZERO)
    if base.op == 'call' and base.args[0] == 'open':
        path, mode = base.args[1], base.args[2]
        isb = is_ks(mode) and 'b' in mode.args[1]
        if name == 'read':
            if not args:
                return mk('call', 'read' if isb else 'readtext', path)
            k = I.counter('read')
            return mk('call', 'read' if isb else 'readtext', path, args[0], K(k), *[mk('bi', l) for l in I.loopstack])
        if name in ('readlines',):
            return mk('call', 'readlines', path)
        if name == 'write':
            I.emit('write', path, args[0])
            return NONE
        if name in ('close', 'flush', 'seek'):
            return NONE
    if o is not None and o.kind == 'dict' or kind == 'D' or base.op in ('dictt',):
        r = dict_method(I, base, o, name, args, kwargs, e)
        if r is not None:
            return r
    if (o is not None and o.kind == 'list') or kind == 'L' or base.op == 'listt':
        r = list_method(I, base, o, name, args, kwargs, e)
        if r is not None:
            return r
    if o is None and kind == '?' and name in ('append', 'extend') and base.op in ('attr', 'var', 'item') and \
            I.stmt_node is e:
        return list_method(I, base, o, name, args, kwargs, e)
    if kind in ('s', 'b', '?'):
        r = text_method(I, base, name, args, kwargs, e)
        if r is not None:
            return r
    if is_parser(base) and name in ('get', 'getint', 'getfloat', 'getboolean'):
        ex = mk('call', 'config', base, *args)
        r = mk('m', 'get', base, *args)
        if name == 'getint':
            r = mk('call', 'int', mk('call', 'str', r))
        I.may_raise('configparser.NoOptionError', ex)
        return r
    if kind in ('i', 'n') and name == 'to_bytes':
        n = first(args, kwargs, 0, 'length')
        order = first(args, kwargs, 1, 'byteorder', K('big'))
        if is_ki(n) and is_ks(order) and order.args[1] == 'big':
            s = 'i' if kwargs.get('signed', FALSE) is TRUE else 'u'
            return t.wr(t.kval(n), s, base)
        return weak("to_bytes")
    if name == 'write' and len(args) >= 1 and args:
        tgt = I.obj(args[0])
        if tgt is not None and tgt.base == 'StringIO':
            cur = tgt.d['#buf']
            extra = [I.reify(a) for a in args[1:]] + [mk('kw', k, I.reify(kwargs[k])) for k in sorted(kwargs)]
            I.wobj(args[0]).d['#buf'] = t.cat(t.ty(cur), [cur, mk('call', 'xmltext', I.reify(base), *extra)])
            return NONE
    if name == 'get' and len(args) in (1, 2):
        return dict_get(I, base, args[0], args[1] if len(args) > 1 else NONE)
    if any(a.weak for a in args):
        if I.stmt_node is e:
            I.emit('weak', weak("effect"))
        return weak("method " + name, *args)
    rargs = [I.reify(a) for a in args] + [mk('kw', k, I.reify(kwargs[k])) for k in sorted(kwargs)]
    b = I.reify(base)
    if I.stmt_node is e and name not in IGNORED_METHODS:
        I.emit('call', K('.' + name), b, *rargs)
    if b.op == 'ref':
        return weak("method of object")
    return mk('m', name, b, *rargs)


IGNORED_METHODS = {'log_error', 'close', 'flush', 'debug', 'info', 'warning'}
PURE_TEXT = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'find', 'rfind', 'count', 'index', 'isdigit',
             'endswith', 'title', 'zfill', 'ljust', 'rjust', 'isalnum', 'partition'}


def text_method(I, base, name, args, kwargs, e):
    kind = t.ty(base)
    if any(a.weak for a in args):
        return weak("text method", *args)
    if name == 'join':
        return join(I, base, args[0])
    if name == 'encode':
        return encode(base)
    if name == 'decode':
        return decode(base)
    if kind == '?':
        if name in ('startswith',):
            kind = 's'
        elif name in ('split', 'rsplit', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'endswith'):
            return mk('m', name, I.reify(base), *[I.reify(a) for a in args])
        else:
            return None
    if name == 'format' and is_ks(base):
        return fmt(I, base.args[1], args, kwargs)
    if name == 'startswith':
        p = args[0]
        if isk(base) and isk(p) and p.args[0] in 'sb':
            return K(base.args[1].startswith(p.args[1]))
        if isk(p) and p.args[0] in 'sb':
            return t.eq(t.slice_(base, ZERO, K(len(p.args[1]))), p)
        return mk('truthy', mk('m', 'startswith', base, *args))
    if isk(base) and all(isk(a) and (a.args[0] in 'sb' or is_ki(a)) for a in args) and not kwargs:
        av = [t.kval(a) for a in args]
        if name in PURE_TEXT:
            try:
                r = getattr(base.args[1], name)(*av)
            except Exception:
                return weak(name)
            return K(r)
        if name in ('split', 'rsplit', 'splitlines'):
            r = getattr(base.args[1], name)(*av)
            return I.new_list([mk('gi', TRUE, K(x)) for x in r])
    r = lead_literal(I, base, name, args, kwargs)
    if r is None:
        r = whole_text(I, base, name, args, kwargs)
    if r is not None:
        return r
    if name == 'hex' and kind == 'b':
        return mk('m', 'hex', base)
    if name in PURE_TEXT or name in ('split', 'rsplit', 'splitlines', 'isoformat'):
        if name == 'endswith':
            return mk('truthy', mk('m', name, I.reify(base), *[I.reify(a) for a in args]))
        r = mk('m', name, I.reify(base), *[I.reify(a) for a in args])
        if name == 'index':
            I.may_raise('ValueError', r)
        return r
    return None


def lead_literal(I, base, name, args, kwargs):
    """text that starts with a literal which holds the separator"""
    if base.op != 'cat' or not args or not (isk(args[0]) and args[0].args[0] in 'sb') or not base.args[1]:
        return None
    first, sep = base.args[1][0], args[0].args[1]
    if not isk(first) or first.args[0] not in 'sb' or not sep or sep not in first.args[1]:
        return None
    i = first.args[1].index(sep)
    rest = t.cat(base.args[0], [K(first.args[1][i + len(sep):])] + list(base.args[1][1:]))
    if name in ('find', 'index') and len(args) == 1:
        return K(i)
    if name == 'partition':
        return mk('tuple', (K(first.args[1][:i]), args[0], rest))
    if name == 'split':
        n = args[1] if len(args) > 1 else kwargs.get('maxsplit', NONE)
        if n is K(1):
            return I.new_list([mk('gi', TRUE, K(first.args[1][:i])), mk('gi', TRUE, rest)])
    return None


def lacks(x, sep):
    """the text x is known not to contain (a part of) the separator"""
    if is_ks(x):
        return sep not in x.args[1]
    if x.op == 'conv' and re.fullmatch(r'0?[0-9]*d', x.args[0]):
        return not any(c.isdigit() or c in '- ' for c in sep)
    if x.op == 'ite':
        return lacks(x.args[1], sep) and lacks(x.args[2], sep)
    if x.op == 'var':
        return all(c in t.PLAIN.get(x, '') for c in sep)
    return False


def whole_text(I, base, name, args, kwargs):
    """text whose unknown pieces are known not to contain the separator"""
    if not args or not is_ks(args[0]) or not args[0].args[1] or kwargs:
        return None
    sep = args[0].args[1]
    ps = list(base.args[1]) if base.op == 'cat' and base.args[0] == 's' else [base]
    if not all(is_ks(x) or lacks(x, sep) for x in ps):
        return None
    if name in ('split', 'rsplit') and (len(args) == 1 or is_ki(args[1])):
        cur, out = [], []
        for x in ps:
            if not is_ks(x):
                cur.append(x)
                continue
            bits = x.args[1].split(sep)
            cur.append(K(bits[0]))
            for b in bits[1:]:
                out.append(cur)
                cur = [K(b)]
        out.append(cur)
        out = [t.cat('s', c) for c in out]
        n = t.kval(args[1]) if len(args) > 1 else -1
        if 0 <= n < len(out) - 1:
            def join_(xs):
                z = []
                for i, y in enumerate(xs):
                    z += ([K(sep)] if i else []) + [y]
                return t.cat('s', z)
            out = out[:n] + [join_(out[n:])] if name == 'split' else [join_(out[:len(out) - n])] + out[len(out) - n:]
        return I.new_list([mk('gi', TRUE, x) for x in out])
    if any(is_ks(x) and sep in x.args[1] for x in ps):
        return None
    if name in ('find', 'rfind') and len(args) == 1:
        return K(-1)
    if name == 'replace' and base.op == 'cat':
        return base
    return None


def encode(x):
    if x.op == 'ite':
        return ite(x.args[0], encode(x.args[1]), encode(x.args[2]))
    if is_ks(x):
        return K(x.args[1].encode('utf-8'))
    if x.op == 'cat':
        return t.cat('b', [encode(p) for p in x.args[1]])
    if x.op == 'm' and x.args[0] == 'decode':
        return x.args[1]
    if x.op == 'each':
        return mk('each', x.args[0], x.args[1], x.args[2], encode(x.args[3]))
    if x.weak:
        return weak("encode", x)
    return mk('m', 'encode', x)


def decode(x):
    if x.op == 'ite':
        return ite(x.args[0], decode(x.args[1]), decode(x.args[2]))
    if is_kb(x):
        try:
            return K(x.args[1].decode('utf-8'))
        except UnicodeDecodeError:
            return weak("decode")
    if x.op == 'cat':
        return t.cat('s', [decode(p) for p in x.args[1]])
    if x.op == 'm' and x.args[0] == 'encode':
        return x.args[1]
    if x.weak:
        return weak("decode", x)
    return mk('m', 'decode', x)


def join(I, sep, seq):
    kind = t.ty(sep)
    if kind not in ('s', 'b'):
        return weak("join")
    if seq.op == 'ite':
        return I.branch(seq.args[0], lambda: join(I, sep, seq.args[1]), lambda: join(I, sep, seq.args[2]))
    ents = [I.reify(x) for x in as_list(I, seq)]
    empty = K('' if kind == 's' else b'')
    if sep is empty:
        out = []
        for en in ents:
            p = piece(en, kind)
            if p is None:
                return weak("join")
            out.append(p)
        return t.cat(kind, out)
    if all(en.op == 'gi' and en.args[0] is TRUE for en in ents):
        out = []
        for i, en in enumerate(ents):
            if en.args[1].weak:
                return weak("join", en.args[1])
            if i:
                out.append(sep)
            out.append(en.args[1])
        return t.cat(kind, out)
    return mk('m', 'join', sep, t.listt(ents))


def piece(en, kind):
    empty = K('' if kind == 's' else b'')
    if en.op == 'gi':
        if en.args[1].weak:
            return weak("piece", en.args[1])
        return ite(en.args[0], en.args[1], empty)
    if en.op == 'each':
        it, lid, g, b = en.args
        if b.op == 'flat':
            ps = []
            if b.args[0].op != 'listt':
                return None
            for q in b.args[0].args[0]:
                p = piece(q, kind)
                if p is None:
                    return None
                ps.append(p)
            b = t.cat(kind, ps)
        return mk('each', it, lid, TRUE, ite(g, b, empty))
    if en.op == 'spread':
        return ite(en.args[0], mk('m', 'join', empty, en.args[1]), empty)
    return None


def fmt(I, s, args, kwargs):
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(K(lit))
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            if int(field) >= len(args):
                return weak("format arguments")
            v = args[int(field)]
        elif field in kwargs:
            v = kwargs[field]
        else:
            return weak("format field")
        out.append(I.fmt(v, spec or 's', fstring=True))
    if any(x.weak for x in out):
        return weak("format", *out)
    return t.cat('s', out)


def dict_method(I, base, o, name, args, kwargs, e):
    M = _I()
    if name == 'get':
        return dict_get(I, base, args[0], args[1] if len(args) > 1 else NONE)
    if name in ('items', 'keys', 'values'):
        if o is not None and o.base is None and name != 'items':
            if name == 'keys':
                return I.new_list([mk('gi', I.present(v), k) for k, v in o.d.items() if v is not UNDEF])
            return I.new_list([mk('gi', I.present(v), I.value_if_present(v)) for k, v in o.d.items() if v is not UNDEF])
        if name == 'items' and o is not None and o.base is None:
            return I.new_list([mk('gi', I.present(v), mk('tuple', (k, I.value_if_present(v))))
                               for k, v in o.d.items() if v is not UNDEF])
        return mk('m', name, base)
    if name == 'copy':
        if o is not None:
            c = o.copy()
            return I.newref(c)
        return I.newref(M.Obj('dict', d={}, base=base))
    if name == 'update':
        if args:
            src = I.dictobj(args[0])
            if src is None or src.base is not None:
                raise M.Unsupported("update")
            for k, v in src.d.items():
                p = I.present(v)
                if p is TRUE:
                    I.setitem(base, k, v)
                else:
                    I.branch(p, lambda: I.setitem(base, k, I.value_if_present(v)) or NONE, lambda: NONE)
        for k, v in kwargs.items():
            I.setitem(base, K(k), v)
        return NONE
    if name == 'setdefault':
        c = I.contains(base, args[0])

        def absent():
            I.setitem(base, args[0], args[1] if len(args) > 1 else NONE)
            return NONE
        I.branch(c, lambda: NONE, absent)
        return I.getitem(base, args[0])
    if name == 'pop':
        if o is None:
            I.st.heap[base] = M.Obj('dict', None, {}, True, base)
        if len(args) > 1:
            v = dict_get(I, base, args[0], args[1])
        else:
            v = I.getitem(base, args[0])
        I.wobj(base).d[args[0]] = UNDEF
        return v
    return None


def list_method(I, base, o, name, args, kwargs, e):
    M = _I()
    if name in ('append', 'extend', 'insert', 'sort', 'reverse', 'pop', 'remove', 'add', 'clear'):
        if o is None:
            if base.op in ('ref', 'listt', 'tuple', 'm'):
                raise M.Unsupported("mutation of a value")
            I.st.heap[base] = M.Obj('list', d=[mk('spread', TRUE, base)])
        w = I.wobj(base)
        if name in ('append', 'add'):
            w.d.append(mk('gi', TRUE, args[0]))
            return NONE
        if name == 'extend':
            w.d.extend(as_list(I, args[0]))
            return NONE
        if name == 'clear':
            w.d[:] = []
            return NONE
        if name == 'insert':
            p = args[0]
            if is_ki(p):
                i = t.kval(p)
                es = w.d
                if i == 0 or (i > 0 and len(es) >= i and all(x.op == 'gi' and x.args[0] is TRUE for x in es[:i])) or \
                        (i < 0 and len(es) >= -i and all(x.op == 'gi' and x.args[0] is TRUE for x in es[i:])):
                    es.insert(i, mk('gi', TRUE, args[1]))
                    return NONE
            if all(x.op == 'gi' and x.args[0] is TRUE for x in w.d) and p is x_len(I, [base], {}, e):
                w.d.append(mk('gi', TRUE, args[1]))
                return NONE
            old = I.reify(base)
            w.d[:] = [mk('spread', TRUE, mk('call', 'inserted', old, I.reify(p), I.reify(args[1])))]
            return NONE
        if name == 'sort':
            es = in_order(w.d)
            if kwargs:
                es = keyed(I, w.d, kwargs, e)
                if es is None:
                    raise M.Unsupported("sort key")
                w = I.wobj(base)
            if es is not None:
                w.d[:] = es
                return NONE
            old = I.reify(base)
            w.d[:] = [mk('spread', TRUE, mk('sorted', old))]
            return NONE
        if name == 'reverse':
            if all(x.op == 'gi' for x in w.d):
                w.d.reverse()
            else:
                old = I.reify(base)
                w.d[:] = [mk('spread', TRUE, mk('rev', old))]
            return NONE
        if name == 'pop':
            i = t.kval(args[0]) if args and is_ki(args[0]) else (-1 if not args else None)
            es = w.d
            if i is not None and -len(es) <= i < len(es):
                part = es[i:] if i < 0 else es[:i + 1]
                if all(x.op == 'gi' and x.args[0] is TRUE for x in part):
                    v = es[i].args[1]
                    del es[i]
                    return v
            raise M.Unsupported("pop")
        if name == 'remove':
            for i, x in enumerate(w.d):
                c = I.eq(args[0], x.args[1]) if x.op == 'gi' else None
                if c is TRUE and x.args[0] is TRUE:
                    del w.d[i]
                    return NONE
                if c is not FALSE:
                    break
        raise M.Unsupported("list " + name)
    if name == 'copy':
        return I.new_list(I.list_entries(base))
    if name in ('index', 'count'):
        r = mk('m', name, I.reify(base), *[I.reify(a) for a in args])
        if name == 'index':
            I.may_raise('ValueError', r)
        return r
    return None


def find_created(I, base, nm, args):
    """find/findall/iter over an element whose children are all known"""
    path = args[0] if args else NONE
    if not (is_ks(path) or path is NONE and nm == 'iter'):
        return None

    def kids(x):
        o = I.obj(x)
        if o is None or o.base != 'Element':
            return None
        c = I.obj(o.d['#children'])
        if c is None or not all(y.op == 'gi' and y.args[0] is TRUE and y.args[1].op == 'ref' for y in c.d):
            return None
        return [y.args[1] for y in c.d]

    def tag(x):
        return I.obj(x).d['tag']
    if nm == 'iter':
        out, stack = [], [base]
        while stack:
            x = stack.pop()
            ks = kids(x)
            if ks is None or not is_ks(tag(x)):
                return None
            if path is NONE or tag(x) is path:
                out.append(x)
            stack += reversed(ks)
        return I.new_list([mk('gi', TRUE, x) for x in out])
    steps = split_path(path.args[1])
    if steps is None:
        return None
    cur = [base]
    for st in steps:
        nxt = []
        for x in cur:
            ks = kids(x)
            if ks is None:
                return None
            for k in ks:
                if not is_ks(tag(k)):
                    return None
                if st == '*' or tag(k).args[1] == st:
                    nxt.append(k)
        cur = nxt
    if nm == 'findall':
        return I.new_list([mk('gi', TRUE, x) for x in cur])
    if nm == 'find':
        return cur[0] if cur else NONE
    if nm == 'findtext':
        return I.getattr_(cur[0], 'text') if cur else NONE
    return None


def split_path(p):
    """steps of a simple child path with {namespace} tags"""
    out, i = [], 0
    if p.startswith('./'):
        p = p[2:]
    while i < len(p):
        j = p.find('}', i) if p[i] == '{' else i
        if j < 0:
            return None
        e = p.find('/', j)
        e = len(p) if e < 0 else e
        st = p[i:e]
        if not st or st in ('.', '..') or '[' in st or st == '*' and False:
            return None
        out.append(st)
        i = e + 1
    return out


def elem_method(I, base, name, args, kwargs, e):
    M = _I()
    o = I.obj(base)
    created = o is not None and o.kind == 'inst' and o.base == 'Element'
    if name == 'set':
        I.setitem(elem_attrib(I, base), args[0], args[1])
        return NONE
    if name == 'get':
        return dict_get(I, elem_attrib(I, base), args[0], first(args, kwargs, 1, 'default', NONE))
    if name in ('keys', 'items'):
        return method(I, elem_attrib(I, base), name, [], {}, e)
    if name in ('append', 'insert', 'remove', 'extend', 'clear'):
        ref = elem_children_ref(I, base)
        w = I.wobj(ref)
        if name == 'append':
            w.d.append(mk('gi', TRUE, args[0]))
            return NONE
        if name == 'insert':
            es = w.d
            p = args[0]
            if created and is_ki(p):
                i = t.kval(p)
                if i == 0 or i > 0 and all(x.op == 'gi' and x.args[0] is TRUE for x in es[:i]) and len(es) >= i:
                    es.insert(i, mk('gi', TRUE, args[1]))
                    return NONE
                if i > len(es) and all(x.op == 'gi' and x.args[0] is TRUE for x in es):
                    es.append(mk('gi', TRUE, args[1]))
                    return NONE
            if p is ZERO:
                es.insert(0, mk('gi', TRUE, args[1]))
                return NONE
            es.append(mk('gi', TRUE, mk('ev', 'insert', (p, args[1]))))
            return NONE
        if name == 'remove':
            if created and args[0].op == 'ref':
                hit = [i for i, x in enumerate(w.d) if x.op == 'gi' and x.args[0] is TRUE and x.args[1] is args[0]]
                if hit:
                    del w.d[hit[0]]
                    return NONE
            w.d.append(mk('gi', TRUE, mk('ev', 'remove', (args[0],))))
            return NONE
        raise M.Unsupported("element " + name)
    if name in ('find', 'findall', 'iter', 'getchildren', 'findtext', 'iterfind'):
        if name == 'getchildren':
            return elem_children(I, base)
        nm = 'findall' if name == 'iterfind' else name
        if created:
            r = find_created(I, base, nm, args)
            if r is not None:
                return r
        b = base if base.op != 'ref' else I.reify(base)
        return mk('m', nm, b, *[I.reify(a) for a in args])
    return None
