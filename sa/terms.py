"""Value terms of the dataflow analysis.

A term denotes the value of an expression at a program point as a function of the analysis inputs.  Terms are
interned, so structural identity is object identity.  Smart constructors keep terms in a normal form:

* numbers are linear/polynomial combinations over non-numeric atoms with exact rational coefficients;
* floor division cancels common factors and pulls out whole multiples (x % y is x - y*(x // y));
* comparisons are normalised to  direction <= k  /  direction == k ;
* strings and bytes are concatenations of pieces, adjacent slices of the same object are joined, fixed-width
  big-endian reads and writes cancel.

Nothing here evaluates program code: there are no input values, only terms.
"""
from fractions import Fraction
from hashlib import blake2b
import math

_tab = {}


class T(object):
    __slots__ = ("op", "args", "key", "_h", "weak", "binders")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.key < other.key


def _argkey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return b"(" + b",".join(_argkey(x) for x in a) + b")"
    return ("%s:%r" % (type(a).__name__, a)).encode()


def _anyweak(a):
    if isinstance(a, T):
        return a.weak
    if isinstance(a, tuple):
        return any(_anyweak(x) for x in a)
    return False


def mk(op, *args):
    ident = (op, args) if op != 'k' else (op, args, type(args[1]))
    t = _tab.get(ident)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.key = blake2b(op.encode() + b"|" + b",".join(_argkey(a) for a in args), digest_size=16).digest()
        t._h = hash(t.key)
        t.weak = op == 'weak' or _anyweak(args)
        _tab[ident] = t
    return t


# ------------------------------------------------------------------ constants
def K(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if v is None:
        return NONE
    if isinstance(v, int):
        return mk('k', 'n', Fraction(v))
    if isinstance(v, float):
        if v in (float('inf'), float('-inf')) or v != v:
            return mk('var', 'float:%r' % v, 'n')
        return mk('k', 'n', Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk('k', 'n', v)
    if isinstance(v, str):
        return mk('k', 's', v)
    if isinstance(v, (bytes, bytearray)):
        return mk('k', 'b', bytes(v))
    if isinstance(v, tuple):
        return mk('tuple', tuple(K(x) for x in v))
    raise TypeError(v)


TRUE = mk('k', 'B', True)
FALSE = mk('k', 'B', False)
NONE = mk('k', 'N', None)
UNDEF = mk('undef')
ZERO = K(0)
ONE = K(1)


def isk(t):
    return t.op == 'k'


def kval(t):
    v = t.args[1]
    if t.args[0] == 'n' and v.denominator == 1:
        return int(v)
    return v


def is_kn(t):
    return t.op == 'k' and t.args[0] == 'n'


def is_ki(t):
    return t.op == 'k' and t.args[0] == 'n' and t.args[1].denominator == 1


def is_ks(t):
    return t.op == 'k' and t.args[0] == 's'


def is_kb(t):
    return t.op == 'k' and t.args[0] == 'b'


_weakn = [0]


def weak(why="", *deps):
    """A value the analysis does not know (never reported as a difference)."""
    return mk('weak', str(why), tuple(d for d in deps if isinstance(d, T)))


def var(name, ty='?'):
    return mk('var', name, ty)


# ------------------------------------------------------------------ types
BOOLOPS = {'not', 'and', 'or', 'le', 'lt', 'eqn', 'eqv', 'isnone', 'truthy', 'in', 'isinst', 'any', 'raises'}
# element types by attribute / key / field name (used only to normalise arithmetic and text)
HINTS = {}
METHOD_TY = {'encode': 'b', 'decode': 's', 'split': 'L', 'strip': 's', 'rstrip': 's', 'lstrip': 's', 'lower': 's',
             'upper': 's', 'replace': 's', 'startswith': 'B', 'endswith': 'B', 'find': 'i', 'rfind': 'i', 'index': 'i',
             'count': 'i', 'group': 's', 'isoformat': 's', 'strftime': 's', 'keys': 'L', 'values': 'L', 'items': 'L',
             'isdigit': 'B', 'hex': 's', 'total_seconds': 'n', 'rsplit': 'L', 'partition': 'T', 'zfill': 's',
             'splitlines': 'L', 'join': 's', 'format': 's', 'findall': 'L'}
PLAIN = {}             # text inputs -> characters they do not contain
NONEMPTY = set()        # functions that return non-empty text
CALL_TY = {'int': 'i', 'float': 'n', 'len': 'i', 'str': 's', 'round': 'i', 'abs': 'n', 'time.time': 'n', 'ord': 'i',
           'chr': 's', 'hex': 's', 'bool': 'B', 're.sub': 's', 'time.strftime': 's', 'repr': 's', 'isinstance': 'B',
           'random.randint': 'i', 'read': 'b', 'min': 'n', 'max': 'n', 'sorted': 'L', 'callable': 'B',
           'os.path.splitext': 'T', 'os.path.exists': 'B', 'hasattr': 'B', 'parse_qs': 'D'}


def ty(t):
    op = t.op
    if op == 'k':
        v = t.args[0]
        if v == 'n':
            return 'i' if t.args[1].denominator == 1 else 'n'
        return v
    if op == 'var':
        return t.args[1].rstrip('?') or '?'
    if op == 'p':
        for mono, c in t.args[0]:
            if c.denominator != 1:
                return 'n'
            for a, e in mono:
                if e < 0 or ty(a) not in ('i', 'B'):
                    return 'n'
        return 'i'
    if op in ('fdiv', 'blen', 'bi', 'rd', 'ord', 'band', 'bor', 'bxor', 'shl', 'shr', 'cnt', 'mulk'):
        return 'i'
    if op in ('ceil', 'pow'):
        return 'i' if op == 'ceil' else 'n'
    if op in ('sum',):
        return ty(t.args[2])
    if op in BOOLOPS:
        return 'B'
    if op == 'ite':
        a, b = ty(t.args[1]), ty(t.args[2])
        if a == b:
            return a
        if t.args[1] is NONE or t.args[1] is UNDEF:
            return b
        if t.args[2] is NONE or t.args[2] is UNDEF:
            return a
        if {a, b} <= {'i', 'n', 'B'}:
            return 'n'
        return '?'
    if op == 'cat':
        return t.args[0]
    if op == 'conv':
        return 's'
    if op in ('wr',):
        return 'b'
    if op == 'rep':
        return ty(t.args[0])
    if op == 'slice':
        return ty(t.args[0])
    if op in ('attr',):
        if t.args[1] == '#children':
            return 'L'
        if t.args[1] == 'attrib' and ty(t.args[0]) == 'X':
            return 'D'
        if t.args[1] in ('tag', 'text', 'tail') and ty(t.args[0]) == 'X':
            return 's'
        return HINTS.get(t.args[1], '?').rstrip('?') or '?'
    if op == 'item':
        b = t.args[0]
        tb = ty(b)
        if tb == 's':
            return 's'
        if tb == 'b':
            return 'i'
        if b.op == 'attr' and b.args[1] == 'attrib' and ty(b.args[0]) == 'X':
            return 's'
        if is_ks(t.args[1]):
            return HINTS.get(t.args[1].args[1], '?').rstrip('?') or '?'
        if b.op == 'm' and b.args[0] in ('split', 'rsplit', 'partition'):
            return ty(b.args[1])
        if b.op in ('listt',) and b.args[0]:
            return '?'
        if b.op == 'call' and b.args[0] == 'os.path.splitext':
            return 's'
        e = elemty(b)
        return e
    if op == 'bv':
        return t.args[1]
    if op == 'm':
        if t.args[0] in ('getroot', 'find') and (t.args[0] == 'getroot' or ty(t.args[1]) == 'X'):
            return 'X'
        if t.args[0] == 'findtext':
            return 's'
        r = METHOD_TY.get(t.args[0], '?')
        if t.args[0] == 'get' and len(t.args) > 2 and is_ks(t.args[2]):
            return HINTS.get(t.args[2].args[1], '?').rstrip('?') or '?'
        if r == 's' and t.args[0] not in ('decode',) and len(t.args) > 1:
            tb = ty(t.args[1])
            return tb if tb in ('s', 'b') else '?'
        return r
    if op == 'call':
        n = t.args[0]
        if n in ('min', 'max', 'abs'):
            ts = {ty(a) for a in t.args[1:] if isinstance(a, T)}
            if len(t.args) == 2 and ts == {'L'}:
                return elemty(t.args[1])
            return 'i' if ts and ts <= {'i', 'B'} else 'n'
        return CALL_TY.get(n, '?')
    if op == 'ph':
        return t.args[2]
    if op == 'mu':
        return t.args[2]
    if op == 'sel':
        return ty(t.args[3])
    if op == 'tuple':
        return 'T'
    if op in ('listt', 'sorted', 'rev', 'spread'):
        return 'L'
    if op == 'dictt':
        return 'D'
    return '?'


def elemty(t):
    """type of the elements of a sequence term"""
    if t.op == 'var' and '[' in t.args[1]:
        return t.args[1].split('[')[1][:-1]
    if t.op == 'attr':
        h = HINTS.get(t.args[1], '')
        if '[' in h:
            return h.split('[')[1].rstrip('?]')
    if t.op == 'm' and t.args[0] in ('split', 'rsplit', 'splitlines'):
        return ty(t.args[1])
    if t.op in ('slice', 'rev', 'sorted'):
        return elemty(t.args[0])
    if t.op == 'm' and t.args[0] in ('findall', 'iter') and len(t.args) > 1 and ty(t.args[1]) == 'X':
        return 'X'
    if t.op == 'attr' and t.args[1] == '#children' or ty(t) == 'X':
        return 'X'
    if t.op == 'rng':
        return 'i'
    if t.op == 'm' and t.args[0] == 'keys':
        return 's'
    return '?'


def nullable(t):
    if t.op == 'var':
        return t.args[1].endswith('?') or t.args[1] == ''
    if t.op == 'attr':
        h = HINTS.get(t.args[1], '?')
        return h.endswith('?')
    if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] == 'attrib':
        return False
    if t.op == 'm' and t.args[0] == 'find' and ty(t) == 'X':
        return True
    if t.op == 'item' and is_ks(t.args[1]):
        return HINTS.get(t.args[1].args[1], '?').endswith('?')
    if t.op == 'call' and isinstance(t.args[0], str) and t.args[0].isupper():
        return False
    if t.op in ('m', 'call', 'item', 'bv', 'ph', 'mu', 'sel'):
        return ty(t) == '?' or (t.op == 'm' and t.args[0] in ('get', 'find_') and ty(t) not in ('L',))
    return False


def isint(t):
    return ty(t) in ('i', 'B')


def isnum(t):
    return ty(t) in ('i', 'n')


# ------------------------------------------------------------------ polynomials
def lin(t):
    """term -> dict monomial -> coefficient"""
    if is_kn(t):
        return {(): t.args[1]} if t.args[1] else {}
    if t is TRUE:
        return {(): Fraction(1)}
    if t is FALSE:
        return {}
    if t.op == 'p':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mkey(m):
    return [(a.key, e) for a, e in m]


def unlin(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return K(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk('p', tuple(sorted(d.items(), key=lambda x: _mkey(x[0]))))


def lin_addto(d, e, f=1):
    for m, c in e.items():
        v = d.get(m, 0) + c * f
        if v:
            d[m] = v
        else:
            d.pop(m, None)


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def add(a, b):
    d = lin(a)
    lin_addto(d, lin(b))
    return unlin(d)


def sub(a, b):
    d = lin(a)
    lin_addto(d, lin(b), -1)
    return unlin(d)


def neg(a):
    return sub(ZERO, a)


def mul(a, b):
    d = {}
    for m1, c1 in lin(a).items():
        for m2, c2 in lin(b).items():
            m = _mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return unlin(d)


def div(a, b):
    lb = lin(b)
    if len(lb) == 1:
        (m, c), = lb.items()
        inv = tuple((x, -e) for x, e in m)
        return mul(a, mk('p', ((inv, 1 / c),)) if inv else K(1 / c))
    if not lb:
        return weak("division by zero")
    if a is b:
        return ONE
    return mul(a, mk('p', ((((b, -1),), Fraction(1)),)))


def _content(d):
    """common monomial factor of all monomials, and rational content"""
    ms = list(d)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            e = min(common[a], dm.get(a, 0)) if dm.get(a, 0) * common[a] > 0 else 0
            if e:
                common[a] = e
            else:
                del common[a]
    for a in list(common):
        if common[a] < 0:
            del common[a]
    return common


def _times(d, powers):
    """polynomial d times the product of the atoms in powers (sums are multiplied out, negative powers cancel)"""
    out = {}
    for m, c in d.items():
        dm = dict(m)
        r = {(): c}
        for a, e in powers.items():
            x = dm.get(a, 0) + e
            if a.op == 'p' and x > 0:
                dm.pop(a, None)
                for _ in range(x):
                    r = lin(mul(unlin(r), a))
            elif x:
                dm[a] = x
            else:
                dm.pop(a, None)
        base = tuple(sorted(dm.items(), key=lambda y: y[0].key))
        lin_addto(out, {_mmul(base, k): v for k, v in r.items()})
    return out


def _clear_denoms(p, q):
    """multiply numerator and denominator so that no negative powers and integer coefficients remain"""
    for _ in range(4):
        negs = {}
        for d in (p, q):
            for m in d:
                for a, e in m:
                    if e < 0:
                        negs[a] = max(negs.get(a, 0), -e)
        if not negs:
            break
        p = _times(p, negs)
        q = _times(q, negs)
    den = 1
    for d in (p, q):
        for c in d.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    p = {m: c * den for m, c in p.items()}
    q = {m: c * den for m, c in q.items()}
    for d in (p, q):
        for c in d.values():
            g = math.gcd(g, int(c))
    if g > 1:
        p = {m: c / g for m, c in p.items()}
        q = {m: c / g for m, c in q.items()}
    return p, q


def fdiv(a, b):
    """floor(a / b)"""
    if a.weak or b.weak:
        return weak("fdiv", a, b)
    if a.op == 'ite' or b.op == 'ite':
        return mk('fdiv', a, b)
    p, q = lin(a), lin(b)
    if not q:
        return weak("division by zero")
    if not p:
        return ZERO
    p, q = _clear_denoms(p, q)
    # common factors
    cm = _content(p)
    cq = _content(q)
    common = {x: min(e, cq[x]) for x, e in cm.items() if x in cq}
    if common:
        inv = mk('p', ((tuple((x, -e) for x, e in sorted(common.items(), key=lambda y: y[0].key)), Fraction(1)),))
        p = lin(mul(unlin(p), inv))
        q = lin(mul(unlin(q), inv))
    if list(q) == [()]:
        k = q[()]
        if k < 0:
            p = {m: -c for m, c in p.items()}
            k = -k
        whole, rest = {}, {}
        for m, c in p.items():
            if m == ():
                w = Fraction(math.floor(c / k))
                if w:
                    whole[m] = w
                if c - w * k:
                    rest[m] = c - w * k
                continue
            integral = all(isint(x) and e > 0 for x, e in m)
            if integral:
                w = Fraction(math.floor(c / k))
                if w:
                    whole[m] = w
                if c - w * k:
                    rest[m] = c - w * k
            else:
                rest[m] = c
        if not rest:
            return unlin(whole)
        if list(rest) == [()] and 0 <= rest[()] < k:
            return unlin(whole)
        if k == 1 and all(isint(x) and e > 0 for m in rest for x, e in m) and \
                all(c.denominator == 1 for c in rest.values()):
            return add(unlin(whole), unlin(rest))
        r = unlin(rest)
        lo, hi = _range_of(r)
        if lo is not None and hi is not None and math.floor(lo / k) == math.floor(hi / k):
            return add(unlin(whole), K(math.floor(lo / k)))
        if r.op == 'fdiv' and is_kn(r.args[1]) and is_kn(K(k)):   # (x//a)//b = x//(a*b)
            return add(unlin(whole), fdiv(r.args[0], K(r.args[1].args[1] * k)))
        inner = [m for m, c in rest.items() if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fdiv' and
                 is_ki(m[0][0].args[1])]
        if len(inner) == 1 and k.denominator == 1 and all(c.denominator == 1 and all(isint(x) and e > 0 for x, e in m)
                                                          for m, c in rest.items() if m != inner[0]):
            f = inner[0][0][0]              # (i + x//a)//b = (a*i + x)//(a*b)
            return add(unlin(whole), fdiv(add(mul(f.args[1], sub(r, f)), f.args[0]), K(f.args[1].args[1] * k)))
        if r.op == 'rd' and r.args[1] == 'u':      # the leading bytes of a big-endian number
            for n in range(1, r.args[0]):
                if k == 256 ** n and ty(r.args[2]) == 'b':
                    return add(unlin(whole), rd(r.args[0] - n, 'u', slice_(r.args[2], ZERO, K(r.args[0] - n))))
        if k.denominator == 1 and all(c.denominator == 1 and all(isint(x) and e > 0 for x, e in m)
                                      for m, c in rest.items()):
            lead = max((m for m in rest if m != ()), key=lambda m: (sum(e for _, e in m), _mkey(m)))
            if 2 * rest[lead] > k:       # floor(a/k) = -floor((k-1-a)/k)
                n = {m: -c for m, c in rest.items()}
                n[()] = n.get((), 0) + k - 1
                return sub(unlin(whole), fdiv(unlin(n), K(k)))
        return add(unlin(whole), mk('fdiv', r, K(k)))
    # symbolic divisor: pull out multiples of q
    whole = {}
    rest = dict(p)
    lead = max(q, key=lambda m: (sum(e for _, e in m), _mkey(m)))
    lc = q[lead]
    for m in sorted(p, key=lambda m: (-sum(e for _, e in m), _mkey(m))):
        if m not in rest:
            continue
        dm = dict(m)
        ok = True
        for x, e in lead:
            if dm.get(x, 0) < e:
                ok = False
                break
            dm[x] -= e
        if not ok:
            continue
        quo = tuple((x, e) for x, e in sorted(dm.items(), key=lambda y: y[0].key) if e)
        if not all(isint(x) and e > 0 for x, e in quo):
            continue
        c = rest[m] / lc
        w = Fraction(math.floor(c)) if c.denominator != 1 else c
        if not w:
            continue
        if quo == () and len(q) == 1:
            pass
        # accept only if it really removes the monomial (or it is a rational remainder on the same monomial)
        whole[quo] = whole.get(quo, 0) + w
        lin_addto(rest, lin(mul(unlin(q), unlin({quo: Fraction(w)}))), -1)
    if not rest:
        return unlin(whole)
    return add(unlin(whole), mk('fdiv', unlin(rest), unlin(q)))


def mod(a, b):
    return sub(a, mul(b, fdiv(a, b)))


def toint(a):
    """int(x) of a number (quantities are non-negative here, so truncation is floor)"""
    if isint(a):
        return a
    return fdiv(a, ONE)


def ceil_(a):
    if isint(a):
        return a
    return neg(fdiv(neg(a), ONE))


def power(a, b):
    if is_ki(b) and 0 <= b.args[1] <= 8:
        r = ONE
        for _ in range(int(b.args[1])):
            r = mul(r, a)
        return r
    if is_kn(a) and is_ki(b):
        return K(a.args[1] ** int(b.args[1]))
    return mk('pow', a, b)


def bitop(op, a, b):
    if is_ki(a) and is_ki(b):
        x, y = int(a.args[1]), int(b.args[1])
        return K({'band': lambda: x & y, 'bor': lambda: x | y, 'bxor': lambda: x ^ y,
                  'shl': lambda: x << y, 'shr': lambda: x >> y}[op]())
    if op == 'shl' and is_ki(b):
        return mul(a, K(1 << int(b.args[1])))
    if op == 'shr' and is_ki(b):
        return fdiv(a, K(1 << int(b.args[1])))
    if op in ('band', 'bor', 'bxor'):
        if is_ki(a) and not is_ki(b):
            a, b = b, a
        if op == 'band' and is_ki(b):
            m = int(b.args[1])
            if m == 0:
                return ZERO
            if a.op == 'band' and is_ki(a.args[1]):
                return bitop('band', a.args[0], K(m & int(a.args[1].args[1])))
            if m & (m + 1) == 0:                      # low mask: x & (2^n-1) = x mod 2^n
                return mod(a, K(m + 1))
            l = (m & -m).bit_length() - 1
            if l and (m >> l) & ((m >> l) + 1) == 0:   # contiguous bits: 2^l * ((x >> l) mod 2^n)
                return mul(K(1 << l), mod(fdiv(a, K(1 << l)), K((m >> l) + 1)))
            # bits apart: reduce the operand modulo the mask width, so reads of different width agree
            w = m.bit_length()
            a = mod(a, K(1 << w)) if not _fits(a, w) else a
        if op == 'bor' and is_ki(b) and int(b.args[1]) == 0:
            return a
        if not (is_ki(a) or is_ki(b)) and b.key < a.key:
            a, b = b, a
    return mk(op, a, b)


def _fits(a, w):
    if a.op == 'rd' and a.args[1] == 'u':
        return a.args[0] * 8 <= w
    return False


# ------------------------------------------------------------------ booleans
_NOT, _AND, _OR = {}, {}, {}


def not_(c):
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _not(c)
        _NOT.setdefault(r, c)
    return r


def and_(*cs):
    r = _AND.get(cs)
    if r is None:
        r = _AND[cs] = _and(*cs)
    return r


def or_(*cs):
    r = _OR.get(cs)
    if r is None:
        r = _OR[cs] = _or(*cs)
    return r


def _not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'and':
        return or_(*[not_(x) for x in c.args[0]])
    if c.op == 'or':
        return and_(*[not_(x) for x in c.args[0]])
    if c.op == 'le' and _intdir(c.args[0]):
        pass
    if c.op == 'ite':
        return ite(c.args[0], not_(c.args[1]), not_(c.args[2]))
    return mk('not', c)


def _and(*cs):
    out = {}
    for c in cs:
        if c.op == 'and':
            for x in c.args[0]:
                out[x] = 1
        elif c is FALSE:
            return FALSE
        elif c is not TRUE:
            out[c] = 1
    for c in list(out):
        if not_(c) in out:
            return FALSE
    # absorption:  a & (a | b) = a ;  a & (!a | b) = a & b
    changed = True
    while changed:
        changed = False
        for c in list(out):
            if c.op == 'or':
                if any(x in out for x in c.args[0]):
                    del out[c]
                    changed = True
                    continue
                rest = [x for x in c.args[0] if not_(x) not in out]
                if len(rest) < len(c.args[0]):
                    del out[c]
                    r = or_(*rest)
                    if r is FALSE:
                        return FALSE
                    if r.op == 'and':
                        for x in r.args[0]:
                            out[x] = 1
                    else:
                        out[r] = 1
                    if any(not_(x) in out for x in list(out)):
                        return FALSE
                    changed = True
                    break
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out))
    return mk('and', tuple(sorted(out)))


def _or(*cs):
    out = {}
    for c in cs:
        if c.op == 'or':
            for x in c.args[0]:
                out[x] = 1
        elif c is TRUE:
            return TRUE
        elif c is not FALSE:
            out[c] = 1
    for c in list(out):
        if not_(c) in out:
            return TRUE
    changed = True
    while changed:
        changed = False
        for c in list(out):
            if c.op == 'and':
                if any(x in out for x in c.args[0]):
                    del out[c]
                    changed = True
                    continue
                rest = [x for x in c.args[0] if not_(x) not in out]
                if len(rest) < len(c.args[0]):
                    del out[c]
                    r = and_(*rest)
                    if r is TRUE:
                        return TRUE
                    if r.op == 'or':
                        for x in r.args[0]:
                            out[x] = 1
                    else:
                        out[r] = 1
                    if any(not_(x) in out for x in list(out)):
                        return TRUE
                    changed = True
                    break
        if not changed:
            ands = [c for c in out if c.op == 'and']
            for i, c in enumerate(ands):
                sc = set(c.args[0])
                for d in ands[i + 1:]:
                    sd = set(d.args[0])
                    # (X & c) | (X & !c) = X
                    if len(sc) == len(sd):
                        diff = sc - sd
                        if len(diff) == 1:
                            x = next(iter(diff))
                            if not_(x) in sd:
                                del out[c]
                                del out[d]
                                r = and_(*[y for y in sc if y is not x])
                                if r is TRUE:
                                    return TRUE
                                out[r] = 1
                                changed = True
                                break
                if changed:
                    break
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out))
    return mk('or', tuple(sorted(out)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite':
        if a.args[0] is c:
            return ite(c, a.args[1], b)
        if a.args[2] is b:                      # ite(c, ite(d,x,b), b)
            return ite(and_(c, a.args[0]), a.args[1], b)
    if b.op == 'ite':
        if b.args[0] is c:
            return ite(c, a, b.args[2])
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
    ta, tb = ty(a), ty(b)
    if ta == 'B' and tb == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'isnone' and a is NONE and c.args[0] is b:
        return b
    if c.op == 'truthy' and b is ZERO and a.op == 'blen' and a.args[0] is c.args[0]:
        return a                                # nothing in it
    return mk('ite', c, a, b)


def _intdir(p):
    return ty(p) == 'i'


def _normdir(p):
    """p (poly term) -> (direction, scale, const): p = scale*direction + const, direction canonical"""
    d = lin(p)
    const = d.pop((), Fraction(0))
    if not d:
        return None, 0, const
    items = sorted(d.items(), key=lambda x: _mkey(x[0]))
    g = Fraction(0)
    num = 0
    den = 1
    for _, c in items:
        num = math.gcd(num, abs(c.numerator))
        den = den * c.denominator // math.gcd(den, c.denominator)
    scale = Fraction(num, den)
    if items[0][1] < 0:
        scale = -scale
    return unlin({m: c / scale for m, c in items}), scale, const


def _bit(p):
    """is the direction a 0/1 valued quantity (x mod 2)?"""
    return False


def cmp_le(a, b, strict):
    """a <= b  (a < b if strict)"""
    if a.weak or b.weak:
        return mk('truthy', weak("cmp", a, b))
    if a.op == 'ite' and is_kn(b):
        return ite(a.args[0], cmp_le(a.args[1], b, strict), cmp_le(a.args[2], b, strict)) \
            if _small(a) else _cmp_le(a, b, strict)
    return _cmp_le(a, b, strict)


def _small(t):
    return t.op == 'ite' and (t.args[1].op != 'ite' or t.args[2].op != 'ite')


def _numlike(t):
    return ty(t) in ('i', 'n', 'B') or t.op == 'p'


def _cmp_le(a, b, strict):
    for x in (a, b):
        if x.op == 'k' and x.args[0] in ('s', 'b', 'N'):
            return mk('lexlt' if strict else 'lexle', a, b)
    p = sub(a, b)
    d, s, c = _normdir(p)
    if d is None:
        return K(c < 0 if strict else c <= 0)
    # s*d + c (<|<=) 0
    k = -c / s
    if s > 0:           # d < k / d <= k
        return _le(d, k, strict)
    return not_(_le(d, k, not strict))   # d > k  = not (d <= k);  d >= k = not (d < k)


RANGES = {}         # name of a variable -> (lowest, highest) value


def ranged(name, lo, hi):
    """an integer variable with known bounds"""
    name = '%s in %s..%s' % (name, lo, hi)
    RANGES[name] = Fraction(lo), Fraction(hi)
    return var(name, 'i')


def _range_of(d):
    """known constant bounds of a direction from its type"""
    if d.op == 'p':
        lo = hi = Fraction(0)
        for m, c in d.args[0]:
            if m == ():
                l = h = Fraction(1)
            elif len(m) == 1 and m[0][1] == 1:
                l, h = _range_of(m[0][0])
            else:
                return None, None
            if c < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + c * l
            hi = None if hi is None or h is None else hi + c * h
        # x - k*(x//k) = x mod k is in 0..k-1
        fds = [(m[0][0], c) for m, c in d.args[0] if len(m) == 1 and m[0][0].op == 'fdiv' and m[0][1] == 1]
        for f, c in fds:
            if is_kn(f.args[1]) and c < 0 or is_kn(f.args[1]) and c > 0:
                k = f.args[1].args[1]
                r = sub(d, mul(K(c), f))
                if c == -k and r is f.args[0]:
                    return Fraction(0), (k - 1 if isint(r) else k)
                if c == k and neg(r) is f.args[0]:
                    return (1 - k if isint(r) else -k), Fraction(0)
                for q, sg in ((r, 1), (neg(r), -1)):
                    # (x//a) - c*(x//(a*c)) is the a..a*c digit of x
                    if q.op == 'fdiv' and q.args[0] is f.args[0] and is_kn(q.args[1]) and \
                            q.args[1].args[1] * abs(c) == k and sg * c < 0:
                        return (Fraction(0), abs(c) - 1) if sg > 0 else (1 - abs(c), Fraction(0))
        return lo, hi
    if d.op == 'var' and d.args[0] in RANGES:
        return RANGES[d.args[0]]
    if d.op == 'rd' and d.args[1] == 'u':
        return Fraction(0), Fraction(256 ** d.args[0] - 1)
    if d.op == 'item' and ty(d.args[0]) == 'b':
        return Fraction(0), Fraction(255)
    if d.op in ('blen', 'bi', 'cnt') or (d.op == 'call' and d.args[0] in ('len', 'abs')):
        return Fraction(0), None
    if d.op == 'fdiv' and is_kn(d.args[1]) and d.args[1].args[1] > 0:
        l, h = _range_of(d.args[0]) if not is_kn(d.args[0]) else (None, None)
        k = d.args[1].args[1]
        return (Fraction(math.floor(l / k)) if l is not None else None,
                Fraction(math.floor(h / k)) if h is not None else None)
    return None, None


def _le(d, k, strict):
    if _intdir(d):
        if strict:
            k = Fraction(math.ceil(k)) - 1
        else:
            k = Fraction(math.floor(k))
        strict = False
    lo, hi = _range_of(d)
    if hi is not None and (hi < k or (hi == k and not strict)):
        return TRUE
    if lo is not None and (lo > k or (lo == k and strict)):
        return FALSE
    if d.op in ('cnt',) and False:
        pass
    return mk('lt' if strict else 'le', d, K(k))


def _constleaves(x, n=0):
    if x.op == 'ite':
        return n < 6 and _constleaves(x.args[1], n + 1) and _constleaves(x.args[2], n + 1)
    return isk(x)


def eq(a, b):
    if a is b:
        return TRUE
    if a.weak or b.weak:
        return mk('truthy', weak("eq", a, b))
    if a.op == 'ite' and isk(b) and (not (a.args[1].op == 'ite' and a.args[2].op == 'ite') or _constleaves(a)):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and isk(a) and (not (b.args[1].op == 'ite' and b.args[2].op == 'ite') or _constleaves(b)):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op in ('cls', 'fn', 'mod') and b.op in ('cls', 'fn', 'mod'):
        return FALSE
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if isk(a) and isk(b):
        if a.args[0] == b.args[0]:
            return K(a.args[1] == b.args[1])
        if {a.args[0], b.args[0]} == {'n', 'B'}:
            return K(a.args[1] == b.args[1])
        return FALSE
    ta, tb = ty(a), ty(b)
    if ta == 'B' and tb == 'B':
        if b is TRUE:
            return a
        if a is TRUE:
            return b
        if b is FALSE:
            return not_(a)
        if a is FALSE:
            return not_(b)
    if (_numlike(a) and (_numlike(b) or tb == '?')) or (_numlike(b) and ta == '?'):
        d, s, c = _normdir(sub(a, b))
        if d is None:
            return K(c == 0)
        k = -c / s
        if _intdir(d) and k.denominator != 1:
            return FALSE
        lo, hi = _range_of(d)
        if hi is not None and hi < k or lo is not None and lo > k:
            return FALSE
        # parity-like 0/1 quantities: normalise "== 1" to not "== 0"
        if lo == 0 and hi == 1 and _intdir(d):
            e = mk('eqn', d, ZERO)
            return e if k == 0 else not_(e)
        return mk('eqn', d, K(k))
    known = ('s', 'b', 'i', 'n', 'B', 'T', 'L', 'D')
    if ta in known and tb in known and ta != tb and not ({ta, tb} <= {'i', 'n', 'B'}) and not ({ta, tb} <= {'L', 'T'}):
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple':
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if isk(a) or (not isk(b) and b.key < a.key):
        a, b = b, a
    # emptiness of text/bytes/containers
    if isk(b) and b.args[0] in ('s', 'b') and not b.args[1]:
        return not_(truth(a))
    if a.op == 'conv' and a.args[0] == 'd' and is_ks(b):      # decimal text of an integer
        v = b.args[1]
        n = v[1:] if v[0] == '-' else v
        return eq(a.args[1], K(int(v))) if n.isdigit() and n.isascii() and str(int(v)) == v else FALSE
    if a.op == 'cat' and isk(b):
        r = _cat_eq_const(a, b)
        if r is not None:
            return r
    return mk('eqv', a, b)


def _cat_eq_const(a, b):
    ps = a.args[1]
    v = b.args[1]
    if isk(ps[0]):
        p = ps[0].args[1]
        if not v.startswith(p):
            return FALSE
        return eq(cat(a.args[0], list(ps[1:])), K(v[len(p):]))
    if isk(ps[-1]):
        p = ps[-1].args[1]
        if not v.endswith(p):
            return FALSE
        return eq(cat(a.args[0], list(ps[:-1])), K(v[:len(v) - len(p)]))
    return None


def isnone(t):
    if t is NONE:
        return TRUE
    if t.weak:
        return mk('truthy', weak("isnone", t))
    if t.op == 'ite':
        return ite(t.args[0], isnone(t.args[1]), isnone(t.args[2]))
    if not nullable(t):
        return FALSE
    return mk('isnone', t)


def truth(t):
    if t.op == 'k':
        return K(bool(t.args[1]))
    if t.op == 'tuple':
        return K(bool(t.args[0]))
    if t.op == 'listt' and any(e.op == 'gi' and e.args[0] is TRUE for e in t.args[0]):
        return TRUE
    if t.weak:
        return mk('truthy', t)
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    k = ty(t)
    if k == 'B' and t.op in BOOLOPS:
        return t
    if t is UNDEF:
        return mk('truthy', weak("undef"))
    nn = not_(isnone(t))
    if k in ('i', 'n'):
        return and_(nn, not_(eq(t, ZERO)))
    if t.op == 'cat':
        if any(isk(p) and p.args[1] for p in t.args[1]) or any(p.op in ('wr', 'conv') for p in t.args[1]):
            return TRUE
    if t.op == 'wr' or t.op == 'conv' or t.op == 'ntval' and t.args[1] or t.op == 'call' and t.args[0] in NONEMPTY:
        return TRUE
    if t.op == 'tuple':
        return K(bool(t.args[0]))
    if t.op == 'm' and t.args[0] in ('encode', 'decode') and ty(t.args[1]) in ('s', 'b') and not nullable(t.args[1]):
        return truth(t.args[1])
    if t.op == 'listt':
        return seq_nonempty(t)
    if t.op in ('ref', 'fn', 'cls', 'bm', 'clo', 'mod'):
        return TRUE
    if k in ('s', 'b', 'L', 'D'):
        b = mk('truthy', t)
        return and_(nn, b) if nn is not TRUE else b
    return mk('truthy', t)


def seq_nonempty(t):
    cs = []
    for e in t.args[0]:
        if e.op == 'gi':
            cs.append(e.args[0])
        elif e.op == 'each':
            cs.append(any_(e.args[0], e.args[1], e.args[2]))
        elif e.op == 'spread':
            cs.append(and_(e.args[0], truth(e.args[1])))
        else:
            return mk('truthy', t)
    return or_(*cs)


def in_(x, seq):
    if seq.op in ('tuple',):
        return or_(*[eq(x, y) for y in seq.args[0]])
    if seq.op == 'listt' and all(e.op == 'gi' for e in seq.args[0]):
        return or_(*[and_(e.args[0], eq(x, e.args[1])) for e in seq.args[0]])
    if seq.op == 'ite':
        return ite(seq.args[0], in_(x, seq.args[1]), in_(x, seq.args[2]))
    if isk(x) and isk(seq) and seq.args[0] in 'sb' and x.args[0] == seq.args[0]:
        return K(x.args[1] in seq.args[1])
    return mk('in', x, seq)


# ------------------------------------------------------------------ text and bytes
def cat(kind, pieces):
    """concatenation of pieces ('s' or 'b')"""
    out = []
    for p in pieces:
        ps = p.args[1] if p.op == 'cat' and p.args[0] == kind else (p,)
        for q in ps:
            if isk(q) and q.args[0] == kind:
                if not q.args[1]:
                    continue
                if out and isk(out[-1]) and out[-1].args[0] == kind:
                    out[-1] = K(out[-1].args[1] + q.args[1])
                    continue
            elif q.op == 'slice' and out and out[-1].op == 'slice' and out[-1].args[0] is q.args[0] and \
                    out[-1].args[2] is q.args[1]:
                prev = out.pop()
                q = slice_(q.args[0], prev.args[1], q.args[2])
                out.append(q)
                continue
            elif q.op == 'each' and isk(q.args[3]) and q.args[3].args[0] == kind and not q.args[3].args[1]:
                continue
            elif q.op == 'wr' and isk(q.args[2]):
                c = wr(q.args[0], q.args[1], q.args[2])
                if isk(c):
                    if out and isk(out[-1]) and out[-1].args[0] == kind:
                        out[-1] = K(out[-1].args[1] + c.args[1])
                        continue
                    q = c
            while q.op == 'wr' and q.args[1] == 'u' and out and out[-1].op == 'wr' and out[-1].args[1] == 'u' and \
                    not isk(q.args[2]) and wr(out[-1].args[0], 'u', fdiv(q.args[2], K(256 ** q.args[0]))) is out[-1]:
                q = wr(out.pop().args[0] + q.args[0], 'u', q.args[2])       # a number written in two parts
            out.append(q)
    if not out:
        return K('' if kind == 's' else b'')
    if len(out) == 1:
        return out[0]
    return mk('cat', kind, tuple(out))


def conv(spec, t):
    """text of a value: spec is the printf-like conversion; plain text conversion is 's'"""
    if t.weak:
        return weak("fmt", t)
    if spec == 'd' and (is_ki(t)):
        return K("%d" % kval(t))
    if spec == 's':
        if t.op == 'k':
            if t.args[0] == 's':
                return t
            if t.args[0] == 'n':
                v = kval(t)
                return K(str(v)) if isinstance(v, int) else mk('conv', 'r', t)
            if t.args[0] in ('B', 'N'):
                return K(str(t.args[1]))
        if t.op == 'ite':
            return ite(t.args[0], conv(spec, t.args[1]), conv(spec, t.args[2]))
        k = ty(t)
        if k == 's' and not nullable(t):
            return t
        if k == 'i' and not nullable(t):
            return mk('conv', 'd', t)
        return mk('conv', 's', t)
    if spec in ('d', 'f') and t.op == 'ite':
        return ite(t.args[0], conv(spec, t.args[1]), conv(spec, t.args[2]))
    if spec == 'f' and is_kn(t):
        return K("%f" % float(kval(t)))
    if spec == 'd' and isnum(t) and not isint(t):
        t = toint(t)
    return mk('conv', spec, t)


def reduced(x, m):
    """an integer without the obvious multiples of m"""
    if x.op == 'ite':
        a, b = reduced(x.args[1], m), reduced(x.args[2], m)
        return x if a is x.args[1] and b is x.args[2] else ite(x.args[0], a, b)
    if x.op == 'p':
        d = lin(x)
        e = {k: c for k, c in d.items() if not (c % m == 0 and len(k) == 1 and k[0][0].op == 'fdiv' and k[0][1] == 1)}
        if len(e) < len(d):
            return unlin(e)
    return x


def wr(n, kind, x):
    """big-endian fixed width field; kind u / i; the value counts modulo the width"""
    x = reduced(x, 256 ** n)
    if x.op == 'rd' and x.args[0] == n and x.args[2] is not None and x.args[1] == kind:
        return x.args[2]
    if is_ki(x):
        v = int(x.args[1])
        try:
            return K(v.to_bytes(n, 'little' if kind[0] == 'l' else 'big', signed=kind[-1] == 'i'))
        except OverflowError:
            return mk('wr', n, kind, x)
    return mk('wr', n, kind, x)


def rd(n, kind, s):
    if s.op == 'wr' and s.args[0] == n and s.args[1] == kind:
        return s.args[2]
    if is_kb(s) and len(s.args[1]) == n:
        return K(int.from_bytes(s.args[1], 'little' if kind[0] == 'l' else 'big', signed=kind[-1] == 'i'))
    if s.weak:
        return weak("rd", s)
    if s.op == 'slice' and kind == 'u' and s.args[0].op == 'wr' and s.args[0].args[1] == 'u' and is_ki(s.args[1]):
        m, _, x = s.args[0].args            # some bytes of a number
        lo = int(s.args[1].args[1])
        if lo + n <= m:
            return mod(fdiv(x, K(256 ** (m - lo - n))), K(256 ** n))
    return mk('rd', n, kind, s)


def blen(t):
    if isk(t) and t.args[0] in 'sb':
        return K(len(t.args[1]))
    if t.op == 'cat':
        r = ZERO
        for p in t.args[1]:
            r = add(r, blen(p))
        return r
    if t.op == 'wr':
        return K(t.args[0])
    if t.op == 'slice':
        lo, hi = t.args[1], t.args[2]
        if hi is NONE:
            return sub(blen(t.args[0]), lo)
        return sub(hi, lo)
    if t.op == 'ite':
        return ite(t.args[0], blen(t.args[1]), blen(t.args[2]))
    if t.op == 'tuple':
        return K(len(t.args[0]))
    if t.op == 'rep':
        return mul(blen(t.args[0]), t.args[1])
    if t.op == 'each':
        it, lid, gate, body = t.args
        l = blen(body)
        return sum_(it, lid, ite(gate, l, ZERO))
    if t.op == 'spread':
        return ite(t.args[0], blen(t.args[1]), ZERO)
    if t.op == 'listt':
        r = ZERO
        for e in t.args[0]:
            if e.op == 'gi':
                r = add(r, ite(e.args[0], ONE, ZERO))
            elif e.op == 'each':
                n = blen(e.args[3].args[0]) if e.args[3].op == 'flat' else ONE
                r = add(r, sum_(e.args[0], e.args[1], ite(e.args[2], n, ZERO)))
            elif e.op == 'spread':
                r = add(r, ite(e.args[0], blen(e.args[1]), ZERO))
            else:
                return mk('blen', t)
        return r
    if t.op in ('rev', 'sorted'):
        return blen(t.args[0])
    if t.op == 'call' and t.args[0] == 'pad':
        return t.args[1]
    if t.weak:
        return weak("len", t)
    return mk('blen', t)


def _cmpk(a, b):
    """compare two positions if the difference is a known constant; else None"""
    d = sub(a, b)
    if is_kn(d):
        return d.args[1]
    return None


def bounds(d):
    """known bounds of a number"""
    if is_kn(d):
        return d.args[1], d.args[1]
    return _range_of(d)


def slice_(base, lo, hi):
    """base[lo:hi] with non-negative positions inside the object (hi NONE = to the end)"""
    if lo is NONE:
        lo = ZERO
    if base.weak or lo.weak or hi.weak:
        return weak("slice", base, lo, hi)
    if is_kn(lo) and lo.args[1] < 0:
        lo = add(blen(base), lo)
    if is_kn(hi) and hi.args[1] < 0:
        hi = add(blen(base), hi)
    if lo is ZERO and hi is NONE:
        return base
    if hi is not NONE and ty(base) in ('s', 'b') and hi is blen(base):
        hi = NONE
        if lo is ZERO:
            return base
    if hi is not NONE:
        d = _cmpk(hi, lo)
        if d is not None and d <= 0 and ty(base) in ('s', 'b'):
            return K('' if ty(base) == 's' else b'')
    if isk(base) and base.args[0] in 'sb' and is_ki(lo) and (hi is NONE or is_ki(hi)):
        return K(base.args[1][int(lo.args[1]):(None if hi is NONE else int(hi.args[1]))])
    if base.op == 'tuple' and is_ki(lo) and (hi is NONE or is_ki(hi)):
        return mk('tuple', base.args[0][int(lo.args[1]):(None if hi is NONE else int(hi.args[1]))])
    if base.op == 'ite':
        return ite(base.args[0], slice_(base.args[1], lo, hi), slice_(base.args[2], lo, hi))
    if base.op == 'slice':
        off = base.args[1]
        nlo = add(off, lo)
        nhi = base.args[2] if hi is NONE else add(off, hi)
        if hi is not NONE and base.args[2] is not NONE:
            d = _cmpk(nhi, base.args[2])
            if d is not None and d > 0:
                nhi = base.args[2]
        return slice_(base.args[0], nlo, nhi)
    if base.op == 'cat':
        r = _slice_cat(base, lo, hi)
        if r is not None:
            return r
    return mk('slice', base, lo, hi)


def _nonneg(x):
    lo = bounds(x)[0]
    return lo is not None and lo >= 0


def _slice_cat(base, lo, hi):
    kind, ps = base.args
    pos = ZERO
    out = []
    started = False
    for i, p in enumerate(ps):
        n = blen(p)
        end = add(pos, n)
        if not started:
            d = _cmpk(lo, pos)
            le, he = bounds(sub(end, lo))
            if he is not None and he <= 0:
                pos = end
                continue
            if d is None:
                ls = bounds(sub(lo, pos))[0]
                if le is None or le < 0 or ls is None or ls < 0:
                    return None
            elif d < 0:
                return None
            start_in = sub(lo, pos)
            started = True
        else:
            start_in = ZERO
        if hi is NONE:
            out.append(slice_(p, start_in, NONE))
            out.extend(ps[i + 1:])
            return cat(kind, out)
        lh, hh = bounds(sub(hi, end))
        if lh is not None and lh >= 0:
            out.append(slice_(p, start_in, NONE))
            if hh == 0:
                return cat(kind, out)
        elif hh is not None and hh < 0:
            out.append(slice_(p, start_in, sub(hi, pos)))
            return cat(kind, out)
        elif i == len(ps) - 1 and _nonneg(sub(hi, pos)):
            out.append(slice_(p, start_in, sub(hi, pos)))
            return cat(kind, out)
        else:
            return None
        pos = end
    if started:
        return cat(kind, out)
    d = _cmpk(lo, pos)
    if d is not None and d >= 0:
        return K('' if kind == 's' else b'')
    return None


def has_op_(e):
    """does the element depend on the passes before it?"""
    todo = [e]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, T):
            if x.op in ('ph', 'mu') or x.weak:
                return True
            todo.extend(x.args)
    return False


def at_element(e, lid, x, n):
    """the term e of a loop body for the element x, which is number n"""
    memo = {}

    def go(y):
        r = memo.get(y)
        if r is None:
            if y.op == 'bv' and y.args[0] == lid:
                r = x
            elif y.op == 'bi' and y.args[0] == lid:
                r = n
            else:
                r = rebuild(y, go)
            memo[y] = r
        return r
    return go(e)


def item(base, k):
    if base.op == 'tuple' and is_ki(k) and -len(base.args[0]) <= k.args[1] < len(base.args[0]):
        return base.args[0][int(k.args[1])]
    if base.weak or k.weak:
        return weak("item", base, k)
    if k.op == 'ite':
        return ite(k.args[0], item(base, k.args[1]), item(base, k.args[2]))
    if base.op == 'ite':
        return ite(base.args[0], item(base.args[1], k), item(base.args[2], k))
    if base.op == 'tuple' and is_ki(k):
        i = int(k.args[1])
        if -len(base.args[0]) <= i < len(base.args[0]):
            return base.args[0][i]
        return weak("index out of range")
    if base.op == 'listt' and is_ki(k):
        i = int(k.args[1])
        es = base.args[0]
        if i >= 0 and len(es) > i and all(e.op == 'gi' and e.args[0] is TRUE for e in es[:i + 1]):
            return es[i].args[1]
        if i < 0 and len(es) >= -i and all(e.op == 'gi' and e.args[0] is TRUE for e in es[i:]):
            return es[i].args[1]
        if len(es) == 1 and es[0].op == 'each' and es[0].args[2] is TRUE and not has_op_(es[0].args[3]):
            # an element of a mapped collection is the mapped element
            it, lid, _, e = es[0].args
            x = add(it.args[0], k) if it.op == 'rng' and i < 0 else k if it.op == 'rng' else item(it, k)
            return at_element(e, lid, x, k if i >= 0 else add(cnt(it), k))
    if base.op == 'dictt':
        for kk, g, v in base.args[0]:
            if kk is k and g is TRUE:
                return v
    if base.op == 'slice' and ty(base) != 'D':
        lo = base.args[1]
        if is_ki(k) and k.args[1] < 0:
            if base.args[2] is NONE:
                return item(base.args[0], k)
            return item(base.args[0], add(base.args[2], k))
        return item(base.args[0], add(lo, k))
    if base.op == 'cat' and is_ki(k) and base.args[1]:
        # inside the constant beginning or end
        end = base.args[1][-1 if k.args[1] < 0 else 0]
        if isk(end) and -len(end.args[1]) <= k.args[1] < len(end.args[1]):
            return item(end, k)
    if isk(base) and base.args[0] in 'sb' and is_ki(k):
        try:
            return K(base.args[1][int(k.args[1])])
        except IndexError:
            return weak("index out of range")
    if ty(base) == 'b' and is_ki(k) and k.args[1] >= 0:
        s = slice_(base, k, add(k, ONE))
        if is_kb(s):
            return K(s.args[1][0])
        if s.op == 'wr' and s.args[0] == 1:
            return s.args[2]
        return rd(1, 'u', s)
    if ty(base) == 's' and is_ki(k) and k.args[1] >= 0 and base.op == 'cat':
        s = slice_(base, k, add(k, ONE))
        if s.op != 'slice':
            return s
    if base.op == 'm' and base.args[0] == 'split' and isk(k) and len(base.args) > 2 and base.args[1].op == 'cat':
        pass
    return mk('item', base, k)


def rep(t, n):
    if isk(t) and is_ki(n) and t.args[0] in 'sb':
        return K(t.args[1] * int(n.args[1]))
    if is_kn(t) or isnum(t):
        return mul(t, n)
    return mk('rep', t, n)


# ------------------------------------------------------------------ loops
def mentions(t, s, _memo=None):
    """does term t contain s (s: a term or a set of terms)?"""
    if _memo is None:
        _memo = {}
    ss = s if isinstance(s, (set, frozenset, dict)) else {s}

    def go(x):
        if isinstance(x, T):
            if x in ss:
                return True
            r = _memo.get(x)
            if r is None:
                r = any(go(a) for a in x.args)
                _memo[x] = r
            return r
        if isinstance(x, tuple):
            return any(go(a) for a in x)
        return False
    return go(t)


BINDERS = {'any', 'sum', 'each', 'sel', 'takewhile', 'lastv'}


def bound_lid(x):
    if x.op in BINDERS:
        return x.args[1]
    if x.op == 'mu':
        return x.args[0]
    return None


def outer_part(x):
    """the parts of a binder term outside the scope of its own variable"""
    if x.op == 'mu':
        return (x.args[4], x.args[7])
    return (x.args[0],)


def has_loop_id(t, lid, _memo=None):
    if _memo is None:
        _memo = {}

    def go(x):
        if isinstance(x, T):
            if x.op in ('bv', 'bi', 'ph') and x.args[0] == lid:
                return True
            r = _memo.get(x)
            if r is None:
                if bound_lid(x) == lid:
                    r = go(outer_part(x))
                else:
                    r = any(go(a) for a in x.args)
                _memo[x] = r
            return r
        if isinstance(x, tuple):
            return any(go(a) for a in x)
        return False
    return go(t)


def canon(t, memo=None):
    """name bound variables by nesting height, so that equal loops are equal terms"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r[0], r[1]
        kids = {}
        h = 0

        def kid(y):
            z, hh = go(y)
            kids[y] = hh
            return z
        z = rebuild(x, kid)
        lid = bound_lid(z)
        if lid is None and not kids:
            res = (z, 0)
        elif lid is None:
            res = (z, max(kids.values()))
        else:
            # height of the body only
            inner = 0
            first = x.args[4] if x.op == 'mu' else x.args[0]
            outs = [first] + (list(x.args[7]) if x.op == 'mu' else [])
            oh = max([kids.get(o, 0) for o in outs if isinstance(o, T)] or [0])
            for y, hh in kids.items():
                if y not in outs:
                    inner = max(inner, hh)
            n = inner + 1
            new = "c%d" % n
            if lid != new:
                z = _rebind(z, lid, new)
            res = (z, max(n, oh))
        memo[x] = res
        return res
    return go(t)[0]


def _rebind(z, old, new):
    if z.op == 'mu':
        ren = lambda y: rename_loop(y, old, new) if isinstance(y, T) else tuple(ren(q) for q in y)
        a = z.args
        return mk('mu', new, a[1], a[2], a[3], a[4], ren(a[5]), ren(a[6]), a[7], ren(a[8]))
    a = z.args
    rest = tuple(rename_loop(y, old, new) if isinstance(y, T) else y for y in a[2:])
    return mk(z.op, a[0], new, *rest)


def any_(it, lid, c):
    if c is FALSE:
        return FALSE
    if not has_loop_id(c, lid):
        return and_(c, iter_nonempty(it))
    return mk('any', it, lid, c)


def iter_nonempty(it):
    if it.op == 'rng':
        return not_(cmp_le(it.args[0], ZERO, False))
    return truth(it)


def sum_(it, lid, e):
    if e is ZERO or it.op == 'rng' and is_kn(it.args[0]) and it.args[0].args[1] <= 0:
        return ZERO
    # linear: split constants
    if not has_loop_id(e, lid):
        return mul(e, cnt(it))
    d = lin(e)
    if len(d) > 1 or (len(d) == 1 and list(d.values())[0] != 1):
        r = ZERO
        for m, c in d.items():
            inv = [(a, x) for a, x in m if not has_loop_id(a, lid)]
            dep = [(a, x) for a, x in m if has_loop_id(a, lid)]
            depterm = unlin({tuple(dep): Fraction(1)})
            f = unlin({tuple(inv): c})
            if not dep:
                r = add(r, mul(f, cnt(it)))
            else:
                r = add(r, mul(f, _sum1(it, lid, depterm)))
        return r
    return _sum1(it, lid, e)


def _sum1(it, lid, e):
    if e.op == 'bi' and e.args[0] == lid:
        n = cnt(it)
        return div(mul(n, sub(n, ONE)), K(2))
    if e.op == 'ite' and not has_loop_id(e.args[0], lid):
        return ite(e.args[0], sum_(it, lid, e.args[1]), sum_(it, lid, e.args[2]))
    return mk('sum', it, lid, e)


def cnt(it):
    if it.op == 'rng':
        n = it.args[0]
        if is_kn(n) and n.args[1] < 0:
            return ZERO
        return n
    if it.op == 'takewhile':
        return mk('cnt', it)
    return blen(it)


# ------------------------------------------------------------------ rebuilding
def rebuild(t, f):
    """apply f to the children and rebuild with smart constructors"""
    op = t.op
    a = t.args
    if op in ('k', 'var', 'undef', 'bv', 'bi', 'ref', 'fn', 'cls', 'mod', 'clo'):
        return t
    if op == 'p':
        d = {}
        for m, c in a[0]:
            x = K(c)
            for at, e in m:
                y = f(at)
                if e > 0:
                    for _ in range(e):
                        x = mul(x, y)
                else:
                    for _ in range(-e):
                        x = div(x, y)
                if x is ZERO:
                    break
            if x.weak:
                return weak("p", x)
            lin_addto(d, lin(x))
        return unlin(d)
    if op == 'fdiv':
        return fdiv(f(a[0]), f(a[1]))
    if op in ('band', 'bor', 'bxor', 'shl', 'shr'):
        return bitop(op, f(a[0]), f(a[1]))
    if op == 'pow':
        return power(f(a[0]), f(a[1]))
    if op == 'not':
        return not_(f(a[0]))
    if op == 'and':
        return and_(*[f(x) for x in a[0]])
    if op == 'or':
        return or_(*[f(x) for x in a[0]])
    if op == 'ite':
        c = f(a[0])
        if c is TRUE:
            return f(a[1])
        if c is FALSE:
            return f(a[2])
        return ite(c, f(a[1]), f(a[2]))
    if op == 'le':
        return cmp_le(f(a[0]), a[1], False)
    if op == 'lt':
        return cmp_le(f(a[0]), a[1], True)
    if op == 'eqn':
        return eq(f(a[0]), a[1])
    if op == 'eqv':
        return eq(f(a[0]), f(a[1]))
    if op == 'isnone':
        return isnone(f(a[0]))
    if op == 'truthy':
        return truth(f(a[0]))
    if op == 'in':
        return in_(f(a[0]), f(a[1]))
    if op == 'cat':
        return cat(a[0], [f(x) for x in a[1]])
    if op == 'conv':
        x = f(a[1])
        return x if x.weak else conv(a[0] if a[0] != 'd' else 'd', x)
    if op == 'wr':
        return wr(a[0], a[1], f(a[2]))
    if op == 'rd':
        return rd(a[0], a[1], f(a[2]))
    if op == 'blen':
        return blen(f(a[0]))
    if op == 'slice':
        return slice_(f(a[0]), f(a[1]), f(a[2]))
    if op == 'item':
        return item(f(a[0]), f(a[1]))
    if op == 'rep':
        return rep(f(a[0]), f(a[1]))
    if op == 'any':
        return any_(f(a[0]), a[1], f(a[2]))
    if op == 'sum':
        return sum_(f(a[0]), a[1], f(a[2]))
    if op == 'cnt':
        return cnt(f(a[0]))
    if op == 'mu' and a[4].op == 'rng':
        it = f(a[4])
        if it.op == 'rng' and is_kn(it.args[0]) and it.args[0].args[1] <= 0:
            return f(a[7][0])           # no pass through the loop
    if op == 'raises':
        x = f(a[1])
        return FALSE if isk(x) else mk('raises', a[0], x)
    if op == 'gi':
        return mk('gi', f(a[0]), f(a[1]))
    if op == 'listt':
        return listt([f(x) for x in a[0]])
    if op == 'attr':
        b = f(a[0])
        if b.op == 'ite':
            return ite(b.args[0], mk('attr', b.args[1], a[1]), mk('attr', b.args[2], a[1]))
        return mk('attr', b, a[1])

    def go(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    return mk(op, *[go(x) for x in a])


def listt(entries):
    out = []
    for e in entries:
        if e.op == 'gi' and e.args[0] is FALSE:
            continue
        if e.op == 'each' and e.args[2] is FALSE:
            continue
        if e.op == 'each' and e.args[2] is TRUE and e.args[3].op == 'bv' and e.args[3].args[0] == e.args[1] and \
                ty(e.args[0]) == 'L' and e.args[0].op in ('mu', 'ph'):
            e = mk('spread', TRUE, e.args[0])       # the elements themselves
        if e.op == 'spread':
            g, s = e.args
            if g is FALSE:
                continue
            if s.op == 'listt' and g is TRUE:
                out.extend(s.args[0])
                continue
            if s.op == 'tuple':
                out.extend(mk('gi', g, x) for x in s.args[0])
                continue
        out.append(e)
    if len(out) == 1 and out[0].op == 'spread' and out[0].args[0] is TRUE:
        return out[0].args[1]
    return mk('listt', tuple(out))


def subst(t, m, memo=None):
    """replace terms by terms (simultaneously), re-normalising"""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


def rename_loop(t, old, new, memo=None):
    """rename the free binder variable old to new inside t"""
    if memo is None:
        memo = {}

    def goa(x):
        if isinstance(x, T):
            return go(x)
        if isinstance(x, tuple):
            return tuple(goa(y) for y in x)
        return x

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op in ('bv', 'bi', 'ph') and x.args[0] == old:
                r = mk(x.op, new, *x.args[1:])
            elif bound_lid(x) == old:
                if x.op == 'mu':
                    a = x.args
                    r = mk('mu', *(a[:4] + (go(a[4]),) + a[5:7] + (goa(a[7]),) + a[8:]))
                else:
                    r = mk(x.op, go(x.args[0]), *x.args[1:])
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r
    return go(t)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth < 0:
        return ".."
    op, a = t.op, t.args
    d = depth - 1
    if op == 'k':
        return str(a[1]) if a[0] == 'n' else repr(a[1])
    if op == 'var':
        return a[0]
    if op == 'attr':
        return "%s.%s" % (show(a[0], d), a[1])
    if op == 'item':
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if op == 'slice':
        return "%s[%s:%s]" % (show(a[0], d), show(a[1], d), "" if a[2] is NONE else show(a[2], d))
    if op == 'p':
        out = []
        for m, c in a[0]:
            ms = "*".join(show(x, d) + ("^%d" % e if e != 1 else "") for x, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append("-" + ms)
            else:
                out.append("%s*%s" % (c, ms))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if op == 'fdiv':
        return "(%s // %s)" % (show(a[0], d), show(a[1], d))
    if op == 'le':
        return "%s <= %s" % (show(a[0], d), show(a[1], d))
    if op == 'lt':
        return "%s < %s" % (show(a[0], d), show(a[1], d))
    if op in ('eqn', 'eqv'):
        return "%s == %s" % (show(a[0], d), show(a[1], d))
    if op == 'not':
        return "not(%s)" % show(a[0], d)
    if op in ('and', 'or'):
        return "(" + (" %s " % op).join(show(x, d) for x in a[0]) + ")"
    if op == 'ite':
        return "(%s if %s else %s)" % (show(a[1], d), show(a[0], d), show(a[2], d))
    if op == 'cat':
        return "{" + " . ".join(show(x, d) for x in a[1]) + "}"
    if op == 'gi':
        return show(a[1], d) if a[0] is TRUE else "%s?%s" % (show(a[0], d), show(a[1], d))
    if op == 'listt':
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if op == 'm':
        return "%s.%s(%s)" % (show(a[1], d), a[0], ", ".join(show(x, d) for x in a[2:]))
    if op == 'call':
        return "%s(%s)" % (a[0], ", ".join(show(x, d) for x in a[1:]))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in a))
