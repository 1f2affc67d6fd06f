"""Equality of value terms by case analysis over the conditions they contain.

A region is a conjunction of facts over condition atoms: intervals for linear directions, equalities and exclusions
for terms, truth values for opaque conditions.  In each region both terms are re-normalised; equality is congruence on
the normal forms (loops by matching their transfer functions).  Regions that are contradictory in linear arithmetic
are dropped (Fourier-Motzkin elimination on the interval facts).  Result: EQ, NE (with the region and the differing
normal forms) or UNK (the analysis lost the value, or the budget ran out); only NE is ever reported.
"""
from fractions import Fraction
import itertools
import math

from . import terms as t
from .terms import T, K, NONE, TRUE, FALSE, mk, isk, is_kn, is_ks


class Facts(object):
    __slots__ = ("iv", "subm", "bools", "excl", "key")

    def __init__(self):
        self.iv = {}       # direction -> (lo, hi)   inclusive ints or (value, strict)
        self.subm = {}     # term -> term
        self.bools = {}    # atom -> bool
        self.excl = {}     # term -> frozenset of excluded constants

    def copy(self):
        f = Facts()
        f.iv = dict(self.iv)
        f.subm = dict(self.subm)
        f.bools = dict(self.bools)
        f.excl = dict(self.excl)
        return f

    def show(self):
        out = []
        for d, (lo, ls, hi, hs) in self.iv.items():
            if lo is not None and hi is not None and lo == hi:
                out.append("%s = %s" % (t.show(d), lo))
                continue
            if lo is not None:
                out.append("%s %s %s" % (t.show(d), ">" if ls else ">=", lo))
            if hi is not None:
                out.append("%s %s %s" % (t.show(d), "<" if hs else "<=", hi))
        for a, b in self.subm.items():
            out.append("%s = %s" % (t.show(a), t.show(b)))
        for a, v in self.bools.items():
            out.append(t.show(a) if v else "not " + t.show(a))
        for a, ks in self.excl.items():
            out.append("%s not in %s" % (t.show(a), [t.show(k) for k in ks]))
        return sorted(out)


def decide(c, f):
    """truth of a condition atom under facts, or None"""
    op = c.op
    v = f.bools.get(c)
    if v is not None:
        return v
    if op in ('le', 'lt', 'eqn'):
        d, k = c.args[0], c.args[1].args[1]
        iv = f.iv.get(d)
        if iv is not None:
            lo, ls, hi, hs = iv
            if op == 'eqn':
                if lo is not None and hi is not None and lo == hi == k:
                    return True
                if lo is not None and (lo > k or (lo == k and ls)):
                    return False
                if hi is not None and (hi < k or (hi == k and hs)):
                    return False
            else:
                strict = op == 'lt'
                if hi is not None:
                    if hi < k or (hi == k and (not strict or hs)):
                        return True
                if lo is not None:
                    if lo > k or (lo == k and (strict or ls)):
                        return False
        if op == 'eqn' and K(k) in f.excl.get(d, ()):
            return False
        return None
    if op == 'eqv':
        a, b = c.args
        if isk(a):
            a, b = b, a
        if b in f.excl.get(a, ()):
            return False
        return None
    if op == 'truthy':
        # no text, bytes or collection is empty and true
        n = f.iv.get(mk('blen', c.args[0]))
        if n is not None and n[0] is not None and (n[0] > 0 or n[0] == 0 and n[1]):
            return True
        if n is not None and n[2] is not None and n[2] <= 0:
            return False
        return None
    if op == 'any':
        # some element satisfies a narrower condition / none satisfies a wider one
        it, lid, g = c.args
        for o, val in f.bools.items():
            if o.op == 'any' and o.args[0] is it:
                h = t.rename_loop(o.args[2], o.args[1], lid) if o.args[1] != lid else o.args[2]
                a, b = (h, g) if val else (g, h)
                e = assume(Facts(), a, True)
                if e is None or assume(e, simp(b, e), False) is None:
                    return val
    return None


def assume(f, c, val):
    """facts extended with condition c = val, or None if contradictory"""
    if c is TRUE or c is FALSE:
        return f if (c is TRUE) == val else None
    if c.op == 'not':
        return assume(f, c.args[0], not val)
    if (c.op == 'and' and val) or (c.op == 'or' and not val):
        for x in c.args[0]:
            f = assume(f, simp(x, f), val)
            if f is None:
                return None
        return f
    if c.op in ('and', 'or', 'ite'):
        f = f.copy()
        f.bools[c] = val
        return f
    d = decide(c, f)
    if d is not None:
        return f if d == val else None
    f = f.copy()
    op = c.op
    if op in ('le', 'lt', 'eqn'):
        dr, k = c.args[0], c.args[1].args[1]
        lo, ls, hi, hs = f.iv.get(dr, (None, False, None, False))
        isint = t.ty(dr) == 'i'
        if op == 'eqn':
            if val:
                f.iv[dr] = (k, False, k, False)
                _substitute(f, dr, k)
                return f
            f.excl[dr] = f.excl.get(dr, frozenset()) | {K(k)}
            if isint:
                if lo is not None and lo == k:
                    lo = k + 1
                if hi is not None and hi == k:
                    hi = k - 1
                while lo is not None and K(lo) in f.excl.get(dr, ()):
                    lo += 1
                while hi is not None and K(hi) in f.excl.get(dr, ()):
                    hi -= 1
        else:
            strict = op == 'lt'
            if val:
                if hi is None or k < hi or (k == hi and strict):
                    hi, hs = k, strict
            else:
                if isint:
                    k2, st2 = (k + 1, False)
                else:
                    k2, st2 = (k, not strict)
                if lo is None or k2 > lo or (k2 == lo and st2):
                    lo, ls = k2, st2
            if isint:
                while lo is not None and K(lo) in f.excl.get(dr, ()):
                    lo += 1
                while hi is not None and K(hi) in f.excl.get(dr, ()):
                    hi -= 1
        if lo is None or hi is None:
            tl, th = t._range_of(dr)
            if lo is None and tl is not None:
                lo, ls = tl, False
            if hi is None and th is not None:
                hi, hs = th, False
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return None
        f.iv[dr] = (lo, ls, hi, hs)
        if lo is not None and lo == hi:
            _substitute(f, dr, lo)
        return f
    if op == 'eqv':
        a, b = c.args
        if isk(a):
            a, b = b, a
        if val:
            f.subm[a] = b
        else:
            if isk(b):
                f.excl[a] = f.excl.get(a, frozenset()) | {b}
            f.bools[c] = False
        return f
    if op == 'isnone':
        if val:
            f.subm[c.args[0]] = NONE
        f.bools[c] = val
        return f
    if op == 'truthy':
        x = c.args[0]
        f.bools[c] = val
        if t.ty(x) not in ('i', 'n', 'B') and mk('blen', x) not in f.iv and t.blen(x).op == 'blen':
            f.iv[t.blen(x)] = (1, False, None, False) if val else (0, False, 0, False)
        if not val and t.ty(x) in ('s', 'b'):
            f.subm[x] = K('' if t.ty(x) == 's' else b'')
        return f
    if op == 'isinst' and val:
        # an object has one of the basic types only
        for o in BASIC:
            if o != c.args[1]:
                f.bools[mk('isinst', c.args[0], o)] = False
    f.bools[c] = val
    return f


BASIC = ('bytes', 'str', 'dict', 'int', 'float', 'tuple', 'list', 'ChunkedSegment')


def _substitute(f, dr, k):
    d = t.lin(dr)
    # choose an atom that occurs once, linearly, with coefficient +-1
    for m, c in sorted(d.items(), key=lambda x: (x[0][0][0].op != 'item', x[0][0][0].key) if x[0] else (True, b'')):
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            if a.op in ('fdiv', 'ite', 'sum', 'mu', 'rd') and len(d) > 1:
                continue
            rest = {mm: cc for mm, cc in d.items() if mm != m}
            others = t.unlin(rest)
            if t.mentions(others, a):
                continue
            # c*a + rest = k
            val = t.sub(K(k), others)
            if c == -1:
                val = t.neg(val)
            f.subm[a] = val
            return


def simp(x, f, memo=None):
    if memo is None:
        memo = {}
    subm = f.subm

    def go(y):
        r = memo.get(y)
        if r is not None:
            return r
        if y in subm:
            r = go(subm[y])
            memo[y] = r
            return r
        op = y.op
        if op == 'ite':
            c = go(y.args[0])
            if c is TRUE:
                r = go(y.args[1])
            elif c is FALSE:
                r = go(y.args[2])
            else:
                r = t.ite(c, go(y.args[1]), go(y.args[2]))
        elif op in ('sum', 'each', 'sel', 'mu', 'takewhile', 'lastv'):
            r = t.rebuild(y, go)
        else:
            r = t.rebuild(y, go)
            if r.op in t.BOOLOPS and r.op not in ('and', 'or', 'not'):
                v = decide(r, f)
                if v is None and r is not y and r in subm:
                    pass
                if v is not None:
                    r = K(v)
            elif r is not y and r in subm:
                r = go(subm[r])
        memo[y] = r
        return r
    return go(x)


# ------------------------------------------------------------------ finding a condition to split on
def find_cond(x, seen):
    """an undecided condition atom of term x outside loop bodies, or None"""
    if x in seen:
        return None
    seen.add(x)
    op = x.op
    if op == 'ite':
        r = _atom(x.args[0], seen)
        if r is not None:
            return r
    if op in t.BOOLOPS:
        r = _atom(x, seen)
        if r is not None:
            return r
    if op in t.BINDERS:
        return find_cond(x.args[0], seen)
    if op == 'mu':
        return None
    for a in _kids(x):
        r = find_cond(a, seen)
        if r is not None:
            return r
    return None


def _kids(x):
    def go(a):
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                for c in go(b):
                    yield c
    for a in x.args:
        for b in go(a):
            yield b


def _atom(c, seen):
    """a splittable atom inside condition c, preferring nested conditions"""
    if c.op in ('and', 'or'):
        for x in c.args[0]:
            r = _atom(x, seen)
            if r is not None:
                return r
        return None
    if c.op == 'not':
        return _atom(c.args[0], seen)
    if c is TRUE or c is FALSE:
        return None
    if c.op == 'ite':
        return find_cond(c, seen)
    if c.weak:
        return None
    # conditions inside the atom first
    for a in _kids(c):
        r = find_cond(a, seen) if c.op not in ('any',) else None
        if r is not None:
            return r
    return c


# ------------------------------------------------------------------ linear infeasibility
def infeasible(f, extra=()):
    cons = []   # list of (dict mono->coef, const, strict): sum + const <= 0 (or < 0)

    def addc(d, c, strict):
        cons.append((d, c, strict))
    atoms = set()
    items = list(f.iv.items())
    for d, (lo, ls, hi, hs) in items:
        l = t.lin(d)
        c0 = l.pop((), Fraction(0))
        if hi is not None:
            addc(dict(l), c0 - hi, hs)
        if lo is not None:
            addc({m: -c for m, c in l.items()}, lo - c0, ls)
        for m in l:
            for a, _ in m:
                atoms.add((a, m))
    for a, b in f.subm.items():
        if t.isnum(a) and (t.isnum(b) or is_kn(b)):
            l = t.lin(t.sub(a, b))
            c0 = l.pop((), Fraction(0))
            if l:
                addc(dict(l), c0, False)
                addc({m: -c for m, c in l.items()}, -c0, False)
                for m in l:
                    for x, _ in m:
                        atoms.add((x, m))
    for g in extra:
        addc(*g)
    done = set()
    for a, m in list(atoms):
        if a in done:
            continue
        done.add(a)
        if a.op == 'fdiv':
            v = simp(a, f) if f.subm else a
            if v is not a and is_kn(v):
                addc({((a, 1),): Fraction(1)}, -v.args[1], False)
                addc({((a, 1),): Fraction(-1)}, v.args[1], False)
            # y*q <= x < y*q + y for y > 0 (y constant)
            if is_kn(a.args[1]) and a.args[1].args[1] > 0:
                y = a.args[1].args[1]
                l = t.lin(t.sub(t.mul(K(y), a), a.args[0]))
                c0 = l.pop((), Fraction(0))
                addc(dict(l), c0, False)
                addc({mm: -c for mm, c in l.items()}, -c0 - y, not t.isint(a.args[0]))
                if t.isint(a.args[0]):
                    cons[-1] = (cons[-1][0], -c0 - y + 1, False)
            elif t.isnum(a.args[1]) and len(t.lin(a.args[1])) == 1 and t.isnum(a.args[0]):
                # q <= x/y < q + 1
                l = dict(t.lin(t.sub(a, t.div(a.args[0], a.args[1]))))
                c0 = l.pop((), Fraction(0))
                addc(l, c0, False)
                addc({mm: -c for mm, c in l.items()}, -c0 - 1, True)
        lo, hi = t._range_of(a)
        if lo is not None:
            addc({((a, 1),): Fraction(-1)}, lo, False)
        if hi is not None:
            addc({((a, 1),): Fraction(1)}, -hi, False)
    if _fm(cons):
        return True
    if not extra:
        for a, ks in f.excl.items():        # forced to a value that is excluded
            if not t.isnum(a):
                continue
            l = t.lin(a)
            c0 = l.pop((), Fraction(0))
            neg = {m: -c for m, c in l.items()}
            for k in ks:
                if is_kn(k) and l and infeasible(f, [(l, c0 - k.args[1], True)]) and infeasible(f, [(neg, k.args[1] - c0, True)]):
                    return True
    return False


NUMERIC = ('p', 'k', 'var', 'fdiv', 'mod', 'item', 'call', 'attr')


def same_number(f, a, b):
    """do the linear facts force a = b?"""
    if not any(lo is not None and lo == hi for lo, _, hi, _ in f.iv.values()):
        return False
    d = t.lin(t.sub(a, b))
    c = d.pop((), Fraction(0))
    if not d:
        return False
    return infeasible(f, [(d, c, True)]) and infeasible(f, [({m: -x for m, x in d.items()}, -c, True)])


def untrimmed(x, f):
    """x[i:n] is x[i:] if the facts say that x is not longer than n"""
    if x.op == 'slice':
        b, lo, hi = x.args
        n = t.blen(b)
        if hi is not NONE and t.isnum(hi) and not n.weak and same_number(f, hi, n):
            hi = NONE
        if hi is NONE and lo is t.ZERO:
            return b
        if hi is not x.args[2]:
            return t.slice_(b, lo, NONE)
    return x


def _row(d, c, s):
    d = {m: k for m, k in d.items() if k}
    if d:
        sc = max(abs(k) for k in d.values())
        d = {m: k / sc for m, k in d.items()}
        c = c / sc
    return (tuple(sorted(d.items(), key=lambda x: [(q.key, e) for q, e in x[0]])), c, s)


def _solved(cons):
    """the constraints with their equalities solved for one quantity each and put into the others"""
    while True:
        cons = {_row(dict(d), c, s) for d, c, s in cons}
        eqn = None
        for d, c, s in cons:
            if d and not s and (tuple((m, -k) for m, k in d), -c, False) in cons:
                eqn = (d, c)
                break
        if eqn is None:
            return list(cons)
        d, c = eqn
        m, k = d[0]
        sol = {mm: -kk / k for mm, kk in d[1:]}         # m = sol + c0
        c0 = -c / k
        out = []
        for dd, cc, s in cons:
            e = dict(dd)
            f = e.pop(m, None)
            if f is not None:
                for mm, kk in sol.items():
                    e[mm] = e.get(mm, 0) + f * kk
                cc = cc + f * c0
            e = {mm: kk for mm, kk in e.items() if kk}
            if e or cc > 0 or (cc == 0 and s):
                out.append((tuple(e.items()), cc, s))
        cons = out


def _fm(cons):
    cons = [(tuple(sorted(d.items(), key=lambda x: [(a.key, e) for a, e in x[0]])), c, s) for d, c, s in cons]
    for _ in range(60):
        for d, c, s in cons:
            if not d and (c > 0 or (c == 0 and s)):
                return True
        cons = _solved(cons)
        for d, c, s in cons:
            if not d and (c > 0 or (c == 0 and s)):
                return True
        vs = {}
        for d, c, s in cons:
            for m, k in d:
                p, n = vs.get(m, (0, 0))
                vs[m] = (p + (k > 0), n + (k < 0))
        if not vs:
            return False
        free = {m for m, (p, n) in vs.items() if not p or not n}
        if free:            # unbounded on one side: nothing follows from these
            cons = [x for x in cons if not any(m in free for m, _ in x[0])]
            continue
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1])
        pos = [(dict(d), c, s) for d, c, s in cons if dict(d).get(m, 0) > 0]
        ngs = [(dict(d), c, s) for d, c, s in cons if dict(d).get(m, 0) < 0]
        rest = {x for x in cons if not dict(x[0]).get(m, 0)}
        if len(pos) * len(ngs) > 400:
            return False
        for d1, c1, s1 in pos:
            for d2, c2, s2 in ngs:
                a, b = d1[m], -d2[m]
                d = {}
                for mm, k in d1.items():
                    d[mm] = d.get(mm, 0) + k * b
                for mm, k in d2.items():
                    d[mm] = d.get(mm, 0) + k * a
                d = {mm: k for mm, k in d.items() if k}
                c = c1 * b + c2 * a
                if d:
                    sc = max(abs(k) for k in d.values())
                    d = {mm: k / sc for mm, k in d.items()}
                    c = c / sc
                rest.add((tuple(sorted(d.items(), key=lambda x: [(q.key, e) for q, e in x[0]])), c, s1 or s2))
        cons = list(rest)
        if len(cons) > 600:
            return False
    return False


def satisfiable(f, depth=10):
    """can the compound conditions among the facts hold together with the rest? (case split on their atoms)"""
    pend = None
    for c, v in f.bools.items():
        if c.op not in ('and', 'or', 'ite'):
            continue
        x = simp(c, f)
        if x is TRUE or x is FALSE:
            if (x is TRUE) != v:
                return False
        elif not x.weak:
            pend = pend or x
    if pend is None or depth == 0:
        return True
    c = find_cond(pend, set())
    if c is None:
        return True
    for v in (True, False):
        g = assume(f, c, v)
        if g is not None and not infeasible(g) and satisfiable(g, depth - 1):
            return True
    return False


# ------------------------------------------------------------------ equality
EQ, NE, UNK = "equal", "different", "unknown"


class Budget(Exception):
    pass


class Comparer(object):
    def __init__(self, loops, budget=40000, norm=None):
        self.loops = loops          # loop id -> Loop
        self.budget = budget
        self.nodes = 0
        self.leaves = 0
        self.mism = None
        self.dubious = None
        self.quiet = 0
        self.extra_a = self.extra_b = frozenset()
        self.known = ()             # terms both sides may use although the reference value does not contain them
        self.more_atoms = False
        self.norm = norm            # optional extra leaf normalisation term -> term
        self.fresh = itertools.count(1)

    def equal(self, a, b, facts=None):
        """compare; returns (status, witness)"""
        self.mism = None
        self.dubious = None
        f = facts or Facts()
        try:
            memo = {}
            a, b = t.canon(a, memo), t.canon(b, memo)
            self.vocab(a, b)
            r = self._cmp(a, b, f)
        except Budget:
            return UNK, "case budget exhausted"
        except RecursionError:
            return UNK, "recursion"
        return r, self.mism

    # a difference counts only when both sides speak the same language: every function, input and loop that the
    # differing region or value depends on must be known to the other side too, or have no possible counterpart there
    def vocab(self, a, b):
        known = set()
        for x in self.known:
            known |= heads(x)
        ha, hb = heads(a) | known, heads(b) | known
        self.extra_a, self.extra_b = ha - hb, hb - ha
        self.more_atoms = bool(atoms(a) - atoms(b))

    def plausible(self, f, a, b):
        if not self.extra_a and not self.extra_b:
            return True
        used = heads(a) | heads(b)
        for x in list(f.iv) + list(f.bools) + list(f.excl):
            used |= heads(x)
        for x, y in f.subm.items():
            used |= heads(x) | heads(y)
        bad = used & self.extra_a
        if bad and bad <= ALTERING and self.extra_b.isdisjoint(used):
            # the same value as the reference, put through a library function that alters texts or lists
            x = unaltered(a)
            if x is not a and not heads(x) & bad and self._leaf_cmp_quiet(x, b, f) == EQ:
                return True
        if bad:
            self.dubious = self.dubious or "not in the reference vocabulary: %s" % sorted(map(str, bad))[:4]
            return False
        bad = used & self.extra_b
        if bad and (self.extra_a or self.more_atoms):
            self.dubious = self.dubious or "reference vocabulary not used: %s" % sorted(map(str, bad))[:4]
            return False
        return True

    def _tick(self):
        self.nodes += 1
        if self.nodes > self.budget:
            raise Budget()

    def _cmp(self, a, b, f):
        self._tick()
        memo = {}
        a = simp(a, f, memo)
        b = simp(b, f, memo)
        if a is b:
            self.leaves += 1
            return EQ
        seen = set()
        c = find_cond(a, seen)
        if c is None:
            c = find_cond(b, seen)
        if c is not None:
            res = EQ
            for v in (True, False):
                g = assume(f, c, v)
                if g is None:
                    continue
                if (g.iv or g.subm) and len(g.iv) + len(g.subm) > 1 and self.nodes % 4 == 0 and infeasible(g):
                    continue
                r = self._cmp(a, b, g)
                if r == NE:
                    return NE
                if r == UNK:
                    res = UNK
            return res
        r = self._leaf(a, b, f)
        if r == NE:
            if infeasible(f) or not satisfiable(f):
                return EQ
            if self.quiet == 0 and not self.plausible(f, a, b):
                return UNK
            if self.mism is None:
                self.mism = (f.show(), t.show(a), t.show(b))
            return NE
        self.leaves += 1
        return r

    # congruence on normal forms without undecided conditions outside loop bodies
    def _leaf(self, a, b, f):
        r = self._leaf1(a, b, f)
        if r == NE and a.op in NUMERIC and b.op in NUMERIC and t.isnum(a) and t.isnum(b) and same_number(f, a, b):
            return EQ
        if r == NE and 'slice' in (a.op, b.op):
            x, y = untrimmed(a, f), untrimmed(b, f)
            if x is not a or y is not b:
                return self._leaf1(x, y, f)
        return r

    def _leaf1(self, a, b, f):
        if a is b or a.op == 'any*' or b.op == 'any*':
            return EQ
        if a.weak or b.weak:
            return UNK
        if self.norm is not None:
            a, b = self.norm(a), self.norm(b)
            if a is b:
                return EQ
        if a.op != b.op:
            return self._opdiff(a, b, f)
        op = a.op
        if op in t.BINDERS:
            return self._binder(a, b, f)
        if op == 'mu':
            return self._mu(a, b, f)
        if op == 'p':
            return self._poly(a, b, f)
        if op in ('listt', 'cat'):
            x = a.args[0] if op == 'listt' else a.args[1]
            y = b.args[0] if op == 'listt' else b.args[1]
            if op == 'cat' and a.args[0] != b.args[0]:
                return NE
            return self._seq(x, y, f)
        if len(a.args) != len(b.args):
            return NE
        res = EQ
        for x, y in zip(a.args, b.args):
            r = self._arg(x, y, f)
            if r == NE:
                return NE
            if r == UNK:
                res = UNK
        return res

    def _arg(self, x, y, f):
        if isinstance(x, T) and isinstance(y, T):
            if x is y:
                return EQ
            if find_cond(x, set()) is not None or find_cond(y, set()) is not None:
                return self._cmp(x, y, f)
            return self._leaf(x, y, f)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return NE
            res = EQ
            for p, q in zip(x, y):
                r = self._arg(p, q, f)
                if r == NE:
                    return NE
                if r == UNK:
                    res = UNK
            return res
        return EQ if x == y else NE

    def _seq(self, xs, ys, f):
        if len(xs) != len(ys):
            if any(x.weak for x in xs) or any(y.weak for y in ys):
                return UNK
            return NE
        res = EQ
        for x, y in zip(xs, ys):
            r = self._arg(x, y, f)
            if r == NE:
                return NE
            if r == UNK:
                res = UNK
        return res

    def _opdiff(self, a, b, f):
        # a 'mu' against a closed form: the loop summary was not strong enough to tell
        for x in (a, b):
            if has_op(x, ('mu', 'ph')):
                return UNK
        if a.op == 'p' or b.op == 'p':
            return self._poly(a, b, f)
        return NE

    def _poly(self, a, b, f):
        """different polynomials: equal if their atoms can be matched by congruence"""
        la, lb = t.lin(a), t.lin(b)
        d = dict(la)
        t.lin_addto(d, lb, -1)
        if not d:
            return EQ
        atoms_a = [x for m in la for x, _ in m]
        atoms_b = [x for m in lb for x, _ in m]
        onlya = [x for x in dict.fromkeys(atoms_a) if x not in atoms_b]
        onlyb = [x for x in dict.fromkeys(atoms_b) if x not in atoms_a]
        if any(x.weak for x in onlya + onlyb):
            return UNK
        m = {}
        res = EQ
        if onlya and len(onlya) == len(onlyb):
            used = set()
            for x in onlya:
                for y in onlyb:
                    if y in used or y.op != x.op:
                        continue
                    r = self._leaf_quiet(x, y, f)
                    if r == EQ:
                        m[x] = y
                        used.add(y)
                        break
                    if r == UNK:
                        res = UNK
            if len(m) == len(onlya):
                aa = t.subst(a, m)
                return EQ if aa is b or not t.lin(t.sub(aa, b)) else NE
        if res == UNK:
            return UNK
        if any(has_op(x, ('mu', 'ph')) for x in onlya + onlyb) and (len(onlya) != len(onlyb)):
            return UNK
        return NE

    def _leaf_quiet(self, x, y, f):
        keep = self.mism
        self.quiet += 1
        r = self._arg(x, y, f)
        self.quiet -= 1
        self.mism = keep
        return r

    def _binder(self, a, b, f):
        ia, la = a.args[0], a.args[1]
        ib, lb = b.args[0], b.args[1]
        r = self._arg(ia, ib, f)
        if r != EQ:
            return r
        new = "b%d" % next(self.fresh)
        res = EQ
        for x, y in zip(a.args[2:], b.args[2:]):
            if not isinstance(x, T):
                if x != y:
                    return NE
                continue
            x2, y2 = t.rename_loop(x, la, new), t.rename_loop(y, lb, new)
            # element terms of equal-but-not-identical iterables are the same variable after renaming
            r = self._cmp(x2, y2, f)
            if r == NE:
                return NE
            if r == UNK:
                res = UNK
        return res

    def _mu(self, a, b, f):
        la, _, _, kinda, ita, conda, tagsa, inita, nexta = a.args
        lb, _, _, kindb, itb, condb, tagsb, initb, nextb = b.args
        if kinda != kindb or len(tagsa) != len(tagsb) or len(tagsa) > 5:
            return UNK
        r = self._arg(ita, itb, f)
        if r != EQ:
            return r
        n = len(tagsa)
        worst = NE
        for perm in itertools.permutations(range(1, n)):
            order = (0,) + perm
            new = "m%d" % next(self.fresh)
            ma = {p: mk('ph', new, "k%d" % i, p.args[2]) for i, p in enumerate(tagsa)}
            mb = {tagsb[j]: mk('ph', new, "k%d" % i, tagsa[i].args[2]) for i, j in enumerate(order)}
            ok = EQ
            for i, j in enumerate(order):
                r = self._leaf_cmp_quiet(inita[i], initb[j], f)
                if r == EQ:
                    r = self._leaf_cmp_quiet(t.rename_loop(t.subst(nexta[i], ma), la, new),
                                             t.rename_loop(t.subst(nextb[j], mb), lb, new), f)
                if r != EQ:
                    ok = r
                    break
            if ok == EQ:
                ok = self._leaf_cmp_quiet(t.rename_loop(t.subst(conda, ma), la, new),
                                          t.rename_loop(t.subst(condb, mb), lb, new), f)
            if ok == EQ:
                return EQ
            if ok == UNK:
                worst = UNK
        if n > 1 and worst == NE:
            # several carried values: a different but equivalent set of carried values is possible
            same_init = sorted(x.key for x in inita) == sorted(x.key for x in initb)
            return NE if same_init else UNK
        return worst

    def _leaf_cmp_quiet(self, x, y, f):
        keep = self.mism
        self.quiet += 1
        r = self._cmp(x, y, f)
        self.quiet -= 1
        self.mism = keep
        return r


ALTERING = frozenset([('m', n) for n in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'title', 'capitalize', 'swapcase',
                                         'casefold', 'replace', 'zfill')] + [('op', 'sorted')])


def unaltered(x):
    """the term without the functions that alter a text or a list"""
    def f(y):
        if y.op == 'm' and (('m', y.args[0])) in ALTERING:
            if y.args[0] == 'replace' and (len(y.args) != 4 or not (isk(y.args[2]) and isk(y.args[3])) or y.args[2] is y.args[3]):
                return t.rebuild(y, f)
            return f(y.args[1])
        if y.op == 'sorted':
            return f(y.args[0])
        return t.rebuild(y, f)
    return f(x)


def has_op(x, ops, _memo=None):
    if _memo is None:
        _memo = {}

    def go(y):
        if isinstance(y, T):
            if y.op in ops:
                return True
            r = _memo.get(y)
            if r is None:
                r = any(go(a) for a in y.args)
                _memo[y] = r
            return r
        if isinstance(y, tuple):
            return any(go(a) for a in y)
        return False
    return go(x)


ANYTHING = mk('any*')      # a reference value that is left open
_HEADS = {}
_ATOMS = {}
INTERPRETED = {'k', 'p', 'fdiv', 'mod', 'ite', 'and', 'or', 'not', 'le', 'lt', 'eqn', 'eqv', 'isnone', 'truthy', 'cat', 'slice',
               'listt', 'dictt', 'tuple', 'wr', 'rd', 'conv', 'gi', 'each', 'sum', 'ev', 'raise', 'bv', 'bi', 'cnt', 'blen',
               'item', 'ph', 'spread', 'kw', 'range', 'weak', 'undef', 'in', 'takewhile', 'lastv', 'sel', 'any', 'zip',
               'rev', 'enum', 'mu', 'bm', 'nt', 'any*', 'cls', 'ref', 'isinst'}


def heads(x):
    """the uninterpreted vocabulary of a term: inputs, attributes, functions, loops"""
    r = _HEADS.get(x)
    if r is None:
        op = x.op
        r = set()
        if op == 'var':
            r.add(('var', x.args[0]))
        elif op == 'attr':
            r.add(('attr', x.args[1]))
        elif op == 'call':
            r.add(('call', x.args[0]) if isinstance(x.args[0], str) else ('call', '?'))
        elif op == 'm':
            r.add(('m', x.args[0]))
        elif op == 'item' and is_ks(x.args[1]):
            r.add(('key', x.args[1].args[1]))
        elif op in ('any', 'sel', 'lastv', 'takewhile'):
            r.add(('loop', x.args[0].key))
        elif op == 'mu':
            r.add(('loop', 'mu'))
        elif op not in INTERPRETED:
            r.add(('op', op, x.args[0]) if x.args and isinstance(x.args[0], str) else ('op', op))
        for y in _kids(x):
            r |= heads(y)
        r = _HEADS[x] = frozenset(r)
    return r


def atoms(x):
    """condition atoms of a term"""
    r = _ATOMS.get(x)
    if r is None:
        r = set()
        if x.op in t.BOOLOPS and x.op not in ('and', 'or', 'not'):
            r.add(x)
        for y in _kids(x):
            r |= atoms(y)
        r = _ATOMS[x] = frozenset(r)
    return r
