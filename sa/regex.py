"""Regular expressions as data: normal form without capture groups, position of each group, comparison of languages.

Nothing is matched against a text of the analysed program: a pattern is a tree, and two patterns are compared as automata.
"""
import hashlib

try:
    import re._parser as sp
    import re._constants as sc
except ImportError:
    import sre_parse as sp
    import sre_constants as sc


class Unreadable(Exception):
    """not a pattern this analysis can read"""


class Pattern(object):
    """key: the tree without groups; groups: index -> (path, kinds of optional parts around it); names: name -> index"""
    def __init__(self, text, flags=0):
        try:
            p = sp.parse(text, flags)
        except Exception as e:
            raise Unreadable(str(e))
        self.text = text
        self.kind = 'b' if isinstance(text, bytes) else 's'
        self.names = dict(p.state.groupdict)
        self.groups = {}
        self.tree = self.strip(p.data, (), ())
        whole = "%s%x:%r" % (self.kind, p.state.flags & ~0x120, self.tree)
        self.key = "%s:%s" % (self.kind, hashlib.sha1(whole.encode()).hexdigest()[:12])

    def strip(self, data, path, optional):
        out = []
        self.seq(data, path, optional, out)
        return tuple(out)

    def seq(self, data, path, optional, out):
        for op, av in data:
            if op is sc.SUBPATTERN:
                group, add, sub, p = av
                if add or sub:
                    raise Unreadable("flags in a group")
                at = len(out)
                self.seq(p.data if hasattr(p, 'data') else p, path, optional, out)
                if group is not None:
                    self.groups[group] = (path + (at, len(out)), optional)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, p = av
                here = path + (len(out), 'r')
                inner = self.strip(p.data, here, optional + ((here,) if lo == 0 else ()))
                out.append((str(op), int(lo), -1 if hi is sc.MAXREPEAT else int(hi), inner))
            elif op is sc.BRANCH:
                alts = []
                at = len(out)
                for k, p in enumerate(av[1]):
                    here = path + (at, k)
                    alts.append(self.strip(p.data, here, optional + (here,)))
                out.append(('BRANCH', tuple(alts)))
            elif op is sc.LITERAL:
                out.append(('LITERAL', int(av)))
            elif op is sc.NOT_LITERAL:
                out.append(('NOT_LITERAL', int(av)))
            elif op is sc.ANY:
                out.append(('ANY',))
            elif op is sc.IN:
                # a character class of the branches of single characters is a set
                out.append(('IN', tuple(sorted(('%s' % o, a if isinstance(a, tuple) else None if a is None else
                                                int(a) if not str(o) == 'CATEGORY' else str(a)) for o, a in av))))
            elif op is sc.AT:
                out.append(('AT', str(av)))
            else:
                raise Unreadable(str(op))


    def width(self, group):
        """least length of the text of a group"""
        seq, path = self.tree, list(self.groups[group][0])
        while len(path) > 2:
            at, k = path[:2]
            seq = seq[at][3] if k == 'r' else seq[at][1][k]
            path = path[2:]
        return least(seq[path[0]:path[1]])

    def constant(self, group):
        """the text of a group that is always the same"""
        path, optional = self.groups[group]
        if len(path) > 2:               # inside a repetition or a branch
            return None
        part = self.tree[path[-2]:path[-1]]
        if optional or any(x[0] != 'LITERAL' for x in part):
            return None
        out = "".join(chr(x[1]) for x in part)
        return out.encode('latin-1') if self.kind == 'b' else out


def least(seq):
    n = 0
    for x in seq:
        if x[0] in ('MAX_REPEAT', 'MIN_REPEAT'):
            n += x[1] * least(x[3])
        elif x[0] == 'BRANCH':
            n += min(least(y) for y in x[1])
        elif x[0] != 'AT':
            n += 1
    return n


def pattern(text, flags=0):
    return Pattern(text, flags)


# ---------------------------------------------------------------- automata
LIMIT = 400


class Nfa(object):
    def __init__(self, tree):
        self.eps = []
        self.step = []
        self.start = self.new()
        self.end = self.build(tree, self.start)

    def new(self):
        if len(self.eps) > LIMIT:
            raise Unreadable("pattern too large")
        self.eps.append([])
        self.step.append([])
        return len(self.eps) - 1

    def build(self, tree, at):
        for x in tree:
            at = self.one(x, at)
        return at

    def one(self, x, at):
        if x[0] in ('MAX_REPEAT',):
            _, lo, hi, inner = x
            for _ in range(lo):
                at = self.build(inner, at)
            if hi < 0:
                loop = self.new()
                self.eps[at].append(loop)
                back = self.build(inner, loop)
                self.eps[back].append(loop)
                return loop
            end = self.new()
            self.eps[at].append(end)
            for _ in range(hi - lo):
                at = self.build(inner, at)
                self.eps[at].append(end)
            return end
        if x[0] == 'BRANCH':
            end = self.new()
            for alt in x[1]:
                s = self.new()
                self.eps[at].append(s)
                self.eps[self.build(alt, s)].append(end)
            return end
        if x[0] in ('LITERAL', 'NOT_LITERAL', 'ANY', 'IN'):
            end = self.new()
            self.step[at].append((x, end))
            return end
        raise Unreadable(x[0])

    def close(self, states):
        out, todo = set(states), list(states)
        while todo:
            for n in self.eps[todo.pop()]:
                if n not in out:
                    out.add(n)
                    todo.append(n)
        return frozenset(out)

    def move(self, states, c):
        return self.close([n for s in states for x, n in self.step[s] if accepts(x, c)])


def accepts(x, c):
    if x[0] == 'LITERAL':
        return c == x[1]
    if x[0] == 'NOT_LITERAL':
        return c != x[1]
    if x[0] == 'ANY':
        return c != 10
    neg, hit = False, False
    for op, a in x[1]:
        if op == 'NEGATE':
            neg = True
        elif op == 'LITERAL':
            hit = hit or c == a
        elif op == 'RANGE':
            hit = hit or a[0] <= c <= a[1]
        elif op == 'CATEGORY':
            ch = chr(c)
            word = ch == '_' or ch.isalnum()
            v = {'DIGIT': ch.isdigit(), 'SPACE': ch.isspace(), 'WORD': word}.get(a.split('_')[-1])
            if v is None:
                raise Unreadable(a)
            hit = hit or (not v if '_NOT_' in a else v)
    return hit != neg


def difference(a, b):
    """a text that exactly one of the patterns matches as a whole, or None if there is none"""
    na, nb = Nfa(a.tree), Nfa(b.tree)
    alphabet = list(range(9, 14)) + list(range(32, 127))
    if a.kind == 's':
        alphabet.append(0xe9)
    start = (na.close([na.start]), nb.close([nb.start]))
    seen, todo = {start: ()}, [start]
    while todo:
        s = todo.pop(0)
        if (na.end in s[0]) != (nb.end in s[1]):
            return "".join(chr(c) for c in seen[s])
        for c in alphabet:
            n = (na.move(s[0], c), nb.move(s[1], c))
            if n not in seen:
                seen[n] = seen[s] + (c,)
                todo.append(n)
        if len(seen) > 3000:
            raise Unreadable("automaton too large")
    return None
