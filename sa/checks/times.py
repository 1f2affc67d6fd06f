"""Times as text."""
from . import check
from .. import terms as t
from .. import regex
from ..terms import mk, K, TRUE, FALSE, NONE, ZERO
from ..compare import Facts, assume
from ..frame import Undecided
from .segment import Drive

LIB = 'dashlivesim.dashlib.'


def patterns(x, seen=None):
    """keys of the patterns a value depends on"""
    out = set()
    todo, done = [x], set()
    while todo:
        y = todo.pop()
        if id(y) in done:
            continue
        done.add(id(y))
        if y.op == 'call' and isinstance(y.args[0], str) and y.args[0].split(':')[0] in (
                'substituted', 'group', 'group+', 'group matched', 're match', 're search', 're fullmatch'):
            out.add(y.args[1].args[1])
        for a in y.args:
            for z in (a if isinstance(a, tuple) else (a,)):
                if isinstance(z, t.T):
                    todo.append(z)
    return out


def same_language(d, got, ref):
    """different patterns that match the same texts are left open, not different"""
    ps = d.I.patterns
    for k in patterns(got) - patterns(ref):
        for q in patterns(ref):
            try:
                if regex.difference(ps[k], ps[q]) is None:
                    raise Undecided("another pattern for the same texts: %r" % ps[k].text)
            except regex.Unreadable as e:
                raise Undecided("pattern %r: %s" % (ps[k].text, e))


@check('C22', "value flow through the time formatters and the subtitle shifter for variable numbers and text; regular "
              "expressions are compared as parsed patterns, substitutions by their result for any match")
def c22(ctx):
    n = t.var('n', 'i')
    at = Facts()
    at = assume(at, t.cmp_le(ZERO, n, False), True)
    fmt = LIB + 'timeformatconversions.'

    def one(name, where, args, refargs=((),), facts=None, ref=None):
        ctx.anchor(where)

        def go():
            d = Drive(ctx, spec='times')
            got = d.value('code_' + name, *args)
            refs = [d.value(name, *(args + r)) for r in refargs]
            same_language(d, got, refs[0])
            ctx.same(name, where, got, refs, d.I.loops, facts=facts)
            ctx.used(d.I)
        ctx.obligation(name, where, go)
    one('iso', fmt + 'seconds_to_iso_duration', (n,), facts=at)
    one('timestamp', fmt + 'make_timestamp', (n,))
    one('seconds', fmt + 'iso_duration_to_seconds', (t.var('text', 's'),))
    orders = [mk('tuple', tuple(K(c) for c in o)) for o in ('acn', 'anc', 'can', 'cna', 'nac', 'nca')]
    one('ttml', LIB + 'ttml_timing_offset.adjust_ttml_content', (t.var('text', 'b'),), [(o,) for o in orders])
