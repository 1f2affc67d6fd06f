"""Calls, names, attributes, formats and kinds of operands fit together (C32): whole-program kind inference."""
from . import check
from ..frame import Undecided
from ..kinds import Kinds

NAMES = {'operators': "operands of operators", '%-formats': "% formats", 'names': "names",
         'calls': "calls of functions of the project", 'attributes': "attributes", 'library calls': "calls of library functions"}


@check('C32', "whole-program kind inference (which kinds of values can reach every expression, per call context, class and container "
              "allocation site); an operation that fails for every kind that reaches it is a violation",
       "whole-program abstract interpretation over kinds of values, with attribute, signature, format and operand checks")
def c32(ctx):
    k = Kinds(ctx.program)
    k.MAXCTX = 96 if ctx.tier == 'thorough' else 24
    try:
        k.run()
    except (RuntimeError, RecursionError) as ex:
        raise Undecided("kind inference: %s" % ex)
    bad = {}
    for (kind, module, func, line, _col), msg in sorted(k.reports.items()):
        bad.setdefault(("%s: %s" % (kind, msg), module), (func, line))
    for (name, where), (func, line) in bad.items():
        ctx.violation(name, where, "%s, line %d of %s: %s" % (func, line, where, name))
    total = 0
    for kind, nodes in sorted(k.seen.items()):
        total += len(nodes)
        ctx.ok(NAMES.get(kind, kind), "dashlivesim", "%d places in %d contexts of %d functions" % (
            len(nodes), len(k.order), len(k.byfunc)))
    ctx.counts['places'] = total
    ctx.counts['contexts'] = len(k.order)
    ctx.counts['functions'] = len(k.byfunc)
