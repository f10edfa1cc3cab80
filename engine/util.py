"""Small query helpers shared by the structural rules."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import gsa
from ir import AnalysisBroken, is_e

_callers = {}


def strip(e):
    """An expression without line information, for comparison."""
    if isinstance(e, list):
        return tuple(strip(x) for x in e if not isinstance(x, dict))
    return e


def callers(prog):
    c = _callers.get(id(prog))
    if c is None:
        c = {}
        for f in prog.funcs:
            for e in ir.all_exprs(f):
                if e[0] == 'c':
                    c.setdefault(gsa.short(e[1]), set()).add(f)
                elif e[0] == 'fn':
                    c.setdefault(gsa.short(e[1]), set()).add(f)
                elif e[0] in ('g', 'v'):
                    c.setdefault(e[1], set()).add(f)
        _callers[id(prog)] = c
    return c


def known_names(f):
    b = gsa.baseline()
    return b.get('names:' + ('py:' + f.file if f.lang == 'py' else 'cpp'), ())


def owners(prog, f, seen=None):
    """The specified functions on whose behalf f runs: f itself, or the callers of an extracted helper."""
    if f.name in known_names(f):
        return {f.name}
    seen = seen or set()
    if id(f) in seen:
        return set()
    seen.add(id(f))
    out = set()
    for c in callers(prog).get(gsa.short(f.name), ()):
        out |= owners(prog, c, seen)
    return out or {f.name}


def is_call(e, *names):
    return e[0] == 'c' and (gsa.short(e[1]) in names or e[1] in names)


def line(e, f):
    return gsa.line_or(e, f.line) if hasattr(gsa, 'line_or') else f.line


def strings(x):
    """All string literals below an expression."""
    return [y[1] for y in ir.sub_exprs(x) if y[0] == 's' and isinstance(y[1], str)]


def func_strings(f):
    out = []
    for e in ir.all_exprs(f):
        if e[0] == 's' and isinstance(e[1], str):
            out.append(e[1])
    return out
