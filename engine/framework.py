"""Shared by check.py and regen: loading properties, deciding tables and rules."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF)
import ir
import gsa
import spec as S
from ir import AnalysisBroken

REPO = os.environ.get('IWYU_REPO', ir.REPO)


class Violation:
    def __init__(self, rule, file, line, construct, msg):
        self.rule, self.file, self.line, self.construct, self.msg = rule, file, line, construct, msg

    def key(self):
        return '%s|%s|%s|%s' % (self.rule, self.file, self.construct, self.msg[:160])

    def as_dict(self):
        return dict(rule=self.rule, file=self.file, line=self.line, construct=self.construct, message=self.msg)


class Result:
    def __init__(self):
        self.violations = []
        self.counts = {}
        self.samples = []
        self.notes = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def bad(self, rule, file, line, construct, msg):
        self.violations.append(Violation(rule, file, line, construct, msg))

    def need(self, what, n, minimum=1):
        """Non-vacuity: an anchor that matched nothing is an analysis error."""
        self.count(what, n)
        if n < minimum:
            raise AnalysisBroken('%s: found %d, expected at least %d' % (what, n, minimum))


class T:
    """Obligation: the decision table of one function (or all its overloads)."""

    def __init__(self, where, sig=None, scope=None, inline=(), opaque=(), logs=False, rets=True, skip=None, why=''):
        self.file, self.func = where.split(':', 1)
        self.sig, self.scope, self.inline, self.opaque, self.logs, self.rets, self.skip, self.why = \
            sig, scope, list(inline), list(opaque), logs, rets, skip, why

    def conf(self):
        d = dict(file=self.file, func=self.func)
        for k in ('sig', 'scope', 'inline', 'opaque', 'logs', 'skip'):
            v = getattr(self, k)
            if v:
                d[k] = v
        if not self.rets:
            d['rets'] = False
        return d


def program(file):
    if file.endswith('.py'):
        return ir.load_py(file)
    return ir.load_cpp()


def summary(prog, fn, d, level=0):
    inl = list(d.get('inline', ()))
    if level:
        inl = inl + ['*small']
    return S.Summary(prog, fn, inl, d.get('opaque', ()), d.get('scope'), d.get('logs', False), d.get('rets', True), d.get('skip'))


def expand_tables(ts):
    """Resolve T entries against the current tree (regen only): one obligation per function."""
    out = []
    for t in ts:
        prog = program(t.file)
        fs = [f for f in prog.funcs if f.name == t.func and f.file == t.file and (t.sig is None or (f.sig or '') == t.sig)]
        if not fs:
            raise AnalysisBroken('no function %s in %s (sig %r)' % (t.func, t.file, t.sig))
        fs.sort(key=lambda f: f.line)
        for f in fs:
            d = t.conf()
            d['sig'] = f.sig or ''
            if f.name not in referenced(prog, f) and (f.virt or f.short == 'main' or re.match(r'(Visit|Traverse|CanIgnore|should|Report)', f.short)):
                d['callback'] = True
            twins = [x for x in fs if (x.sig or '') == d['sig']]
            if len(twins) > 1:
                d['nth'] = twins.index(f)
            out.append((d, f, prog))
    return out


def referenced(prog, f):
    """Names of functions some other function of the program calls or passes on."""
    if not hasattr(prog, '_referenced'):
        prog._referenced = out = {}
        for g in prog.funcs:
            for st in list(ir.stmts(g.body) if g.body else []) + list(g.inits or []):
                for e in ir.stmt_exprs(st):
                    for x in ir.sub_exprs(e):
                        if x[0] in ('c', 'fn') and isinstance(x[1], str):
                            out.setdefault(gsa.short(x[1]).split('<')[0].split('.')[-1], set()).add(g.name)
    return {f.name} if prog._referenced.get(f.short, set()) - {f.name} else ()


def vanished(prog, file):
    """Functions of the reviewed tree that are gone (their code may live on in their callers)."""
    if not hasattr(prog, '_vanished'):
        cur = {f.name for f in prog.funcs}
        bl = gsa.baseline().get('names:py:' + file if file.endswith('.py') else 'names:cpp', [])
        prog._vanished = sorted(n for n in bl if n not in cur)
    return prog._vanished


def decide_table(d, res):
    prog = program(d['file'])
    try:
        fn = S.find_fn(prog, d['func'], d['sig'], d['file'], d.get('nth', 0))
    except AnalysisBroken:
        if d.get('callback'):
            res.bad('decision-table', d['file'], 0, d['func'], 'the function is gone, and what calls it (Clang, the interpreter) '
                    'is not in the tree: its specified effects no longer happen')
            return
        res.count('functions_gone')
        res.notes.append('undecided: %s %s is gone; its callers are compared with their own tables' % (d['file'], d['func']))
        return
    s = summary(prog, fn, d)
    tab = d['table']
    ms = S.compare(s, tab)
    res.count('functions_analysed')
    res.count('effects_compared', len(tab['effects']))
    res.count('predicates', len(tab['atoms']))
    res.count('bdd_nodes', len(s.g.b.var))
    if ms and d.get('table1') is not None:
        s1 = summary(prog, fn, d, 1)
        if not S.compare(s1, d['table1']):
            res.count('decided_by_deep_inlining')
            ms = []
    if ms and S.reshaped(s, tab):
        # not decided, and not held against the code
        res.count('undecided_rewritten_loops')
        res.notes.append('undecided: %s:%d %s: its open-ended loops were rewritten (%s, specified %s)' % (
            fn.file, fn.line, fn.name, S.loops(s), tab.get('loops', {})))
        ms = []
    if ms:
        txt = ' '.join(e['do'] for e in tab['effects']) + ' '.join(tab['atoms'])
        gone = [n for n in vanished(prog, d['file']) if re.search(r'\b%s\(' % re.escape(gsa.short(n).split('.')[-1]), txt)]
        if gone:
            res.count('undecided_callers_of_removed_functions')
            res.notes.append('undecided: %s:%d %s: specified in terms of %s, which is gone' % (fn.file, fn.line, fn.name, ', '.join(gone[:3])))
            ms = []
    if len(res.samples) < 4 and tab['effects']:
        e = tab['effects'][0]
        res.samples.append({'function': '%s:%d %s' % (fn.file, fn.line, fn.name), 'effect': e['do'][:200],
                            'required_when': S.fmt_when(tab, e['when'], 2)[:300], 'holds': not ms})
    for m in ms:
        res.bad('decision-table', m.file, m.line, fn.name, m.msg)


def load_props():
    import props
    return props.PROPS
