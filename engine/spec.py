"""Decision tables: extraction from the current tree and comparison with the
committed specification of a property (spec/<ID>.json).

An obligation says, for one function and one scope of observable effects,
exactly which effects happen, each with the exact condition under which it
happens (a formula over canonical predicates), and in which order dependent
effects happen.  The comparison is semantic: formulas are compared as boolean
functions, never as text.
"""
import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import gsa
from ir import AnalysisBroken
from bdd import BDD

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

EXT_MUT = re.compile(
    r'^(insert|push_back|erase|clear|emplace|emplace_back|push|pop|pop_back|replace|swap|append|resize|assign|Report|'
    r'setInvocation|ExecuteAction|addCommentHandler|addPPCallbacks|Traverse\w*|Visit\w*|WalkUpFrom\w*|Define\w*|'
    r'PerformPendingInstantiations|LateTemplateParser|LookupDefault\w*|LookupDestructor|exit|abort|_exit|printf|fprintf|sort|stable_sort|'
    r'set_intersection|BuildCompilation|printError|printErrorAt|delete|erase_if|remove_if|copy|transform|set[A-Z]\w*|'
    r'make_absolute|remove_dots|convert_to_slash|getopt_long|strtol|InitializeAll\w*|CreateFromArgs|RenderText|'
    r'interleaveComma|printTemplateArgumentList|regex_replace|print\w*|flush)$')
PY_EFF = re.compile(
    r'^(append|add|update|extend|insert|pop|remove|discard|clear|setdefault|sort|reverse|write|writelines|popleft|'
    r'appendleft|put|print|open|sys\.exit|os\.(?!path|environ|getenv|getcwd|sep|linesep|extsep)\w+|subprocess\.\w+|exit|execute|start|communicate|'
    r'close|flush|terminate|kill|wait|poll|time\.sleep|intersection_update|difference_update|<del>|<yield>|parse_args|error|'
    r'seek|truncate|add_argument|add_option|set_defaults|print_usage|read|readline|readlines|apply_async|map|join|'
    r'json\.load|json\.loads|json\.dump|sys\.stdout\.\w+|sys\.stderr\.\w+|shutil\.\w+)$')


LAZY = gsa.LAZY
STREAM_SINK = ('errs', 'outs')


def is_ptr(ty):
    return bool(re.search(r'\* ?(const)?( ?&)?$', ty))


class Purity:
    """What a repo function does that its caller can observe, transitively.

    Effects are sets of: 'T' (writes the object it is called on), ('P', i)
    (writes through parameter i), 'X' (anything else: globals, files, exit,
    output, objects of unknown origin).  Writes to purely local objects vanish.
    """

    def __init__(self, prog):
        self.prog = prog
        self.eff = {}
        self.sites = {}
        self.by = {}
        for f in prog.funcs:
            self.by.setdefault(f.name, []).append(f)
            self.by.setdefault('*' + f.short, []).append(f)
        for f in prog.funcs:
            self.scan(f)
        ch = True
        while ch:
            ch = False
            for f in prog.funcs:
                k = gsa.fkey(f)
                cur = self.eff[k]
                for callee, base, args in self.sites[k]:
                    for t in self.targets(callee):
                        for x in self.eff[gsa.fkey(t)]:
                            if x == 'X':
                                add = {'X'}
                            elif x == 'T':
                                add = base
                            else:
                                add = args[x[1]] if x[1] < len(args) else set()
                            if not add <= cur:
                                cur |= add
                                ch = True
        self.imp = set(k for k, v in self.eff.items() if v)

    def targets(self, name):
        t = self.by.get(name)
        if t:
            return t
        if name.startswith('*'):
            t = self.by.get(name) or []
            return t if len(t) <= 8 else []
        return []

    def scan(self, f):
        py = f.lang == 'py'
        pidx = {}
        src = {}
        off = 1 if py and f.cls and not f.static else 0
        for i, p in enumerate(f.params):
            if py and off and i == 0:
                pidx[p['id']] = 'T'
            elif not py and not p.get('mut'):
                src[p['id']] = []
            else:
                pidx[p['id']] = ('P', i - off)
        # flow-insensitive roots of pointer/reference locals
        body = list(ir.stmts(f.body)) if f.body else []
        # what a function defined within it does to captured parameters
        within = [s for x in self.prog.funcs if py and x.file == f.file and x.body and x.name.startswith(f.name + '.')
                  for s in ir.stmts(x.body)]
        for s in body + within:
            if s['k'] == 'decl':
                ty = s.get('cty') or s.get('ty') or ''
                if s.get('e') is not None and (py or not ty.startswith('const ') and (
                        s.get('ref') or is_ptr(ty) or 'iterator' in ty or ty in ('auto', ''))):
                    src.setdefault(s['id'], []).append(s['e'])
                elif not py:
                    src.setdefault(s['id'], [])
            elif s['k'] == 'rfor':
                if s.get('var'):
                    ty = s['var'].get('cty') or s['var'].get('ty') or ''
                    if py or not ty.startswith('const ') and (s['var'].get('ref') or is_ptr(ty) or '&' in ty):
                        src.setdefault(s['var']['id'], []).append(s['r'])
                for x in s.get('binds') or []:
                    src.setdefault(x[2], []).append(s['r'])
                if s.get('tgt') is not None:
                    for x in ir.sub_exprs(s['tgt']):
                        if x[0] == 'v':
                            src.setdefault(x[2], []).append(s['r'])
            elif s['k'] == 'decomp':
                for x in s['vars']:
                    src.setdefault(x[2], []).append(s['e'])
            for e in ir.stmt_exprs(s):
                for x in ir.sub_exprs(e):
                    if x[0] == 'o' and x[1] == '=' and ir.is_e(x[2][0], 'v') and (py or x[2][0][2] in src and src[x[2][0][2]]):
                        src.setdefault(x[2][0][2], []).append(x[2][1])
                    elif x[0] == 'lam':
                        for p in x[1]['params']:
                            src.setdefault(p['id'], [])
                    elif x[0] == 'comp':
                        for tg, it in [(x[2], x[3])] + [(y[0], y[1]) for y in x[5]]:
                            for y in ir.sub_exprs(tg):
                                if y[0] == 'v':
                                    src.setdefault(y[2], []).append(it)

        busy = set()

        def roots(e):
            if e is None:
                return set()
            t = e[0]
            if t == 'v':
                if e[2] in pidx:
                    return {pidx[e[2]]}
                if e[2] in busy:
                    return set()
                busy.add(e[2])
                r = set()
                for x in src.get(e[2], ()):
                    r |= roots(x)
                busy.discard(e[2])
                return r
            if t == 'this':
                return {'T'}
            if t == 'g':
                return set() if e[1] in LAZY or e[1].split('::')[-1] in LAZY else {'X'}
            if t == 'f':
                return set() if e[2] in LAZY else roots(e[1])
            if t == 'o':
                if e[1] in ('*', '&', '[]', '+', '++', 'p++', '<<'):
                    return roots(e[2][0])
                if e[1] in ('&&', '||') and py:
                    return roots(e[2][0]) | roots(e[2][1])
                if e[1] == '=':
                    return roots(e[2][0])
                return set()
            if t == 'cond':
                return roots(e[2]) | roots(e[3])
            if t == 'c':
                sn = gsa.short(e[1])
                if sn in STREAM_SINK:
                    return {'X'}
                if e[2] is not None:
                    return roots(e[2]) if not py or sn in ('get', 'setdefault', 'values', 'items', 'keys', '__getitem__') else set()
                if sn.startswith(('dyn_cast', 'cast', 'FindInMap', 'static_cast', 'move', 'forward')) and e[3]:
                    return roots(e[3][0])
                fl = e[-1] if isinstance(e[-1], dict) else {}
                if py:
                    if sn in ('list', 'tuple', 'sorted', 'reversed', 'enumerate', 'zip', 'filter', 'iter', 'next', 'min', 'max'):
                        r = set()
                        for a in e[3]:
                            r |= roots(a)
                        return r
                    return set()
                if fl.get('repo') and not fl.get('const'):
                    if self.valuelike(e[1]):
                        return set()
                    return {'T'} if all(t.cls and not t.static for t in self.by.get(e[1], ())) else {'X'}
                return set()
            if t == 'comp':
                return roots(e[1])
            if t == 'list' and py:
                r = set()
                for x in e[1]:
                    r |= roots(x)
                return r
            if t in ('new', 'k', 'list', 'dict', 's', 'n', 'b', 'null', 'e', 'lam', 'fn'):
                return set()
            return set()

        out = set()
        sites = []
        for s in body:
            if s['k'] in ('log', 'assert'):
                continue
            for e in ir.stmt_exprs(s):
                self.scan_expr(f, e, roots, out, sites)
        captured = set()
        for s in within:
            if s['k'] not in ('log', 'assert'):
                for e in ir.stmt_exprs(s):
                    self.scan_expr(f, e, roots, captured, [])
        out |= {x for x in captured if isinstance(x, tuple)}
        # constructor initialisers write only the new object
        if f.inits:
            for s in f.inits:
                for e in ir.stmt_exprs(s):
                    self.scan_expr(f, e, roots, out, sites)
        if f.cls and f.short == f.cls.split('::')[-1] or f.short.startswith('~'):
            out.discard('T')
        k = gsa.fkey(f)
        self.eff.setdefault(k, set()).update(out)
        self.sites.setdefault(k, []).extend(sites)

    def valuelike(self, name):
        for t in self.by.get(name, ()):
            r = getattr(t, 'ret', '') or ''
            if '&' in r or '*' in r:
                return False
        return True

    def scan_expr(self, f, e, roots, out, sites):
        py = f.lang == 'py'
        rx = PY_EFF if py else EXT_MUT
        for x in ir.sub_exprs(e):
            if x[0] == 'o':
                if x[1] == '<<' and not py:
                    r = ir.stream_root(x)
                    if r is not None and r[0] != 'n':
                        out |= roots(r)
                elif (x[1].endswith('=') and x[1] not in ('==', '!=', '<=', '>=')) or x[1] in ('++', '--', 'p++', 'p--'):
                    lhs = x[2][0]
                    if lhs[0] == 'v':
                        # writing a by-reference parameter
                        if not py:
                            for p in f.params:
                                if p['id'] == lhs[2] and '&' in p.get('ty', '') and p.get('mut'):
                                    out |= roots(lhs)
                    else:
                        out |= roots(lhs)
            elif x[0] == 'throw':
                out.add('X')
            elif x[0] == 'c':
                sn = gsa.short(x[1])
                fl = x[-1] if isinstance(x[-1], dict) else {}
                base = roots(x[2]) if x[2] is not None else ({'T'} if f.cls and not f.static else set())
                known = self.by.get(x[1]) if not py else (self.by.get(x[1]) if x[2] is None else None)
                if x[1].startswith('?::') and not known:
                    known = self.by.get('*' + sn)
                    if known and len(known) <= 8:
                        sites.append(('*' + sn, base, [roots(a) for a in x[3]]))
                        continue
                if known:
                    sites.append((x[1], base, [roots(a) for a in x[3]]))
                    continue
                if py and x[2] is not None and not rx.match(sn):
                    if self.by.get('*' + sn) and len(self.by['*' + sn]) <= 4:
                        sites.append(('*' + sn, base, [roots(a) for a in x[3]]))
                    continue
                full = x[1] if not py or x[2] is None else x[1]
                if rx.match(sn) or (py and rx.match(full)):
                    if x[2] is None and sn.startswith('Traverse'):
                        out |= base
                    elif x[2] is None:
                        if sn in ('exit', '_exit', 'printf', 'fprintf', 'getopt_long', 'printError') or (py and not sn in ('map', 'join', 'iter')):
                            out.add('X')
                        else:
                            for a in x[3][:1]:
                                out |= roots(a)
                    elif sn.startswith('Traverse'):
                        out |= base
                    elif sn.startswith(('ExecuteAction', 'Perform', 'Define', 'LookupD', 'addPP', 'addComm', 'Report')):
                        out.add('X')
                    else:
                        out |= base
                elif not py and not sn.startswith(('dyn_cast', 'cast', 'isa', 'get')) and x[1] not in (
                        'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size'):
                    for i in fl.get('mut', []):
                        if i < len(x[3]):
                            out |= roots(x[3][i])

    def impure(self, name):
        t = self.by.get(name) or self.by.get('*' + gsa.short(name).split('.')[-1]) or ()
        if not t:
            return None
        return any(gsa.fkey(x) in self.imp for x in t)

    def effects_of(self, name, method=False, sig=None):
        t = self.by.get(name) if not method else None
        if t and sig is not None:
            t = [f for f in t if f.sig == sig] or t
        if not t:
            t = self.by.get('*' + gsa.short(name).split('.')[-1]) or ()
        if not t:
            return None
        out = set()
        for x in t:
            out |= self.eff[gsa.fkey(x)]
        return out


def purity(prog):
    if not hasattr(prog, '_purity'):
        prog._purity = Purity(prog)
    return prog._purity


def repo_effect(es, e):
    """Is a call with callee effects es observable at this call?"""
    for x in es:
        if x in ('X', 'T'):
            return True
        i = x[1]
        if i >= len(e.args):
            return True
        a = e.args[i]
        while a.t in ('dc', 'at', 'elem', 'find') and isinstance(a.a[1 if a.t == 'dc' else 0], gsa.V):
            a = a.a[1 if a.t == 'dc' else 0]
        if a.t in ('L', 'p', 'f', 'g', 'this', 'c', 'lamv', 'phi', 'ite'):
            return True
    return False


def effectful(g, e):
    if e.kind in ('set', 'out', 'raise', 'abort', 'init', 'next', 'lam', 'stop'):
        return True
    if e.kind == 'unknown':
        return False
    if e.kind != 'call':
        return e.kind == 'log'
    pur = purity(g.prog)
    sn = gsa.short(e.name)
    if g.lang == 'py':
        if '.' in e.name:
            return bool(PY_EFF.match(e.name))
        if e.base is None:
            r = pur.effects_of(e.name)
            if r is not None:
                return repo_effect(r, e)
        else:
            if PY_EFF.match(sn):
                return sn != 'join' or e.base.t not in ('s', 'g')
            r = pur.effects_of(sn, True)
            return bool(r) and repo_effect(r, e)
        return bool(PY_EFF.match(sn))
    if e.name.startswith('new:'):
        return False
    if e.name == '?call' and e.base is not None and e.base.t == 'f':
        return bool(EXT_MUT.match(str(e.base.a[1])))
    f = g.prog.by_name.get(e.name)
    if f:
        fl = e.node[-1] if isinstance(e.node, list) and isinstance(e.node[-1], dict) else {}
        return repo_effect(pur.effects_of(e.name, sig=fl.get('sig')), e)
    if g.prog.by_name.get('*' + sn) and not e.name.startswith(('std::', 'llvm::', 'clang::')):
        return repo_effect(pur.effects_of(sn, True) or (), e)
    return bool(EXT_MUT.match(sn))


def dead_object(v):
    return v is not None and v.t == 'L' and v.a[1] >= 1000


def dead_event(e):
    if e.kind == 'call' and e.base is not None and dead_object(e.base):
        return True
    if e.kind == 'set':
        x = e.args[0]
        return dead_object(x) or x.t == 'at' and dead_object(x.a[0])
    return False


def live_objects(g):
    """{(type, n): rank} of the local containers whose contents are read, None if all are."""
    seen = set()

    def walk(v, out):
        todo = [v]
        done = set()
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            if x.t == 'L':
                out.add(x)
            if x.t == 'B':
                for i in g.b.support(x.a[0]):
                    todo.append(g.atom_v[i])
            elif x.t == 'ite':
                for i in g.b.support(x.a[0]):
                    todo.append(g.atom_v[i])
            for y in x.a:
                if isinstance(y, gsa.V):
                    todo.append(y)
                elif isinstance(y, tuple):
                    todo += [z for z in y if isinstance(z, gsa.V)]
    MUTS = gsa.PY_MUT
    uses = []     # (targets it feeds or None, objects read)
    for e in g.events:
        objs = set()
        tgt = None
        if e.kind == 'call' and e.base is not None and e.base.t == 'L' and e.name in MUTS:
            tgt = e.base
        elif e.kind == 'set' and (e.args[0].t == 'L' or e.args[0].t == 'at' and e.args[0].a[0].t == 'L'):
            tgt = e.args[0] if e.args[0].t == 'L' else e.args[0].a[0]
        elif e.base is not None:
            walk(e.base, objs)
        for a in e.args:
            if a is not tgt:
                walk(a, objs) if not (e.kind == 'set' and a is e.args[0] and tgt is not None and a.t == 'at') else walk(a.a[1], objs)
        for i in g.b.support(e.g):
            walk(g.atom_v[i], objs)
        uses.append((tgt, objs - {tgt}))
    live = set()
    for gd, v, s in g.rets:
        walk(v, live)
        for i in g.b.support(gd):
            walk(g.atom_v[i], live)
    ch = True
    while ch:
        ch = False
        for tgt, objs in uses:
            if (tgt is None or tgt in live) and not objs <= live:
                live |= objs
                ch = True
    rank, n, dead = {}, {}, False
    for ty, cnt in g.lcount.items():
        if ty.startswith('phi:'):
            continue
        inv = {g.perm.get((ty, k), k): k for k in range(cnt)}
        r = 0
        for k in range(cnt):
            if gsa.mk('L', ty, g.perm.get((ty, k), k)) in live or ty not in ('list',):
                rank[ty, k] = r
                r += 1
            else:
                dead = True
        rank['#', ty] = r
    return rank if dead else None


class Effect:
    __slots__ = ('text', 'g', 'evs', 'kind', 'line', 'fn', 'file', 'raw')


class Summary:
    def empty_as(self, l, gg, flat):
        """A fresh empty container returned where the one other returned local container is still
        empty is that container."""
        g, b = self.g, self.g.b
        if l.t == 'k' and not l.a[1]:
            ty = l.a[0]
        elif l.t == 'list' and not l.a[0]:
            ty = str(l.a[1]).lower()
        elif l.t == 'dict' and not l.a[0]:
            ty = 'dict'
        else:
            return l
        os = set(x for x in flat if x.t == 'L')
        if len(os) != 1:
            return l
        o = os.pop()
        if gsa.head_type(o.a[0]) != gsa.head_type(ty):
            return l
        for e in g.events:
            if (e.base is o or o in e.args) and b.And(e.g, gg, g.care):
                return l
        return o

    def __init__(self, prog, fn, inline=(), opaque=(), scope=None, logs=False, rets=True, skip=None, perm=None):
        self.conf = (prog, fn, inline, opaque, scope, logs, rets, skip)
        g = gsa.Gsa(prog, inline=inline, opaque=opaque, logs=logs, perm=perm).run(fn)
        self.livecount = dict(g.lcount)
        if fn.lang == 'py':
            rank = live_objects(g)
            if rank is not None:
                # temporaries nobody reads: number the others without them
                g = gsa.Gsa(prog, inline=inline, opaque=opaque, logs=logs, perm=perm, rank=rank).run(fn)
                g.events = [e for e in g.events if not dead_event(e)]
                for t in self.livecount:
                    if ('#', t) in rank:
                        self.livecount[t] = rank['#', t]
        self.g = g
        self.fn = fn
        b = g.b
        evs = [e for e in g.events if effectful(g, e)]
        evs = self.kill_dead_sets(evs)
        if rets:
            pseudo = []
            alls = []
            for gd, v, s in g.rets:
                v = g.simp(v, gd)
                if v.t not in ('void',):
                    alls.append((gd, v, g.expand(v)))
            flat = [l for _, _, ls in alls for _, l in ls]
            asbool = getattr(fn, 'ret', None) == 'bool' if fn.lang != 'py' else \
                any(l.t == 'b' for l in flat) and all(l.t in ('b', 'B', 'f', 'c', 'at', 'elem') for l in flat)
            for gd, v, ls in alls:
                if asbool:
                    ls = [(b.And(g1, g2), l2) for g1, l in ls for g2, l2 in g.leaves(g.boolv(g.truth(l)))]
                for g2, l in ls:
                    gg = b.And(gd, g2)
                    l = self.empty_as(l, gg, flat)
                    if gg and b.And(gg, g.care):
                        ev = gsa.Event()
                        ev.kind, ev.name, ev.base, ev.args, ev.g, ev.seq = 'return', 'return', None, [l], gg, 1 << 29
                        ev.line, ev.fn, ev.file, ev.loops, ev.text = fn.line, fn.name, fn.file, (), 'return ' + g.rend(l)
                        pseudo.append(ev)
            if not (fn.lang == 'py' and all(e.text in ('return null', 'return false') for e in pseudo) and any(e.text == 'return null' for e in pseudo)):
                evs += pseudo
        if scope:
            rx = re.compile(scope)
            evs = [e for e in evs if rx.search(e.text)]
        if skip:
            rx = re.compile(skip)
            evs = [e for e in evs if not rx.search(e.text)]
        evs = self.stops(evs) if not scope else [e for e in evs if e.kind != 'stop']
        self.effects = []
        by = {}
        for e in evs:
            if b.And(e.g, g.care) == 0:
                continue
            t = canon_text(e.text)
            lst = by.setdefault(t, [])
            for x in lst:
                if e.kind in ('return', 'stop') or b.And(x.g, e.g, g.care) == 0:
                    x.g = b.Or(x.g, e.g)
                    x.evs.append(e)
                    break
            else:
                x = Effect()
                x.text = t + (' #%d' % (len(lst) + 1) if lst else '')
                x.raw = t
                x.g, x.evs, x.kind, x.line, x.fn, x.file = e.g, [e], e.kind, e.line, e.fn, e.file
                lst.append(x)
                self.effects.append(x)

    def stops(self, evs):
        """Leaving a loop early matters where something happens in the loop, or to the element it stopped at, or where
        what is returned depends on which element that is."""
        g, b = self.g, self.g.b
        out = []
        for e in evs:
            if e.kind == 'stop':
                key = e.args[0]
                el = ['elem(%s)' % g.rend(key), 'idx(%s)' % g.rend(key)] if key.t not in ('while', 'do') else []
                if not any(x.kind not in ('stop', 'log') and b.And(x.g, g.care) and
                           (key in x.loops or any(t in x.text for t in el)) for x in evs) and \
                        not any(x.kind == 'return' and b.And(x.g, e.g, g.care) and
                                any(t in g.view(v) for v in b.support(b.restrict(x.g, b.And(e.g, g.care))) for t in el)
                                for x in evs):
                    continue
                if g.keyloops.get(key, 0) > 1:
                    # several loops over one container: which of them is left is not told apart
                    e.g = 1
            out.append(e)
        return out

    def kill_dead_sets(self, evs):
        """x=a; ...; x=b with nothing in between that can observe a."""
        g, b = self.g, self.g.b
        eff = gsa.effects(g.prog)
        out = []
        later = {}   # location text -> guard of later overwrites still unobserved
        for e in reversed(evs):
            if e.kind == 'set':
                loc = g.rend(e.args[0])
                ov = later.get(loc, 0)
                ng = b.And(e.g, b.Not(ov))
                later[loc] = b.Or(ov, e.g)
                if ng == 0:
                    continue
                if ng != e.g and e.args[0].t == 'f':
                    e.g = ng
            elif e.kind == 'call':
                # any call may observe fields unless its read set is known not to
                rs = None
                f = g.prog.by_name.get(e.name)
                if f:
                    rs = eff.get(e.name, eff.reads)
                if rs is None:
                    if g.lang == 'py' and not PY_EFF.match(e.name) and not PY_EFF.match(gsa.short(e.name)) and not f:
                        # a library function sees only what it is given
                        seen = [g.rend(g.strip(x)) for x in list(e.args) + ([e.base] if e.base is not None else [])]
                        later = {k: v for k, v in later.items() if not any(k != x and k.startswith(x) for x in seen)}
                    elif gsa.short(e.name) in ('insert', 'push_back', 'append', 'add', 'erase', 'clear'):
                        later = {k: v for k, v in later.items() if k.split('.')[-1] not in e.text}
                    else:
                        later = {}
                else:
                    later = {k: v for k, v in later.items() if k.split('.')[-1] not in rs}
            out.append(e)
        out.reverse()
        return out

    # -- dependence between two effects (must their order be kept?)
    def dep(self, a, c):
        g = self.g
        ka, kc = a.kind, c.kind
        if 'return' in (ka, kc) or 'stop' in (ka, kc):
            return False
        if 'log' in (ka, kc) or ka in ('init', 'next', 'lam') or kc in ('init', 'next', 'lam'):
            return False
        ea, ec = a.evs[0], c.evs[0]
        stop = ('abort', 'raise')
        if ka in stop or kc in stop or is_exit(ea) or is_exit(ec):
            return True
        if ka == 'out' and kc == 'out':
            return g.rend(ea.base) == g.rend(ec.base)
        eff = gsa.effects(g.prog)

        def rw(e, kind):
            """(reads, writes, label)"""
            if kind == 'set':
                return set(), {root_name(g, e.args[0])}
            if kind == 'out':
                return set(), {'out:' + g.rend(e.base)}
            f = g.prog.by_name.get(e.name) or (g.prog.by_name.get('*' + gsa.short(e.name)) if g.lang == 'py' and e.base is not None and
                                               e.name not in gsa.PY_MUT and e.name not in gsa.PY_PURE else None)
            if f:
                r, w = set(), set()
                pur = purity(g.prog)
                for x in f:
                    r |= eff.reads[gsa.fkey(x)]
                    w |= eff.mods[gsa.fkey(x)]
                    px = pur.eff.get(gsa.fkey(x), ())
                    for i, a in enumerate(e.args):
                        n = root_name(g, a)
                        if n and ('P', i) in px:
                            w.add(n)
                        roots(g, a, r)
                return r, w
            w = set()
            if e.base is not None:
                n = root_name(g, e.base)
                if n:
                    w.add(n)
            elif g.lang == 'py' and e.name in ('print', 'open') or e.name.startswith('sys.std'):
                w.add('stdout')
            r = set(w)
            for a in e.args:
                roots(g, a, r)
            return r, w
        ra, wa = rw(ea, ka)
        rc, wc = rw(ec, kc)
        if ka == 'call' and kc == 'call' and ea.base is not None and ec.base is not None and not g.prog.by_name.get(ea.name):
            # two insertions into a set/map commute
            if gsa.short(ea.name) in ('insert', 'add') and gsa.short(ec.name) in ('insert', 'add'):
                return False
        wa.discard(None)
        wc.discard(None)
        return bool(wa & wc or wa & rc or ra & wc)


def is_exit(e):
    return e.kind == 'call' and gsa.short(e.name) in ('exit', 'abort', 'sys.exit')


def roots(g, v, out):
    """Containers and fields a value is read from."""
    n = root_name(g, v)
    if n:
        out.add(n)
    for y in v.a:
        if isinstance(y, gsa.V):
            roots(g, y, out)
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, gsa.V):
                    roots(g, z, out)


def root_name(g, v):
    v = g.strip(v)
    while True:
        if v.t == 'f':
            return v.a[1]
        if v.t == 'g':
            return '::' + v.a[0]
        if v.t == 'L':
            return '~%s#%d' % v.a
        if v.t == 'p':
            return '$%d' % v.a[0]
        if v.t in ('at', 'find', 'elem', 'slice') and isinstance(v.a[0], gsa.V):
            v = v.a[0]
            continue
        if v.t == 'c' and v.a[1] is not None:
            v = v.a[1]
            continue
        return None


def canon_text(t):
    return t


# ------------------------------------------------------------ formulas

def canon_dnf(g, f, care, limit=400):
    """DNF of f (simplified by care) in a name-sorted variable order."""
    b = g.b
    f = b.restrict(f, care)
    names = sorted(set(g.view(v) for v in b.support(f)))
    nb = BDD()
    node = {n: nb.new_var(n) for n in names}

    memo = {}

    def go(x):
        if x < 2:
            return x
        if x not in memo:
            memo[x] = nb.ite(node[g.view(b.var[x])], go(b.hi[x]), go(b.lo[x]))
        return memo[x]
    h = go(f)
    cubes = nb.isop(h, limit + 1)
    if len(cubes) > limit:
        raise AnalysisBroken('formula too large')
    out = []
    for c in cubes:
        out.append([(nb.info[v], p) for v, p in sorted(c.items())])
    out.sort(key=lambda c: (len(c), c))
    return out


CONST = re.compile(r'^(re\.compile\(("(\\.|[^"\\])*"[^"]*)*\)|"(\\.|[^"\\])*"|-?\d+|null|true|false|[A-Za-z_][\w]*::[\w:]+|k[A-Z]\w*)$')


INT = re.compile(r'^-?\d+$')


def splits(n, op):
    """The ways n reads as `a op b` with balanced operands."""
    i = n.find(op)
    out = []
    while i >= 0:
        a, c = n[:i], n[i + len(op):]
        if a.count('(') == a.count(')') and a.count('[') == a.count(']') and a.count('"') % 2 == 0:
            out.append((a, c))
        i = n.find(op, i + 1)
    return out


class Matcher:
    """Maps predicate names of a specification onto the atoms of a summary."""

    def __init__(self, g):
        self.g = g
        self.b = g.b
        self.node = {}
        for i in range(len(g.atom_v)):
            self.node[g.view(i)] = self.b.node(i, 0, 1)
        self.theory = None
        self.extra = []

    def lit(self, name):
        n = self.node.get(name)
        if n is None:
            n = self.b.new_var(name)
            self.g.atom_v.append(gsa.mk('spec', name))
            self.node[name] = n
            self.theory = None
        return n

    def dnf(self, cubes, atoms):
        b = self.b
        r = 0
        for c in cubes:
            t = 1
            for x in c:
                n = self.lit(atoms[abs(x) - 1])
                t = b.And(t, n if x > 0 else b.Not(n))
            r = b.Or(r, t)
        return r

    def get_theory(self):
        if self.theory is None:
            b = self.b
            eq = {}
            t = 1
            for n, node in sorted(self.node.items()):
                m = re.match(r"^(.*) == (.*?)'*$", n, re.S)
                if m and CONST.match(m.group(2)):
                    eq.setdefault(m.group(1), []).append((m.group(2), node))
                if n.startswith('has(') and not n.endswith("'"):
                    c = n[4:].split(', ')[0]
                    if c in self.node and c.count('(') == c.count(')'):
                        t = b.And(t, b.Imp(node, self.node[c]))
            for l, xs in eq.items():
                if len(xs) < 24:
                    for i in range(len(xs)):
                        for j in range(i):
                            if xs[i][0] != xs[j][0]:
                                t = b.And(t, b.Not(b.And(xs[i][1], xs[j][1])))
            # order: a < b, b < a and a == b are mutually exclusive and exhaustive
            lows, vals = {}, {}
            for n, node in sorted(self.node.items()):
                if n.endswith("'"):
                    continue
                for a, c in splits(n, ' < '):
                    if INT.match(a):
                        lows.setdefault(c, []).append((int(a), node))
                    le = self.node.get('%s < %s' % (c, a))
                    e = self.node.get('%s == %s' % (a, c))
                    e = e if e is not None else self.node.get('%s == %s' % (c, a))
                    if le is not None:
                        t = b.And(t, b.Not(b.And(node, le)))
                        if e is not None:
                            t = b.And(t, b.Or(node, le, e))
                    if e is not None:
                        t = b.And(t, b.Not(b.And(node, e)))
                for a, c in splits(n, ' == '):
                    if INT.match(c):
                        vals.setdefault(a, []).append((int(c), node))
                if n.startswith('size(') and False:
                    pass
            # equal strings start and end with each other
            for n, node in self.node.items():
                m = re.search(r'\.(?:starts|ends)with\(', n)
                if m and n.endswith(')'):
                    x, y = n[:m.start()], n[m.end():-1]
                    for e in ('%s == %s' % (x, y), '%s == %s' % (y, x)):
                        if e in self.node:
                            t = b.And(t, b.Imp(self.node[e], node))
            # a string that ends with ".h>" ends with ">" as well
            ends = {}
            for n, node in sorted(self.node.items()):
                m = re.match(r'^(EndsWith|StartsWith)\((.*), "([^"]*)"\)$', n, re.S) or re.match(r'^(.*)\.(startswith|endswith|starts_with|ends_with)\("([^"]*)"\)$', n, re.S)
                if m:
                    side = m.group(1) if m.group(1) in ('EndsWith', 'StartsWith') else m.group(2)
                    x = m.group(2) if side is m.group(1) else m.group(1)
                    ends.setdefault(('s' in side[:1].lower(), x), []).append((m.group(3), node))
            for (start, x), l in ends.items():
                for s1, n1 in l:
                    for s2, n2 in l:
                        if s1 != s2:
                            if s1.startswith(s2) if start else s1.endswith(s2):
                                t = b.And(t, b.Imp(n1, n2))
                            elif not (s2.startswith(s1) if start else s2.endswith(s1)):
                                t = b.And(t, b.Not(b.And(n1, n2)))
            # k < a, !(m < c), m <= k  =>  !(a < c), and so on
            for n, node in sorted(self.node.items()):
                for a, c in splits(n, ' < '):
                    if INT.match(a) or n.endswith("'"):
                        continue
                    for k, la in lows.get(a, ()):
                        for m, lc in lows.get(c, ()):
                            if m <= k:
                                t = b.And(t, b.Imp(b.And(la, node), lc))
                            if k <= m:
                                t = b.And(t, b.Imp(b.And(b.Not(la), lc), node))
            # a number is true unless it is zero
            for x in lows:
                if x in self.node:
                    z = self.node.get('%s == 0' % x)
                    if z is not None:
                        t = b.And(t, b.Not(b.Xor(self.node[x], b.Not(z))))
            for x in set(lows) | set(vals):
                lw, vl = sorted(lows.get(x, ())), vals.get(x, ())
                if x.startswith('size(') and x.endswith(')') and x[5:-1] in self.node:
                    lw = sorted(lw + [(0, self.node[x[5:-1]])])
                for (k1, n1), (k2, n2) in zip(lw, lw[1:]):
                    t = b.And(t, b.Imp(n2, n1))
                for m, nm in vl:
                    for k, nk in lw:
                        t = b.And(t, b.Imp(nm, nk if k < m else b.Not(nk)))
                # k < x, !(k+1 < x)  =>  x == k+1
                for m, nm in vl:
                    lo = [n for k, n in lw if k == m - 1]
                    hi = [n for k, n in lw if k == m]
                    if lo and hi:
                        t = b.And(t, b.Imp(b.And(lo[0], b.Not(hi[0])), nm))
            self.theory = t
        return self.theory


def loops(s):
    """Loops that are not iterations over something, by form."""
    return {k: n for k, n in sorted(s.g.shape.items()) if k != 'each' and n}


def reshaped(s, spec):
    """The function's open-ended loops were rewritten in another form (none came or went away): the tables of the
    two forms name loop-carried values differently and cannot be matched."""
    was, now = spec.get('loops', {}), loops(s)
    more = sum(now.values()) - sum(was.values())
    return was != now and more >= 0 and more <= max(0, spec.get('each', 0) - s.g.shape.get('each', 0))


def to_spec(s):
    """The decision table of a Summary in committed form."""
    g = s.g
    # assertions only matter on the predicates the table mentions
    keep = set()
    for e in s.effects:
        keep |= set(g.b.support(e.g))
    care = g.care
    for v in sorted(set(g.b.support(care)) - keep):
        care = g.b.Or(g.b.rename(care, {v: 1}), g.b.rename(care, {v: 0}))
    atoms = []
    idx = {}

    def enc(cubes):
        out = []
        for c in cubes:
            r = []
            for n, p in c:
                if n not in idx:
                    atoms.append(n)
                    idx[n] = len(atoms)
                r.append(idx[n] if p else -idx[n])
            out.append(r)
        return out
    effs = []
    for e in s.effects:
        d = {'do': e.text, 'when': enc(canon_dnf(g, e.g, care)),
             'seq': [min(x.seq for x in e.evs), max(x.seq for x in e.evs)]}
        effs.append(d)
    given = []
    try:
        given = enc(canon_dnf(g, care, 1, 400))
    except AnalysisBroken:
        raise AnalysisBroken('assertion formula too large')
    # compress seq
    pts = sorted(set(x for d in effs for x in d['seq']))
    rk = {p: i for i, p in enumerate(pts)}
    for d in effs:
        d['seq'] = [rk[x] for x in d['seq']]
    r = {'atoms': atoms, 'given': given, 'effects': effs}
    if loops(s):
        r['loops'] = loops(s)
    if s.g.shape.get('each'):
        r['each'] = s.g.shape['each']
    consts = const_pool(g)
    if consts:
        r['consts'] = consts
    return r


def const_pool(g):
    """Values of the named constants the table depends on, transitively."""
    out = {}
    todo = sorted(g.used_globals)
    while todo:
        n = todo.pop()
        d = g.prog.globals.get(n)
        if n in out or d is None or d.get('init') is None:
            continue
        out[n] = gsa.global_value(g.prog, n)
        for x in ir.sub_exprs(d['init']):
            if x[0] == 'g':
                todo.append(x[1])
                if '.' in n:
                    todo.append(n.rsplit('.', 1)[0] + '.' + x[1])
            elif x[0] == 'f' and isinstance(x[1], list) and x[1][:1] == ['g']:
                todo.append(x[1][1] + '.' + x[2])
    return out


def fmt_when(spec, cubes, limit=8):
    if not cubes:
        return 'never'
    if cubes == [[]]:
        return 'always'
    out = []
    for c in cubes[:limit]:
        out.append(' & '.join(('' if x > 0 else '!') + '`%s`' % spec['atoms'][abs(x) - 1] for x in c))
    if len(cubes) > limit:
        out.append('...')
    return ' | '.join(out)


class Mismatch:
    def __init__(self, msg, file, line, kind):
        self.msg, self.file, self.line, self.kind = msg, file, line, kind


def compare(s, spec):
    """Mismatches between a summary of the current tree and the specification."""
    out = compare1(s, spec)
    if not out:
        return out
    # local objects of one type may have been declared in another order
    multi = [(t, n) for t, n in sorted(s.livecount.items()) if 1 < n <= 4]
    perms = [{}]
    for t, n in multi:
        nxt = []
        for p in perms:
            for q in itertools.permutations(range(n)):
                d = dict(p)
                d.update({(t, i): q[i] for i in range(n)})
                nxt.append(d)
        if len(nxt) > 60:
            break
        perms = nxt
    for p in perms[1:]:
        o2 = compare1(Summary(*s.conf, perm=p), spec)
        if not o2:
            return o2
        if len(o2) < len(out):
            out = o2
    return out


def compare1(s, spec):
    g = s.g
    b = g.b
    m = Matcher(g)
    out = []
    ref = {e['do']: e for e in spec['effects']}
    cur = {e.text: e for e in s.effects}
    # create all spec atoms first
    want = {}
    for t, e in ref.items():
        want[t] = m.dnf(e['when'], spec['atoms'])
    have = {t: e.g for t, e in cur.items()}
    if s.fn.lang != 'py' and str(getattr(s.fn, 'ret', '')).rstrip().endswith('*'):
        # returning a pointer known to be null is returning null
        for side in (want, have):
            for t in sorted(side):
                n = m.node.get(t[len('return '):]) if t.startswith('return ') else None
                if n is not None and t != 'return null':
                    nil = b.And(side[t], b.Not(n))
                    if nil:
                        side[t] = b.And(side[t], n)
                        side['return null'] = b.Or(side.get('return null', 0), nil)
        want.setdefault('return null', 0)
        if 'return null' not in ref:
            ref['return null'] = {'do': 'return null', 'when': [], 'seq': [1 << 30, 1 << 30]}
    care = b.And(m.dnf(spec['given'], spec['atoms']), m.get_theory())
    if 'abort ' in want and g.aborted:
        # a failing assertion is an abort like any other
        known = set()
        for t in want:
            known |= set(b.support(want[t]))
        a = b.Or(have.get('abort ', 0), *[x for x in g.aborted if set(b.support(x)) <= known])
        if b.And(care, b.Xor(a, want['abort '])) == 0:
            have['abort '] = a
            care = b.And(care, b.Not(a))
    # implied facts of the current tree on has/emptiness are part of the theory
    for t in ref:
        e = cur.get(t)
        w = want[t]
        c = have.get(t, 0)
        d = b.And(care, b.Xor(w, c))
        if t.startswith('stop ') and 1 in (w, c) and w and c:
            continue
        if d:
            line = e.line if e is not None else s.fn.line
            wit = witness(g, d)
            miss = b.And(care, w, b.Not(c))
            extra = b.And(care, c, b.Not(w))
            what = []
            if e is None:
                what.append('never happens any more (specified when: %s)' % fmt_when(spec, ref[t]['when'], 3))
            else:
                if miss:
                    what.append('does not happen when %s' % witness(g, miss))
                if extra:
                    what.append('also happens when %s' % witness(g, extra))
            out.append(Mismatch('`%s` %s' % (t, '; '.join(what)), s.fn.file, line, 'when'))
    for t, e in cur.items():
        if t not in ref:
            if b.And(care, e.g) == 0:
                continue
            out.append(Mismatch('unspecified effect `%s` when %s' % (t, witness(g, b.And(care, e.g))), e.file, e.line, 'new'))
    for n, v in sorted(spec.get('consts', {}).items()):
        d = g.prog.globals.get(n)
        if d is not None and d.get('init') is not None and gsa.global_value(g.prog, n) != v:
            out.append(Mismatch('constant %s has another value than specified (%s, was %s)' % (n, gsa.global_value(g.prog, n)[:200], v[:200]),
                                d['file'], d['line'], 'const'))
    if not out:
        # order of dependent effects
        ce = [cur[t] for t in ref if t in cur]
        for x in ce:
            for y in ce:
                if x is y:
                    continue
                rx, ry = ref[x.text]['seq'], ref[y.text]['seq']
                if rx[1] < ry[0]:
                    bad = [(p, q) for p in x.evs for q in y.evs if p.seq > q.seq and b.And(p.g, q.g, care)]
                    if bad and s.dep(x, y):
                        p, q = bad[0]
                        out.append(Mismatch('`%s` must precede `%s`' % (x.text, y.text), p.file, p.line, 'order'))
    return out


def witness(g, f, n=6):
    d = g.b.one_path(f)
    if d is None:
        return 'never'
    items = [('' if p else '!') + '`%s`' % g.view(v) for v, p in sorted(d.items(), key=lambda kv: (not kv[1], kv[0]))]
    return ' & '.join(items[:n]) + (' & ...' if len(items) > n else '') if items else 'always'


def find_fn(prog, name, sig=None, file=None, nth=0):
    r = prog.by_name.get(name) or []
    if file:
        r = [f for f in r if f.file == file] or r
    if sig is not None:
        r2 = [f for f in r if (f.sig or '') == sig]
        if r2:
            r = r2
        elif len(r) > 1:
            r = []
    if len(r) == 1:
        return r[0]
    if len(r) > 1:
        # several definitions with one signature (alternatives under a condition)
        return sorted(r, key=lambda f: f.line)[min(nth, len(r) - 1)]
    # renamed: exactly one function unknown to the baseline with the same file and signature
    names = set()
    for k, v in gsa.baseline().items():
        if k.startswith('names:'):
            names |= set(v)
    cand = [f for f in prog.funcs if f.name not in names and file and f.file == file and (sig is None or f.sig == sig)
            and '::'.join(f.name.split('::')[:-1]) == '::'.join(name.split('::')[:-1])]
    if len(cand) == 1:
        return cand[0]
    # a changed signature
    r = prog.by_name.get(name) or []
    if len(r) == 1:
        return r[0]
    raise AnalysisBroken('function %s(%s) not found in the current tree' % (name, sig or ''))


def show(spec):
    for e in spec['effects']:
        print('  %s' % e['do'])
        print('      when %s' % fmt_when(spec, e['when'], 6))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('func')
    ap.add_argument('-s', '--sig')
    ap.add_argument('-i', '--inline', default='')
    ap.add_argument('-o', '--opaque', default='')
    ap.add_argument('-e', '--scope', default=None)
    ap.add_argument('-c', '--cubes', type=int, default=6)
    ap.add_argument('--logs', action='store_true')
    a = ap.parse_args()
    p = gsa.load_any(a.file)
    for f in p.find(a.func, a.sig):
        print('==', f, f.sig)
        s = Summary(p, f, [x for x in a.inline.split(',') if x], [x for x in a.opaque.split(',') if x], a.scope, a.logs)
        sp = to_spec(s)
        for i, x in enumerate(sp['atoms']):
            print('  A%d: %s' % (i + 1, x))
        for e in sp['effects']:
            print('  %s  %s' % (e['seq'], e['do']))
            c = e['when']
            print('        when', 'always' if c == [[]] else ' | '.join(
                ' '.join(('' if x > 0 else '!') + 'A%d' % abs(x) for x in k) for k in c[:a.cubes]) + (' | ...%d' % len(c) if len(c) > a.cubes else ''))
        g = sp['given']
        if g != [[]]:
            print('  given', ' | '.join(' '.join(('' if x > 0 else '!') + 'A%d' % abs(x) for x in k) for k in g[:6]))
        ms = compare(Summary(p, f, [x for x in a.inline.split(',') if x], [x for x in a.opaque.split(',') if x], a.scope, a.logs), sp)
        for mm in ms:
            print('  SELF-MISMATCH', mm.msg)


if __name__ == '__main__':
    main()
