"""Guarded effect summaries.

A forward, path-sensitive dataflow over the structured control-flow of one
function (helpers inlined).  The abstract state maps variables and fields to
symbolic values; joins build gated values ite(guard, a, b); guards are BDDs over
predicate atoms.  Every call, write, output and return becomes an *effect*
(text, guard, order).  Loops are abstracted by zero-or-one generic iteration
over a symbolic element elem(C).  No path is enumerated, nothing is executed.
"""
import hashlib
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from ir import AnalysisBroken, is_e
from bdd import BDD

HERE = os.path.dirname(os.path.abspath(__file__))


class V:
    __slots__ = ('t', 'a', 'i', 'r')
    tab = {}
    n = 0

    def __repr__(self):
        return '<%s %s>' % (self.t, self.a)


def mk(t, *a):
    k = (t,) + tuple(a)
    v = V.tab.get(k)
    if v is None:
        v = V()
        v.t, v.a, v.r = t, a, None
        V.n += 1
        v.i = V.n
        V.tab[k] = v
    return v


NULL = mk('null')
THIS = mk('this')
TRUE = mk('b', True)
FALSE = mk('b', False)

PY_MUT = {'append', 'add', 'update', 'extend', 'insert', 'pop', 'remove', 'discard', 'clear', 'setdefault', 'sort',
          'reverse', 'write', 'popleft', 'appendleft', 'put', 'writelines', 'intersection_update', 'difference_update'}
PY_BOOL = {'startswith', 'endswith', 'isabs', 'exists', 'isdir', 'isfile', 'islink', 'isspace', 'isdigit', 'isalpha', 'isinstance',
           'issubset', 'issuperset', 'isdisjoint', 'any', 'all', 'callable', 'hasattr'}
PY_PURE = {'difference', 'union', 'intersection', 'get', 'keys', 'items', 'values', 'copy', 'count', 'index', 'find', 'strip', 'split',
           'join', 'format'}
PY_STRTY = re.compile(r'^(const )?((std::)?(__cxx11::)?basic_string<[^<>]*>|(std::)?string|(llvm::)?StringRef)$')

SCALARTY = re.compile(r'(?:const )?(?:unsigned |signed )?(?:bool|int|char|long|short|size_t|unsigned|float|double)$|.*\*$')
STRTY = re.compile(r'^(const )?((std::)?(__cxx11::)?basic_string<[^<>]*>|(std::)?string|(llvm::)?StringRef)$')

# lazily computed caches: filling them is not observable
LAZY = {'list', 'tuple', 'iter'}
ITER_IDENT = {'reversed'}


def short(n):
    return n.split('::')[-1]


class Frame:
    __slots__ = ('id', 'parent', 'this', 'locals', 'rets', 'fn', 'lang', 'ctor', 'loopbase')
    n = 0

    def __init__(self, fn, parent=None, this=THIS):
        Frame.n += 1
        self.id = Frame.n
        self.parent = parent
        self.this = this
        self.locals = set()
        self.rets = []       # (guard, value, state)
        self.loopbase = 0
        self.fn = fn
        self.lang = fn.lang if fn else 'c++'


class State:
    __slots__ = ('env', 'mem', 'ver', 'g')

    def __init__(self, env=None, mem=None, ver=None, g=1):
        self.env, self.mem, self.ver, self.g = env or {}, mem or {}, ver or {}, g

    def copy(self):
        return State(dict(self.env), dict(self.mem), dict(self.ver), self.g)


class Event:
    __slots__ = ('kind', 'text', 'name', 'base', 'args', 'g', 'seq', 'line', 'fn', 'loops', 'node', 'file', 'pre')

    def __repr__(self):
        return self.text


class Closure:
    def __init__(self, lam, frame):
        self.lam, self.frame = lam, frame


_baseline = None


def baseline():
    global _baseline
    if _baseline is None:
        p = os.path.join(HERE, 'baseline_funcs.json')
        _baseline = json.load(open(p)) if os.path.exists(p) else {}
    return _baseline


def fkey(f):
    return '%s|%s' % (f.name, f.sig or '')


def strip_lines(e):
    if isinstance(e, list):
        if len(e) > 1 and e[0] == 'lam' and isinstance(e[1], dict):
            return ['lam', len(e[1].get('params') or []), lam_text(e[1])]
        return [strip_lines(x) for x in e if not isinstance(x, dict)]
    return e


def lam_text(lam):
    """Body of a lambda without positions, its variables numbered in order of appearance."""
    names = {p.get('id'): i for i, p in enumerate(lam.get('params') or [])}

    def go(x):
        if isinstance(x, dict):
            return {k: go(v) for k, v in sorted(x.items()) if k != 'l'}
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'v':
                return ['v', names.setdefault(x[2], len(names))]
            return [go(y) for y in x]
        return x
    return go(lam.get('body'))


def const_size(e):
    """Number of nodes of a compile-time constant expression, 0 if it is not one."""
    if not isinstance(e, list) or not e:
        return 0
    if e[0] in ('s', 'n', 'b', 'null', 'e'):
        return 1
    if e[0] == 'list':
        r = [const_size(x) for x in e[1]]
        return 1 + sum(r) if all(r) else 0
    if e[0] == 'c' and e[1] == 'compile' and is_e(e[2], 'g') and e[2][1] == 're':
        r = [const_size(x) for x in e[3]]
        return 1 + sum(r) if all(r) else 0
    if e[0] == 'o' and e[1] in ('-', '+', '*', '|', '<<', '%'):
        r = [const_size(x) for x in e[2]]
        return 1 + sum(r) if all(r) else 0
    return 0


def is_const_global(prog, d):
    c = d.get('cty')
    if c is None:   # Python: never rebound
        w = getattr(prog, '_rebound', None)
        if w is None:
            w = prog._rebound = {}
            for f in prog.funcs:
                for e in ir.all_exprs(f):
                    if e[0] == 'o' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') and is_e(e[2][0], 'g'):
                        w[e[2][0][1]] = w.get(e[2][0][1], 0) + 1
        return w.get(d['name'], 0) <= 1
    return c.startswith('const ') or 'const[' in c or bool(re.match(r'(const )?char \*\[\d+\]|const char', c))


def base_globals(prog, file):
    return baseline().get('globals:' + ('py:' + file if file.endswith('.py') else 'cpp'), {})


def global_value(prog, name):
    """Canonical text of a constant global's initialiser (tables: rows grouped by key, order within a key kept)."""
    d = prog.globals[name]
    init = strip_lines(d['init'])
    if 'IncludeMapEntry' in (d.get('cty') or '') and init[0] == 'list':
        rows = init[1]
        init = ['list', sorted(rows, key=lambda r: json.dumps(r[1][0]) if len(r) > 1 and isinstance(r[1], list) and r[1] else '')]
    t = json.dumps(init)
    if len(t) > 600:
        t = 'sha1:' + hashlib.sha1(t.encode()).hexdigest()
    return t


def global_alias(prog, name):
    d = prog.globals[name]
    bg = base_globals(prog, d['file'])
    if name in bg:
        return name
    v = global_value(prog, name)
    for k, t in sorted(bg.items()):
        if t == v and k not in prog.globals:
            return k
    return name


def is_trivial(f):
    if f.virt or f.inits:
        return False
    b = [s for s in f.body['b'] if s['k'] not in ('log',)] if f.body['k'] == 'blk' else [f.body]
    if f.lang != 'py':          # an accessor that first asserts its precondition
        rest = [s for s in b if s['k'] != 'assert']
        if len(rest) == 1 and rest[0]['k'] == 'ret' and is_e(rest[0].get('e'), 'f'):
            b = rest
    if len(b) != 1 or b[0]['k'] not in ('ret', 'expr') or not b[0].get('e'):
        return False
    n = sum(1 for _ in ir.sub_exprs(b[0]['e']))
    if any(x[0] in ('lam', 'comp') for x in ir.sub_exprs(b[0]['e'])):
        return False
    if any(is_e(x, 'c') and x[1] == f.name for x in ir.sub_exprs(b[0]['e'])):
        return False
    return n <= 8


# ------------------------------------------------------------ effect summaries

# lazily computed caches: filling them is not observable
LAZY = {'header_search_paths', 'public_headers_', 'seen_types_'}


class Effects:
    """Which fields a function may write (mods) / read (reads), transitively."""

    def __init__(self, prog):
        self.prog = prog
        self.mods = {}
        self.reads = {}
        self.callees = {}
        for f in prog.funcs:
            m, r, c = set(), set(), set()
            self.local = set()
            if f.lang != 'py':
                for s in ir.stmts(f.body):
                    if s['k'] == 'decl' and not s.get('ref'):
                        ty = s.get('cty') or s.get('ty') or ''
                        if not re.search(r'\* ?(const)?$', ty) and 'iterator' not in ty and ty not in ('', 'auto'):
                            self.local.add(s['id'])
            for s, e in ir.func_exprs(f):
                for x in ir.sub_exprs(e):
                    if x[0] == 'f':
                        r.add(x[2])
                    elif x[0] == 'g':
                        r.add('::' + x[1])
                    elif x[0] == 'o':
                        if (x[1].endswith('=') and x[1] not in ('==', '!=', '<=', '>=')) or x[1] in ('++', '--', 'p++', 'p--'):
                            m |= self.root(x[2][0])
                    elif x[0] == 'c':
                        fl = x[-1] if isinstance(x[-1], dict) else {}
                        if f.lang == 'py':
                            if x[2] is not None and x[1] in PY_MUT:
                                m |= self.root(x[2])
                            c.add(x[1])
                        else:
                            if fl.get('repo'):
                                c.add(x[1])
                            elif x[1].startswith('?'):
                                # called on a template parameter
                                c.add('*' + short(x[1]))
                            elif x[2] is not None and not fl.get('const') and not x[1].startswith('?') \
                                    and short(x[1]) not in ('begin', 'end', 'find', 'lower_bound', 'upper_bound', 'equal_range', 'at', 'front', 'back', 'rbegin', 'rend', 'data'):
                                m |= self.root(x[2])
                            for i in fl.get('mut', []):
                                if i < len(x[3]) and is_e(x[3][i], 'o') or (i < len(x[3]) and is_e(x[3][i], 'f')):
                                    m |= self.root(x[3][i])
            k = fkey(f)
            self.mods[k], self.reads[k], self.callees[k] = m, r, c
        by = {}
        for f in prog.funcs:
            by.setdefault(f.name, []).append(fkey(f))
            if f.lang == 'py' or f.virt:
                by.setdefault(f.short, []).append(fkey(f))
            if f.lang != 'py':
                by.setdefault('*' + f.short, []).append(fkey(f))
        self.by = by
        changed = True
        while changed:
            changed = False
            for k in self.mods:
                for c in self.callees[k]:
                    for k2 in by.get(c, ()):
                        for d in (self.mods, self.reads):
                            if not d[k2] <= d[k]:
                                d[k] |= d[k2]
                                changed = True

    def root(self, e):
        while True:
            if is_e(e, 'f'):
                if e[2] in LAZY:
                    return set()
                b = e[1]
                while is_e(b, 'f'):
                    b = b[1]
                if is_e(b, 'v') and b[2] in self.local:
                    return set()
                return {e[2]}
            if is_e(e, 'g'):
                return set() if e[1].split('::')[-1] in LAZY else {'::' + e[1]}
            if is_e(e, 'o') and e[1] in ('[]', '*', '&'):
                e = e[2][0]
            elif is_e(e, 'c') and e[2] is not None:
                e = e[2]
            elif is_e(e, 'c') and e[3] and e[1].startswith(('dyn_cast', 'cast', 'FindInMap')):
                e = e[3][0]
            else:
                return set()

    def get(self, name, d):
        out = set()
        for k in self.by.get(name, ()) or ():
            out |= d[k]
        return out


def effects(prog):
    if not hasattr(prog, '_effects'):
        prog._effects = Effects(prog)
    return prog._effects


# ------------------------------------------------------------ the analysis

class Gsa:
    MAXDEPTH = 8

    def __init__(self, prog, inline=(), opaque=(), only_new=False, logs=False, unroll=1, perm=None, rank=None):
        self.used_globals = set()
        self.prog = prog
        self.eff = effects(prog)
        self.inline = set(inline)
        self.opaque = set(opaque)
        self.b = BDD()
        self.atom_of = {}       # V -> node
        self.atom_v = []        # var index -> V
        self.care = 1           # assertions and theory facts
        self.aborted = []       # where each assertion fails
        self.events = []
        self.counted = self.done = 0
        self.loops = []
        self.seq = 0
        self.stack = []
        self.excs = []          # innermost try handlers
        self.raises = []
        self.loopctx = []
        self.keyloops = {}
        self.loopkeys = []      # what the enclosing loops range over
        self.eqs = {}
        self.objs = {}
        self.closures = []
        self.nphi = 0
        self.logs = logs
        self.ninline = 0
        self.used_funcs = set()
        self.ncond = 0
        self.unroll = unroll
        self.views = None
        self.dyn = 0
        self.lcount = {}
        self.perm = perm or {}
        self.fmtc = {}
        self.expcache = {}
        self.gcache = {}
        self.lists = {}
        self.rank = rank
        self.shape = {}

    # ---------------------------------------------------------------- atoms
    def atom(self, v):
        n = self.atom_of.get(v)
        if n is None:
            n = self.b.new_var(v)
            self.atom_of[v] = n
            self.atom_v.append(v)
            b = self.b
            if v.t == '==' and self.is_const(v.a[1]):
                for c2, n2 in self.eqs.setdefault(v.a[0], []):
                    if c2 is not v.a[1] and len(self.eqs[v.a[0]]) < 24:
                        self.care = b.And(self.care, b.Not(b.And(n, n2)))
                self.eqs[v.a[0]].append((v.a[1], n))
                # empty string / emptiness
                if v.a[1].t == 's' and v.a[1].a[0]:
                    ne = self.atom(mk('T', v.a[0]))
                    self.care = b.And(self.care, b.Imp(n, ne))
                if v.a[1].t == 'null':
                    ne = self.atom(mk('T', v.a[0]))
                    self.care = b.And(self.care, b.Imp(n, b.Not(ne)))
            elif v.t == 'isa' and self.lang != 'py' and v.a[1].t not in ('this', 'ite'):
                ne = self.truth(v.a[1])
                self.care = b.And(self.care, b.Imp(n, ne))
            elif v.t == 'has':
                ne = self.atom(mk('T', v.a[0]))
                self.care = b.And(self.care, b.Imp(n, ne))
        return n

    def is_const(self, v):
        return v.t in ('s', 'n', 'e', 'null', 'b')

    def strip(self, v):
        while v.t == 'dc':
            v = v.a[1]
        return v

    def boolv(self, n):
        return TRUE if n == 1 else FALSE if n == 0 else mk('B', n)

    def truth(self, v, depth=0):
        b = self.b
        t = v.t
        if t == 'B':
            return v.a[0]
        if t == 'b':
            return 1 if v.a[0] else 0
        if t == 'n':
            return 1 if v.a[0] else 0
        if t == 's':
            return 1 if v.a[0] else 0
        if t == 'null':
            return 0
        if t == 'op' and v.a[0] == '%' and v.a[1][1] is mk('n', 2) and self.lang == 'py':
            return self.cmp('==', v, mk('n', 1))
        if t in ('e',):
            return 1 if v.a[1] else 0
        if t == 'ite':
            return b.ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2]))
        if t == 'dc':
            return self.atom(mk('isa', v.a[0], self.strip(v.a[1]))) if v.a[0] else 1
        if t == 'this':
            return 1
        if t in ('list',):
            return 1 if v.a[0] else 0
        if t == 'find':                 # iterator / pointer into container
            return self.has(v.a[0], v.a[1])
        if t in ('k', 'new'):
            return 1
        if t == 'size':
            return self.truth(v.a[0])
        if t == 'count':
            return self.has(v.a[0], v.a[1])
        if t == 'c' and v.a[0] in ('strcmp', 'std::strcmp'):
            return b.Not(self.cmp('==', v.a[2][0], v.a[2][1]))
        if t == 'c' and v.a[0] == 'EndsWith' and v.a[1] is None and len(v.a[2]) == 2 and v.a[2][1].t == 's' and v.a[2][1].a[0] and v.a[2][1].a[0].isascii():
            return b.And(self.truth(v.a[2][0]), self.cmp('==', mk('at', v.a[2][0], mk('n', -1)), mk('n', ord(v.a[2][1].a[0][-1]))),
                         self.atom(mk('T', v)) if len(v.a[2][1].a[0]) > 1 else 1)
        if t == 'c' and v.a[0] == 'EndsWith' and v.a[1] is None and len(v.a[2]) == 2 and v.a[2][1].t not in ('s', 'ite', 'cat') and v.a[2][0].t != 'ite':
            x, y = v.a[2]
            nx, ny = mk('size', x), mk('size', y)
            return b.And(b.Not(self.cmp('<', nx, ny)),
                         self.cmp('==', mk('c', 'std::basic_string::substr', x, (self.arith('-', nx, ny), mk('npos')), 0), y))
        return self.atom(mk('T', v))

    def has(self, c, k):
        b = self.b
        if c.t == 'list':
            return b.Or(*[self.cmp('==', k, x) for x in c.a[0]])
        if c.t == 's' and self.lang == 'py' and k.t == 'elem' and 0 < len(c.a[0]) <= 4 and self.charlike(k):
            return b.Or(*[self.cmp('==', k, mk('s', x)) for x in c.a[0]])
        if c.t == 'ite':
            return b.ite(c.a[0], self.has(c.a[1], k), self.has(c.a[2], k))
        if k.t == 'ite':
            return b.ite(k.a[0], self.has(c, k.a[1]), self.has(c, k.a[2]))
        return self.atom(mk('has', c, self.strip(k)))

    def local_get(self, x):
        """d.get(k) on a local dictionary that holds no None (so far)."""
        return self.lang == 'py' and x.t == 'c' and x.a[0] == 'get' and x.a[1] is not None and x.a[1].t == 'L' and len(x.a[2]) == 1 and \
            not any(e.kind == 'set' and e.args[0].t == 'at' and e.args[0].a[0] is x.a[1] and e.args[1].t == 'null' for e in self.events)

    def charlike(self, k):
        """Do the functions analysed compare elements with single characters?"""
        for f in {x.fn for x in self.stack if x.fn is not None}:
            for e in ir.all_exprs(f):
                if e[0] == 'o' and e[1] in ('==', '!=') and len(e[2]) == 2 and any(is_e(x, 's') and len(x[1]) == 1 for x in e[2]) \
                        and any(is_e(x, 'v') for x in e[2]):
                    return True
        return False

    def leaves(self, v, limit=24):
        """[(node, leaf)] of a gated value."""
        if v.t == 'B':
            return [(v.a[0], TRUE), (self.b.Not(v.a[0]), FALSE)]
        out = []

        def go(x, g):
            if len(out) > limit:
                return
            if x.t == 'ite':
                gt = self.b.And(g, x.a[0])
                ge = self.b.And(g, self.b.Not(x.a[0]))
                if gt:
                    go(x.a[1], gt)
                if ge:
                    go(x.a[2], ge)
            else:
                for i, (g2, l2) in enumerate(out):
                    if l2 is x:
                        out[i] = (self.b.Or(g2, g), x)
                        return
                out.append((g, x))
        go(v, 1)
        return out if len(out) <= limit else None

    def cmp(self, op, x, y):
        b = self.b
        if op == '!=':
            return b.Not(self.cmp('==', x, y))
        if op == '>':
            return self.cmp('<', y, x)
        if op == '>=':
            return b.Not(self.cmp('<', x, y))
        if op == '<=':
            return b.Not(self.cmp('<', y, x))
        for v, o, sw in ((x, y, False), (y, x, True)):
            if v.t == 'ite':
                ls = self.leaves(v)
                if ls is not None:
                    return b.Or(*[b.And(g, self.cmp(op, l, o) if not sw else self.cmp(op, o, l)) for g, l in ls])
        if x.t == 'dc' and not self.is_const(y):
            x = self.strip(x)
        if y.t == 'dc' and not self.is_const(x):
            y = self.strip(y)
        if op == '==':
            if x is y:
                return 1
            if self.is_const(x) and self.is_const(y):
                if x.t == y.t:
                    return 0
                if 'b' in (x.t, y.t) and 'n' in (x.t, y.t):
                    return 1 if bool(x.a[0]) == bool(y.a[0]) else 0
                if x.t == 'e' and y.t == 'n' or x.t == 'n' and y.t == 'e':
                    e, n = (x, y) if x.t == 'e' else (y, x)
                    return 1 if e.a[1] == n.a[0] else 0
                if 'null' in (x.t, y.t):
                    return 0
            if self.is_const(x):
                x, y = y, x
            if x.t == 'c' and self.lang != 'py' and x.a[2] is not None:
                # first and last characters of a string
                f = short(x.a[0])
                if f == 'substr' and y.t == 's' and len(y.a[0]) == 1 and len(x.a[2]) == 2 and x.a[2][0] is mk('n', 0) and x.a[2][1] is mk('n', 1):
                    return b.And(self.truth(x.a[1]), self.cmp('==', mk('at', x.a[1], mk('n', 0)), mk('n', ord(y.a[0]))))
                elif f == 'back' and not x.a[2] and x.a[1] is not None and y.t == 'n' and isinstance(y.a[0], int) and 0 < y.a[0] < 128 and \
                        'basic_string' in x.a[0]:
                    x = mk('at', x.a[1], mk('n', -1))
            if x.t == 'B' or y.t == 'B' or y.t == 'b':
                return b.Not(b.Xor(self.truth(x), self.truth(y)))
            if self.lang == 'py' and y.t == 's' and not y.a[0] and x.t == 'c' and x.a[1] is not None and \
                    short(x.a[0]) in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'join', 'read', 'readline', 'decode'):
                return b.Not(self.truth(x))
            if y.t == 'null':
                if x.t == 'idx':
                    return 0
                if self.lang != 'py' or x.t in ('dc', 'find'):
                    return b.Not(self.truth(x))
                if x.t in ('list', 'k', 'cat', 'L', 'c_new'):
                    return 0
                if self.local_get(x):
                    return b.Not(self.hasv(x.a[1], x.a[2][0]))
                if x.t == 'c' and x.a[0].startswith('re.'):
                    return b.Not(self.truth(x))
                if x.t == 'c' and x.a[0] in ('match', 'search', 'fullmatch'):
                    return b.Not(self.truth(x))
            # iterators
            for p, q in ((x, y), (y, x)):
                if p.t == 'find' and (q.t == 'end' and q.a[0] is p.a[0] or q.t == 'npos' or
                                      (q.t == 'n' and q.a[0] == -1)):
                    return b.Not(self.has(p.a[0], p.a[1]))
                if p.t == 'elem' and q.t in ('end', 'npos'):
                    return 0
                if p.t == 'begin' and q.t == 'end' and p.a[0] is q.a[0]:
                    return b.Not(self.truth(p.a[0]))
                if p.t == 'strfind' and (q.t == 'npos' or (q.t == 'n' and q.a[0] == -1)):
                    return b.Not(self.has(p.a[0], p.a[1]))
                if p.t == 'size' and q.t == 'n' and q.a[0] == 0:
                    return b.Not(self.truth(p.a[0]))
                if self.lang != 'py' and q.t == 'n' and q.a[0] == 0 and p.t not in ('phi', '+', '-', 'n', 'c', 'compare', 'count'):
                    return b.Not(self.truth(p))
                if p.t == 'compare' and q.t == 'n' and q.a[0] == 0:
                    return self.cmp('==', p.a[0], p.a[1])
                if p.t == 'c' and short(p.a[0]) in ('find', 'rfind') and q.t == 'n' and q.a[0] == 0 and len(p.a[2]) == 2 and self.lang != 'py' and \
                        p.a[2][1].t == 'n' and p.a[2][1].a[0] == 0 and p.a[2][0].t != 'n' and re.search('basic_string|StringRef', p.a[0]):
                    # found at the front
                    x = p.a[2][0]
                    n = mk('n', len(x.a[0])) if x.t == 's' else mk('size', x)
                    return self.cmp('==', mk('c', 'std::basic_string::substr', p.a[1], (mk('n', 0), n), 0), x)
                if p.t == 'c' and p.a[0] in ('strcmp', 'std::strcmp') and q.t == 'n' and q.a[0] == 0:
                    return self.cmp('==', p.a[2][0], p.a[2][1])
                if q.t == 's' and q.a[0] == '' and self.lang != 'py':
                    return b.Not(self.truth(p))
                if q.t == 's' and q.a[0] == '' and p.t in ('cat',):
                    return b.Not(self.truth(p))
                if p.t == 'count' and q.t == 'n' and q.a[0] in (0, 1):
                    h = self.has(p.a[0], p.a[1])
                    return h if q.a[0] == 1 else b.Not(h)
                if p.t == 'list' and q.t == 'list':
                    if len(p.a[0]) != len(q.a[0]):
                        return 0
                    return b.And(*[self.cmp('==', u, w) for u, w in zip(p.a[0], q.a[0])])
            if not self.is_const(y) and self.rend(x) > self.rend(y):
                x, y = y, x
            if y.t == 'n' and x.t == '-' and False:
                pass
            return self.atom(mk('==', x, y))
        # <
        if self.lang == 'py' and x.t == 'idx' and y.t == 'size' and y.a[0] is x.a[0]:
            return 1
        if x.t == 'n' and y.t == 'n':
            return 1 if x.a[0] < y.a[0] else 0
        if x.t == 'n' and y.t in ('size', 'count'):
            if x.a[0] == 0:
                return self.truth(y.a[0]) if y.t == 'size' else self.has(y.a[0], y.a[1])
            if x.a[0] < 0:
                return 1
        if y.t == 'n' and x.t in ('size', 'count') and y.a[0] <= 1:
            if y.a[0] == 1:
                return b.Not(self.truth(x.a[0]) if x.t == 'size' else self.has(x.a[0], x.a[1]))
            return 0
        if x.t == 'n' and x.a[0] == -1 and y.t == 'strfind':
            return b.Not(self.cmp('==', y, x))
        if y.t == 'n' and y.a[0] == 0 and x.t == 'strfind':
            return self.cmp('==', x, mk('n', -1))
        if self.is_const(y) and y.t == 'n' and isinstance(y.a[0], int):
            # x < n  ==> canonical  not (n-1 < x)
            return b.Not(self.atom(mk('<', mk('n', y.a[0] - 1), x)))
        return self.atom(mk('<', x, y))

    # ---------------------------------------------------------------- values
    def ite(self, g, a, c):
        if g == 1 or a is c:
            return a
        if g == 0:
            return c
        if a.t in ('B', 'b') and c.t in ('B', 'b'):
            return self.boolv(self.b.ite(g, self.truth(a), self.truth(c)))
        if a.t == 'ite' and a.a[0] == g:
            a = a.a[1]
        if c.t == 'ite' and c.a[0] == g:
            c = c.a[2]
        if a is c:
            return a
        return mk('ite', g, a, c)

    def simp(self, v, g):
        """Drop gated alternatives that are impossible under g."""
        b = self.b
        while v.t == 'ite':
            if b.And(g, v.a[0]) == 0:
                v = v.a[2]
            elif b.And(g, b.Not(v.a[0])) == 0:
                v = v.a[1]
            else:
                a, c = self.simp(v.a[1], b.And(g, v.a[0])), self.simp(v.a[2], b.And(g, b.Not(v.a[0])))
                if a is v.a[1] and c is v.a[2]:
                    return v
                return self.ite(v.a[0], a, c)
        return v

    def dist(self, f, v):
        """Apply f to every alternative of a gated value."""
        if v.t == 'ite':
            ls = self.leaves(v)
            if ls is not None:
                out = None
                for g, l in reversed(ls):
                    w = f(l)
                    out = w if out is None else self.ite(g, w, out)
                return out
        return f(v)

    # ---------------------------------------------------------------- render
    def rend(self, v):
        if v.r is None:
            v.r = self._rend(v)
        # guards inside values depend on this instance's atoms: do not cache those
        r = v.r
        if v.t in ('B', 'ite') or '\x01' in r:
            v.r = None
            r = self._rend(v).replace('\x01', '')
        return r

    def rl(self, vs):
        return ', '.join(self.rend(self.strip(x) if isinstance(x, V) else x) for x in vs)

    def _rend(self, v):
        t, a = v.t, v.a
        R = self.rend
        if t == 's':
            return json.dumps(a[0])
        if t == 'n':
            return str(a[0])
        if t == 'b':
            return 'true' if a[0] else 'false'
        if t == 'null':
            return 'null'
        if t == 'e':
            return short(a[0]) if '::' not in a[0] else a[0]
        if t == 'p':
            return '$%d' % a[0]
        if t == 'this':
            return 'this'
        if t == 'g':
            return a[0]
        if t == 'f':
            return '%s.%s' % (R(self.strip(a[0])), a[1])
        if t == 'c':
            base = R(self.strip(a[1])) + '.' if a[1] is not None else ''
            nm = short(a[0]) if a[1] is not None or '<' in a[0] else a[0]
            return '%s%s(%s)' % (base, nm, self.rl(a[2]))
        if t == 'L':
            return '~' + a[0] + ('#%d' % (a[1] + 1) if a[1] else '')
        if t == 'at_ver':
            return R(a[0])
        if t == 'outarg':
            return 'out%d<%s(%s)>' % (a[1], a[0], self.rl(a[3]))
        if t == 'k':
            return '%s{%s}' % (a[0], self.rl(a[1]))
        if t == 'new':
            return 'new ' + R(a[0])
        if t == 'list':
            return '[%s]' % self.rl(a[0])
        if t == 'elem':
            return 'elem(%s)%s' % (R(a[0]), "'" * a[1])
        if t == 'idx':
            return 'idx(%s)' % R(a[0])
        if t == 'at':
            return '%s[%s]' % (R(a[0]), R(self.strip(a[1])))
        if t == 'find':
            return 'find(%s, %s)' % (R(a[0]), R(a[1]))
        if t in ('size', 'count', 'begin', 'end', 'strfind', 'compare'):
            return '%s(%s)' % (t, self.rl(a))
        if t == 'T':
            return R(self.strip(a[0]))
        if t == 'isa':
            return 'isa<%s>(%s)' % (a[0], R(a[1]))
        if t == 'dc':
            return '(%s)%s' % (a[0], R(a[1])) if a[0] else R(a[1])
        if t == 'has':
            return 'has(%s, %s)' % (R(a[0]), R(a[1]))
        if t in ('==', '<'):
            return '%s %s %s' % (R(a[0]), t, R(a[1]))
        if t == 'cat':
            return ' + '.join(R(x) for x in a[0])
        if t == 'op':
            if len(a[1]) == 1:
                return '%s%s' % (a[0], R(a[1][0]))
            return '(' + (' %s ' % a[0]).join(R(x) for x in a[1]) + ')'
        if t == 'B':
            return '\x01{%s}' % self.fmt(a[0])
        if t == 'ite':
            ls = self.leaves(v, 60)
            if ls is None:
                return '\x01(%s ? %s : %s)' % (self.fmt(a[0]), R(a[1]), R(a[2]))
            return '\x01(%s)' % ' ; '.join(sorted('%s -> %s' % (self.fmt(g), R(l)) for g, l in ls))
        if t == 'phi':
            return 'loopvar(%s)' % a[0]
        if t == 'slice':
            return '%s[%s]' % (R(a[0]), ':'.join('' if x.t == 'null' else R(x) for x in a[1:]))
        if t == 'lamv':
            return 'lambda'
        if t == 'fn':
            return '&' + a[0] if self.lang == 'py' or not self.prog.by_name.get(a[0]) else 'lambda'
        if t == 'lp':
            return '@%d' % a[1]
        if t == 'exc':
            return 'exc(%s)' % a[0]
        if t == 'npos':
            return 'npos'
        if t == 'dict':
            return '{%s}' % ', '.join('%s: %s' % (R(k), R(w)) for k, w in a[0])
        return '%s(%s)' % (t, ', '.join(R(x) if isinstance(x, V) else str(x) for x in a))

    def view(self, var):
        """Version-free, instance-distinguished name of a BDD variable."""
        if self.views is None or len(self.views) < len(self.atom_v):
            self.views = []
            seen = {}
            for v in self.atom_v:
                n = self.rend(v)
                k = seen.get(n, 0)
                seen[n] = k + 1
                self.views.append(n + "'" * k)
        return self.views[var]

    def fmt(self, f, limit=40):
        if f == 0:
            return 'false'
        if f == 1:
            return 'true'
        k = self.fmtc.get(f)
        if k is not None:
            return k
        # in name order, so that the text does not depend on evaluation order
        names = {v: self.rend(self.atom_v[v]) for v in self.b.support(f)}
        nb = BDD()
        node = {n: nb.new_var(n) for n in sorted(set(names.values()))}
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x not in memo:
                memo[x] = nb.ite(node[names[self.b.var[x]]], go(self.b.hi[x]), go(self.b.lo[x]))
            return memo[x]
        out = []
        for c in nb.isop(go(f), limit):
            out.append(' & '.join(('' if p else '!') + '`%s`' % nb.info[v] for v, p in sorted(c.items())))
        r = ' | '.join(sorted(out)) or 'false'
        self.fmtc[f] = r
        return r

    def expand(self, v, limit=24):
        """[(guard, value)] with no gated value left inside v, when feasible."""
        if v.t in ('ite', 'B'):
            ls = self.leaves(v)
            if ls:
                out = []
                for gd, l in ls:
                    for g2, l2 in self.expand(l):
                        x = self.b.And(gd, g2)
                        if x:
                            out.append((x, l2))
                return out
            return [(1, v)]
        if not self.gated(v):
            return [(1, v)]
        if v in self.expcache:
            return self.expcache[v]
        # flatten into parts (values and tuples of values), rebuild per alternative
        flat = []
        for x in v.a:
            if isinstance(x, V):
                flat.append(x)
            elif isinstance(x, tuple):
                flat += [y for y in x if isinstance(y, V)]
        alts = [(1, [])]
        for p in flat:
            ls = self.expand(p, limit)
            nxt = []
            for gd, acc in alts:
                for g2, l in ls:
                    x = self.b.And(gd, g2)
                    if x:
                        nxt.append((x, acc + [l]))
            alts = nxt
            if len(alts) > limit:
                self.expcache[v] = [(1, v)]
                return self.expcache[v]
        out = []
        for gd, acc in alts:
            if v.t == 'cat':
                out.append((gd, self.cat(acc)))
                continue
            it = iter(acc)
            a2 = []
            for x in v.a:
                if isinstance(x, V):
                    a2.append(next(it))
                elif isinstance(x, tuple):
                    a2.append(tuple(next(it) if isinstance(y, V) else y for y in x))
                else:
                    a2.append(x)
            out.append((gd, mk(v.t, *a2)))
        self.expcache[v] = out
        return out

    def gated(self, v):
        """Does v contain a gated value?"""
        r = self.gcache.get(v)
        if r is None:
            r = v.t in ('ite', 'B')
            if not r:
                for x in v.a:
                    if isinstance(x, V):
                        r = self.gated(x)
                    elif isinstance(x, tuple):
                        r = any(isinstance(y, V) and self.gated(y) for y in x)
                    if r:
                        break
            self.gcache[v] = r
        return r

    # ---------------------------------------------------------------- events
    def doings(self):
        """How many effects so far that are more than asking a standard container or string."""
        n = len(self.events)
        while self.counted < n:
            e = self.events[self.counted]
            self.counted += 1
            self.done += not (e.kind == 'call' and e.base is not None and e.name.startswith('std::') and
                              short(e.name) in ('find', 'rfind', 'substr', 'size', 'length', 'empty', 'count', 'begin', 'end', 'compare',
                                                'find_first_of', 'find_first_not_of', 'find_last_of', 'find_last_not_of', 'back', 'front', 'at'))
        return self.done

    def put_all(self, base, idx, v, st, line):
        """A list of equal values: writing what is there already, or the same value from some index on."""
        if self.lang != 'py' or not (base.t == 'op' and base.a[0] == '*' and len(base.a[1]) == 2):
            return False
        b = self.b
        fill = [x.a[0][0] for x in base.a[1] if x.t == 'list' and len(x.a[0]) == 1]
        size = [x for x in base.a[1] if x.t == 'size']
        if len(fill) != 1 or len(size) != 1 or fill[0].t != 'b':
            return False
        if idx.t == 'idx' and v.t in ('b', 'B'):
            # (each index is visited once)
            t = self.truth(v)
            s2 = st.copy()
            s2.g = b.And(st.g, t if not fill[0].a[0] else b.Not(t))
            self.emit('set', '=', None, [mk('at', base, idx), mk('b', not fill[0].a[0])], s2, line)
            return True
        if idx.t == 'slicev' and idx.a[1].t == 'null' and idx.a[2].t == 'null' and v.t == 'op' and v.a[0] == '*' and len(v.a[1]) == 2:
            new = [x for x in v.a[1] if x.t == 'list' and len(x.a[0]) == 1]
            k = [x for x in v.a[1] if x.t == 'op' and x.a[0] == '-' and len(x.a[1]) == 2 and x.a[1][0] is size[0] and x.a[1][1] is idx.a[0]]
            if len(new) == 1 and len(k) == 1:
                c = mk('c', 'range', None, (idx.a[0], size[0]), 0)
                s2 = st.copy()
                s2.g = b.And(st.g, self.cmp('<', idx.a[0], size[0]))
                self.emit('set', '=', None, [mk('at', base, mk('elem', c, sum(1 for y in self.loops if y is c))), new[0].a[0][0]], s2, line)
                return True
        return False

    def emit(self, kind, name, base, args, st, line, node=None):
        """Record an effect; gated arguments are split into alternatives."""
        if st.g == 0:
            return
        if self.lists:
            self.note_list(kind, name, base, args, st)
        alts = [(st.g, [])]
        for x in ([base] if base is not None else []) + list(args):
            x = self.simp(x, st.g)
            if self.local_get(x) and self.b.And(st.g, self.b.Not(self.hasv(x.a[1], x.a[2][0]))) == 0:
                x = self.index(x.a[1], x.a[2][0], st)
            ls = [(1, x)]
            if self.gated(x):
                ls = self.expand(x)
            nxt = []
            for g, acc in alts:
                for g2, l in ls:
                    g3 = self.b.And(g, g2)
                    if g3:
                        nxt.append((g3, acc + [l]))
            if len(nxt) > 48:
                nxt = [(g, acc + [x]) for g, acc in alts]
            alts = nxt
        for g, vals in alts:
            bb = vals.pop(0) if base is not None else None
            ev = Event()
            self.seq += 1
            ev.kind, ev.name, ev.base, ev.args, ev.g, ev.seq, ev.line = kind, name, bb, vals, g, self.seq, line
            ev.fn = self.stack[-1].fn.name if self.stack else '?'
            ev.file = self.stack[-1].fn.file if self.stack else '?'
            ev.loops = tuple(self.loops)
            ev.node = node
            ev.pre = None
            if kind == 'call':
                r = '%s(%s)' % (short(name) if bb is not None else name, self.rl(vals))
                ev.text = (self.rend(self.strip(bb)) + '.' if bb is not None else '') + r
            elif kind == 'set':
                ev.text = 'set %s := %s' % (self.rend(vals[0]), self.rend(vals[1]))
            elif kind == 'out':
                ev.text = 'out %s << %s' % (self.rend(bb), self.rend(vals[0]))
            else:
                ev.text = '%s %s' % (kind, self.rl(vals))
            self.events.append(ev)

    def note_list(self, kind, name, base, args, st):
        """Track lists filled by a single append: iterating one is iterating its source."""
        if base is not None and base in self.lists:
            if kind == 'call' and name == 'append' and len(args) == 1 and self.lists[base][0] == 'new':
                n = self.lists[base][1]
                self.lists[base] = (st.g, self.simp(args[0], st.g), tuple(self.loops[n:]), tuple(self.loops[:n]))
            else:
                self.lists[base] = ('no',)
        elif kind == 'set' and args[0] in self.lists:
            self.lists[args[0]] = ('no',)
        elif kind == 'set' and args[0].t == 'at' and args[0].a[0] in self.lists:
            self.lists[args[0].a[0]] = ('no',)
        elif kind == 'call':
            for x in args:
                if x in self.lists and self.prog.by_name.get(name):
                    self.lists[x] = ('no',)

    # ---------------------------------------------------------------- entry
    def run(self, fn, params=None):
        self.lang = fn.lang
        st = State()
        fr = Frame(fn)
        self.top = fr
        for i, p in enumerate(fn.params):
            fr.locals.add(p['id'])
            v = mk('p', i)
            if fn.lang == 'py' and fn.cls and i == 0 and not fn.static:
                v = THIS
            elif fn.lang == 'py' and fn.cls and not fn.static:
                v = mk('p', i - 1)
            st.env[(fr.id, p['id'])] = v
        self.fn_scan(fn, fr)
        self.used_funcs.add(fn.name)
        self.stack.append(fr)
        for s in fn.inits or []:
            self.stmt(s, st, fr)
        self.block(fn.body, st, fr)
        if st.g:
            fr.rets.append((st.g, mk('void'), st))
        self.stack.pop()
        self.rets = [(self.b.And(1, g), v, s) for g, v, s in fr.rets]
        return self

    def fn_scan(self, fn, fr):
        """Which locals are mutated in place (identity objects)."""
        body = fn.body
        muts = getattr(fn, 'nested', None)
        if isinstance(muts, tuple):
            self.mutd = muts[0]
            return
        mut = set()
        for s, e in ir.func_exprs(fn):
            for x in ir.sub_exprs(e):
                if x[0] == 'c':
                    fl = x[-1] if isinstance(x[-1], dict) else {}
                    base = x[2]
                    if is_e(base, 'v'):
                        if fn.lang == 'py':
                            if x[1] in PY_MUT:
                                mut.add(base[2])
                        elif not fl.get('const') and short(x[1]) not in (
                                'begin', 'end', 'find', 'rbegin', 'rend', 'lower_bound', 'upper_bound', 'equal_range', 'at', 'front', 'back', 'data'):
                            mut.add(base[2])
                    for i in fl.get('mut', []):
                        if i < len(x[3]):
                            a = x[3][i]
                            if is_e(a, 'o') and a[1] == '&':
                                a = a[2][0]
                            if is_e(a, 'v'):
                                mut.add(a[2])
                elif x[0] == 'o' and x[1] in ('+=', '|=', '&=', '-=') and fn.lang == 'py' and is_e(x[2][0], 'v'):
                    mut.add(x[2][0][2])
                elif x[0] == 'o' and x[1] == '=' and is_e(x[2][0], 'o') and x[2][0][1] == '[]' and is_e(x[2][0][2][0], 'v'):
                    mut.add(x[2][0][2][0][2])
                elif x[0] == 'o' and x[1] == '[]' and is_e(x[2][0], 'v') and fn.lang != 'py':
                    pass
                elif x[0] == 'o' and x[1] in ('<<',) and fn.lang != 'py':
                    r = ir.stream_root(x)
                    if is_e(r, 'v'):
                        mut.add(r[2])
        fn.nested = (mut,)

    def is_mut(self, fr, vid):
        f = fr
        while f is not None:
            if f.fn is not None and isinstance(f.fn.nested, tuple) and vid in f.fn.nested[0]:
                return True
            f = f.parent
        return False

    # ---------------------------------------------------------------- env
    def key(self, fr, vid):
        f = fr
        while f is not None:
            if vid in f.locals:
                return (f.id, vid)
            f = f.parent
        return (fr.id, vid)

    def rd(self, st, fr, name, vid):
        k = self.key(fr, vid)
        v = st.env.get(k)
        n = 0
        while v is not None and v.t == 'ref' and n < 20:
            v = st.env.get(v.a[0]) if isinstance(v.a[0], tuple) else self.rdloc(st, v.a[0])
            n += 1
        if v is None:
            v = mk('undef', name) if self.lang == 'py' else mk('undef', '')
        if v.t == 'ite':
            v = self.simp(v, st.g)
        return v

    def bump(self, st, k):
        st.ver[k] = st.ver.get(k, 0) + 1

    def rdfield(self, st, base, field):
        def one(b):
            b = self.strip(b)
            k = (b, field)
            if k in st.mem:
                return self.simp(st.mem[k], st.g)
            return mk('f', b, field, st.ver.get(field, 0))
        return self.dist(one, base)

    def rdloc(self, st, loc):
        if loc.t == 'f':
            return self.rdfield(st, loc.a[0], loc.a[1])
        if loc.t == 'at':
            return self.index(loc.a[0], loc.a[1], st)
        return loc

    def merge(self, states):
        """Join of states with disjoint guards."""
        live = [s for s in states if s.g]
        if not live:
            s = states[0]
            r = s.copy()
            r.g = 0
            return r
        if len(live) == 1:
            return live[0].copy()
        b = self.b
        r = live[0].copy()
        for s in live[1:]:
            for d in ('env', 'mem'):
                dr, ds = getattr(r, d), getattr(s, d)
                for k in set(dr) | set(ds):
                    x, y = dr.get(k), ds.get(k)
                    if x is y:
                        continue
                    if x is None or y is None:
                        if d == 'env':
                            dr[k] = x if y is None else y
                            continue
                        cur = mk('f', k[0], k[1], 0)
                        at = mk('at', k[0], k[1][1]) if isinstance(k[1], tuple) and k[1][0] == '[]' else None
                        x = x if x is not None else at or mk('f', k[0], k[1], r.ver.get(k[1], 0))
                        y = y if y is not None else at or mk('f', k[0], k[1], s.ver.get(k[1], 0))
                        if x is y:
                            dr[k] = x
                            continue
                    # choose a small selector: r.g simplified w.r.t. (r.g|s.g)
                    sel = b.restrict(r.g, b.Or(r.g, s.g))
                    dr[k] = self.ite(sel, x, y)
            for k in set(r.ver) | set(s.ver):
                m = max(r.ver.get(k, 0), s.ver.get(k, 0))
                if m:
                    r.ver[k] = m
            r.g = b.Or(r.g, s.g)
        return r

    def assign_state(self, dst, src):
        dst.env, dst.mem, dst.ver, dst.g = src.env, src.mem, src.ver, src.g

    # ---------------------------------------------------------------- statements
    def block(self, s, st, fr):
        if isinstance(s, dict):
            if s['k'] == 'blk':
                for x in s['b']:
                    self.stmt(x, st, fr)
            else:
                self.stmt(s, st, fr)
        elif s:
            for x in s:
                self.stmt(x, st, fr)

    def stmt(self, s, st, fr):
        if st.g == 0:
            # still declare locals for closures
            return
        k = s['k']
        l = s.get('l', 0)
        if k == 'blk':
            self.block(s, st, fr)
        elif k == 'expr':
            self.ev(s['e'], st, fr)
        elif k == 'decl':
            self.decl(s, st, fr)
        elif k == 'decomp':
            v = self.ev(s['e'], st, fr) if s['e'] is not None else mk('undef', '')
            for i, x in enumerate(s['vars']):
                fr.locals.add(x[2])
                st.env[(fr.id, x[2])] = self.tuple_get(v, i, st)
        elif k == 'if':
            self.block(s['pre'], st, fr)
            c = self.cond(s['c'], st, fr)
            if st.g == 0:
                return
            self.ncond += 1
            a, b2 = st.copy(), st.copy()
            a.g = self.b.And(st.g, c)
            b2.g = self.b.And(st.g, self.b.Not(c))
            if a.g:
                self.block(s['t'], a, fr)
            if b2.g:
                self.block(s['f'], b2, fr)
            self.assign_state(st, self.merge([a, b2]))
        elif k in ('while', 'for', 'do', 'rfor'):
            self.loop(s, st, fr)
        elif k == 'switch':
            self.switch(s, st, fr)
        elif k == 'ret':
            v = self.ev(s['e'], st, fr) if s.get('e') is not None else mk('void')
            if st.g:
                fr.rets.append((st.g, self.simp(v, st.g), st.copy()))
                for key in self.loopkeys[fr.loopbase:]:
                    self.emit('stop', 'stop', None, [key], st, l)
            st.g = 0
        elif k == 'brk':
            if not self.loopctx:
                raise AnalysisBroken('break outside loop at line %s' % l)
            self.loopctx[-1]['brk'].append(st.copy())
            self.loopctx[-1].setdefault('brkn', {})[id(self.loopctx[-1]['brk'][-1])] = self.doings()
            st.g = 0
        elif k == 'cont':
            i = len(self.loopctx) - 1
            while i >= 0 and 'cont' not in self.loopctx[i]:
                i -= 1
            self.loopctx[i]['cont'].append(st.copy())
            st.g = 0
        elif k == 'assert' and self.lang != 'py' and len(self.stack) > 1 and is_trivial(fr.fn):
            pass                # a caller is not taken to meet an accessor's precondition
        elif k == 'assert':
            n0 = len(self.events)
            c = self.cond(s['c'], st, fr)
            del self.events[n0:]
            self.care = self.b.And(self.care, self.b.Imp(st.g, c))
            self.aborted.append(self.b.And(st.g, self.b.Not(c)))
        elif k == 'abort':
            self.emit('abort', 'abort', None, [], st, l)
            st.g = 0
        elif k == 'log':
            if self.logs:
                n0 = len(self.events)
                c = self.cond(s['cond'][2][0], st, fr) if s.get('cond') else 0
                st2 = st.copy()
                st2.g = self.b.And(st.g, self.b.Not(c))
                self.ev(s['e'], st2, fr)
                for e in self.events[n0:]:
                    if e.kind == 'out':
                        e.kind = 'log'
                        e.text = 'log ' + e.text[4:]
        elif k == 'raise':
            v = self.ev(s['e'], st, fr) if s.get('e') is not None else mk('reraise')
            self.do_raise(v, st, l)
        elif k == 'try':
            self.try_(s, st, fr)
        elif k == 'def':
            vid = s['v'][2]
            fr.locals.add(vid)
            self.closures.append(('def', s['name'], fr))
            st.env[(fr.id, vid)] = mk('lamv', len(self.closures) - 1)
        elif k in ('case', 'default'):
            pass
        elif k == 'unknown':
            self.emit('unknown', s.get('cls', '?'), None, [], st, l)
        else:
            raise AnalysisBroken('statement kind %s' % k)

    def decl(self, s, st, fr):
        fr.locals.add(s['id'])
        key = (fr.id, s['id'])
        e = s.get('e')
        ty = s.get('ty', '')
        if s.get('ref') and e is not None:
            loc = self.lval(e, st, fr)
            if loc is not None and loc.t in ('ref', 'f'):
                if loc.t == 'ref':
                    st.env[key] = loc
                else:
                    st.env[key] = mk('ref', loc)
                return
            if is_e(e, 'o') and e[1] == '[]' and self.lang != 'py' and self.assigned(fr, s['id']):
                base, idx = self.ev(e[2][0], st, fr), self.ev(e[2][1], st, fr)
                if base.t != 'ite':
                    st.env[key] = mk('ref', mk('at', self.strip(base), idx))
                    return
        cty = s.get('cty', '') or ty
        # trailing qualifiers
        if self.is_mut(fr, s['id']) and not s.get('ref') and not re.search(r'\* ?(const)?$', cty) and not re.match(r'^(const )?(std::)?(_?_?\w*iterator)', cty) and \
                not STRTY.match(cty) and 'lambda' not in cty \
                and not re.match(r'^(const )?(unsigned|int|bool|long|size_t|char)', cty):
            init = self.ev(e, st, fr) if e is not None else None
            o = self.newobj(st, head_type(cty))
            if init is not None and not (init.t == 'k' and not init.a[1]) and not (init.t == 'null'):
                self.emit('set', '=', None, [o, init], st, s.get('l', 0))
            st.env[key] = o
            return
        if e is None:
            v = mk('k', ty, ())
            if STRTY.match(cty) or STRTY.match(ty):
                v = mk('s', '')
        else:
            v = self.ev(e, st, fr)
            if v.t == 'k' and not v.a[1] and (STRTY.match(cty) or STRTY.match(ty)):
                v = mk('s', '')
        st.env[key] = v

    def assigned(self, fr, vid):
        """vid is the target of a plain assignment."""
        return any(x[0] == 'o' and x[1] == '=' and is_e(x[2][0], 'v') and x[2][0][2] == vid
                   for s in ir.stmts(fr.fn.body) for e in ir.stmt_exprs(s) for x in ir.sub_exprs(e))

    def newobj(self, st, ty):
        ty = re.sub(r'^const ', '', ty)
        k = self.lcount.get(ty, 0)
        self.lcount[ty] = k + 1
        if self.rank is not None:
            k = self.rank.get((ty, k), k + 1000)
        o = mk('L', ty, self.perm.get((ty, k), k))
        if ty == 'list' and self.lang == 'py':
            self.lists[o] = ('new', len(self.loops))
        return o

    def tuple_get(self, v, i, st):
        def one(x):
            if x.t == 'list' and i < len(x.a[0]):
                return x.a[0][i]
            if x.t == 'k' and x.a[0].split('<')[0] in ('pair', 'std::pair', 'tuple') and i < len(x.a[1]):
                return x.a[1][i]
            if x.t == 'items':
                return x.a[i]
            if self.lang == 'py':
                return self.index(x, mk('n', i), st)
            return mk('f', x, ('first', 'second')[i] if i < 2 else 'elem%d' % i, 0)
        return self.dist(one, v)

    def cond(self, e, st, fr):
        """Branch condition with short-circuit evaluation; returns a BDD."""
        if is_e(e, 'o') and e[1] in ('&&', '||') and len(e[2]) == 2:
            a = self.cond(e[2][0], st, fr)
            s2 = st.copy()
            s2.g = self.b.And(st.g, a if e[1] == '&&' else self.b.Not(a))
            if s2.g == 0:
                return self.b.And(a, 0) if e[1] == '&&' else a
            c = self.cond(e[2][1], s2, fr)
            # side effects of the right operand
            s1 = st.copy()
            s1.g = self.b.And(st.g, self.b.Not(a) if e[1] == '&&' else a)
            if s2.g != self.b.And(st.g, a if e[1] == '&&' else self.b.Not(a)) or s2.env != st.env or s2.mem != st.mem \
                    or s2.ver != st.ver:
                self.assign_state(st, self.merge([s2, s1]) if s1.g else s2)
            return self.b.And(a, c) if e[1] == '&&' else self.b.Or(a, c)
        if is_e(e, 'o') and e[1] == '!':
            return self.b.Not(self.cond(e[2][0], st, fr))
        return self.truth(self.ev(e, st, fr))

    # ---------------------------------------------------------------- loops
    def carried(self, s, fr):
        """Outer variables that one iteration writes and a later one may read first
        (upward-exposed reads, by a definite-assignment walk over the body)."""
        exposed, written, declared = {}, set(), set()

        def use(v, d):
            if v not in d:
                exposed.setdefault(v, len(exposed))

        def expr(e, d):
            if not isinstance(e, list) or not e:
                return
            if not isinstance(e[0], str):
                for x in e:
                    expr(x, d)
                return
            k = e[0]
            if k == 'v':
                use(e[2], d)
                return
            if k == 'o':
                o = e[1]
                if o == '=':
                    r, t = e[2][1], e[2][0]
                    if is_e(t, 'v') and is_e(r, 'o') and r[1] == '||' and is_e(r[2][0], 'v') and r[2][0][2] == t[2] and pure(r[2][1]):
                        # a flag raised again only raises it
                        expr(r[2][1], d)
                        written.add(t[2])
                        return
                    expr(e[2][1], d)
                    for t in (e[2][0][1] if is_e(e[2][0], 'list') else [e[2][0]]):
                        if is_e(t, 'v'):
                            d.add(t[2])
                            written.add(t[2])
                        else:
                            expr(t, d)
                    return
                if (o.endswith('=') and o not in ('==', '!=', '<=', '>=') or o in ('++', '--', 'p++', 'p--')) and is_e(e[2][0], 'v'):
                    for x in e[2][1:]:
                        expr(x, d)
                    if o in ('|=', '&=') and len(e) > 3 and isinstance(e[3], dict) and e[3].get('b'):
                        written.add(e[2][0][2])
                        return
                    use(e[2][0][2], d)
                    d.add(e[2][0][2])
                    written.add(e[2][0][2])
                    return
                if o in ('&&', '||', '?:', 'ifexp'):
                    expr(e[2][0], d)
                    for x in e[2][1:]:
                        expr(x, set(d))
                    return
            if k == 'lam':
                d2 = set(d)
                for ss in ir.stmts(e[1]['body']):
                    for x in ir.stmt_exprs(ss):
                        expr(x, d2)
                return
            if k == 'c' and e[1].startswith('std::basic_string::') and is_e(e[2], 'v') and isinstance(e[-1], dict) and \
                    short(e[1]) in ('append', 'push_back', 'insert', 'erase') and not e[-1].get('arr'):
                expr(e[3], d)
                use(e[2][2], d)
                d.add(e[2][2])
                written.add(e[2][2])
                return
            for x in e[1:]:
                if isinstance(x, list):
                    expr(x, d)
                elif isinstance(x, dict) and 'kw' in x:
                    for y in x['kw'].values():
                        expr(y, d)

        def tgt(x, d):
            if is_e(x, 'v'):
                d.add(x[2])
                written.add(x[2])
            elif is_e(x, 'list'):
                for y in x[1]:
                    tgt(y, d)
            else:
                expr(x, d)

        def blk(b, d):
            """True if control can fall out of the end."""
            if b is None:
                return True
            if isinstance(b, dict):
                return st1(b, d)
            for x in b:
                if not st1(x, d):
                    return False
            return True

        deep = [0]

        def leaving(b, d):
            """What is written on the way out of the loop no later iteration reads."""
            was = set(written)
            f = blk(b, d)
            if not f and not deep[0] and not any(y['k'] == 'cont' for y in ir.stmts(b)):
                written.intersection_update(was)
            return f

        def st1(x, d):
            if x['k'] not in ('while', 'for', 'do', 'rfor', 'switch', 'try'):
                return st2(x, d)
            deep[0] += 1
            r = st2(x, d)
            deep[0] -= 1
            return r

        def st2(x, d):
            k = x['k']
            if k == 'blk':
                return blk(x['b'], d)
            if k == 'log':
                return True
            if k == 'if':
                blk(x.get('pre'), d)
                expr(x['c'], d)
                a, b = set(d), set(d)
                fa, fb = leaving(x['t'], a), leaving(x['f'], b)
                if fa and fb:
                    d |= a & b
                elif fa:
                    d |= a
                elif fb:
                    d |= b
                return fa or fb
            if k in ('while', 'for', 'do', 'rfor'):
                if k == 'for':
                    blk(x['i'], d)
                blk(x.get('pre'), d)
                if k == 'rfor':
                    expr(x['r'], d)
                d2 = set(d)
                if k in ('while', 'for') and x.get('c') is not None:
                    expr(x['c'], d2)
                if k == 'rfor':
                    if x.get('tgt') is not None:
                        tgt(x['tgt'], d2)
                    else:
                        declared.add(x['var']['id'])
                        d2.add(x['var']['id'])
                        for y in x.get('binds') or []:
                            declared.add(y[2])
                            d2.add(y[2])
                blk(x['b'], d2)
                if k == 'do':
                    expr(x['c'], d2)
                if k == 'for':
                    blk(x['n'], d2)
                if x.get('else'):
                    blk(x['else'], set(d))
                return True
            if k == 'switch':
                blk(x.get('pre'), d)
                expr(x['c'], d)
                d2 = set(d)
                for y in x['b']:
                    if y['k'] in ('case', 'default'):
                        d2 = set(d)
                    else:
                        st1(y, d2)
                return True
            if k == 'try':
                d0 = set(d)
                f = blk(x['b'], d)
                out = [d] if f else []
                for h in x['h']:
                    d2 = set(d0)
                    if h.get('var'):
                        d2.add(h['var'][2])
                        declared.add(h['var'][2])
                    if blk(h['b'], d2):
                        out.append(d2)
                if out:
                    r = set.intersection(*out)
                    d.clear()
                    d.update(r)
                if x.get('else'):
                    blk(x['else'], d)
                if x.get('fin'):
                    blk(x['fin'], d)
                return bool(out)
            if k == 'decl':
                if x.get('e') is not None:
                    expr(x['e'], d)
                declared.add(x['id'])
                d.add(x['id'])
                return True
            if k == 'decomp':
                if x.get('e') is not None:
                    expr(x['e'], d)
                for y in x['vars']:
                    declared.add(y[2])
                    d.add(y[2])
                return True
            if k == 'def':
                declared.add(x['v'][2])
                d.add(x['v'][2])
                return True
            for y in ir.stmt_exprs(x):
                expr(y, d)
            return k not in ('ret', 'brk', 'cont', 'raise', 'abort')

        top = set()
        if s['k'] in ('while', 'for'):
            blk(s.get('pre'), top)
            if s.get('c') is not None:
                conj = [s['c']]
                while any(is_e(x, 'o') and x[1] == '&&' for x in conj):
                    conj = [y for x in conj for y in (x[2] if is_e(x, 'o') and x[1] == '&&' else [x])]
                for x in conj:
                    expr(x, top)
        if s['k'] == 'rfor' and s.get('tgt') is not None:
            tgt(s['tgt'], top)
        elif s['k'] == 'rfor':
            top.add(s['var']['id'])
            declared.add(s['var']['id'])
        blk(s['b'], top)
        if s['k'] == 'do':
            expr(s['c'], top)
        if s['k'] == 'for':
            blk(s['n'], top)
        return [v for v in sorted(exposed, key=exposed.get) if v in written and v not in declared]

    def loopname(self, old):
        nm = self.rend(old) if old.t in ('s', 'n', 'b', 'null', 'list', 'e', 'g') else 'value'
        if old.t == 'B':
            nm = 'bool'
        if len(nm) > 60:
            nm = 'value'
        k = self.lcount.get('phi:' + nm, 0)
        self.lcount['phi:' + nm] = k + 1
        k = self.perm.get(('phi:' + nm, k), k)
        return nm + ('#%d' % k if k else '')

    def assign_effect(self, kind, phi, v, st, l):
        """Record that a loop variable starts as / becomes v."""
        b = self.b
        v = self.simp(v, st.g)
        if v is phi:
            return
        if v.t in ('B', 'b'):
            f, p = self.truth(v), self.truth(phi)
            s2 = st.copy()
            for val, g in ((TRUE, b.And(f, b.Not(p)) if kind == 'next' else f), (FALSE, b.And(b.Not(f), p) if kind == 'next' else b.Not(f))):
                s2.g = b.And(st.g, g)
                self.emit(kind, kind, None, [phi, val], s2, l)
            return
        s2 = st.copy()
        for g2, x in self.expand(v):
            if x is phi and kind != 'init':
                continue
            s2.g = b.And(st.g, g2)
            self.emit(kind, '=' if kind == 'set' else kind, None, [phi, x], s2, l)

    def counter(self, s, fr):
        """(variable, is-iterator, body without the step) if the loop's only step is v += 1."""
        if s['k'] == 'for':
            inc = [x['e'] for x in s['n'] if x['k'] == 'expr']
            if len(inc) != 1 or len(s['n']) != 1:
                return None
            e, body = inc[0], s['b']
        else:
            body = s['b']['b'] if isinstance(s['b'], dict) and s['b']['k'] == 'blk' else s['b'] if isinstance(s['b'], list) else [s['b']]
            if not body or body[-1]['k'] != 'expr':
                return None
            e, body = body[-1]['e'], body[:-1]
            if has_continue(body):
                return None
        if not is_e(e, 'o'):
            return None
        if e[1] in ('++', 'p++') and is_e(e[2][0], 'v') or e[1] == '+=' and is_e(e[2][0], 'v') and is_e(e[2][1], 'n') and e[2][1][1] == 1:
            var = e[2][0][2]
        else:
            return None
        if var in written_vars(body):
            return None
        return var, body

    def iter_loop(self, s, st, fr):
        """Iteration with an explicit iterator from begin() to end()."""
        cn = self.counter(s, fr)
        if not cn:
            return None
        var, body = cn
        v = st.env.get(self.key(fr, var))
        if v is None or v.t not in ('begin', 'ite'):
            return None
        def under(x, t):
            if x.t == 'ite':
                lv = self.leaves(x)
                if lv is None or any(y.t != t for _, y in lv):
                    return None
                return self.dist(lambda y: y.a[0], x)
            return x.a[0] if x.t == t else None
        X = under(self.simp(v, st.g), 'begin')
        if X is None:
            return None
        c = s['c']
        if not (is_e(c, 'o') and c[1] == '!='):
            return None
        a, e = c[2]
        if is_e(e, 'v') and e[2] == var:
            a, e = e, a
        if not (is_e(a, 'v') and a[2] == var):
            return None
        hv = self.ev_quiet(e, st, fr)
        if under(self.simp(hv, st.g), 'end') is not X:
            return None
        return ('iter', var, None, X)

    def counter_loop(self, s, st, fr):
        """A loop counting v up to an invariant bound, as an iteration over range(lo, hi)."""
        if s.get('else'):
            return None
        cn = self.counter(s, fr)
        if not cn or s.get('c') is None:
            return None
        var, body = cn
        lo = st.env.get(self.key(fr, var))
        if lo is None or lo.t in ('ref', 'L', 'begin', 'find', 'lamv') or lo.t == 'phi' and self.lang != 'py':
            return None
        lo = self.simp(lo, st.g)
        his, extra = [], []
        for x in conjuncts(s['c']):
            hi = None
            if is_e(x, 'o') and x[1] in ('<', '<=', '!=', '>', '>='):
                a, e = x[2]
                op = x[1]
                if is_e(e, 'v') and e[2] == var:
                    a, e = e, a
                    op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
                if is_e(a, 'v') and a[2] == var and op in ('<', '<=', '!=') and not any(
                        y[0] == 'v' and y[2] == var for y in ir.sub_exprs(e)) and self.invariant(e, body, fr, st):
                    n0 = len(self.events)
                    hi = self.ev_quiet(e, st, fr)
                    if op == '<=':
                        hi = self.arith('+', hi, mk('n', 1))
            if hi is not None:
                his.append(hi)
            else:
                extra.append(x)
        if not his or any(h.t in ('null', 's') or h.t == 'end' and not (
                lo.t == 'c' and lo.a[1] is not None and self.strip(lo.a[1]) is self.strip(h.a[0])) for h in his):
            return None
        his = sorted(set(his), key=self.rend)
        hi = his[0]
        for h in his[1:]:
            hi = mk('c', 'min' if self.lang == 'py' else 'std::min', None, (hi, h), 0)
        off = None
        if hi.t == 'op' and hi.a[0] == '+' and self.lang != 'py':
            parts = list(hi.a[1])
            if lo in parts and len(parts) == 2:
                off = parts[1 - parts.index(lo)]
        if off is not None and self.derefs(var, body):
            # a pointer running over an array
            c = mk('c', 'range', None, (off,), 0)
            return {'id': var, 'key': self.key(fr, var), 'c': c, 'hi': hi, 'extra': extra, 'body': body, 'ptr': lo, 'lo': lo}
        c = mk('c', 'range', None, (hi,) if lo.t == 'n' and lo.a[0] == 0 else (lo, hi), 0)
        return {'id': var, 'key': self.key(fr, var), 'c': c, 'hi': hi, 'extra': extra, 'body': body, 'lo': lo}

    def derefs(self, var, body):
        for s in ir.stmts(body):
            for e in ir.stmt_exprs(s):
                for x in ir.sub_exprs(e):
                    if x[0] == 'f' and is_e(x[1], 'v') and x[1][2] == var or \
                            x[0] == 'o' and x[1] == '*' and len(x[2]) == 1 and is_e(x[2][0], 'v') and x[2][0][2] == var:
                        return True
        return False

    def invariant(self, e, body, fr, st):
        """e reads nothing the loop body may change."""
        w = written_vars(body)
        names = set()
        for x in ir.sub_exprs(e):
            if x[0] == 'v':
                if x[2] in w:
                    return False
                names.add(x[2])
            elif x[0] == 'f':
                names.add(x[2])
            elif x[0] == 'g':
                names.add('::' + x[1])
            elif x[0] in ('lam', 'comp') or x[0] == 'o' and (x[1] in ('++', '--', 'p++', 'p--') or x[1].endswith('=') and x[1] not in (
                    '==', '!=', '<=', '>=')):
                return False
        for st1 in ir.stmts(body):
            if st1['k'] == 'log':
                continue
            for e1 in ir.stmt_exprs(st1):
                for x in ir.sub_exprs(e1):
                    if x[0] == 'c':
                        fl = x[-1] if isinstance(x[-1], dict) else {}
                        if x[2] is not None and (x[1] in PY_MUT if self.lang == 'py' else not fl.get('const') and not fl.get('repo')):
                            sn = short(x[1])
                            if sn not in ('begin', 'end', 'find', 'at', 'front', 'back', 'data') and mention(x[2]) & names:
                                return False
                        for i in fl.get('mut', []):
                            if i < len(x[3]) and mention(x[3][i]) & names:
                                return False
                        if self.eff.get(x[1], self.eff.mods) & names:
                            return False
                    elif x[0] == 'o' and x[1].endswith('=') and x[1] not in ('==', '!=', '<=', '>='):
                        if is_e(x[2][0], 'f') and x[2][0][2] in names:
                            return False
                        if is_e(x[2][0], 'g') and '::' + x[2][0][1] in names:
                            return False
        return True

    def iterate(self, c, st):
        """(non-empty guard, element, containers) of one generic iteration over c."""
        b = self.b
        if c.t == 'at_ver':
            c = self.strip(c)
        if c.t == 'ite':
            ls = self.leaves(c)
            if ls is not None:
                ne, el, push = 0, None, [c]
                for g, x in ls:
                    n1, e1, p1 = self.iterate(x, st)
                    ne = b.Or(ne, b.And(g, n1))
                    el = e1 if el is None else self.ite(g, e1, el)
                return ne, el, push
        depth = lambda x: sum(1 for y in self.loops if y is x)
        if c.t == 'c' and c.a[0] == 'range' and c.a[1] is None and len(c.a[2]) in (1, 2):
            lo, hi = (mk('n', 0), c.a[2][0]) if len(c.a[2]) == 1 else c.a[2]
            if lo.t == 'n' and lo.a[0] == 0:
                if hi.t == 'size':
                    x = hi.a[0]
                    return self.truth(x), mk('idx', x, depth(x)), [x]
                c = mk('c', 'range', None, (hi,), 0)
            return self.cmp('<', lo, hi), mk('elem', c, depth(c)), [c]
        if c.t == 'slice' and len(c.a) == 4 and c.a[3].t == 'null':
            x = c.a[0]
            ne, i, push = self.iterate(self.slice_range(c), st)
            return ne, self.index(x, i, st), push
        if c.t == 'c' and c.a[0] == 'enumerate' and c.a[1] is None and c.a[2]:
            x = c.a[2][0]
            start = c.a[2][1] if len(c.a[2]) > 1 else mk('n', 0)
            if start.t == 'op' and start.a[0] == 'start=':
                start = start.a[1][0]
            if x.t == 'slice' and len(x.a) == 4 and x.a[3].t == 'null':
                r = self.slice_range(x)
                ne, i, push = self.iterate(r, st)
                el = self.index(x.a[0], i, st)
                lo = r.a[2][0] if len(r.a[2]) == 2 else mk('n', 0)
                if lo is start:
                    return ne, mk('list', (i, el), 'Tuple'), push
                return ne, mk('list', (self.arith('+', self.arith('-', i, lo), start), el), 'Tuple'), push
            ne, el, push = self.iterate(x, st)
            return ne, mk('list', (self.arith('+', mk('idx', x, depth(x)), start), el), 'Tuple'), push
        if c.t == 'c' and c.a[1] is not None and not c.a[2] and c.a[0] in ('items', 'keys', 'values') and self.lang == 'py':
            d = c.a[1]
            key = mk('elem', d, depth(d))
            v = key if c.a[0] == 'keys' else mk('at', d, key)
            return self.truth(d), mk('list', (key, v), 'Tuple') if c.a[0] == 'items' else v, [d]
        if c.t == 'c' and c.a[0] == 'sorted' and len(c.a[2]) == 1 and c.a[2][0].t == 'c' and c.a[2][0].a[0] in ('items', 'keys') \
                and c.a[2][0].a[1] is not None:
            d = c.a[2][0].a[1]
            sd = mk('c', 'sorted', None, (d,), 0)
            key = mk('elem', sd, depth(sd))
            return self.truth(self.container_of(d)), mk('list', (key, mk('at', d, key)), 'Tuple') if c.a[2][0].a[0] == 'items' else key, [sd]
        li = self.lists.get(c)
        if li and len(li) == 4 and tuple(self.loops[:len(li[3])]) == li[3] and not any(x in self.loops for x in li[2]):
            return li[0], li[1], list(li[2]) or [c]
        x = self.container_of(c)
        if x is not c and x.t == 'c' and x.a[0] == 'range':
            ne = self.iterate(x, st)[0]
        else:
            ne = self.truth(self.cver(x, st))
        return ne, mk('elem', self.strip(c), depth(c)), [c]

    def slice_range(self, c):
        x, lo, hi = c.a[:3]
        size = mk('size', x)
        if lo.t == 'null':
            lo = mk('n', 0)
        elif lo.t == 'n' and lo.a[0] < 0:
            lo = mk('op', '-', (size, mk('n', -lo.a[0])))
        if hi.t == 'null':
            hi = size
        elif hi.t == 'n' and hi.a[0] < 0:
            hi = mk('op', '-', (size, mk('n', -hi.a[0])))
        return mk('c', 'range', None, (hi,) if lo.t == 'n' and lo.a[0] == 0 else (lo, hi), 0)

    def member_loop(self, s):
        """`for (e : xs) if (e == X) <leave>` with neither X nor the branch about e."""
        if s.get('else'):
            return None
        body = blist(s['b'])
        if s.get('tgt') is not None:
            if s['tgt'][0] != 'v':
                return None
            vid = s['tgt'][2]
        else:
            vid = s['var']['id']
        if len(body) != 1 or body[0]['k'] != 'if' or body[0].get('pre') or blist(body[0].get('f')):
            return None
        then = blist(body[0]['t'])
        if not then or then[-1]['k'] not in ('ret', 'brk') or any(x['k'] in ('brk', 'cont', 'while', 'for', 'do', 'rfor') for x in ir.stmts(then[:-1])):
            return None
        if then[-1]['k'] == 'brk':
            then = then[:-1]
        c = body[0]['c']
        if c[0] == 'o' and c[1] == '==' and len(c[2]) == 2:
            p, q = c[2]
        elif c[0] == 'c' and re.search(r'operator==$', c[1]):
            p, q = ([c[2]] if c[2] is not None else []) + list(c[3])
        else:
            return None
        isv = lambda e: is_e(e, 'v') and e[2] == vid
        if isv(q):
            p, q = q, p
        if not isv(p) or any(isv(e) for e in ir.sub_exprs(q)) or any(isv(e) for x in ir.stmts(then) for y in ir.stmt_exprs(x) for e in ir.sub_exprs(y)):
            return None
        return q, then

    def loop(self, s, st, fr):
        b = self.b
        k = s['k']
        l = s.get('l', 0)
        elem_key = None
        if k == 'rfor':
            self.block(s.get('pre') or [], st, fr)
            c = self.ev(s['r'], st, fr)
            if c.t == 'list' and len(c.a[0]) <= 8 and not any(x.t == 'ite' for x in c.a[0]):
                return self.unrolled(s, c, st, fr)
            m = self.member_loop(s)
            if m:
                # a search for one value: a membership test
                x, then = m
                n0 = len(self.events)
                st2 = st.copy()
                xv = self.ev(x, st2, fr)
                if len(self.events) == n0:
                    return self.stmt({'k': 'if', 'pre': [], 'c': ['#val', self.boolv(self.has(self.cver(c, st), xv))], 't': then, 'f': [], 'l': l}, st, fr)
                del self.events[n0:]
            if c.t == 'ite':
                ls = self.leaves(c, 6)
                if ls and any(x.t == 'list' and not x.a[0] or x.t == 'k' and not x.a[1] or x.t == 'null' for _, x in ls):
                    pass
        if k == 'rfor' and is_e(s['r'], 'comp') and s.get('tgt') is not None and not s.get('else') and \
                s['r'][-1].get('kind') in ('ListComp', 'GeneratorExp') and not any(x['k'] in ('brk', 'ret') for x in ir.stmts(s['b'])):
            return self.block(desugar_comp(s), st, fr)
        info = None
        if k == 'while' and s.get('pre') and not s.get('else'):
            # a condition declaration: tested and left inside
            s = {'k': 'while', 'pre': [], 'c': ['b', True], 'l': l, 'else': [],
                 'b': list(s['pre']) + [{'k': 'if', 'pre': [], 'c': s['c'], 't': [], 'f': [{'k': 'brk', 'l': l}], 'l': l}] + blist(s['b'])}
        elif k == 'while' and s['c'][0] in ('b', 'n') and s['c'][1] and not s.get('else'):
            body = blist(s['b'])
            if body and body[0]['k'] == 'if' and not body[0].get('pre') and not blist(body[0].get('f')) and \
                    [x['k'] for x in blist(body[0]['t'])] == ['brk']:
                s = dict(s, c=['o', '!', [body[0]['c']], {}], b=body[1:])
        if k == 'for':
            for x in s['i']:
                self.stmt(x, st, fr)
        cnt = None
        if k in ('for', 'while'):
            info = self.iter_loop(s, st, fr)
            if info:
                c = info[3]
            else:
                cnt = self.counter_loop(s, st, fr)
                if cnt:
                    info = ('count', cnt['id'])
                    c = cnt['c']
                    s = dict(s, b=cnt['body'])
        if k == 'while' and not info and not s.get('pre') and not s.get('else') and s['c'][0] not in ('b', 'n'):
            # entered at least once: a do loop
            s2 = st.copy()
            n0 = len(self.events)
            cg = self.cond(s['c'], s2, fr)
            quiet = len(self.events) == n0
            del self.events[n0:]
            if quiet and b.And(st.g, b.Not(cg)) == 0:
                k = 'do'
                s = dict(s, k='do')
        self.shape['each' if k == 'rfor' or info else k] = self.shape.get('each' if k == 'rfor' or info else k, 0) + 1
        # loop-carried variables: unknown at the loop head, with their first
        # and next values recorded as effects
        carry, held = [], []
        for vid in self.carried(s, fr):
            key = self.key(fr, vid)
            if info and vid == info[1]:
                continue
            old = st.env.get(key)
            if old is not None and old.t == 'L' and self.lang == 'py':
                held.append((key, old))
            if old is None or old.t in ('L', 'ref', 'lamv'):
                continue
            old = self.simp(old, st.g)
            name = self.loopname(old)
            phi = mk('phi', name)
            carry.append((key, phi))
            if old.t == 'B' or old.t == 'b':
                n = self.truth(phi)
                self.assign_effect('init', phi, old, st, l)
                st.env[key] = self.boolv(n)
            else:
                self.assign_effect('init', phi, old, st, l)
                st.env[key] = phi
        ctx = {'brk': [], 'cont': []}
        skip = st.copy()
        body = st.copy()
        npush = 1
        if k == 'rfor' or info:
            ne, el, push = self.iterate(c, st)
            npush = len(push)
            skip.g = b.And(st.g, b.Not(ne))
            body.g = b.And(st.g, ne)
            if body.g == 0:
                if cnt:
                    skip.env[cnt['key']] = cnt['lo'] if cnt['lo'].t == 'phi' else cnt['hi']
                self.assign_state(st, skip)
                return
            if k == 'rfor':
                self.bind_elem(s, c, el, body, fr)
            elif cnt:
                body.env[cnt['key']] = el if 'ptr' not in cnt else self.index(cnt['ptr'], el, st)
                skip.env[cnt['key']] = cnt['lo'] if cnt['lo'].t == 'phi' else cnt['hi']
            else:
                body.env[self.key(fr, info[1])] = el
            self.loops += push
        elif k == 'do':
            skip.g = 0
            self.loops.append(mk('do'))
        else:
            if s.get('pre'):
                self.block(s['pre'], body, fr)
            cg = self.cond(s['c'], body, fr)
            skip = body.copy()
            skip.g = b.And(body.g, b.Not(cg))
            body.g = b.And(body.g, cg)
            self.loops.append(mk('while'))
        self.loopctx.append(ctx)
        key = push[0] if k == 'rfor' or info else self.loops[-1]
        self.loopkeys.append(key)
        self.keyloops[key] = self.keyloops.get(key, 0) + 1
        for x in (cnt or {}).get('extra', ()):
            cg = self.cond(x, body, fr)
            brk = body.copy()
            brk.g = b.And(body.g, b.Not(cg))
            body.g = b.And(body.g, cg)
            if brk.g:
                ctx['brk'].append(brk)
        nstart = self.doings()
        if body.g:
            self.block(s['b'], body, fr)
        self.loopctx.pop()
        for x in ctx['brk']:
            if self.loopkeys[-1].t == 'while' and ctx.get('brkn', {}).get(id(x)) == nstart:
                continue        # left before anything happened: a loop condition
            self.emit('stop', 'stop', None, [self.loopkeys[-1]], x, l)
        self.loopkeys.pop()
        ends = [body] + ctx['cont']
        end = self.merge(ends)
        if cnt and end.g:
            end.env[cnt['key']] = cnt['hi']
        if k == 'for' and not info and end.g:
            for x in s['n']:
                self.stmt(x, end, fr)
        if k == 'do' and end.g:
            cg = self.cond(s['c'], end, fr)
            s2 = end.copy()
            s2.g = b.And(end.g, cg)
            self.emit('again', 'again', None, [], s2, l)
        for key, phi in carry:
            v = end.env.get(key)
            if v is not None and end.g:
                self.assign_effect('next', phi, v, end, l)
                end.env[key] = skip.env[key]
        for key, o in held:
            # a container variable rebound to a value derived from what it held: its contents change
            v = end.env.get(key)
            if v is not None and v is not o and end.g:
                self.assign_effect('set', o, v, end, l)
                end.env[key] = o
                self.mutate(o, None, end)
        del self.loops[len(self.loops) - npush:]
        done = self.merge([skip, end])
        if s.get('else'):
            self.block(s['else'], done, fr)
        infinite = (k in ('while', 'for') and not info and is_e(s['c'], 'b') and s['c'][1]) or \
                   (k == 'while' and is_e(s['c'], 'n') and s['c'][1])
        if infinite:
            outs = ctx['brk']
            if not outs:
                st.g = 0
                return
            r = self.merge(outs)
            # the loop is left by one of its breaks, in some iteration
            r.g = self.b.Or(r.g, 0)
            self.assign_state(st, r)
            return
        self.assign_state(st, self.merge([done] + ctx['brk']))

    def container_of(self, c):
        """The container whose non-emptiness an iteration over c tests."""
        n = 0
        while n < 6:
            n += 1
            if c.t == 'c' and c.a[0] in ('sorted', 'enumerate', 'reversed', 'list', 'tuple', 'set') and c.a[2]:
                c = c.a[2][0]
            elif c.t == 'c' and c.a[1] is not None and c.a[0] in ('items', 'keys', 'values') and not c.a[2]:
                c = c.a[1]
            else:
                break
        return c

    def unrolled(self, s, c, st, fr):
        ctx = {'brk': [], 'cont': []}
        self.loopctx.append(ctx)
        for el in c.a[0]:
            self.bind_elem(s, c, el, st, fr)
            ctx['cont'] = []
            self.block(s['b'], st, fr)
            self.assign_state(st, self.merge([st] + ctx['cont']))
        self.loopctx.pop()
        if s.get('else'):
            self.block(s['else'], st, fr)
        self.assign_state(st, self.merge([st] + ctx['brk']))

    def bind_elem(self, s, c, el, st, fr):
        if s.get('tgt') is not None:
            self.bind_tgt(s['tgt'], c, el, st, fr)
            return
        var = s['var']
        fr.locals.add(var['id'])
        st.env[(fr.id, var['id'])] = el
        for i, x in enumerate(s.get('binds') or []):
            fr.locals.add(x[2])
            st.env[(fr.id, x[2])] = self.tuple_get(el, i, st)

    def bind_tgt(self, tgt, c, el, st, fr):
        self.assign(tgt, el, st, fr, 0, quiet=True)

    # ---------------------------------------------------------------- switch
    def switch(self, s, st, fr):
        b = self.b
        self.block(s['pre'], st, fr)
        v = self.ev(s['c'], st, fr)
        base = st.copy()
        cases = []
        for x in s['b']:
            if x['k'] == 'case':
                cv = self.ev(x['v'], st, fr)
                cases.append(self.cmp('==', v, cv))
        anyc = b.Or(*cases)
        cur = st.copy()
        cur.g = 0
        ctx = {'brk': []}
        self.loopctx.append(ctx)
        i = 0
        hasdef = False
        for x in s['b']:
            if x['k'] == 'case':
                e = base.copy()
                e.g = b.And(base.g, cases[i])
                i += 1
                cur = self.merge([cur, e]) if cur.g else e
            elif x['k'] == 'default':
                hasdef = True
                e = base.copy()
                e.g = b.And(base.g, b.Not(anyc))
                cur = self.merge([cur, e]) if cur.g else e
            else:
                self.stmt(x, cur, fr)
        self.loopctx.pop()
        outs = [cur] + ctx['brk']
        if not hasdef:
            e = base.copy()
            e.g = b.And(base.g, b.Not(anyc))
            outs.append(e)
        self.assign_state(st, self.merge(outs))

    # ---------------------------------------------------------------- exceptions
    def do_raise(self, v, st, line):
        ty = v.a[0] if v.t in ('k', 'c', 'g') else v.t
        if v.t == 'c':
            ty = v.a[0]
        if st.g == 0:
            return
        for h in reversed(self.excs):
            for hd in h['handlers']:
                if self.exc_match(ty, hd['types']):
                    hd['in'].append((st.copy(), v))
                    st.g = 0
                    return
        self.emit('raise', 'raise', None, [v], st, line)
        st.g = 0

    EXC_PARENT = {'IOError': 'OSError', 'FileNotFoundError': 'OSError', 'UnicodeDecodeError': 'ValueError',
                  'UnicodeEncodeError': 'ValueError', 'UnicodeError': 'ValueError'}

    def exc_match(self, ty, types):
        if '*' in types or 'Exception' in types or 'BaseException' in types:
            return True
        n = 0
        while ty and n < 5:
            if ty in types:
                return True
            rec = self.prog.records.get(ty)
            ty = self.EXC_PARENT.get(ty) or ((rec.get('bases') or [None])[0] if rec else None)
            n += 1
        return False

    def try_(self, s, st, fr):
        b = self.b
        h = {'handlers': [dict(types=x['types'], h=x, **{'in': []}) for x in s['h']]}
        pre = st.copy()
        n0 = len(self.events)
        self.excs.append(h)
        r0 = len(fr.rets)
        self.block(s['b'], st, fr)
        self.excs.pop()
        bodyevs = self.events[n0:]
        nr = len(fr.rets) - r0
        first = next((e for e in bodyevs if e.kind == 'call'), None)
        outs = []
        normal = st
        taken = 0
        for hd in h['handlers']:
            # implicit exceptions raised by opaque calls in the body
            name = '%s@%s' % ('/'.join(sorted(hd['types'])), first.text if first else '?')
            if first and hd['types'] == ['ValueError'] and first.name == 'index' and len(first.args) == 1 and first.base is not None and \
                    all(e.name == 'index' and e.text == first.text for e in bodyevs if e.kind == 'call'):
                # list.index fails for what is not in the list
                x = b.Not(self.hasv(first.base, first.args[0]))
            else:
                x = self.atom(mk('exc', name))
            implicit = bool(first)
            entry = []
            if implicit:
                e = pre.copy()
                # variables assigned in the body are unknown: keep pre-state
                e.g = b.And(pre.g, x, b.Not(taken))
                entry.append((e, mk('excv', '/'.join(sorted(hd['types'])))))
                taken = b.Or(taken, x)
            entry += hd['in']
            if not entry:
                continue
            sts = []
            for e, v in entry:
                if hd['h'].get('var'):
                    vid = hd['h']['var'][2]
                    fr.locals.add(vid)
                    e.env[(fr.id, vid)] = v
                sts.append(e)
            m = self.merge(sts) if len(sts) > 1 else sts[0]
            self.block(hd['h']['b'], m, fr)
            outs.append(m)
        if taken:
            # nothing after the call that fails happens
            fr.rets[r0:] = [(b.And(r[0], b.Not(taken)),) + tuple(r[1:]) if k < nr else r for k, r in enumerate(fr.rets[r0:])]
            for e in bodyevs[bodyevs.index(first) + 1:]:
                e.g = b.And(e.g, b.Not(taken))
        if normal.g:
            normal.g = b.And(normal.g, b.Not(taken))
            if s.get('else'):
                self.block(s['else'], normal, fr)
            outs.append(normal)
        r = self.merge(outs) if outs else st
        if s.get('fin'):
            self.block(s['fin'], r, fr)
        self.assign_state(st, r)

    # ---------------------------------------------------------------- lvalues
    def lval(self, e, st, fr):
        if is_e(e, 'o') and e[1] in ('*', '&') and len(e[2]) == 1:
            return self.lval(e[2][0], st, fr)
        if is_e(e, 'v'):
            k = self.key(fr, e[2])
            v = st.env.get(k)
            if v is not None and v.t == 'ref':
                return v
            return mk('ref', k)
        if is_e(e, 'f'):
            return mk('f', self.strip(self.ev(e[1], st, fr)), e[2], 0)
        return None

    def set_field(self, base, field, v, st, line, quiet=False):
        b = self.strip(base)
        if b.t == 'ite':
            ls = self.leaves(b) or [(1, b)]
            for g, x in ls:
                x = self.strip(x)
                old = self.rdfield(st, x, field)
                self.bump(st, field)
                st.mem[(x, field)] = self.ite(g, v, old)
        else:
            # other objects' same-named field may alias: drop them
            for k in [k for k in st.mem if k[1] == field and k[0] is not b and not self.distinct(k[0], b)]:
                del st.mem[k]
            self.bump(st, field)
            st.mem[(b, field)] = v

    def distinct(self, a, b):
        return a.t == 'L' and b.t == 'L' or (a.t == 'this') != (b.t == 'this') and 'L' in (a.t, b.t)

    def assign(self, e, v, st, fr, line, quiet=False):
        if is_e(e, 'o') and e[1] in ('*', '&') and len(e[2]) == 1:
            e = e[2][0]
            if is_e(e, 'v'):
                k = self.key(fr, e[2])
                cur = st.env.get(k)
                if cur is not None and cur.t == 'p':
                    self.emit('set', '=', None, [cur, v], st, line)
                    self.set_field(cur, '*', v, st, line)
                    return
        if is_e(e, 'v'):
            k = self.key(fr, e[2])
            if k[0] == fr.id:
                fr.locals.add(e[2])
            cur = st.env.get(k)
            n = 0
            while cur is not None and cur.t == 'ref' and n < 20:
                n += 1
                if isinstance(cur.a[0], tuple):
                    k = cur.a[0]
                    cur = st.env.get(k)
                else:
                    loc = cur.a[0]
                    if loc.t == 'at':
                        self.emit('set', '=', None, [loc, v], st, line)
                        self.mutate(loc.a[0], None, st)
                        st.mem[(loc.a[0], ('[]', loc.a[1]))] = v
                        return
                    self.emit('set', '=', None, [mk('f', loc.a[0], loc.a[1], 0), v], st, line)
                    self.set_field(loc.a[0], loc.a[1], v, st, line)
                    return
            if cur is not None and cur.t == 'L':
                if self.lang == 'py':
                    st.env[k] = self.fresh(v, st, fr, e, line)
                    return
                self.emit('set', '=', None, [cur, v], st, line)
                self.bump(st, cur)
                return
            if cur is not None and cur.t == 'p' and fr is self.top and self.top.fn.lang != 'py' and \
                    any(p['id'] == e[2] and p.get('mut') and '&' in p.get('ty', '') for p in self.top.fn.params):
                self.emit('set', '=', None, [cur, v], st, line)
            if self.lang == 'py' and self.is_mut(fr, e[2]):
                v = self.fresh(v, st, fr, e, line)
            if cur is not None and cur.t == 'elem' and self.lang != 'py':
                self.emit('set', '=', None, [cur, v], st, line)
            st.env[k] = v
            return
        if is_e(e, 'f'):
            base = self.ev(e[1], st, fr)
            self.emit('set', '=', None, [self.dist(lambda x: mk('f', self.strip(x), e[2], 0), base), v], st, line)
            self.set_field(base, e[2], v, st, line)
            return
        if is_e(e, 'g'):
            self.emit('set', '=', None, [mk('g', e[1]), v], st, line)
            st.mem[(THIS, '::' + e[1])] = v
            self.bump(st, '::' + e[1])
            return
        if is_e(e, 'list'):
            for i, x in enumerate(e[1]):
                self.assign(x, self.tuple_get(v, i, st), st, fr, line, quiet)
            return
        if is_e(e, 'o') and e[1] == '[]':
            base = self.ev(e[2][0], st, fr)
            idx = self.ev(e[2][1], st, fr)
            if not self.put_all(self.strip(base), idx, v, st, line):
                self.emit('set', '=', None, [mk('at', self.strip(base), idx), v], st, line)
            self.mutate(base, e[2][0], st)
            st.mem[(self.strip(base), ('[]', idx))] = v
            return
        # result of a call returning a reference
        loc = self.ev(e, st, fr)
        self.emit('set', '=', None, [loc, v], st, line)
        if is_e(e, 'c') and e[2] is not None:
            self.mutate(self.ev_quiet(e[2], st, fr), e[2], st)

    def cut(self, name, base, args):
        """pop() and del on a local list, as the rebinding to a slice they amount to."""
        if name == 'pop' and base is not None and base.t == 'L' and base.a[0] == 'list' and len(args) < 2:
            i = args[0] if args else mk('n', -1)
            if i.t == 'n' and i.a[0] in (0, -1):
                return base, mk('slice', base, mk('n', 1), NULL, NULL) if i.a[0] == 0 else mk('slice', base, NULL, i, NULL)
        if name == '<del>' and len(args) == 1 and args[0].t in ('at', 'slice'):
            o = self.strip(args[0].a[0])
            if o.t != 'L' or o.a[0] != 'list':
                return None
            if args[0].t == 'at':
                i = args[0].a[1]
                if i.t == 'n' and i.a[0] in (0, -1):
                    return o, mk('slice', o, mk('n', 1), NULL, NULL) if i.a[0] == 0 else mk('slice', o, NULL, i, NULL)
            elif args[0].a[3].t == 'null':
                lo, hi = args[0].a[1:3]
                if hi.t == 'null':
                    return o, mk('slice', o, NULL, lo, NULL)
                if lo.t == 'null':
                    return o, mk('slice', o, hi, NULL, NULL)
        return None

    def fresh(self, v, st, fr, e, line):
        """Python: a freshly built container bound to a mutated local gets an identity."""
        if v.t in ('list', 'dict', 'k_set') or (v.t == 'c' and v.a[1] is None and v.a[0] in (
                'list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'sorted')) or \
                (v.t == 'c' and v.a[1] is not None and v.a[0] in ('defaultdict', 'OrderedDict', 'deque')):
            ty = (v.a[1] or 'list') if v.t == 'list' else v.t if v.t == 'dict' else v.a[0]
            ty = str(ty).lower()
            o = self.newobj(st, ty)
            nonempty = (v.t == 'list' and v.a[0]) or (v.t == 'dict' and v.a[0]) or (v.t == 'c' and v.a[2])
            if nonempty and v.a[0] != 'defaultdict':
                self.emit('set', '=', None, [o, v], st, line)
            return o
        return v

    def mutate(self, v, e, st):
        """An in-place mutation of v: forget what is known about its contents."""
        v = self.strip(v)
        if v.t == 'ite':
            for _, x in self.leaves(v) or []:
                self.mutate(x, None, st)
            return
        if v.t == 'f':
            self.bump(st, v.a[1])
            for k in [k for k in st.mem if k[1] == v.a[1]]:
                del st.mem[k]
        elif v.t in ('L', 'p'):
            self.bump(st, v)
        elif v.t in ('at', 'c', 'elem', 'find') and v.a and isinstance(v.a[0], V) and v.t != 'elem':
            self.mutate(v.a[0], None, st)
        u = self.unver(v)
        for k in [k for k in st.mem if isinstance(k[1], tuple) and (k[0] is v or k[0] is u)]:
            del st.mem[k]

    # ---------------------------------------------------------------- expressions
    def ev_quiet(self, e, st, fr):
        n = len(self.events)
        s = self.seq
        v = self.ev(e, st.copy(), fr)
        del self.events[n:]
        return v

    def ev(self, e, st, fr):
        if e is None:
            return NULL
        t = e[0]
        if t == '#val':
            return e[1]
        if t == 's':
            return mk('s', e[1])
        if t == 'n':
            return mk('n', e[1])
        if t == 'b':
            return TRUE if e[1] else FALSE
        if t == 'null':
            return NULL
        if t == 'e':
            return mk('e', e[1], e[2] if len(e) > 2 else 0)
        if t == 'v':
            return self.contents(self.rd(st, fr, e[1], e[2]), st)
        if t == 'g':
            k = (THIS, '::' + e[1])
            if k in st.mem:
                return st.mem[k]
            if e[1].endswith('npos'):
                return mk('npos')
            return self.constant(e[1], st, fr)
        if t == 'this':
            return fr_this(fr)
        if t == 'fn':
            return mk('fn', e[1])
        if t == 'f':
            v = self.field(e, st, fr)
            if v.t == 'f' and v.a[0].t == 'c' and short(v.a[0].a[0]) == 'equal_range' and v.a[1] in ('first', 'second') and self.lang != 'py':
                c = v.a[0]
                return mk('c', re.sub(r'\w+$', 'lower_bound' if v.a[1] == 'first' else 'upper_bound', c.a[0]), *c.a[1:])
            return v
        if t == 'c':
            return self.call(e, st, fr)
        if t == 'o':
            return self.op(e, st, fr)
        if t == 'k':
            args = [self.ev(a, st, fr) for a in e[2]]
            ty = e[1]
            if re.search(r'(^|::)(basic_)?string(_view)?(<.*>)?$|StringRef$|^Twine$', ty):
                if not args:
                    return mk('s', '')
                if len(args) == 1:
                    return args[0]
                if len(args) == 2 and is_e(e[2][1], 'n') and e[2][1][2:] == ['char']:
                    return self.fill(*args)
            if len(args) == 1 and re.search(r'iterator|^Optional|Optional\w*Ref$|^optional<', ty):
                return args[0]
            if len(args) == 1 and args[0].t == 'k' and args[0].a[0] == ty:
                return args[0]
            if len(args) == 1 and re.search(r'unique_ptr|shared_ptr|IntrusiveRefCntPtr', ty):
                return args[0]
            if len(args) == 1 and args[0].t == 'list':
                return args[0]
            if len(args) == 2 and args[1].t == 'end' and (args[0] is args[1].a[0] or args[0].t == 'begin' and args[0].a[0] is args[1].a[0]) \
                    and args[1].a[0].t == 'list':
                return args[1].a[0]
            if not args and self.lang != 'py' and self.prog.by_name.get(ty + '::operator()'):
                return mk('fn', ty + '::operator()')    # a function object
            if self.inlinable_ctor(ty):
                return mk('k', ty, tuple(args))
            self.emit('call', 'new:' + ty, None, args, st, e[3] if len(e) > 3 and isinstance(e[3], int) else 0)
            return mk('k', ty, tuple(args))
        if t == 'list':
            return mk('list', tuple(self.ev(x, st, fr) for x in e[1]), str(e[2]) if len(e) > 2 else '')
        if t == 'dict':
            return mk('dict', tuple((self.ev(k, st, fr), self.ev(v, st, fr)) for k, v in e[1]))
        if t == 'lam':
            self.closures.append(Closure(e[1], fr))
            return mk('lamv', len(self.closures) - 1)
        if t == 'cond':
            c = self.cond(e[1], st, fr)
            a, b2 = st.copy(), st.copy()
            a.g, b2.g = self.b.And(st.g, c), self.b.And(st.g, self.b.Not(c))
            va = self.ev(e[2], a, fr) if a.g else None
            vb = self.ev(e[3], b2, fr) if b2.g else None
            self.assign_state(st, self.merge([a, b2]))
            if va is None:
                return vb if vb is not None else NULL
            if vb is None:
                return va
            return self.ite(c, va, vb)
        if t == 'new':
            init = e[2]
            if init is None:
                v = mk('k', e[1], ())
            else:
                v = self.ev(init, st, fr)
            self.dyn += 1
            return v if v.t in ('k',) else mk('k', e[1], (v,))
        if t == 'del':
            v = self.ev(e[1], st, fr)
            s2 = st.copy()
            s2.g = self.b.And(st.g, self.truth(v))
            self.emit('call', 'delete', None, [v], s2, 0)
            return mk('void')
        if t == 'has':
            c = self.ev(e[1], st, fr)
            k = self.ev(e[2], st, fr)
            return self.boolv(self.hasv(c, k))
        if t == 'slice':
            lo, hi, by = [self.ev(x, st, fr) for x in e[1:4]]
            if lo.t == 'n' and lo.a[0] == 0 and by.t == 'null':
                lo = NULL
            return mk('slicev', lo, hi, by)
        if t == 'comp':
            return self.comp(e, st, fr)
        if t == 'fstr':
            return self.cat([self.ev(x, st, fr) for x in e[1]])
        if t == 'void':
            return self.ev(e[1], st, fr)
        if t == 'throw':
            self.emit('raise', 'raise', None, [], st, 0)
            st.g = 0
            return NULL
        if t == '?':
            kids = []
            for x in (e[2] if len(e) > 2 and isinstance(e[2], list) else []):
                kids.append(self.ev(x, st, fr))
            return mk('op', '?' + str(e[1]), tuple(kids))
        raise AnalysisBroken('expression kind %r' % (t,))

    def contents(self, v, st):
        """Attach the current version to identity objects."""
        return v

    def inlinable_ctor(self, ty):
        return True

    def hasv(self, c, k):
        """Python `k in c`."""
        if c.t == 'c' and c.a[0] == 'keys' and c.a[1] is not None:
            c = c.a[1]
        return self.has(self.vers(c), k)

    def vers(self, v):
        return v

    def cat(self, parts):
        n = 1
        for p in parts:
            if p.t == 'ite':
                ls = self.leaves(p, 6)
                n = n * (len(ls) if ls and all(self.stringy(self.charv(x)) for _, x in ls) else 99)
        if 1 < n <= 8:
            i = next(i for i, p in enumerate(parts) if p.t == 'ite')
            return self.dist(lambda x: self.cat(list(parts[:i]) + [self.charv(x)] + list(parts[i + 1:])), parts[i])
        out = []
        for p in parts:
            if p.t == 'cat':
                ps = list(p.a[0])
            elif p.t == 'c' and p.a[0] in ('str', 'std::to_string', 'to_string') and p.a[1] is None and len(p.a[2]) == 1:
                ps = [p.a[2][0]]
            elif p.t == 'c' and p.a[0] in ('StringRef::str', 'str', 'llvm::StringRef::str') and p.a[1] is not None:
                ps = [p.a[1]]
            else:
                ps = [p]
            for x in ps:
                if x.t == 's' and out and out[-1].t == 's':
                    out[-1] = mk('s', out[-1].a[0] + x.a[0])
                elif x.t == 's' and not x.a[0]:
                    continue
                else:
                    out.append(x)
        if not out:
            return mk('s', '')
        if len(out) == 1 and out[0].t in ('s', 'cat'):
            return out[0]
        return mk('cat', tuple(out))

    def attr_written(self, name):
        w = getattr(self.prog, '_attrw', None)
        if w is None:
            w = set()
            for f in self.prog.funcs:
                for e in ir.all_exprs(f):
                    if e[0] == 'o' and e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=') and ir.is_e(e[2][0], 'f'):
                        w.add(e[2][0][2])
            self.prog._attrw = w
        return name in w

    def constant(self, name, st, fr):
        """A global: constants by value, others by name (renamed ones by their old name)."""
        d = self.prog.globals.get(name)
        if d is None or d.get('init') is None or not is_const_global(self.prog, d):
            return mk('g', name)
        n = const_size(d['init'])
        if n and (n <= 20 or name not in base_globals(self.prog, d['file'])):
            return self.ev(d['init'], st, fr)
        name = global_alias(self.prog, name)
        self.used_globals.add(name)
        return mk('g', name)

    def field(self, e, st, fr):
        base = self.ev(e[1], st, fr)
        name = e[2]

        def one(b):
            b = self.strip(b)
            if b.t == 'insres':
                return b.a[2] if name == 'second' else mk('find', b.a[0], b.a[1])
            if b.t == 'find':
                if name == 'second':
                    return self.index(b.a[0], b.a[1], st)
                if name == 'first':
                    return b.a[1]
            if b.t == 'k' and b.a[0].split('<')[0] in ('pair', 'std::pair') and name in ('first', 'second') and len(b.a[1]) == 2:
                return b.a[1][0 if name == 'first' else 1]
            if b.t == 'list' and isinstance(b.a[1], str) and b.a[1].endswith('}'):
                names = b.a[1][b.a[1].index('{') + 1:].split(',')
                if name in names and names.index(name) < len(b.a[0]):
                    return b.a[0][names.index(name)]
            if b.t == 'g' and self.lang == 'py':
                return self.constant(b.a[0] + '.' + name, st, fr)
            if self.lang == 'py' and b.t in ('this', 'p') and fr.fn.cls and self.prog.globals.get(fr.fn.cls + '.' + name) is not None \
                    and not self.attr_written(name):
                return self.constant(fr.fn.cls + '.' + name, st, fr)
            k = (b, name)
            if k in st.mem:
                return self.simp(st.mem[k], st.g)
            return mk('f', b, name, st.ver.get(name, 0))
        return self.dist(one, base)

    def from_on(self, v, i=1):
        """[k:] with a literal, non-negative k"""
        return v.a[i].t == 'n' and isinstance(v.a[i].a[0], int) and v.a[i].a[0] >= 0 and all(x.t == 'null' for x in v.a[i + 1:])

    def index(self, base, idx, st):
        base = self.strip(base)
        if base.t == 'list' and idx.t == 'n' and isinstance(idx.a[0], int) and -len(base.a[0]) <= idx.a[0] < len(base.a[0]):
            return base.a[0][idx.a[0]]
        if idx.t == 'idx' and idx.a[0] is base:
            return mk('elem', base, idx.a[1])
        if self.lang == 'py' and base.t == 'slice' and self.from_on(base):
            k = base.a[1].a[0]
            if idx.t == 'n' and isinstance(idx.a[0], int) and idx.a[0] >= 0:
                return self.index(base.a[0], mk('n', idx.a[0] + k), st)
            if idx.t == 'slicev' and self.from_on(idx, 0):
                return mk('slice', base.a[0], mk('n', idx.a[0].a[0] + k), *idx.a[1:])
        if self.lang == 'py' and base.t == 'slice' and idx.t == 'n' and isinstance(idx.a[0], int) and \
                (base.a[1].t == 'null' or base.a[1] is mk('n', 0)) and base.a[2].t == 'n' and isinstance(base.a[2].a[0], int) and \
                0 <= idx.a[0] < base.a[2].a[0] and base.a[3].t == 'null':
            return self.index(base.a[0], idx, st)
        if idx.t == 'slicev':
            return mk('slice', base, *idx.a)
        if self.lang == 'py' and base.t == 'c' and base.a[0] == 'groups' and not base.a[2] and idx.t == 'n' and isinstance(idx.a[0], int):
            return mk('c', 'group', base.a[1], (mk('n', idx.a[0] + 1),), 0)
        k = (base, ('[]', idx))
        if k in st.mem:
            return self.simp(st.mem[k], st.g)
        if base.t == 'items':
            return base.a[idx.a[0]]
        return mk('at', base, idx)

    # -- operators
    def op(self, e, st, fr):
        o, xs = e[1], e[2]
        fl = e[3] if len(e) > 3 and isinstance(e[3], dict) else {}
        l = fl.get('l', 0)
        b = self.b
        if o in ('&&', '||') and len(xs) == 2:
            if self.lang == 'py':
                a = self.ev(xs[0], st, fr)
                ta = self.truth(a)
                s2 = st.copy()
                s2.g = b.And(st.g, ta if o == '&&' else b.Not(ta))
                if s2.g == 0:
                    return a
                s1 = st.copy()
                s1.g = b.And(st.g, b.Not(ta) if o == '&&' else ta)
                c = self.ev(xs[1], s2, fr)
                self.assign_state(st, self.merge([s2, s1]) if s1.g else s2)
                if a.t in ('B', 'b') or a.t == 'c' and short(a.a[0]) in PY_BOOL:
                    if o == '&&':
                        return self.ite(ta, c, FALSE)
                    return self.ite(ta, TRUE, c)
                return self.ite(ta, c, a) if o == '&&' else self.ite(ta, a, c)
            return self.boolv(self.cond(e, st, fr))
        if o == '!':
            return self.boolv(b.Not(self.cond(xs[0], st, fr)))
        if o in ('==', '!=', '<', '>', '<=', '>='):
            x, y = self.ev(xs[0], st, fr), self.ev(xs[1], st, fr)
            if fl.get('b') and o in ('==', '!='):
                d = b.Xor(self.truth(x), self.truth(y))
                return self.boolv(d if o == '!=' else b.Not(d))
            return self.boolv(self.cmp(o, x, y))
        if o == '=':
            if self.lang != 'py' and is_e(xs[0], 'f') is False and is_e(xs[1], 'o') and xs[1][1] == '=':
                pass
            v = self.ev(xs[1], st, fr)
            self.assign(xs[0], v, st, fr, l)
            return v
        if o in ('++', '--', 'p++', 'p--'):
            old = self.ev(xs[0], st, fr)
            one = mk('n', 1)
            new = self.arith('+' if '+' in o else '-', old, one)
            if is_e(xs[0], 'c') and short(xs[0][1]) in ITER_CALLS and self.lang != 'py':
                return old if o[0] == 'p' else new      # steps a temporary
            self.assign(xs[0], new, st, fr, l)
            return old if o[0] == 'p' else new
        if o in ('|=', '&=') and fl.get('b') and is_e(xs[0], 'v'):
            # v |= c  is  if (c) v = true;   v &= c  is  if (!c) v = false
            v = self.ev(xs[1], st, fr)
            t = self.truth(v) if o == '|=' else b.Not(self.truth(v))
            s2 = st.copy()
            s2.g = b.And(st.g, t)
            if s2.g:
                self.assign(xs[0], TRUE if o == '|=' else FALSE, s2, fr, l)
                s1 = st.copy()
                s1.g = b.And(st.g, b.Not(t))
                self.assign_state(st, self.merge([s2, s1]) if s1.g else s2)
            return self.ev(xs[0], st, fr)
        if o.endswith('=') and o not in ('==', '!=', '<=', '>=') and len(xs) == 2:
            old = self.ev(xs[0], st, fr)
            v = self.ev(xs[1], st, fr)
            bo = o[:-1]
            if self.lang == 'py' and bo in ('|', '+', '&', '-') and self.kind_of(old) == {'+': 'list'}.get(bo, 'set'):
                if bo in '|+':
                    self.add_all(old, xs[0], 'add' if bo == '|' else 'append', v, xs[1], st, fr, l)
                else:
                    self.emit('call', {'&': 'intersection_update', '-': 'difference_update'}[bo], old, [v], st, l)
                    self.mutate(old, xs[0], st)
                return old
            if is_e(xs[0], 'v') and old.t == 'L':
                self.emit('call', {'+': 'extend', '|': 'update'}.get(bo, 'op' + o), old, [v], st, l)
                self.bump(st, old)
                return old
            if bo in ('|', '&') and (old.t in ('B', 'b') or v.t in ('B', 'b')):
                new = self.boolv(b.Or(self.truth(old), self.truth(v)) if bo == '|' else b.And(self.truth(old), self.truth(v)))
            elif fl.get('str'):
                new = self.cat([old, self.charv(v)])
            else:
                new = self.arith(bo, old, v)
            self.assign(xs[0], new, st, fr, l)
            return new
        if o == '<<' and len(xs) == 2 and self.lang != 'py':
            root = ir.stream_root(e)
            rv = self.ev(root, st, fr)
            if not (rv.t == 'n'):
                for a in ir.stream_args(e):
                    av = self.ev(a, st, fr)
                    parts = av.a[0] if av.t == 'cat' else (av,)
                    for p in parts:
                        if p.t == 'dc':
                            p = p.a[1]
                        self.emit('out', '<<', rv, [p], st, line_or(a, l))
                return rv
        if o in ('*', '&') and len(xs) == 1:
            v = self.ev(xs[0], st, fr)
            if o == '*':
                v = self.dist(lambda x: x.a[1] if x.t == 'dc' and not x.a[0] else x, v)
            elif v.t == 'at' and self.lang != 'py':
                return mk('dc', '', v)          # the address of an element: never null
            if o == '*' and v.t == 'p' and (v, '*') in st.mem:
                return self.simp(st.mem[(v, '*')], st.g)
            if o == '*' and v.t == 'find':
                return v.a[1]
            if o == '*' and e[-1].get('char') and v.t not in ('ref', 'L', 'elem', 'this'):
                # a character of a C string is not the pointer to it
                def char(x):
                    if x.t == 'op' and x.a[0] == '+' and len(x.a[1]) == 2:
                        for k in (0, 1):
                            if x.a[1][k].t == 'n':
                                return self.index(x.a[1][1 - k], x.a[1][k], st)
                    return self.index(x, mk('n', 0), st)
                return self.dist(char, v)
            return v
        if o == '[]':
            base, idx = self.ev(xs[0], st, fr), self.ev(xs[1], st, fr)
            if self.lang == 'py' and idx.t == 'ite':
                return self.dist(lambda i: self.dist(lambda x: self.index(x, i, st), base), idx)
            if self.lang == 'py' and idx.t == 'slicev' and idx.a[0].t == 'ite':
                return self.dist(lambda i: self.dist(lambda x: self.index(x, mk('slicev', i, *idx.a[1:]), st), base), idx.a[0])
            return self.dist(lambda x: self.index(x, idx, st), base)
        if o == ',':
            r = NULL
            for x in xs:
                r = self.ev(x, st, fr)
            return r
        vals = [self.ev(x, st, fr) for x in xs]
        if fl.get('str') and o == '+' and len(vals) == 2:
            return self.cat([self.charv(x) for x in vals])
        if len(vals) == 2:
            return self.arith(o, vals[0], vals[1])
        return mk('op', o, tuple(vals))

    def arith(self, o, x, y):
        if o == '+':
            if x.t == 'n' and y.t == 'n':
                return mk('n', x.a[0] + y.a[0])
            if x.t in ('s', 'cat') or y.t in ('s', 'cat') or self.stringy(x) or self.stringy(y):
                return self.cat([x, y])
            if self.lang == 'py' and y.t == 'op' and y.a[0] == '+' and len(y.a[1]) == 2:
                # x + (p + q) is (x + p) + q
                return self.arith('+', self.arith('+', x, y.a[1][0]), y.a[1][1])
            if x.t == 'list' and y.t == 'list':
                return mk('list', x.a[0] + y.a[0], x.a[1])
            if y.t == 'n' and y.a[0] == 0:
                return x
            if self.lang != 'py':
                for u, w in ((x, y), (y, x)):
                    if u.t == 'list' and w.t == 'n' and w.a[0] == len(u.a[0]) and w.a[0]:
                        return mk('end', u)
        if o == '/' and self.lang != 'py' and x.t == 'n' and y.t == 'n' and isinstance(x.a[0], int) and x.a[0] >= 0 and y.a[0] > 0:
            return mk('n', x.a[0] // y.a[0])
        if o == '-' and x.t == 'n' and y.t == 'n':
            return mk('n', x.a[0] - y.a[0])
        if o == '-' and y.t == 'n' and y.a[0] == 0:
            return x
        if o == '|' and self.lang != 'py':
            if x.t == 'n' and x.a[0] == 0 and y.t not in ('B', 'b'):
                return y
            if y.t == 'n' and y.a[0] == 0 and x.t not in ('B', 'b'):
                return x
        if o == '%' and x.t == 's' and self.lang == 'py':
            return self.pct(x.a[0], y)
        if o == '|' and (x.t in ('B', 'b') or y.t in ('B', 'b')):
            return self.boolv(self.b.Or(self.truth(x), self.truth(y)))
        if o == '&' and (x.t in ('B', 'b') or y.t in ('B', 'b')):
            return self.boolv(self.b.And(self.truth(x), self.truth(y)))
        if x.t == 'ite' and len(self.leaves(x) or range(99)) <= 6 and o in ('+', '-') and not self.stringy(x):
            return self.dist(lambda q: self.arith(o, q, y), x)
        if y.t == 'ite' and len(self.leaves(y) or range(99)) <= 6 and o in ('+', '-') and not self.stringy(y):
            return self.dist(lambda q: self.arith(o, x, q), y)
        if o in ('+', '*') and self.rend(x) > self.rend(y) and not (o == '+' and self.lang == 'py'):
            x, y = y, x
        return mk('op', o, (x, y))

    def stringy(self, v):
        if v.t in ('s', 'cat'):
            return True
        if v.t == 'ite':
            return any(self.stringy(x) for _, x in (self.leaves(v) or []))
        return False

    def pct(self, fmt, y):
        args = list(y.a[0]) if y.t == 'list' and y.a[1] == 'Tuple' else [y]
        parts = re.split(r'(%[-#0-9.]*[sdrxif]|%%)', fmt)
        out = []
        i = 0
        for p in parts:
            if p == '%%':
                out.append(mk('s', '%'))
            elif p.startswith('%') and len(p) > 1:
                if i >= len(args):
                    return mk('op', '%', (mk('s', fmt), y))
                a = args[i]
                i += 1
                if p not in ('%s', '%d', '%i'):
                    a = mk('op', p, (a,))
                out.append(a)
            else:
                out.append(mk('s', p))
        return self.cat(out)

    # -- comprehensions
    def comp(self, e, st, fr):
        _, elt, tgt, it, conds, extra = e[:6]
        kind = e[6].get('kind') if len(e) > 6 else ''
        o = self.newobj(st, {'ListComp': 'list', 'SetComp': 'set', 'DictComp': 'dict'}.get(kind, 'list'))
        self.shape['each'] = self.shape.get('each', 0) + 1

        def sink(v, s2):
            if kind == 'DictComp':
                self.emit('set', '=', None, [mk('at', o, v.a[0][0]), v.a[0][1]], s2, e[6].get('l', 0))
            else:
                self.emit('call', 'add' if kind == 'SetComp' else 'append', o, [v], s2, e[6].get('l', 0))
        self.comp_run(e, st, fr, sink)
        return o

    def comp_run(self, e, st, fr, sink):
        _, elt, tgt, it, conds, extra = e[:6]

        def level(gens, s2):
            if not gens:
                v = self.ev(elt, s2, fr)
                sink(v, s2)
                return
            tg, itx, cs = gens[0]
            c = self.ev(itx, s2, fr)
            push = [c]
            if c.t == 'list' and len(c.a[0]) <= 8:
                els = list(c.a[0])
            else:
                ne, el, push = self.iterate(c, s2)
                s2.g = self.b.And(s2.g, ne)
                els = [el]
            for el in els:
                s3 = s2.copy()
                self.declare_tgt(tg, fr)
                self.bind_tgt(tg, c, el, s3, fr)
                self.loops += push
                for cd in cs:
                    s3.g = self.b.And(s3.g, self.cond(cd, s3, fr))
                if s3.g:
                    level(gens[1:], s3)
                del self.loops[len(self.loops) - len(push):]
        level([(tgt, it, conds)] + [tuple(x) for x in extra], st.copy())

    def declare_tgt(self, tg, fr):
        for x in ir.sub_exprs(tg):
            if x[0] == 'v':
                fr.locals.add(x[2])

    def kind_of(self, v):
        """'set' / 'list' when every definition of the object says so."""
        if v.t == 'L':
            return v.a[0] if v.a[0] in ('set', 'list') else None
        if v.t != 'f':
            return None
        ak = getattr(self.prog, '_attrkind', None)
        if ak is None:
            ak = {}
            for f in self.prog.funcs:
                for e in ir.all_exprs(f):
                    if e[0] == 'o' and e[1] == '=' and is_e(e[2][0], 'f'):
                        r = e[2][1]
                        k = 'set' if is_e(r, 'c') and r[1] in ('set', 'OrderedSet') else \
                            'list' if is_e(r, 'list') and r[2] == 'List' or is_e(r, 'c') and r[1] == 'list' else \
                            'list' if is_e(r, 'comp') and r[-1].get('kind') == 'ListComp' else '?'
                        ak.setdefault(e[2][0][2], set()).add(k)
            self.prog._attrkind = ak
        k = ak.get(v.a[1], ())
        return list(k)[0] if len(k) == 1 and '?' not in k else None

    def add_all(self, base, basee, meth, v, e, st, fr, l):
        """base gains every element of an iterable."""
        if is_e(e, 'comp') and e[-1].get('kind') != 'DictComp':
            self.comp_run(e, st, fr, lambda x, s2: self.emit('call', meth, base, [x], s2, l))
        else:
            if v is None:
                v = self.ev(e, st, fr)
            if v.t == 'list' and len(v.a[0]) <= 8:
                for x in v.a[0]:
                    self.emit('call', meth, base, [x], st, l)
            else:
                ne, el, push = self.iterate(v, st)
                s2 = st.copy()
                s2.g = self.b.And(st.g, ne)
                self.loops += push
                self.emit('call', meth, base, [el], s2, l)
                del self.loops[len(self.loops) - len(push):]
        self.mutate(base, basee, st)

    def first_of(self, e, dflt, st, fr):
        """next(generator, default)."""
        out = [dflt]
        n = len(self.loops)

        def sink(v, s2):
            for key in self.loops[n:]:
                self.emit('stop', 'stop', None, [key], s2, 0)
            out[0] = self.ite(self.b.restrict(s2.g, st.g), v, out[0])
        self.comp_run(e, st, fr, sink)
        return out[0]

    def quant(self, which, e, st, fr):
        """any()/all() over a generator expression."""
        acc = [0]
        neg = which == 'all'

        def sink(v, s2):
            t = self.truth(v)
            if neg:
                t = self.b.Not(t)
            acc[0] = self.b.Or(acc[0], self.b.And(self.b.restrict(s2.g, st.g) if st.g else s2.g, t))
        self.comp_run(e, st, fr, sink)
        return self.boolv(self.b.Not(acc[0]) if neg else acc[0])

    # ---------------------------------------------------------------- calls
    def closure_call(self, cl, args, st, l):
        if isinstance(cl, tuple):
            _, name, fr0 = cl
            cands = [f for f in self.prog.funcs if f.lang == 'py' and f.name.endswith('.' + name) or f.name == name]
            if fr0.fn:
                c2 = [f for f in cands if f.name == fr0.fn.name + '.' + name]
                cands = c2 or cands
            if not cands:
                return None
            f = cands[0]
            self.fn_scan(f, None)
            return self.invoke(f, f.params, f.body, args, st, fr0, THIS, l)
        f = ir.Func(name='<lambda>', file=self.stack[-1].fn.file, line=cl.lam.get('l', 0), sig='', params=cl.lam['params'],
                    body=cl.lam['body'], lang=self.lang, inits=[])
        self.fn_scan(f, None)
        return self.invoke(f, cl.lam['params'], cl.lam['body'], args, st, cl.frame, fr_this(cl.frame), l, caps=cl.lam.get('caps'))

    def invoke(self, fn, params, body, args, st, parent, this, l, caps=None, argrefs=None):
        if len(self.stack) > self.MAXDEPTH or sum(1 for f in self.stack if f.fn is fn) > 0:
            return None
        fr = Frame(fn, parent, this)
        fr.loopbase = len(self.loopkeys)
        for i, p in enumerate(params):
            fr.locals.add(p['id'])
            if i < len(args):
                v = args[i]
                if argrefs and argrefs[i] is not None:
                    v = argrefs[i]
            elif 'def' in p and p['def'] is not None:
                v = self.ev(p['def'], st, fr)
            else:
                v = mk('undef', '')
            st.env[(fr.id, p['id'])] = v
        for c in caps or []:
            if 'init' in c:
                fr.locals.add(c['id'])
                st.env[(fr.id, c['id'])] = self.ev(c['init'], st, parent)
        self.stack.append(fr)
        self.ninline += 1
        saved = self.loopctx
        self.loopctx = []
        for s in fn.inits or []:
            self.stmt(s, st, fr)
        self.block(body, st, fr)
        self.loopctx = saved
        self.stack.pop()
        rets = fr.rets
        if st.g:
            rets = rets + [(st.g, mk('void') if self.lang != 'py' else NULL, st.copy())]
        if not rets:
            st.g = 0
            return NULL
        m = self.merge([s for _, _, s in rets])
        val = rets[0][1]
        gacc = rets[0][0]
        for g, v, s in rets[1:]:
            sel = self.b.restrict(g, self.b.Or(g, gacc))
            val = self.ite(sel, v, val)
            gacc = self.b.Or(gacc, g)
        self.assign_state(st, m)
        for k in [k for k in st.env if k[0] == fr.id]:
            if not self.closures:
                del st.env[k]
        return val if val is not None else NULL

    def should_inline(self, f):
        if f.name in self.opaque or f.short in self.opaque:
            return False
        if f.name in self.inline or f.short in self.inline or f.short == 'operator()':
            return True
        bl = baseline().get('py:' + f.file if f.lang == 'py' else 'cpp')
        if bl is None:
            return False
        k = fkey(f)
        if k in bl:
            return bl[k] == 1
        # an overload or signature change of a known function stays opaque
        names = baseline().get('names:' + ('py:' + f.file if f.lang == 'py' else 'cpp'), ())
        return f.name not in names and not f.virt

    def resolve(self, name, base, fl, nargs, this_cls=None):
        """The repo function a call refers to, or None."""
        if self.lang == 'py':
            if base is None:
                r = [f for f in self.prog.by_name.get(name, []) if not f.cls]
                return r[0] if len(r) == 1 else None
            if name in PY_MUT or name in PY_PURE:
                return None     # a builtin container's method or one behaving like it
            r = [f for f in self.prog.by_name.get('*' + name, []) if f.cls]
            return r[0] if len(r) == 1 else None
        if not fl.get('repo') and not name.startswith('?::'):
            return None
        r = self.prog.by_name.get(name)
        if not r and name.startswith('?::'):
            r = [f for f in self.prog.by_name.get('*' + short(name), []) if len(f.params) >= nargs]
            r = r if len(r) == 1 else None
        if not r:
            return None
        if fl.get('sig') is not None:
            r2 = [f for f in r if f.sig == fl['sig']]
            r = r2 or (r if len(r) == 1 else [])
        return r[0] if len(r) >= 1 else None

    def call(self, e, st, fr):
        name, basee, argse = e[1], e[2], e[3]
        fl = e[4] if len(e) > 4 and isinstance(e[4], dict) else {}
        l = fl.get('l', 0)
        b = self.b
        sn = short(name)
        py = self.lang == 'py'
        # a dictionary of pairs is filled pair by pair
        if py and basee is None and name in ('OrderedDict', 'dict') and len(argse) == 1 and not fl.get('kw') and is_e(argse[0], 'comp') and \
                argse[0][-1].get('kind') == 'GeneratorExp' and is_e(argse[0][1], 'list') and len(argse[0][1][1]) == 2:
            o = self.newobj(st, name.lower())
            self.shape['each'] = self.shape.get('each', 0) + 1
            self.comp_run(argse[0], st, fr, lambda v, s2: self.emit('set', '=', None, [mk('at', o, v.a[0][0]), v.a[0][1]], s2, l))
            return o
        # python any/all
        if py and basee is None and name in ('any', 'all') and len(argse) == 1 and is_e(argse[0], 'comp') and not argse[0][1:2] == [None]:
            _, elt, tgt, it, conds, extra = argse[0][:6]
            if name == 'any' and not conds and not extra and is_e(tgt, 'v') and is_e(elt, 'o') and elt[1] == '==':
                isv = lambda e: is_e(e, 'v') and e[2] == tgt[2]
                p, q = elt[2] if isv(elt[2][0]) else elt[2][::-1]
                if isv(p) and not any(isv(y) for y in ir.sub_exprs(q)):
                    return self.ev(['has', it, q], st, fr)
            return self.quant(name, argse[0], st, fr)
        base = self.ev(basee, st, fr) if basee is not None else None
        if py and base is not None and base.t == 'g' and base.a[0] in (
                'os.path', 'os', 're', 'sys', 'subprocess', 'json', 'shlex', 'time', 'argparse', 'multiprocessing', 'collections',
                'codecs', 'difflib', 'optparse', 'io', 'signal'):
            name = base.a[0] + '.' + name
            sn = name
            base = None
            basee = None
        if py and base is not None and name == 'setdefault' and len(argse) == 2 and not fl.get('kw'):
            # if k not in d: d[k] = v
            d, k, v = self.strip(base), self.ev(argse[0], st, fr), self.ev(argse[1], st, fr)
            h = self.hasv(d, k)
            s2 = st.copy()
            s2.g = b.And(st.g, b.Not(h))
            if s2.g:
                self.emit('set', '=', None, [mk('at', d, k), v], s2, l)
                self.mutate(d, basee, s2)
                s2.mem[(d, ('[]', k))] = v
                s1 = st.copy()
                s1.g = b.And(st.g, h)
                self.assign_state(st, self.merge([s2, s1]) if s1.g else s2)
            return self.index(self.strip(self.ev_quiet(basee, st, fr)), k, st)
        if py and base is not None and len(argse) == 1 and name in ('update', 'extend') and (
                name == 'extend' or self.kind_of(base) == 'set'):
            self.add_all(base, basee, 'add' if name == 'update' else 'append', None, argse[0], st, fr, l)
            return NULL
        if fl.get('elt'):
            # constructed in place
            name = name[:-len(sn)] + {'emplace_back': 'push_back', 'emplace': 'insert', 'emplace_front': 'push_front'}[sn]
            sn = short(name)
            argse = [['k', fl['elt'], argse, l]]
        elif sn == 'emplace_back' and len(argse) == 1 and not py:
            name, sn = name[:-len(sn)] + 'push_back', 'push_back'
        args = [self.ev(a, st, fr) for a in argse]
        if st.g == 0:
            return NULL
        if py and fl.get('star') and len(args) == 1 and name == 'range':
            args = [self.tuple_get(args[0], 0, st), self.tuple_get(args[0], 1, st)]
        if py and name in ('min', 'max') and basee is None and not fl.get('kw'):
            args = sorted(args, key=self.rend)
            if len(args) == 2 and not all(x.t == 'size' for x in args):
                lt = self.cmp('<', args[0], args[1])
                return self.ite(lt if name == 'min' else self.b.Not(lt), args[0], args[1])
        if name in ('std::max', 'std::min') and basee is None and len(args) == 2:
            # replaces the running maximum only by something larger
            x, y = sorted(args, key=lambda v: (v.t != 'phi', self.rend(v)))
            return self.ite(self.cmp('<', *((x, y) if sn == 'max' else (y, x))), y, x)
        if py and name == 'next' and basee is None and len(args) == 2 and is_e(argse[0], 'comp'):
            return self.first_of(argse[0], args[1], st, fr)
        kw = None
        if fl.get('kw'):
            kw = {k: self.ev(v, st, fr) for k, v in fl['kw'].items()}
        if py and name == 're.compile' and args and all(a.t in ('s', 'n', 'g', 'e') or a.t == 'c' for a in args) and not kw:
            return mk('c', 're.compile', None, tuple(args), 0)
        if py and name in ('re.match', 're.search', 're.fullmatch', 're.sub', 're.findall', 're.split', 're.finditer') and len(args) >= 2 and not kw:
            # re.f(P, x) is re.compile(P).f(x)
            base = args[0] if args[0].t == 'c' and args[0].a[0] == 're.compile' else mk('c', 're.compile', None, (args[0],), 0)
            args = args[1:]
            name = sn = name[3:]
        if sn == 'getDerived' and not args and not py:
            return base if base is not None else fr_this(fr)
        # casts and type tests
        m = re.match(r'^(?:\?::)?(isa|dyn_cast|cast)<(.*)>$', name)
        if m and base is None and len(args) == 1:
            x = self.strip(args[0])
            if x.t == 'ite':
                x = self.simp(x, st.g)
            kd, ty = m.group(1), m.group(2)
            if kd == 'isa':
                def isa1(y):
                    y = self.strip(y)
                    n = b.Or(*[self.atom(mk('isa', tt.strip(), y)) for tt in split_types(ty)])
                    return self.boolv(n)
                return self.dist(isa1, x)
            if kd == 'cast':
                return x
            return self.dist(lambda y: NULL if y.t == 'null' else mk('dc', ty, self.strip(y)), args[0])
        if py and name == 'isinstance' and len(args) == 2:
            return self.boolv(self.atom(mk('isa', self.rend(args[1]), args[0])))
        m = re.match(r'^(.*::\w+)(<[\w:]+>)$', name) if not py else None
        if m and base is not None:
            # a member template that only forwards is the call it forwards to
            fs = [f for f in self.prog.by_name.get(m.group(1), ()) if len(f.params) == len(args) and is_trivial(f)]
            if len(fs) == 1:
                body = with_targs(fs[0].body, m.group(2))
                r = self.invoke(fs[0], fs[0].params, body, args, st, None, base, l)
                if r is not None:
                    return r
        if re.match(r'^dynamic_cast<', name):
            return mk('dc', name[13:-1], args[0])
        # closures
        if name == 'operator()' and base is not None:
            if base.t == 'lamv':
                r = self.closure_call(self.closures[base.a[0]], args, st, l)
                if r is not None:
                    return r
            if base.t == 'fn':
                f = self.prog.by_name.get(base.a[0])
                if f and self.should_inline(f[0]):
                    r = self.invoke(f[0], f[0].params, f[0].body, args, st, None, THIS, l)
                    if r is not None:
                        return r
                name, base = base.a[0], None
                sn = short(name)
            elif py and base.t == 'g':
                name, base = base.a[0], None
        # algorithms
        if not py and sn in ('any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'count_if') and base is None and args and args[-1].t in ('lamv', 'fn'):
            r = self.algo(sn, args, st, l)
            if r is not None:
                return r
        if not py and base is None and sn in ('copy_if', 'transform', 'copy') and len(args) >= 3:
            r = self.copy_algo(sn, args, st, l)
            if r is not None:
                return r
        if not py and base is not None and sn == 'insert' and len(args) == 3 and args[0].t == 'end' and args[0].a[0] is self.strip(base) and \
                all(a.t in ('begin', 'end') for a in args[1:]) and args[1].a[0] is args[2].a[0]:
            r = self.copy_algo('copy', list(args[1:]) + [mk('c', 'std::back_inserter', None, (base,), 0)], st, l)
            if r is not None:
                return r
        # containers
        r = self.container(sn, name, base, args, st, fl)
        if r is not None:
            return r
        if not py and base is not None and name.startswith('std::basic_string::'):
            r = self.string_mut(sn, basee, base, args, fl, st, fr, l)
            if r is not None:
                return r
        # repo functions
        f = self.resolve(name, base, fl, len(args))
        if f is not None and kw:
            names = [p['name'] for p in f.params]
            off = 1 if f.cls and not f.static else 0
            full = list(args)
            ok = True
            for k, v in kw.items():
                if k in names:
                    i = names.index(k) - off
                    while len(full) <= i:
                        d = f.params[len(full) + off].get('def')
                        full.append(self.ev(d, st, fr) if d is not None else mk('undef', ''))
                    full[i] = v
                else:
                    ok = False
            if ok:
                args, kw = full, None
        virt = fl.get('virt') and not fl.get('qual')
        if f is not None and self.should_inline(f) and (not virt or f.name in self.inline or f.short in self.inline):
            this = base if base is not None else (fr_this(fr) if f.cls and not f.static else THIS)
            params = f.params
            if py and f.cls and not f.static:
                iargs = [this] + args
                refs = None
                this2 = this
            else:
                iargs = args
                this2 = this
                refs = []
                for i, a in enumerate(argse):
                    lv = None
                    if i < len(params) and params[i].get('mut') and '&' in params[i].get('ty', '') or (
                            i < len(params) and params[i].get('mut') and is_e(a, 'o') and a[1] == '&'):
                        lv = self.lval(a, st, fr)
                        if lv is not None and lv.t == 'f':
                            lv = mk('ref', lv)
                        if lv is not None and lv.t == 'ref' and isinstance(lv.a[0], tuple):
                            cur = st.env.get(lv.a[0])
                            if cur is not None and cur.t in ('L', 'p', 'elem', 'lamv'):
                                lv = None
                    refs.append(lv)
            self.fn_scan(f, None)
            self.used_funcs.add(f.name)
            if self.tracked(f):
                self.emit('call', name, base, args, st, l, e)
            r = self.invoke(f, params, f.body, iargs, st, None, this2, l, argrefs=refs)
            if r is not None:
                return r
        # library value functions
        r = self.libval(sn, name, base, args, st, fl)
        if r is not None:
            return r
        if kw:
            args = args + [mk('op', k + '=', (v,)) for k, v in sorted(kw.items())]
        ins = None
        if base is not None and f is None and not py and len(args) == 1 and args[0].t == 'list' and len(args[0].a[0]) <= 16 and \
                re.search(r'(^|:)(unordered_)?(multi)?set(<.*>)?::insert$', name):
            for x in args[0].a[0]:
                self.call(['c', name, basee, [['#val', x]], fl], st, fr)
            return mk('void')
        if base is not None and f is None:
            if len(args) == 1:
                ins = self.insertion(name, sn, base, args[0], st)
            elif len(args) == 2 and re.search(r'(^|:)(unordered_)?(multi)?map(<.*>)?::(emplace|try_emplace)$', name):
                args = [mk('k', 'pair', tuple(self.strip(a) for a in args))]
                name = name.rsplit('::', 1)[0] + '::insert'
                sn = 'insert'
                ins = self.insertion(name, sn, base, args[0], st)
        pushed = None
        if not py and base is not None and f is None and len(args) == 1 and re.search(r'(^|:)vector(<.*>)?::push_back$', name):
            # what is pushed is what back() then names
            if args[0].t == 'k' and '<' not in args[0].a[0] and args[0].a[0] != 'pair' and fr is not None and fr.fn is not None and any(
                    x[0] == 'c' and is_e(x[2], 'c') and short(x[2][1]) == 'back' and not x[-1].get('const') for x in ir.all_exprs(fr.fn)):
                pushed = self.newobj(st, head_type(args[0].a[0]))
                self.emit('set', '=', None, [pushed, args[0]], st, l)
                args = [pushed]
            elif args[0].t == 'L':
                pushed = args[0]
                for k in [k for k, x in st.env.items() if x is pushed]:
                    st.env[k] = mk('c', 'copied', None, (pushed,), 0)
        for i, a in enumerate(args):
            if a.t == 'op' and a.a[0].endswith('=') and len(a.a[1]) == 1:
                a = a.a[1][0]
            if a.t == 'lamv' or a.t == 'fn' and not py and self.prog.by_name.get(a.a[0]) and f is None:
                self.lam_events(name, i, a, st, l)
        if ins:
            # inserting what is there already changes nothing
            g0 = st.g
            st.g = self.b.drop(g0, ins[2]) if ins[3] is None else self.b.And(g0, self.b.Not(ins[2]))
            if ins[3] is not None:
                self.emit('set', '=', None, [mk('at', self.strip(base), ins[1]), ins[3]], st, l)
            else:
                self.emit('call', name, base, args, st, l, e)
            st.g = g0
        else:
            cut = self.cut(name, base, args) if py else None
            if cut:
                self.emit('set', '=', None, list(cut), st, l)
                self.mutate(cut[0], None, st)
                if name == '<del>':
                    return mk('void')
            else:
                self.emit('call', name, base, args, st, l, e)
        noret = fl.get('noret') or (py and name in ('sys.exit', 'os._exit', 'exit', 'os.abort', 'quit', 'parser.error')) or \
            (not py and name in ('exit', 'abort', 'std::exit', 'std::abort'))
        if noret:
            st.g = 0
            return NULL
        # what the call may change
        ver = 0
        if py:
            if base is not None and name in PY_MUT:
                ver = st.ver.get('#call', 0)
                self.mutate(base, basee, st)
                if name in ('pop', 'popleft'):
                    self.dyn += 1
                    ver = self.dyn
            fs = self.eff.get(name if base is None else name, self.eff.mods) if f is not None or base is not None else set()
            for fd in fs:
                self.forget(fd, st)
            rs = self.eff.get(name, self.eff.reads)
            ver = (ver, tuple(sorted((x, st.ver[x]) for x in rs if st.ver.get(x)))) if rs else ver
            if isinstance(ver, tuple) and not ver[1]:
                ver = ver[0]
        else:
            if fl.get('repo') or f is not None:
                rs = self.eff.get(name, self.eff.reads)
                ver = tuple(sorted((x, st.ver[x]) for x in rs if st.ver.get(x))) or 0
                for fd in self.eff.get(name, self.eff.mods):
                    self.forget(fd, st)
            elif base is not None and not fl.get('const') and not name.startswith('?'):
                if sn not in ('begin', 'end', 'find', 'rbegin', 'rend', 'front', 'back', 'at', 'data', 'get', 'getDecl',
                              'lower_bound', 'upper_bound', 'equal_range') and not sn.startswith('get'):
                    sb = self.strip(base)
                    ver = st.ver.get(sb, 0) if sb.t in ('L', 'p') else 0
                    self.mutate(base, basee, st)
            if pushed is not None:
                st.mem[self.unver(base), ('back',)] = pushed
            for i in fl.get('mut', []):
                if i < len(argse):
                    a = argse[i]
                    amp = is_e(a, 'o') and a[1] == '&'
                    tgt = a[2][0] if amp else a
                    if is_e(tgt, 'v'):
                        k = self.key(fr, tgt[2])
                        cur = st.env.get(k)
                        if cur is not None and cur.t in ('L', 'p'):
                            self.bump(st, cur)
                        elif cur is not None and (amp and cur.t == 'k' and not cur.a[1] and SCALARTY.match(cur.a[0]) or cur.t not in ('ref', 'elem', 'c', 'dc', 'f', 'k', 'at', 'find', 'this', 'lamv', 'fn')):
                            self.dyn += 1
                            st.env[k] = mk('outarg', sn, i, self.dyn, tuple(x for j, x in enumerate(args) if j != i))
                    elif is_e(tgt, 'f'):
                        self.mutate(self.ev_quiet(tgt, st, fr), None, st)
        if ins and not py:
            return mk('insres', ins[0], ins[1], self.boolv(b.Not(ins[2])))
        # version of the mutable objects the result depends on
        dep = []
        for x in ([base] if base is not None else []) + args:
            x = self.strip(x)
            if x.t in ('L', 'p') and st.ver.get(x):
                dep.append((x.i, st.ver[x]))
        if dep:
            ver = (ver, tuple(dep))
        return self.distcall(name, base, args, ver)

    def unver(self, v):
        v = self.strip(v)
        return mk('f', v.a[0], v.a[1], 0) if v.t == 'f' else v

    @staticmethod
    def charv(x):
        return mk('s', chr(x.a[0])) if x.t == 'n' and isinstance(x.a[0], int) and 0 < x.a[0] < 128 else x

    def fill(self, n, c):
        """n times the character c"""
        return self.dist(lambda x: mk('s', '') if x.t == 'n' and x.a[0] == 0 else mk('c', 'rep', None, (x, self.charv(c)), 0), n)

    def string_mut(self, sn, basee, base, args, fl, st, fr, l):
        """A modifying member of std::string, as the assignment it amounts to."""
        new = None
        fill = self.fill
        char = self.charv
        sub = lambda i, n: self.call(['c', 'std::basic_string::substr', ['#val', base], [['#val', i], ['#val', n]], {'const': True, 'l': l}], st, fr)
        n = len(args)
        zero = n and args[0].t == 'n' and args[0].a[0] == 0
        if sn == 'erase' and n == 2 and args[0].t == 'begin' and args[0].a[0] is self.strip(base):
            pos = {'elem': lambda x: mk('idx', *x.a), 'end': lambda x: mk('size', *x.a)}
            if self.leaves(args[1]) is None or any(x.t not in pos or x.a[0] is not self.strip(base) for _, x in self.leaves(args[1])):
                return None
            new = self.dist(lambda x: sub(pos[x.t](x), mk('npos')), args[1])
        elif sn == 'append' and n == 1:
            new = self.cat([base, args[0]])
        elif sn == 'append' and n == 2 and args[1].t == 'n' and not self.stringy(args[0]):
            new = self.cat([base, fill(args[0], args[1])])
        elif sn == 'push_back' and n == 1:
            new = self.cat([base, char(args[0])])
        elif sn == 'insert' and n == 2 and zero:
            new = self.cat([args[1], base])
        elif sn == 'insert' and n == 3 and zero and args[2].t == 'n':
            new = self.cat([fill(args[1], args[2]), base])
        elif sn == 'erase' and n == 2 and args[1].t == 'npos':
            new = sub(mk('n', 0), args[0])
        elif sn == 'erase' and n == 2 and zero:
            new = sub(args[1], mk('npos'))
        elif sn == 'clear' and not n:
            new = mk('s', '')
        elif sn == 'pop_back' and not n:
            new = sub(mk('n', 0), self.arith('-', self.container('size', 'std::basic_string::size', base, [], st, {}), mk('n', 1)))
        elif sn == 'replace' and n == 3 and args[1].t != 'c' and not args[0].t == 'begin':
            new = self.cat([sub(mk('n', 0), args[0]), args[2], sub(self.arith('+', args[0], args[1]), mk('npos'))])
        elif sn == 'erase' and n == 2:
            new = self.cat([sub(mk('n', 0), args[0]), sub(self.arith('+', args[0], args[1]), mk('npos'))])
        elif sn == 'assign' and n == 1:
            new = args[0]
        elif sn == 'resize' and n == 1 and (args[0].t == 'c' and short(args[0].a[0]) in ('find', 'rfind') and args[0].a[1] is self.strip(base) or
                                            args[0].t == 'op' and args[0].a[0] == '-' and args[0].a[1][0] is mk('size', self.strip(base))):
            new = sub(mk('n', 0), args[0])
        if new is None:
            return None
        root = basee
        while is_e(root, 'c') and root[1].startswith('std::basic_string::') and short(root[1]) in ('append', 'insert', 'erase', 'assign') \
                and root[2] is not None:
            fl = root[4] if len(root) > 4 and isinstance(root[4], dict) else {}
            root = root[2]
        if fl.get('arr') and not is_e(root, 'this'):
            root = ['o', '*', [root], {'l': l}]
        elif not (is_e(root, 'v') or is_e(root, 'f')):
            return None
        self.assign(root, new, st, fr, l)
        return new

    def insertion(self, name, sn, base, arg, st):
        """(container, key, already-there) of a call that inserts only what is missing."""
        if self.lang == 'py':
            if name != 'add' or self.kind_of(base) != 'set':
                return None
            k, val = arg, None
        elif (re.search(r'(^|:)(unordered_)?set(<.*>)?::(insert|emplace)$', name) or
              name == '?::insert' and base.t == 'L' and base.a[0] == 'set') and arg.t not in ('begin', 'list'):
            k, val = arg, None
        elif re.search(r'(^|:)(unordered_)?map(<.*>)?::insert$', name) and arg.t == 'k' and arg.a[0].split('<')[0] in ('pair', 'std::pair') \
                and len(arg.a[1]) == 2:
            k, val = arg.a[1]
        elif re.search(r'(^|:)(unordered_)?map(<.*>)?::insert$', name) and arg.t == 'list' and len(arg.a[0]) == 2:
            k, val = arg.a[0]
        else:
            return None
        c = self.cver(base, st)
        if c.t == 'ite' or self.gated(k):
            return None
        h = self.has(c, k)
        return c, k, h, val

    def distcall(self, name, base, args, ver):
        if base is not None and base.t == 'ite':
            return self.dist(lambda x: mk('c', name, self.strip(x), tuple(self.strip(a) for a in args), ver), base)
        for i, a in enumerate(args):
            if a.t == 'ite':
                return self.dist(lambda x, i=i: self.distcall(name, base, args[:i] + [x] + args[i + 1:], ver), a)
        return mk('c', name, self.strip(base) if base is not None else None, tuple(self.strip(a) for a in args), ver)

    def forget(self, fd, st):
        self.bump(st, fd)
        for k in [k for k in st.mem if k[1] == fd]:
            del st.mem[k]

    def tracked(self, f):
        return f.name in self.inline or f.short in self.inline

    def apply_fn(self, fn, el, st, l):
        """A closure or function given to an algorithm, applied to one element."""
        if fn.t == 'lamv':
            return self.closure_call(self.closures[fn.a[0]], [el], st, l)
        f = self.prog.by_name.get(fn.a[0])
        return self.call(['c', fn.a[0], None, [['#val', el]], {'l': l, 'repo': bool(f)}], st, None)

    def lam_events(self, name, i, fn, st, l):
        """The values a closure handed to a call yields, as effects of that call."""
        if fn.t == 'lamv':
            cl = self.closures[fn.a[0]]
            if isinstance(cl, tuple):
                return
            n = len(cl.lam['params'])
        else:
            n = len(self.prog.by_name[fn.a[0]][0].params)
        if n > 4:
            return
        ps = [mk('lp', short(name), j) for j in range(n)]
        s2 = st.copy()
        tag = mk('lam', name, i)
        self.loops.append(tag)
        if fn.t == 'lamv':
            r = self.closure_call(cl, ps, s2, l)
        else:
            r = self.call(['c', fn.a[0], None, [['#val', x] for x in ps], {'l': l, 'repo': True}], s2, None)
        self.loops.pop()
        if r is None or r.t == 'void' or s2.g == 0:
            return
        body = cl.lam['body'] if fn.t == 'lamv' else self.prog.by_name[fn.a[0]][0].body
        if any(x['k'] == 'ret' and x.get('e') is not None and boolish(x['e']) for x in ir.stmts(body)):
            r = self.boolv(self.truth(r))
        self.emit('lam', 'lam', None, [mk('g', name), r], s2, l)

    def algo(self, sn, args, st, l):
        if args[0].t == 'ite' and len(args) >= 2:
            lv = self.leaves(args[0])
            if lv is not None and all(x.t == 'begin' for _, x in lv):
                # the container itself is gated
                args = [self.dist(lambda x: x.a[0], args[0])] + list(args[1:])
        c = args[0]
        if c.t == 'begin':
            c = c.a[0]
        self.shape['each'] = self.shape.get('each', 0) + 1
        ne, el, push = self.iterate(c, st)
        s2 = st.copy()
        s2.g = self.b.And(st.g, ne)
        self.loops += push
        r = self.apply_fn(args[-1], el, s2, l)
        del self.loops[len(self.loops) - len(push):]
        if r is None:
            return None
        skip = st.copy()
        skip.g = self.b.And(st.g, self.b.Not(ne))
        self.assign_state(st, self.merge([skip, s2]))
        t = self.truth(r)
        x = self.member_test(t, el) if sn in ('any_of', 'none_of') and c.t != 'ite' else None
        if x is not None:
            h = self.has(self.cver(c, st), x)
            return self.boolv(h if sn == 'any_of' else self.b.Not(h))
        if sn == 'any_of':
            return self.boolv(self.b.And(ne, t))
        if sn == 'none_of':
            return self.boolv(self.b.Not(self.b.And(ne, t)))
        if sn == 'all_of':
            return self.boolv(self.b.Not(self.b.And(ne, self.b.Not(t))))
        if sn == 'find_if':
            s2 = st.copy()
            s2.g = self.b.And(st.g, ne, t)
            self.emit('stop', 'stop', None, [push[0]], s2, l)
            return self.ite(self.b.And(ne, t), el, self.dist(lambda x: mk('end', x), c))
        if sn == 'for_each':
            return mk('void')
        return None

    def member_test(self, t, el):
        """X when t is the bare test `el == X` with X not about el."""
        if t < 2:
            return None
        v = self.b.info[next(iter(self.b.support(t)))]
        if not isinstance(v, V) or v.t != '==' or len(self.b.support(t)) != 1 or self.atom_of.get(v) != t:
            return None
        for p, q in ((v.a[0], v.a[1]), (v.a[1], v.a[0])):
            if p is el and self.rend(el) not in self.rend(q):
                return q
        return None

    def copy_algo(self, sn, args, st, l):
        """std::copy/copy_if/transform through an inserter, as the loop they stand for."""
        cl = None
        if args[-1].t == 'lamv' or args[-1].t == 'fn' and sn != 'copy':
            cl = args[-1]
            args = args[:-1]
        elif sn != 'copy':
            return None
        out = args[-1]
        c = args[0]
        if not (out.t == 'c' and short(out.a[0]) in ('back_inserter', 'inserter') and out.a[1] is None and len(out.a[2]) >= 1):
            return None
        if len(args) == 3:
            if c.t == 'ite':
                lv = self.leaves(c)
                if lv is None or any(x.t != 'begin' for _, x in lv):
                    return None
                c = self.dist(lambda x: x.a[0], c)
            elif c.t == 'begin':
                c = c.a[0]
            else:
                return None
        elif len(args) != 2:
            return None
        dst = self.strip(out.a[2][0])
        if dst.t == 'at_ver':
            dst = dst.a[0]
        meth = 'std::vector::push_back' if short(out.a[0]) == 'back_inserter' else 'std::set::insert'
        self.shape['each'] = self.shape.get('each', 0) + 1
        ne, el, push = self.iterate(c, st)
        s2 = st.copy()
        s2.g = self.b.And(st.g, ne)
        self.loops += push
        v = el
        if cl is not None:
            r = self.apply_fn(cl, el, s2, l)
            if r is None:
                del self.loops[len(self.loops) - len(push):]
                return None
            if sn == 'copy_if':
                s2.g = self.b.And(s2.g, self.truth(r))
            else:
                v = r
        self.emit('call', meth, dst, [v], s2, l)
        self.mutate(dst, None, s2)
        del self.loops[len(self.loops) - len(push):]
        skip = st.copy()
        skip.g = self.b.And(st.g, self.b.Not(s2.g))
        self.assign_state(st, self.merge([skip, s2]))
        return mk('void')

    def ver_of(self, v, st):
        """v as read now: identity objects carry their version."""
        v = self.strip(v)
        if v.t in ('L', 'p') and st.ver.get(v):
            return mk('at_ver', v, st.ver[v])
        return v

    def container(self, sn, name, base, args, st, fl):
        py = self.lang == 'py'
        if base is not None and base.t == 'ite' and sn in ('empty', 'size', 'count', 'find', 'at', 'begin', 'end', 'value_or'):
            out = self.dist(lambda x: self.container(sn, name, x, args, st, fl) or mk('c', name, x, tuple(args), 0), base)
            return out
        if py:
            if base is None:
                if name == 'len' and len(args) == 1:
                    return self.dist(lambda x: mk('n', len(x.a[0])) if x.t == 's' else mk('size', self.cver(x, st)), args[0])
                if name in ('list', 'tuple', 'iter') and len(args) == 1 and False:
                    return args[0]
                if name == 'bool' and len(args) == 1:
                    return self.boolv(self.truth(args[0]))
                if name == 'set' and not args:
                    return mk('list', (), 'Set')
                if name == 'list' and not args:
                    return mk('list', (), 'List')
                if name == 'dict' and not args:
                    return mk('dict', ())
            elif name == 'find' and len(args) == 1:
                return mk('strfind', base, args[0])
            elif name == 'format' and base.t == 's':
                parts = re.split(r'(\{\d*\})', base.a[0])
                out, i = [], 0
                for p in parts:
                    mm = re.match(r'^\{(\d*)\}$', p)
                    if mm:
                        j = int(mm.group(1)) if mm.group(1) else i
                        i += 1
                        if j >= len(args):
                            return None
                        out.append(args[j])
                    else:
                        out.append(mk('s', p.replace('{{', '{').replace('}}', '}')))
                return self.cat(out)
            elif name in ('startswith', 'endswith') and len(args) == 1 and args[0].t == 'list':
                return self.boolv(self.b.Or(*[self.truth(mk('c', name, base, (x,), 0)) for x in args[0].a[0]]))
            return None
        if base is not None and not fl.get('repo'):
            if not args and sn in CLANG_RANGES or sn in CLANG_COUNTS and not args or sn in CLANG_AT and len(args) == 1:
                # clang's iterator pairs, counts and indexed accessors, all as the range they describe
                def view(x):
                    rng = lambda n: self.cver(mk('c', name[:len(name) - len(sn)] + n, self.strip(x), (), 0), st)
                    if sn in CLANG_COUNTS:
                        return mk('size', rng(CLANG_COUNTS[sn]))
                    if sn in CLANG_AT:
                        return self.index(rng(CLANG_AT[sn]), args[0], st)
                    return mk('begin' if 'begin' in sn else 'end', rng(CLANG_RANGES[sn]))
                return self.dist(view, base)
            c = self.cver(base, st)
            if sn == 'get' and len(args) == 1 and re.search(r'TemplateArgumentList', name):
                return self.index(base, args[0], st)
            if sn in ('empty', 'isEmpty') and not args:
                return self.boolv(self.b.Not(self.truth(c)))
            if sn in ('size', 'length') and not args:
                return mk('n', len(c.a[0])) if c.t == 's' else mk('size', c)
            if re.search('basic_string|StringRef', name):
                if sn in ('find_last_of', 'find_first_of') and len(args) == 2 and self.charv(args[0]).t == 's' and len(self.charv(args[0]).a[0]) == 1:
                    sn = {'find_last_of': 'rfind', 'find_first_of': 'find'}[sn]
                    return self.distcall(re.sub(r'\w+$', sn, name), base, [self.charv(args[0]), args[1]], 0)
                if sn in ('find', 'rfind') and len(args) == 2 and args[0].t in ('n', 'ite'):
                    return self.distcall(name, base, [self.dist(self.charv, args[0]), args[1]], 0)
                if sn == 'substr' and len(args) == 2 and base.t != 'ite' and args[0].t != 'ite':
                    n = mk('size', c)
                    if args[0] is n:
                        return mk('s', '')
                    if args[1].t not in ('npos', 'n') and self.arith('-', n, args[1]) is args[0]:
                        return self.distcall(name, base, [args[0], mk('npos')], 0)
                if sn == 'contains' and len(args) == 1:
                    return self.boolv(self.b.Not(self.cmp('==', self.distcall(name[:-8] + 'find', base, [self.charv(args[0]), mk('n', 0)], 0), mk('npos'))))
            if sn in ('count', 'contains') and len(args) == 1:
                if sn == 'contains' or True:
                    return self.boolv(self.has(c, args[0])) if sn == 'contains' else mk('count', c, self.strip(args[0]))
            if sn == 'find' and len(args) == 1:
                return mk('find', c, self.strip(args[0]))
            if sn in ('begin', 'cbegin') and not args:
                return mk('begin', c)
            if sn in ('end', 'cend') and not args:
                return mk('end', c)
            if sn == 'at' and len(args) == 1:
                return self.index(base, args[0], st)
            if sn == 'front' and not args:
                return mk('at', c, mk('n', 0))
            if sn == 'back' and not args and (self.unver(base), ('back',)) in st.mem:
                return st.mem[self.unver(base), ('back',)]
            if sn == 'c_str' and not args or sn == 'str' and not args and re.search('StringRef|Twine', name):
                return base
            if sn == 'get' and not args and re.search('_ptr|Optional|optional', name):
                return base
            if sn in ('has_value', 'hasValue') and not args:
                return self.boolv(self.truth(base))
            if sn in ('value', 'operator*') and not args and re.search('ptional', name):
                return base
            if sn == 'compare' and len(args) == 1:
                return mk('compare', base, args[0])
            if sn == 'compare' and len(args) == 3 and re.search('basic_string|StringRef', name):
                return mk('compare', self.call(['c', 'std::basic_string::substr', ['#val', base], [['#val', args[0]], ['#val', args[1]]],
                                                {'const': True, 'l': 0}], st, None), args[2])
        if base is None:
            if name == 'ContainsKey' and len(args) == 2:
                return self.boolv(self.has(self.cver(args[0], st), args[1]))
            if name == 'ContainsValue' and len(args) == 2:
                return self.boolv(self.has(self.cver(args[0], st), args[1]))
            if name in ('std::find', 'llvm::find', 'find') and len(args) == 3 and args[0].t == 'begin':
                return mk('find', args[0].a[0], self.strip(args[2]))
            if name in ('std::count', 'count') and len(args) == 3 and args[0].t == 'begin' and args[1].t == 'end' and args[1].a[0] is args[0].a[0]:
                return mk('count', args[0].a[0], self.strip(args[2]))
            if name in ('llvm::is_contained',) and len(args) == 2:
                return self.boolv(self.has(self.cver(args[0], st), args[1]))
            if name == 'FindInMap' and len(args) == 2:
                c = self.cver(args[0], st)
                return self.ite(self.has(c, args[1]), mk('dc', '', self.index(c, args[1], st)), NULL)
            if name == 'GetOrDefault' and len(args) == 3:
                c = self.cver(args[0], st)
                return self.ite(self.has(c, args[1]), self.index(c, args[1], st), args[2])
            if name in ('std::size', 'llvm::size') and len(args) == 1:
                return mk('size', self.cver(args[0], st))
            if name in ('strlen', 'std::strlen') and len(args) == 1 and args[0].t == 's':
                return mk('n', len(args[0].a[0]))
            if name in ('std::begin', 'std::end') and len(args) == 1:
                return mk(short(name), self.cver(args[0], st))
            if name in ('std::make_pair', 'make_pair') and len(args) == 2:
                return mk('k', 'pair', tuple(args))
        return None

    def cver(self, c, st):
        return self.ver_of(c, st)

    def libval(self, sn, name, base, args, st, fl):
        if base is not None and sn == 'isInvalid' and not args and self.lang != 'py':
            return self.boolv(self.b.Not(self.truth(self.distcall(name[:-9] + 'isValid', base, [], 0))))
        if base is not None and sn in ('is', 'isNot') and len(args) == 1 and name == 'clang::Token::' + sn:
            return self.boolv(self.cmp('==' if sn == 'is' else '!=', self.distcall('clang::Token::getKind', base, [], 0), args[0]))
        return None


ITER_CALLS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'find', 'lower_bound', 'upper_bound'}
CLANG_RANGES = {}
for _b, _r in (('param', 'parameters'), ('field', 'fields'), ('bases', 'bases'), ('vbases', 'vbases'), ('redecls', 'redecls'),
               ('decls', 'decls'), ('ctor', 'ctors'), ('init', 'inits'), ('exception', 'exceptions'), ('shadow', 'shadows'),
               ('arg', 'arguments'), ('method', 'methods'), ('child', 'children'), ('body', 'body'), ('friend', 'friends'),
               ('system_dir', 'system_dir_range'), ('search_dir', 'search_dir_range'), ('capture', 'captures'),
               ('tokens', 'tokens'),
               ('enumerator', 'enumerators'), ('spec', 'specializations')):
    CLANG_RANGES[_b + '_begin'] = _r
    CLANG_RANGES[_b + '_end'] = _r
CLANG_RANGES['begin_overridden_methods'] = CLANG_RANGES['end_overridden_methods'] = 'overridden_methods'
CLANG_COUNTS = {'shadow_size': 'shadows', 'size_overridden_methods': 'overridden_methods', 'getNumParams': 'parameters', 'getNumArgs': 'arguments', 'getNumBases': 'bases', 'getNumVBases': 'vbases'}
CLANG_AT = {'getParamDecl': 'parameters', 'getArg': 'arguments'}


def head_type(t):
    t = re.sub(r'^(const )?(struct |class )?', '', t)
    t = re.sub(r'<.*', '', t)
    return short(t).strip(' &*') or 'object'


def fr_this(fr):
    f = fr
    while f is not None:
        if f.this is not THIS:
            return f.this
        f = f.parent
    return THIS


def conjuncts(e):
    if is_e(e, 'o') and e[1] == '&&':
        return [y for x in e[2] for y in conjuncts(x)]
    return [e]


def blist(b):
    return [] if b is None else b['b'] if isinstance(b, dict) and b['k'] == 'blk' else [b] if isinstance(b, dict) else list(b)


def boolish(e):
    if e[0] == 'o':
        return e[1] in ('==', '!=', '<', '>', '<=', '>=', '!', '&&', '||')
    return e[0] == 'b'


def with_targs(x, targs):
    """A template's body with its dependent calls instantiated."""
    if isinstance(x, dict):
        return {k: with_targs(v, targs) for k, v in x.items()}
    if isinstance(x, list):
        y = [with_targs(v, targs) for v in x]
        if len(x) > 4 and x[0] == 'c' and isinstance(x[1], str) and isinstance(x[4], dict) and \
                x[4].get('ty') == '<dependent type>' and not x[1].endswith('>'):
            y[1] = x[1] + targs
        return y
    return x


def pure(e):
    """No call in e that could do anything but look."""
    if not isinstance(e, list):
        return True
    if e and e[0] == 'c' and not (isinstance(e[-1], dict) and e[-1].get('const')):
        return False
    if e and e[0] == 'o' and (e[1] in ('++', '--', 'p++', 'p--') or e[1].endswith('=') and e[1] not in ('==', '!=', '<=', '>=')):
        return False
    return all(pure(x) for x in e)


def mention(e):
    out = set()
    for x in ir.sub_exprs(e):
        if x[0] == 'v':
            out.add(x[2])
        elif x[0] == 'f':
            out.add(x[2])
        elif x[0] == 'g':
            out.add('::' + x[1])
    return out


def has_continue(body):
    for s in body:
        if s['k'] == 'cont':
            return True
        if s['k'] in ('while', 'for', 'do', 'rfor'):
            continue
        for key in ('b', 't', 'f', 'else', 'fin'):
            v = s.get(key)
            if isinstance(v, dict):
                v = [v]
            if v and has_continue(v):
                return True
        if s['k'] == 'try' and any(has_continue(h['b'] if isinstance(h['b'], list) else [h['b']]) for h in s['h']):
            return True
    return False


def written_vars(body):
    out = set()

    def tg(e):
        if is_e(e, 'v'):
            out.add(e[2])
        elif is_e(e, 'list'):
            for x in e[1]:
                tg(x)
    for s in ir.stmts(body):
        if s['k'] == 'rfor' and s.get('tgt') is not None:
            tg(s['tgt'])
        for e in ir.stmt_exprs(s):
            for x in ir.sub_exprs(e):
                if x[0] == 'o' and (x[1].endswith('=') and x[1] not in ('==', '!=', '<=', '>=') or x[1] in ('++', '--', 'p++', 'p--')):
                    tg(x[2][0])
                elif x[0] == 'o' and x[1] == '&' and len(x[2]) == 1:
                    tg(x[2][0])
                elif x[0] == 'c':
                    fl = x[-1] if isinstance(x[-1], dict) else {}
                    if x[1].startswith('std::basic_string::') and not fl.get('const'):
                        tg(x[2])
                    for i in fl.get('mut', []):
                        if i < len(x[3]):
                            tg(x[3][i])
    return out


def desugar_comp(s):
    """for t in (elt for u in it if c): body  ==>  for u in it: if c: t = elt; body"""
    _, elt, tgt, it, conds, extra = s['r'][:6]
    l = s.get('l', 0)
    body = s['b']
    inner = [{'k': 'expr', 'e': ['o', '=', [s['tgt'], elt], {'l': l}], 'l': l}] + (body if isinstance(body, list) else [body])
    for tg, itx, cs in reversed([(tgt, it, conds)] + [tuple(x) for x in extra]):
        for c in reversed(cs):
            inner = [{'k': 'if', 'pre': [], 'c': c, 't': inner, 'f': [], 'l': l}]
        inner = [{'k': 'rfor', 'pre': [], 'tgt': tg, 'r': itx, 'rty': '', 'b': inner, 'else': [], 'l': l}]
    return inner


def line_or(e, l):
    x = ir.line_of(e)
    return x or l


def split_types(s):
    out, depth, cur = [], 0, ''
    for ch in s:
        if ch == '<':
            depth += 1
        if ch == '>':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


# ------------------------------------------------------------ baseline recording

def record_baseline():
    out = {}
    p = ir.load_cpp()
    out['cpp'] = {fkey(f): 1 if is_trivial(f) else 0 for f in p.funcs}
    out['names:cpp'] = sorted(set(f.name for f in p.funcs))
    out['globals:cpp'] = {k: global_value(p, k) for k, d in p.globals.items() if d.get('init') is not None}
    for py in ('fix_includes.py', 'iwyu_tool.py'):
        q = ir.load_py(py)
        out['py:' + py] = {fkey(f): 1 if is_trivial(f) else 0 for f in q.funcs}
        out['names:py:' + py] = sorted(set(f.name for f in q.funcs))
        out['globals:py:' + py] = {k: global_value(q, k) for k, d in q.globals.items() if d.get('init') is not None}
    json.dump(out, open(os.path.join(HERE, 'baseline_funcs.json'), 'w'), indent=0, sort_keys=True)
    print({k: len(v) for k, v in out.items()})


def load_any(file):
    return ir.load_py(file) if file.endswith('.py') else ir.load_cpp()


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('func', nargs='?')
    ap.add_argument('-s', '--sig')
    ap.add_argument('-i', '--inline', default='')
    ap.add_argument('-o', '--opaque', default='')
    ap.add_argument('-e', '--events', default='')
    ap.add_argument('-g', '--noguard', action='store_true')
    ap.add_argument('--logs', action='store_true')
    a = ap.parse_args()
    if a.file == 'baseline':
        return record_baseline()
    p = load_any(a.file)
    for f in p.find(a.func, a.sig):
        print('==', f)
        g = Gsa(p, inline=[x for x in a.inline.split(',') if x], opaque=[x for x in a.opaque.split(',') if x], logs=a.logs).run(f)
        for e in g.events:
            if a.events and not re.search(a.events, e.text):
                continue
            print('%s:%d  %s' % (e.fn if e.fn != f.name else '', e.line, e.text))
            if not a.noguard:
                print('        if', g.fmt(g.b.restrict(e.g, g.care)))
        for gd, v, s in g.rets:
            print('  RET', g.rend(g.simp(v, gd)), ' if ', '' if a.noguard else g.fmt(g.b.restrict(gd, g.care)))
        print('  care:', g.fmt(g.care, 12), 'atoms', len(g.atom_v), 'nodes', len(g.b.var))


if __name__ == '__main__':
    main()
