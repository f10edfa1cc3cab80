"""Loading of the analysed program.

C++: every translation unit of /repo is parsed by clang (engine/irdump.cc) from
the *current* working tree; Python: the scripts are parsed with `ast` and
lowered to the same statement/expression tree.  Everything downstream (path
explorer, who-may-call queries, table lints) works on this one form.
"""
import ast
import pynorm
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('IWYU_REPO', '/repo')
IRDUMP = os.path.join(VERIF, 'build', 'irdump')
CLANG_ARGS = ['-std=c++17', '-xc++', '-I/usr/lib/llvm-20/include', '-D__STDC_CONSTANT_MACROS',
              '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', '-fno-exceptions', '-w',
              '-ferror-limit=0',
              '-DIWYU_GIT_REV="x"', '-include', os.path.join(HERE, 'config.h'),
              '-DIWYU_RESOURCE_BINARY_PATH=iwyu_resource_binary_path_configured',
              '-DIWYU_RESOURCE_DIR=iwyu_resource_dir_configured',
              '-resource-dir', '/usr/lib/llvm-20/lib/clang/20']
# Clang-21-only names the repository uses; clang 20 cannot resolve them.
CLANG21 = ('getQualifier', 'getDependentTemplateName', 'CK_HLSLElementwiseCast',
           'CK_HLSLAggregateSplatCast', 'getMostRecentCXXRecordDecl')


class AnalysisBroken(Exception):
    """The analysis could not be carried out (anchor vanished, parse failure)."""


class Func:
    __slots__ = ('name', 'file', 'line', 'sig', 'params', 'body', 'cls', 'const', 'virt', 'static',
                 'ret', 'inits', 'lang', 'access', 'key', 'nested', 'decorators', 'vararg', 'defaults')

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    def __repr__(self):
        return '<%s %s:%s>' % (self.name, self.file, self.line)

    @property
    def short(self):
        return self.name.split('::')[-1].split('.')[-1]


class Program:
    def __init__(self):
        self.funcs = []
        self.by_name = {}
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.files = []
        self.errors = {}

    def add(self, f):
        self.funcs.append(f)
        self.by_name.setdefault(f.name, []).append(f)
        s = f.short
        if s != f.name:
            self.by_name.setdefault('*' + s, []).append(f)

    def find(self, name, sig=None, file=None, must=True):
        """Functions called `name` (with or without its class prefix)."""
        r = self.by_name.get(name) or self.by_name.get('*' + name) or []
        if sig is not None:
            r2 = [f for f in r if re.search(sig, f.sig or '')]
            r = r2
        if file is not None:
            r = [f for f in r if f.file == file]
        if not r and must:
            raise AnalysisBroken('function %r%s not found in the current tree' % (
                name, ' (%s)' % sig if sig else ''))
        return r

    def one(self, name, sig=None, file=None):
        r = self.find(name, sig, file)
        if len(r) > 1:
            raise AnalysisBroken('function %r is ambiguous: %s' % (name, r))
        return r[0]


def _tree_hash(files):
    h = hashlib.sha256()
    h.update(open(os.path.join(HERE, 'irdump.cc'), 'rb').read())
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def ensure_irdump():
    if not os.path.exists(IRDUMP) or os.path.getmtime(IRDUMP) < os.path.getmtime(os.path.join(HERE, 'irdump.cc')):
        r = subprocess.run(['bash', os.path.join(HERE, 'build.sh')], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot build irdump:\n' + r.stdout[-2000:])


def _dump_one(path, cachedir, key):
    out = os.path.join(cachedir, '%s.%s.json' % (os.path.basename(path), key))
    if os.path.exists(out):
        return path, json.load(open(out)), None
    r = subprocess.run([IRDUMP, REPO, path, '--'] + CLANG_ARGS, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd='/tmp')
    try:
        d = json.loads(r.stdout.decode('utf-8', 'replace'))
    except ValueError:
        raise AnalysisBroken('irdump failed on %s: %s' % (path, r.stderr.decode('utf-8', 'replace')[-1500:]))
    errs = [l for l in r.stderr.decode('utf-8', 'replace').splitlines() if ' error: ' in l]
    unknown = [l for l in errs if not any(n in l for n in CLANG21)]
    d['unknown_errors'] = unknown
    d['nerr'] = len(errs)
    tmp = out + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fh:
        json.dump(d, fh)
    os.replace(tmp, out)
    return path, d, None


_cpp_cache = {}


def cpp_sources():
    return sorted(glob.glob(os.path.join(REPO, '*.cc')))


def load_cpp(files=None):
    """Parses the given translation units (default: all) into a Program."""
    srcs = cpp_sources()
    if files is not None:
        srcs = [s for s in srcs if os.path.basename(s) in files]
        missing = set(files) - set(os.path.basename(s) for s in srcs)
        if missing:
            raise AnalysisBroken('source files vanished: %s' % sorted(missing))
    ck = tuple(srcs)
    if ck in _cpp_cache:
        return _cpp_cache[ck]
    ensure_irdump()
    headers = sorted(glob.glob(os.path.join(REPO, '*.h')))
    hkey = _tree_hash(headers)
    cachedir = os.path.join(VERIF, 'build', 'ircache')
    os.makedirs(cachedir, exist_ok=True)
    with ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda p: _dump_one(
            p, cachedir, hashlib.sha256((hkey + _tree_hash([p]) + repr(CLANG_ARGS).replace(REPO + '/', '').replace(REPO, '')).encode()).hexdigest()[:24]), srcs))
    prog = Program()
    seen = set()
    bad = []
    for path, d, _ in res:
        prog.files.append(os.path.basename(path))
        prog.errors[os.path.basename(path)] = d['nerr']
        bad += d['unknown_errors']
        for f in d['functions']:
            k = (f['file'], f['line'], f['name'], f['sig'])
            if k in seen:
                continue
            seen.add(k)
            fn = Func(name=f['name'], file=f['file'], line=f['line'], sig=f['sig'], params=f['params'],
                      cls=f.get('cls'), const=f.get('const', False), virt=f.get('virt', False),
                      static=f.get('static', False), ret=f['ret'], lang='c++', access=f.get('access'),
                      inits=norm_block(norm_lams(f.get('inits', []))), body=swap_away(norm_stmt(norm_lams(f['body'])), f['params']))
            fn.key = fn.name
            prog.add(fn)
        for g in d['globals']:
            prog.globals.setdefault(g['name'], g)
        for r in d['records']:
            prog.records.setdefault(r['name'], r)
        for e in d['enums']:
            prog.enums.setdefault(e['name'] or '<anon %s>' % e['consts'][:1], e)
    if bad:
        raise AnalysisBroken('the tree does not parse: ' + '; '.join(bad[:5]))
    _cpp_cache[ck] = prog
    return prog


# ---------------------------------------------------------------- C++ clean-up

def swap_away(body, params):
    """x.swap(local), the local dead afterwards, is an assignment to x."""
    if not isinstance(body, dict) or body.get('k') != 'blk':
        return body
    top = body['b']
    ptr = {p['id'] for p in params if p['ty'].rstrip().endswith('*')}
    out = list(top)
    for i, s in enumerate(top):
        e = s.get('e')
        if s['k'] != 'expr' or not is_e(e, 'c') or not e[1].endswith('::swap') or e[2] is None or len(e[3]) != 1 or not is_e(e[3][0], 'v'):
            continue
        v = e[3][0]
        if not any(d['k'] == 'decl' and d.get('id') == v[2] and not d['ty'].rstrip().endswith(('&', '*')) for d in top[:i]):
            continue
        if any(is_e(x, 'v') and x[2] == v[2] for t in stmts(top[i + 1:]) for y in stmt_exprs(t) for x in sub_exprs(y)):
            continue
        lhs = e[2]
        if is_e(lhs, 'v') and lhs[2] in ptr:
            lhs = ['o', '*', [lhs], {'l': s['l']}]
        out[i] = dict(s, e=['o', '=', [lhs, v], {'l': s['l']}])
    return dict(body, b=out)


def is_e(e, tag):
    return isinstance(e, list) and e and e[0] == tag


def _contains(e, pred):
    if isinstance(e, list):
        if e and e[0] == 'lam':
            return False            # another function's body
        if pred(e):
            return True
        return any(_contains(x, pred) for x in e)
    if isinstance(e, dict):
        return any(_contains(x, pred) for x in e.values())
    return False


def _is_fatal(e):
    return _contains(e, lambda x: len(x) > 1 and x[0] == 'k' and x[1] == 'FatalMessageEmitter')


def stream_root(e):
    """The leftmost operand of a << chain, or None."""
    n = 0
    while is_e(e, 'o') and e[1] == '<<' and len(e[2]) == 2:
        e = e[2][0]
        n += 1
    return e if n else None


def stream_args(e):
    out = []
    while is_e(e, 'o') and e[1] == '<<' and len(e[2]) == 2:
        out.append(e[2][1])
        e = e[2][0]
    out.reverse()
    return out


def _is_errs(e):
    return is_e(e, 'c') and e[1] in ('llvm::errs', 'errs')


def norm_block(b):
    """A list of statements from a block-ish JSON value."""
    if b is None:
        return []
    if isinstance(b, dict):
        if b.get('k') == 'blk':
            return [norm_stmt(x) for x in b['b']]
        return [norm_stmt(b)]
    return [norm_stmt(x) for x in b]


def norm_lams(x):
    """Lambda bodies get the same treatment as function bodies."""
    if isinstance(x, list):
        x = [norm_lams(y) for y in x]
        if len(x) > 1 and x[0] == 'lam' and isinstance(x[1], dict) and 'body' in x[1]:
            x[1] = dict(x[1], body={'k': 'blk', 'b': norm_block(x[1]['body']), 'l': x[1].get('l', 0)})
        return x
    if isinstance(x, dict):
        return {k: norm_lams(v) for k, v in x.items()}
    return x


def norm_stmt(s):
    """Recognises the repo's assertion and logging macros; normalises blocks."""
    if isinstance(s, list):
        return {'k': 'blk', 'b': [norm_stmt(x) for x in s], 'l': 0}
    k = s['k']
    l = s.get('l', 0)
    if k == 'blk':
        return {'k': 'blk', 'b': [norm_stmt(x) for x in s['b']], 'l': l}
    if k == 'expr':
        e = s['e']
        if is_e(e, 'cond') and (_is_fatal(e[3])):
            c = e[1]
            msg = None
            while is_e(c, 'o') and c[1] == '&&' and is_e(c[2][1], 's'):
                msg = c[2][1][1]
                c = c[2][0]
            return {'k': 'assert', 'c': c, 'l': l, 'msg': msg, 'fatal': e[3]}
        if _is_fatal(e):
            return {'k': 'abort', 'l': l}
        return {'k': 'expr', 'e': e, 'l': l}
    if k == 'if':
        t = norm_block(s['t'])
        f = norm_block(s['f'])
        c = s['c']
        # VERRS/ERRSYM: if (!ShouldPrint..(x)) ; else errs() << ...;
        if not t and len(f) == 1 and f[0]['k'] == 'expr' and stream_root(f[0]['e']) is not None \
                and _is_errs(stream_root(f[0]['e'])):
            return {'k': 'log', 'cond': ['o', '!', [c]], 'e': f[0]['e'], 'l': l, 'mac': s.get('mac')}
        return {'k': 'if', 'pre': [norm_stmt(x) for x in s['pre']], 'c': c, 't': t, 'f': f, 'l': l}
    if k in ('while',):
        return {'k': 'while', 'pre': [norm_stmt(x) for x in s['pre']], 'c': s['c'], 'b': norm_block(s['b']), 'l': l}
    if k == 'do':
        return {'k': 'do', 'c': s['c'], 'b': norm_block(s['b']), 'l': l}
    if k == 'for':
        return {'k': 'for', 'i': [norm_stmt(x) for x in s['i']], 'c': s['c'],
                'n': [norm_stmt(x) for x in s['n']], 'b': norm_block(s['b']), 'l': l}
    if k == 'rfor':
        r = dict(s)
        r['pre'] = [norm_stmt(x) for x in s['pre']]
        r['b'] = norm_block(s['b'])
        return r
    if k == 'switch':
        return {'k': 'switch', 'pre': [norm_stmt(x) for x in s['pre']], 'c': s['c'], 'b': norm_block(s['b']), 'l': l}
    return s


# ---------------------------------------------------------------- Python

_BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
        ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Pow: '**',
        ast.MatMult: '@'}
_CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
        ast.Is: '==', ast.IsNot: '!='}


class PyLower:
    def __init__(self, prog, file, module):
        self.prog, self.file, self.module = prog, file, module
        self.scope = None     # name -> id for the current function
        self.gnames = set()

    def lower_module(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) or isinstance(n, ast.Assign):
                pass
        self.top = set()
        for n in tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.top.add(n.name)
        for n in tree.body:
            self.top_stmt(n, None)
        # module-level code as a pseudo function
        self.new_scope()
        body = [s for n in tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))
                and not isinstance(n, ast.Assign)
                for s in self.st(n)]
        self.prog.add(Func(name='<module>', file=self.file, line=1, sig='', params=[], body={'k': 'blk', 'b': body, 'l': 1},
                           lang='py', inits=[]))

    def top_stmt(self, n, cls):
        if isinstance(n, ast.FunctionDef):
            self.lower_func(n, cls)
        elif isinstance(n, ast.ClassDef):
            self.prog.records[n.name] = {'name': n.name, 'file': self.file, 'line': n.lineno,
                                         'bases': [ast.unparse(b) for b in n.bases]}
            for m in n.body:
                if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                    self.new_scope()
                    self.prog.globals['%s.%s' % (n.name, m.targets[0].id)] = {
                        'name': '%s.%s' % (n.name, m.targets[0].id), 'file': self.file, 'line': m.lineno,
                        'init': self.ex(m.value), 'ast': m.value}
                self.top_stmt(m, n.name)
        elif isinstance(n, ast.Assign) and cls is None:
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.new_scope()
                    self.prog.globals[t.id] = {'name': t.id, 'file': self.file, 'line': n.lineno,
                                               'init': self.ex(n.value), 'ast': n.value}
        elif isinstance(n, (ast.If, ast.Try)) and cls is None:
            for m in ast.iter_child_nodes(n):
                if isinstance(m, ast.stmt):
                    self.top_stmt(m, cls)

    def new_scope(self):
        self.scope = {}
        self.gnames = set()

    def vid(self, name):
        if name not in self.scope:
            self.scope[name] = max(self.scope.values(), default=0) + 1
        return ['v', name, self.scope[name]]

    def lower_func(self, n, cls, prefix=None):
        pynorm.normalize(n)
        saved = (self.scope, self.gnames, getattr(self, 'cls', None))
        outer = self.scope if prefix else None
        self.scope = dict(outer) if outer else {}
        self.gnames = set()
        self.cls = cls
        # collect locally bound names
        bound = set()
        for x in self._walk_local(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bound.add(x.id)
            elif isinstance(x, ast.Global):
                self.gnames.update(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                bound.add(x.name)
        args = n.args.posonlyargs + n.args.args + n.args.kwonlyargs
        deco = [ast.unparse(d) for d in n.decorator_list]
        params = []
        for a in args:
            self.vid(a.arg)
            if outer and a.arg in outer:
                self.scope[a.arg] = max(self.scope.values()) + 1
            params.append({'name': a.arg, 'id': self.scope[a.arg], 'ty': '', 'mut': True})
        if n.args.vararg:
            self.vid(n.args.vararg.arg)
        if n.args.kwarg:
            self.vid(n.args.kwarg.arg)
        defaults = n.args.defaults
        for p, d in zip(params[len(n.args.posonlyargs + n.args.args) - len(defaults):], defaults):
            p['def'] = self.ex(d)
        outside = {x for y in self._walk_local(n) if isinstance(y, ast.Nonlocal) for x in y.names}
        own = {p['name'] for p in params}
        for b in sorted(bound):
            if b not in self.gnames:
                if outer and b in outer and b not in outside and b not in own:
                    self.scope[b] = max(self.scope.values()) + 1
                self.vid(b)
        name = (cls + '.' if cls else '') + n.name
        if prefix:
            name = prefix + '.' + n.name
        body = []
        for s in n.body:
            body += self.st(s)
        f = Func(name=name, file=self.file, line=n.lineno, sig='', params=params,
                 body={'k': 'blk', 'b': body, 'l': n.lineno}, cls=cls, lang='py', inits=[],
                 static='staticmethod' in deco, decorators=deco)
        self.prog.add(f)
        nested = [x for x in self._walk_local(n) if isinstance(x, ast.FunctionDef)]
        for x in nested:
            self.lower_func(x, None, prefix=name)
        self.scope, self.gnames, self.cls = saved
        return f

    def _walk_local(self, n):
        todo = list(ast.iter_child_nodes(n))
        while todo:
            x = todo.pop()
            yield x
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))

    # expressions
    def ex(self, n):
        t = type(n)
        ln = getattr(n, 'lineno', 0)
        if n is None:
            return ['null']
        if t is ast.Constant:
            v = n.value
            if v is None:
                return ['null']
            if isinstance(v, bool):
                return ['b', v]
            if isinstance(v, (int, float)):
                return ['n', v]
            if isinstance(v, bytes):
                return ['s', v.decode('latin-1'), 'bytes']
            return ['s', str(v)]
        if t is ast.Name:
            if n.id in self.scope and n.id not in self.gnames:
                return self.vid(n.id)
            return ['g', n.id]
        if t is ast.Attribute:
            return ['f', self.ex(n.value), n.attr, '']
        if t is ast.Call:
            args = [self.ex(a.value if isinstance(a, ast.Starred) else a) for a in n.args]
            kw = {k.arg or '**': self.ex(k.value) for k in n.keywords}
            fl = {'l': ln}
            if any(isinstance(a, ast.Starred) for a in n.args):
                fl['star'] = True
            if kw:
                fl['kw'] = kw
            f = n.func
            if isinstance(f, ast.Attribute):
                return ['c', f.attr, self.ex(f.value), args, fl]
            if isinstance(f, ast.Name):
                if f.id in self.scope and f.id not in self.gnames:
                    return ['c', 'operator()', self.vid(f.id), args, fl]
                return ['c', f.id, None, args, fl]
            return ['c', 'operator()', self.ex(f), args, fl]
        if t is ast.BoolOp:
            op = '&&' if isinstance(n.op, ast.And) else '||'
            e = self.ex(n.values[0])
            for v in n.values[1:]:
                e = ['o', op, [e, self.ex(v)], {'l': ln}]
            return e
        if t is ast.UnaryOp:
            op = {ast.Not: '!', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
            v = self.ex(n.operand)
            if op == '-' and v[0] == 'n':
                return ['n', -v[1]]
            return ['o', op, [v], {'l': ln}]
        if t is ast.BinOp:
            return ['o', _BIN[type(n.op)], [self.ex(n.left), self.ex(n.right)], {'l': ln}]
        if t is ast.Compare:
            left = self.ex(n.left)
            out = None
            for op, c in zip(n.ops, n.comparators):
                r = self.ex(c)
                if isinstance(op, ast.In):
                    e = ['has', r, left]
                elif isinstance(op, ast.NotIn):
                    e = ['o', '!', [['has', r, left]], {'l': ln}]
                else:
                    e = ['o', _CMP[type(op)], [left, r], {'l': ln}]
                out = e if out is None else ['o', '&&', [out, e], {'l': ln}]
                left = r
            return out
        if t is ast.IfExp:
            return ['cond', self.ex(n.test), self.ex(n.body), self.ex(n.orelse), {'l': ln}]
        if t is ast.Subscript:
            return ['o', '[]', [self.ex(n.value), self.ex(n.slice)], {'l': ln}]
        if t is ast.Slice:
            return ['slice', self.ex(n.lower), self.ex(n.upper), self.ex(n.step)]
        if t in (ast.Tuple, ast.List, ast.Set):
            return ['list', [self.ex(x.value if isinstance(x, ast.Starred) else x) for x in n.elts], t.__name__]
        if t is ast.Dict:
            return ['dict', [[self.ex(k), self.ex(v)] for k, v in zip(n.keys, n.values)]]
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            g = n.generators[0]
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            saved = dict(self.scope)
            it = self.ex(g.iter)
            for nm in names:
                self.scope[nm] = max(list(self.scope.values()) + [0]) + 1
            tgt = self.ex(g.target)
            conds = [self.ex(c) for c in g.ifs]
            extra = []
            for g2 in n.generators[1:]:
                for x in ast.walk(g2.target):
                    if isinstance(x, ast.Name):
                        self.scope[x.id] = max(list(self.scope.values()) + [0]) + 1
                extra.append([self.ex(g2.target), self.ex(g2.iter), [self.ex(c) for c in g2.ifs]])
            elt = ['list', [self.ex(n.key), self.ex(n.value)], 'Tuple'] if t is ast.DictComp else self.ex(n.elt)
            maxid = max(list(self.scope.values()) + [0])
            self.scope = saved
            self.scope['<pad%d>' % maxid] = maxid
            return ['comp', elt, tgt, it, conds, extra, {'l': ln, 'kind': t.__name__}]
        if t is ast.Lambda:
            saved = dict(self.scope)
            ps = []
            for a in n.args.args:
                self.scope[a.arg] = max(list(self.scope.values()) + [0]) + 1
                ps.append({'name': a.arg, 'id': self.scope[a.arg], 'ty': '', 'mut': True})
            body = [{'k': 'ret', 'e': self.ex(n.body), 'l': ln}]
            maxid = max(list(self.scope.values()) + [0])
            self.scope = saved
            self.scope['<pad%d>' % maxid] = maxid
            return ['lam', {'params': ps, 'body': {'k': 'blk', 'b': body, 'l': ln}, 'caps': [], 'l': ln}]
        if t is ast.JoinedStr:
            parts = []
            for v in n.values:
                parts.append(self.ex(v.value) if isinstance(v, ast.FormattedValue) else self.ex(v))
            return ['fstr', parts]
        if t is ast.Starred:
            return self.ex(n.value)
        if t is ast.NamedExpr:
            return ['o', '=', [self.ex(n.target), self.ex(n.value)], {'l': ln}]
        if t in (ast.Yield, ast.YieldFrom):
            return ['c', '<yield>', None, [self.ex(n.value)], {'l': ln}]
        if t is ast.Await:
            return self.ex(n.value)
        return ['?', t.__name__, [], {'l': ln}]

    # statements
    def st(self, n):
        t = type(n)
        l = getattr(n, 'lineno', 0)
        if t is ast.Expr:
            if isinstance(n.value, ast.Constant):
                return []
            return [{'k': 'expr', 'e': self.ex(n.value), 'l': l}]
        if t is ast.Assign:
            out = []
            v = self.ex(n.value)
            for tg in n.targets:
                out.append({'k': 'expr', 'e': ['o', '=', [self.ex(tg), v], {'l': l}], 'l': l})
            return out
        if t is ast.AnnAssign:
            if n.value is None:
                return []
            return [{'k': 'expr', 'e': ['o', '=', [self.ex(n.target), self.ex(n.value)], {'l': l}], 'l': l}]
        if t is ast.AugAssign:
            return [{'k': 'expr', 'e': ['o', _BIN[type(n.op)] + '=', [self.ex(n.target), self.ex(n.value)], {'l': l}], 'l': l}]
        if t is ast.If:
            return [{'k': 'if', 'pre': [], 'c': self.ex(n.test), 't': self.blk(n.body), 'f': self.blk(n.orelse), 'l': l}]
        if t is ast.While:
            return [{'k': 'while', 'pre': [], 'c': self.ex(n.test), 'b': self.blk(n.body), 'else': self.blk(n.orelse), 'l': l}]
        if t is ast.For:
            tg = self.ex(n.target)
            return [{'k': 'rfor', 'pre': [], 'tgt': tg, 'r': self.ex(n.iter), 'rty': '', 'b': self.blk(n.body),
                     'else': self.blk(n.orelse), 'l': l}]
        if t is ast.Return:
            return [{'k': 'ret', 'e': self.ex(n.value) if n.value is not None else ['null'], 'l': l}]
        if t is ast.Break:
            return [{'k': 'brk', 'l': l}]
        if t is ast.Continue:
            return [{'k': 'cont', 'l': l}]
        if t is ast.Raise:
            return [{'k': 'raise', 'e': self.ex(n.exc) if n.exc else None, 'l': l}]
        if t is ast.Assert:
            return [{'k': 'assert', 'c': self.ex(n.test), 'l': l}]
        if t is ast.Try:
            hs = []
            for h in n.handlers:
                if h.type is None:
                    types = ['*']
                elif isinstance(h.type, ast.Tuple):
                    types = [ast.unparse(x) for x in h.type.elts]
                else:
                    types = [ast.unparse(h.type)]
                hs.append({'types': types, 'var': self.vid(h.name) if h.name else None, 'b': self.blk(h.body), 'l': h.lineno})
            return [{'k': 'try', 'b': self.blk(n.body), 'h': hs, 'else': self.blk(n.orelse), 'fin': self.blk(n.finalbody), 'l': l}]
        if t is ast.With:
            out = []
            for it in n.items:
                v = self.ex(it.context_expr)
                if it.optional_vars is not None:
                    out.append({'k': 'expr', 'e': ['o', '=', [self.ex(it.optional_vars), v], {'l': l}], 'l': l})
                else:
                    out.append({'k': 'expr', 'e': v, 'l': l})
            return out + self.blk(n.body)
        if t is ast.FunctionDef:
            return [{'k': 'def', 'name': n.name, 'l': l, 'v': self.vid(n.name)}]
        if t is ast.Delete:
            return [{'k': 'expr', 'e': ['c', '<del>', None, [self.ex(x) for x in n.targets], {'l': l}], 'l': l}]
        if t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.ClassDef):
            return []
        return [{'k': 'unknown', 'cls': t.__name__, 'l': l}]

    def blk(self, b):
        out = []
        for s in b:
            out += self.st(s)
        return out


_py_cache = {}


def load_py(file):
    if file in _py_cache:
        return _py_cache[file]
    path = os.path.join(REPO, file)
    if not os.path.exists(path):
        raise AnalysisBroken('source file vanished: %s' % file)
    src = open(path, encoding='utf-8').read()
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise AnalysisBroken('%s does not parse: %s' % (file, e))
    prog = Program()
    prog.files.append(file)
    pynorm.positional(tree)
    pynorm.truths(tree)
    prog.tree = tree
    prog.src = src
    PyLower(prog, file, os.path.splitext(file)[0]).lower_module(tree)
    _py_cache[file] = prog
    return prog


# ---------------------------------------------------------------- generic walks

def sub_exprs(e):
    """All expression nodes of e, outermost first (lambda bodies included)."""
    if isinstance(e, list):
        if e and isinstance(e[0], str):
            yield e
            if e[0] == 'lam':
                for s in stmts(e[1]['body']):
                    for x in stmt_exprs(s):
                        for y in sub_exprs(x):
                            yield y
                return
        for x in e:
            if isinstance(x, list):
                for y in sub_exprs(x):
                    yield y
            elif isinstance(x, dict) and 'kw' in x:
                for v in x['kw'].values():
                    for y in sub_exprs(v):
                        yield y


def stmts(s):
    """All statements under s (a statement or list), pre-order."""
    if isinstance(s, list):
        for x in s:
            for y in stmts(x):
                yield y
        return
    if s is None:
        return
    yield s
    k = s['k']
    for key in ('pre', 'i', 'n', 'b', 't', 'f', 'else', 'fin'):
        v = s.get(key)
        if isinstance(v, list):
            for y in stmts(v):
                yield y
        elif isinstance(v, dict) and 'k' in v:
            for y in stmts(v):
                yield y
    if k == 'try':
        for h in s['h']:
            for y in stmts(h['b']):
                yield y


def stmt_exprs(s):
    """Expressions directly owned by one statement."""
    k = s['k']
    for key in ('e', 'c', 'r', 'v', 'tgt', 'cond'):
        if key == 'v' and k not in ('case',):
            continue
        v = s.get(key)
        if isinstance(v, list):
            yield v


def func_exprs(f):
    """(statement, expression) for every outermost expression of a function."""
    for s in list(f.inits or []) + list(stmts(f.body)):
        for e in stmt_exprs(s):
            yield s, e


def all_exprs(f):
    """Every expression node of a function."""
    for s, e in func_exprs(f):
        for x in sub_exprs(e):
            yield x


def calls(f):
    """(stmt, call-node) for every call in f, lambda bodies included."""
    for s, e in func_exprs(f):
        for x in sub_exprs(e):
            if x[0] == 'c':
                yield s, x


def line_of(x, s=None):
    if isinstance(x, list):
        for y in reversed(x):
            if isinstance(y, dict) and 'l' in y:
                return y['l']
        if x and x[0] == 'k' and len(x) > 3 and isinstance(x[3], int):
            return x[3]
    return (s or {}).get('l', 0)
