"""Rewrites of Python function bodies that keep what they do.

Applied to the syntax tree before lowering, so that two spellings of the same
loop or of the same list come out alike:
  map(f, xs) / filter(f, xs)          a generator
  list(gen), set(gen)                 a comprehension
  v = [..]; for x in v   (only use)   for x in [..]
  x[:2] == 'ab'                       x.startswith('ab')
  f.readlines()                       list(f)
  for _ in range(2): s                s; s
  v = [a]; v.append(b); v += c        v = [a] + [b] + c  (straight line, v read only afterwards)
"""
import ast
import copy

MUT = {'append', 'add', 'update', 'extend', 'insert', 'pop', 'remove', 'discard', 'clear', 'setdefault', 'sort', 'reverse', 'popleft',
       'appendleft', 'difference_update', 'intersection_update'}


def name(n, i=None):
    return isinstance(n, ast.Name) and (i is None or n.id == i)


def blocks(n):
    """Every statement list directly or indirectly inside n, nested definitions excepted."""
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(n, f, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield b, n
            for s in b:
                if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    yield from blocks(s)
    for h in getattr(n, 'handlers', None) or []:
        yield from blocks(h)


def num(x):
    """The integer a slice bound is, None for a missing or unknown one."""
    if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.USub):
        x = num(x.operand)
        return None if x is None else -x
    return x.value if isinstance(x, ast.Constant) and isinstance(x.value, int) else None


class Calls(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_FunctionDef(self, n):
        return n

    visit_ClassDef = visit_FunctionDef

    def gen(self, n, f, it, keep):
        if isinstance(f, ast.Lambda):
            a = f.args
            if len(a.args) != 1 or a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg or a.defaults:
                return n
            t, v = a.args[0].arg, f.body
        elif isinstance(f, (ast.Name, ast.Attribute)):
            self.n += 1
            t = '~m%d' % self.n
            v = ast.Call(func=f, args=[ast.Name(id=t, ctx=ast.Load())], keywords=[])
        elif keep and isinstance(f, ast.Constant) and f.value is None:
            self.n += 1
            t = '~m%d' % self.n
            v = ast.Name(id=t, ctx=ast.Load())
        else:
            return n
        tgt = ast.Name(id=t, ctx=ast.Store())
        elt, ifs = (ast.Name(id=t, ctx=ast.Load()), [v]) if keep else (v, [])
        r = ast.GeneratorExp(elt=elt, generators=[ast.comprehension(target=tgt, iter=it, ifs=ifs, is_async=0)])
        for x in ast.walk(r):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, n)
        return ast.copy_location(r, n)

    def visit_BinOp(self, n):
        """A format chosen first is formatting chosen first."""
        self.generic_visit(n)
        c = n.left
        if isinstance(n.op, ast.Mod) and isinstance(c, ast.IfExp) and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (c.body, c.orelse)):
            return ast.copy_location(ast.IfExp(test=c.test, body=ast.copy_location(ast.BinOp(c.body, n.op, n.right), n),
                                               orelse=ast.copy_location(ast.BinOp(c.orelse, n.op, n.right), n)), n)
        return n

    def visit_IfExp(self, n):
        """x if x > y else y   is   max(x, y)."""
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            x, y = t.left, t.comparators[0]
            if isinstance(t.ops[0], (ast.Lt, ast.LtE)):
                x, y = y, x
            if all(isinstance(z, (ast.Name, ast.Constant)) for z in (x, y)):
                k = (ast.dump(n.body), ast.dump(n.orelse))
                f = 'max' if k == (ast.dump(x), ast.dump(y)) else 'min' if k == (ast.dump(y), ast.dump(x)) else None
                if f:
                    return ast.copy_location(ast.Call(ast.copy_location(ast.Name(f, ast.Load()), n), [n.body, n.orelse], []), n)
        return n

    def visit_List(self, n):
        """[a, *x, *y]   is   [a] + x + y."""
        self.generic_visit(n)
        if not isinstance(n.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in n.elts) or len(n.elts) < 2 or \
                isinstance(n.elts[0], ast.Starred):
            return n
        parts = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                parts.append(e.value)
            elif parts and isinstance(parts[-1], ast.List):
                parts[-1].elts.append(e)
            else:
                parts.append(ast.copy_location(ast.List([e], ast.Load()), n))
        r = parts[0]
        for e in parts[1:]:
            r = ast.copy_location(ast.BinOp(r, ast.Add(), e), n)
        return r

    def visit_Expr(self, n):
        """sys.stderr.write('..\\n' % x)   is   print('..' % x, file=sys.stderr)."""
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'write' and len(c.args) == 1 and \
                isinstance(c.func.value, ast.Attribute) and name(c.func.value.value, 'sys') and c.func.value.attr in ('stdout', 'stderr'):
            a = c.args[0]
            k = a if isinstance(a, ast.Constant) else a.left if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Mod) else \
                a.right if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add) else None
            if isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.endswith('\n'):
                to = c.func.value
                if k is not a and k is getattr(a, 'right', None) and k.value == '\n':
                    a = a.left
                else:
                    k.value = k.value[:-1]
                kw = [] if to.attr == 'stdout' else [ast.keyword('file', to)]
                n.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('print', ast.Load()), c), [a], kw), c)
        return n

    def visit_ListComp(self, n):
        """[False for _ in x] is [False] * len(x)."""
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and isinstance(n.elt, ast.Constant) and not g.ifs and name(g.target) and name(g.iter):
            r = ast.BinOp(ast.List([n.elt], ast.Load()), ast.Mult(), ast.Call(ast.Name('len', ast.Load()), [g.iter], []))
            for x in ast.walk(r):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            return ast.copy_location(r, n)
        return n

    def visit_Compare(self, n):
        """x[:k] == 'literal of length k' is x.startswith('literal ...')."""
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.LtE, ast.GtE)):
            # a set written out is within another if each of its elements is
            a, c = n.left, n.comparators[0]
            if isinstance(n.ops[0], ast.GtE):
                a, c = c, a
            if isinstance(a, ast.Set) and isinstance(c, (ast.Set, ast.Name)) and len(a.elts) > 1 and \
                    not any(isinstance(e, ast.Starred) for e in a.elts):
                return ast.copy_location(ast.BoolOp(ast.And(), [ast.copy_location(ast.Compare(e, [ast.In()], [c]), n) for e in a.elts]), n)
            return n
        if len(n.ops) != 1 or not isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return n
        for a, c in ((n.left, n.comparators[0]), (n.comparators[0], n.left)):
            if isinstance(a, ast.Subscript) and num(a.slice) in (0, -1) and isinstance(c, ast.Constant) and \
                    isinstance(c.value, str) and len(c.value) == 1:
                # (an empty string has neither)
                a = ast.copy_location(ast.Subscript(a.value, ast.Slice(ast.UnaryOp(ast.USub(), ast.Constant(1)), None) if num(a.slice) else
                                                    ast.Slice(None, ast.Constant(1)), ast.Load()), a)
            if not (isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.step is None and
                    isinstance(c, ast.Constant) and isinstance(c.value, (str, bytes)) and c.value):
                continue
            lo, hi = num(a.slice.lower), num(a.slice.upper)
            f = 'startswith' if lo in (None, 0) and hi == len(c.value) else \
                'endswith' if a.slice.upper is None and lo == -len(c.value) else None
            if f is None:
                continue
            r = ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(value=a.value, attr=f, ctx=ast.Load()), n),
                                           args=[c], keywords=[]), n)
            return r if isinstance(n.ops[0], ast.Eq) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n

    def method(self, n):
        """readlines() lists the lines, __iter__() is iter(), OrderedDict.fromkeys(c) pairs its elements with None."""
        f = n.func
        here = lambda x: ast.copy_location(x, n)
        call = lambda g, a: here(ast.Call(func=here(ast.Name(g, ast.Load())), args=[a], keywords=[]))
        if n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return n
        if f.attr in ('start', 'end', 'group', 'span') and len(n.args) == 1 and num(n.args[0]) == 0:
            n.args = []
            return n
        if f.attr == 'loads' and name(f.value, 'json') and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and not n.args[0].args and \
                isinstance(n.args[0].func, ast.Attribute) and n.args[0].func.attr == 'read':
            f.attr = 'load'
            n.args = [n.args[0].func.value]
            return n
        if f.attr == 'startswith' and len(n.args) == 2:
            f.value = here(ast.Subscript(f.value, here(ast.Slice(n.args.pop(), None)), ast.Load()))
            return n
        if f.attr == 'isspace' and not n.args and name(f.value):
            strip = here(ast.Call(here(ast.Attribute(f.value, 'strip', ast.Load())), [], []))
            return here(ast.BoolOp(ast.And(), [f.value, here(ast.UnaryOp(ast.Not(), strip))]))
        if f.attr == 'sub' and name(f.value, 're') and len(n.args) == 3 and all(
                isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args[:2]) and n.args[0].value and \
                not set(n.args[0].value) & set('.^$*+?{}[]|()\\') and '\\' not in n.args[1].value:
            return here(ast.Call(func=here(ast.Attribute(value=n.args[2], attr='replace', ctx=ast.Load())), args=n.args[:2], keywords=[]))
        if f.attr == 'readlines' and not n.args:
            return call('list', f.value)
        if f.attr == '__iter__' and not n.args:
            return self.visit_Call(call('iter', f.value), False)
        if f.attr == 'fromkeys' and len(n.args) in (1, 2) and name(f.value) and f.value.id in ('dict', 'OrderedDict'):
            self.n += 1
            t = '~m%d' % self.n
            v = n.args[1] if len(n.args) == 2 else here(ast.Constant(None))
            if not isinstance(v, (ast.Constant, ast.Name)):
                return n
            pair = here(ast.Tuple([here(ast.Name(t, ast.Load())), v], ast.Load()))
            gen = ast.comprehension(target=here(ast.Name(t, ast.Store())), iter=n.args[0], ifs=[], is_async=0)
            return call(f.value.id, here(ast.GeneratorExp(elt=pair, generators=[gen])))
        return n

    def visit_Call(self, n, deep=True):
        if deep:
            self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            return self.method(n)
        if name(n.func, 'open') and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and n.args[1].value in ('r', 'rt'):
            n.args.pop()
            return n
        if name(n.func, 'str') and len(n.args) == 2 and not n.keywords and isinstance(n.args[1], (ast.Constant, ast.Attribute, ast.Name)):
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Attribute(n.args[0], 'decode', ast.Load()), n),
                                              args=n.args[1:], keywords=[]), n)
        if name(n.func, 'divmod') and len(n.args) == 2 and not n.keywords and all(
                isinstance(a, (ast.Name, ast.Constant)) for a in n.args):
            return ast.copy_location(ast.Tuple([ast.copy_location(ast.BinOp(n.args[0], o, n.args[1]), n)
                                                for o in (ast.FloorDiv(), ast.Mod())], ast.Load()), n)
        if name(n.func, 'reversed') and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and name(n.args[0].func, 'range') and \
                len(n.args[0].args) in (1, 2) and not n.args[0].keywords:
            r = n.args[0]
            lo, hi = (r.args[0], r.args[1]) if len(r.args) == 2 else (ast.Constant(0), r.args[0])
            if isinstance(lo, ast.Constant):
                stop = ast.UnaryOp(ast.USub(), ast.Constant(1)) if lo.value == 0 else ast.Constant(lo.value - 1)
            else:
                stop = ast.BinOp(lo, ast.Sub(), ast.Constant(1))
            r.args = [ast.BinOp(hi, ast.Sub(), ast.Constant(1)), stop, ast.UnaryOp(ast.USub(), ast.Constant(1))]
            for x in ast.walk(r):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            return r
        if name(n.func, 'iter') and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and not n.args[0].args and \
                isinstance(n.args[0].func, ast.Attribute) and n.args[0].func.attr == 'keys':
            n.args = [n.args[0].func.value]
            return n
        if not isinstance(n.func, ast.Name) or n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            return n
        if n.func.id in ('map', 'filter') and len(n.args) == 2:
            return self.gen(n, n.args[0], n.args[1], n.func.id == 'filter')
        if n.func.id == 'set' and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            return ast.copy_location(ast.SetComp(elt=n.args[0].elt, generators=n.args[0].generators), n)
        if n.func.id in ('list', 'set') and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp):
            g = n.args[0]
            c = ast.ListComp if n.func.id == 'list' else ast.SetComp
            return ast.copy_location(c(elt=g.elt, generators=g.generators), n)
        return n


def uses(fn, v):
    return [x for x in ast.walk(fn) if name(x, v)]


def pos(x):
    return (x.lineno, x.col_offset)


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


PURE = (ast.Name, ast.Subscript, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.Tuple, ast.Slice, ast.Load,
        ast.operator, ast.unaryop, ast.cmpop)


def negate(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=c), c)


def conjoin(a, c):
    if isinstance(a, ast.Constant) and a.value is True:
        return c
    xs = (a.values if isinstance(a, ast.BoolOp) and isinstance(a.op, ast.And) else [a]) + \
        (c.values if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And) else [c])
    return ast.copy_location(ast.BoolOp(op=ast.And(), values=xs), a)


def is_brk(b):
    return len(b) == 1 and isinstance(b[0], ast.Break)


def merge_break(fn):
    """while a: (if b: break) ..   is   while a and not b: .."""
    for blk, owner in list(blocks(fn)):
        for w in blk:
            while isinstance(w, ast.While) and not w.orelse:
                i, env = 0, {}
                while i < len(w.body) and isinstance(w.body[i], ast.Assign) and len(w.body[i].targets) == 1 and \
                        name(w.body[i].targets[0]) and all(isinstance(x, PURE) for x in ast.walk(w.body[i].value)) and \
                        w.body[i].targets[0].id not in env:
                    env[w.body[i].targets[0].id] = Subst(env).visit(copy.deepcopy(w.body[i].value))
                    i += 1
                f = w.body[i] if i < len(w.body) else None
                if not isinstance(f, ast.If):
                    break
                # the names of the temporaries must not be live at the test or after the loop
                if env and any(x.id in env and not (pos(w.body[0]) <= pos(x) <= end(w.body[-1])) for x in ast.walk(fn) if name(x)):
                    break
                if any(isinstance(x, ast.NamedExpr) for x in ast.walk(f.test)):
                    break
                c = Subst(env).visit(copy.deepcopy(f.test))
                if is_brk(f.body):
                    w.test, w.body[i:i + 1] = conjoin(w.test, negate(c)), f.orelse
                elif is_brk(f.orelse):
                    w.test, w.body[i:i + 1] = conjoin(w.test, c), f.body
                else:
                    break
                if not w.body:
                    w.body = [ast.copy_location(ast.Pass(), w)]


def end(x):
    return (getattr(x, 'end_lineno', x.lineno), getattr(x, 'end_col_offset', x.col_offset))


def rebuilt(fn):
    """v = [..] + [.. for ..]  is  v = [..]; v += [.. for ..]       v = sorted(v)  is  v.sort()"""
    args = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
    vals = {}
    odd = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and name(x.targets[0]):
            vals.setdefault(x.targets[0].id, []).append(x.value)
            if name(x.value):
                odd.add(x.value.id)
        elif isinstance(x, (ast.Global, ast.Nonlocal)):
            odd.update(x.names)
        elif isinstance(x, (ast.For, ast.comprehension, ast.NamedExpr)):
            odd.update(y.id for y in ast.walk(x.target) if isinstance(y, ast.Name))

    def listy(v, e):
        if isinstance(e, ast.Subscript) and name(e.value, v) and isinstance(e.slice, ast.Slice):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return listy(v, e.left) and listy(v, e.right)
        return isinstance(e, (ast.List, ast.ListComp)) or isinstance(e, ast.Call) and name(e.func, 'sorted')

    def leaves(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return leaves(e.left) + leaves(e.right)
        return [e]
    for b, owner in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]):
                v, e = s.targets[0].id, s.value
                ls = leaves(e)
                if isinstance(e, ast.Call) and name(e.func, 'sorted') and len(e.args) == 1 and name(e.args[0], v) and \
                        v not in args | odd and all(listy(v, x) for x in vals[v]):
                    f = ast.copy_location(ast.Attribute(value=e.args[0], attr='sort', ctx=ast.Load()), e)
                    b[i] = ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(func=f, args=[], keywords=e.keywords), e)), s)
                elif len(ls) > 1 and isinstance(ls[0], (ast.List, ast.ListComp)) and any(isinstance(x, ast.ListComp) for x in ls) and \
                        not any(name(x, v) for x in ast.walk(e)):
                    s.value = ls[0]
                    for x in ls[1:]:
                        i += 1
                        b.insert(i, ast.copy_location(ast.AugAssign(
                            target=ast.copy_location(ast.Name(id=v, ctx=ast.Store()), x), op=ast.Add(), value=x), x))
            i += 1


def once(s, v):
    """The only Load of v in s, if it is evaluated exactly once, before anything else could change."""
    ls = [x for x in ast.walk(s) if name(x, v) and isinstance(x.ctx, ast.Load)]
    if len(ls) != 1:
        return None
    for x in ast.walk(s):
        if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.IfExp, ast.BoolOp)) and \
                any(y is ls[0] for y in ast.walk(x)):
            return None
    return ls[0]


class Put(ast.NodeTransformer):
    def __init__(self, at, new):
        self.at, self.new = at, new

    def visit(self, n):
        return self.new if n is self.at else self.generic_visit(n)


def forward(fn):
    """v = [.. for ..]; w = f(v)   with no other reader of that value   is   w = f([.. for ..])"""
    for b, owner in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(s.value, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
                v = s.targets[0].id
                x = once(t, v)
                inside = {id(y) for y in ast.walk(s)} | {id(y) for y in ast.walk(t)}
                others = [y for y in uses(fn, v) if id(y) not in inside]
                shared = any(isinstance(y, (ast.Global, ast.Nonlocal)) and v in y.names for y in ast.walk(fn))
                looped = any(isinstance(y, (ast.For, ast.While)) and s in list(ast.walk(y)) for y in ast.walk(fn))
                own = [y for y in ast.walk(s.value) if name(y, v)]
                rebound = isinstance(t, ast.Assign) and any(name(y, v) for y in t.targets)
                wrapped = isinstance(t, ast.Expr) or any(isinstance(y, ast.Call) and any(a is x for a in y.args) for y in ast.walk(t))
                if x is not None and wrapped and not shared and not (looped and (others or own)) and \
                        (rebound or not any(pos(y) > pos(x) for y in others)):
                    b[i + 1] = Put(x, s.value).visit(t)
                    del b[i]
                    continue
            i += 1


def positional(tree):
    """f(a, y=b) for a function of the module whose second parameter is y: f(a, b)"""
    sigs = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    static = any(name(d, 'staticmethod') for d in m.decorator_list)
                    a = [x.arg for x in m.args.posonlyargs + m.args.args][0 if static else 1:]
                    sigs.setdefault(n.name if m.name == '__init__' else '.' + m.name, []).append((m, a))
    meth = {id(m) for xs in sigs.values() for m, _ in xs}
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and id(n) not in meth:
            sigs.setdefault(n.name, []).append((n, [x.arg for x in n.args.posonlyargs + n.args.args]))
    for n in ast.walk(tree):
        if not isinstance(n, ast.Call) or not n.keywords or any(isinstance(a, ast.Starred) for a in n.args):
            continue
        k = n.func.id if isinstance(n.func, ast.Name) else '.' + n.func.attr if isinstance(n.func, ast.Attribute) else None
        c = sigs.get(k)
        if not c or len(c) != 1:
            continue
        a = c[0][1][len(n.args):]
        kw = {x.arg: x.value for x in n.keywords}
        while a and a[0] in kw:
            n.args.append(kw.pop(a.pop(0)))
        n.keywords = [x for x in n.keywords if x.arg in kw]


def single_use(fn):
    """v = [..]; for x in v: ..   with no other reader of that value"""
    for b, owner in list(blocks(fn)):
        i = 0
        while i + 1 < len(b):
            s, f = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]) and isinstance(f, ast.For) and \
                    isinstance(s.value, (ast.ListComp, ast.GeneratorExp)) and name(f.iter, s.targets[0].id):
                v = s.targets[0].id
                inside = {id(x) for x in ast.walk(s)} | {id(f.iter)}
                others = [x for x in uses(fn, v) if id(x) not in inside]
                shared = any(isinstance(x, (ast.Global, ast.Nonlocal)) and v in x.names for x in ast.walk(fn))
                looped = any(isinstance(x, (ast.For, ast.While)) and s in list(ast.walk(x)) for x in ast.walk(fn))
                own = [x for x in ast.walk(s.value) if name(x, v)]
                if not shared and not (looped and (others or own)) and not any(pos(x) > pos(f.iter) for x in others):
                    f.iter = s.value
                    del b[i]
                    continue
            i += 1


def touched(body):
    """Names bound or changed in place in a loop body."""
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                out.add(x.id)
            r = None
            if isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load):
                r = x
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                r = x.func.value
            while isinstance(r, (ast.Subscript, ast.Attribute)):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
    return out


def hoist(fn):
    """for x in [.. p ..]: changes p   computes the list first"""
    n = 0
    for b, owner in list(blocks(fn)):
        i = 0
        while i < len(b):
            f = b[i]
            if isinstance(f, ast.For) and isinstance(f.iter, ast.ListComp):
                tg = {x.id for g in f.iter.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                rd = {x.id for x in ast.walk(f.iter) if isinstance(x, ast.Name)} - tg
                if rd & touched(f.body):
                    n += 1
                    v = '~c%d' % n
                    a = ast.Assign(targets=[ast.copy_location(ast.Name(id=v, ctx=ast.Store()), f.iter)], value=f.iter)
                    f.iter = ast.copy_location(ast.Name(id=v, ctx=ast.Load()), f.iter)
                    b.insert(i, ast.copy_location(a, f.iter))
                    i += 1
            i += 1


def build(fn):
    """A list put together before anything looks at it."""
    b = fn.body
    for s in list(b):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]) and isinstance(s.value, ast.List)):
            continue
        v = s.targets[0].id
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) and v in x.names for x in ast.walk(fn)):
            continue
        lst = next((l for l, _ in blocks(fn) if s in l), None)
        steps = []

        def grow(block):
            for x in block:
                y = None
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and \
                        name(x.value.func.value, v) and x.value.func.attr in ('append', 'extend') and \
                        len(x.value.args) == 1 and not x.value.keywords:
                    y = x.value.args[0]
                    if x.value.func.attr == 'append':
                        y = ast.copy_location(ast.List(elts=[y], ctx=ast.Load()), y)
                elif isinstance(x, ast.AugAssign) and name(x.target, v) and isinstance(x.op, ast.Add):
                    y = x.value
                if y is not None:
                    steps.append((block, x, y))
                elif isinstance(x, ast.If):
                    grow(x.body)
                    grow(x.orelse)
        grow(lst[lst.index(s) + 1:] and lst)
        steps = [t for t in steps if pos(t[1]) > pos(s)]
        if not steps:
            continue
        inside = {id(x) for t in steps for x in ast.walk(t[1]) if name(x, v)} | {id(s.targets[0])}
        if any(sum(name(x, v) for x in ast.walk(t[1])) != 1 or
               any(isinstance(x, (ast.ListComp, ast.GeneratorExp)) for x in [t[2]]) for t in steps):
            continue
        others = [x for x in uses(fn, v) if id(x) not in inside]
        last = max(pos(t[1]) for t in steps)
        if any(pos(x) <= last for x in others) or not all(isinstance(x.ctx, ast.Load) for x in others):
            continue
        # later readers must not change it in place either
        if v in touched(lst[lst.index(s) + 1:]) - {v} or any(changes(x, v, inside) for x in ast.walk(fn)):
            continue
        for block, x, y in steps:
            r = ast.BinOp(left=ast.copy_location(ast.Name(id=v, ctx=ast.Load()), x), op=ast.Add(), right=y)
            a = ast.Assign(targets=[ast.copy_location(ast.Name(id=v, ctx=ast.Store()), x)], value=ast.copy_location(r, x))
            block[block.index(x)] = ast.copy_location(a, x)


def changes(x, v, inside):
    r = None
    if isinstance(x, (ast.Subscript, ast.Attribute)) and not isinstance(x.ctx, ast.Load):
        r = x.value
    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
        r = x.func.value
    while isinstance(r, (ast.Subscript, ast.Attribute)):
        r = r.value
    return isinstance(r, ast.Name) and r.id == v and id(r) not in inside


def zipped(fn):
    """for i, (x, y) in enumerate(zip(a, b))   is   for i in range(min(len(a), len(b))): x = a[i]; y = b[i]"""
    for b, owner in list(blocks(fn)):
        for s in b:
            if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and name(s.iter.func, 'enumerate') and len(s.iter.args) == 1 and
                    not s.iter.keywords and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and name(s.target.elts[0])):
                continue
            i, t = s.target.elts
            z = s.iter.args[0]
            if not (isinstance(z, ast.Call) and name(z.func, 'zip') and isinstance(t, ast.Tuple) and len(z.args) == len(t.elts) > 1 and
                    not z.keywords and all(name(x) for x in t.elts + z.args)):
                continue
            seqs = {x.id for x in z.args}
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in seqs for x in ast.walk(s)):
                continue
            load = lambda v: ast.Name(v, ast.Load())
            call = lambda f, a: ast.Call(func=load(f), args=a, keywords=[])
            s.target = i
            s.iter = call('range', [call('min', [call('len', [load(x.id)]) for x in z.args])])
            s.body[:0] = [ast.Assign(targets=[x], value=ast.Subscript(load(q.id), load(i.id), ast.Load())) for x, q in zip(t.elts, z.args)]
            for x in ast.walk(s):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)


def neighbours(fn):
    """for x, y in zip(a, a[1:])   is   for i in range(len(a) - 1): x = a[i]; y = a[i + 1]"""
    n = 0
    for b, owner in list(blocks(fn)):
        for s in b:
            if not (isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and name(s.iter.func, 'zip') and len(s.iter.args) == 2 and
                    not s.iter.keywords and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 and all(map(name, s.target.elts))):
                continue
            a, t = s.iter.args
            cut = isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.lower is None and num(a.slice.upper) == -1
            q = a.value if cut else a
            if not (name(q) and isinstance(t, ast.Subscript) and name(t.value, q.id) and isinstance(t.slice, ast.Slice) and
                    num(t.slice.lower) == 1 and t.slice.upper is None and t.slice.step is None):
                continue
            if q.id in touched(s.body) | {x.id for x in s.target.elts}:
                continue
            n += 1
            i = '~z%d' % n
            load = lambda v: ast.Name(v, ast.Load())
            call = lambda f, a: ast.Call(func=load(f), args=a, keywords=[])
            x, y = s.target.elts
            s.target = ast.Name(i, ast.Store())
            s.iter = call('range', [ast.BinOp(call('len', [load(q.id)]), ast.Sub(), ast.Constant(1))])
            s.body[:0] = [ast.Assign([x], ast.Subscript(load(q.id), load(i), ast.Load())),
                          ast.Assign([y], ast.Subscript(load(q.id), ast.BinOp(load(i), ast.Add(), ast.Constant(1)), ast.Load()))]
            for z in ast.walk(s):
                if not hasattr(z, 'lineno'):
                    ast.copy_location(z, s)


def unpacked(fn):
    """a, b = map(f, m.groups())   is   a, b = f(m.group(1)), f(m.group(2))"""
    for s in ast.walk(fn):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and name(s.value):
            # a, *b = x   is   a, b = x[0], x[1:]
            es = s.targets[0].elts
            if isinstance(es[-1], ast.Starred) and all(map(name, es[:-1])) and name(es[-1].value):
                at = lambda i: ast.Subscript(ast.Name(s.value.id, ast.Load()), i, ast.Load())
                s.value = ast.Tuple([at(ast.Constant(i)) for i in range(len(es) - 1)] + [at(ast.Slice(ast.Constant(len(es) - 1), None))],
                                    ast.Load())
                es[-1] = es[-1].value
                for x in ast.walk(s.value):
                    if not hasattr(x, 'lineno'):
                        ast.copy_location(x, s)
                continue
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and all(map(name, s.targets[0].elts))):
            continue
        v = s.value
        groups = lambda x: isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'groups' and not x.args and \
            name(x.func.value)
        wrap = None
        if isinstance(v, ast.Call) and name(v.func, 'map') and len(v.args) == 2 and name(v.args[0]) and groups(v.args[1]):
            wrap, g = (lambda x: ast.Call(v.args[0], [x], [])), v.args[1]
        elif isinstance(v, (ast.ListComp, ast.GeneratorExp)) and len(v.generators) == 1 and not v.generators[0].ifs and \
                name(v.generators[0].target) and groups(v.generators[0].iter) and isinstance(v.elt, ast.Call) and name(v.elt.func) and \
                len(v.elt.args) == 1 and not v.elt.keywords and name(v.elt.args[0], v.generators[0].target.id):
            wrap, g = (lambda x: ast.Call(v.elt.func, [x], [])), v.generators[0].iter
        if wrap is None:
            continue
        f = g.func.value
        s.value = ast.Tuple([wrap(ast.Call(ast.Attribute(f, 'group', ast.Load()), [ast.Constant(i + 1)], []))
                             for i in range(len(s.targets[0].elts))], ast.Load())
        for x in ast.walk(s.value):
            if not hasattr(x, 'lineno'):
                ast.copy_location(x, s)


def first(fn):
    """return next((e for x in c if p), d)   is   for x in c: if p: return e   followed by   return d"""
    for b, owner in list(blocks(fn)):
        for i, s in enumerate(b):
            if not (isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and name(s.value.func, 'next') and len(s.value.args) == 2 and
                    not s.value.keywords and isinstance(s.value.args[0], ast.GeneratorExp) and len(s.value.args[0].generators) == 1):
                continue
            g, d = s.value.args
            c = g.generators[0]
            own = {x.id for x in ast.walk(c.target) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Name) and x.id in own for x in ast.walk(c.iter)) or \
                    any(isinstance(x, ast.Name) and x.id in own for x in ast.walk(d)):
                continue
            for part in [c.target, g.elt] + c.ifs:
                for x in ast.walk(part):
                    if isinstance(x, ast.Name) and x.id in own:
                        x.id = '~' + x.id
            out = [ast.Return(g.elt)]
            for t in reversed(c.ifs):
                out = [ast.If(t, out, [])]
            loop = ast.For(c.target, c.iter, out, [])
            b[i:i + 1] = [loop, ast.Return(d)]
            for x in ast.walk(loop):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, s)
            ast.copy_location(b[i + 1], s)


def truths(tree):
    """A function whose result is only ever asked for its truth returns True or False."""
    up = {}
    for x in ast.walk(tree):
        for y in ast.iter_child_nodes(x):
            up[y] = x

    def asked(c):
        p = up.get(c)
        if isinstance(p, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            return c is p.test
        if isinstance(p, ast.UnaryOp):
            return isinstance(p.op, ast.Not)
        if isinstance(p, ast.comprehension):
            return any(c is x for x in p.ifs)
        if isinstance(p, ast.BoolOp):
            return asked(p)
        return isinstance(p, ast.Call) and name(p.func, 'bool')
    fns = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.FunctionDef):
            fns.setdefault(x.name, []).append(x)
    for n, fs in fns.items():
        refs = [x for x in ast.walk(tree) if name(x, n) or isinstance(x, ast.Attribute) and x.attr == n]
        if len(fs) != 1 or not refs or fs[0].decorator_list or n.startswith('__') or not all(
                isinstance(up.get(x), ast.Call) and up[x].func is x and asked(up[x]) for x in refs):
            continue
        todo = list(fs[0].body)
        rets = []
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                rets = []
                break
            if isinstance(x, ast.Return):
                rets.append(x)
            todo += ast.iter_child_nodes(x)
        for r in rets:
            if isinstance(r.value, (ast.BoolOp, ast.Name, ast.Attribute, ast.Call)) and not name(getattr(r.value, 'func', None), 'bool'):
                r.value = ast.copy_location(ast.Call(ast.copy_location(ast.Name('bool', ast.Load()), r), [r.value], []), r)


def unroll(fn):
    """for _ in range(2): s   is   s; s"""
    for b, owner in list(blocks(fn)):
        for s in list(b):
            if isinstance(s, ast.For) and not s.orelse and name(s.target) and isinstance(s.iter, ast.Call) and name(s.iter.func, 'range') and \
                    len(s.iter.args) == 1 and num(s.iter.args[0]) in (1, 2, 3) and \
                    not any(isinstance(x, (ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda)) for x in ast.walk(s)) and \
                    sum(name(x, s.target.id) for x in ast.walk(fn)) == 1:
                i = b.index(s)
                b[i:i + 1] = [copy.deepcopy(y) for _ in range(num(s.iter.args[0])) for y in s.body]


def tuples(fn):
    """t += (a, b)   on a tuple makes a new one: t = t + (a, b)"""
    bound, steps = {}, {}
    for b, _ in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]) and isinstance(s.value, ast.Tuple):
                bound[s.targets[0].id] = bound.get(s.targets[0].id, 0) + 1
            elif isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and name(s.target) and isinstance(s.value, ast.Tuple):
                steps.setdefault(s.target.id, []).append((b, i, s))
    for v, ss in steps.items():
        stores = [x for x in ast.walk(fn) if name(x, v) and not isinstance(x.ctx, ast.Load)]
        if len(stores) != len(ss) + bound.get(v, 0) or v not in bound:
            continue
        for b, i, s in ss:
            b[i] = ast.copy_location(ast.Assign([s.target], ast.copy_location(
                ast.BinOp(ast.copy_location(ast.Name(v, ast.Load()), s), ast.Add(), s.value), s)), s)


def normalize(fn):
    """Rewrite a function definition in place (nested definitions are visited on their own)."""
    t = Calls()
    fn.body = [t.visit(s) for s in fn.body]
    unpacked(fn)
    first(fn)
    unroll(fn)
    zipped(fn)
    neighbours(fn)
    tuples(fn)
    forward(fn)
    fn.body = [t.visit(s) for s in fn.body]
    single_use(fn)
    hoist(fn)
    rebuilt(fn)
    build(fn)
    merge_break(fn)
    return fn
