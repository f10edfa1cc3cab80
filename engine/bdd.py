"""A small reduced ordered BDD package (guards over predicate atoms)."""
import sys
sys.setrecursionlimit(20000)


class BDD:
    def __init__(self):
        self.var = [1 << 30, 1 << 30]
        self.lo = [0, 1]
        self.hi = [0, 1]
        self.uniq = {}
        self.cache = {}
        self.nvars = 0
        self.info = []

    def new_var(self, info=None):
        v = self.nvars
        self.nvars += 1
        self.info.append(info)
        return self.node(v, 0, 1)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.uniq[k] = r
            if r > 400000:
                raise MemoryError('guard formula too large')
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        v = min(self.var[f], self.var[g], self.var[h])
        f0, f1 = (self.lo[f], self.hi[f]) if self.var[f] == v else (f, f)
        g0, g1 = (self.lo[g], self.hi[g]) if self.var[g] == v else (g, g)
        h0, h1 = (self.lo[h], self.hi[h]) if self.var[h] == v else (h, h)
        r = self.node(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def And(self, *a):
        r = 1
        for x in a:
            r = self.ite(r, x, 0)
        return r

    def Or(self, *a):
        r = 0
        for x in a:
            r = self.ite(r, 1, x)
        return r

    def Not(self, f):
        return self.ite(f, 0, 1)

    def Xor(self, f, g):
        return self.ite(f, self.Not(g), g)

    def Imp(self, f, g):
        return self.ite(f, g, 1)

    def support(self, f):
        seen, out, todo = set(), set(), [f]
        while todo:
            x = todo.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            out.add(self.var[x])
            todo += [self.lo[x], self.hi[x]]
        return out

    def rename(self, f, m):
        """Substitute variables by functions (m: var -> node)."""
        memo = {}

        def go(x):
            if x < 2:
                return x
            r = memo.get(x)
            if r is None:
                v = self.var[x]
                t = m.get(v)
                if t is None:
                    t = self.node(v, 0, 1)
                r = memo[x] = self.ite(t, go(self.hi[x]), go(self.lo[x]))
            return r
        return go(f)

    def drop(self, f, h):
        """f where h is false; the states where it is true are taken alike."""
        if h < 2 or not (self.lo[h] == 0 and self.hi[h] == 1):
            return self.And(f, self.Not(h))
        v = self.var[h]
        memo = {}

        def go(x):
            if x < 2 or self.var[x] > v:
                return x
            if self.var[x] == v:
                return self.lo[x]
            r = memo.get(x)
            if r is None:
                r = memo[x] = self.node(self.var[x], go(self.lo[x]), go(self.hi[x]))
            return r
        return go(f)

    def restrict(self, f, care):
        """f simplified under the assumption care (Coudert-Madre restrict, light)."""
        if care == 0:
            return f
        memo = {}

        def go(x, c):
            if x < 2 or c == 1:
                return x
            k = (x, c)
            r = memo.get(k)
            if r is not None:
                return r
            vx, vc = self.var[x], self.var[c]
            if vc < vx:
                l, h = self.lo[c], self.hi[c]
                r = go(x, self.Or(l, h)) if l and h else go(x, l or h)
            else:
                if vc == vx:
                    c0, c1 = self.lo[c], self.hi[c]
                else:
                    c0 = c1 = c
                if c0 == 0:
                    r = go(self.hi[x], c1)
                elif c1 == 0:
                    r = go(self.lo[x], c0)
                else:
                    r = self.node(vx, go(self.lo[x], c0), go(self.hi[x], c1))
            memo[k] = r
            return r
        return go(f, care)

    def isop(self, f, limit=200):
        """Irredundant sum of products: list of dict var->bool."""
        memo = {}

        def go(L, U):
            if L == 0:
                return [], 0
            if U == 1:
                return [{}], 1
            k = (L, U)
            if k in memo:
                return memo[k]
            v = min(self.var[L], self.var[U])
            L0, L1 = (self.lo[L], self.hi[L]) if self.var[L] == v else (L, L)
            U0, U1 = (self.lo[U], self.hi[U]) if self.var[U] == v else (U, U)
            c0, f0 = go(self.And(L0, self.Not(U1)), U0)
            c1, f1 = go(self.And(L1, self.Not(U0)), U1)
            Ld = self.Or(self.And(L0, self.Not(f0)), self.And(L1, self.Not(f1)))
            cd, fd = go(Ld, self.And(U0, U1))
            x = self.node(v, 0, 1)
            cubes = [dict(c, **{}) for c in cd]
            out = [dict([(v, False)] + list(c.items())) for c in c0] + \
                  [dict([(v, True)] + list(c.items())) for c in c1] + cubes
            fn = self.Or(self.And(self.Not(x), f0), self.And(x, f1), fd)
            memo[k] = (out, fn)
            return memo[k]
        return go(f, f)[0][:limit]

    def one_path(self, f):
        """One satisfying assignment (dict var->bool) or None."""
        if f == 0:
            return None
        d = {}
        while f > 1:
            if self.lo[f]:
                d[self.var[f]] = False
                f = self.lo[f]
            else:
                d[self.var[f]] = True
                f = self.hi[f]
        return d
