"""Abstract machine state: memory, symbol domains, linear facts."""
from dom import *
from val import *
import dom as D


class State:
    __slots__ = ('mem', 'dom', 'facts', 'links', 'ghost')

    def __init__(self):
        self.mem = {}
        self.dom = {}
        self.facts = frozenset()
        self.links = {}
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = self.mem.copy()
        s.dom = self.dom.copy()
        s.facts = self.facts
        s.links = self.links
        s.ghost = self.ghost
        return s

    # -- numeric ------------------------------------------------------------
    def rng(self, s):
        d = self.dom.get(s)
        return D.RNG[s] if d is None else d

    def dlo(self, l):
        r = l[0]
        for s, k in l[1]:
            d = self.dom.get(s) or D.RNG[s]
            r += k * (d[0][0] if k > 0 else d[-1][1])
        return r

    def dhi(self, l):
        r = l[0]
        for s, k in l[1]:
            d = self.dom.get(s) or D.RNG[s]
            r += k * (d[-1][1] if k > 0 else d[0][0])
        return r

    def _related(self, l):
        ss = {s for s, _ in l[1]}
        return [f for f in self.facts if any(s in ss for s, _ in f[1])]

    def hi(self, l, depth=2):
        best = self.dhi(l)
        if not l[1] or not self.facts:
            return best
        for f in self._related(l):
            # f <= 0 ; l = (l - f) + f <= l - f
            for k in (1,):
                g = lsub(l, f)
                if len(g[1]) <= len(l[1]) + 1:
                    h = self.dhi(g)
                    if h < best:
                        best = h
                    if depth > 1 and g[1]:
                        h = self.hi(g, depth - 1)
                        if h < best:
                            best = h
        return best

    def lo(self, l):
        return -self.hi(lscale(l, -1))

    def range_of(self, l):
        """interval set of a linear expression"""
        if not l[1]:
            return ((l[0], l[0]),)
        if len(l[1]) == 1:
            s, k = l[1][0]
            d = self.dom.get(s) or D.RNG[s]
            if k == 1:
                r = shift(d, l[0]) if l[0] else d
            elif k == -1:
                r = shift(neg(d), l[0])
            else:
                r = ((self.dlo(l), self.dhi(l)),)
            if self.facts:
                r = inter(r, ((self.lo(l), self.hi(l)),))
            return r
        return ((self.lo(l), self.hi(l)),)

    def setdom(self, s, d):
        """restrict symbol s to d; returns feasibility"""
        old = self.dom.get(s) or D.RNG[s]
        n = inter(old, d)
        if not n:
            return False
        if n == old:
            return True
        self.dom[s] = n
        l = self.links.get(s)
        if l is not None:
            return self.fire(s, l, n)
        return True

    def fire(self, s, l, n):
        if l[0] == 'cond':
            if n == ((1, 1),):
                return self.assume1(l[1])
            if n == ((0, 0),):
                return self.assume1(v_not(l[1]))
        elif l[0] == 'fun':
            # s = f(t): l = ('fun', t, table) with table: value -> set of t
            _, t, tab = l
            pre = ()
            for v, ps in tab:
                if inter(((v, v),), n):
                    pre = union(pre, ps)
            return self.setdom(t, pre)
        return True

    def assume_le(self, l):
        """l <= 0"""
        c, t = l
        if not t:
            return c <= 0
        if self.lo(l) > 0:
            return False
        if self.dhi(l) <= 0:
            return True
        if len(t) == 1:
            s, k = t[0]
            if k > 0:
                return self.setdom(s, ((-BIG, (-c) // k),))
            return self.setdom(s, ((_ceil_div(c, -k), BIG),))
        self.facts = self.facts | {l}
        # bound propagation
        for s, k in t:
            rest = (c, tuple(x for x in t if x[0] != s))
            lo = self.dlo(rest)          # k*s <= -rest <= -lo
            if k > 0:
                if not self.setdom(s, ((-BIG, (-lo) // k),)):
                    return False
            else:
                if not self.setdom(s, ((_ceil_div(lo, -k), BIG),)):
                    return False
        return True

    def assume1(self, v):
        """assume a boolean value holds, single state (disjunctions are kept
        imprecise); returns feasibility"""
        k = v[0]
        if k == 'i':
            if not v[2]:
                return v[1] != 0
            return self.assume_ne(lin(v))
        if k == 'c':
            op = v[1]
            l = (v[2], v[3])
            if op == 'le':
                return self.assume_le(l)
            if op == 'eq':
                return self.assume_eq(l)
            return self.assume_ne(l)
        if k == 'in':
            return self.assume_in((v[1], v[2]), v[3])
        if k == 'and':
            return self.assume1(v[1]) and self.assume1(v[2])
        if k == 'or':
            a = self.copy()
            b = self.copy()
            fa = a.assume1(v[1])
            fb = b.assume1(v[2])
            if fa and fb:
                return True
            if not fa and not fb:
                return False
            x = a if fa else b
            self.dom, self.facts = x.dom, x.facts
            return True
        if k == 'not':
            w = v[1]
            if w[0] == 'and':
                return self.assume1(v_or(v_not(w[1]), v_not(w[2])))
            if w[0] == 'or':
                return self.assume1(v_and(v_not(w[1]), v_not(w[2])))
            if w[0] == 'in':
                return self.assume_in((w[1], w[2]), compl(w[3]))
            if w[0] == 'not':
                return self.assume1(w[1])
            return self.assume1(v_not(w))
        return True

    def assume_in(self, l, st):
        r = self.range_of(l)
        n = inter(r, st)
        if not n:
            return False
        if n == r:
            return True
        t = l[1]
        if len(t) == 1 and t[0][1] in (1, -1):
            d = shift(n, -l[0])
            if t[0][1] == -1:
                d = neg(d)
            return self.setdom(t[0][0], d)
        return True

    def assume_eq(self, l):
        c, t = l
        if not t:
            return c == 0
        if len(t) == 1:
            s, k = t[0]
            if c % k:
                return False
            return self.setdom(s, ((-c // k, -c // k),))
        if self.lo(l) > 0 or self.hi(l) < 0:
            return False
        if len(t) == 2 and t[0][1] == -t[1][1] and abs(t[0][1]) == 1:
            # a - b + c = 0  (or negated)
            a, b = t[0][0], t[1][0]
            k = c if t[0][1] == 1 else -c
            # a = b - k
            if not self.setdom(a, shift(self.rng(b), -k)):
                return False
            if not self.setdom(b, shift(self.rng(a), k)):
                return False
        return self.assume_le(l) and self.assume_le(lscale(l, -1))

    def assume_ne(self, l):
        c, t = l
        if not t:
            return c != 0
        if len(t) == 1:
            s, k = t[0]
            if c % k:
                return True
            v = -c // k
            return self.setdom(s, compl(((v, v),)))
        lo, hi = self.lo(l), self.hi(l)
        if lo > 0 or hi < 0:
            return True
        if lo == 0 and hi == 0:
            return False
        if lo == 0:
            return self.assume_le((1 - c, tuple((s, -k) for s, k in t)))
        if hi == 0:
            return self.assume_le((c + 1, t))
        return True

    def decide(self, v):
        """True / False / None"""
        k = v[0]
        if k == 'i':
            if not v[2]:
                return v[1] != 0
            r = self.range_of(lin(v))
            if not inter(r, ((0, 0),)):
                return True
            if r == ((0, 0),):
                return False
            return None
        if k == 'c':
            l = (v[2], v[3])
            op = v[1]
            if op == 'le':
                if self.hi(l) <= 0:
                    return True
                if self.lo(l) > 0:
                    return False
                return None
            if len(l[1]) == 1:
                r = self.range_of(l)
                z = inter(r, ((0, 0),))
                if not z:
                    e = False
                elif r == ((0, 0),):
                    e = True
                else:
                    return None
            else:
                lo, hi = self.lo(l), self.hi(l)
                if lo == 0 and hi == 0:
                    e = True
                elif lo > 0 or hi < 0:
                    e = False
                else:
                    return None
            return e if op == 'eq' else not e
        if k == 'in':
            r = self.range_of((v[1], v[2]))
            n = inter(r, v[3])
            if not n:
                return False
            if n == r:
                return True
            return None
        if k == 'not':
            d = self.decide(v[1])
            return None if d is None else not d
        if k == 'and':
            a = self.decide(v[1])
            if a is False:
                return False
            b = self.decide(v[2])
            if b is False:
                return False
            return True if a and b else None
        if k == 'or':
            a = self.decide(v[1])
            if a:
                return True
            b = self.decide(v[2])
            if b:
                return True
            return False if (a is False and b is False) else None
        return None

    def split(self, v):
        """-> (states where v holds, states where it does not); the states
        may share self"""
        d = self.decide(v)
        if d is True:
            return [self], []
        if d is False:
            return [], [self]
        k = v[0]
        if k == 'not':
            t, f = self.split(v[1])
            return f, t
        if k == 'and':
            t, f = self.split(v[1])
            tt = []
            for s in t:
                a, b = s.split(v[2])
                tt += a
                f = f + b
            return tt, f
        if k == 'or':
            t, f = self.split(v[1])
            ff = []
            for s in f:
                a, b = s.split(v[2])
                ff += b
                t = t + a
            return t, ff
        if k == 'i' and len(v[2]) == 1:
            l = self.links.get(v[2][0][0])
            if l is not None and l[0] == 'cond' and v[1] == 0:
                t, f = self.split(l[1])
                s = v[2][0][0]
                rt, rf = [], []
                for x in t:
                    y = x.copy()
                    y.dom[s] = ((1, 1),)
                    rt.append(y)
                for x in f:
                    y = x.copy()
                    y.dom[s] = ((0, 0),)
                    rf.append(y)
                return rt, rf
        if k == 's':
            return [self], [self.copy()]
        a = self.copy()
        b = self.copy()
        t = [a] if a.assume1(v) else []
        f = [b] if b.assume1(v_not(v)) else []
        return t, f

    def link(self, s, l):
        self.links = dict(self.links)
        self.links[s] = l


def _ceil_div(a, b):
    return -((-a) // b)
