"""Covering (subsumption up to renaming) and widening of states."""
from state import *
import dom as D

LEVEL = {}      # widening level of a symbol

HI = [0, 1, 9, 255, STEPS, (1 << 32) - 1, (1 << 63) - 1, (1 << 64) - 1]
LO = [1, 0, -1, -STEPS, -(1 << 63)]


class No(Exception):
    pass


def skel(v):
    k = v[0]
    if k == 'a':
        return ('a', v[1], v[2], tuple(skel(f) if f is not None else None for f in v[3]))
    if k == 's':
        return ('s', v[1])
    if k == 'r':
        if any(x[0] == 'x' for x in v[2]):
            return ('r', v[1][0] if v[1][0] == 'm' else v[1],
                    tuple('x' if x[0] == 'x' else x for x in v[2]))
        return ('r', 'm' if v[1][0] == 'm' else v[1], v[2])
    if k == 'vec':
        return ('vec', v[1], tuple(skel(x) for x in v[2]), tuple(skel(x) for x in v[5]), v[3] == (0, ()))
    if k == 'cb':
        return ('cb', len(v[1]), v[2])
    if k == 'it':
        return ('it', v[1], tuple(x for x in v[3:5] if isinstance(x, (int, str))))
    if k in ('c', 'in', 'and', 'or', 'not', 'i'):
        return 'i'
    if k == 'cstr':
        return 'S'
    return k


def shape(st):
    return tuple(sorted(((k if k[0] != 'm' else ('m',), skel2(v)) for k, v in st.mem.items()
                         if k[0] != 'm' and v is not None), key=repr_key)) + tuple(sorted(
                             (k, 'i' if isint(v) else v)
                             for k, v in st.ghost.items()))


def repr_key(x):
    return repr(x[0])


def skel2(v):
    return skel(v)


def clamp(r):
    """+-BIG stand for no bound"""
    if r and (r[0][0] < -BIG or r[-1][1] > BIG):
        r = D.iset(*((max(min(a, BIG), -BIG), max(min(b, BIG), -BIG)) for a, b in r))
    return r


def profile(st):
    """ranges of the numbers of a state in the order of its memory"""
    out = []

    def kids(sym, path, d):
        for key in D.KIDS.get(sym, ()):
            c = D.CH[(sym, key)]
            r = st.dom.get(c)
            if r is not None:
                d[path + (key,)] = r
            if c in D.KIDS:
                kids(c, path + (key,), d)

    def go(v):
        if v is None:
            out.append(None)
            return
        k = v[0]
        if k == 'i':
            if not v[2]:
                r = ((v[1], v[1]),)
                out.append((r, r))
            elif len(v[2]) == 1 and v[2][0][1] == 1:
                s = v[2][0][0]
                d = st.dom.get(s)
                out.append((D.shift(d, v[1]) if d is not None else None, clamp(st.range_of((v[1], v[2])))))
            else:
                out.append((None, None))
        elif k == 'a':
            for f in v[3]:
                go(f)
        elif k == 's':
            d = {}
            if v[2] in D.KIDS:
                kids(v[2], (), d)
            out.append(d)
        else:
            out.append(None)
    for k in sorted((k for k, v in st.mem.items() if k[0] != 'm' and v is not None), key=repr):
        go(st.mem[k])
    return out


def may_cover(b, a):
    """False only if the state with profile b cannot cover the one with profile a"""
    if len(a) != len(b):
        return True
    for x, y in zip(b, a):
        if type(x) is tuple and type(y) is tuple:
            if x[0] is not None and y[1] is not None and not D.subset(y[1], x[0]):
                return False
        elif type(x) is dict and type(y) is dict:
            for k, d in x.items():
                r = y.get(k)
                if r is None or not D.subset(r, d):
                    return False
    return True


class Cover:
    def __init__(self, eng, B, A):
        self.e, self.B, self.A = eng, B, A
        self.b = {}         # sym of B -> lin over A
        self.ob = {}        # object sym of B -> value of A
        self.later = []
        self.roots = {}

    def lin(self, lb, la):
        cb, tb = lb
        if not tb:
            if la[1]:
                r = self.A.range_of(la)
                if r == ((cb, cb),):
                    return
                raise No
            if la[0] != cb:
                raise No
            return
        if len(tb) == 1 and tb[0][1] in (1, -1):
            s, k = tb[0]
            x = ladd(la, const(-cb))
            if k == -1:
                x = lscale(x, -1)
            o = self.b.get(s)
            if o is None:
                self.b[s] = x
            elif o != x:
                d = lsub(o, x)
                if not (self.A.lo(d) == 0 == self.A.hi(d)):
                    raise No
            return
        self.later.append((lb, la))

    def obj(self, s, va):
        o = self.ob.get(s)
        if o is None:
            self.ob[s] = va
        elif o != va:
            raise No

    def val(self, x, y):
        if x is None or y is None:
            if x is y or x is None:
                return
            raise No
        k, j = x[0], y[0]
        if k == 'i':
            if j == 'i':
                self.lin((x[1], x[2]), (y[1], y[2]))
                return
            if j in ('c', 'in', 'and', 'or', 'not'):
                d = self.A.decide(y)
                if d is not None:
                    self.lin((x[1], x[2]), const(1 if d else 0))
                    return
                # an unknown boolean covers a condition
                if len(x[2]) == 1 and x[1] == 0 and x[2][0][0] not in self.b \
                        and inter(self.B.rng(x[2][0][0]), ((0, 1),)) == ((0, 1),) \
                        and x[2][0][0] not in self.B.links:
                    self.b[x[2][0][0]] = ('any', y)
                    return
            raise No
        if k == 'a':
            if j == 'a':
                if x[1] != y[1] or x[2] != y[2] or len(x[3]) != len(y[3]):
                    raise No
                for f, g in zip(x[3], y[3]):
                    self.val(f, g)
                return
            if j == 's' and y[1] == x[1]:
                t = self.e.T[x[1]]
                if t['k'] == 'adt' and t.get('enum'):
                    d = self.e.discr(y, x[1])
                    self.lin(const(t['v'][x[2]]['d']), (d[1], d[2]))
                y = self.e.expand(y, x[2])
                if y[0] == 'a':
                    self.val(x, y)
                    return
            raise No
        if k == 's':
            if j == 's':
                if x[1] != y[1]:
                    raise No
                self.objkids(x, y)
                return
            if j == 'a':
                if x[1] != y[1]:
                    raise No
                t = self.e.T[x[1]]
                if t['k'] == 'adt' and t.get('enum') and 'v' in t:
                    d = self.e.discr(x, x[1])
                    self.lin((d[1], d[2]), const(t['v'][y[2]]['d']))
                o = self.ob.get(x[2])
                if o is not None:
                    if o != y:
                        raise No
                    return
                self.ob[x[2]] = y
                x2 = self.e.expand(x, y[2])
                if x2[0] == 'a' and len(x2[3]) == len(y[3]):
                    self.val(x2, y)
                return
            if j in ('vec', 'S', 'it', 'r', 'cstr', 'slice', 'fn'):
                # an unconstrained unknown covers anything of its type
                if D.KIDS.get(x[2]):
                    raise No
                self.obj(x[2], y)
                return
            raise No
        if k == 'S':
            if j == 'cstr':
                y = ('S', y[1], None)
                j = 'S'
            if j != 'S':
                raise No
            if x[1] is not None:
                if x[1] != y[1]:
                    raise No
                return
            if y[1] is None:
                self.objkids2(x[2], y[2])
            else:
                self.obj(x[2], y)
                for key in D.KIDS.get(x[2], ()):
                    c = D.CH[(x[2], key)]
                    d = self.B.dom.get(c)
                    if d is None:
                        continue
                    if key == 'len':
                        if not inter(d, ((len(y[1].encode()),) * 2,)):
                            raise No
                    else:
                        raise No
            return
        if k == 'r':
            if j != 'r' or len(x[2]) != len(y[2]):
                raise No
            if x[1] != y[1]:
                if x[1][0] != 'm' or y[1][0] != 'm':
                    raise No
                self.root(x[1], y[1])
            for p, q in zip(x[2], y[2]):
                if p != q:
                    if p[0] == 'x' and q[0] == 'x':
                        self.lin(p[1], q[1])
                    else:
                        raise No
            return
        if k == 'vec':
            if j == 'vec':
                if x[1] != y[1] or len(x[2]) != len(y[2]) or len(x[5]) != len(y[5]):
                    raise No
                for f, g in zip(x[2], y[2]):
                    self.val(f, g)
                self.lin(x[3], y[3])
                for f, g in zip(x[5], y[5]):
                    self.val(f, g)
                if y[3] != (0, ()):
                    self.later.append(('alts', x[4], y[4]))
                return
            raise No
        if k == 'cb':
            if j != 'cb' or len(x[1]) != len(y[1]) or x[2] != y[2] or x[3] > y[3]:
                raise No
            for f, g in zip(x[1], y[1]):
                self.lin(f, g)
            if not x[2]:
                self.lin(var(x[4]), var(y[4]))
            return
        if k == 'it':
            if j != 'it' or x[1] != y[1] or len(x) != len(y):
                raise No
            for n, (f, g) in enumerate(zip(x[2:], y[2:])):
                if f == g:
                    if isinstance(f, tuple) and f and isinstance(f[0], str):
                        self.val(f, g)
                    continue
                if x[1] == 'vec' and n == 3:
                    self.later.append(('alts', f, g))
                elif isinstance(f, tuple) and f and isinstance(f[0], str):
                    self.val(f, g)
                elif isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], int) \
                        and isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], int):
                    self.lin(f, g)
                else:
                    raise No
            return
        if k == 'cstr':
            if x != y:
                raise No
            return
        if k in ('c', 'in', 'and', 'or', 'not'):
            if x == y:
                o = set()
                syms(x, o, set())
                for s in o:
                    self.lin(var(s), var(s))
                return
            if j != k:
                raise No
            self.cond(x, y)
            return
        if k == 'slice':
            if j != 'slice' or x[1] != y[1] or x[2] != y[2]:
                raise No
            self.lin(x[3], y[3])
            self.lin(x[4], y[4])
            return
        if x != y:
            raise No

    def cond(self, x, y):
        if x[0] != y[0]:
            raise No
        k = x[0]
        if k == 'c':
            if x[1] != y[1]:
                raise No
            self.lin((x[2], x[3]), (y[2], y[3]))
        elif k == 'in':
            if x[3] != y[3]:
                raise No
            self.lin((x[1], x[2]), (y[1], y[2]))
        elif k == 'not':
            self.cond(x[1], y[1])
        elif k in ('and', 'or'):
            self.cond(x[1], y[1])
            self.cond(x[2], y[2])
        elif k == 'i':
            self.val(x, y)

    def objkids(self, x, y):
        self.objkids2(x[2], y[2])

    def objkids2(self, a, b):
        if a == b:
            for key in D.KIDS.get(a, ()):
                c = D.CH[(a, key)]
                self.objkids2(c, c)
            if a not in self.b:
                self.b[a] = var(a)
            return
        o = self.ob.get(a)
        if o is not None:
            if o != b:
                raise No
            return
        self.ob[a] = b
        self.b.setdefault(a, var(b))
        for key in D.KIDS.get(a, ()):
            c = D.CH[(a, key)]
            e = D.CH.get((b, key))
            if e is None:
                if c in self.B.dom or D.KIDS.get(c) or any(c == s for f in self.B.facts for s, _ in f[1]):
                    e = D.derive(b, key, D.RNG[c])
                else:
                    continue
            self.objkids2(c, e)

    def root(self, rb, ra):
        o = self.roots.get(rb)
        if o is not None:
            if o != ra:
                raise No
            return
        self.roots[rb] = ra
        x, y = self.B.mem.get(rb), self.A.mem.get(ra)
        if x is not None:
            if y is None:
                y = self.e.load_root(self.A, ra)
            self.val(x, y)

    def run(self):
        B, A = self.B, self.A
        if B.ghost != A.ghost:
            if set(B.ghost) != set(A.ghost):
                raise No
            for k, v in B.ghost.items():
                w = A.ghost[k]
                if isint(v):
                    self.val(v, w)
                elif v != w:
                    raise No
        else:
            for k, v in B.ghost.items():
                if isint(v):
                    self.val(v, v)
        for k, v in B.mem.items():
            if k[0] == 'm':
                if k in A.mem:
                    self.roots.setdefault(k, k)
                    self.val(v, A.mem[k])
                continue
            if k not in A.mem:
                if v is None:
                    continue
                raise No
            self.val(v, A.mem[k])
        alts = []
        for it in self.later:
            if it[0] == 'alts':
                alts.append(it)
                continue
            lb, la = it
            m = {}
            free = [s for s, _ in lb[1] if s not in self.b]
            if free:
                ca = dict(la[1])
                for s, k in lb[1]:
                    if s not in self.b and ca.get(s) == k:
                        self.b[s] = var(s)
            for s, _ in lb[1]:
                e = self.b.get(s)
                if e is None or e[0] == 'any':
                    raise No
                m[s] = e
            d = lsub(sub_lin(lb, m), la)
            if not (A.lo(d) == 0 == A.hi(d)):
                raise No
        for s, d in B.dom.items():
            e = self.b.get(s)
            if e is None:
                if s in A.dom and subset(A.dom[s], d):
                    continue
                # symbol not bound: constraint about something A lacks
                if any(s == x for x in self.ob):
                    continue
                raise No
            if e[0] == 'any':
                continue
            r = clamp(A.range_of(e))
            if not subset(r, d):
                raise No
        # type ranges of widened symbols without explicit dom
        for s, e in self.b.items():
            if s in B.dom or e[0] == 'any':
                continue
            r = clamp(A.range_of(e))
            if not subset(r, D.RNG[s]) and D.RNG[s] != ((0, 0),):
                # steps clamp
                if D.COUNTER[s] and r[0][0] >= D.RNG[s][0][0] and r[-1][1] <= STEPS + (1 << 20):
                    continue
                raise No
        for f in B.facts:
            m = {}
            for s, _ in f[1]:
                e = self.b.get(s)
                if e is None and s not in self.ob:
                    # occurs in no value: the same unknown on both sides
                    e = self.b[s] = var(s)
                if e is None or e[0] == 'any':
                    raise No
                m[s] = e
            if A.hi(sub_lin(f, m)) > 0:
                raise No
        for s, l in B.links.items():
            e = self.b.get(s)
            if e is None:
                continue
            if e[0] == 'any' or len(e[1]) != 1:
                if not e[1] and e[0] != 'any':
                    continue
                raise No
            s2 = e[1][0][0]
            l2 = A.links.get(s2)
            if l2 is None:
                raise No
            if l == l2 and s == s2:
                continue
            if l[0] != l2[0]:
                raise No
            if l[0] == 'cond':
                self.cond(l[1], l2[1])
            else:
                if l[2] != l2[2]:
                    raise No
                self.lin(var(l[1]), var(l2[1]))
        for _, xb, xa in alts:
            for a in xa:
                if not any(alt_covers(self.e, b, a, self.b, A) for b in xb):
                    raise No
        return True





def alt_covers(e, b, a, bind, A):
    """alternative b (bound symbols b[1]) covers alternative a"""
    if b == a and not any(l != var(s) for s, l in (bind or {}).items() if any(
            s == x for f in a[3] for x, _ in f[1])):
        return True
    SB, SA = State(), State()
    SB.mem = {('o', 'x'): b[0]}
    SA.mem = {('o', 'x'): a[0]}
    SB.dom = dict(b[2])
    SA.dom = dict(A.dom) if A is not None else {}
    SA.dom.update(dict(a[2]))
    SB.facts = frozenset()
    SA.facts = frozenset(a[3]) | (A.facts if A is not None else frozenset())
    c = Cover(e, SB, SA)
    c.alt = b[1]
    if bind is None:
        bind = {}
    if bind:
        for s, l in bind.items():
            if l[0] != 'any':
                c.b[s] = l
    try:
        c.run()
        for f in b[3]:
            m = {}
            for s, _ in f[1]:
                x = c.b.get(s)
                if x is None and s not in b[1]:
                    # a value that exists nowhere else: the same one on both sides
                    x = bind[s] = c.b[s] = var(s)
                if x is None or x[0] == 'any':
                    raise No
                m[s] = x
            if SA.hi(sub_lin(f, m)) > 0:
                raise No
        return True
    except No:
        return False


def covers(e, B, A):
    try:
        return Cover(e, B, A).run()
    except No:
        return False


def extrapolate(r, old, lvl):
    lo, hi = r[0][0], r[-1][1]
    if r[-1][1] <= 0x10FFFF and subset(r, CHARS) and len(r) > 1:
        return CHARS
    if lo < old[0][0]:
        lo = next((x for x in LO if x <= lo), -BIG)
    if hi > old[-1][1]:
        hi = next((x for x in HI if x >= hi), BIG)
    return ((lo, hi),)


class Widen:
    def __init__(self, eng, P, A, delay, join=False):
        self.e, self.P, self.A, self.delay, self.join = eng, P, A, delay, join
        self.W = State()
        self.pairs = {}       # (linP, linA) -> lin
        self.fresh = []       # (sym, linP, linA)
        self.same = set()
        self.objs = {}

    def lin(self, a, b):
        if a == b:
            for s, _ in a[1]:
                self.same.add(s)
            return a
        k = self.pairs.get((a, b))
        if k is not None:
            return k
        for (x, y), w in self.pairs.items():
            d1, d2 = lsub(a, x), lsub(b, y)
            if d1 == d2 and not d1[1]:
                return ladd(w, d1)
            d1, d2 = ladd(a, x), ladd(b, y)
            if d1 == d2 and not d1[1]:
                return lsub(d1, w)
        # identical difference: a = s + c in both with the same symbol
        if self.delay and not a[1] and not b[1]:
            raise No
        rp, ra = self.P.range_of(a), self.A.range_of(b)
        lvl = 0
        if len(a[1]) == 1:
            lvl = LEVEL.get(a[1][0][0], 0)
        u = union(rp, ra)
        if STEPS < u[-1][1] <= STEPS + (1 << 20) and rp[-1][1] <= STEPS:
            u = inter(u, ((-BIG, STEPS),))      # documented bound on the length of a history
        if u != rp and lvl >= 1 and not self.join:
            u = extrapolate(u, rp, lvl)
        if len(u) > 12:
            u = ((u[0][0], u[-1][1]),)
        s = D.fresh(u, 'w', any(D.TAINT[x] for x, _ in a[1] + b[1]), True)
        LEVEL[s] = lvl if self.join else lvl + 1
        w = var(s)
        self.pairs[(a, b)] = w
        self.fresh.append((s, a, b))
        return w

    def kids(self, w, a, b):
        """copy what is known about the children of two objects"""
        ks = set(D.KIDS.get(a, ())) & set(D.KIDS.get(b, ()))
        for key in ks:
            x, y = D.CH[(a, key)], D.CH[(b, key)]
            c = D.derive(w, key, D.RNG[x])
            dx, dy = self.P.dom.get(x), self.A.dom.get(y)
            if dx is not None and dy is not None:
                u = union(dx, dy)
                if u != D.RNG[c]:
                    self.W.dom[c] = u
            self.kids(c, x, y)

    def samekids(self, s):
        self.same.add(s)
        for key in D.KIDS.get(s, ()):
            self.samekids(D.CH[(s, key)])

    def objpair(self, a, b):
        if a == b:
            self.samekids(a)
            return a
        w = self.objs.get((a, b))
        if w is None:
            w = D.fresh(D.RNG[a], 'w', D.TAINT[a] or D.TAINT[b])
            self.objs[(a, b)] = w
            l = D.label(a)
            if l is not None and l == D.label(b):
                D.LABEL[w] = l
            self.kids(w, a, b)
        return w

    def label(self, w, x, y):
        if w[0] != 's':
            return
        o, r = set(), set()
        syms(x, o, r)
        syms(y, o, r)
        o = {D.label(z) for z in o | {q[1] for q in r if q[0] == 'm'}} - {None}
        if len(o) == 1:
            D.LABEL[w[2]] = o.pop()

    def val(self, x, y):
        if x == y:
            if x is not None:
                self.mark(x)
            return x
        if x is None or y is None:
            return None
        k, j = x[0], y[0]
        B = ('c', 'in', 'and', 'or', 'not')
        if k in B or j in B:
            if (k in B or k == 'i') and (j in B or j == 'i'):
                rp = ((0, 1),)
                s = D.fresh(rp, 'wb')
                return ('i', 0, ((s, 1),))
            raise No
        if k == 'cstr' and j == 'cstr':
            raise No
        if k != j:
            if self.join and 's' in (k, j) and 'vec' in (k, j):
                import models
                return self.val(models.as_vec(self.e, self.P, x), models.as_vec(self.e, self.A, y))
            if k in 'as' and j in 'as' and x[1] == y[1]:
                if k == 'a' and j == 's':
                    t = self.e.T[x[1]]
                    if not t.get('enum'):
                        return self.val(x, self.e.expand(y, x[2]))
                elif k == 's':
                    t = self.e.T[x[1]]
                    if not t.get('enum'):
                        return self.val(self.e.expand(x, y[2]), y)
                w = self.e.fresh(x[1], 'w', self.e.tainted(self.P, x) or self.e.tainted(self.A, y))
                self.label(w, x, y)
                return w
            raise No
        if k == 'i':
            l = self.lin((x[1], x[2]), (y[1], y[2]))
            return ('i', l[0], l[1])
        if k == 'a':
            if x[1] != y[1] or x[2] != y[2] or len(x[3]) != len(y[3]):
                if x[1] == y[1]:
                    t = self.e.T[x[1]]
                    w = self.e.fresh(x[1], 'w', self.e.tainted(self.P, x) or self.e.tainted(self.A, y))
                    self.label(w, x, y)
                    if w[0] == 's' and t.get('enum'):
                        d = self.e.discr(w, x[1])
                        u = iset((t['v'][x[2]]['d'],) * 2, (t['v'][y[2]]['d'],) * 2)
                        self.W.dom[d[2][0][0]] = u
                    return w
                raise No
            return ('a', x[1], x[2], tuple(self.val(f, g) for f, g in zip(x[3], y[3])))
        if k == 's':
            if x[1] != y[1]:
                raise No
            return ('s', x[1], self.objpair(x[2], y[2]))
        if k == 'S':
            if x[1] is not None and x[1] == y[1]:
                return x
            if x[1] is None and y[1] is None:
                return ('S', None, self.objpair(x[2], y[2]))
            w = D.fresh(((0, 0),), 'wS')
            lo = []
            for v, st in ((x, self.P), (y, self.A)):
                if v[1] is not None:
                    lo.append(len(v[1].encode()))
                else:
                    c = D.CH.get((v[2], 'len'))
                    lo.append(st.rng(c)[0][0] if c is not None else 0)
            if min(lo) >= 1:
                c = D.derive(w, 'len', ((0, STEPS),))
                self.W.dom[c] = ((1, STEPS),)
            return ('S', None, w)
        if k == 'vec':
            if x[1] != y[1]:
                raise No
            if len(x[2]) != len(y[2]) or len(x[5]) != len(y[5]) or self.join and self.e.levels and any(
                    flags(p) != flags(q) for p, q in zip(x[2] + x[5], y[2] + y[5])):
                if not self.join:
                    raise No
                import models
                k = 0
                if self.e.levels:
                    x, y = models.front_vec(x), models.front_vec(y)
                    k = min(1, len(x[2]), len(y[2]))
                    if k and flags(x[2][0]) != flags(y[2][0]):
                        k = 0
                x = models.vec_summary(self.e, self.P, x, k)
                y = models.vec_summary(self.e, self.A, y, k)
            n = self.lin(x[3], y[3])
            f = tuple(self.val(p, q) for p, q in zip(x[2], y[2]))
            b = tuple(self.val(p, q) for p, q in zip(x[5], y[5]))
            return ('vec', x[1], f, n, ('join', x[4], y[4]), b)
        if k == 'cb':
            if len(x[1]) != len(y[1]) or x[2] != y[2]:
                raise No
            n = self.lin(var(x[4]), var(y[4])) if not x[2] else (0, ())
            n = n[1][0][0] if len(n[1]) == 1 and n == var(n[1][0][0]) else D.fresh(((0, STEPS),), 'len')
            return ('cb', tuple(self.lin(p, q) for p, q in zip(x[1], y[1])), x[2], min(x[3], y[3]), n)
        if k == 'it':
            if x[1] != y[1] or len(x) != len(y):
                raise No
            out = ['it', x[1]]
            for n, (f, g) in enumerate(zip(x[2:], y[2:])):
                if x[1] == 'vec' and n == 3:
                    out.append(('join', f, g) if f != g else f)
                elif f == g:
                    if isinstance(f, tuple) and f and isinstance(f[0], str):
                        self.mark(f)
                    out.append(f)
                elif isinstance(f, tuple) and f and isinstance(f[0], str) and isinstance(g, tuple) and g and isinstance(g[0], str):
                    out.append(self.val(f, g))
                elif isinstance(f, tuple) and len(f) == 2 and isinstance(f[0], int) and isinstance(g, tuple) \
                        and len(g) == 2 and isinstance(g[0], int):
                    out.append(self.lin(f, g))
                else:
                    raise No
            return tuple(out)
        if k == 'r':
            if x[1] == y[1] and len(x[2]) == len(y[2]):
                p = []
                for a, b in zip(x[2], y[2]):
                    if a == b:
                        p.append(a)
                    elif a[0] == 'x' and b[0] == 'x':
                        p.append(('x', self.lin(a[1], b[1])))
                    else:
                        raise No
                return ('r', x[1], tuple(p))
            raise No
        if k == 'slice':
            if x[1] == y[1] and x[2] == y[2]:
                return ('slice', x[1], x[2], self.lin(x[3], y[3]), self.lin(x[4], y[4]))
            raise No
        raise No

    def mark(self, v):
        o = set()
        syms(v, o, set())
        self.same |= o

    def run(self):
        P, A, W = self.P, self.A, self.W
        if set(P.ghost) != set(A.ghost):
            raise No
        for k, v in P.ghost.items():
            w = A.ghost[k]
            if isint(v):
                W.ghost[k] = self.val(v, w)
            elif v == w:
                W.ghost[k] = v
            else:
                raise No
        for k, v in P.mem.items():
            if k not in A.mem:
                if k[0] == 'm':
                    continue
                raise No
            if k[0] == 'm':
                if v == A.mem[k]:
                    self.mark(v) if v is not None else None
                    W.mem[k] = v
                else:
                    W.mem[k] = self.val(v, A.mem[k])
                continue
            W.mem[k] = self.val(v, A.mem[k])
        for s in self.same:
            x, y = P.dom.get(s), A.dom.get(s)
            if x is not None and y is not None:
                u = union(x, y)
                if u != x and LEVEL.get(s, 0) >= 3 and not self.join:
                    u = extrapolate(u, x, 3)
                    u = inter(u, D.RNG[s])
                if u != x and not self.join:
                    LEVEL[s] = LEVEL.get(s, 0) + 1
                if u != D.RNG[s]:
                    W.dom[s] = u
        # links of unchanged symbols
        for s in self.same:
            l = P.links.get(s)
            if l is not None and A.links.get(s) == l:
                W.links[s] = l
        # facts
        cand = set()
        invP, invA = {}, {}
        for s in self.same:
            invP[s] = invA[s] = var(s)
        for s, a, b in self.fresh:
            if len(a[1]) == 1 and a[1][0][1] == 1 and a[1][0][0] not in invP:
                invP[a[1][0][0]] = (-a[0], ((s, 1),))
            if len(b[1]) == 1 and b[1][0][1] == 1 and b[1][0][0] not in invA:
                invA[b[1][0][0]] = (-b[0], ((s, 1),))
        # a relation the newer state brings along may weaken for ever
        late = not self.join and max([LEVEL.get(s, 0) for s, _, _ in self.fresh] or [0]) > 6
        for st, inv in ((P, invP),) if late else ((P, invP), (A, invA)):
            for f in st.facts:
                if all(s in inv for s, _ in f[1]):
                    g = sub_lin(f, inv)
                    if g[1]:
                        cand.add(g)
        mp = {s: a for s, a, _ in self.fresh}
        ma = {s: b for s, _, b in self.fresh}
        if len(self.fresh) <= 14:
            for i, (s, a, b) in enumerate(self.fresh):
                for t, c, d in self.fresh[i + 1:]:
                    for u, w in ((s, t), (t, s)):
                        for k in (1, 0):
                            cand.add((k, tuple(sorted(((u, 1), (w, -1))))))
        # a symbol known to be constant on one side and spelt out on the other
        if not late:
            for s, a, b in self.fresh:
                for st, c, l in ((P, a, b), (A, b, a)):
                    if not c[1] and len(l[1]) == 1 and l[1][0][0] in self.same:
                        r = st.range_of(l)
                        if r and r[0][0] == r[-1][1] == c[0]:
                            cand.add(lsub(var(s), l))
                            cand.add(lsub(l, var(s)))
        good = set()
        for g in cand:
            if len(g[1]) < 2:
                continue
            if P.hi(sub_lin(g, mp)) <= 0 and A.hi(sub_lin(g, ma)) <= 0:
                good.add(g)
        W.facts = frozenset(good)
        # summaries
        self.live = set()
        for v in list(W.mem.values()) + [g for g in W.ghost.values() if isint(g)]:
            if v is not None:
                spine(v, self.live)
        self.newP, self.newA = {}, {}
        for s, a, b in self.fresh:
            for new, l in ((self.newP, a), (self.newA, b)):
                if len(l[1]) == 1 and l[1][0][1] == 1:
                    new.setdefault(l[1][0][0], []).append((-l[0], ((s, 1),)))
        for k, v in W.mem.items():
            if v is not None:
                W.mem[k] = self.alts(v, mp, ma, invP, invA)
        return W

    def alts(self, v, mp, ma, invP, invA):
        k = v[0]
        if k == 'a':
            return ('a', v[1], v[2], tuple(self.alts(f, mp, ma, invP, invA) if f is not None else None for f in v[3]))
        if k == 'vec':
            m = v[4]
            if m and m[0] == 'join':
                m = self.altjoin(m[1], m[2], mp, ma, invP, invA)
            elif any(s in self.newP or s in self.newA for a in m for f in a[3] for s, _ in f[1]):
                m = self.altjoin(m, m, mp, ma, invP, invA)
            return v[:4] + (m,) + (v[5],)
        if k == 'it' and v[1] == 'vec' and len(v) > 5 and v[5] and v[5][0] == 'join':
            return v[:5] + (self.altjoin(v[5][1], v[5][2], mp, ma, invP, invA),) + v[6:]
        if k == 'it':
            return v[:2] + tuple(self.alts(x, mp, ma, invP, invA) if isinstance(x, tuple) and x and x[0] in ('vec', 'a') else x
                                 for x in v[2:])
        return v

    def altjoin(self, xa, ya, mp, ma, invP, invA):
        out = []
        for alts, inv, new in ((xa, invP, self.newP), (ya, invA, self.newA)):
            for a in alts:
                o = set()
                syms(a[0], o, set())
                m = {s: l for s, l in inv.items() if s not in a[1]}
                if any(s not in a[1] and s not in m for s in o):
                    # value refers to something that no longer exists
                    import models
                    a = models.alt_forget(self.e, a, lambda s: s in a[1] or s in m)
                fs = []
                for f in a[3]:
                    opts = [{}]
                    for s, _ in f[1]:
                        if s in a[1]:
                            continue
                        o = list(new.get(s, ()))
                        if s in m and m[s] not in o and (s in self.live or not o):
                            o.append(m[s])
                        opts = [dict(x, **{}) | {s: l} for x in opts for l in o][:8]
                    for x in opts:
                        g = sub_lin(f, x)
                        if g[1] and g not in fs:
                            fs.append(g)
                na = (subst(a[0], m), a[1], a[2], tuple(sorted(fs)))
                if not any(alt_covers(self.e, b, na, {s: var(s) for s in self.W.dom}, self.W) for b in out):
                    out = [b for b in out if not alt_covers(self.e, na, b, None, self.W)]
                    out.append(na)
        if len(out) > 12:
            import models
            out = [models.alt_top(self.e, out[0])]
        return tuple(out)


def flags(v):
    """the constants in an element"""
    if v[0] == 'i':
        return v if not v[2] else None
    return tuple(f[1] if f[0] == 'i' and not f[2] else None for f in v[3] if f is not None) if v[0] == 'a' else None


def spine(v, out):
    """symbols of a value, those of element summaries left out"""
    k = v[0]
    if k == 'a':
        for f in v[3]:
            if f is not None:
                spine(f, out)
    elif k == 'vec':
        for x in v[2] + v[5]:
            spine(x, out)
        out.update(s for s, _ in v[3][1])
    elif k == 'it':
        for x in v[2:]:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple):
                out.update(s for s, _ in x[1])
            elif isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] != 'join':
                spine(x, out)
    elif k not in ('cstr',):
        try:
            syms(v, out, set())
        except Exception:
            pass


def widen(e, P, A, delay):
    try:
        return Widen(e, P, A, delay).run()
    except No:
        return None


def join(e, P, A):
    """least upper bound used at function exits"""
    try:
        return Widen(e, P, A, False, True).run()
    except No:
        return None


def reset():
    LEVEL.clear()
