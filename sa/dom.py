"""Numeric abstract domain: symbols, interval sets, linear expressions.

A linear expression is a pair (c, ((sym, coef), ...)).  Symbols are small
integers; RNG holds the range of a symbol implied by its type, TAINT whether
it stands for something the analysis has no model of.
"""
from functools import lru_cache

BIG = 1 << 130
STEPS = (1 << 31) - 4096        # documented bound on steps/lengths in one history

RNG = []       # type range of each symbol (interval set)
TAINT = []
DESC = []
COUNTER = []   # produced by widening: limited by STEPS
CH = {}        # (parent, key) -> child symbol
KIDS = {}      # parent -> [key]
UP = {}         # child -> parent
LABEL = {}     # what a symbol stands for, for the reader        # child -> parent

CHARS = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def reset():
    for l in (RNG, TAINT, DESC, COUNTER):
        del l[:]
    CH.clear()
    KIDS.clear()
    UP.clear()
    LABEL.clear()


def fresh(rng, desc='', taint=False, counter=False):
    RNG.append(rng)
    TAINT.append(taint)
    DESC.append(desc)
    COUNTER.append(counter)
    return len(RNG) - 1


def derive(p, key, rng):
    k = (p, key)
    c = CH.get(k)
    if c is None:
        c = CH[k] = fresh(rng, key, TAINT[p])
        KIDS.setdefault(p, []).append(key)
        UP[c] = p
    return c


# ---- interval sets --------------------------------------------------------
def iset(*pairs):
    out = []
    for a, b in sorted(pairs):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def union(a, b):
    if a == b:
        return a
    return iset(*(a + b))


def inter(a, b):
    if a is b or a == b:
        return a
    if len(a) == 1 and len(b) == 1:
        lo = max(a[0][0], b[0][0])
        hi = min(a[0][1], b[0][1])
        return ((lo, hi),) if lo <= hi else ()
    out = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            out.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def compl(a):
    out = []
    lo = -BIG
    for x, y in a:
        if lo <= x - 1:
            out.append((lo, x - 1))
        lo = y + 1
    if lo <= BIG:
        out.append((lo, BIG))
    return tuple(out)


def minus(a, b):
    return inter(a, compl(b))


def subset(a, b):
    return inter(a, b) == a


def size(a):
    return sum(y - x + 1 for x, y in a)


def elems(a):
    for x, y in a:
        yield from range(x, y + 1)


def shift(a, k):
    return tuple((x + k, y + k) for x, y in a)


def neg(a):
    return tuple((-y, -x) for x, y in reversed(a))


# ---- linear expressions ---------------------------------------------------
def const(c):
    return (c, ())


def var(s):
    return (0, ((s, 1),))


def ladd(a, b):
    if not b[1]:
        return (a[0] + b[0], a[1])
    if not a[1]:
        return (a[0] + b[0], b[1])
    d = dict(a[1])
    for s, k in b[1]:
        n = d.get(s, 0) + k
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return (a[0] + b[0], tuple(sorted(d.items())))


def lscale(a, k):
    if k == 0:
        return (0, ())
    return (a[0] * k, tuple((s, c * k) for s, c in a[1]))


def lsub(a, b):
    if a[1] == b[1]:
        return (a[0] - b[0], ())
    return ladd(a, lscale(b, -1))


def label(sym):
    n = 0
    while sym is not None and n < 12:
        if sym in LABEL:
            return LABEL[sym]
        sym = UP.get(sym)
        n += 1
    return None
