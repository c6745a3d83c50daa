"""Abstract values and operations on them that need no machine state.

Kinds (first tuple element):
  i  (c, terms)              integer, char, bool or field-less enum
  c  (op, c, terms)          condition  lin op 0,  op in eq ne le
  in (c, terms, set)         condition  lin in set
  not/and/or                 boolean combinations
  a  (ty, variant, fields)   aggregate
  s  (ty, sym)               unknown value of a type, expanded on demand
  r  (root, path)            reference
  slice (root, path, off, len)
  cstr (text)                constant &str
  S  (text|None, sym)        string contents
  vec (ty, front, n, mid, back)   sequence: known ends, summarised middle
  cb (cells, end, cached, lensym) look-ahead buffer of characters
  it (kind, ...)             iterator
  fn (ty)                    function item
"""
from dom import *

def I(c):
    return ('i', c, ())

def isint(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'i'


TRUE = ('i', 1, ())
FALSE = ('i', 0, ())


def from_lin(l):
    return ('i', l[0], l[1])


def lin(v):
    return (v[1], v[2])


def is_const(v):
    return v[0] == 'i' and not v[2]


def v_not(v):
    k = v[0]
    if k == 'i':
        if not v[2]:
            return I(1 - v[1])
        return ('i', 1 - v[1], tuple((s, -c) for s, c in v[2]))
    if k == 'not':
        return v[1]
    if k == 'c':
        op, c, t = v[1:]
        if op == 'eq':
            return ('c', 'ne', c, t)
        if op == 'ne':
            return ('c', 'eq', c, t)
        return ('c', 'le', 1 - c, tuple((s, -x) for s, x in t))
    return ('not', v)


def cmp(op, l):
    """condition for linear l; folds constants"""
    c, t = l
    if not t:
        if op == 'eq':
            return TRUE if c == 0 else FALSE
        if op == 'ne':
            return TRUE if c != 0 else FALSE
        return TRUE if c <= 0 else FALSE
    return ('c', op, c, t)


def v_and(a, b):
    if is_const(a):
        return b if a[1] else FALSE
    if is_const(b):
        return a if b[1] else FALSE
    return ('and', a, b)


def v_or(a, b):
    if is_const(a):
        return TRUE if a[1] else b
    if is_const(b):
        return TRUE if b[1] else a
    return ('or', a, b)


def v_in(l, st):
    if not l[1]:
        return TRUE if inter(((l[0], l[0]),), st) else FALSE
    return ('in', l[0], l[1], st)


def desc_syms(s, out):
    out.add(s)
    for k in KIDS.get(s, ()):
        c = CH[(s, k)]
        if c not in out:
            desc_syms(c, out)


def syms(v, out, roots):
    """collect symbols and references roots of a value"""
    k = v[0]
    if k == 'i':
        for s, _ in v[2]:
            out.add(s)
            if s in KIDS:
                desc_syms(s, out)
    elif k == 'c':
        for s, _ in v[3]:
            out.add(s)
    elif k == 'in':
        for s, _ in v[2]:
            out.add(s)
    elif k == 'a':
        for f in v[3]:
            syms(f, out, roots)
    elif k == 's':
        if v[2] not in out:
            desc_syms(v[2], out)
        roots.add(('m', v[2]))
    elif k == 'r':
        roots.add(v[1])
        for p in v[2]:
            if p[0] == 'x':
                for s, _ in p[1][1]:
                    out.add(s)
    elif k == 'slice':
        roots.add(v[1])
        for l in (v[3], v[4]):
            for s, _ in l[1]:
                out.add(s)
    elif k == 'not':
        syms(v[1], out, roots)
    elif k in ('and', 'or'):
        syms(v[1], out, roots)
        syms(v[2], out, roots)
    elif k == 'S':
        if v[2] is not None:
            desc_syms(v[2], out)
    elif k == 'vec':
        for x in v[2]:
            syms(x, out, roots)
        for s, _ in v[3][1]:
            out.add(s)
        for a in v[4]:
            o = set()
            syms(a[0], o, roots)
            for l in a[3]:
                for s, _ in l[1]:
                    o.add(s)
            out |= o - a[1]
        for x in v[5]:
            syms(x, out, roots)
    elif k == 'cb':
        for l in v[1]:
            for s, _ in l[1]:
                out.add(s)
        out.add(v[4])
    elif k == 'it':
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                syms(x, out, roots)
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], int):
                for s, _ in x[1]:
                    out.add(s)
        if v[1] == 'vec' and len(v) > 5:
            for a in v[5]:
                o = set()
                syms(a[0], o, roots)
                for l in a[3]:
                    for s, _ in l[1]:
                        o.add(s)
                out |= o - a[1]


def sub_lin(l, m):
    """substitute symbols by linear expressions"""
    c, t = l
    hit = False
    for s, _ in t:
        if s in m:
            hit = True
            break
    if not hit:
        return l
    r = (c, ())
    for s, k in t:
        e = m.get(s)
        r = ladd(r, (0, ((s, k),)) if e is None else lscale(e, k))
    return r


def subst(v, m):
    """m: sym -> lin.  Object symbols (kind s/S) map when the image is a
    plain symbol."""
    k = v[0]
    if k == 'i':
        l = sub_lin((v[1], v[2]), m)
        return ('i', l[0], l[1])
    if k == 'a':
        return ('a', v[1], v[2], tuple(subst(f, m) for f in v[3]))
    if k == 's':
        e = m.get(v[2])
        if e is not None and len(e[1]) == 1:
            return ('s', v[1], e[1][0][0])
        return v
    if k == 'c':
        l = sub_lin((v[2], v[3]), m)
        return cmp(v[1], l)
    if k == 'in':
        l = sub_lin((v[1], v[2]), m)
        return v_in(l, v[3])
    if k == 'not':
        return v_not(subst(v[1], m))
    if k == 'and':
        return v_and(subst(v[1], m), subst(v[2], m))
    if k == 'or':
        return v_or(subst(v[1], m), subst(v[2], m))
    if k == 'S':
        if v[2] is not None:
            e = m.get(v[2])
            if e is not None and len(e[1]) == 1:
                return ('S', None, e[1][0][0])
        return v
    if k == 'r':
        r = v[1]
        if r[0] == 'm':
            e = m.get(r[1])
            if e is not None and len(e[1]) == 1:
                r = ('m', e[1][0][0])
        p = v[2]
        if any(x[0] == 'x' for x in p):
            p = tuple(('x', sub_lin(x[1], m)) if x[0] == 'x' else x for x in p)
        return ('r', r, p)
    if k == 'slice':
        return ('slice', v[1], v[2], sub_lin(v[3], m), sub_lin(v[4], m))
    if k == 'vec':
        return ('vec', v[1], tuple(subst(x, m) for x in v[2]), sub_lin(v[3], m),
                tuple(sub_alt(a, m) for a in v[4]), tuple(subst(x, m) for x in v[5]))
    if k == 'cb':
        e = m.get(v[4])
        s = v[4]
        if e is not None and len(e[1]) == 1:
            s = e[1][0][0]
        return ('cb', tuple(sub_lin(c, m) for c in v[1]), v[2], v[3], s)
    if k == 'it':
        out = [v[0], v[1]]
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                out.append(subst(x, m))
            elif isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and isinstance(x[0], int):
                out.append(sub_lin(x, m))
            else:
                out.append(x)
        if v[1] == 'vec' and len(v) > 5:
            out[5] = tuple(sub_alt(a, m) for a in v[5])
        return tuple(out)
    return v


def sub_alt(a, m):
    mm = {s: e for s, e in m.items() if s not in a[1]}
    if not mm:
        return a
    return (subst(a[0], mm), a[1], a[2], tuple(sub_lin(l, mm) for l in a[3]))
