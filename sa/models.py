"""Transfer functions of the standard library functions the code uses (or is
likely to use after a refactoring)."""
import re
from state import *
import dom as D

MODELS = {}
RX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            RX.append((re.compile(p), f))
        return f
    return d


# ---- helpers ---------------------------------------------------------------
def variant_index(e, ty, name):
    for i, v in enumerate(e.T[ty]['v']):
        if v['n'] == name:
            return i
    raise KeyError(name)


def some(e, dty, v):
    return ('a', dty, 1, (v,))


def none(e, dty):
    return ('a', dty, 0, ())


def unit(e, dty):
    return ('a', dty, 0, ())


def target(e, st, v):
    """follow references to the object; -> (root, path, value)"""
    root, path = None, ()
    for _ in range(6):
        if v is None:
            return root, path, None
        if v[0] == 'r':
            root, path = v[1], v[2]
            v = e.get(st, root, path)
            continue
        if v[0] == 's':
            t = e.T[v[1]]
            if t['k'] in ('ref', 'ptr') or (t['k'] == 'adt' and t.get('box')):
                (root, path) = e.deref(st, v)
                v = e.get(st, root, path)
                continue
        break
    return root, path, v


def is_vecty(t):
    return t['k'] == 'adt' and t['path'] in (
        'std::vec::Vec', 'alloc::vec::Vec', 'std::collections::VecDeque', 'alloc::collections::VecDeque',
        'std::collections::vec_deque::VecDeque', 'alloc::collections::vec_deque::VecDeque')


def is_deque(t):
    return t['path'].endswith('VecDeque')


def top_alt(e, ty):
    v = e.fresh(ty, 'elem')
    o = set()
    syms(v, o, set())
    return (v, frozenset(o), (), ())


def alt_top(e, a):
    v = a[0]
    if v[0] in ('a', 's'):
        return top_alt(e, v[1])
    if v[0] == 'i':
        s = D.fresh(((-(1 << 63), (1 << 64) - 1),), 'elem')
        return (('i', 0, ((s, 1),)), frozenset([s]), (), ())
    if v[0] == 'S':
        s = D.fresh(((0, 0),), 'elem')
        return (('S', None, s), frozenset([s]), (), ())
    return a


def alt_forget(e, a, ok):
    """drop references to outer symbols from a summary"""
    m = {}

    def go(v):
        k = v[0]
        if k == 'i':
            if all(ok(s) for s, _ in v[2]):
                return v
            s = D.fresh(((-(1 << 63), (1 << 64) - 1),), 'f')
            m[s] = 1
            return ('i', 0, ((s, 1),))
        if k == 'a':
            return ('a', v[1], v[2], tuple(go(f) for f in v[3]))
        if k in ('c', 'in', 'and', 'or', 'not'):
            s = D.fresh(((0, 1),), 'f')
            m[s] = 1
            return ('i', 0, ((s, 1),))
        if k == 's' and not ok(v[2]):
            s = D.fresh(((0, 0),), 'f')
            m[s] = 1
            return ('s', v[1], s)
        if k == 'S' and v[2] is not None and not ok(v[2]):
            s = D.fresh(((0, 0),), 'f')
            m[s] = 1
            return ('S', None, s)
        return v
    v = go(a[0])
    o = set()
    syms(v, o, set())
    b = (a[1] & o) | set(m)
    return (v, frozenset(b), tuple(x for x in a[2] if x[0] in b), ())


def relabel(new, old):
    l = D.label(old)
    if l is not None:
        D.LABEL[new] = l


def summarise(e, st, v):
    """element value -> summary alternative"""
    doms = {}
    bound = set()
    facts = []
    rel = e.relations(st) if hasattr(e, 'relations') else ()
    upper = e.upper_relations(st) if hasattr(e, 'upper_relations') else ()

    def go(v):
        k = v[0]
        if k == 'i':
            if not v[2]:
                return v
            l = lin(v)
            r = st.range_of(l)
            s = D.fresh(((-(1 << 63), (1 << 64) - 1),) if not st.range_of(l) else D.RNG[l[1][0][0]] if len(l[1]) == 1 and l == var(l[1][0][0]) else ((-(1 << 63), (1 << 64) - 1),), 'el')
            bound.add(s)
            if r != D.RNG[s]:
                doms[s] = r
            for q in rel:
                d = lsub(l, q)
                lo, hi = st.lo(d), st.hi(d)
                if lo >= 0:
                    facts.append(ladd((min(lo, 1), q[1]), (q[0], ((s, -1),))))
            for q in upper:
                hi = st.hi(lsub(l, q))
                if hi <= 0:
                    facts.append(lsub(ladd(var(s), const(min(-hi, 1))), q))
            return ('i', 0, ((s, 1),))
        if k in ('c', 'in', 'and', 'or', 'not'):
            dcd = st.decide(v)
            if dcd is not None:
                return I(1 if dcd else 0)
            s = D.fresh(((0, 1),), 'el')
            bound.add(s)
            return ('i', 0, ((s, 1),))
        if k == 'a':
            return ('a', v[1], v[2], tuple(go(f) for f in v[3]))
        if k == 's':
            s = D.fresh(((0, 0),), 'el', D.TAINT[v[2]])
            relabel(s, v[2])
            bound.add(s)
            c = D.CH.get((v[2], 'd'))
            if c is not None and st.rng(c) != D.RNG[c]:
                n = D.derive(s, 'd', D.RNG[c])
                doms[n] = st.rng(c)
                bound.add(n)
            return ('s', v[1], s)
        if k == 'S':
            if v[1] is not None:
                return v
            s = D.fresh(((0, 0),), 'el', D.TAINT[v[2]])
            relabel(s, v[2])
            bound.add(s)
            return ('S', None, s)
        return v
    w = go(v)
    return (w, frozenset(bound), tuple(sorted(doms.items())), tuple(sorted(facts)))


def materialise(e, st, alt):
    m = {}
    doms = dict(alt[2])
    for s in alt[1]:
        if s in m:
            continue
        if D.DESC[s] == 'd':
            continue
        n = D.fresh(D.RNG[s], 'mat', D.TAINT[s])
        relabel(n, s)
        m[s] = var(n)
        if s in doms:
            st.dom[n] = doms[s]
        c = D.CH.get((s, 'd'))
        if c is not None and c in doms:
            st.dom[D.derive(n, 'd', D.RNG[c])] = doms[c]
    for s in alt[1]:
        if D.DESC[s] == 'd' and s not in m:
            par = [x for x in alt[1] if D.CH.get((x, 'd')) == s]
            if not par:
                n = D.fresh(D.RNG[s], 'mat', D.TAINT[s])
                m[s] = var(n)
                if s in doms:
                    st.dom[n] = doms[s]
    v = subst(alt[0], m)
    for f in alt[3]:
        st.assume_le(sub_lin(f, m))
    return v


def empty_vec(e, ty):
    if is_cb(e, ty):
        return ('cb', (), False, 0, D.fresh(((0, STEPS),), 'len'))
    return ('vec', ty, (), (0, ()), (), ())


def is_cb(e, ty):
    t = e.T[ty]
    return t['k'] == 'adt' and is_deque(t) and t['args'] and e.T[t['args'][0]]['k'] == 'char'


def as_vec(e, st, v):
    """unknown Vec -> explicit summary"""
    if v is None:
        return None
    if v[0] == 's':
        t = e.T[v[1]]
        if is_vecty(t):
            if is_cb(e, v[1]):
                return ('cb', (), False, 0, D.derive(v[2], 'len', ((0, STEPS),)))
            n = D.derive(v[2], 'len', ((0, STEPS),))
            ety = t['args'][0]
            r = e.p.trange(ety)
            ev = e.mk(ety, D.derive(v[2], 'el', r or ((0, 0),)))
            o = set()
            syms(ev, o, set())
            return ('vec', v[1], (), var(n), ((ev, frozenset(o), (), ()),), ())
    return v


def vec_at(e, st, a, write=False):
    """argument (reference) -> (root, path, vec value)"""
    root, path, v = target(e, st, a)
    if v is None:
        return None
    if v[0] == 's':
        w = as_vec(e, st, v)
        if w is v:
            return None
        if root is not None:
            e.put(st, root, path, w)
        v = w
    if v[0] in ('vec', 'cb'):
        return root, path, v
    return None


def vlen(v):
    return ladd(v[3], const(len(v[2]) + len(v[5])))


def fold_back(e, st, v, keep):
    while len(v[5]) > keep:
        alt = summarise(e, st, v[5][0])
        v = add_alt(e, st, ('vec', v[1], v[2], ladd(v[3], const(1)), v[4] if v[3] != (0, ()) else (), v[5][1:]), alt)
    return v


def add_alt(e, st, v, alt):
    import match
    m = v[4]
    if any(match.alt_covers(e, b, alt, None, st) for b in m):
        return v
    m = tuple(b for b in m if not match.alt_covers(e, alt, b, None, st)) + (alt,)
    if len(m) > 30:
        m = (alt_top(e, m[0]),)
    return v[:4] + (m, v[5])


def vec_forget(e, st, v):
    n = vlen(v)
    t = e.T[v[1]]
    ety = t['args'][0] if t.get('args') else None
    return ('vec', v[1], (), n, (top_alt(e, ety),), ())


def front_vec(v):
    """the first element in front, when it is known"""
    if v[3] == (0, ()) and not v[2] and v[5]:
        return ('vec', v[1], v[5][:1], v[3], (), v[5][1:])
    return v


def vec_summary(e, st, v, keep=0):
    """fold everything but the first `keep` elements into the middle"""
    n = ladd(vlen(v), const(-keep))
    w = ('vec', v[1], v[2][:keep], n, v[4] if v[3] != (0, ()) else (), ())
    for x in v[2][keep:] + v[5]:
        w = add_alt(e, st, w, summarise(e, st, x))
    return w


def norm_vec(e, st, v):
    """canonical form used at loop heads: one known first element"""
    return fold_back(e, st, front_vec(v), 0)


def seq_len(e, st, v):
    """length of a sequence value or reference to one"""
    root, path, w = target(e, st, v)
    if w is None:
        return var(D.fresh(((0, 1 << 62),), 'len', True))
    k = w[0]
    if k == 's':
        x = as_vec(e, st, w)
        if x is not w:
            if root is not None:
                e.put(st, root, path, x)
            w = x
            k = w[0]
        else:
            t = e.T[w[1]]
            if t['k'] == 'array' and 'n' in t:
                return const(t['n'])
            return var(D.derive(w[2], 'len', ((0, STEPS),)))
    if k == 'vec':
        return vlen(w)
    if k == 'cb':
        if w[2]:
            return const(len(w[1]))
        return var(w[4])
    if k == 'a':
        return const(len(w[3]))
    if k == 'slice':
        return w[4]
    if k in ('S', 'cstr'):
        return str_len(e, st, w)
    return var(D.fresh(((0, 1 << 62),), 'len', True))


def vec_pop(e, st, v, front):
    """-> list of (state, element or None, new vec)"""
    near, far = (v[2], v[5]) if front else (v[5], v[2])

    def mkv(near, n, mid, far):
        return ('vec', v[1], near, n, mid, far) if front else ('vec', v[1], far, n, mid, near)
    if near:
        x = near[0] if front else near[-1]
        return [(st, x, mkv(near[1:] if front else near[:-1], v[3], v[4], far))]
    out = []
    c = cmp('le', v[3])      # n <= 0
    z, nz = st.split(c)
    for s in z:
        if far:
            x = far[0] if front else far[-1]
            out.append((s, x, mkv((), (0, ()), (), far[1:] if front else far[:-1])))
        else:
            out.append((s, None, ('vec', v[1], (), (0, ()), (), ())))
    for s in nz:
        alts = v[4]
        for i, a in enumerate(alts):
            t = s.copy()
            x = materialise(e, t, a)
            out.append((t, x, mkv((), ladd(v[3], const(-1)), v[4], far)))
    return out


def vec_end(e, st, v, front):
    """materialise first/last element: -> list of (state, vec, pathelem|None)"""
    if front:
        if v[2]:
            return [(st, v, ('vf', 0))]
    elif v[5]:
        return [(st, v, ('vb', len(v[5]) - 1))]
    out = []
    for s, x, w in vec_pop(e, st, v, front):
        if x is None:
            out.append((s, w, None))
        elif front:
            if w[3] == (0, ()) and not w[2] and False:
                pass
            w2 = ('vec', w[1], (x,) + w[2], w[3], w[4], w[5])
            out.append((s, w2, ('vf', 0)))
        else:
            w2 = ('vec', w[1], w[2], w[3], w[4], w[5] + (x,))
            out.append((s, w2, ('vb', len(w2[5]) - 1)))
    return out


def vec_index(e, st, v, ix):
    """element value at linear index (read only)"""
    r = st.range_of(ix)
    if size(r) == 1:
        i = r[0][0]
        if 0 <= i < len(v[2]):
            return v[2][i]
        if v[3] == (0, ()) and i - len(v[2]) < len(v[5]):
            return v[5][i - len(v[2])]
    d = lsub(vlen(v), ix)
    if not d[1] and 1 <= d[0] <= len(v[5]):
        return v[5][-d[0]]
    if len(v[4]) == 1 and not v[2] and not v[5]:
        return materialise(e, st, v[4][0])
    t = e.T[v[1]]
    if t.get('args'):
        return e.fresh(t['args'][0], 'elem')
    return None


# ---- cbuf --------------------------------------------------------------------
def cb_bound(st, w):
    return max(w[3], st.rng(w[4])[0][0], len(w[1]))


def cb_access(e, ctx, st, w, i, line, what):
    """look at cell i: -> list of (state, char lin or None, new w)"""
    if i < len(w[1]):
        return [(st, w[1][i], w)]
    if w[2]:
        return [(st, None, w)]
    if i >= cb_bound(st, w):
        e.on_violation(ctx, 'lookahead', '%s of character %d with %d buffered' % (what, i, cb_bound(st, w)), line, st)
        c = D.fresh(CHARS, 'char', True)
        b = st.copy()
        return [(st, var(c), None), (b, None, None)]
    out = []
    for j in range(len(w[1]), i + 1):
        s = st.copy()
        cells = list(w[1])
        for _ in range(len(w[1]), j):
            cells.append(var(D.fresh(CHARS, 'char')))
        out.append((s, None, ('cb', tuple(cells), True, w[3], w[4])))
    s = st
    cells = list(w[1])
    while len(cells) <= i:
        cells.append(var(D.fresh(CHARS, 'char')))
    out.append((s, cells[i], ('cb', tuple(cells), False, w[3], w[4])))
    return out


def cb_pop(e, ctx, st, w, line):
    """consume one character: -> list of (state, char or None, new w)"""
    out = []
    for s, c, x in cb_access(e, ctx, st, w, 0, line, 'consumption') if (w[1] or w[2] or cb_bound(st, w) > 0) \
            else [(st.copy(), None, None), (st, var(D.fresh(CHARS, 'char')), None)]:
        if x is None:
            x = w
        nl = D.fresh(((0, STEPS),), 'len')
        if c is None:
            out.append((s, None, x))
        else:
            nb = max(cb_bound(s, x) - 1, 0)
            for s2 in e.consumed(ctx, s, c, line):
                out.append((s2, c, ('cb', x[1][1:], x[2], nb, nl)))
    return out


def char_ref(e, st, l):
    root = ('v', l)
    st.mem[root] = ('i', l[0], l[1])
    return ('r', root, ())


# ---- Vec / VecDeque ------------------------------------------------------------
NEW = [r'(vec::Vec|VecDeque|String)(::<[^>]*>)?::(new|with_capacity)$']


@rx(r'^(std|alloc)::(vec::Vec|collections::VecDeque|string::String).*::(new|with_capacity)$',
    r'(Vec|VecDeque|String).* as std::default::Default>::default$')
def m_new(e, ctx, st, ci, args, dty, line):
    t = e.T[dty]
    if t['k'] == 'adt' and t['path'].endswith('string::String'):
        return [(('S', '', None), st)]
    if is_vecty(t):
        return [(empty_vec(e, dty), st)]
    return None


@rx(r'::(reserve|reserve_exact|shrink_to_fit|shrink_to)$')
def m_reserve(e, ctx, st, ci, args, dty, line):
    return [(unit(e, dty), st)]


@rx(r'^std::(vec::Vec|collections::VecDeque).*::(push|push_back)$')
def m_push(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None:
        return None
    root, path, v = x
    if v[0] == 'cb':
        nv = e.cb_push(ctx, st, v, args[1], line)
        e.put(st, root, path, nv)
        return [(unit(e, dty), st)]
    e.on_push(ctx, st, v, args[1], root, path, line)
    nv = ('vec', v[1], v[2], v[3], v[4], v[5] + (args[1],))
    nv = fold_back(e, st, nv, 6)
    e.put(st, root, path, nv)
    return [(unit(e, dty), st)]


@rx(r'^std::collections::VecDeque.*::push_front$')
def m_push_front(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None or x[2][0] == 'cb':
        return None
    root, path, v = x
    e.on_push(ctx, st, v, args[1], root, path, line)
    e.put(st, root, path, ('vec', v[1], (args[1],) + v[2], v[3], v[4], v[5]))
    return [(unit(e, dty), st)]


@rx(r'^std::(vec::Vec|collections::VecDeque).*::(pop|pop_back|pop_front)$')
def m_pop(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None:
        return None
    root, path, v = x
    front = ci['path'].endswith('pop_front') if ci.get('path') else ci['decl'].endswith('pop_front')
    out = []
    if v[0] == 'cb':
        if not front:
            return None
        for s, c, nv in cb_pop(e, ctx, st, v, line):
            e.put(s, root, path, nv)
            out.append((none(e, dty) if c is None else some(e, dty, from_lin(c)), s))
        return out
    for s, el, nv in vec_pop(e, st, v, front):
        e.put(s, root, path, nv)
        e.on_pop(ctx, s, v, el, root, path, line)
        out.append((none(e, dty) if el is None else some(e, dty, el), s))
    return out


@rx(r'^(std|core)::(vec::Vec|collections::VecDeque|slice::<impl \[T\]>).*::(len)$',
    r'^core::slice::<impl \[T\]>::len$')
def m_len(e, ctx, st, ci, args, dty, line):
    if e.cb_strict(ctx):
        v = target(e, st, args[0])[2]
        if v is not None and as_vec(e, st, v)[0] == 'cb':
            e.on_violation(ctx, 'length', 'how much happens to be buffered is looked at', line, st)
    return [(from_lin(seq_len(e, st, args[0])), st)]


@rx(r'^(std|core)::(vec::Vec|collections::VecDeque).*::(is_empty)$',
    r'^core::slice::<impl \[T\]>::is_empty$')
def m_is_empty(e, ctx, st, ci, args, dty, line):
    if e.cb_strict(ctx):
        root, path, v = target(e, st, args[0])
        v = as_vec(e, st, v) if v is not None else None
        if v is not None and v[0] == 'cb':
            out = []
            for s, c, nv in cb_access(e, ctx, st, v, 0, line, 'presence'):
                if nv is not None:
                    e.put(s, root, path, nv)
                out.append((I(1 if c is None else 0), s))
            return out
    l = seq_len(e, st, args[0])
    return [(cmp('eq', l), st)]


@rx(r'^std::(vec::Vec|collections::VecDeque).*::clear$')
def m_clear(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    if v is None:
        return None
    if v[0] == 'cb':
        e.on_violation(ctx, 'cbclear', 'look-ahead buffer cleared', line, st)
    ty = v[1] if v[0] in ('vec', 's') else None
    if v[0] == 'cb':
        nv = ('cb', (), False, 0, D.fresh(((0, STEPS),), 'len'))
        e.cb_cleared(ctx, st, line)
    elif ty is None:
        return None
    else:
        nv = empty_vec(e, ty)
        e.on_clear(ctx, st, v, root, path, line)
    e.put(st, root, path, nv)
    return [(unit(e, dty), st)]


@rx(r'^std::(vec::Vec|collections::VecDeque).*::truncate$')
def m_trunc(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None or x[2][0] != 'vec':
        return None
    root, path, v = x
    n = lin(args[1]) if args[1][0] == 'i' else None
    if n == (0, ()):
        e.put(st, root, path, empty_vec(e, v[1]))
        return [(unit(e, dty), st)]
    L = vlen(v)
    w = vec_summary(e, st, v)
    m = D.fresh(((0, STEPS),), 'len')
    st.assume_le(lsub(var(m), L))
    if n is not None:
        st.assume_le(lsub(var(m), n))
    e.put(st, root, path, ('vec', v[1], (), var(m), w[4], ()))
    return [(unit(e, dty), st)]


@rx(r'^core::slice::<impl \[T\]>::(last|last_mut|first|first_mut)$',
    r'^std::collections::VecDeque.*::(front|front_mut|back|back_mut)$')
def m_end(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None:
        root, path, v = target(e, st, args[0])
        if v is not None and v[0] == 'a' and e.T[v[1]]['k'] == 'array':
            if not v[3]:
                return [(none(e, dty), st)]
            nm0 = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
            i = 0 if nm0.startswith(('first', 'front')) else len(v[3]) - 1
            return [(some(e, dty, ('r', root, path + (('x', const(i)),))), st)]
        return None
    root, path, v = x
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    front = nm.startswith(('first', 'front'))
    if v[0] == 'cb':
        if not front:
            return None
        out = []
        for s, c, nv in cb_access(e, ctx, st, v, 0, line, nm):
            if nv is not None:
                e.put(s, root, path, nv)
            out.append((none(e, dty) if c is None else some(e, dty, char_ref(e, s, c)), s))
        return out
    out = []
    for s, nv, pe in vec_end(e, st, v, front):
        e.put(s, root, path, nv)
        out.append((none(e, dty) if pe is None else some(e, dty, ('r', root, path + (pe,))), s))
    return out


@rx(r'^core::slice::<impl \[T\]>::(split_first|split_last)$')
def m_split_first(e, ctx, st, ci, args, dty, line):
    return None


def elem_ref(e, st, root, path, v, ix, mut):
    """reference to element ix of sequence v (index known to be in range)"""
    if v[0] == 'vec':
        r = st.range_of(ix)
        if size(r) == 1:
            i = r[0][0]
            if i < len(v[2]):
                return ('r', root, path + (('vf', i),))
            if v[3] == (0, ()) and i - len(v[2]) < len(v[5]):
                return ('r', root, path + (('vb', i - len(v[2])),))
        d = lsub(vlen(v), ix)
        if not d[1] and 1 <= d[0] <= len(v[5]):
            return ('r', root, path + (('vb', len(v[5]) - d[0]),))
        return ('r', root, path + (('x', ix),))
    return ('r', root, path + (('x', ix),))


@rx(r'^(core::slice::<impl \[T\]>|std::collections::VecDeque.*)::(get|get_mut)$')
def m_get(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    if v is None:
        return None
    if v[0] == 's':
        v = as_vec(e, st, v)
        if root is not None and v[0] != 's':
            e.put(st, root, path, v)
    if args[1][0] != 'i':
        return None
    ix = lin(args[1])
    if v[0] == 'cb':
        r = st.range_of(ix)
        out = []
        idx = list(elems(r)) if size(r) <= 16 else None
        if idx is None:
            e.on_violation(ctx, 'lookahead', 'access at an unbounded look-ahead position', line, st)
            return [(none(e, dty), st.copy()), (some(e, dty, char_ref(e, st, var(D.fresh(CHARS, 'char', True)))), st)]
        for i in idx:
            s0 = st.copy() if len(idx) > 1 else st
            if len(idx) > 1 and not s0.assume_eq(ladd(ix, const(-i))):
                continue
            for s, c, nv in cb_access(e, ctx, s0, v, i, line, 'get'):
                if nv is not None:
                    e.put(s, root, path, nv)
                out.append((none(e, dty) if c is None else some(e, dty, char_ref(e, s, c)), s))
        return out
    if v[0] == 'slice':
        L = v[4]
    else:
        L = seq_len(e, st, v)
    ok, bad = st.split(cmp('le', ladd(lsub(ix, L), const(1))))
    out = []
    for s in ok:
        if v[0] == 'slice':
            out.append((some(e, dty, ('r', v[1], v[2] + (('x', ladd(v[3], ix)),))), s))
        elif root is None:
            out.append((some(e, dty, e.fresh(e.T[dty]['args'][0], 'get')), s))
        else:
            out.append((some(e, dty, elem_ref(e, s, root, path, v, ix, True)), s))
    for s in bad:
        out.append((none(e, dty), s))
    return out


@rx(r'^<std::(vec::Vec|collections::VecDeque).* as std::ops::(Index|IndexMut)<.*>>::(index|index_mut)$',
    r'^core::slice::index::<impl std::ops::(Index|IndexMut)<.*> for \[T\]>::(index|index_mut)$',
    r'^std::array::<impl std::ops::(Index|IndexMut)<.*> for \[T; N\]>::(index|index_mut)$')
def m_index(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    if v is None:
        return None
    if v[0] == 's':
        w = as_vec(e, st, v)
        if w is not v and root is not None:
            e.put(st, root, path, w)
            v = w
    if args[1][0] != 'i':
        return m_range_index(e, ctx, st, root, path, v, args[1], dty, line)
    ix = lin(args[1])
    if v[0] == 'cb':
        r = st.range_of(ix)
        if size(r) > 8:
            return None
        out = []
        for i in elems(r):
            for s, c, nv in cb_access(e, ctx, st.copy(), v, i, line, 'index'):
                if nv is not None:
                    e.put(s, root, path, nv)
                if c is None:
                    e.on_panic(ctx, 'index out of bounds', line, s, False)
                else:
                    out.append((char_ref(e, s, c), s))
        return out
    L = v[4] if v[0] == 'slice' else seq_len(e, st, v)
    e.sites.add((ctx.key, 'index', line))
    ok, bad = st.split(cmp('le', ladd(lsub(ix, L), const(1))))
    if bad:
        e.on_panic(ctx, 'index out of bounds', line, bad[0],
                   e.tainted(bad[0], args[1]) or e.tainted(bad[0], from_lin(L)))
    out = []
    for s in ok:
        if v[0] == 'slice':
            out.append((('r', v[1], v[2] + (('x', ladd(v[3], ix)),)), s))
        elif root is None:
            out.append((e.fresh(dty, 'index', True), s))
        else:
            out.append((elem_ref(e, s, root, path, v, ix, True), s))
    return out


def range_bounds(e, st, rv, L):
    """range value -> (lo lin, hi lin)"""
    if rv[0] == 's':
        fs = e.p.fields(rv[1], 0)
        if fs is None:
            return None
        rv = e.expand(rv, 0)
    if rv[0] != 'a':
        return None
    p = e.T[rv[1]].get('path', '')
    f = rv[3]
    g = lambda x: lin(x) if x[0] == 'i' else None
    if p.endswith('RangeFrom'):
        return g(f[0]), L
    if p.endswith('RangeToInclusive'):
        return const(0), ladd(g(f[0]), const(1))
    if p.endswith('RangeTo'):
        return const(0), g(f[0])
    if p.endswith('RangeFull'):
        return const(0), L
    if p.endswith('::Range'):
        return g(f[0]), g(f[1])
    return None


def m_range_index(e, ctx, st, root, path, v, rv, dty, line):
    L = v[4] if v[0] == 'slice' else seq_len(e, st, v)
    b = range_bounds(e, st, rv, L)
    if b is None or b[0] is None or b[1] is None:
        return None
    lo, hi = b
    e.sites.add((ctx.key, 'range', line))
    c = v_and(cmp('le', lsub(lo, hi)), cmp('le', lsub(hi, L)))
    ok, bad = st.split(c)
    if bad:
        e.on_panic(ctx, 'slice range out of bounds', line, bad[0],
                   any(e.tainted(bad[0], from_lin(x)) for x in (lo, hi, L)))
    out = []
    for s in ok:
        if v[0] == 'slice':
            out.append((('slice', v[1], v[2], ladd(v[3], lo), lsub(hi, lo)), s))
        elif root is not None:
            out.append((('slice', root, path, lo, lsub(hi, lo)), s))
        else:
            out.append((e.fresh(dty, 'slice', True), s))
    return out


@rx(r'^std::(vec::Vec|collections::VecDeque).*::insert$')
def m_insert(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None or x[2][0] != 'vec' or args[1][0] != 'i':
        return None
    root, path, v = x
    ix = lin(args[1])
    L = vlen(v)
    e.sites.add((ctx.key, 'insert', line))
    ok, bad = st.split(cmp('le', lsub(ix, L)))
    if bad:
        e.on_panic(ctx, 'insert out of bounds', line, bad[0], e.tainted(bad[0], args[1]))
    out = []
    for s in ok:
        e.on_push(ctx, s, v, args[2], root, path, line)
        w = vec_summary(e, s, v)
        w = ('vec', w[1], (), ladd(w[3], const(1)), w[4], ())
        w = add_alt(e, s, w, summarise(e, s, args[2]))
        e.put(s, root, path, w)
        out.append((unit(e, dty), s))
    return out


@rx(r'^std::(vec::Vec|collections::VecDeque).*::(remove|swap_remove)$')
def m_remove(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None or x[2][0] != 'vec' or args[1][0] != 'i':
        return None
    root, path, v = x
    ix = lin(args[1])
    L = vlen(v)
    opt = e.T[dty]['k'] == 'adt' and e.T[dty].get('path', '').endswith('option::Option')
    if ix == (0, ()):
        out = []
        for s, el, nv in vec_pop(e, st, v, True):
            e.put(s, root, path, nv)
            if el is None:
                if opt:
                    out.append((none(e, dty), s))
                else:
                    e.on_panic(ctx, 'remove out of bounds', line, s, False)
            else:
                out.append((some(e, dty, el) if opt else el, s))
        return out
    ok, bad = st.split(cmp('le', ladd(lsub(ix, L), const(1))))
    out = []
    for s in ok:
        w = vec_summary(e, s, v)
        e.put(s, root, path, w[:3] + (ladd(w[3], const(-1)),) + w[4:])
        for a in w[4]:
            t = s.copy()
            el = materialise(e, t, a)
            out.append((some(e, dty, el) if opt else el, t))
    for s in bad:
        if opt:
            out.append((none(e, dty), s))
        else:
            e.on_panic(ctx, 'remove out of bounds', line, s, e.tainted(s, args[1]))
    return out


@rx(r'^std::(vec::Vec|collections::VecDeque).*::drain$')
def m_drain(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    if x is None:
        return None
    root, path, v = x
    L = seq_len(e, st, v)
    b = range_bounds(e, st, args[1], L)
    if b is None or b[0] is None or b[1] is None:
        return None
    lo, hi = b
    if v[0] == 'cb':
        if lo != (0, ()) or hi[1] or hi[0] > 8:
            if lo == (0, ()) and size(st.range_of(hi)) <= 8:
                outs = []
                for n in elems(st.range_of(hi)):
                    s0 = st.copy()
                    if s0.assume_eq(ladd(hi, const(-n))):
                        outs += drain_n(e, ctx, s0, root, path, v, n, dty, line)
                return outs
            e.on_violation(ctx, 'lookahead', 'characters removed from the middle of the buffer', line, st)
            return None
        return drain_n(e, ctx, st, root, path, v, hi[0], dty, line)
    if lo == (0, ()) and (hi == L):
        e.on_clear(ctx, st, v, root, path, line)
        e.put(st, root, path, empty_vec(e, v[1]))
        return [(('it', 'vecv', v), st)]
    w = vec_summary(e, st, v)
    n = D.fresh(((0, STEPS),), 'len')
    st.assume_le(lsub(var(n), L))
    e.put(st, root, path, ('vec', v[1], (), var(n), w[4], ()))
    m = D.fresh(((0, STEPS),), 'len')
    return [(('it', 'vecv', ('vec', v[1], (), var(m), w[4], ())), st)]


def drain_n(e, ctx, st, root, path, v, n, dty, line):
    cur = [(st, v)]
    for k in range(n):
        nx = []
        for s, w in cur:
            for s2, c, w2 in cb_pop(e, ctx, s, w, line):
                if c is None:
                    e.on_panic(ctx, 'drain out of bounds', line, s2, False)
                else:
                    nx.append((s2, w2))
        cur = nx
    out = []
    for s, w in cur:
        e.put(s, root, path, w)
        out.append((e.fresh(dty, 'drain'), s))
    return out


@rx(r'^std::(vec::Vec|collections::VecDeque).*::(append|extend_from_slice|extend|resize|retain|dedup|rotate_left|split_off)$',
    r'^<std::(vec::Vec|collections::VecDeque).* as std::iter::Extend<.*>>::extend$')
def m_extend(e, ctx, st, ci, args, dty, line):
    x = vec_at(e, st, args[0])
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    if x is None or x[2][0] != 'vec':
        return None
    root, path, v = x
    L = vlen(v)
    ety = e.T[v[1]]['args'][0]
    if nm == 'retain':
        w = vec_summary(e, st, v)
        n = D.fresh(((0, STEPS),), 'len')
        st.assume_le(lsub(var(n), L))
        e.put(st, root, path, ('vec', v[1], (), var(n), w[4], ()))
        return [(unit(e, dty), st)]
    if nm == 'split_off':
        return None
    n = D.fresh(((0, STEPS * 4),), 'len')
    src = None
    if len(args) > 1:
        k = args[1]
        src = k
        if nm == 'append':
            y = vec_at(e, st, args[1])
            if y is None:
                return None
            L2 = seq_len(e, st, y[2])
            st.assume_eq(lsub(var(n), ladd(L, L2)))
            e.put(st, y[0], y[1], empty_vec(e, y[2][1]))
        elif nm == 'extend_from_slice':
            L2 = seq_len(e, st, args[1])
            st.assume_eq(lsub(var(n), ladd(L, L2)))
        else:
            st.assume_le(lsub(L, var(n)))
    w = vec_summary(e, st, v)
    e.on_extend(ctx, st, v, src, root, path, line)
    e.put(st, root, path, ('vec', v[1], (), var(n), (top_alt(e, ety),), ()))
    return [(unit(e, dty), st)]


@rx(r'^std::vec::from_elem$')
def m_from_elem(e, ctx, st, ci, args, dty, line):
    a = summarise(e, st, args[0])
    n = lin(args[1]) if args[1][0] == 'i' else var(D.fresh(((0, STEPS),), 'len'))
    return [(('vec', dty, (), n, (a,), ()), st)]


@rx(r'^std::slice::<impl \[T\]>::(to_vec|into_vec)$', r'^<std::vec::Vec<.*> as std::convert::From<.*>>::from$',
    r'^std::vec::Vec.*::into_boxed_slice$', r'^std::boxed::box_assume_init_into_vec_unsafe$')
def m_to_vec(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    if v is not None and v[0] == 'a' and e.T[v[1]]['k'] == 'array':
        return [(('vec', dty, (), (0, ()), (), tuple(v[3])), st)]
    if v is not None and v[0] == 'vec':
        return [(('vec', dty) + v[2:], st)]
    L = seq_len(e, st, args[0])
    ety = e.T[dty]['args'][0] if e.T[dty].get('args') else None
    if ety is None:
        return None
    return [(('vec', dty, (), L, (top_alt(e, ety),), ()), st)]


@rx(r' as std::ops::(Deref|DerefMut)>::(deref|deref_mut)$',
    r'^std::(vec::Vec|string::String).*::(as_slice|as_mut_slice|as_str|as_mut_str|as_bytes)$',
    r' as std::(convert::AsRef|borrow::Borrow)<.*>>::(as_ref|borrow)$',
    r'^core::str::<impl str>::as_bytes$', r'^std::option::Option::<T>::as_slice$',
    r' as std::convert::AsMut<.*>>::as_mut$')
def m_deref(e, ctx, st, ci, args, dty, line):
    return [(args[0], st)]


@rx(r'^core::slice::<impl \[T\]>::contains$')
def m_contains(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    r2, p2, x = target(e, st, args[1])
    if v is not None and v[0] == 'a' and x is not None and x[0] == 'i' and all(is_const(f) for f in v[3]):
        return [(v_in(lin(x), iset(*((f[1], f[1]) for f in v[3]))), st)]
    return [(e.fresh_int(((0, 1),), 'contains'), st)]


# ---- iteration -----------------------------------------------------------------
@rx(r'^core::slice::<impl \[T\]>::(iter|iter_mut)$',
    r'^std::(vec::Vec|collections::VecDeque).*::(iter|iter_mut)$',
    r'^core::slice::iter::<impl std::iter::IntoIterator for &\'a (mut )?\[T\]>::into_iter$',
    r'^<&\'a (mut )?std::(vec::Vec|collections::VecDeque)<.*> as std::iter::IntoIterator>::into_iter$')
def m_iter(e, ctx, st, ci, args, dty, line):
    root, path, v = target(e, st, args[0])
    if v is None:
        return None
    if v[0] == 's':
        w = as_vec(e, st, v)
        if w is not v and root is not None:
            e.put(st, root, path, w)
            v = w
    nm = (ci.get('path') or ci['decl'])
    mut = 'mut' in e.T[dty]['s'].lower() if e.T[dty]['k'] == 'adt' else False
    mode = 'mut' if 'IterMut' in e.T[dty]['s'] else 'ref'
    if v[0] == 'vec' and root is not None:
        return [(('it', 'vec', ('r', root, path), 'f', 0, (), mode), st)]
    if v[0] == 'a' and root is not None:
        return [(('it', 'arr', ('r', root, path), 0, len(v[3])), st)]
    if v[0] == 's' or v[0] == 'slice':
        ety = None
        if v[0] == 's':
            ety = e.T[v[1]].get('to')
        L = seq_len(e, st, v)
        return [(('it', 'unk', L, dty), st)]
    return None


@rx(r'^<std::(vec::Vec|collections::VecDeque)<.*> as std::iter::IntoIterator>::into_iter$',
    r'^std::array::iter::<impl std::iter::IntoIterator for \[T; N\]>::into_iter$',
    r'^<\[T; N\] as std::iter::IntoIterator>::into_iter$')
def m_into_iter(e, ctx, st, ci, args, dty, line):
    v = args[0]
    if v[0] == 's':
        v = as_vec(e, st, v)
    if v[0] == 'vec':
        return [(('it', 'vecv', v), st)]
    if v[0] == 'a':
        t = e.T[v[1]]
        return [(('it', 'vecv', ('vec', v[1], tuple(v[3]), (0, ()), (), ())), st)]
    return None


@rx(r'^<I as std::iter::IntoIterator>::into_iter$', r'^<.* as std::iter::IntoIterator>::into_iter$')
def m_ident_iter(e, ctx, st, ci, args, dty, line):
    if (ci.get('path') or '').startswith('<I as'):
        return [(args[0], st)]
    return None


NEXT = r'::(next)$'


@rx(r'^<std::(slice::Iter|slice::IterMut|vec::IntoIter|collections::vec_deque::\w+|array::IntoIter|vec::Drain|collections::vec_deque::Drain|ops::Range|ops::RangeInclusive|str::Chars|str::CharIndices|str::Bytes|str::EncodeUtf16|char::DecodeUtf16|slice::ChunksExact|slice::Chunks|slice::Windows|str::Split\w*|str::Lines)(<.*>)? as std::iter::Iterator>::next$',
    r'^std::array::iter::.*::next$',
    r'^std::iter::range::<impl std::iter::Iterator for std::ops::Range(Inclusive)?<A>>::next$',
    r'^core::iter::range::<impl .*Iterator for .*Range.*>::next$')
def m_next(e, ctx, st, ci, args, dty, line):
    return it_next(e, ctx, st, args[0], dty, line, False)


@rx(r'^<std::.* as std::iter::DoubleEndedIterator>::next_back$',
    r'^(std|core)::iter::range::<impl .*DoubleEndedIterator for .*>::next_back$')
def m_next_back(e, ctx, st, ci, args, dty, line):
    if ci.get('key'):
        return None
    return it_next(e, ctx, st, args[0], dty, line, True)


def it_next(e, ctx, st, ref, dty, line, back):
    root, path, it = target(e, st, ref)
    if it is None:
        return None
    if it[0] == 'a' and e.T[it[1]].get('path', '').endswith('ops::Range'):
        lo, hi = it[3][0], it[3][1]
        if lo[0] != 'i' or hi[0] != 'i':
            return None
        ll, hh = lin(lo), lin(hi)
        ok, done = st.split(cmp('le', ladd(lsub(ll, hh), const(1))))
        out = []
        for s in ok:
            if back:
                nh = ladd(hh, const(-1))
                e.put(s, root, path, ('a', it[1], 0, (lo, from_lin(nh))))
                out.append((some(e, dty, from_lin(nh)), s))
            else:
                e.put(s, root, path, ('a', it[1], 0, (from_lin(ladd(ll, const(1))), hi)))
                out.append((some(e, dty, lo), s))
        for s in done:
            out.append((none(e, dty), s))
        return out
    if it[0] == 'a' and e.T[it[1]].get('path', '').endswith('ops::RangeInclusive') and len(it[3]) == 3:
        lo, hi, ex = it[3]
        if lo[0] != 'i' or hi[0] != 'i' or ex[0] != 'i':
            return None
        ll, hh = lin(lo), lin(hi)
        out = []
        done, go = st.split(v_or(ex, cmp('le', ladd(lsub(hh, ll), const(1)))))
        for s in go:
            eq, lt = s.split(cmp('eq', lsub(ll, hh)))
            for q in eq:
                e.put(q, root, path, ('a', it[1], 0, (lo, hi, TRUE)))
                out.append((some(e, dty, lo), q))
            for q in lt:
                if back:
                    e.put(q, root, path, ('a', it[1], 0, (lo, from_lin(ladd(hh, const(-1))), FALSE)))
                    out.append((some(e, dty, hi), q))
                else:
                    e.put(q, root, path, ('a', it[1], 0, (from_lin(ladd(ll, const(1))), hi, FALSE)))
                    out.append((some(e, dty, lo), q))
        for s in done:
            out.append((none(e, dty), s))
        return out
    if it[0] != 'it':
        return None
    k = it[1]
    if k == 'arr':
        i, n = it[3], it[4]
        if i >= n:
            return [(none(e, dty), st)]
        j = n - 1 if back else i
        r = it[2]
        e.put(st, root, path, ('it', 'arr', r, i if back else i + 1, n - 1 if back else n))
        return [(some(e, dty, ('r', r[1], r[2] + (('x', const(j)),))), st)]
    if k == 'unk':
        ok, done = st.split(cmp('le', lsub(const(1), it[2])))
        out = []
        for s in ok:
            e.put(s, root, path, ('it', 'unk', ladd(it[2], const(-1)), it[3]))
            out.append((some(e, dty, e.fresh(e.T[dty]['args'][0], 'item')), s))
        for s in done:
            out.append((none(e, dty), s))
        return out
    if k == 'vecv':
        out = []
        for s, el, nv in vec_pop(e, st, it[2], not back):
            e.put(s, root, path, ('it', 'vecv', nv))
            out.append((none(e, dty) if el is None else some(e, dty, el), s))
        return out
    if k == 'vec':
        return vec_next(e, ctx, st, root, path, it, dty, back)
    if k == 'chars':
        return chars_next(e, ctx, st, root, path, it, dty, back)
    if k == 'map1':
        return None
    return None


def vec_next(e, ctx, st, root, path, it, dty, back):
    _, _, ref, phase, k, P, mode = it
    v = e.get(st, ref[1], ref[2])
    if v is None or v[0] != 'vec':
        return None
    if back and phase == 'f' and k == 0 and mode[-1] != 'r':
        phase, mode = 'b', mode + 'r'
    rev = mode[-1] == 'r'
    if back != rev:
        # order is abstracted away: any element, or the end
        out = [(none(e, dty), st.copy())]
        w = vec_summary(e, st, v)
        for a in w[4]:
            s = st.copy()
            el = materialise(e, s, a)
            cr = ('cur', id(ctx.body) % 9973, 0)
            s.mem[cr] = el
            out.append((some(e, dty, ('r', cr, ())), s))
        return out
    if phase == 'f' and not rev:
        if k < len(v[2]):
            e.put(st, root, path, ('it', 'vec', ref, 'f', k + 1, P, mode))
            return [(some(e, dty, ('r', ref[1], ref[2] + (('vf', k),))), st)]
        phase, k = 'm', 0
    if phase == 'b' and rev:
        if k < len(v[5]):
            e.put(st, root, path, ('it', 'vec', ref, 'b', k + 1, P, mode))
            return [(some(e, dty, ('r', ref[1], ref[2] + (('vb', len(v[5]) - 1 - k),))), st)]
        phase, k = 'm', 0
    out = []
    states = [st]
    if phase == 'm':
        cr = ('cur',) + (ctx.depth, 0)
        if k == 1:
            # fold the current element into the processed summary
            rk = it_cur(ref)
            cur = st.mem.pop(rk, None)
            if cur is not None:
                a = summarise(e, st, cur)
                tmp = add_alt(e, st, ('vec', v[1], (), (1, ()), P, ()), a)
                P = tmp[4]
            else:
                P = P + tuple(a for a in v[4] if a not in P)
        z, nz = st.split(cmp('le', v[3])) if k == 0 else ([], [])
        if k == 0:
            more, done0 = nz, z
        else:
            more, done0 = [st.copy()], []
        # finished with the middle (every element processed)
        fin = done0 if k == 0 else [st]
        for s in more:
            for a in v[4]:
                t = s.copy()
                el = materialise(e, t, a)
                rk = it_cur(ref)
                t.mem[rk] = el
                if mode == 'mut':
                    t.ghost = t.ghost
                e.put(t, root, path, ('it', 'vec', ref, 'm', 1, P, mode))
                out.append((some(e, dty, ('r', rk, ())), t))
        states = fin
        for s in states:
            if k:
                e.put(s, ref[1], ref[2], v[:4] + (P, v[5]))
        phase, k = 'f' if rev else 'b', 0
        v = None
    for s in states:
        w = e.get(s, ref[1], ref[2])
        if rev:
            more = k < len(w[2])
            e.put(s, root, path, ('it', 'vec', ref, 'f', k + more, (), mode))
            out.append((some(e, dty, ('r', ref[1], ref[2] + (('vf', len(w[2]) - 1 - k),))) if more else none(e, dty), s))
            continue
        if k < len(w[5]):
            e.put(s, root, path, ('it', 'vec', ref, 'b', k + 1, (), mode))
            out.append((some(e, dty, ('r', ref[1], ref[2] + (('vb', k),))), s))
        else:
            e.put(s, root, path, ('it', 'vec', ref, 'b', k, (), mode))
            out.append((none(e, dty), s))
    return out


def fold_current(e, st):
    """elements that iterators have handed out and nothing refers to any more"""
    from val import syms
    curs = {k for k in st.mem if k[0] == 'cur'}
    work = [k for k in st.mem if k[0] in ('l', 'o', 'ret', 't')]
    seen = set(work)
    while work:
        v = st.mem.get(work.pop())
        if v is None:
            continue
        rs = set()
        syms(v, set(), rs)
        for r in rs:
            if r not in seen and r in st.mem:
                seen.add(r)
                work.append(r)

    def fold(v):
        if v[0] == 'it':
            if v[1] == 'vec' and v[3] == 'm' and v[4] == 1:
                r = it_cur(v[2])
                if r in curs and r not in seen:
                    w = e.get(st, v[2][1], v[2][2])
                    if w is None or w[0] != 'vec':
                        return v
                    a = summarise(e, st, st.mem[r])
                    P = add_alt(e, st, ('vec', w[1], (), (1, ()), v[5], ()), a)[4]
                    return v[:4] + (2, P) + v[6:]
            return v
        if v[0] == 'a':
            fs = tuple(fold(x) for x in v[3])
            return v[:3] + (fs,) if fs != v[3] else v
        return v
    for k in list(st.mem):
        v = st.mem[k]
        if v is not None and (k in seen) and v[0] in ('it', 'a'):
            n = fold(v)
            if n is not v:
                st.mem[k] = n


def it_cur(ref):
    return ('cur', ref[1], ref[2])


# ---- strings --------------------------------------------------------------------
def strval(e, st, v):
    """-> ('S', text, sym) for any string-like argument"""
    root, path, w = target(e, st, v)
    if w is None:
        return ('S', None, D.fresh(((0, 0),), 'str', True))
    if w[0] == 'cstr':
        return ('S', w[1], None)
    if w[0] == 'S':
        return w
    if w[0] == 's':
        return ('S', None, D.derive(w[2], '*', ((0, 0),)))
    if w[0] == 'substr':
        return w[1]
    return ('S', None, D.fresh(((0, 0),), 'str', True))


def str_len(e, st, v):
    if v[0] == 'cstr':
        return const(len(v[1].encode()))
    if v[1] is not None:
        return const(len(v[1].encode()))
    return var(D.derive(v[2], 'len', ((0, STEPS),)))


def str_first(e, st, v):
    return var(D.derive(v[2], 'first', CHARS))


def first_dom(st, s):
    """what the first character of a non-empty string can be"""
    if s[1]:
        return ((ord(s[1][0]),) * 2,)
    if s[1] is None and ('first' in KIDS.get(s[2], ())) and st.lo(str_len(None, st, s)) >= 1:
        return st.rng(CH[(s[2], 'first')])
    return None


def new_str(e, taint=False):
    return ('S', None, D.fresh(((0, 0),), 'str', taint))


def str_view(e, st, s):
    """&str value for string contents"""
    if s[1] is not None:
        return ('cstr', s[1])
    root = ('v', s)
    st.mem[root] = s
    return ('r', root, ())


@rx(r'^<std::string::String as std::convert::From<&(mut )?str>>::from$',
    r'^<str as std::(borrow::ToOwned|string::ToString)>::(to_owned|to_string)$',
    r'^std::string::(.*ToString.*)::to_string$', r'^<T as std::string::ToString>::to_string$',
    r'^std::str::<impl .*ToOwned for str>::to_owned$', r'^std::str::<impl str>::(to_owned|into_string)$',
    r'^<std::string::String as std::clone::Clone>::clone$',
    r'^<.* as std::convert::From<std::string::String>>::from$',
    r'^<std::string::String as std::str::FromStr>::from_str$')
def m_string_from(e, ctx, st, ci, args, dty, line):
    t = e.T[dty]
    if not (t['k'] == 'adt' and t['path'].endswith('string::String')):
        return None
    root, path, w = target(e, st, args[0])
    if w is None or w[0] not in ('cstr', 'S', 's'):
        return [(new_str(e), st)]
    if w[0] == 's' and e.T[w[1]]['k'] not in ('ref', 'str'):
        return [(new_str(e), st)]
    return [(strval(e, st, args[0]), st)]


@rx(r'^(core::str::<impl str>|std::string::String)::len$')
def m_slen(e, ctx, st, ci, args, dty, line):
    return [(from_lin(str_len(e, st, strval(e, st, args[0]))), st)]


@rx(r'^(core::str::<impl str>|std::string::String)::is_empty$')
def m_sempty(e, ctx, st, ci, args, dty, line):
    return [(cmp('eq', str_len(e, st, strval(e, st, args[0]))), st)]


def str_put(e, st, ref, nv):
    root, path, w = target(e, st, ref)
    if root is not None:
        e.put(st, root, path, nv)


@rx(r'^std::string::String::push$')
def m_spush(e, ctx, st, ci, args, dty, line):
    s = strval(e, st, args[0])
    e.on_str_push(ctx, st, args[0], s, args[1], line)
    c = args[1]
    if s[1] is not None and is_const(c) and len(s[1]) < e.STRLIM:
        nv = ('S', s[1] + chr(c[1]), None)
    else:
        nv = new_str(e)
        l = D.derive(nv[2], 'len', ((0, STEPS),))
        st.dom[l] = ((1, STEPS),)
        f = D.derive(nv[2], 'first', CHARS)
        r = st.range_of(lin(c)) if s[1] == '' and c[0] == 'i' else first_dom(st, s)
        if r and r != CHARS and subset(r, CHARS):
            st.dom[f] = r
    str_put(e, st, args[0], nv)
    return [(unit(e, dty), st)]


@rx(r'^std::string::String::push_str$', r'^std::string::String::insert(_str)?$',
    r'^<std::string::String as std::ops::AddAssign<&str>>::add_assign$',
    r'^<std::string::String as std::fmt::Write>::write_str$')
def m_spush_str(e, ctx, st, ci, args, dty, line):
    s = strval(e, st, args[0])
    t = strval(e, st, args[-1]) if args[-1][0] != 'i' else new_str(e)
    e.on_str_push(ctx, st, args[0], s, args[-1], line)
    if t[1] == '':
        nv = s
    elif s[1] == '' and args[-1][0] != 'i':
        nv = t
    elif s[1] is not None and t[1] is not None and len(s[1]) + len(t[1]) < e.STRLIM + 20:
        nv = ('S', s[1] + t[1], None)
    else:
        nv = new_str(e)
        r = first_dom(st, s)
        if r and r != CHARS:
            st.dom[D.derive(nv[2], 'first', CHARS)] = r
        l1, l2 = str_len(e, st, s), str_len(e, st, t)
        if st.lo(l1) >= 1 or st.lo(l2) >= 1:
            st.dom[D.derive(nv[2], 'len', ((0, STEPS),))] = ((1, STEPS),)
    str_put(e, st, args[0], nv)
    if e.T[dty]['k'] == 'adt':
        return [(('a', dty, 0, (('a', e.T[dty]['args'][0], 0, ()),)), st)]
    return [(unit(e, dty), st)]


@rx(r'^std::string::String::(clear)$')
def m_sclear(e, ctx, st, ci, args, dty, line):
    str_put(e, st, args[0], ('S', '', None))
    return [(unit(e, dty), st)]


def pattern(e, st, p):
    """str pattern argument -> ('char', lin) | ('str', S) | ('fn', v) | None"""
    root, path, w = target(e, st, p)
    if w is None:
        return None
    if w[0] == 'i':
        return ('char', lin(w))
    if w[0] in ('cstr', 'S'):
        return ('str', strval(e, st, p))
    if w[0] == 's' and e.T[w[1]]['k'] in ('ref',):
        return ('str', strval(e, st, p))
    return None


@rx(r'^core::str::<impl str>::(starts_with|ends_with|contains)$')
def m_starts(e, ctx, st, ci, args, dty, line):
    s = strval(e, st, args[0])
    p = pattern(e, st, args[1])
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    if p is not None and s[1] is not None:
        x = None
        if p[0] == 'char' and not p[1][1]:
            x = chr(p[1][0])
        elif p[0] == 'str' and p[1][1] is not None:
            x = p[1][1]
        if x is not None:
            r = {'starts_with': s[1].startswith(x), 'ends_with': s[1].endswith(x), 'contains': x in s[1]}[nm]
            return [(TRUE if r else FALSE, st)]
        if s[1] == '' and p[0] == 'char':
            return [(FALSE, st)]
        if p[0] == 'char':
            cs = {'starts_with': s[1][0], 'ends_with': s[1][-1], 'contains': s[1]}[nm]
            return [(v_in(p[1], iset(*((ord(c), ord(c)) for c in cs))), st)]
    if p is not None and s[1] is None:
        if p[0] == 'str' and p[1][1] == '':
            return [(TRUE, st)]
        if nm == 'starts_with' and s[2] == e.window and s[2] is not None:
            r = e.win_starts(st, p)
            if r is not None:
                return r
        if nm == 'starts_with' and p[0] == 'char':
            l = str_len(e, st, s)
            c = v_and(cmp('le', lsub(const(1), l)), cmp('eq', lsub(str_first(e, st, s), p[1])))
            return [(c, st)]
        key = None
        minlen = 0
        if p[0] == 'char' and not p[1][1]:
            key = (nm, p[1][0])
            minlen = 1
        elif p[0] == 'str' and p[1][1] is not None:
            key = (nm, p[1][1])
            minlen = len(p[1][1].encode())
        elif p[0] == 'str':
            key = (nm, p[1][2])
        if key is not None:
            b = D.derive(s[2], key, ((0, 1),))
            if minlen:
                return [(v_and(cmp('eq', (-1, ((b, 1),))), cmp('le', lsub(const(minlen), str_len(e, st, s)))), st)]
            # a prefix is not longer than the string
            l2 = str_len(e, st, p[1]) if p[0] == 'str' else const(0)
            return [(v_and(cmp('eq', (-1, ((b, 1),))), cmp('le', lsub(l2, str_len(e, st, s)))), st)]
    return [(e.fresh_int(((0, 1),), nm), st)]


@rx(r'^core::str::<impl str>::(strip_prefix|strip_suffix)$')
def m_strip(e, ctx, st, ci, args, dty, line):
    a = st.copy()
    return [(none(e, dty), a), (some(e, dty, str_view(e, st, new_str(e))), st)]


@rx(r'^core::str::<impl str>::(trim\w*|to_lowercase|to_uppercase|to_ascii_\w+|replace|repeat)$')
def m_trim(e, ctx, st, ci, args, dty, line):
    if e.T[dty]['k'] == 'adt':
        return [(new_str(e), st)]
    return [(str_view(e, st, new_str(e)), st)]


def str_eq(e, st, a, b):
    if a[1] is not None and b[1] is not None:
        return TRUE if a[1] == b[1] else FALSE
    if a[1] is None and b[1] is None:
        if a[2] == b[2]:
            return TRUE
        if e.distinct:
            return FALSE
        x, y = sorted((a[2], b[2]))
        return ('i', 0, ((D.derive(x, ('eqs', y), ((0, 1),)), 1),))
    if a[1] is not None:
        a, b = b, a
    if b[1] == '':
        return cmp('eq', str_len(e, st, a))
    q = D.derive(a[2], ('eq', b[1]), ((0, 1),))
    if e.distinct:
        return cmp('eq', (-1, ((q, 1),)))
    return v_and(cmp('eq', (-1, ((q, 1),))), cmp('eq', lsub(str_len(e, st, a), const(len(b[1].encode())))))


def stringish(e, st, v):
    root, path, w = target(e, st, v)
    if w is None:
        return False
    if w[0] in ('cstr', 'S'):
        return True
    if w[0] == 's':
        t = e.T[w[1]]
        return t['k'] == 'ref' and e.T[t['to']]['k'] == 'str'
    return False


@rx(r'^<(std::string::String|str|&str|&std::string::String) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$',
    r'^(std|core)::(string|str)::.*PartialEq.*::(eq|ne)$',
    r'^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$',
    r'^std::string::.*PartialEq<.*>.*::(eq|ne)$',
    r'^(std|core)::cmp::impls::<impl std::cmp::PartialEq<&.*> for &.*>::(eq|ne)$',
    r'^<&.* as std::cmp::PartialEq<.*>>::(eq|ne)$')
def m_streq(e, ctx, st, ci, args, dty, line):
    if not (stringish(e, st, args[0]) and stringish(e, st, args[1])):
        # references to other things: compare what they point to
        r1 = target(e, st, args[0])
        r2 = target(e, st, args[1])
        if r1[2] is not None and r2[2] is not None and r1[2][0] == 'i' and r2[2][0] == 'i':
            c = cmp('eq', lsub(lin(r1[2]), lin(r2[2])))
            return [(v_not(c) if (ci.get('path') or '').endswith('ne') else c, st)]
        return None
    c = str_eq(e, st, strval(e, st, args[0]), strval(e, st, args[1]))
    if (ci.get('path') or ci['decl']).endswith('::ne'):
        c = v_not(c)
    return [(c, st)]


@rx(r'^core::str::<impl str>::(chars|char_indices|bytes|encode_utf16|split\w*|lines)$')
def m_chars(e, ctx, st, ci, args, dty, line):
    s = strval(e, st, args[0])
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    kind = {'chars': 'c', 'char_indices': 'ci', 'bytes': 'b', 'encode_utf16': 'u'}.get(nm)
    if kind is None:
        return [(('it', 'unk', var(D.fresh(((0, STEPS),), 'len')), dty), st)]
    return [(('it', 'chars', ('cstr', s[1]) if s[1] is not None else s, 0, kind, (0, ())), st)]


def chars_next(e, ctx, st, root, path, it, dty, back):
    _, _, s, pos, kind, off = it
    out = []
    if s[0] == 'S' and s[2] is not None and s[2] == e.window and kind == 'c' and not back:
        return e.win_next(st, root, path, it, dty)
    if s[0] == 'cstr':
        txt = s[1]
        if kind == 'c' or kind == 'ci':
            if pos < len(txt) and not back:
                e.put(st, root, path, ('it', 'chars', s, pos + 1, kind, off))
                v = I(ord(txt[pos]))
                if kind == 'ci':
                    t = e.T[dty]['args'][0]
                    v = ('a', t, 0, (I(len(txt[:pos].encode())), v))
                return [(some(e, dty, v), st)]
            if pos < len(txt) and back:
                e.put(st, root, path, ('it', 'chars', ('cstr', txt[:-1]), pos, kind, off))
                return [(some(e, dty, I(ord(txt[-1]))), st)]
            return [(none(e, dty), st)]
        if kind == 'b':
            b = txt.encode()
            if pos < len(b) and not back:
                e.put(st, root, path, ('it', 'chars', s, pos + 1, kind, off))
                return [(some(e, dty, I(b[pos])), st)]
            if not back:
                return [(none(e, dty), st)]
        return [(none(e, dty), st.copy()), (some(e, dty, e.fresh(e.T[dty]['args'][0], 'unit')), st)]
    L = str_len(e, st, s)
    end = None
    if pos == 0:
        nz, z = st.split(cmp('le', lsub(const(1), L)))
    else:
        nz, z = [st], [st.copy()]
    for q in z:
        e.put(q, root, path, it[:3] + (9,) + it[4:]) if False else None
        out.append((none(e, dty), q))
    for q in nz:
        np = min(pos + 1, 2)
        if kind in ('c', 'ci'):
            if back:
                c = var(D.derive(s[2], 'last', CHARS)) if pos == 0 else var(D.fresh(CHARS, 'sc'))
            elif pos == 0:
                c = str_first(e, q, s)
            else:
                c = var(D.fresh(CHARS, 'sc'))
            cv = from_lin(c)
            e.on_str_char(ctx, q, s, c)
            noff = off
            if kind == 'ci':
                t = e.T[dty]['args'][0]
                o = from_lin(off)
                cv = ('a', t, 0, (o, cv))
                n2 = D.fresh(((1, STEPS),), 'off')
                q.assume_le(ladd(lsub(off, var(n2)), const(1)))
                q.assume_le(lsub(var(n2), L))
                noff = var(n2)
            e.put(q, root, path, ('it', 'chars', s, np, kind, noff))
            out.append((some(e, dty, cv), q))
        else:
            e.put(q, root, path, ('it', 'chars', s, np, kind, off))
            out.append((some(e, dty, e.fresh(e.T[dty]['args'][0], 'unit')), q))
    return out


@rx(r'^<std::str::(Chars|CharIndices|Bytes)<.*> as std::iter::Iterator>::count$', r'^std::iter::Iterator::count$')
def m_chars_count(e, ctx, st, ci, args, dty, line):
    it = args[0]
    if it[0] != 'it' or it[1] != 'chars' or it[3] != 0:
        return None
    s = it[2]
    if s[0] == 'cstr':
        return [(I(len(s[1].encode()) if it[4] == 'b' else len(s[1])), st)]
    n = D.derive(s[2], 'count', ((0, STEPS),))
    st.assume_le(lsub(var(n), str_len(e, st, s)))
    return [(from_lin(var(n)), st)]


@rx(r'^<std::str::(Chars|CharIndices|Bytes)<.*> as std::clone::Clone>::clone$',
    r'^<std::.*Iter.* as std::clone::Clone>::clone$')
def m_clone_it(e, ctx, st, ci, args, dty, line):
    root, path, w = target(e, st, args[0])
    return [(w, st)] if w is not None else None


@rx(r'^std::str::Chars.*::as_str$')
def m_chars_as_str(e, ctx, st, ci, args, dty, line):
    root, path, it = target(e, st, args[0])
    if it is not None and it[0] == 'it' and it[3] == 0 and it[4] == 'c':
        return [(str_view(e, st, strval(e, st, it[2])), st)]
    return [(str_view(e, st, new_str(e)), st)]


@rx(r'^(core::str::traits::<impl std::ops::Index<.*> for str>|<std::string::String as std::ops::Index<.*>>)::index$')
def m_str_index(e, ctx, st, ci, args, dty, line):
    s = strval(e, st, args[0])
    L = str_len(e, st, s)
    b = range_bounds(e, st, args[1], L)
    if b is None or b[0] is None or b[1] is None:
        return None
    lo, hi = b
    e.sites.add((ctx.key, 'strindex', line))
    if s[1] is not None and not lo[1] and not hi[1]:
        try:
            x = s[1].encode()[lo[0]:hi[0]].decode()
            if 0 <= lo[0] <= hi[0] <= len(s[1].encode()):
                return [(('cstr', x), st)]
        except UnicodeDecodeError:
            pass
        e.on_panic(ctx, 'string slice', line, st, False)
        return []
    c = v_and(cmp('le', lsub(lo, hi)), cmp('le', lsub(hi, L)))
    ok, bad = st.split(c)
    if bad:
        e.on_panic(ctx, 'string slice out of bounds', line, bad[0], any(e.tainted(bad[0], from_lin(x)) for x in (lo, hi, L)))
    out = []
    for q in ok:
        # character boundaries
        okb = all(str_boundary(e, q, s, x, L) for x in (lo, hi))
        if not okb:
            e.on_panic(ctx, 'string slice inside a character', line, q, any(e.tainted(q, from_lin(x)) for x in (lo, hi, L)))
        nv = new_str(e)
        nl = D.derive(nv[2], 'len', ((0, STEPS),))
        q.assume_eq(lsub(var(nl), lsub(hi, lo)))
        out.append((str_view(e, q, nv), q))
    return out


def str_boundary(e, st, s, x, L):
    if st.hi(x) == 0 and st.lo(x) == 0:
        return True
    d = lsub(x, L)
    if st.lo(d) == 0 == st.hi(d):
        return True
    # 1 is a boundary when the first character is ASCII
    if s[1] is None and st.lo(x) == 1 == st.hi(x):
        return st.range_of(str_first(e, st, s))[-1][1] < 0x80 or bool(st.ghost.get(('ascii', s[2])))
    # length of a known prefix
    if s[1] is None and len(x[1]) == 1 and x[0] == 0:
        y = x[1][0][0]
        if D.DESC[y] == 'len':
            for key in D.KIDS.get(s[2], ()):
                if isinstance(key, tuple) and key[0] == 'starts_with' and isinstance(key[1], int) \
                        and D.CH.get((key[1], 'len')) == y:
                    if st.rng(D.CH[(s[2], key)]) == ((1, 1),):
                        return True
        if D.DESC[y] == 'off':
            return True
    if s[1] is None and not x[1]:
        for key in D.KIDS.get(s[2], ()):
            if isinstance(key, tuple) and key[0] in ('starts_with',) and isinstance(key[1], str) \
                    and len(key[1].encode()) == x[0] and st.rng(D.CH[(s[2], key)]) == ((1, 1),):
                return True
    return False


@rx(r'^(std|core)::str::(from_utf8|from_utf8_unchecked|<impl str>::from_utf8)$', r'^(std|core)::str::converts::from_utf8$')
def m_from_utf8(e, ctx, st, ci, args, dty, line):
    if e.T[dty]['k'] == 'ref':
        return [(str_view(e, st, new_str(e)), st)]
    return [(e.fresh(dty, 'utf8'), st)]


@rx(r'^core::str::<impl str>::(find|rfind|get|char_indices|parse|split_at|split_once|rsplit_once|is_char_boundary|get_unchecked|eq_ignore_ascii_case)$')
def m_str_misc(e, ctx, st, ci, args, dty, line):
    return [(e.fresh(dty, 'str'), st)]


@rx(r'^std::string::String::(pop|remove|truncate|into_boxed_str|into_bytes|insert|retain|drain)$')
def m_str_mut(e, ctx, st, ci, args, dty, line):
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    if args[0][0] == 'r':
        str_put(e, st, args[0], new_str(e))
    return [(e.fresh(dty, 'str', nm not in ('pop', 'into_bytes')), st)]


# ---- chars ------------------------------------------------------------------------
def chr_arg(e, st, v):
    root, path, w = target(e, st, v)
    if w is not None and w[0] == 'i':
        return lin(w)
    return None


CLASSES = {
    'is_ascii': ((0, 0x7f),),
    'is_ascii_digit': ((48, 57),),
    'is_ascii_uppercase': ((65, 90),),
    'is_ascii_lowercase': ((97, 122),),
    'is_ascii_alphabetic': ((65, 90), (97, 122)),
    'is_ascii_alphanumeric': ((48, 57), (65, 90), (97, 122)),
    'is_ascii_hexdigit': ((48, 57), (65, 70), (97, 102)),
    'is_ascii_control': ((0, 31), (127, 127)),
    'is_ascii_graphic': ((33, 126),),
    'is_ascii_punctuation': ((33, 47), (58, 64), (91, 96), (123, 126)),
    'is_ascii_whitespace': ((9, 10), (12, 13), (32, 32)),
    'is_control': ((0, 31), (127, 159)),
}


@rx(r'^(core|std)::(char::methods::|num::|char::)<impl (char|u8)>::(is_ascii\w*|is_control)$')
def m_ascii(e, ctx, st, ci, args, dty, line):
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    l = chr_arg(e, st, args[0])
    if l is None or nm not in CLASSES:
        return [(e.fresh_int(((0, 1),), nm), st)]
    return [(v_in(l, CLASSES[nm]), st)]


@rx(r'^(core|std)::char::methods::<impl char>::is_digit$', r'^(core|std)::char::<impl char>::is_digit$')
def m_is_digit(e, ctx, st, ci, args, dty, line):
    l = chr_arg(e, st, args[0])
    if l is None or not is_const(args[1]):
        return [(e.fresh_int(((0, 1),), 'digit'), st)]
    return [(v_in(l, digits(args[1][1])), st)]


def digits(radix):
    r = [(48, 47 + min(radix, 10))]
    if radix > 10:
        r += [(65, 64 + radix - 10), (97, 96 + radix - 10)]
    return iset(*r)


@rx(r'^(core|std)::char::(methods::)?<impl char>::to_digit$')
def m_to_digit(e, ctx, st, ci, args, dty, line):
    l = chr_arg(e, st, args[0])
    if l is None or not is_const(args[1]):
        return [(e.fresh(dty, 'digit'), st)]
    radix = args[1][1]
    t, f = st.split(v_in(l, digits(radix)))
    out = []
    for s in t:
        r = s.range_of(l)
        if len(l[1]) == 1 and l[1][0][1] == 1:
            tab = {}
            for x in elems(inter(r, digits(radix))):
                v = int(chr(x), 36)
                tab.setdefault(v, []).append((x - l[0], x - l[0]))
            d = D.fresh(iset(*((v, v) for v in tab)), 'digit')
            s.link(d, ('fun', l[1][0][0], tuple((v, iset(*p)) for v, p in sorted(tab.items()))))
            out.append((some(e, dty, ('i', 0, ((d, 1),))), s))
        elif not l[1]:
            out.append((some(e, dty, I(int(chr(l[0]), 36))), s))
        else:
            out.append((some(e, dty, e.fresh_int(((0, radix - 1),), 'digit')), s))
    for s in f:
        out.append((none(e, dty), s))
    return out


W8 = (((0, 0x7f), 1), ((0x80, 0x7ff), 2), ((0x800, 0xffff), 3), ((0x10000, 0x10ffff), 4))
W16 = (((0, 0xffff), 1), ((0x10000, 0x10ffff), 2))


def width(e, st, l, tab):
    if not l[1]:
        for (a, b), w in tab:
            if a <= l[0] <= b:
                return I(w)
    r = st.range_of(l)
    t = {}
    for (a, b), w in tab:
        p = inter(r, ((a, b),))
        if p:
            t[w] = p
    if len(t) == 1:
        return I(next(iter(t)))
    if len(l[1]) == 1 and l[1][0][1] == 1 and l[0] == 0:
        s0 = l[1][0][0]
        s = D.derive(s0, 'w%d' % len(tab), ((1, 4),))
        st.dom[s] = inter(st.rng(s), iset(*((w, w) for w in t)))
        st.link(s, ('fun', s0, tuple(sorted((w, ((a, b),)) for (a, b), w in tab))))
        return ('i', 0, ((s, 1),))
    return e.fresh_int(iset(*((w, w) for w in t)), 'width')


@rx(r'^(core|std)::char::(methods::)?<impl char>::(len_utf8|len_utf16)$')
def m_len_utf8(e, ctx, st, ci, args, dty, line):
    l = chr_arg(e, st, args[0])
    if l is None:
        return [(e.fresh_int(((1, 4),), 'width'), st)]
    return [(width(e, st, l, W8 if (ci.get('path') or ci['decl']).endswith('8') else W16), st)]


@rx(r'^(core|std)::char::(methods::<impl char>::from_u32|convert::from_u32|from_u32|<impl char>::from_u32)$')
def m_from_u32(e, ctx, st, ci, args, dty, line):
    l = e.as_lin(st, args[0])
    t, f = st.split(v_in(l, CHARS))
    return [(some(e, dty, from_lin(l)), s) for s in t] + [(none(e, dty), s) for s in f]


@rx(r'^(core|std)::char::(methods::<impl char>::|convert::|<impl char>::)?from_digit$')
def m_from_digit(e, ctx, st, ci, args, dty, line):
    l = e.as_lin(st, args[0])
    if not is_const(args[1]):
        return None
    radix = args[1][1]
    t, f = st.split(v_in(l, ((0, radix - 1),)))
    out = [(none(e, dty), s) for s in f]
    for s in t:
        if not l[1]:
            out.append((some(e, dty, I(ord('0123456789abcdefghijklmnopqrstuvwxyz'[l[0]]))), s))
            continue
        r = s.range_of(l)
        tab = {}
        if len(l[1]) == 1 and abs(l[1][0][1]) == 1:
            sy, k = l[1][0]
            for x in elems(r):
                tab.setdefault(ord('0123456789abcdefghijklmnopqrstuvwxyz'[x]), []).append(((x - l[0]) * k,) * 2)
            d = D.fresh(iset(*((v, v) for v in tab)), 'hexdigit')
            s.link(d, ('fun', sy, tuple((v, iset(*p)) for v, p in sorted(tab.items()))))
            out.append((some(e, dty, ('i', 0, ((d, 1),))), s))
        else:
            out.append((some(e, dty, e.fresh_int(digits(16), 'hexdigit')), s))
    return out


@rx(r'^(core|std)::char::(methods::)?<impl char>::(is_alphabetic|is_alphanumeric|is_numeric|is_whitespace|is_uppercase|is_lowercase|eq_ignore_ascii_case)$')
def m_uni(e, ctx, st, ci, args, dty, line):
    return [(e.fresh_int(((0, 1),), 'class', True), st)]


@rx(r'^(core|std)::char::(methods::)?<impl char>::(to_ascii_lowercase|to_ascii_uppercase)$')
def m_asc(e, ctx, st, ci, args, dty, line):
    return [(e.fresh_int(CHARS, 'char'), st)]


@rx(r'^<u32 as std::convert::From<char>>::from$', r'^(std|core)::char::convert::<impl .*From<char>.*>::from$',
    r'^(std|core)::convert::num::<impl std::convert::From<.*> for .*>::from$',
    r'^<char as std::convert::From<u8>>::from$', r'^(std|core)::char::convert::<impl .*From<u8> for char>::from$')
def m_int_from(e, ctx, st, ci, args, dty, line):
    if e.p.trange(dty) is not None:
        return [(args[0], st)]
    return None


@rx(r'::<impl (std|core)::convert::TryFrom<.*> for \w+>::try_from$',
    r'^<[iu]\w+ as std::convert::TryFrom<.*>>::try_from$')
def m_try_from(e, ctx, st, ci, args, dty, line):
    t = e.T[dty]
    if t['k'] != 'adt' or not t['args']:
        return None
    r = e.p.trange(t['args'][0])
    if r is None or args[0][0] != 'i':
        return None
    a, b = st.split(v_in(lin(args[0]), r))
    return [(('a', dty, 0, (args[0],)), s) for s in a] + \
        [(('a', dty, 1, (e.fresh(t['args'][1], 'tryfrom'),)), s) for s in b]


@rx(r'^core::num::<impl (\w+)>::(wrapping_\w+|checked_\w+|saturating_\w+|overflowing_\w+|abs_diff|abs|pow|is_power_of_two|min_value|max_value|leading_zeros|trailing_zeros|count_ones|unsigned_abs|div_ceil|rem_euclid)$')
def m_num(e, ctx, st, ci, args, dty, line):
    p = ci.get('path') or ci['decl']
    m = re.match(r'^core::num::<impl (\w+)>::(\w+?)_?(add|sub|mul|div|neg|shl|shr|rem|diff|abs|pow)?$', p)
    ity = m.group(1)
    bits = {'usize': 64, 'isize': 64}.get(ity) or int(ity[1:])
    sg = ity[0] == 'i'
    r = ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1),) if sg else ((0, (1 << bits) - 1),)
    kind, op = m.group(2), m.group(3)
    if kind in ('wrapping', 'checked', 'saturating', 'overflowing') and op in ('add', 'sub', 'mul', 'div') and len(args) == 2 \
            and args[0][0] == 'i' and args[1][0] == 'i':
        a, b = lin(args[0]), lin(args[1])
        if op == 'add':
            l = ladd(a, b)
        elif op == 'sub':
            l = lsub(a, b)
        elif op == 'mul' and (not a[1] or not b[1]):
            l = lscale(b, a[0]) if not a[1] else lscale(a, b[0])
        elif op == 'div' and not b[1] and b[0]:
            if not a[1]:
                l = const(a[0] // b[0])
            else:
                l = var(D.fresh(((st.lo(a) // b[0], st.hi(a) // b[0]),), 'div'))
        else:
            return [(e.fresh(dty, 'num'), st)]
        inr = v_and(cmp('le', lsub(const(r[0][0]), l)), cmp('le', lsub(l, const(r[0][1]))))
        if op == 'add' and bits == 64 and min(st.hi(a), st.hi(b)) <= (1 << 40):
            # documented assumption: 64-bit counters do not wrap
            inr = cmp('le', lsub(const(r[0][0]), l))
        ok, bad = st.split(inr)
        out = []
        for s in ok:
            if kind == 'checked':
                out.append((some(e, dty, from_lin(l)), s))
            elif kind == 'overflowing':
                out.append((('a', dty, 0, (from_lin(l), FALSE)), s))
            else:
                out.append((from_lin(l), s))
        for s in bad:
            if kind == 'checked':
                out.append((none(e, dty), s))
            elif kind == 'saturating':
                lo, hi = s.split(cmp('le', ladd(l, const(1 - r[0][0]))))
                out += [(I(r[0][0]), q) for q in lo] + [(I(r[0][1]), q) for q in hi]
            elif kind == 'overflowing':
                out.append((('a', dty, 0, (e.fresh_int(r, 'wrap'), TRUE)), s))
            else:
                mod = 1 << bits
                w = ladd(l, const(mod)) if s.hi(l) < r[0][0] and s.lo(l) >= r[0][0] - mod else None
                out.append((from_lin(w) if w else e.fresh_int(r, 'wrap'), s))
        return out
    return [(e.fresh(dty, 'num'), st)]


@rx(r'^(std|core)::cmp::(Ord::(min|max)|min|max|impls::.*::(min|max)|Ord::clamp)$',
    r'^(std|core)::cmp::impls::<impl std::cmp::Ord for \w+>::(min|max|clamp)$')
def m_minmax(e, ctx, st, ci, args, dty, line):
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    if any(a[0] != 'i' for a in args):
        return None
    a, b = lin(args[0]), lin(args[1])
    if nm == 'clamp':
        c = lin(args[2])
        out = []
        lo, rest = st.split(cmp('le', ladd(lsub(a, b), const(1))))
        out += [(args[1], s) for s in lo]
        for s in rest:
            hi, mid = s.split(cmp('le', ladd(lsub(c, a), const(1))))
            out += [(args[2], q) for q in hi] + [(args[0], q) for q in mid]
        return out
    le, gt = st.split(cmp('le', lsub(a, b)))
    x, y = (args[0], args[1]) if nm == 'min' else (args[1], args[0])
    return [(x, s) for s in le] + [(y, s) for s in gt]


@rx(r'^core::num::<impl \w+>::(from|to)_(be|le|ne)_bytes$')
def m_bytes(e, ctx, st, ci, args, dty, line):
    e.on_bytes(ctx, st, ci, args, line)
    return [(e.fresh(dty, 'bytes'), st)]


# ---- memory -------------------------------------------------------------------------
@model('std::mem::replace', 'core::mem::replace')
def m_replace(e, ctx, st, ci, args, dty, line):
    root, path, w = one_target(e, st, args[0])
    if root is None:
        return None
    e.put(st, root, path, args[1])
    return [(w if w is not None else e.fresh(dty, 'replace', True), st)]


def one_target(e, st, v):
    if v[0] == 'r':
        return v[1], v[2], e.get(st, v[1], v[2])
    if v[0] == 's':
        r, p = e.deref(st, v)
        return r, p, e.get(st, r, p)
    return None, (), None


def default_of(e, ty):
    t = e.T[ty]
    r = e.p.trange(ty)
    if r is not None and t['k'] in ('int', 'bool', 'char'):
        return I(0)
    if t['k'] == 'adt':
        if t['path'].endswith('string::String'):
            return ('S', '', None)
        if is_vecty(t):
            return empty_vec(e, ty)
        if t['path'].endswith('option::Option'):
            return ('a', ty, 0, ())
    return None


@model('std::mem::take', 'core::mem::take')
def m_take(e, ctx, st, ci, args, dty, line):
    d = default_of(e, dty)
    if d is None:
        return None
    root, path, w = one_target(e, st, args[0])
    if root is None:
        return None
    e.put(st, root, path, d)
    return [(w if w is not None else e.fresh(dty, 'take', True), st)]


@rx(r'^std::option::Option::<T>::(take|replace|insert)$')
def m_opt_take(e, ctx, st, ci, args, dty, line):
    nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
    root, path, w = one_target(e, st, args[0])
    if root is None or w is None:
        return None
    if nm == 'take':
        e.put(st, root, path, ('a', dty, 0, ()))
        return [(w, st)]
    if nm == 'replace':
        e.put(st, root, path, ('a', dty, 1, (args[1],)))
        return [(w, st)]
    return None


@model('std::mem::swap', 'core::mem::swap')
def m_swap(e, ctx, st, ci, args, dty, line):
    r1, p1, a = one_target(e, st, args[0])
    r2, p2, b = one_target(e, st, args[1])
    if r1 is None or r2 is None or a is None or b is None:
        return None
    e.put(st, r1, p1, b)
    e.put(st, r2, p2, a)
    return [(unit(e, dty), st)]


@rx(r'^(std|core)::mem::(drop|forget)$')
def m_drop(e, ctx, st, ci, args, dty, line):
    return [(unit(e, dty), st)]


@rx(r'^std::boxed::Box::<T>::(new|pin)$')
def m_box(e, ctx, st, ci, args, dty, line):
    s = D.fresh(((0, 0),), 'box')
    e.deref_ty[s] = e.T[dty]['args'][0]
    st.mem[('m', s)] = args[0]
    return [(('s', dty, s), st)]


@rx(r'discriminant_value$', r'^(std|core)::mem::discriminant$')
def m_disc(e, ctx, st, ci, args, dty, line):
    root, path, w = target(e, st, args[0])
    if w is None:
        return None
    if e.p.trange(dty) is None:
        return None
    return [(e.discr(w, None), st)]


@rx(r'^<.* as std::clone::Clone>::clone$', r'^(std|core)::clone::impls::<impl std::clone::Clone for .*>::clone$')
def m_clone(e, ctx, st, ci, args, dty, line):
    if ci.get('key'):
        return None
    root, path, w = one_target(e, st, args[0])
    if w is None:
        return None
    return [(w, st)]


@rx(r'^(std|core)::(cmp::impls|array::equality|slice::cmp)::.*::(eq|ne)$', r'^<\[.*\] as std::cmp::PartialEq<.*>>::(eq|ne)$')
def m_prim_eq(e, ctx, st, ci, args, dty, line):
    r1 = target(e, st, args[0])
    r2 = target(e, st, args[1])
    a, b = r1[2], r2[2]
    ne = (ci.get('path') or ci['decl']).endswith('ne')
    if a is not None and b is not None and a[0] == 'i' and b[0] == 'i':
        c = cmp('eq', lsub(lin(a), lin(b)))
        return [(v_not(c) if ne else c, st)]
    if a is not None and b is not None:
        n = None
        if b[0] == 'a' and a[0] == 's':
            n = len(b[3])
            a = ('a', b[1], 0, tuple(e.elem_get(st, a, const(i)) for i in range(n)))
        elif a[0] == 'a' and b[0] == 's':
            b = ('a', a[1], 0, tuple(e.elem_get(st, b, const(i)) for i in range(len(a[3]))))
        if a[0] == 'a' and b[0] == 'a' and len(a[3]) == len(b[3]) and all(
                x is not None and y is not None and x[0] == 'i' and y[0] == 'i' for x, y in zip(a[3], b[3])):
            c = TRUE
            for x, y in zip(a[3], b[3]):
                c = v_and(c, cmp('eq', lsub(lin(x), lin(y))))
            return [(v_not(c) if ne else c, st)]
    return [(e.fresh_int(((0, 1),), 'eq'), st)]


# ---- panics ---------------------------------------------------------------------------
@rx(r'^(core|std)::panicking::', r'^(std|core)::rt::begin_panic', r'^(core|std)::(option|result)::(unwrap_failed|expect_failed)',
    r'^(std|core)::option::(expect_failed|unwrap_failed)$', r'^core::str::slice_error_fail', r'^std::process::(abort|exit)$')
def m_panic(e, ctx, st, ci, args, dty, line):
    nm = (ci.get('path') or ci['decl'])
    what = 'panic'
    c = ctx
    body = ctx.body
    if not body['local']:
        # unwrap/expect in library glue: attribute to the caller
        what = body['path'].rsplit('::', 1)[-1]
        for k, ln in reversed(ctx.chain[:-1]):
            b = e.p.bodies.get(k)
            if b and b['local']:
                body = b
                line = ln
                break
    msg = ''
    for a in args:
        if a[0] == 'cstr':
            msg = a[1]
    e.panic_at(body, what + (': ' + msg if msg else ''), line, st, ctx)
    return []


# ---- formatting, errors, allocation: no effect on tracked state ---------------------------
def one_int(e, st, v, d=0):
    """the only unknown integer in a value"""
    _, _, v = target(e, st, v)
    if v is None or d > 6:
        return []
    if v[0] == 'i':
        return [(v[1], v[2])] if v[2] else []
    if v[0] == 'a':
        return [x for f in v[3] if f is not None for x in one_int(e, st, f, d + 1)]
    return []


@rx(r'^core::fmt::rt::Argument::<.*>::new_', r'^std::fmt::Arguments::<.*>::new', r'^std::fmt::format$')
def m_fmt_int(e, ctx, st, ci, args, dty, line):
    """text made of one integer: the same text for the same integer"""
    if not e.distinct:
        return None
    nm = ci.get('path') or ci['decl']
    if nm.endswith('::format'):
        l = one_int(e, st, args[0])
        if len(l) == 1 and len(l[0][1]) == 1 and l[0][1][0][1] == 1:
            return [(('S', None, D.derive(l[0][1][0][0], ('fmt', l[0][0]), ((0, 0),))), st)]
        return None
    return [(('a', dty, 0, tuple(args[-1:])), st)]


@rx(r'^core::fmt::', r'^std::fmt::Arguments', r'^(std|alloc)::fmt::', r'^core::fmt::rt::', r'^std::fmt::Formatter')
def m_fmt(e, ctx, st, ci, args, dty, line):
    return [(e.fresh(dty, 'fmt'), st)]


@rx(r'^std::hint::must_use$', r'^(std|core)::convert::identity$', r'^(std|core)::hint::black_box$')
def m_id(e, ctx, st, ci, args, dty, line):
    return [(args[0], st)]


@rx(r'^std::io::', r'^<std::io::', r'^std::error::', r'^<std::boxed::Box<dyn .*> as std::convert::From',
    r'^std::boxed::', r'^std::str::Utf8Error', r'^std::string::FromUtf8Error', r'^std::char::DecodeUtf16',
    r'^std::iter::', r'^(std|core)::slice::<impl \[T\]>::(chunks|chunks_exact|windows|concat|join|iter_mut)$',
    r'^core::slice::<impl \[T\]>::(chunks|chunks_exact|windows|split_at)$', r'^std::char::decode_utf16$')
def m_io(e, ctx, st, ci, args, dty, line):
    if ci.get('key'):
        return None
    p = ci.get('path') or ci['decl']
    if p.startswith('std::iter::') and not re.search(r'size_hint|new|map|rev|enumerate', p):
        return None
    for a in args:
        if a[0] == 'r':
            w = e.get(st, a[1], a[2])
            if w is not None and w[0] in ('a', 'S', 'vec', 'i') and re.search(r'read|fill', p):
                e.put(st, a[1], a[2], e.havoc_val(st, w, False))
    return [(e.fresh(dty, 'io'), st)]
