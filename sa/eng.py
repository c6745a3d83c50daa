"""Interprocedural abstract interpreter over the dumped MIR.

Forward, trace-partitioned dataflow analysis: states at a program point are
kept apart as long as they differ in shape, merged when they only differ in
one symbol's domain, and widened at loop heads.  Calls are analysed in the
context of the caller's abstract state.
"""
import heapq
import json
import re
import time
from state import *
import dom as D


class Give(Exception):
    """the analysis ran out of its budget or met something it cannot handle"""


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.T = d['types']
        self.bodies = d['bodies']
        self.roots = d['roots']
        self.items = d['items']
        self.skipped = d['skipped']
        self.crate = d['crate']
        self._cfg = {}
        self._clike = {}
        self._rng = {}
        self.bypath = {}
        for k, b in self.bodies.items():
            self.bypath.setdefault(b['path'], []).append(k)
        self.tyname = {}
        for i, t in enumerate(self.T):
            self.tyname.setdefault(t['s'], i)

    def find(self, pat):
        r = re.compile(pat)
        return sorted(k for k, b in self.bodies.items() if b['local'] and r.search(b['path']))

    def one(self, pat, gen=None):
        ks = self.find(pat)
        if gen:
            ks = [k for k in ks if gen in k] or ks
        if not ks:
            raise Anchor(pat)
        return ks[0]

    def clike(self, t):
        r = self._clike.get(t)
        if r is None:
            x = self.T[t]
            r = x['k'] == 'adt' and x.get('enum') and 'v' in x and bool(x['v']) \
                and all(not v['f'] for v in x['v'])
            self._clike[t] = r = bool(r)
        return r

    def trange(self, t):
        """value range of an integer-like type, or None"""
        r = self._rng.get(t, 0)
        if r != 0:
            return r
        x = self.T[t]
        k = x['k']
        r = None
        if k == 'bool':
            r = ((0, 1),)
        elif k == 'char':
            r = CHARS
        elif k == 'int':
            b = x['bits']
            r = ((-(1 << (b - 1)), (1 << (b - 1)) - 1),) if x['sg'] else ((0, (1 << b) - 1),)
        elif self.clike(t):
            r = iset(*((v['d'], v['d']) for v in x['v']))
        self._rng[t] = r
        return r

    def variant_of(self, t, d):
        for i, v in enumerate(self.T[t]['v']):
            if v['d'] == d:
                return i
        return None

    def vname(self, t, i):
        return self.T[t]['v'][i]['n']

    def fields(self, t, variant=0):
        x = self.T[t]
        if x['k'] == 'adt':
            return x['v'][variant]['f']
        if x['k'] in ('tuple', 'closure'):
            return [[str(i), f] for i, f in enumerate(x['f'])]
        return None

    def field_index(self, t, name, variant=0):
        for i, (n, _) in enumerate(self.fields(t, variant)):
            if n == name:
                return i
        raise Anchor('field %s of %s' % (name, self.T[t]['s']))

    def field_type(self, t, name, variant=0):
        return self.fields(t, variant)[self.field_index(t, name, variant)][1]

    def adt(self, path, contains=None):
        """type id of an ADT by its path"""
        for i, t in enumerate(self.T):
            if t['k'] == 'adt' and t['path'] == path and (not contains or contains in t['s']):
                return i
        raise Anchor('type ' + path)

    def cfg(self, key):
        c = self._cfg.get(key)
        if c is None:
            c = self._cfg[key] = Cfg(self.bodies[key], self)
        return c


class Anchor(Exception):
    """something the rule is about no longer exists"""


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    if k == 'other' and len(t) > 2 and isinstance(t[2], int):
        return [t[2]]
    return []


def place_locals(p, out):
    out.add(p[0])
    for e in p[1:]:
        if e[0] == 'i':
            out.add(e[1])


def op_locals(o, out):
    if o[0] in 'cm':
        place_locals(o[1], out)


def rv_locals(r, out):
    k = r[0]
    if k in ('use',):
        op_locals(r[1], out)
    elif k == 'rep':
        op_locals(r[1], out)
    elif k == 'ref' or k == 'disc':
        place_locals(r[1], out)
    elif k == 'cast':
        op_locals(r[2], out)
    elif k == 'bin':
        op_locals(r[2], out)
        op_locals(r[3], out)
    elif k == 'un':
        op_locals(r[2], out)
    elif k == 'agg':
        for o in r[3]:
            op_locals(o, out)


class Cfg:
    def __init__(self, b, prog):
        self.b = b
        n = len(b['blocks'])
        self.succ = [succs(bl['t']) if bl else [] for bl in b['blocks']]
        # first DFS: back edges
        color = [0] * n
        back = set()
        st = [(0, iter(self.succ[0]))]
        color[0] = 1
        while st:
            u, it = st[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    st.append((v, iter(self.succ[v])))
                    break
                if color[v] == 1:
                    back.add((u, v))
            else:
                color[u] = 2
                st.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            if color[u]:
                for v in self.succ[u]:
                    pred[v].append(u)
        self.pred = pred
        self.heads = {v for _, v in back}
        # natural loops
        self.loop = {}
        for u, v in back:
            body = self.loop.setdefault(v, {v})
            w = [u]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w += pred[x]
        depth = [0] * n
        for h, body in self.loop.items():
            for x in body:
                depth[x] += 1
        self.loopdepth = depth
        # order: loop bodies before loop exits
        seen = [False] * n
        post = []

        def order(u):
            return sorted(self.succ[u], key=lambda v: (depth[v], ))
        st = [(0, iter(order(0)))]
        seen[0] = True
        while st:
            u, it = st[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = True
                    st.append((v, iter(order(v))))
                    break
            else:
                post.append(u)
                st.pop()
        self.prio = {u: i for i, u in enumerate(reversed(post))}
        # dominance-free liveness of locals
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]
        addr = set()
        for i, bl in enumerate(b['blocks']):
            if not bl:
                continue
            u, d = use[i], de[i]

            def rd(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for s in bl['s']:
                if s[0] == '=':
                    o = set()
                    rv_locals(s[2], o)
                    if s[2][0] == 'ref' and '*' not in s[2][1][1:]:
                        addr.add(s[2][1][0])
                    if len(s[1]) > 1:
                        place_locals(s[1], o)
                    rd(o)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    rd({s[1][0]})
                elif s[0] == 'dead':
                    d.add(s[1])
            t = bl['t']
            o = set()
            if t[0] == 'switch' or t[0] == 'assert':
                op_locals(t[1], o)
                if t[0] == 'assert':
                    for x in t[6] if len(t) > 6 else []:
                        op_locals(x, o)
            elif t[0] == 'call':
                for x in t[2]:
                    op_locals(x, o)
                if 'ptr' in t[1]:
                    op_locals(t[1]['ptr'], o)
                if len(t[3]) > 1:
                    place_locals(t[3], o)
            elif t[0] == 'ret':
                o.add(0)
            rd(o)
            if t[0] == 'call' and len(t[3]) == 1:
                d.add(t[3][0])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for u in post:
                o = set()
                for v in self.succ[u]:
                    o |= live[v]
                nl = use[u] | (o - de[u])
                if nl != live[u]:
                    live[u] = nl
                    ch = True
        self.live = live
        self.addr = addr


class Ctx:
    """one activation of a function"""
    __slots__ = ('key', 'body', 'depth', 'heads', 'chain', 'cfg', 'site')

    def __init__(self, key, body, depth, chain, cfg):
        self.key, self.body, self.depth, self.chain, self.cfg = key, body, depth, chain, cfg
        self.heads = {}


class Eng:
    UNROLL = 14
    FOLD = 6        # loop states before varying sequences are summarised
    levels = False
    STRLIM = 40     # longest string contents kept exactly while building
    MAXSTATES = 400
    ERRS = 1            # error results kept apart
    distinct = False    # two unknown strings are taken to be different
    window = None       # the string whose characters are followed one by one
    MAXSTEPS = 4000000

    def __init__(self, prog):
        self.p = prog
        self.T = prog.T
        self.steps = 0
        self.panics = {}         # (fnpath, what) -> info
        self.unmodelled = {}
        self.ctx = None
        self.overrides = {}      # path regex -> handler
        self._ov = {}
        self.seen_fns = {}
        self.sites = set()
        self.deadline = None
        self.tmp = 0
        import models
        self.models = models.MODELS
        self.mrx = models.RX
        self._mcache = {}

    # -- hooks (overridden by checks) ----------------------------------------
    def on_panic(self, ctx, what, line, st, taint):
        k = (ctx.body['path'], what)
        if k not in self.panics:
            self.panics[k] = (line, taint, list(ctx.chain))

    def on_unmodelled(self, name):
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1

    def on_call(self, ctx, ci, args, st):
        pass

    def on_agg(self, ctx, ty, variant, fields, st, line):
        pass

    def on_consume(self, ctx, st, chars):
        return st

    def on_violation(self, ctx, kind, what, line, st):
        pass

    # -- values ----------------------------------------------------------------
    def mk(self, ty, sym):
        """value of type ty named by symbol sym"""
        r = self.p.trange(ty)
        if r is not None:
            return ('i', 0, ((sym, 1),))
        t = self.T[ty]
        if t['k'] == 'adt':
            p = t['path']
            if p in ('std::string::String', 'alloc::string::String'):
                return ('S', None, sym)
        if t['k'] == 'str':
            return ('S', None, sym)
        if t['k'] == 'tuple' and not t['f']:
            return ('a', ty, 0, ())
        return ('s', ty, sym)

    def fresh(self, ty, desc='', taint=False):
        r = self.p.trange(ty)
        return self.mk(ty, D.fresh(r or ((0, 0),), desc, taint))

    def child(self, ty, sym, key):
        r = self.p.trange(ty)
        return self.mk(ty, D.derive(sym, key, r or ((0, 0),)))

    def discr(self, v, ty):
        """linear discriminant of an enum value"""
        if v[0] == 'a':
            return I(self.T[v[1]]['v'][v[2]]['d'])
        if v[0] == 'i':
            return v
        if v[0] == 's':
            t = self.T[v[1]]
            if 'v' in t:
                r = iset(*((x['d'], x['d']) for x in t['v']))
            else:
                r = ((0, 255),)
            return ('i', 0, ((D.derive(v[2], 'd', r), 1),))
        return self.fresh_int(((0, 255),), 'disc', True)

    def fresh_int(self, rng, desc='', taint=False):
        return ('i', 0, ((D.fresh(rng, desc, taint), 1),))

    def expand(self, v, variant=0):
        """unknown struct -> aggregate of unknown fields"""
        if v[0] == 's':
            fs = self.p.fields(v[1], variant)
            if fs is None:
                return v
            return ('a', v[1], variant,
                    tuple(self.child(t, v[2], (variant, i)) for i, (n, t) in enumerate(fs)))
        return v

    def field(self, v, variant, idx, ty):
        k = v[0]
        if k == 'a':
            if v[2] != variant and variant is not None and self.T[v[1]]['k'] == 'adt' \
                    and self.T[v[1]].get('enum'):
                return self.fresh(ty, 'dead', True)
            if idx < len(v[3]):
                return v[3][idx]
            return self.fresh(ty, 'field', True)
        if k == 's':
            return self.child(ty, v[2], (variant or 0, idx))
        if k == 'c' or k == 'i':
            return v
        if k in ('r', 'slice', 'cstr'):
            return v        # Box/Unique/NonNull wrappers
        return self.fresh(ty, 'field', True)

    def setfield(self, v, variant, idx, nv):
        if v[0] == 's':
            v = self.expand(v, variant or 0)
        if v[0] == 'a':
            f = list(v[3])
            while len(f) <= idx:
                f.append(None)
            f[idx] = nv
            return ('a', v[1], variant if variant is not None else v[2], tuple(f))
        return v

    # -- memory ------------------------------------------------------------------
    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == 'm':
                v = self.mem_default(root)
                st.mem[root] = v
            elif root[0] == 'k' and root in self.consts:
                v = st.mem[root] = self.consts[root]
            else:
                v = None
        return v

    def mem_default(self, root):
        s = root[1]
        ty = self.deref_ty.get(s)
        if ty is None:
            return None
        return self.mk(ty, D.derive(s, '*', self.p.trange(ty) or ((0, 0),)))

    deref_ty = {}

    def get(self, st, root, path):
        v = self.load_root(st, root)
        for e in path:
            if v is None:
                return None
            v = self.step_get(st, v, e)
        return v

    def step_get(self, st, v, e):
        k = e[0]
        if k == 'f':
            return self.field(v, e[1], e[2], e[3])
        if k == 'x':
            return self.elem_get(st, v, e[1])
        if k == 'vb':
            if v[0] == 'vec' and e[1] < len(v[5]):
                return v[5][e[1]]
            return None
        if k == 'vf':
            if v[0] == 'vec' and e[1] < len(v[2]):
                return v[2][e[1]]
            return None
        return None

    def elem_ty(self, v):
        if v[0] in ('a', 's', 'vec'):
            t = self.T[v[1]]
            if t['k'] in ('array', 'slice'):
                return t['to']
            if t['k'] == 'adt' and t['args']:
                return t['args'][0]
        return None

    def elem_get(self, st, v, ix):
        import models
        if v[0] == 'a' and self.T[v[1]]['k'] == 'array':
            r = st.range_of(ix)
            if size(r) == 1 and r[0][0] < len(v[3]) and r[0][0] >= 0:
                return v[3][r[0][0]]
            vals = set()
            for i in elems(inter(r, ((0, len(v[3]) - 1),))):
                vals.add(v[3][i])
            if len(vals) == 1:
                return vals.pop()
            if vals and all(is_const(x) for x in vals):
                # table lookup: keep the relation to the index
                res = self.fresh_int(iset(*((x[1], x[1]) for x in vals)), 'tab')
                if len(ix[1]) == 1 and ix[1][0][1] == 1:
                    tab = {}
                    for i in elems(inter(r, ((0, len(v[3]) - 1),))):
                        tab.setdefault(v[3][i][1], []).append((i - ix[0], i - ix[0]))
                    st.link(res[2][0][0], ('fun', ix[1][0][0],
                                           tuple((k, iset(*p)) for k, p in sorted(tab.items()))))
                return res
            ty = self.T[v[1]]['to']
            return self.fresh(ty, 'elem')
        if v[0] == 'vec':
            x = models.vec_index(self, st, v, ix)
            if x is not None:
                return x
        if v[0] == 'cb':
            return None
        ty = self.elem_ty(v)
        if ty is None:
            return None
        if v[0] == 's' and not ix[1]:
            return self.child(ty, v[2], ('x', ix[0]))
        return self.fresh(ty, 'elem', v[0] == 's' and D.TAINT[v[2]])

    def put(self, st, root, path, nv):
        if not path:
            st.mem[root] = nv
            return
        v = self.load_root(st, root)
        st.mem[root] = self.put_in(st, v, path, 0, nv)

    def put_in(self, st, v, path, i, nv):
        if i == len(path):
            return nv
        e = path[i]
        if v is None:
            return None
        if e[0] == 'f':
            if v[0] == 's':
                v = self.expand(v, e[1] or 0)
            if v[0] != 'a':
                return v
            old = v[3][e[2]] if e[2] < len(v[3]) else None
            if i + 1 < len(path) and old is None:
                return v
            return self.setfield(v, e[1] if e[1] is not None else v[2], e[2],
                                 self.put_in(st, old, path, i + 1, nv))
        if e[0] == 'vb' and v[0] == 'vec' and e[1] < len(v[5]):
            b = list(v[5])
            b[e[1]] = self.put_in(st, b[e[1]], path, i + 1, nv)
            return v[:5] + (tuple(b),)
        if e[0] == 'vf' and v[0] == 'vec' and e[1] < len(v[2]):
            b = list(v[2])
            b[e[1]] = self.put_in(st, b[e[1]], path, i + 1, nv)
            return v[:2] + (tuple(b),) + v[3:]
        if e[0] == 'x':
            if v[0] == 'a':
                r = st.range_of(e[1])
                if size(r) == 1 and 0 <= r[0][0] < len(v[3]):
                    f = list(v[3])
                    f[r[0][0]] = self.put_in(st, f[r[0][0]], path, i + 1, nv)
                    return ('a', v[1], v[2], tuple(f))
                ty = self.elem_ty(v)
                f = list(v[3])
                for j in elems(inter(r, ((0, len(f) - 1),))):
                    f[j] = self.fresh(ty, 'elem')
                return ('a', v[1], v[2], tuple(f))
            if v[0] == 'vec':
                # weak update: forget the elements
                ty = self.elem_ty(v)
                from models import vec_forget
                return vec_forget(self, st, v)
            return v
        return v

    def havoc_ref(self, st, v, ty=None, taint=True, depth=0):
        """an unknown callee may write through this value"""
        if v is None or depth > 3:
            return
        if v[0] == 'r':
            old = self.get(st, v[1], v[2])
            if old is None:
                return
            if old[0] == 'r' or old[0] == 'slice':
                self.havoc_ref(st, old, None, taint, depth + 1)
                return
            self.put(st, v[1], v[2], self.havoc_val(st, old, taint))
        elif v[0] == 'a':
            for f in v[3]:
                if f and f[0] in ('r', 'a'):
                    self.havoc_ref(st, f, None, taint, depth + 1)

    def havoc_val(self, st, v, taint=True):
        k = v[0]
        if k in ('a', 's', 'vec'):
            if k == 'a':
                for f in v[3]:
                    if f and f[0] == 'r':
                        self.havoc_ref(st, f, None, taint, 1)
            return self.fresh(v[1], 'havoc', taint)
        if k in ('i', 'c', 'in', 'and', 'or', 'not'):
            return self.fresh_int(((-(1 << 63), (1 << 64) - 1),), 'havoc', taint)
        if k == 'S':
            return ('S', None, D.fresh(((0, 0),), 'havoc', taint))
        if k == 'cb':
            return ('cb', (), False, 0, D.fresh(((0, STEPS),), 'len', taint))
        return v

    # -- places -----------------------------------------------------------------
    def loc(self, ctx, st, pl):
        """place -> (root, path)"""
        root = ('l', ctx.depth, pl[0])
        path = ()
        variant = None
        n = len(pl)
        for i in range(1, n):
            e = pl[i]
            if e == '*':
                v = self.get(st, root, path)
                root, path = self.deref(st, v)
                variant = None
            else:
                k = e[0]
                if k == 'f':
                    path = path + (('f', variant, e[1], e[2]),)
                    variant = None
                elif k == 'v':
                    variant = e[1]
                elif k == 'i':
                    iv = st.mem.get(('l', ctx.depth, e[1]))
                    l = lin(iv) if iv and iv[0] == 'i' else var(D.fresh(((0, 1 << 62),), 'ix', True))
                    if root[0] == 'sl':
                        l = ladd(l, root[3])
                        path = root[2] + (('x', l),)
                        root = root[1]
                    else:
                        path = path + (('x', l),)
                elif k == 'c':
                    off = e[1]
                    l = const(off)
                    if root[0] == 'sl':
                        if e[3]:
                            l = ladd(root[4], const(-off))
                        l = ladd(l, root[3])
                        path = root[2] + (('x', l),)
                        root = root[1]
                    else:
                        if e[3]:
                            v = self.get(st, root, path)
                            ln = self.len_of(st, v)
                            l = ladd(ln, const(-off))
                        path = path + (('x', l),)
                elif k == 's':
                    # subslice: (from, to, from_end)
                    if root[0] == 'sl':
                        base, bp, o, ln = root[1], root[2], root[3], root[4]
                    else:
                        v = self.get(st, root, path)
                        base, bp, o, ln = root, path, const(0), self.len_of(st, v)
                    hi = ladd(ln, const(-e[2])) if e[3] else const(e[2])
                    root = ('sl', base, bp, ladd(o, const(e[1])), lsub(hi, const(e[1])))
                    path = ()
        return root, path

    def len_of(self, st, v):
        import models
        return models.seq_len(self, st, v)

    def deref(self, st, v):
        if v is None:
            return ('bad',), ()
        k = v[0]
        if k == 'r':
            return v[1], v[2]
        if k == 'slice':
            return ('sl', v[1], v[2], v[3], v[4]), ()
        if k == 's':
            t = self.T[v[1]]
            to = t.get('to')
            if to is None and t['k'] == 'adt' and t.get('box') and t['args']:
                to = t['args'][0]
            if to is not None:
                self.deref_ty[v[2]] = to
                return ('m', v[2]), ()
        if k == 'cstr':
            return ('const', v[1]), ()
        return ('bad',), ()

    def read(self, ctx, st, pl):
        if len(pl) == 1:
            return st.mem.get(('l', ctx.depth, pl[0]))
        root, path = self.loc(ctx, st, pl)
        if root[0] == 'sl':
            return ('slice', root[1], root[2], root[3], root[4])
        if root[0] == 'const':
            return ('S', root[1], None)
        v = self.get(st, root, path)
        if v is None:
            ty = self.place_ty(ctx, pl)
            if ty is not None:
                v = self.fresh(ty, 'read', True)
        return v

    def place_ty(self, ctx, pl):
        ty = ctx.body['locals'][pl[0]]
        for e in pl[1:]:
            if e == '*':
                t = self.T[ty]
                ty = t.get('to')
                if ty is None and t['k'] == 'adt' and t['args']:
                    ty = t['args'][0]
                if ty is None:
                    return None
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in 'ic':
                ty = self.T[ty].get('to')
                if ty is None:
                    return None
        return ty

    def write(self, ctx, st, pl, v):
        if len(pl) == 1:
            st.mem[('l', ctx.depth, pl[0])] = v
            return
        if st.mem.get(('l', ctx.depth, pl[0])) is None and pl[1][0] == 'f':
            # piecewise initialisation of an aggregate
            ty = ctx.body['locals'][pl[0]]
            st.mem[('l', ctx.depth, pl[0])] = self.fresh(ty, 'uninit')
        root, path = self.loc(ctx, st, pl)
        if root[0] in ('sl', 'const', 'bad'):
            return
        self.put(st, root, path, v)

    def constval(self, ctx, k):
        ty = k['t']
        v = k.get('v')
        if k.get('prom') and (v is None or v == ['ref', None]):
            w = self.promoted(k['prom'])
            if w is not None:
                return w
        if v is None:
            return self.fresh(ty, 'const', True)
        return self.constv(ty, v)

    def promoted(self, key):
        """a constant that the dumper gives as a straight-line body; None when it is anything more than that"""
        b = self.p.bodies.get(key)
        if b is None or len([x for x in b['blocks'] if x]) != 1 or b['blocks'][0]['t'][0] != 'ret':
            return None
        env = {}

        def op(o):
            if o[0] == 'k':
                return self.constval(None, o[1])
            return env.get(o[1][0]) if len(o[1]) == 1 else None
        for s in b['blocks'][0]['s']:
            if s[0] != '=':
                if s[0] in ('live', 'dead'):
                    continue
                return None
            if len(s[1]) != 1:
                return None
            r = s[2]
            v = None
            if r[0] == 'use':
                v = op(r[1])
            elif r[0] == 'ref' and len(r[1]) == 2 and r[1][1] == '*':
                v = env.get(r[1][0])
            elif r[0] == 'ref' and len(r[1]) == 1:
                x = env.get(r[1][0])
                if x is not None:
                    root = ('k', b['locals'][r[1][0]], '%s:%d' % (key, r[1][0]))
                    self.consts[root] = x
                    v = ('r', root, ())
            elif r[0] == 'agg' and r[1] == 'agg':
                fs = tuple(op(o) for o in r[3])
                if None not in fs:
                    v = I(self.T[r[4]]['v'][r[2]]['d']) if self.p.clike(r[4]) else ('a', r[4], r[2], fs)
            if v is None:
                return None
            env[s[1][0]] = v
        return env.get(0)

    def constv(self, ty, v):
        tg = v[0]
        if tg == 'int':
            return I(v[1])
        if tg == 'str':
            return ('cstr', v[1])
        if tg == 'zst':
            t = self.T[ty]
            if t['k'] == 'fndef':
                return ('fn', ty)
            if t['k'] == 'array':
                return ('a', ty, 0, ())
            return ('a', ty, 0, ())
        if tg == 'agg':
            if self.p.clike(ty):
                return I(self.T[ty]['v'][v[1]]['d'])
            fs = self.p.fields(ty, v[1]) or []
            return ('a', ty, v[1], tuple(self.constv(t, x) if x is not None else self.fresh(t, 'const')
                                         for (n, t), x in zip(fs, v[2])))
        if tg == 'arr':
            to = self.T[ty]['to']
            return ('a', ty, 0, tuple(self.constv(to, x) for x in v[1]))
        if tg == 'ref':
            to = self.T[ty].get('to')
            if v[1] is None or to is None:
                return self.fresh(ty, 'const', True)
            inner = self.constv(to, v[1])
            root = ('k', to, json.dumps(v[1]))
            self.consts[root] = inner
            return ('r', root, ())
        return self.fresh(ty, 'const', tg != 'static')

    consts = {}

    def operand(self, ctx, st, o):
        if o[0] == 'k':
            v = self.constval(ctx, o[1])
            if v[0] == 'r' and v[1][0] == 'k' and v[1] not in st.mem:
                st.mem[v[1]] = self.consts[v[1]]
            return v
        v = self.read(ctx, st, o[1])
        if v is None:
            ty = self.place_ty(ctx, o[1])
            v = self.fresh(ty, 'undef', True) if ty is not None else ('a', 0, 0, ())
        return v

    # -- rvalues --------------------------------------------------------------
    def as_lin(self, st, v, ty=None):
        """integer value as a linear expression"""
        k = v[0]
        if k == 'i':
            return (v[1], v[2])
        if k in ('c', 'in', 'and', 'or', 'not'):
            d = st.decide(v)
            if d is not None:
                return const(1 if d else 0)
            s = D.fresh(((0, 1),), 'bool')
            st.link(s, ('cond', v))
            return var(s)
        r = self.p.trange(ty) if ty is not None else None
        t = k == 's' and D.TAINT[v[2]]
        return var(D.fresh(r or ((-(1 << 63), (1 << 64) - 1),), 'int', True))

    def wrap(self, st, l, ty):
        """value of linear l in type ty, if it provably fits; else unknown"""
        r = self.p.trange(ty)
        if not l[1]:
            x = l[0]
            lo, hi = r[0][0], r[-1][1]
            m = hi - lo + 1
            if self.T[ty]['k'] == 'int':
                x = (x - lo) % m + lo
            return I(x)
        lo, hi = st.lo(l), st.hi(l)
        if lo >= r[0][0] and hi <= r[-1][1]:
            return from_lin(l)
        return None

    def binop(self, ctx, st, op, a, b, ty):
        if op.endswith('WithOverflow'):
            la, lb = self.as_lin(st, a, ty), self.as_lin(st, b, ty)
            o = op[0]
            if o == 'A':
                l = ladd(la, lb)
            elif o == 'S':
                l = lsub(la, lb)
            else:
                l = None
                if not la[1]:
                    l = lscale(lb, la[0])
                elif not lb[1]:
                    l = lscale(la, lb[0])
                else:
                    ps = [x * y for x in (st.lo(la), st.hi(la)) for y in (st.lo(lb), st.hi(lb))]
                    l = var(D.fresh(((min(ps), max(ps)),), 'mul'))
            r = self.p.trange(ty)
            lo, hi = r[0][0], r[-1][1]
            ov = v_or(cmp('le', ladd(lscale(l, 1), const(0)) if False else (l[0] - lo + 1, l[1])),
                      cmp('le', lsub(const(hi + 1), l)))
            return ('a', -1, 0, (from_lin(l), ov))
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if a[0] in ('c', 'in', 'and', 'or', 'not') and is_const(b):
                pos = (op == 'Eq') == (b[1] != 0)
                return a if pos else v_not(a)
            if b[0] in ('c', 'in', 'and', 'or', 'not') and is_const(a):
                pos = (op == 'Eq') == (a[1] != 0)
                return b if pos else v_not(b)
            if a[0] in ('r', 's', 'fn', 'cstr') or b[0] in ('r', 's', 'fn', 'cstr'):
                return self.fresh_int(((0, 1),), 'ptrcmp', True)
            la, lb = self.as_lin(st, a, ty), self.as_lin(st, b, ty)
            if op == 'Eq':
                return cmp('eq', lsub(la, lb))
            if op == 'Ne':
                return cmp('ne', lsub(la, lb))
            if op == 'Lt':
                return cmp('le', ladd(lsub(la, lb), const(1)))
            if op == 'Le':
                return cmp('le', lsub(la, lb))
            if op == 'Gt':
                return cmp('le', ladd(lsub(lb, la), const(1)))
            return cmp('le', lsub(lb, la))
        if self.T[ty]['k'] == 'bool' and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                return v_and(a, b)
            if op == 'BitOr':
                return v_or(a, b)
            if is_const(b):
                return v_not(a) if b[1] else a
            if is_const(a):
                return v_not(b) if a[1] else b
            return v_or(v_and(a, v_not(b)), v_and(v_not(a), b))
        la, lb = self.as_lin(st, a, ty), self.as_lin(st, b, ty)
        if op in ('Add', 'AddUnchecked'):
            v = self.wrap(st, ladd(la, lb), ty)
            if v is not None:
                return v
        elif op in ('Sub', 'SubUnchecked'):
            v = self.wrap(st, lsub(la, lb), ty)
            if v is not None:
                return v
        elif op in ('Mul', 'MulUnchecked') and (not la[1] or not lb[1]):
            v = self.wrap(st, lscale(lb, la[0]) if not la[1] else lscale(la, lb[0]), ty)
            if v is not None:
                return v
        return self.pointwise(st, op, la, lb, ty)

    def pointwise(self, st, op, la, lb, ty):
        """bit operations and the like: tabulate over a small domain"""
        r = self.p.trange(ty)
        bits = self.T[ty].get('bits', 64)
        mask = (1 << bits) - 1

        def f(x, y):
            if op == 'BitAnd':
                return x & y
            if op == 'BitOr':
                return x | y
            if op == 'BitXor':
                return x ^ y
            if op in ('Shl', 'ShlUnchecked'):
                return (x << (y % bits)) & mask
            if op in ('Shr', 'ShrUnchecked'):
                return (x & mask) >> (y % bits) if x >= 0 else x >> (y % bits)
            if op == 'Div':
                return 0 if y == 0 else abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            if op == 'Rem':
                return 0 if y == 0 else abs(x) % abs(y) * (-1 if x < 0 else 1)
            if op in ('Add', 'Sub', 'Mul'):
                z = x + y if op == 'Add' else x - y if op == 'Sub' else x * y
                lo, hi = r[0][0], r[-1][1]
                return (z - lo) % (hi - lo + 1) + lo
            raise KeyError
        try:
            f(0, 1)
        except KeyError:
            return self.fresh_int(r, op, True)
        if not la[1] and not lb[1]:
            return I(f(la[0], lb[0]))
        x, y, sw = (la, lb, False) if not lb[1] else (lb, la, True)
        lo0, hi0 = st.lo(la), st.hi(la)
        if op in ('Shl', 'ShlUnchecked') and not lb[1] and lo0 >= 0 and (hi0 << lb[0]) <= mask:
            return from_lin(lscale(la, 1 << lb[0]))
        if not y[1] and len(x[1]) == 1 and abs(x[1][0][1]) == 1:
            dm = st.range_of(x)
            if size(dm) <= 4096:
                tab = {}
                s, k = x[1][0]
                for e in elems(dm):
                    z = f(y[0], e) if sw else f(e, y[0])
                    sv = (e - x[0]) * k
                    tab.setdefault(z, []).append((sv, sv))
                res = D.fresh(iset(*((z, z) for z in tab)), op)
                st.link(res, ('fun', s, tuple((z, iset(*p)) for z, p in sorted(tab.items()))))
                return ('i', 0, ((res, 1),))
        # bounds only
        alo, ahi, blo, bhi = st.lo(la), st.hi(la), st.lo(lb), st.hi(lb)
        if op == 'BitAnd' and (alo >= 0 or blo >= 0):
            h = min(x for x in (ahi if alo >= 0 else None, bhi if blo >= 0 else None) if x is not None)
            return self.fresh_int(((0, h),), op)
        if op in ('Shr', 'ShrUnchecked') and alo >= 0 and not lb[1]:
            return self.fresh_int(((alo >> lb[0], ahi >> lb[0]),), op)
        if op == 'Div' and alo >= 0 and blo > 0:
            return self.fresh_int(((alo // bhi, ahi // blo),), op)
        if op == 'Rem' and alo >= 0 and blo > 0:
            return self.fresh_int(((0, min(ahi, bhi - 1)),), op)
        if op == 'BitOr' and alo >= 0 and blo >= 0:
            return self.fresh_int(((max(alo, blo), (1 << max(ahi.bit_length(), bhi.bit_length())) - 1),), op)
        return self.fresh_int(r, op)

    def cast(self, ctx, st, kind, v, ty, fr):
        if kind == 'IntToInt' or kind.startswith('Transmute'):
            r = self.p.trange(ty)
            if r is not None and self.p.trange(fr) is not None:
                l = self.as_lin(st, v, fr)
                if kind != 'IntToInt' and self.T[ty]['k'] == 'char':
                    if l[1] and not subset(st.range_of(l), r):
                        return self.fresh_int(r, 'transmute')
                    return from_lin(l)
                w = self.wrap(st, l, ty)
                if w is not None:
                    return w
                # truncating cast
                if len(l[1]) == 1 and size(st.range_of(l)) <= 4096:
                    lo, hi = r[0][0], r[-1][1]
                    m = hi - lo + 1
                    s, k = l[1][0]
                    tab = {}
                    for e in elems(st.range_of(l)):
                        z = (e - lo) % m + lo
                        if (e - l[0]) % k == 0:
                            tab.setdefault(z, []).append(((e - l[0]) // k,) * 2)
                    res = D.fresh(iset(*((z, z) for z in tab)), 'trunc')
                    st.link(res, ('fun', s, tuple((z, iset(*p)) for z, p in sorted(tab.items()))))
                    return ('i', 0, ((res, 1),))
                return self.fresh_int(r, 'trunc')
            return v
        if 'Unsize' in kind:
            return v
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            return v
        return v

    def rvalue(self, ctx, st, r, line, dty):
        k = r[0]
        if k == 'use':
            return self.operand(ctx, st, r[1])
        if k == 'ref':
            root, path = self.loc(ctx, st, r[1])
            if root[0] == 'sl':
                return ('slice', root[1], root[2], root[3], root[4])
            if root[0] == 'const':
                return ('cstr', root[1])
            if root[0] == 'bad':
                return self.fresh(dty, 'ref', True)
            if root[0] == 'l' and root not in st.mem:
                st.mem[root] = self.fresh(ctx.body['locals'][root[2]], 'uninit') \
                    if root[1] == ctx.depth else None
            return ('r', root, path)
        if k == 'bin':
            a = self.operand(ctx, st, r[2])
            b = self.operand(ctx, st, r[3])
            return self.binop(ctx, st, r[1], a, b, r[4])
        if k == 'un':
            a = self.operand(ctx, st, r[2])
            if r[1] == 'Not':
                if self.T[r[3]]['k'] == 'bool':
                    return v_not(a)
                l = self.as_lin(st, a, r[3])
                rg = self.p.trange(r[3])
                if rg[0][0] < 0:
                    return from_lin(lsub(const(-1), l))
                return from_lin(lsub(const(rg[-1][1]), l))
            if r[1] == 'Neg':
                return from_lin(lscale(self.as_lin(st, a, r[3]), -1))
            if r[1] == 'PtrMetadata':
                if a[0] == 'r':
                    t = self.get(st, a[1], a[2])
                    if t is None:
                        return self.fresh(dty, 'meta', True)
                    return from_lin(self.len_of(st, t))
                return from_lin(self.len_of(st, a))
            return self.fresh(dty, 'un', True)
        if k == 'disc':
            v = self.read(ctx, st, r[1])
            if v is None:
                return self.fresh_int(((0, 255),), 'disc', True)
            return self.discr(v, r[2])
        if k == 'agg':
            if r[1] == 'arr':
                return ('a', r[4], 0, tuple(self.operand(ctx, st, o) for o in r[3]))
            if r[1] == 'rawptr':
                return self.operand(ctx, st, r[3][0])
            fs = tuple(self.operand(ctx, st, o) for o in r[3])
            if self.p.clike(r[4]):
                return I(self.T[r[4]]['v'][r[2]]['d'])
            self.on_agg(ctx, r[4], r[2], fs, st, line)
            return ('a', r[4], r[2], fs)
        if k == 'cast':
            v = self.operand(ctx, st, r[2])
            return self.cast(ctx, st, r[1], v, r[3], r[4])
        if k == 'rep':
            v = self.operand(ctx, st, r[1])
            n = r[2]
            if n is not None and n <= 64:
                return ('a', dty, 0, (v,) * n)
            return self.fresh(dty, 'rep')
        return self.fresh(dty, 'rvalue', True)

    # -- execution ------------------------------------------------------------
    def call_key(self, key, args, st, depth, chain):
        """analyse function `key`; returns list of (value, state)"""
        body = self.p.bodies[key]
        if depth > 60:
            raise Give('call depth')
        if any(k == key for k, _ in chain):
            return None
        ctx = Ctx(key, body, depth, chain + ((key, None),), self.p.cfg(key))
        self.seen_fns[key] = self.seen_fns.get(key, 0) + 1
        if body['spread'] is not None:
            pass
        for i, a in enumerate(args):
            st.mem[('l', depth, i + 1)] = a
        out = self.run(ctx, st)
        return out

    def run(self, ctx, st0):
        cfg = ctx.cfg
        prio = cfg.prio
        pend = {0: [st0]}
        hp = [(prio[0], 0)]
        exits = []
        old = self.ctx
        self.ctx = ctx
        blocks = ctx.body['blocks']
        if 0 in cfg.heads or len(cfg.pred[0]) > 0:
            pass
        while hp:
            _, bb = heapq.heappop(hp)
            states = pend.pop(bb, None)
            if not states:
                continue
            if len(states) > 1:
                states = self.merge(ctx, bb, states)
            for s in states:
                if bb in cfg.heads:
                    s = self.loop_head(ctx, bb, s)
                    if s is None:
                        continue
                self.steps += 1
                if self.steps % 256 == 0:
                    if self.deadline and time.time() > self.deadline:
                        raise Give('time budget')
                    if self.steps > self.MAXSTEPS:
                        raise Give('step budget')
                self.ctx = ctx
                for nb, ns in self.block(ctx, bb, blocks[bb], s, exits):
                    # drop locals that are dead at nb
                    if nb in pend:
                        pend[nb].append(ns)
                    else:
                        pend[nb] = [ns]
                        heapq.heappush(hp, (prio[nb], nb))
        self.ctx = old
        return self.finish(ctx, exits)

    def block(self, ctx, bb, bl, st, exits):
        depth = ctx.depth
        for s in bl['s']:
            k = s[0]
            if k == '=':
                pl = s[1]
                dty = ctx.body['locals'][pl[0]] if len(pl) == 1 else \
                    (pl[-1][2] if pl[-1][0] == 'f' else self.place_ty(ctx, pl))
                v = self.rvalue(ctx, st, s[2], s[3], dty)
                if v[0] == 'a' and v[1] == -1:
                    v = ('a', dty, 0, v[3])
                if len(pl) == 1:
                    st.mem[('l', depth, pl[0])] = v
                else:
                    self.write(ctx, st, pl, v)
            elif k == 'dead':
                st.mem.pop(('l', depth, s[1]), None)
            elif k == 'sd':
                self.set_disc(ctx, st, s[1], s[2])
        t = bl['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'switch':
            return self.switch(ctx, st, t)
        if k == 'call':
            return self.call(ctx, st, t)
        if k == 'drop':
            return [(t[2], st)]
        if k == 'assert':
            c = self.operand(ctx, st, t[1])
            ok, bad = st.split(c if t[2] else v_not(c)) if c[0] != 's' else ([st], [])
            if t[3] != 'ub':
                self.sites.add((ctx.key, bb))
                if bad:
                    bad = [b for b in bad if not self.assumed_away(ctx, b, t)]
                if bad:
                    self.panic(ctx, t[3], t[5], bad[0], t)
            return [(t[4], s) for s in ok]
        if k == 'ret':
            exits.append(st)
            return []
        if k == 'unreach':
            return []
        if k == 'other':
            if len(t) > 2 and isinstance(t[2], int):
                return [(t[2], st)]
            return []
        return []

    def assumed_away(self, ctx, st, t):
        """64-bit counters do not overflow: every history has fewer than
        2^62 steps (documented assumption)"""
        if t[3] == 'overflow Add' and len(t) > 6:
            o = t[6]
            ty = None
            for x in o:
                if x[0] in 'cm':
                    ty = self.place_ty(ctx, x[1])
                elif x[0] == 'k':
                    ty = x[1]['t']
            if ty is not None and self.T[ty].get('bits') == 64:
                vs = [self.operand(ctx, st, x) for x in o]
                hs = [st.hi(lin(v)) if v[0] == 'i' else BIG for v in vs]
                if min(hs) <= (1 << 40):
                    return True
        return False

    def tainted(self, st, v):
        o = set()
        syms(v, o, set())
        return any(D.TAINT[s] for s in o)

    def panic(self, ctx, what, line, st, t):
        taint = False
        if t[0] == 'assert':
            v = self.operand(ctx, st, t[1])
            taint = self.tainted(st, v)
            for x in (t[6] if len(t) > 6 else []):
                taint = taint or self.tainted(st, self.operand(ctx, st, x))
        self.on_panic(ctx, what, line, st, taint)

    def set_disc(self, ctx, st, pl, variant):
        root, path = self.loc(ctx, st, pl)
        v = self.get(st, root, path)
        if v is not None and v[0] == 'a':
            self.put(st, root, path, ('a', v[1], variant, v[3]))

    def switch(self, ctx, st, t):
        v = self.operand(ctx, st, t[1])
        k = v[0]
        out = []
        if k in ('c', 'in', 'and', 'or', 'not'):
            tt, ff = st.split(v)
            m = dict(t[2])
            fb = m.get(0, t[3])
            tb = m.get(1, t[3])
            for s in tt:
                out.append((tb, s))
            for s in ff:
                out.append((fb, s.copy() if s is st and tt else s))
            return out
        if k != 'i':
            for x, b in t[2]:
                out.append((b, st.copy()))
            out.append((t[3], st.copy()))
            return out
        l = lin(v)
        if not l[1]:
            for x, b in t[2]:
                if x == l[0]:
                    return [(b, st)]
            return [(t[3], st)]
        lk = st.links.get(l[1][0][0]) if len(l[1]) == 1 else None
        if lk is not None and lk[0] == 'cond':
            tt, ff = st.split(v)
            m = dict(t[2])
            fb, tb = m.get(0, t[3]), m.get(1, t[3])
            return [(tb, s) for s in tt] + [(fb, s.copy() if s is st else s) for s in ff]
        r = st.range_of(l)
        vals = []
        groups = {}
        for x, b in t[2]:
            if inter(r, ((x, x),)):
                groups.setdefault(b, []).append((x, x))
            vals.append((x, x))
        rest = minus(r, iset(*vals))
        if rest:
            groups.setdefault(t[3], []).extend(rest)
        if len(groups) == 1:
            return [(next(iter(groups)), st)]
        for b, g in groups.items():
            s = st.copy()
            if len(l[1]) == 1 and l[1][0][1] in (1, -1):
                ok = s.assume_in(l, iset(*g))
            elif len(g) == 1 and g[0][0] == g[0][1]:
                ok = s.assume_eq((l[0] - g[0][0], l[1]))
            else:
                ok = True
                for x in vals:
                    if (x not in g) and ok:
                        ok = s.assume_ne((l[0] - x[0], l[1]))
            if ok:
                out.append((b, s))
        return out

    # -- calls ----------------------------------------------------------------
    def call(self, ctx, st, t):
        ci = t[1]
        args = [self.operand(ctx, st, o) for o in t[2]]
        dest, tgt = t[3], t[4]
        line = t[5][1]
        dty = self.place_ty(ctx, dest)
        res = self.invoke(ctx, st, ci, args, dty, line)
        if tgt is None:
            return []
        out = []
        for v, s in res:
            self.write(ctx, s, dest, v)
            out.append((tgt, s))
        return out

    def invoke(self, ctx, st, ci, args, dty, line):
        """-> list of (value, state)"""
        if 'ptr' in ci:
            return [(self.fresh(dty, 'fnptr', True), st)]
        path = ci.get('path') or ci['decl']
        h = self.override(path)
        if h is not None:
            r = h(self, ctx, st, ci, args, dty, line)
            if r is not None:
                return r
        self.on_call(ctx, ci, args, st)
        decl = ci['decl']
        if decl.startswith(('std::ops::Fn', 'core::ops::Fn')) and decl.rsplit('::', 1)[-1] in (
                'call_once', 'call_mut', 'call'):
            return self.call_value(ctx, st, args[0], list(args[1][3]) if args[1][0] == 'a' else [], dty, line)
        m = self.model(path, decl)
        if m is not None:
            r = m(self, ctx, st, ci, args, dty, line)
            if r is not None:
                return r
        key = ci.get('key')
        if key is not None and key in self.p.bodies:
            body = self.p.bodies[key]
            if body['spread'] is not None and len(args) == body['spread']:
                # rust-call ABI: last argument is a tuple
                pass
            r = self.enter(ctx, st, key, args, line)
            if r is not None:
                return r
            # recursion
            return self.opaque(ctx, st, ci, args, dty, 'recursion ' + path)
        r = self.ctor(ci, args, dty)
        if r is not None:
            return [(r, st)]
        return self.opaque(ctx, st, ci, args, dty, path)

    def enter(self, ctx, st, key, args, line):
        chain = ctx.chain[:-1] + ((ctx.key, line),)
        save = self.ctx
        r = self.call_key(key, args, st, ctx.depth + 1, chain)
        self.ctx = save
        return r

    def opaque(self, ctx, st, ci, args, dty, name):
        self.on_unmodelled(name)
        for a, i in zip(args, range(len(args))):
            self.havoc_ref(st, a)
        return [(self.fresh(dty, name, True), st)]

    def ctor(self, ci, args, dty):
        t = self.T[dty]
        if t['k'] == 'adt' and 'v' in t:
            nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
            for i, v in enumerate(t['v']):
                if v['n'] == nm and len(v['f']) == len(args) and len(args) > 0 \
                        and (ci.get('path') or ci['decl']).split('<')[0].startswith(t['path'].split('<')[0]):
                    return ('a', dty, i, tuple(args))
        return None

    def call_value(self, ctx, st, f, args, dty, line):
        """call a closure / fn item value"""
        hops = 0
        selfref = f
        while f[0] == 'r' and hops < 4:
            v = self.get(st, f[1], f[2])
            if v is None:
                break
            selfref = f
            f = v
            hops += 1
        if f[0] == 'fn':
            return self.invoke(ctx, st, self.T[f[1]]['fn'], args, dty, line)
        if f[0] in ('a', 's') and self.T[f[1]]['k'] == 'fndef':
            return self.invoke(ctx, st, self.T[f[1]]['fn'], args, dty, line)
        if f[0] in ('a', 's') and self.T[f[1]]['k'] == 'closure':
            t = self.T[f[1]]
            key = t.get('inst')
            if key in self.p.bodies:
                body = self.p.bodies[key]
                a0 = f
                if self.T[body['locals'][1]]['k'] == 'ref':
                    if selfref[0] == 'r':
                        a0 = selfref
                    else:
                        root = ('t', ctx.depth, self.tmpid(ctx))
                        st.mem[root] = f
                        a0 = ('r', root, ())
                r = self.enter(ctx, st, key, [a0] + args, line)
                if r is not None:
                    return r
        self.on_unmodelled('closure value %s' % (f[0],))
        for a in args:
            self.havoc_ref(st, a)
        return [(self.fresh(dty, 'closure', True), st)]

    def tmpid(self, ctx):
        self.tmp += 1
        return self.tmp % 997

    def override(self, path):
        h = self._ov.get(path, 0)
        if h == 0:
            h = None
            for rx, f in self.overrides.items():
                if re.search(rx, path):
                    h = f
                    break
            self._ov[path] = h
        return h

    def model(self, path, decl):
        k = (path, decl)
        m = self._mcache.get(k, 0)
        if m == 0:
            m = self.models.get(path) or self.models.get(decl)
            if m is None:
                for rx, f in self.mrx:
                    if rx.search(path) or rx.search(decl):
                        m = f
                        break
            self._mcache[k] = m
        return m

    # -- joining ------------------------------------------------------------------
    def finish(self, ctx, exits):
        """function exits -> list of (value, state), frame removed"""
        out = []
        d = ctx.depth
        for s in exits:
            v = s.mem.get(('l', d, 0))
            if v is None:
                v = ('a', ctx.body['locals'][0], 0, ())
            n = s
            mem = {}
            for k, x in s.mem.items():
                if k[0] in ('l', 't') and k[1] >= d:
                    continue
                mem[k] = x
            n.mem = mem
            n.mem[('ret', d)] = v
            self.gc(n)
            out.append(n)
        if len(out) > 1:
            out = self.merge_states(out)
            out = self.join_exits(ctx, out, d)
        res = []
        for n in out:
            v = n.mem.pop(('ret', d))
            res.append((v, n))
        return res

    EXITS = 8       # states kept apart per kind of outcome at function exits

    def outcome(self, v, ty):
        """what a caller is likely to branch on"""
        if v[0] == 'a' and self.T[v[1]]['k'] == 'adt' and self.T[v[1]].get('enum'):
            nm = self.vname(v[1], v[2])
            sub = ()
            if nm in ('Ok', 'Some') and v[3]:
                sub = self.outcome(v[3][0], v[3][0][1] if v[3][0][0] == 'a' else None)
            return (v[1], v[2], sub)
        if v[0] == 'i' and not v[2]:
            return v
        if v[0] == 'a' and self.T[v[1]]['k'] == 'tuple':
            return tuple(self.outcome(x, None) for x in v[3])
        return v[0]

    def exit_key(self, st):
        """exit states that differ in this are never joined"""
        return None

    def vname(self, t, i):
        vs = self.T[t].get('v')
        return vs[i]['n'] if vs and i is not None and i < len(vs) else ''

    def join_exits(self, ctx, states, d):
        import match
        groups = {}
        for s in states:
            v = s.mem[('ret', d)]
            g = tuple(sorted((k, 'i' if isint(x) else x)
                             for k, x in s.ghost.items()))
            groups.setdefault((self.outcome(v, None), g, self.exit_key(s)), []).append(s)
        out = []
        for (o, _, _), g in groups.items():
            lim = self.EXITS
            if len(o) == 3 and isinstance(o[0], int) and o[1] == 1 and self.vname(o[0], 1) == 'Err':
                lim = self.ERRS
            if len(g) <= lim:
                out += g
                continue
            res = []
            for s in g:
                if res:
                    j = match.join(self, res[-1], s)
                    if j is not None:
                        res[-1] = j
                        continue
                res.append(s)
            for s in res:
                self.gc(s)
            out += res
        return out

    def gc(self, st):
        """drop unreachable memory, symbols and facts; fold constants"""
        # singletons
        one = None
        for s, d in st.dom.items():
            if len(d) == 1 and d[0][0] == d[0][1]:
                if one is None:
                    one = {}
                one[s] = const(d[0][0])
        if one:
            mem = st.mem
            for k in list(mem):
                v = mem[k]
                if v is not None:
                    mem[k] = subst(v, one)
            if st.facts:
                st.facts = frozenset(g for g in (sub_lin(f, one) for f in st.facts) if g[1])
            if st.ghost:
                st.ghost = {k: (subst(v, one) if isint(v) else v)
                            for k, v in st.ghost.items()}
        # reachability
        if any(k[0] == 'cur' for k in st.mem):
            import models
            models.fold_current(self, st)
        live = set()
        roots = set()
        work = [k for k in st.mem if k[0] in ('l', 'o', 'ret', 't')]
        seen = set(work)
        while work:
            k = work.pop()
            v = st.mem.get(k)
            if v is None:
                continue
            rs = set()
            syms(v, live, rs)
            for r in rs:
                if r not in seen and r in st.mem:
                    seen.add(r)
                    work.append(r)
        for v in st.ghost.values():
            if isint(v):
                syms(v, live, set())
        if len(seen) < len(st.mem):
            st.mem = {k: v for k, v in st.mem.items() if k in seen}
        # links keep their targets alive
        if st.links:
            lk = {}
            for s, l in st.links.items():
                if s in live and s not in (one or ()):
                    lk[s] = l
                    if l[0] == 'fun':
                        live.add(l[1])
                    else:
                        syms(l[1], live, set())
            st.links = lk
        if st.dom:
            st.dom = {s: d for s, d in st.dom.items()
                      if s in live and d != D.RNG[s] and not (d[0][0] == d[-1][1] and s not in KIDS and s not in st.links and False)}
        if st.facts:
            dead = set()
            for f in st.facts:
                for s, _ in f[1]:
                    if s not in live:
                        dead.add(s)
            if dead:
                st.facts = eliminate(st, dead)

    def clean(self, ctx, bb, st):
        """drop dead locals of this frame, then collect"""
        live = ctx.cfg.live[bb]
        addr = ctx.cfg.addr
        d = ctx.depth
        ks = [k for k in st.mem if k[0] == 'l' and k[1] == d and k[2] not in live and k[2] not in addr]
        for k in ks:
            del st.mem[k]
        self.gc(st)

    def merge(self, ctx, bb, states):
        for s in states:
            self.clean(ctx, bb, s)
        out = self.merge_states(states)
        if len(out) > self.MAXSTATES:
            out = self.merge_states(out, True)
            if len(out) > self.MAXSTATES * 4:
                raise Give('too many states in %s' % ctx.body['path'])
        return out

    def key_of(self, st):
        return (frozenset(st.mem.items()), st.facts, frozenset(st.ghost.items()),
                frozenset(st.links.items()))

    def merge_states(self, states, lossy=False):
        """merge states equal up to the domain of one symbol"""
        groups = {}
        order = []
        for s in states:
            k = self.key_of(s)
            g = groups.get(k)
            if g is None:
                groups[k] = [s]
                order.append(k)
                continue
            g.append(s)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            changed = True
            while changed and len(g) > 1:
                changed = False
                res = []
                for s in g:
                    for i, r in enumerate(res):
                        m = self.dom_union(r, s, lossy)
                        if m is not None:
                            res[i] = m
                            changed = True
                            break
                    else:
                        res.append(s)
                g = res
            out += g
        if len(out) > 1:
            out = self.merge_iso(out)
        return out

    def dom_union(self, a, b, lossy):
        da, db = a.dom, b.dom
        diff = []
        for s in set(da) | set(db):
            x = da.get(s) or D.RNG[s]
            y = db.get(s) or D.RNG[s]
            if x != y:
                diff.append((s, x, y))
        if len(diff) > 1:
            if all(subset(y, x) for _, x, y in diff):
                return a
            if all(subset(x, y) for _, x, y in diff):
                return b
            if not lossy:
                return None
        r = a.copy()
        for s, x, y in diff:
            u = union(x, y)
            r.dom[s] = u
        return r

    def merge_iso(self, states):
        """drop states that another one covers up to renaming"""
        import match
        byshape = {}
        for s in states:
            byshape.setdefault(match.shape(s), []).append(s)
        if len(byshape) == len(states):
            return states
        out = []
        for g in byshape.values():
            if len(g) == 1:
                out += g
                continue
            res = []
            for s in g:
                p = match.profile(s)
                if any(match.may_cover(q, p) and match.covers(self, r, s) for r, q in res):
                    continue
                res = [(r, q) for r, q in res if not (match.may_cover(p, q) and match.covers(self, s, r))]
                res.append((s, p))
            out += [r for r, q in res]
        return out

    def fold_vecs(self, st, prev):
        """summarise sequences that vary between the iterations, if nobody
        holds a reference into them"""
        import models
        refs = set()

        def look(v):
            if v is None:
                return
            if v[0] == 'r':
                for i, p in enumerate(v[2]):
                    if p[0] in ('vb', 'vf'):
                        refs.add((v[1], v[2][:i]))
            elif v[0] == 'a':
                for f in v[3]:
                    look(f)
            elif v[0] == 'it':
                for x in v[2:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        look(x)
            elif v[0] == 'vec':
                for f in v[2] + v[5]:
                    look(f)
        for v in st.mem.values():
            look(v)

        def go(v, root, path):
            if v is None:
                return v
            if v[0] == 'vec':
                if (root, path) in refs or not (v[2] or v[5]):
                    return v
                sf = sb = True
                for p in prev:
                    w = self.get(p, root, path)
                    if w is None or w[0] != 'vec':
                        sf = sb = False
                        break
                    if w[3] == (0, ()) and not w[2] and not w[5]:
                        continue
                    sf = sf and w[2] == v[2]
                    sb = sb and w[5] == v[5]
                if sf and sb:
                    return v
                w = v
                if not sb:
                    w = models.fold_back(self, st, w, 0)
                if not sf:
                    for x in w[2]:
                        w = models.add_alt(self, st, ('vec', w[1], w[2][1:], D.ladd(w[3], (1, ())), w[4] if w[3] != (0, ()) else (), w[5]), models.summarise(self, st, x))
                return w
            if v[0] == 'a':
                t = self.T[v[1]]
                vr = v[2] if t['k'] == 'adt' and t.get('enum') else None
                fs = self.p.fields(v[1], v[2] or 0) if t['k'] == 'adt' else None
                return ('a', v[1], v[2], tuple(
                    go(f, root, path + (('f', vr, i, fs[i][1] if fs and i < len(fs) else None),))
                    for i, f in enumerate(v[3])))
            return v
        for k in list(st.mem):
            if st.mem[k] is not None:
                st.mem[k] = go(st.mem[k], k, ())

    def head_key(self, st):
        """states that differ in this are not widened into one"""
        return None

    def loop_head(self, ctx, bb, st):
        import match
        self.clean(ctx, bb, st)
        lst = ctx.heads.setdefault(bb, {})
        if sum(len(x) for x in lst.values()) >= self.FOLD:
            self.fold_vecs(st, [q for x in lst.values() for q in x if q.ghost == st.ghost])
        sh = (match.shape(st), self.head_key(st))
        prev = lst.setdefault(sh, [])
        for p in prev:
            if match.covers(self, p, st):
                return None
        # widen against the most recent state of the same shape that differs
        # by more than constants
        for i, p in enumerate(prev):
            w = match.widen(self, p, st, len(prev) < self.UNROLL)
            if w is not None:
                self.gc(w)
                prev[:] = [q for j, q in enumerate(prev) if j != i and not match.covers(self, w, q)]
                prev.append(w)
                return w.copy()
        if len(prev) > 60:
            raise Give('loop does not stabilise in %s' % ctx.body['path'])
        prev.append(st)
        return st.copy()


def eliminate(st, dead):
    """project facts away from dead symbols (one Fourier-Motzkin step)"""
    facts = set(st.facts)
    for s in dead:
        pos, ng = [], []
        for f in list(facts):
            for x, k in f[1]:
                if x == s:
                    (pos if k > 0 else ng).append((f, k))
                    facts.discard(f)
        if len(pos) * len(ng) <= 12:
            for f, k in pos:
                for g, h in ng:
                    n = ladd(lscale(f, -h), lscale(g, k))
                    if n[1] and st.dhi(n) > 0:
                        facts.add(n)
        # bounds via the interval of s
        d = st.dom.get(s) or D.RNG[s]
        for f, k in pos + ng:
            n = ladd(f, (0, ((s, -k),)))
            n = (n[0] + k * (d[0][0] if k > 0 else d[-1][1]), n[1])
            if len(n[1]) > 1 and st.dhi(n) > 0:
                facts.add(n)
            elif len(n[1]) == 1:
                x = st.copy()
                if x.assume_le(n):
                    st.dom = x.dom
    return frozenset(f for f in facts if not any(s in dead for s, _ in f[1]))


def _hook(name, default=None):
    def f(self, *a):
        return default
    f.__name__ = name
    return f


for _n in ('on_push', 'on_pop', 'on_clear', 'on_extend', 'on_str_push', 'on_str_char', 'on_bytes', 'cb_cleared'):
    setattr(Eng, _n, _hook(_n))


def _consumed(self, ctx, st, c, line):
    return [st]


def _cb_push(self, ctx, st, v, c, line):
    if v[2]:
        return v
    return ('cb', v[1], False, v[3], D.fresh(((0, STEPS),), 'len'))


def _panic_at(self, body, what, line, st, ctx):
    k = (body['path'], what)
    if k not in self.panics:
        self.panics[k] = (line, False, list(ctx.chain))


Eng.cb_strict = _hook('cb_strict', False)
Eng.consumed = _consumed
Eng.cb_push = _cb_push
Eng.panic_at = _panic_at
