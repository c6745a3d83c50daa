"""Which fields of a struct a function may write (itself or through callees).

Flow-insensitive: every place whose type, at some point of the walk, is the
struct counts as that struct, whichever variable it is reached from.
"""


def walk(P, body, place, ST, hit):
    """call hit(field index | None) for every access of the struct on the place"""
    ty = body['locals'][place[0]]
    for el in place[1:]:
        if ty is None:
            return None
        t = P.T[ty]
        if el == '*':
            nt = t.get('to')
            if nt is None and t['k'] == 'adt' and t.get('args'):
                nt = t['args'][0]
            ty = nt
        elif el[0] == 'f':
            if ty in ST:
                hit(el[1])
            ty = el[2]
        elif el[0] in 'ic':
            ty = t.get('to')
    if ty in ST:
        hit(None)
    return ty


class Effects:
    def __init__(self, P, G, ST):
        """ST: set of type ids of the struct"""
        self.P, self.ST = P, ST
        nf = len(P.fields(next(iter(ST))))
        self.all = frozenset(range(nf))
        self.own_w, self.own_r = {}, {}
        for k, b in P.bodies.items():
            w, r = set(), set()

            def wr(f):
                w.update(self.all if f is None else (f,))

            def rd(f):
                r.update(self.all if f is None else (f,))

            def first(fn):
                # only the outermost field of the struct matters
                done = []

                def g(f):
                    if not done:
                        done.append(1)
                        fn(f)
                return g

            def op(o):
                if o[0] in 'cm':
                    walk(P, b, o[1], ST, first(rd))

            def rv(x):
                if x[0] == 'ref':
                    t = walk(P, b, x[1], ST, lambda f: None)
                    whole = t in ST
                    if whole:
                        return        # reborrow of the object itself
                    walk(P, b, x[1], ST, first(rd))
                    if x[2]:
                        walk(P, b, x[1], ST, first(wr))
                    return
                if x[0] == 'disc':
                    walk(P, b, x[1], ST, first(rd))
                    return
                for y in x[1:]:
                    if isinstance(y, list) and y and y[0] in ('c', 'm') and len(y) == 2 and isinstance(y[1], list):
                        op(y)
                    elif isinstance(y, list):
                        for z in y:
                            if isinstance(z, list) and z and z[0] in ('c', 'm') and len(z) == 2 \
                                    and isinstance(z[1], list):
                                op(z)
            for bl in b['blocks']:
                if not bl:
                    continue
                for s in bl['s']:
                    if s[0] == '=':
                        if len(s[1]) > 1:
                            walk(P, b, s[1], ST, first(wr))
                        rv(s[2])
                    elif s[0] == 'sd':
                        walk(P, b, s[1], ST, first(wr))
                t = bl['t']
                if t[0] == 'call':
                    for a in t[2]:
                        op(a)
                    if len(t[3]) > 1:
                        walk(P, b, t[3], ST, first(wr))
                    ci = t[1]
                    if ci.get('key') not in P.bodies:
                        for a in t[2]:
                            if a[0] in 'cm':
                                ty = self.tyof(b, a[1])
                                if ty is not None and self.refers(ty) and not self.harmless(ci):
                                    w.update(self.all)
                elif t[0] == 'switch' or t[0] == 'assert':
                    op(t[1])
            self.own_w[k], self.own_r[k] = w, r
        self.w = self.close(G, self.own_w)
        self.r = self.close(G, self.own_r)

    def harmless(self, ci):
        p = ci.get('path') or ci.get('decl') or ''
        return 'fmt::' in p or p.endswith(('::from_residual', '::branch'))

    def tyof(self, b, place):
        ty = b['locals'][place[0]]
        for el in place[1:]:
            if ty is None:
                return None
            t = self.P.T[ty]
            if el == '*':
                ty = t.get('to') if t.get('to') is not None else (t['args'][0] if t.get('args') else None)
            elif el[0] == 'f':
                ty = el[2]
            elif el[0] in 'ic':
                ty = t.get('to')
        return ty

    def refers(self, ty, depth=0):
        """a mutable reference to the struct"""
        t = self.P.T[ty]
        if t['k'] in ('ref', 'ptr') and depth < 3:
            return t['to'] in self.ST or self.refers(t['to'], depth + 1)
        return False

    def close(self, G, own):
        out = {k: set(v) for k, v in own.items()}
        ch = True
        while ch:
            ch = False
            for k in out:
                n = len(out[k])
                for q in G.edges.get(k, ()):
                    if q in out:
                        out[k] |= out[q]
                if len(out[k]) != n:
                    ch = True
        return out
