"""A failure is reported, not swallowed.

For every call that can fail (it returns Result with the error type of the
crate or with io::Error), the paths on which it did are followed through the
control-flow graph of the caller: what holds the failure (the result, the
error, an aggregate or another result made from them) is tracked from copy to
copy.  Such a path ends well if what is returned holds the failure (or another
error), if the value is kept in an object, or if the call is tried again.
"""
import eng

DROPS = ('::ok', '::unwrap_or', '::unwrap_or_default', '::unwrap_or_else', '::is_ok_and', '::map_or', '::map_or_else', '::iter',
         '::into_iter', '::or', '::or_else')
STOPS = ('::unwrap', '::expect')
LIMIT = 20000


def err_type(P, t):
    x = P.T[t]
    if x['k'] != 'adt' or not x.get('path', '').endswith('result::Result') or len(x.get('args', ())) != 2:
        return False
    e = P.T[x['args'][1]].get('path', '')
    return e == 'error::Error' or e.endswith('io::Error') or e.endswith('io::error::Error')


def is_res(P, t):
    x = P.T[t]
    return x['k'] == 'adt' and x.get('path', '').endswith('result::Result')


class Follow:
    def __init__(self, P, b):
        self.P, self.b, self.bl = P, b, b['blocks']
        self.lost = None

    def value(self, cs, o):
        """what an operand holds of the failure"""
        if o[0] not in 'mc':
            return ('K', o[1]['v'][1]) if o[0] == 'k' and (o[1].get('v') or [None])[0] == 'int' else None
        return self.place(cs, o[1])

    def place(self, cs, p):
        c = cs.get(p[0])
        if c is None:
            return None
        for el in p[1:]:
            if el == '*':
                if c[0] == 'ref':
                    c = c[1]
                continue
            if el[0] == 'v':
                if c[0] == 'V' and el[1] != c[1]:
                    return None
            elif el[0] == 'f':
                if c[0] in ('V', 'A'):
                    c = ('E',) if len(c) < 3 else dict(c[2]).get(el[1])
                    if c is None:
                        return None
        return c

    def rvalue(self, cs, rv, dty):
        k = rv[0]
        if k == 'use':
            return self.value(cs, rv[1])
        if k == 'disc':
            c = self.place(cs, rv[1])
            return ('K', c[1]) if c is not None and c[0] == 'V' else None
        if k in ('ref', 'addr', 'rawptr'):
            c = self.place(cs, rv[1])
            return ('ref', c) if c is not None and c[0] != 'K' else None
        if k == 'cast':
            for o in rv[1:]:
                if isinstance(o, list) and o and o[0] in ('m', 'c'):
                    return self.value(cs, o)
            return None
        if k == 'agg':
            vs = tuple((i, v) for i, v in ((i, self.value(cs, o)) for i, o in enumerate(rv[3])) if v is not None and v[0] != 'K')
            var = rv[2] if isinstance(rv[2], int) else 0
            if self.P.T[dty].get('enum') or is_res(self.P, dty) or self.P.T[dty].get('path', '').startswith(('core::option', 'std::option', 'std::ops', 'core::ops')):
                return ('V', var, vs)
            return ('A', 0, vs) if vs else None
        if k in ('un', 'unop', 'not'):
            c = [self.value(cs, o) for o in rv[1:] if isinstance(o, list)]
            if c and c[0] is not None and c[0][0] == 'K' and 'Not' in str(rv):
                return ('K', 1 - c[0][1])
        return None

    def holds(self, c):
        return c is not None and (c[0] == 'E' or c[0] == 'ref' and self.holds(c[1]) or c[0] == 'V' and (len(c) < 3 or any(self.holds(x) for _, x in c[2])) or
                                  c[0] == 'A' and any(self.holds(x) for _, x in c[2]))

    def good(self, cs):
        """the failure, or some failure, is returned"""
        c = cs.get(0)
        if self.holds(c):
            return True
        if c is not None and c[0] == 'V' and is_res(self.P, self.b['locals'][0]):
            return c[1] == 1
        return c is not None and c[0] == '?'

    def run(self, bb):
        """the paths on which the call that ends block bb fails"""
        t = self.bl[bb]['t']
        dest, nxt = t[3], t[4]
        if nxt is None:
            return
        if len(dest) > 1:
            return
        work = [(nxt, ((dest[0], ('V', 1)),), (nxt,))]
        seen = set()
        while work:
            at, cs, path = work.pop()
            if (at, cs) in seen:
                continue
            seen.add((at, cs))
            if len(seen) > LIMIT:
                self.lost = 'budget'
                return
            cs = dict(cs)
            stop = False
            for s in self.bl[at]['s']:
                if s[0] != '=':
                    continue
                p = s[1]
                v = self.rvalue(cs, s[2], self.b['locals'][p[0]])
                if len(p) == 1:
                    if v is None:
                        cs.pop(p[0], None)
                        if p[0] == 0 and s[2][0] != 'use':
                            cs.pop(0, None)
                    else:
                        cs[p[0]] = v
                elif self.holds(v):
                    if '*' in p:
                        stop = True       # kept in an object
                    else:
                        cs[p[0]] = ('E',)
            if stop:
                continue
            t = self.bl[at]['t']
            k = t[0]
            if k == 'ret':
                if not self.good(cs):
                    yield path
                continue
            out = []
            if k == 'switch':
                c = self.value(cs, t[1])
                tg = [(v, b) for v, b in t[2]]
                if c is not None and c[0] == 'K':
                    hit = [b for v, b in tg if v == c[1]]
                    out = hit or [t[3]]
                else:
                    out = [b for v, b in tg] + [t[3]]
            elif k == 'call':
                ci, args, d, nb = t[1], t[2], t[3], t[4]
                if at == bb:
                    continue              # tried again
                vs = [self.value(cs, o) for o in args]
                path_ = str(ci.get('path') or ci.get('decl'))
                if nb is None:
                    continue
                hold = [v for v in vs if self.holds(v)]
                r = None
                dty = self.b['locals'][d[0]]
                if hold:
                    nm = '::' + path_.rsplit('::', 1)[-1]
                    if nm in STOPS and hold[0][0] == 'V':
                        continue
                    if nm in ('::is_err', '::is_ok'):
                        r = ('K', int(nm == '::is_err'))
                    elif nm in DROPS:
                        r = ('V', 0, ()) if nm == '::ok' else None
                    elif nm == '::err':
                        r = ('V', 1)
                    elif all(v[0] == 'ref' for v in hold):
                        r = ('?',) if d == [0] else None
                        if nm == '::as_ref' or nm == '::as_mut':
                            r = ('V', 1)
                    elif self.P.T[dty].get('enum') or is_res(self.P, dty):
                        r = ('V', 1)
                    else:
                        r = ('E',)
                elif d == [0]:
                    r = ('?',)
                if len(d) == 1:
                    if r is None:
                        cs.pop(d[0], None)
                    else:
                        cs[d[0]] = r
                elif self.holds(r) and '*' in d:
                    continue
                out = [nb]
            else:
                out = eng.succs(t)
            for nb in out:
                if nb is not None:
                    work.append((nb, tuple(sorted(cs.items(), key=repr)), path + (nb,) if len(path) < 40 else path))


def failing(P, rep, tier):
    """C11"""
    rep.rule = ('every path on which a fallible call failed is followed to the return of its caller: what is returned there '
                'holds the failure, or the call is tried again')
    fns = {}
    n = 0
    for k, b in sorted(P.bodies.items()):
        if not b['local'] or 'promoted' in k:
            continue
        F = Follow(P, b)
        for i, bl in enumerate(b['blocks']):
            if not bl or bl['t'][0] != 'call':
                continue
            t = bl['t']
            if t[4] is None or len(t[3]) > 1 or not err_type(P, b['locals'][t[3][0]]):
                continue
            ci = t[1]
            p = str(ci.get('path') or ci.get('decl'))
            if p.endswith(('from_residual', '::map_err', '::map', '::and_then', '::and', '::or_else', '::into', '::from', '::or', '::from_output')) \
                    and not ci.get('local'):
                continue
            n += 1
            fns[b['path']] = fns.get(b['path'], 0) + 1
            bad = next(F.run(i), None)
            if F.lost:
                rep.undec('%s:%s' % (b['path'], p), F.lost)
                F.lost = None
                continue
            nm = 'lost:%s:%s' % (b['path'], p.split('<')[0] + p.rsplit('::', 1)[-1])
            rep.check(bad is None, nm, 'a failure of %s is reported by %s' % (p, b['path']) if bad is None else
                      '%s can return as if nothing had happened after %s failed (blocks %s)' % (b['path'], p, '>'.join(map(str, bad[:12]))))
    rep.say('%d fallible calls in %d functions' % (n, len(fns)))
    rep.check(n >= 100, 'calls', '%d fallible calls' % n)
    rep.analysed(fns)
