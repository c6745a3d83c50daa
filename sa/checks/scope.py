"""Typestate of fields that belong to one document: empty again on every exit."""
import effects
import eng
import graph

EMPTIES = ('::clear', '::take', 'mem::take')
KEEPS = ('::reserve', '::len', '::is_empty', '::iter', '::as_slice', '::deref', '::as_ref', '::shrink_to_fit', '::capacity',
         '::last', '::first', '::get', '::reserve_exact')


class Field:
    """may a field be left in use: the effect of every function, as (if empty before, if in use before)"""

    def __init__(self, P, G, ST, f):
        self.P, self.G, self.ST, self.f = P, G, ST, f
        self.E = effects.Effects(P, G, ST)
        self.sum = {}
        self.touch = {k for k in P.bodies if f in self.E.w[k]}
        self.why = {}
        ch = True
        n = 0
        while ch:
            ch = False
            n += 1
            for k in sorted(self.touch):
                r = self.flow(k)
                if r != self.sum.get(k):
                    self.sum[k] = r
                    ch = True

    def target(self, b, place):
        """does the place name the field itself (True), something in it or all of the object ('part'), or neither"""
        hits = []
        effects.walk(self.P, b, place, self.ST, hits.append)
        if not hits:
            return None
        if hits[0] is None:
            return 'all'
        if hits[0] != self.f:
            return None
        # the projection that selects the field is the last one
        ty = b['locals'][place[0]]
        for j, el in enumerate(place[1:], 1):
            t = self.P.T[ty] if ty is not None else None
            if el == '*':
                nt = t.get('to')
                ty = nt if nt is not None else (t['args'][0] if t.get('args') else None)
            elif el[0] == 'f':
                if ty in self.ST:
                    return 'field' if j == len(place) - 1 else 'part'
                ty = el[2]
            elif el[0] in 'ic':
                ty = t.get('to')
        return 'part'

    def fresh_value(self, b, defs, o, depth=0):
        """is the operand the value of a new object (empty, or zero)"""
        if o[0] == 'k':
            v = o[1].get('v')
            return v == ['int', 0]
        if o[0] in 'cm' and len(o[1]) == 1 and depth < 4:
            d = defs.get(o[1][0])
            if d is None or len(d) != 1:
                return False
            return self.fresh_def(b, defs, d[0], depth + 1)
        return False

    def fresh_def(self, b, defs, d, depth):
        if d[0] == 'call':
            p = d[1].get('path') or d[1].get('decl') or ''
            return p.endswith(('Vec::<T>::new', '::new', '::default', 'Default>::default')) or \
                p.endswith('::with_capacity')
        if d[0] == 'rv' and d[1][0] == 'use':
            return self.fresh_value(b, defs, d[1][1], depth)
        return False

    def flow(self, k, made=None):
        """made: only returns after a statement satisfying it count"""
        P = self.P
        b = P.bodies[k]
        defs = {}
        refs = {}
        for bl in b['blocks']:
            if not bl:
                continue
            for s in bl['s']:
                if s[0] == '=' and len(s[1]) == 1:
                    defs.setdefault(s[1][0], []).append(('rv', s[2]))
            t = bl['t']
            if t[0] == 'call' and len(t[3]) == 1 and isinstance(t[1], dict):
                defs.setdefault(t[3][0], []).append(('call', t[1]))
        for l, d in defs.items():
            if len(d) == 1 and d[0][0] == 'rv' and d[0][1][0] == 'ref' and d[0][1][2]:
                w = self.target(b, d[0][1][1])
                if w in ('field', 'part'):
                    refs[l] = w
        # reborrows of such a reference
        ch = True
        while ch:
            ch = False
            for l, d in defs.items():
                if l in refs or len(d) != 1 or d[0][0] != 'rv':
                    continue
                x = d[0][1]
                src = None
                if x[0] == 'ref' and x[1][0] in refs:
                    src = x[1]
                elif x[0] == 'use' and x[1][0] in 'cm' and x[1][1][0] in refs:
                    src = x[1][1]
                if src is not None:
                    refs[l] = refs[src[0]] if src[1:] in ([], ['*']) else 'part'
                    ch = True
        out = []
        for start in (False, True):
            at = {0: {(start, made is None)}}
            work = [0]
            res = set()
            while work:
                i = work.pop()
                for s, m in sorted(at[i]):
                    bl = b['blocks'][i]
                    for q in bl['s']:
                        m = m or made(q)
                        s = self.stmt(b, defs, refs, q, s)
                    t = bl['t']
                    if t[0] == 'ret':
                        if m:
                            res.add(s)
                        continue
                    s = self.term(b, refs, t, s)
                    if s is None:
                        continue
                    for n in eng.succs(t):
                        if n is not None and (s, m) not in at.setdefault(n, set()):
                            at[n].add((s, m))
                            work.append(n)
            out.append(frozenset(res))
        return tuple(out)

    def stmt(self, b, defs, refs, q, s):
        if q[0] != '=':
            return s
        w = self.target(b, q[1]) if len(q[1]) > 1 else None
        if len(q[1]) > 1 and w is None and q[1][0] in refs:
            w = 'field' if refs[q[1][0]] == 'field' and q[1][1:] == ['*'] else 'part'
        if w == 'field':
            ok = q[2][0] == 'use' and self.fresh_value(b, defs, q[2][1])
            return False if ok else True
        if w == 'part':
            return True
        if w == 'all':
            ok = q[2][0] == 'use' and self.fresh_value(b, defs, q[2][1])
            return False if ok else True
        return s

    def term(self, b, refs, t, s):
        if t[0] != 'call':
            return s
        ci = t[1] if isinstance(t[1], dict) else {}
        key = ci.get('key')
        p = ci.get('path') or ci.get('decl') or '?'
        mine = [refs[a[1][0]] for a in t[2] if a[0] in 'cm' and a[1][0] in refs]
        if key in self.P.bodies and not mine:
            if key in self.touch:
                sm = self.sum.get(key)
                if sm is None:
                    return None     # not known yet
                r = sm[1 if s else 0]
                if not r:
                    return None     # never returns
                s = True in r
        elif mine:
            if p.endswith(EMPTIES) and mine[0] == 'field':
                s = False
            elif p.endswith('::truncate') and len(t[2]) == 2 and t[2][1][0] == 'k' and t[2][1][1].get('v') == ['int', 0]:
                s = False
            elif p.endswith(KEEPS) and not p.endswith(('_mut',)):
                pass
            else:
                s = True
        elif any(a[0] in 'cm' and self.E.refers(self.E.tyof(b, a[1])) for a in t[2]
                 if a[0] in 'cm' and self.E.tyof(b, a[1]) is not None) and not self.E.harmless(ci):
            s = True
        if len(t[3]) > 1:
            w = self.target(b, t[3])
            if w in ('field', 'all'):
                s = not p.endswith(('::new', '::default', '::with_capacity'))
            elif w == 'part':
                s = True
        return s


def scoped(P, G, ST, names):
    """the fields only the loading or dumping of a document uses"""
    E = effects.Effects(P, G, ST)
    fs = P.fields(next(iter(ST)))
    own = set()
    for k, b in P.bodies.items():
        if b['local'] and b['path'].startswith('document'):
            own |= E.own_w[k]
    own = {i for i in own if len(own) < len(fs) and (P.T[fs[i][1]]['k'] == 'int' or P.T[fs[i][1]].get('path', '').endswith('::Vec'))}
    own |= {i for i, (n, t) in enumerate(fs) if n in names}
    return sorted(own)


def scope(P, rep, tier):
    """C13"""
    rep.rule = ('typestate over the control-flow graphs: the fields of the parser and the emitter that only loading and dumping '
                'a document uses are empty whenever a public function returns, provided they were when it was called; effects '
                'of callees are summarised, every path to a return counts, error paths included')
    G = graph.Graph(P)
    n = 0
    for path, names, least in (('parser::ParserInner', ('aliases',), 1), ('emitter::Emitter', ('anchors', 'last_anchor_id'), 2)):
        ST = {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == path}
        if not ST:
            # the state of the parser may live in the parser itself
            ST = {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == path.replace('Inner', '')}
        if not ST:
            raise eng.Anchor(path)
        fs = P.fields(next(iter(ST)))
        mine = scoped(P, G, ST, names)
        rep.check(len(mine) >= least, 'fields:%s' % path, 'only %d document fields of %s' % (len(mine), path))
        for f in mine:
            F = Field(P, G, ST, f)
            for k in sorted(F.touch):
                b = P.bodies[k]
                rep.fns[b['path']] = rep.fns.get(b['path'], 0) + len(b['blocks'])
                if not b['pub'] or not b['local']:
                    continue
                n += 1
                r = F.sum[k]
                rep.check(True not in r[0], '%s:%s' % (fs[f][0], b['path']),
                          '%s can return with the field %s of %s still in use' % (b['path'], fs[f][0], path))
                if '::reset' in b['path']:
                    rep.check(True not in r[1], '%s:%s:again' % (fs[f][0], b['path']),
                              '%s leaves the field %s of %s in use' % (b['path'], fs[f][0], path))
            # something must be using it, or the rule says nothing
            rep.check(any(True in F.sum[k][0] for k in F.touch), 'used:%s' % fs[f][0],
                      'nothing puts the field %s of %s to use' % (fs[f][0], path))
    # tag directives hold for one document: the parser forgets them when it reports the end of the document
    ED = P.adt('event::EventData')
    vi = [v['n'] for v in P.T[ED]['v']].index('DocumentEnd')
    ends = lambda q: q[0] == '=' and q[2][0] == 'agg' and len(q[2]) > 4 and \
        q[2][4] == ED and q[2][2] == vi
    for path in ('parser::ParserInner', 'parser::Parser'):
        ST = {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == path}
        fs = P.fields(next(iter(ST))) if ST else ()
        f = [i for i, (n_, t) in enumerate(fs) if P.T[t].get('path', '').endswith('::Vec') and
             P.T[P.T[t]['args'][0]].get('path', '').endswith('TagDirective')]
        if f:
            break
    rep.check(len(f) == 1, 'directives', 'the tag directives of the parser')
    m = 0
    for i in f:
        F = Field(P, G, ST, i)
        for k, b in P.bodies.items():
            if not b['local'] or not b['path'].startswith('parser') or \
                    not any(ends(q) for bl in b['blocks'] if bl for q in bl['s']):
                continue
            m += 1
            r = F.flow(k, ends)
            rep.check(r[0] and True not in r[0] | r[1], 'directives:%s' % b['path'],
                      '%s reports the end of a document and keeps its tag directives' % b['path'])
    rep.check(m >= 1, 'ends', 'no function of the parser reports the end of a document')
    rep.check(n >= 5, 'coverage', 'only %d public functions touch these fields' % n)
    rep.say('%d public functions' % n)
