"""Documents as trees: one event at a time into the tree, one node at a time out of it."""
import common
import dom as D
import eng
import graph
import models
import val
from state import State
from val import I, lin

DEFAULTS = {'Scalar': 'str', 'SequenceStart': 'seq', 'MappingStart': 'map'}
PARSE = r'^parser::Parser::<.*>::parse$'


class CEng(eng.Eng):
    UNROLL = 2
    EXITS = 4000
    ERRS = 4000
    STRLIM = 40

    def setup(self):
        P = self.p
        self.EV, self.ED = P.adt('event::Event'), P.adt('event::EventData')
        self.hooks = {}
        self.seen_end = []

    def enter(self, ctx, st, key, args, line):
        h = self.hooks.get(key)
        if h is not None:
            return h(ctx, st, key, args, line)
        return eng.Eng.enter(self, ctx, st, key, args, line)

    def limit(self, key):
        """loops that call this function end because the function is only supplied so often"""
        g = graph.Graph(self.p)
        self.hooked = {k for k in self.p.bodies if key in g.reach([k])}
        self.around = {}

    def loop_head(self, ctx, bb, st):
        k = ctx.key, bb
        if k not in self.around:
            bl = ctx.body['blocks']
            ts = [bl[i]['t'] for i in ctx.cfg.loop.get(bb, ()) if bl[i]]
            self.around[k] = any(t[0] == 'call' and isinstance(t[1], dict) and t[1].get('key') in self.hooked for t in ts)
        if self.around[k]:
            self.clean(ctx, bb, st)
            return st
        return eng.Eng.loop_head(self, ctx, bb, st)

    def on_panic(self, ctx, what, line, st, taint):
        self.panics.setdefault((ctx.body['path'], what), (line, taint, dict(st.ghost)))

    def head_key(self, st):
        return tuple(sorted(st.ghost.items(), key=repr))

    exit_key = head_key


def event(e, st, kind, given):
    """an event of this kind with named, unknown contents"""
    P = e.p
    vi = [v['n'] for v in P.T[e.ED]['v']].index(kind)
    fs = []
    for n, t in P.fields(e.ED, vi) or ():
        if P.T[t]['k'] == 'adt' and P.T[t]['path'].endswith('option::Option') and n in ('anchor', 'tag'):
            if given.get(n):
                p = e.fresh(P.T[t]['args'][0], n)
                D.LABEL[p[2]] = n
                v = ('a', t, 1, (p,))
            else:
                v = ('a', t, 0, ())
        else:
            v = e.fresh(t, n)
            if v[0] in 'sS' and P.T[t].get('path', '').endswith('String'):
                D.LABEL[v[2]] = n
        fs.append(v)
    o = [None] * len(P.fields(e.EV))
    for i, (n, t) in enumerate(P.fields(e.EV)):
        o[i] = ('a', e.ED, vi, tuple(fs)) if n == 'data' else e.expand(e.fresh(t, n))
    return ('a', e.EV, 0, tuple(o))


def places(e, st, want):
    """every vector outside other vectors whose type satisfies want: list of (root, path, value)"""
    out = []

    def go(v, root, path):
        if v is None or not isinstance(v, tuple) or not v:
            return
        if v[0] == 's' and models.is_vecty(e.T[v[1]]) and want(v[1]):
            out.append((root, path, models.as_vec(e, st, v)))
        elif v[0] == 'vec' and want(v[1]):
            out.append((root, path, v))
        elif v[0] == 's' and e.T[v[1]]['k'] == 'adt' and e.T[v[1]].get('local') and len(e.T[v[1]].get('v') or ()) == 1:
            go(e.expand(v), root, path)
        elif v[0] == 'a':
            t = e.T[v[1]]
            fs = e.p.fields(v[1], v[2] or 0) if t['k'] == 'adt' else None
            for i, f in enumerate(v[3]):
                vr = v[2] if t['k'] == 'adt' and len(t.get('v') or ()) > 1 else None
                go(f, root, path + (('f', vr, i, fs[i][1] if fs and i < len(fs) else None),))
    for k in sorted(st.mem, key=repr):
        if k[0] in 'lo':
            go(st.mem[k], k, ())
    return out


def alts(a):
    """what the elements in the middle of a vector may be, whatever they are called"""
    def go(v):
        if v[0] == 's':
            return v[:2]
        if v[0] == 'a':
            return v[:3] + tuple(go(x) for x in v[3])
        if v[0] == 'i':
            return ('i', v[1], tuple((D.RNG[s], k) for s, k in v[2]))
        return v[:1]
    return sorted((go(x[0]) for x in a), key=repr)


BIG = 1 << 30


def same(e, st, a, b):
    """the values are equal, as far as can be proved"""
    if a == b:
        return True
    if a is None or b is None:
        return False
    if a[0] == 's' and b[0] == 'a' and a[1] == b[1]:
        a = e.expand(a, b[2] or 0)
    if b[0] == 's' and a[0] == 'a' and a[1] == b[1]:
        b = e.expand(b, a[2] or 0)
    if a[0] == 'i' and b[0] == 'i':
        l = D.lsub(lin(a), lin(b))
        return st.lo(l) == 0 == st.hi(l)
    if a[0] == 'a' and b[0] == 'a':
        return a[1] == b[1] and (a[2] or 0) == (b[2] or 0) and len(a[3]) == len(b[3]) and \
            all(same(e, st, x, y) for x, y in zip(a[3], b[3]))
    if a[0] in ('S', 's', 'cstr') and b[0] in ('S', 's', 'cstr'):
        return models.strval(e, st, a) == models.strval(e, st, b)
    if a[0] == 'vec' or b[0] == 'vec':
        a, b = models.as_vec(e, st, a), models.as_vec(e, st, b)
        return a[0] == b[0] == 'vec' and a[3] == b[3] and alts(a[4]) == alts(b[4]) and len(a[2]) == len(b[2]) and len(a[5]) == len(b[5]) and \
            all(same(e, st, x, y) for x, y in zip(a[2] + a[5], b[2] + b[5]))
    return False


def grown(b, a, n):
    """the vector b is a with n more elements at the end"""
    return b[0] == a[0] == 'vec' and a[2:4] == b[2:4] and alts(a[4]) == alts(b[4]) and len(b[5]) == len(a[5]) + n


class Load:
    """one event into the tree"""

    def __init__(self, P, table=None):
        common.reset()
        self.P = P
        self.table = table      # how many other anchors there are; None: any number
        e = self.e = CEng(P)
        e.setup()
        if table is not None:
            e.UNROLL = table + 4
        e.distinct = True
        self.N, self.ND, self.DOC = P.adt('document::Node'), P.adt('document::NodeData'), P.adt('document::Document')
        self.key = P.one(r'^document::Document::load$')
        self.parse = P.one(PARSE)
        self.bad, self.good = [], 0
        self.atypes = {P.T[i]['args'][0] for i, x in enumerate(P.T) if models.is_vecty(x) and self.is_alias(i)}
        e.hooks[self.parse] = self.supply
        e.limit(self.parse)

    def fail(self, key, text):
        self.bad.append((key, text))

    def is_nodes(self, t):
        return self.P.T[t].get('args', [None])[0] == self.N

    def is_ctx(self, t):
        a = self.P.T[t].get('args', [None])[0]
        return a is not None and self.P.T[a]['k'] == 'int' and self.P.T[a]['s'] != 'u8'

    def is_alias(self, t):
        a = self.P.T[t].get('args', [None])[0]
        x = self.P.T[a] if a is not None else {}
        return bool(x.get('local') and x['k'] == 'adt' and x.get('v') and len(x['v']) == 1 and self.alias_parts(a))

    def alias_parts(self, t):
        """which field is the name, which the index of the node"""
        T = [self.P.T[ft] for _, ft in self.P.fields(t)]
        names = [i for i, x in enumerate(T) if x.get('path', '').endswith('string::String')]
        ints = [i for i, x in enumerate(T) if x['k'] == 'int']
        return (names[0], ints[0]) if len(names) == 1 and len(ints) == 1 else None

    def data(self, ev):
        return ev[3][self.P.field_index(self.e.EV, 'data')]

    def part(self, ev, n):
        d = self.data(ev)
        return d[3][self.P.field_index(self.e.ED, n, d[2])]

    def mark(self, ev, n):
        return ev[3][self.P.field_index(self.e.EV, n)]

    def supply(self, ctx, st, key, args, line):
        e, P = self.e, self.P
        dty = P.bodies[key]['locals'][0]
        okt, ert = P.T[dty]['args']
        n = st.ghost['n']
        out = []

        def give(q, kind, given, n, name):
            ev = event(e, q, kind, given)
            q.mem[('o', name)] = ev
            q.ghost = dict(q.ghost, n=n)
            out.append((('a', dty, 0, (ev,)), q))
        if n == 2:
            self.step(st)
            return []
        er = st.copy()
        er.ghost = dict(er.ghost, err=n)
        x = e.fresh(ert, 'err')
        er.mem[('o', 'error')] = x
        out.append((('a', dty, 1, (x,)), er))
        if n == 0:
            if not st.ghost['start']:
                q = st.copy()
                q.ghost = dict(q.ghost, start=True)
                give(q, 'StreamStart', {}, 0, 'ss')
            for k in ('StreamEnd', 'DocumentStart'):
                q = st.copy()
                q.ghost = dict(q.ghost, last=k)
                give(q, k, {}, 1, 'ds')
            return out
        if self.kind == 'none':
            return out
        q = st.copy()
        if not self.arrange(q):
            raise eng.Anchor('the nodes of the document being loaded')
        kind, given = self.kind, self.given
        give(q, kind, given, 2, 'ev')
        ev = q.mem[('o', 'ev')]
        if self.anchor in (1, 2):
            # an anchor that has been seen before
            i = P.field_index(e.ED, 'anchor', self.data(ev)[2])
            d = list(self.data(ev)[3])
            s = q.mem[('o', 'A%d' % self.anchor)]
            d[i] = s if kind == 'Alias' else d[i][:3] + ((s,),)
            o = list(ev[3])
            o[P.field_index(e.EV, 'data')] = self.data(ev)[:3] + (tuple(d),)
            ev = ev[:3] + (tuple(o),)
            q.mem[('o', 'ev')] = ev
            out[-1] = (('a', dty, 0, (ev,)), q)
        return out

    def node(self, kind, last=None):
        e, P = self.e, self.P
        v = e.expand(e.fresh(self.N, 'node'))
        fs = list(v[3])
        di = P.field_index(self.N, 'data')
        vi = [x['n'] for x in P.T[self.ND]['v']].index(kind)
        d = []
        for n, t in P.fields(self.ND, vi):
            if n == 'pairs':
                PT = P.T[t]['args'][0]
                it = P.fields(PT)[0][1]
                mk = lambda z: ('a', PT, 0, tuple(
                    I(0) if n == 'value' and z else e.fresh_int(((1, BIG),), n) for n, _ in P.fields(PT)))
                m = D.fresh(((0, BIG),), 'npairs')
                old = mk(False)
                o = set()
                val.syms(old, o, set())
                back = () if last is None else (mk(last == 'open'),)
                d.append(('vec', t, (), (0, ()) if last is None else D.var(m), () if last is None else ((old, frozenset(o), (), ()),), back))
            else:
                d.append(e.fresh(t, n))
        fs[di] = ('a', self.ND, vi, tuple(d))
        return v[:3] + (tuple(fs),)

    def arrange(self, st):
        """somewhere in the middle of a document"""
        e, P = self.e, self.P
        ns = places(e, st, self.is_nodes)
        cs = [x for x in places(e, st, self.is_ctx) if x[0] != ('o', 'p')]
        al = places(e, st, self.is_alias)
        if not ns or len(cs) != 1 or len(al) != 1:
            return False
        n = D.fresh(((0, BIG),), 'nnodes')
        parent = self.parent
        if parent is None:
            back, count = (), 0
            if self.kind in ('DocumentEnd', 'Alias'):
                back = (self.node('Scalar'),)
        else:
            back = (self.node(*parent), e.expand(e.fresh(self.N, 'later')))
        NT = ns[0][2][1]
        w = ('vec', NT, (), D.var(n) if back else (0, ()), (models.top_alt(e, self.N),) if back else (), back)
        for root, path, v in ns:
            e.put(st, root, path, w)
        root, path, v = cs[0]
        it = P.T[v[1]]['args'][0]
        el = D.fresh(((1, BIG),), 'ctx')
        m = D.fresh(((0, BIG),), 'depth')
        if parent is None:
            c = ('vec', v[1], (), (0, ()), (), ())
        else:
            c = ('vec', v[1], (), D.var(m), ((('i', 0, ((el, 1),)), frozenset([el]), (), ()),), (('i', 1, ((n, 1),)),))
        e.put(st, root, path, c)
        root2, path2, v2 = al[0]
        AT = P.T[v2[1]]['args'][0]
        known = []
        for j in (1, 2):
            x = e.expand(e.fresh(AT, 'alias'))
            fs = list(x[3])
            ni, ii = self.alias_parts(AT)
            fs[ii] = e.fresh_int(((1, BIG),), 'index%d' % j)
            st.mem[('o', 'I%d' % j)] = fs[ii]
            st.mem[('o', 'A%d' % j)] = fs[ni]
            known.append(x[:3] + (tuple(fs),))
        k = D.fresh(((0, BIG),), 'nalias')
        if self.table is None:
            e.put(st, root2, path2, ('vec', v2[1], (), D.var(k), (models.top_alt(e, AT),), tuple(known)))
        else:
            e.put(st, root2, path2, ('vec', v2[1], (), (0, ()), (), tuple(
                e.expand(e.fresh(AT, 'alias')) for _ in range(self.table)) + tuple(known)))
        st.mem[('o', 'n0')] = e.get(st, ns[0][0], ns[0][1])
        st.mem[('o', 'c0')] = e.get(st, root, path)
        st.mem[('o', 'a0')] = e.get(st, root2, path2)
        self.pn, self.pc, self.pa = [x[:2] for x in ns], (root, path), (root2, path2)
        return True

    # -- what one event has done to the tree
    def step(self, st):
        e, P = self.e, self.P
        self.good += 1
        k = self.kind
        ev = st.mem[('o', 'ev')]
        ns = [models.as_vec(e, st, e.get(st, *p)) for p in self.pn]
        n0 = st.mem[('o', 'n0')]
        new = next((x for x in ns if x is not None and x[0] == 'vec' and x != n0), n0)
        c1, c0 = models.as_vec(e, st, e.get(st, *self.pc)), st.mem[('o', 'c0')]
        a1, a0 = models.as_vec(e, st, e.get(st, *self.pa)), st.mem[('o', 'a0')]
        old = models.vlen(n0)
        idx = ('i', old[0] + 1, old[1])
        if k == 'DocumentEnd':
            self.fail('end', 'the document goes on after its end')
            return
        added = k in ('Scalar', 'SequenceStart', 'MappingStart')
        if new[0] != 'vec' or new[3] != n0[3] or alts(new[4]) != alts(n0[4]) or len(new[5]) != len(n0[5]) + added or new[2] != n0[2]:
            self.fail('nodes', 'the event %s does not add %s node' % (k, 'exactly one' if added else 'no'))
            return
        if added:
            self.new(st, ev, new[5][-1])
        # the collection around it
        for j, x in enumerate(n0[5]):
            y = new[5][j]
            if j == 0 and self.parent:
                self.around(st, ev, x, y, idx if added else st.mem[('o', 'I%d' % self.anchor)] if k == 'Alias' and self.anchor < 3 else None)
            elif not same(e, st, x, y):
                self.fail('others', 'the event %s changes a node that has nothing to do with it' % k)
        # the collections that are open
        if k in ('SequenceStart', 'MappingStart'):
            ok = grown(c1, c0, 1) and c1[5][:-1] == c0[5] and same(e, st, c1[5][-1], idx)
        elif k in ('SequenceEnd', 'MappingEnd'):
            ok = grown(c1, c0, -1) and c1[5] == c0[5][:-1]
        else:
            ok = same(e, st, c1, c0)
        if not ok:
            self.fail('open', 'after the event %s the collections that are open are not the right ones' % k)
        # anchors
        if added and self.anchor:
            ok = self.anchor == 3 and grown(a1, a0, 1) and \
                all(same(e, st, x, y) for x, y in zip(a1[5], a0[5]))
            if ok:
                x = a1[5][-1]
                ni, ii = self.alias_parts(x[1])
                ok = same(e, st, x[3][ii], idx) and same(e, st, x[3][ni], self.part(ev, 'anchor')[3][0])
            if self.anchor != 3:
                self.fail('duplicate', 'the same anchor can be defined twice')
            elif not ok:
                self.fail('anchor', 'the anchor of a node is not recorded with the index of that node')
        elif not same(e, st, a1, a0):
            self.fail('anchors', 'the event %s changes the anchors of the document' % k)
        if k == 'Alias' and self.anchor == 3:
            self.fail('undefined', 'an alias of an anchor that is not defined is accepted')

    def new(self, st, ev, y):
        e, P = self.e, self.P
        k = self.kind
        nm = {'Scalar': 'Scalar', 'SequenceStart': 'Sequence', 'MappingStart': 'Mapping'}[k]
        y = e.expand(y) if y[0] == 's' else y
        f = lambda n: y[3][P.field_index(self.N, n)]
        d = f('data')
        if d[0] != 'a' or e.vname(self.ND, d[2]) != nm:
            self.fail('kind', 'the event %s does not make a node of that kind' % k)
            return
        for n, t in P.fields(self.ND, d[2]):
            x = d[3][P.field_index(self.ND, n, d[2])]
            if n in ('items', 'pairs'):
                w = models.as_vec(e, st, x)
                l = models.vlen(w) if w[0] == 'vec' else None
                if l is None or st.hi(l) != 0:
                    self.fail('empty', 'a new collection is not empty')
            elif not same(e, st, x, self.part(ev, n)):
                self.fail('part:%s' % n, 'the %s of a node is not that of the event %s' % (n, k))
        for n in ('start_mark', 'end_mark'):
            if not same(e, st, f(n), self.mark(ev, n)):
                self.fail(n, 'the %s of a node is not that of the event %s' % (n, k))
        tag, was = f('tag'), self.part(ev, 'tag')
        default = 'tag:yaml.org,2002:' + DEFAULTS[k]
        some = tag[0] == 'a' and e.vname(tag[1], tag[2]) == 'Some'
        got = models.strval(e, st, tag[3][0]) if some else None
        if got is not None and got[1] == default:
            # only a node without a tag of its own gets the default
            if was[2] and self.is_bang(st, was[3][0]) is not True:
                self.fail('tag', 'a node with a tag gets the default tag')
        elif got is None or not was[2] or got != models.strval(e, st, was[3][0]):
            self.fail('tag', 'the tag of a node is not that of the event %s' % k)
        elif self.is_bang(st, was[3][0]) is not False:
            self.fail('tag', 'a node with the tag "!" does not get the default tag')

    def is_bang(self, st, s):
        return st.decide(models.str_eq(self.e, st, models.strval(self.e, st, s), ('cstr', '!', None)))

    def around(self, st, ev, x, y, idx):
        """the collection the node is in"""
        e, P = self.e, self.P
        k = self.kind
        f = lambda v, n: v[3][P.field_index(self.N, n)]
        for n in ('tag', 'start_mark', 'end_mark'):
            if n == 'end_mark' and k in ('SequenceEnd', 'MappingEnd'):
                if not same(e, st, f(y, n), self.mark(ev, 'end_mark')):
                    self.fail('close', 'the end of a collection is not recorded in its node')
            elif not same(e, st, f(x, n), f(y, n)):
                self.fail('around:%s' % n, 'the event %s changes the %s of the collection around it' % (k, n))
        d0, d1 = f(x, 'data'), f(y, 'data')
        if d1[0] != 'a' or d0[2] != d1[2]:
            self.fail('around:kind', 'the event %s changes the kind of the collection around it' % k)
            return
        for n, t in P.fields(self.ND, d0[2]):
            i = P.field_index(self.ND, n, d0[2])
            a, b = d0[3][i], d1[3][i]
            if n == 'items' and idx is not None:
                a, b = models.as_vec(e, st, a), models.as_vec(e, st, b)
                ok = grown(b, a, 1) and b[5][:-1] == a[5] and \
                    same(e, st, b[5][-1], idx)
                if not ok:
                    self.fail('item', 'the node is not added once, and last, to the sequence it is in')
            elif n == 'pairs' and idx is not None:
                PT = P.T[t]['args'][0]
                ki, vi = P.field_index(PT, 'key'), P.field_index(PT, 'value')
                ok = b[0] == 'vec'
                if ok and self.parent[1] == 'open':
                    ok = grown(b, a, 0) and all(same(e, st, p, q) for p, q in zip(a[5][:-1], b[5][:-1])) and \
                        same(e, st, b[5][-1][3][ki], a[5][-1][3][ki]) and same(e, st, b[5][-1][3][vi], idx)
                elif ok:
                    ok = grown(b, a, 1) and all(same(e, st, p, q) for p, q in zip(a[5], b[5])) and \
                        same(e, st, b[5][-1][3][ki], idx) and same(e, st, b[5][-1][3][vi], I(0))
                if not ok:
                    self.fail('pair:%s' % self.parent[1], 'the node does not become the %s of the mapping it is in' % (
                        'value of the last key' if self.parent[1] == 'open' else 'next key'))
            elif not same(e, st, a, b):
                self.fail('around:%s' % n, 'the event %s changes the %s of the collection around it' % (k, n))

    def run(self, kind, parent, given, anchor):
        """parent: None, ('Sequence',), ('Mapping', 'open'|'full'|None)"""
        e, P = self.e, self.P
        self.kind, self.parent, self.given, self.anchor = kind, parent, given, anchor
        st = State()
        st.ghost = {'n': 0, 'start': False, 'err': None, 'last': None}
        l = P.bodies[self.key]['locals'][1]
        st.mem[('o', 'p')] = e.expand(e.fresh(P.T[l]['to'], 'parser'))
        res = []
        for v, s in e.call_key(self.key, [('r', ('o', 'p'), ())], st, 0, ()):
            res.append((v, s))
        return res

    def finish(self, res):
        """what is returned"""
        e, P = self.e, self.P
        k = self.kind
        wrong = self.anchor == 3 if k == 'Alias' else self.anchor in (1, 2)
        seen = {'error': 0, 'document': 0, 'none': 0, 'refused': 0}
        for v, st in res:
            if v[0] != 'a':
                self.fail('result', 'what is returned is not known')
                continue
            g = st.ghost
            if e.vname(v[1], v[2]) == 'Err':
                if g['err'] is not None:
                    seen['error'] += 1
                    if not same(e, st, v[3][0], st.mem[('o', 'error')]):
                        self.fail('error', 'the error that is returned is not the one the parser has returned')
                elif g['n'] == 2 and wrong:
                    seen['refused'] += 1
                    self.refused(st, v[3][0])
                else:
                    self.fail('refuse', 'a document is refused because of the event %s' % k)
                continue
            d = v[3][0]
            d = e.expand(d) if d[0] == 's' else d
            f = lambda n: d[3][P.field_index(self.DOC, n)]
            if g['err'] is not None:
                self.fail('swallow', 'an error of the parser is not returned')
                continue
            ns = models.as_vec(e, st, f('nodes'))
            if g['last'] != 'DocumentStart':
                seen['none'] += 1
                l = models.vlen(ns) if ns[0] == 'vec' else None
                if l is None or st.hi(l) != 0:
                    self.fail('none', 'a document with nodes is made at the end of the stream')
                continue
            if g['n'] < 2 or k != 'DocumentEnd':
                if not (g['n'] == 2 and wrong):
                    self.fail('early', 'a document is returned before its end')
                else:
                    self.fail('undefined' if k == 'Alias' else 'duplicate',
                              'an alias of an anchor that is not defined is accepted' if k == 'Alias' else
                              'the same anchor can be defined twice')
                continue
            seen['document'] += 1
            ds, ev = st.mem[('o', 'ds')], st.mem[('o', 'ev')]
            if not same(e, st, ns, st.mem[('o', 'n0')]):
                self.fail('document:nodes', 'the nodes of a document change at its end')
            for n, x in (('version_directive', self.part(ds, 'version_directive')),
                         ('tag_directives', self.part(ds, 'tag_directives')),
                         ('start_implicit', self.part(ds, 'implicit')),
                         ('end_implicit', self.part(ev, 'implicit')),
                         ('start_mark', self.mark(ds, 'start_mark')), ('end_mark', self.mark(ev, 'end_mark'))):
                if not same(e, st, f(n), x):
                    self.fail('document:%s' % n, 'the %s of a document is not that of its events' % n)
        want = {'error', 'none'}
        if k == 'DocumentEnd':
            want.add('document')
        elif wrong:
            want.add('refused')
        elif k != 'none' and not self.good:
            self.fail('steps', 'loading does not go on after the event %s' % k)
        for x in want:
            if not seen[x]:
                self.fail('missing:%s' % x, 'no path returns %s' % {
                    'error': 'the error of the parser', 'none': 'an empty document at the end of the stream',
                    'document': 'the document', 'refused': 'an error about the anchor'}[x])
        return len(res)

    def refused(self, st, x):
        """the error is about this event"""
        e = self.e
        x = e.expand(x) if x[0] == 's' else x
        m = self.mark(st.mem[('o', 'ev')], 'start_mark')

        def has(v, d=0):
            if v is None or not isinstance(v, tuple) or d > 6:
                return False
            if same(e, st, v, m):
                return True
            w = models.target(e, st, v)[2]
            if w is not v:
                return has(w, d + 1)
            return v[0] == 'a' and any(has(f, d + 1) for f in v[3])
        if not has(x):
            self.fail('mark', 'the error does not say where the event %s is' % self.kind)


PARENTS = [('Sequence',), ('Mapping', 'open'), ('Mapping', 'full'), ('Mapping', None)]


def cases():
    out = [('none', None, {}, 0), ('DocumentEnd', None, {}, 0)]
    for k in DEFAULTS:
        for p in [None] + PARENTS:
            for tag in (0, 1):
                out.append((k, p, {'tag': tag}, 0))
            out.append((k, p, {'anchor': 1}, 3))
        for a in (1, 2):
            out.append((k, PARENTS[0], {'anchor': 1}, a))
    for p in PARENTS:
        for a in (1, 2, 3):
            out.append(('Alias', p, {}, a))
    out.append(('SequenceEnd', PARENTS[0], {}, 0))
    out += [('MappingEnd', p, {}, 0) for p in PARENTS[2:]]
    return out


def walks(P, L):
    """the table of anchors is gone through by an iterator, which the analysis follows however long it is"""
    for k in L.e.seen_fns:
        for l in P.bodies[k]['locals']:
            t = P.T[l]
            if t['k'] == 'adt' and t['path'].endswith('slice::Iter') and \
                    any(a in (t.get('args') or ()) for a in L.atypes):
                return True
    return False


def loading(P, rep, tier):
    """C21"""
    rep.rule = ('abstract interpretation of Document::load for one event: the parser is replaced by one that supplies an '
                'unknown event of each kind in each situation of the tree, and the tree, the collections that are open and the '
                'anchors afterwards are compared with what the event describes')
    G = graph.Graph(P)
    fns = {}
    some = 0
    for c in cases():
        k, p, given, a = c
        name = 'load:%s:%s:%s' % (k, '-'.join(map(str, p)) if p else 'root', (
            'tag' if given.get('tag') else 'plain', 'anchor 1', 'anchor 2', 'new anchor')[a])
        bad, ways, n = [], 0, 0
        # any number of other anchors; a search the analysis cannot follow that far is followed in small tables
        for tables in ((None,), (0, 1, 2)):
            bad, ways, n = [], 0, 0
            for t in tables:
                L = Load(P, t)
                try:
                    n += L.finish(L.run(*c))
                except eng.Give as x:
                    rep.undec(name, str(x))
                    continue
                bad += L.bad
                ways += L.good
                fns.update(L.e.seen_fns)
            if not bad or not a or walks(P, L):
                break
            some += tables[0] is not None
        if bad:
            for key, text in sorted(set(bad)):
                rep.fail('%s:%s' % (key, k), '%s (%s)' % (text, P.bodies[L.key]['path']))
        else:
            rep.ok(name, '%d ways through, %d results' % (ways, n))
    if some:
        rep.note('anchor tables of up to 4 entries only', some)
    rep.analysed(fns)
    rep.note('situations', len(cases()))
