"""Documents as events: what dumping reports to the emitter, one node at a time."""
import time
import common
import dom as D
import eng
import graph
import models
from state import State
from val import I, lin
from checks.composing import CEng, DEFAULTS, same, places

N = 500000      # nodes
ITEM, VALUE = 1000000, 3000000


def turn(t, x):
    return t + (x,) if len(t) < 4 and t != ("astray",) else ('astray',)


class DEng(CEng):
    many = False
    nexts = 0

    def override(self, path):
        if self.many and path.endswith('::next') and 'array' not in path:
            return DEng.next
        return CEng.override(self, path)

    def next(self, ctx, st, ci, args, dty, line):
        """one more element of a collection, or its end"""
        path = ci.get('path') or ci['decl']
        m = self.model(path, ci['decl'])
        out = m(self, ctx, st, ci, args, dty, line) if m is not None else None
        if out is None:
            return None
        self.nexts += 1
        for v, s in out:
            some = v[0] == 'a' and self.vname(v[1], v[2]) == 'Some'
            s.ghost = dict(s.ghost, turns=turn(s.ghost['turns'], 'next' if some else 'end'))
        return out

    def limit(self, key):
        CEng.limit(self, key)
        self.keys = set(key) if isinstance(key, (set, frozenset)) else {key}

    def loop_head(self, ctx, bb, st):
        if self.many:
            return eng.Eng.loop_head(self, ctx, bb, st)
        return CEng.loop_head(self, ctx, bb, st)


class Dump:
    def __init__(self, P, G, R):
        common.reset()
        self.P, self.R = P, R
        e = self.e = DEng(P)
        e.setup()
        e.distinct = True
        e.deadline = time.time() + 40
        e.limit(R.emit)
        g = G
        for k in (R.dump, R.count):
            e.hooked |= {x for x in P.bodies if k in g.reach([x])}
        self.N, self.ND, self.DOC = R.N, R.ND, R.DOC
        self.bad, self.results = [], 0
        e.hooks[R.emit] = self.emit
        self.many = False

    def fail(self, key, text):
        self.bad.append((key, text))

    # -- what is replaced: the emitter, and the function called for another node
    def log(self, st, what, v):
        if st.ghost['err']:
            self.fail('goes on', 'dumping goes on after an error')
        n = len(st.ghost['log'])
        st.ghost = dict(st.ghost, log=st.ghost['log'] + (what,))
        st.mem[('o', 'k%d' % n)] = v

    def outcome(self, st, dty):
        """success, and failure"""
        e = self.e
        if e.T[dty]['k'] == 'tuple' or not e.T[dty].get('path', '').endswith('Result'):
            return [(e.fresh(dty, 'done'), st)]
        okt, ert = e.T[dty]['args']
        er = st.copy()
        er.ghost = dict(er.ghost, err=True)
        x = e.fresh(ert, 'err')
        er.mem[('o', 'error')] = x
        return [(('a', dty, 0, (('a', okt, 0, ()),)), st), (('a', dty, 1, (x,)), er)]

    def emit(self, ctx, st, key, args, line):
        ev = args[-1]
        ev = self.e.expand(ev) if ev[0] == 's' else ev
        self.log(st, 'E', ev)
        return self.outcome(st, self.P.bodies[key]['locals'][0])

    def visit(self, what):
        def f(ctx, st, key, args, line):
            e = self.e
            b = self.P.bodies[key]
            ix = [a for a, l in zip(args, b['locals'][1:]) if e.T[l]['k'] == 'int']
            v = ix[0] if len(ix) == 1 else ('i', 0, ())
            if self.many:
                self.one_of_many(st, v)
            else:
                if what == 'A':
                    st.mem[('o', 'cells')] = self.cells(st)[0]
                self.log(st, what, v)
            return self.outcome(st, b['locals'][0])
        return f

    def one_of_many(self, st, v):
        e = self.e
        if st.ghost['err']:
            self.fail('goes on', 'dumping goes on after an error')
        l = lin(v)
        lo = st.lo(l)
        k = 'V' if lo >= VALUE else 'I' if lo >= ITEM else '?'
        t = turn(st.ghost['turns'], k)
        # an element has been visited: what came before it is settled
        if t[-2:] == ('next', 'I') and self.kind == 'Sequence':
            t = t[:-2]
        elif t[-3:] == ('next', 'I', 'V') and self.kind == 'Mapping':
            t = t[:-3]
        lg = st.ghost['log']
        if not lg or lg[-1] != '*':
            lg += ('*',)
        st.ghost = dict(st.ghost, log=lg, turns=t)

    # -- the situation
    def cells(self, st):
        """the bookkeeping of the nodes"""
        return [models.as_vec(self.e, st, self.e.get(st, *p)) for p in self.pc]

    def is_cells(self, t):
        a = self.P.T[t].get('args', [None])[0]
        return a == self.R.cell

    def node(self, kind, count, tag):
        e, P = self.e, self.P
        v = e.expand(e.fresh(self.N, 'node'))
        fs = list(v[3])
        ti = P.field_index(self.N, 'tag')
        tt = P.fields(self.N)[ti][1]
        fs[ti] = ('a', tt, 1, (e.fresh(P.T[tt]['args'][0], 'tag'),)) if tag else ('a', tt, 0, ())
        vi = [x['n'] for x in P.T[self.ND]['v']].index(kind)
        d = []
        self.kids = []

        def idx(lo, nm):
            return e.fresh_int(((lo, lo + N),), nm)
        for n, t in P.fields(self.ND, vi):
            if n not in ('items', 'pairs'):
                d.append(e.fresh(t, n))
                continue
            PT = P.T[t]['args'][0]

            def one():
                if n == 'items':
                    i = idx(ITEM, 'item')
                    return i, [i]
                f = {m: idx(ITEM if m == 'key' else VALUE, m) for m, _ in P.fields(PT)}
                if count == 'twin':
                    f['value'] = f['key']       # a mapping of a node to itself
                return ('a', PT, 0, tuple(f[m] for m, _ in P.fields(PT))), [f['key'], f['value']]
            if count is None:
                x, _ = one()
                o = set()
                import val
                val.syms(x, o, set())
                self.m = D.fresh(((0, N),), 'items')
                d.append(('vec', t, (), D.var(self.m), ((x, frozenset(o), (), ()),), ()))
            else:
                xs = []
                for _ in range(1 if count == 'twin' else count):
                    x, ks = one()
                    xs.append(x)
                    self.kids += ks
                d.append(('vec', t, (), (0, ()), (), tuple(xs)))
        fs[P.field_index(self.N, 'data')] = ('a', self.ND, vi, tuple(d))
        return v[:3] + (tuple(fs),)

    def cell(self, ints, flag):
        R = self.R
        t = self.P.T[R.cell]
        fs = []
        ints = dict(ints)
        for i, (n, ft) in enumerate(self.P.fields(R.cell)):
            fs.append(I(flag) if self.P.T[ft]['k'] == 'bool' else ints[i])
        return ('a', R.cell, 0, tuple(fs))

    def situation(self, key, node, cell):
        """in the middle of a document: arguments, state"""
        e, P = self.e, self.P
        st = State()
        st.ghost = {'log': (), 'err': False, 'turns': ()}
        n = D.fresh(((0, N),), 'nnodes')
        for nm, ty in (('doc', self.DOC), ('em', self.R.EM)):
            st.mem[('o', nm)] = e.expand(e.fresh(ty, nm))
        ns = [p for p in places(e, st, lambda t: P.T[t].get('args', [None])[0] == self.N)]
        cs = places(e, st, self.is_cells)
        if len(ns) != 1 or len(cs) != 1:
            raise eng.Anchor('the nodes and their bookkeeping')
        self.pn, self.pc = [x[:2] for x in ns], [x[:2] for x in cs]
        later = e.expand(e.fresh(self.N, 'later'))
        e.put(st, ns[0][0], ns[0][1], ('vec', ns[0][2][1], (), D.var(n), (models.top_alt(e, self.N),), (node, later)))
        e.put(st, cs[0][0], cs[0][1], ('vec', cs[0][2][1], (), D.var(n), (models.top_alt(e, self.R.cell),),
                                       (cell, e.expand(e.fresh(self.R.cell, 'cell')))))
        self.idx = ('i', 1, ((n, 1),))
        st.mem[('o', 'node')], st.mem[('o', 'cell')] = node, cell
        for i, x in self.last(st).items():
            st.mem[('o', 'was%d' % i)] = x
        args = []
        b = P.bodies[key]
        for l in b['locals'][1:1 + b['argc']]:
            t = P.T[l]
            to = P.T[t['to']] if t['k'] == 'ref' else t
            if t['k'] == 'ref' and t['to'] == self.DOC:
                args.append(('r', ('o', 'doc'), ()))
            elif t['k'] == 'ref' and to.get('path') == P.T[self.R.EM]['path']:
                args.append(('r', ('o', 'em'), ()))
            elif t['k'] == 'int':
                args.append(self.idx)
            else:
                raise eng.Anchor('the arguments of %s' % b['path'])
        return args, st

    def last(self, st):
        """every integer the bookkeeping may be counting with"""
        em = st.mem[('o', 'em')]
        return {i: em[3][i] for i, (n, t) in enumerate(self.P.fields(self.R.EM)) if self.P.T[t]['k'] == 'int'}

    def cell_now(self, st, i=0):
        w = self.cells(st)[0]
        if w is None or w[0] != 'vec' or len(w[5]) != 2:
            return None
        return w[5][i]

    # -- counting references
    def counting(self, kind, refs, count):
        """-> list of violations; refs: 0, 1, 'more' references so far"""
        e, P, R = self.e, self.P, self.R
        self.kind, self.many = kind, count is None
        e.many = self.many
        node = self.node(kind, count, True)
        r = I(refs) if refs != 'more' else e.fresh_int(((2, N),), 'references')
        a = I(0) if refs != 'more' else e.fresh_int(((1, N),), 'anchor')
        cell = self.cell({R.refs: r, R.anchor: a}, 0)
        args, st = self.situation(R.count, node, cell)
        e.hooks[R.count] = self.visit('A')
        self.results = 0
        for v, s in e.call_key(R.count, args, st, 0, ()):
            self.results += 1
            c = self.cell_now(s)
            if c is None:
                self.fail('cells', 'the bookkeeping of another node changes')
                continue
            lg = s.ghost['log']
            want = I(refs + 1) if refs != 'more' else ('i', r[1] + 1, r[2])
            if not same(e, s, c[3][R.refs], want):
                self.fail('references', 'a reference to a node is not counted once')
            last = self.last(s)
            last0 = {i: s.mem[('o', 'was%d' % i)] for i in last}
            if refs == 1:
                ch = [i for i in last if not same(e, s, last[i], last0[i])]
                if len(ch) != 1 or not same(e, s, last[ch[0]], ('i', last0[ch[0]][1] + 1, last0[ch[0]][2])) or \
                        not same(e, s, c[3][R.anchor], last[ch[0]]):
                    self.fail('anchor', 'a node that is referred to for the second time does not get an anchor of its own')
            else:
                if not same(e, s, c[3][R.anchor], a):
                    self.fail('anchor', 'the anchor of a node changes with reference number %s' % (
                        1 if refs == 0 else 'three or more'))
                if any(not same(e, s, last[i], last0[i]) for i in last):
                    self.fail('anchor id', 'a number is used for an anchor that no node gets')
            self.children(s, lg if refs == 0 else lg + ('never',) if lg else (), refs == 0)
        if not self.results:
            self.fail('nothing', 'no reference is counted')

    def children(self, s, lg, want):
        """the nodes in this node were visited once, in order"""
        e = self.e
        if self.many:
            if not self.e.nexts:
                return      # no iterator to follow
            t = s.ghost['turns']
            if t != (('end',) if want else ()) or (lg and not want):
                self.fail('children', 'not every node in a %s is visited exactly once' % self.kind)
            return
        kids = self.kids if want else []
        got = [s.mem[('o', 'k%d' % i)] for i, w in enumerate(s.ghost['log']) if w != 'E']
        if len(got) != len(kids) or not all(same(e, s, x, y) for x, y in zip(got, kids)):
            self.fail('children', 'the nodes in a %s are not visited once each and in order' % self.kind)

    # -- reporting
    def dumping(self, kind, seen, anchored, count, tag=True):
        e, P, R = self.e, self.P, self.R
        self.kind, self.many = kind, count is None
        e.many = self.many
        node = self.node(kind, count, tag)
        a = e.fresh_int(((1, N),), 'anchor') if anchored else I(0)
        cell = self.cell({R.refs: e.fresh_int(((1, N),), 'references'), R.anchor: a}, int(seen))
        args, st = self.situation(R.dump, node, cell)
        e.hooks[R.dump] = self.visit('D')
        self.results = self.oks = 0
        other = self.cell_now(st, 1)
        for v, s in e.call_key(R.dump, args, st, 0, ()):
            self.results += 1
            node, cell = s.mem[('o', 'node')], s.mem[('o', 'cell')]
            lg = s.ghost['log']
            ok = v[0] == 'a' and e.vname(v[1], v[2]) == 'Ok'
            if s.ghost['err']:
                if ok or not same(e, s, v[3][0], s.mem[('o', 'error')]):
                    self.fail('error', 'an error of the emitter is not returned')
            elif not ok:
                self.fail('refuse', 'a node of the document is refused')
            self.oks += ok
            self.reported(s, lg, kind, seen, anchored, node, cell, s.ghost['err'])
            if not s.ghost['err']:
                c = self.cell_now(s)
                if c is None:
                    self.fail('cells', 'the bookkeeping of another node changes')
                elif not same(e, s, c[3][R.flag], I(1)):
                    self.fail('again', 'a node that has been reported is not marked so')
                elif not same(e, s, c[3][R.anchor], cell[3][R.anchor]) or not same(e, s, self.cell_now(s, 1), other):
                    self.fail('cells', 'the bookkeeping of another node changes')
        if not self.oks:
            self.fail('nothing', 'no %s node can be reported' % kind)

    def part(self, ev, n):
        d = ev[3][self.P.field_index(e_data(self), 'data')]
        return d[3][self.P.field_index(self.e.ED, n, d[2])]

    def kind_of(self, ev):
        d = ev[3][self.P.field_index(self.e.EV, 'data')]
        return self.e.vname(self.e.ED, d[2]) if d[0] == 'a' else '?'

    def anchor_ok(self, s, x, cell, anchored):
        """the name made of the number of this node"""
        if x[0] == 'a':
            some = self.e.vname(x[1], x[2]) == 'Some'
            if some != bool(anchored):
                return False
            if not some:
                return True
            x = x[3][0]
        a = lin(cell[3][self.R.anchor])
        w = models.strval(self.e, s, x)
        return len(a[1]) == 1 and w[1] is None and w[2] in self.names(a)

    def names(self, a):
        y = D.CH.get((a[1][0][0], ('fmt', a[0])))
        return {y} if y is not None else set()

    def reported(self, s, lg, kind, seen, anchored, node, cell, err):
        e, P = self.e, self.P
        kinds = [self.kind_of(s.mem[('o', 'k%d' % i)]) if w == 'E' else w for i, w in enumerate(lg)]
        if seen:
            want = ['Alias']
        elif kind == 'Scalar':
            want = ['Scalar']
        elif self.many:
            want = [kind + 'Start', '*', kind + 'End']
            if kinds == want[::2]:
                want = want[::2]
        else:
            want = [kind + 'Start'] + ['D'] * len(self.kids) + [kind + 'End']
        if kinds != want and not (err and kinds == want[:len(kinds)]):
            self.fail('events', 'a %s node %sis reported as %s' % (kind, 'met again ' if seen else '', ' '.join(kinds) or 'nothing'))
            return
        if not kinds:
            return
        if not seen and kind != 'Scalar':
            if self.many:
                if not err:
                    self.children(s, lg, True)
            else:
                got = [s.mem[('o', 'k%d' % i)] for i, w in enumerate(lg) if w == 'D']
                if not all(same(e, s, x, y) for x, y in zip(got, self.kids)):
                    self.fail('children', 'the nodes in a %s are not reported in order' % kind)
        ev = s.mem[('o', 'k0')]
        if not self.anchor_ok(s, self.part(ev, 'anchor'), cell, anchored):
            self.fail('anchor', 'a %s is reported with another anchor than the one of its node' % want[0])
        if seen:
            return
        f = lambda n: node[3][P.field_index(self.N, n)]
        d = f('data')
        if not same(e, s, self.part(ev, 'tag'), f('tag')):
            self.fail('tag', 'the tag of a %s is not that of its node' % want[0])
        for n, t in P.fields(self.ND, d[2]):
            if n not in ('items', 'pairs') and not same(e, s, self.part(ev, n), d[3][P.field_index(self.ND, n, d[2])]):
                self.fail('part:%s' % n, 'the %s of a %s is not that of its node' % (n, want[0]))
        tag = f('tag')
        dflt = 'tag:yaml.org,2002:' + DEFAULTS['Scalar' if kind == 'Scalar' else kind + 'Start']
        for n in ('plain_implicit', 'quoted_implicit') if kind == 'Scalar' else ('implicit',):
            x = self.part(ev, n)
            if tag[2] == 0:
                continue
            c = models.str_eq(e, s, models.strval(e, s, tag[3][0]), ('cstr', dflt, None))
            yes, no = s.split(c)
            if any(q.decide(x) is not True for q in yes):
                self.fail(n, 'the default tag of a %s is not left out' % want[0])
            if any(q.decide(x) is not False for q in no):
                self.fail(n, 'a tag of a %s that is not the default is left out' % want[0])

    # -- the whole document
    def whole(self):
        e, P, R = self.e, self.P, self.R
        self.kind = 'document'
        st = State()
        st.ghost = {'log': (), 'err': False, 'turns': ()}
        d = st.mem[('o', 'doc')] = e.expand(e.fresh(self.DOC, 'doc'))
        st.mem[('o', 'em')] = e.expand(e.fresh(R.EM, 'em'))
        ns = places(e, st, lambda t: P.T[t].get('args', [None])[0] == self.N)
        cs = places(e, st, self.is_cells)
        if len(ns) != 1 or len(cs) != 1:
            raise eng.Anchor('the nodes and their bookkeeping')
        self.pn, self.pc = [x[:2] for x in ns], [x[:2] for x in cs]
        n = D.fresh(((0, N),), 'nnodes')
        e.put(st, ns[0][0], ns[0][1], ('vec', ns[0][2][1], (), D.var(n), (models.top_alt(e, self.N),), ()))
        d = st.mem[('o', 'doc')]
        st.mem[('o', 'doc0')] = d
        e.hooks[R.dump] = self.visit('D')
        e.hooks[R.count] = self.visit('A')
        args = []
        b = P.bodies[R.top]
        for l in b['locals'][1:1 + b['argc']]:
            if l == self.DOC:
                args.append(d)
            elif P.T[l]['k'] == 'ref' and P.T[l]['to'] == self.DOC:
                args.append(('r', ('o', 'doc'), ()))
            else:
                args.append(('r', ('o', 'em'), ()))
        self.results = full = empty = 0
        for v, s in e.call_key(R.top, args, st, 0, ()):
            self.results += 1
            d = s.mem[('o', 'doc0')]
            lg = s.ghost['log']
            ok = v[0] == 'a' and e.vname(v[1], v[2]) == 'Ok'
            if s.ghost['err']:
                if ok or not same(e, s, v[3][0], s.mem[('o', 'error')]):
                    self.fail('error', 'an error of the emitter is not returned')
            elif not ok:
                self.fail('refuse', 'a document is refused')
            kinds = [self.kind_of(s.mem[('o', 'k%d' % i)]) if w == 'E' else w for i, w in enumerate(lg)]
            ev = [s.mem[('o', 'k%d' % i)] for i, w in enumerate(lg)]
            l = models.vlen(models.as_vec(e, s, d[3][P.field_index(self.DOC, 'nodes')]))
            none = s.hi(l) == 0
            rest = kinds[1:] if kinds[:1] == ['StreamStart'] else kinds
            evs = ev[len(ev) - len(rest):]
            body = [(k, x) for k, x in zip(rest, evs) if k != 'A']
            rest = [k for k, _ in body]
            want = ['DocumentStart', 'D', 'DocumentEnd']
            if none:
                empty += 1
                if not (rest in ([], ['StreamEnd'])):
                    self.fail('empty', 'an empty document is reported as %s' % ' '.join(kinds))
                continue
            if s.lo(l) < 1 and rest:
                self.fail('empty', 'a document is reported whether it has nodes or not')
            if rest != want and not (s.ghost['err'] and rest == want[:len(rest)]):
                self.fail('events', 'a document is reported as %s' % ' '.join(kinds))
                continue
            full += ok
            f = lambda m: d[3][P.field_index(self.DOC, m)]
            for (k, x) in body:
                if k == 'DocumentStart':
                    for m, q in (('version_directive', 'version_directive'), ('tag_directives', 'tag_directives'),
                                 ('implicit', 'start_implicit')):
                        if not same(e, s, self.part(x, m), f(q)):
                            self.fail('start:%s' % m, 'the %s of a document is not reported' % m)
                elif k == 'DocumentEnd':
                    if not same(e, s, self.part(x, 'implicit'), f('end_implicit')):
                        self.fail('end', 'whether the end of a document is implicit is not reported')
                elif k == 'D':
                    if not same(e, s, x, I(1)):
                        self.fail('root', 'what is reported is not the first node')
            if 'D' in kinds:
                a = [i for i, k in enumerate(kinds) if k == 'A']
                if len(a) != 1 or a[0] > kinds.index('D') or not same(e, s, ev[a[0]], I(1)):
                    self.fail('count', 'the references between the nodes are not counted before they are reported')
                else:
                    self.fresh_cells(s, l)
        if not full or not empty:
            self.fail('nothing', 'no document can be reported')

    def fresh_cells(self, s, n):
        e = self.e
        w = s.mem.get(('o', 'cells'))
        if w is None or w[0] != 'vec' or w[2] or w[5]:
            self.fail('cells', 'counting does not start from scratch')
            return
        l = D.lsub(w[3], n)
        zero = all(a[0][0] == 'a' and all(same(e, s, x, I(0)) for x in a[0][3]) for a in w[4])
        if not zero or not (s.lo(l) == 0 == s.hi(l)):
            self.fail('cells', 'counting does not start from scratch')


def e_data(self):
    return self.e.EV


class Roles:
    """the functions and the types the rules are about"""

    def __init__(self, P, G):
        self.P = P
        self.EM = next((i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == 'emitter::Emitter'), None)
        self.N, self.ND, self.DOC = P.adt('document::Node'), P.adt('document::NodeData'), P.adt('document::Document')
        self.emit = P.one(r'^emitter::Emitter::<.*>::emit$')
        self.top = P.one(r'^document::Document::dump$')
        inside = {k for k in G.reach([self.top], stop=(self.emit,)) if k in P.bodies and P.bodies[k]['local']}
        self.dump = self.count = None
        for c in G.sccs(inside):
            c = set(c)
            if len(c) == 1 and not any(k in G.edges[k] for k in c):
                continue
            entry = {k for k in c if any(k in G.edges[x] for x in inside - c)}
            if len(entry) != 1:
                raise Lost('the function that goes over the nodes')
            if any(self.emit in G.edges[k] or self.emit in G.reach([k]) for k in c):
                if self.dump:
                    raise Lost('the function that reports a node')
                self.dump = entry.pop()
            else:
                if self.count:
                    raise Lost('the function that counts references')
                self.count = entry.pop()
        if not self.dump:
            raise Lost('recursion over the nodes')
        if not self.count:
            # no recursion: whatever is called for the first node had better not need it
            def takes(k):
                ls = [P.T[l] for l in P.bodies[k]['locals'][1:1 + P.bodies[k]['argc']]]
                return any(t['k'] == 'int' for t in ls) and any(t['k'] == 'ref' for t in ls) and \
                    self.emit not in G.reach([k])
            cand = {k for k in inside if takes(k)}
            tops = {k for k in cand if any(k in G.edges[x] for x in inside - cand)}
            if len(tops) != 1:
                raise Lost('the function that counts references')
            self.count = tops.pop()
            if any('::pop' in c.path for k in G.reach([self.count]) for c in G.calls.get(k, ())):
                raise Lost('the function that counts references (it keeps a list of what is left to do)')
        # what is kept for each node
        cells = set()
        for i, t in enumerate(P.T):
            if t['k'] == 'adt' and t.get('local') and t.get('v') and len(t['v']) == 1 and not t.get('enum'):
                ks = sorted(P.T[f]['k'] for _, f in t['v'][0]['f'])
                if ks == ['bool', 'int', 'int'] and any(
                        models.is_vecty(P.T[j]) and P.T[j]['args'][0] == i for j in range(len(P.T))):
                    cells.add(i)
        if len(cells) != 1:
            raise Lost('the bookkeeping of the nodes')
        self.cell = cells.pop()
        fs = P.fields(self.cell)
        self.flag = next(i for i, (n, t) in enumerate(fs) if P.T[t]['k'] == 'bool')
        ints = [i for i, (n, t) in enumerate(fs) if P.T[t]['k'] == 'int']
        # which of the two is counting references
        for self.refs, self.anchor in (ints, ints[::-1]):
            d = Dump(P, G, self)
            d.counting('Scalar', 0, 0)
            if not any(k == 'references' for k, _ in d.bad):
                break
        else:
            self.refs, self.anchor = ints


class Lost(Exception):
    pass


def dumping(P, rep, tier):
    """C25"""
    rep.rule = ('abstract interpretation of Document::dump, one node at a time: the emitter and the recursive calls are '
                'replaced by ones that record what they are given and succeed or fail; what is recorded is compared with what '
                'the node describes; the whole follows by induction over the tree')
    G = graph.Graph(P)
    try:
        R = Roles(P, G)
    except Lost as x:
        rep.undec('roles', str(x))
        return
    fns = {}

    def run(name, f):
        d = Dump(P, G, R)
        try:
            f(d)
        except eng.Give as x:
            rep.undec(name, str(x))
            return
        fns.update(d.e.seen_fns)
        if d.bad:
            for key, text in sorted(set(d.bad)):
                rep.fail('%s:%s' % (name.split(':')[0] + ':' + d.kind, key), text)
        else:
            rep.ok(name, '%d results' % d.results)
    for kind in ('Scalar', 'Sequence', 'Mapping'):
        counts = (0,) if kind == 'Scalar' else (0, 1, 2, 3, None) + (('twin',) if kind == 'Mapping' else ())
        for c in counts:
            nm = 'any' if c is None else c
            for refs in (0, 1, 'more'):
                run('count:%s:%s:%s' % (kind, refs, nm), lambda d: d.counting(kind, refs, c))
            for seen, anchored in ((False, False), (False, True), (True, True)):
                run('dump:%s:%s:%s' % (kind, 'again' if seen else 'anchor' if anchored else 'plain', nm),
                    lambda d: d.dumping(kind, seen, anchored, c))
    run('whole', lambda d: d.whole())
    rep.analysed(fns)
