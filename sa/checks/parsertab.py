"""The parser as a pushdown transition table, extracted from the source.

Every state of the event parser is analysed with an unknown stack and unknown
tokens: the token source (Scanner::fetch_more_tokens) is replaced by "either
fails, or makes one unknown token available", everything above it is
interpreted abstractly.  Each outcome records which kinds of tokens were
consumed, which kinds the token left in front may have, what was pushed and
popped, the next state, the event and the marks.
"""
import common
import dom as D
import eng
import models
import val
from state import State


class Out:
    __slots__ = ('s0', 'toks', 'front', 'ok', 'fetcherr', 'event', 'evty', 'state', 'push', 'pop', 'dmarks',
                 'mpop0', 'toksv', 'ev', 'st', 'mpushv', 'frontv', 'err', 'errv', 'marksv', 'mpopv')


class PEng(eng.Eng):
    EXITS = 400

    def setup(self):
        p = self.p
        self.TOK = p.adt('token::Token')
        self.TD = p.adt('token::TokenData')
        self.PS = p.adt('parser::ParserState')
        self.MARK = p.adt('error::Mark')
        self.kinds = [v['n'] for v in self.T[self.TD]['v']]

    def tokdisc(self, tok):
        if tok[0] == 's':
            tok = self.expand(tok)
        d = tok[3][self.p.field_index(self.TOK, 'data')]
        return self.discr(d, self.TD)

    def tokkinds(self, st, tok):
        r = st.range_of(val.lin(self.tokdisc(tok)))
        return frozenset(self.T[self.TD]['v'][self.p.variant_of(self.TD, x)]['n'] for x in D.elems(r))

    def elt(self, v):
        a = self.T[v[1]].get('args')
        return a[0] if a else None

    def fetcherr(self, ty):
        """the error of a failed read (a value of its own)"""
        if getattr(self, 'fe', None) is None:
            self.fe = self.fresh(ty, 'readerr')[2]
        return self.fe

    def g(self, st, **kw):
        st.ghost = dict(st.ghost, **kw)

    def on_pop(self, ctx, st, v, el, root, path, line):
        t = self.elt(v)
        if t == self.TOK and el is not None:
            # what was it when it was fetched
            slot = ('o', 'tok%d' % len(st.ghost['toks']))
            orig = st.mem.get(slot)
            ks = self.tokkinds(st, orig if orig is not None else el)
            ks = tuple(sorted(ks))
            if ks and all(k.endswith('Directive') for k in ks):
                ks = ('*Directive',)
            tr = st.ghost['toks']
            if tr and tr[-1] == ks and ks in (('*Directive',), ('DocumentEnd',)):
                pass
            else:
                self.g(st, toks=tr + (ks,))
        elif t == self.PS:
            if el is None:
                self.g(st, pop=st.ghost['pop'] + 100)
            elif st.ghost['npush']:
                self.g(st, npush=st.ghost['npush'] - 1)
                st.mem.pop(('o', 'push%d' % st.ghost['npush']), None)
            else:
                self.g(st, pop=st.ghost['pop'] + 1)
        elif t == self.MARK:
            if el is None:
                self.g(st, mempty=1)
            elif st.ghost['mpush']:
                self.g(st, mpush=st.ghost['mpush'] - 1)
            else:
                self.g(st, mpop=st.ghost['mpop'] + 1)

    def on_push(self, ctx, st, v, el, root, path, line):
        t = self.elt(v)
        if t == self.PS:
            st.mem[('o', 'push%d' % st.ghost['npush'])] = el
            self.g(st, npush=st.ghost['npush'] + 1)
        elif t == self.MARK:
            st.mem[('o', 'mark%d' % st.ghost['mpush'])] = el
            self.g(st, mpush=st.ghost['mpush'] + 1)

    def on_clear(self, ctx, st, v, root, path, line):
        t = self.elt(v)
        if t in (self.PS, self.MARK):
            self.g(st, cleared=1)


def fetch(e, ctx, st, ci, args, dty, line):
    """the token source: fails, or makes one more token available"""
    root, path, v = models.target(e, st, args[0])
    P = e.p
    errty = P.T[dty]['args'][1]
    okty = P.T[dty]['args'][0]
    ti = P.field_index(v[1], 'tokens')
    ai = P.field_index(v[1], 'token_available')
    bad = st.copy()
    e.g(bad, fetcherr=bad.ghost['fetcherr'] + 1)
    tok = e.expand(e.fresh(e.TOK, 'tok'))
    st.mem[('o', 'tok%d' % len(st.ghost['toks']))] = tok
    vt = P.fields(v[1])[ti][1]
    n = D.fresh(((0, D.STEPS),), 'n')
    nv = e.setfield(v, 0, ti, ('vec', vt, (tok,), D.var(n), (models.top_alt(e, e.TOK),), ()))
    nv = e.setfield(nv, 0, ai, val.I(1))
    e.put(st, root, path, nv)
    return [(('a', dty, 0, (('a', okty, 0, ()),)), st), (('a', dty, 1, (('s', errty, e.fetcherr(errty)),)), bad)]


FETCH = r'^scanner::Scanner::<R>::fetch_more_tokens$'


ERR = r'^error::Error::(reader|scanner|parser|composer|emitter)$'


def mark_pos(e, st, v):
    """position of a mark: 2i start, 2i+1 end of the i-th token looked at"""
    i = 0
    f = e.p.fields(e.TOK)
    si, ei = [[n for n, t in f].index(x) for x in ('start_mark', 'end_mark')]
    while ('o', 'tok%d' % i) in st.mem:
        t = st.mem[('o', 'tok%d' % i)]
        if t[3][si] == v:
            return 2 * i
        if t[3][ei] == v:
            return 2 * i + 1
        i += 1
    return None


def make_error(e, ctx, st, ci, args, dty, line):
    path = e.p.bodies[ci['key']]['path'] if 'key' in ci else ci['path']
    kind = path.rsplit('::', 1)[1]
    d = {'kind': kind, 'in': ctx.body['path'], 'toks': st.ghost['toks'], 's0': st.ghost['s0'], 'texts': [], 'pos': []}
    for a in args:
        if a[0] in ('r', 'slice', 'cstr'):
            d['texts'].append(a[1] if a[0] == 'cstr' else '?')
        else:
            p = mark_pos(e, st, a)
            d['pos'].append(p if p is not None else '?')
    e.errors.append(d)
    e.g(st, err=kind)
    return [(e.fresh(dty, 'made'), st)]


def make_engine(P, cls=PEng):
    e = cls(P)
    e.setup()
    if not P.find(FETCH):
        raise eng.Anchor('Scanner::fetch_more_tokens')
    if not P.find(ERR):
        raise eng.Anchor('constructors of Error')
    e.errors = []
    e.overrides = {FETCH: fetch, ERR: make_error}
    return e


def entry(P, pat):
    ks = [k for k in P.find(pat) if P.bodies[k]['argc'] >= 1]
    if not ks:
        raise eng.Anchor(pat)
    return ks[0]


class Table:
    pass


def extract(P):
    common.reset()
    e = make_engine(P)
    T = Table()
    T.e = e
    kparse = entry(P, r'^parser::Parser::<R>::parse$')
    (v0, st0), = e.call_key(P.one(r'^parser::Parser::<R>::new$'), [], State(), 0, ())
    PT = v0[1]
    ii = P.field_index(PT, 'inner')
    si_ = P.field_index(PT, 'scanner')
    IT = P.fields(PT)[ii][1]
    fi = {n: i for i, (n, t) in enumerate(P.fields(IT))}
    T.initial = e.vname(e.PS, P.variant_of(e.PS, v0[3][ii][3][fi['state']][1]))
    T.outs = []
    T.PT, T.IT = PT, IT
    for var in P.T[e.PS]['v']:
        st = State()
        iv = e.expand(e.fresh(IT, 'inner'))
        f = list(iv[3])
        f[fi['state']] = val.I(var['d'])
        top = e.fresh(e.PS, 'TOP')
        n = D.fresh(((0, D.STEPS),), 'n')
        f[fi['states']] = ('vec', P.fields(IT)[fi['states']][1], (), D.var(n), (models.top_alt(e, e.PS),), (top,))
        mtop = e.expand(e.fresh(e.MARK, 'MTOP'))
        m = D.fresh(((0, D.STEPS),), 'm')
        f[fi['marks']] = ('vec', P.fields(IT)[fi['marks']][1], (), D.var(m), (models.top_alt(e, e.MARK),), (mtop,))
        o = list(v0[3])
        o[ii] = ('a', IT, 0, tuple(f))
        st.mem[('o', 'p')] = ('a', PT, 0, tuple(o))
        st.mem[('o', 'mtop')] = mtop
        st.mem[('o', 'top')] = top
        st.ghost = {'toks': (), 's0': var['n'], 'err': None, 'npush': 0, 'pop': 0, 'mpush': 0, 'mpop': 0, 'fetcherr': 0, 'cleared': 0, 'mempty': 0}
        for v, s in e.call_key(kparse, [('r', ('o', 'p'), ())], st, 0, ()):
            x = Out()
            x.s0 = var['n']
            x.toks = s.ghost['toks']
            x.fetcherr = s.ghost['fetcherr']
            x.pop = s.ghost['pop']
            x.dmarks = s.ghost['mpush'] - s.ghost['mpop']
            x.mpop0 = s.ghost['mpop']
            x.st = s
            pv = s.mem[('o', 'p')]
            iv = pv[3][ii]
            x.state = e_state(e, s, iv[3][fi['state']], top)
            x.push = tuple(e_state(e, s, s.mem[('o', 'push%d' % i)], top) for i in range(s.ghost['npush']))
            x.mpushv = [s.mem[('o', 'mark%d' % i)] for i in range(s.ghost['mpush'])]
            x.toksv = [s.mem.get(('o', 'tok%d' % i)) for i in range(len(x.toks))]
            sc = pv[3][si_]
            tk = sc[3][P.field_index(sc[1], 'tokens')]
            av = sc[3][P.field_index(sc[1], 'token_available')]
            x.front = None
            x.frontv = None
            a = s.decide(av) if av[0] == 'i' else None
            slot = ('o', 'tok%d' % len(x.toks))
            if a is True and slot in s.mem:
                x.frontv = s.mem[slot]
                x.front = e.tokkinds(s, x.frontv)
            x.marksv = mtop
            x.ok = v[0] == 'a' and e.vname(v[1], v[2]) == 'Ok'
            x.err = s.ghost['err']
            x.errv = v[3][0] if not x.ok and v[0] == 'a' else None
            x.event = None
            x.ev = None
            if x.ok:
                ev = e.expand(v[3][0]) if v[3][0][0] == 's' else v[3][0]
                x.ev = ev
                d = ev[3][P.field_index(ev[1], 'data')]
                r = s.range_of(val.lin(e.discr(d, d[1])))
                x.event = tuple(e.vname(d[1], P.variant_of(d[1], q)) for q in D.elems(r))
            T.outs.append(x)
    T.errors = e.errors
    T.fns = dict(e.seen_fns)
    T.panics = dict(e.panics)
    T.unmodelled = dict(e.unmodelled)
    return T


def e_state(e, s, v, top):
    """'TOP' for the state found on the stack, else the possible names"""
    if v == top:
        return ('TOP',)
    if v[0] != 'i':
        return ('?',)
    r = s.range_of(val.lin(v))
    return tuple(e.vname(e.PS, e.p.variant_of(e.PS, q)) for q in D.elems(r))
