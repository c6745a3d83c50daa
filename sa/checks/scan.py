"""The scanner: every step of it from every state, characters left open.

Two abstractions of the same code:
 chars   the look-ahead buffer is exact (cells, requested bound, end of input),
         every other field of the scanner may hold anything at every read;
 tokens  the token queue, the key and indentation stacks are exact up to a
         summary, the buffer and the position may hold anything; functions that
         cannot write any of the former (field effects over the call graph)
         are not entered.
"""
import common
import dom as D
import effects
import eng
import graph
import models
import val
from state import State

UPDATE = r'^reader::yaml_parser_update_buffer$'
NEXT = r'^scanner::Scanner::<R>::fetch_next_token$'
TFIELDS = ('tokens', 'tokens_parsed', 'token_available', 'indents', 'indent', 'flow_level', 'simple_keys',
           'stream_start_produced', 'stream_end_produced')


class SEng(eng.Eng):
    """volatile fields: any value at every read, writes are dropped"""
    STRLIM = 1
    levels = False

    def setup(self, ST):
        P = self.p
        self.ST = ST
        self.ft = {n: t for n, t in P.fields(ST)}
        self.fi = {n: i for i, (n, t) in enumerate(P.fields(ST))}
        self.bi = self.fi['buffer']
        self.vol = {}
        self.skip = set()
        self.skipped = set()
        self.viol = {}
        up = set(P.find(UPDATE))
        # the functions that ask for more characters, and decide whether to
        self.refill = {k for k, b in P.bodies.items() if any(
            bl and bl['t'][0] == 'call' and isinstance(bl['t'][1], dict) and bl['t'][1].get('key') in up
            for bl in b['blocks'])}

    def volatile(self, names):
        for n in names:
            t = self.ft[n]
            if n == 'mark':
                f = vol_mark
            elif n in ('indent', 'flow_level'):
                f = vol_int(-1 if n == 'indent' else 0, D.STEPS)
            elif n == 'tokens_parsed':
                f = vol_int(0, D.STEPS)
            else:
                f = (lambda t: lambda e, st: e.fresh(t, 'vol'))(t)
            self.vol[self.fi[n]] = f

    def step_get(self, st, v, el):
        if el[0] == 'f' and v[0] in 'as' and v[1] == self.ST and el[2] in self.vol:
            return self.vol[el[2]](self, st)
        return eng.Eng.step_get(self, st, v, el)

    def put_in(self, st, v, path, i, nv):
        if i < len(path) and path[i][0] == 'f' and v is not None and v[0] in 'as' and v[1] == self.ST \
                and path[i][2] in self.vol:
            return v
        return eng.Eng.put_in(self, st, v, path, i, nv)

    def exit_key(self, st):
        v = st.mem.get(('o', 's'))
        if not self.levels or v is None or v[0] != 'a':
            return None
        x = v[3][self.fi['indents']]
        return (st.decide(v[3][self.fi['stream_start_produced']]),
                (st.lo(models.vlen(x)) > 0, st.hi(models.vlen(x)) > 0) if x[0] == 'vec' else None)

    def relations(self, st):
        v = st.mem.get(('o', 's'))
        if not self.levels or v is None or v[0] != 'a':
            return []
        return [val.lin(v[3][self.fi['tokens_parsed']])]

    def upper_relations(self, st):
        v = st.mem.get(('o', 's'))
        if not self.levels or v is None or v[0] != 'a' or v[3][self.fi['tokens']][0] != 'vec':
            return []
        return [D.ladd(val.lin(v[3][self.fi['tokens_parsed']]), models.vlen(v[3][self.fi['tokens']]))]

    def finish(self, ctx, exits):
        for s in exits:
            v = s.mem.get(('o', 's'))
            if v is None or v[0] != 'a' or v[1] != self.ST:
                continue
            b = v[3][self.bi]
            if b[0] == 'cb' and not b[2]:
                n = models.cb_bound(s, b)
                if n > b[3]:
                    f = list(v[3])
                    f[self.bi] = ('cb', b[1], b[2], n, D.fresh(((0, D.STEPS),), 'len'))
                    s.mem[('o', 's')] = v[:3] + (tuple(f),)
        return eng.Eng.finish(self, ctx, exits)

    def cb_strict(self, ctx):
        return not (ctx.key in self.refill or any(k in self.refill for k, _ in self.near(ctx)))

    def near(self, ctx):
        return [(f, l) for f, l in list(ctx.chain)[-2:-1]]

    def on_violation(self, ctx, kind, what, line, st):
        self.viol.setdefault((ctx.body['path'], kind, what), (line, list(ctx.chain)[-4:]))

    def on_panic(self, ctx, what, line, st, taint):
        self.panics.setdefault((ctx.body['path'], what, line), (taint, list(ctx.chain)))

    def panic_at(self, body, what, line, st, ctx):
        self.panics.setdefault((body['path'], what, line), (False, list(ctx.chain)))

    def enter(self, ctx, st, key, args, line):
        if key in self.skip:
            self.skipped.add(key)
            for a in args[1:]:
                self.havoc_ref(st, a, None, False)
            return [(self.fresh(self.p.bodies[key]['locals'][0], 'skipped'), st)]
        return eng.Eng.enter(self, ctx, st, key, args, line)


def vol_int(lo, hi):
    def f(e, st):
        return e.fresh_int(((lo, hi),), 'vol')
    return f


def vol_mark(e, st):
    return ('a', e.ft['mark'], 0, tuple(e.fresh_int(((0, D.STEPS),), n)
                                        for n, t in e.p.fields(e.ft['mark'])))


def update(e, ctx, st, ci, args, dty, line):
    """the reader: fails, or has `length` characters ready, or the input ends before"""
    root, path, v = models.target(e, st, args[0])
    P = e.p
    okty, errty = P.T[dty]['args']
    bad = st.copy()
    n = st.lo(val.lin(args[1]))
    v = e.expand(v) if v[0] == 's' else v
    ok = lambda s: (('a', dty, 0, (('a', okty, 0, ()),)), s)
    er = lambda s: (('a', dty, 1, (e.fresh(errty, 'readerr'),)), s)
    if e.bi in e.vol:
        return [ok(st), er(bad)]
    b = models.as_vec(e, st, v[3][e.bi])
    nv = e.setfield(v, 0, e.bi, ('cb', b[1], b[2], max(models.cb_bound(st, b), n), D.fresh(((0, D.STEPS),), 'len')))
    bv = e.setfield(v, 0, e.bi, ('cb', b[1], b[2], models.cb_bound(bad, b), D.fresh(((0, D.STEPS),), 'len')))
    e.put(st, root, path, nv)
    e.put(bad, root, path, bv)
    return [ok(st), er(bad)]


# ---- the invariant of the token level -----------------------------------------
def inv_value(e, st, v, variant, ready=False):
    """fields of a scanner between two steps; v: list of field values to update.
    variant: fresh (nothing produced), flat (no indentation), deep"""
    P, ST, fi, ft = e.p, e.ST, e.fi, e.ft
    if variant == 'fresh':
        for f in ('tokens', 'indents', 'simple_keys'):
            v[fi[f]] = ('vec', ft[f], (), (0, ()), (), ())
        for f in ('flow_level', 'indent', 'stream_start_produced'):
            v[fi[f]] = val.I(0)
        return v
    tp = val.lin(v[fi['tokens_parsed']])
    v[fi['stream_start_produced']] = val.I(1)
    TOK = P.T[ft['tokens']]['args'][0]
    nt = D.fresh(((1 if ready else 0, D.STEPS),), 'ntok')
    v[fi['tokens']] = ('vec', ft['tokens'], (), D.var(nt), (models.top_alt(e, TOK),), ())
    if variant == 'deep':
        n = D.fresh(((0, D.STEPS),), 'nind')
        el = D.fresh(((0, (1 << 31) - 1),), 'ind')
        ind = D.fresh(((0, (1 << 31) - 1),), 'indent')
        v[fi['indents']] = ('vec', ft['indents'], (val.I(-1),), D.var(n),
                            ((('i', 0, ((el, 1),)), frozenset([el]), (), ()),), ())
        v[fi['indent']] = ('i', 0, ((ind, 1),))
    else:
        v[fi['indents']] = ('vec', ft['indents'], (), (0, ()), (), ())
        v[fi['indent']] = val.I(-1)
    SK = P.T[ft['simple_keys']]['args'][0]
    alts = []
    for pos in (0, 1):
        k = e.expand(e.fresh(SK, 'key'))
        f = list(k[3])
        f[P.field_index(SK, 'possible')] = val.I(pos)
        f[P.field_index(SK, 'mark')] = vol_mark(e, st)
        facts = ()
        if pos:
            tn = val.lin(f[P.field_index(SK, 'token_number')])
            lo = D.ladd(D.lsub(tp, tn), D.const(1 if ready else 0))
            facts = (lo, D.lsub(tn, D.ladd(tp, D.var(nt))))
        k = ('a', SK, 0, tuple(f))
        o = set()
        val.syms(k, o, set())
        alts.append((k, frozenset(o - {s for s, _ in tp[1]}), (), facts))
    nk = D.fresh(((1, D.STEPS),), 'nkeys')
    v[fi['simple_keys']] = ('vec', ft['simple_keys'], (), D.var(nk), tuple(alts), ())
    v[fi['flow_level']] = ('i', -1, ((nk, 1),))
    return v


def scanner(e, variant, avail=None):
    st = State()
    v = list(e.expand(e.fresh(e.ST, 'sc'))[3])
    tp = D.fresh(((0, D.STEPS),), 'parsed')
    v[e.fi['tokens_parsed']] = ('i', 0, ((tp, 1),))
    v[e.fi['buffer']] = ('cb', (), False, 0, D.fresh(((0, D.STEPS),), 'len'))
    if variant == 'fresh':
        for f in ('token_available', 'stream_end_produced', 'tokens_parsed'):
            v[e.fi[f]] = val.I(0)
    inv_value(e, st, v, variant, bool(avail))
    if avail is not None:
        v[e.fi['token_available']] = val.I(1 if avail else 0)
    st.mem[('o', 's')] = ('a', e.ST, 0, tuple(v))
    return st


def vec_elems(e, st, v):
    """(state, element) for every element a summarised sequence can have"""
    for x in v[2] + v[5]:
        yield st, x
    if st.hi(v[3]) > 0:
        for a in v[4]:
            s = st.copy()
            yield s, models.materialise(e, s, a)


def inv_broken(e, st, ready=False):
    """what part of the invariant does not hold in st (None: all hold)"""
    P, fi = e.p, e.fi
    o = st.mem[('o', 's')]
    if o[0] != 'a':
        return 'the scanner is no longer known'
    v = o[3]
    zero = lambda l: st.lo(l) == 0 == st.hi(l)
    started = st.decide(v[fi['stream_start_produced']])
    toks, keys, inds = [models.as_vec(e, st, v[fi[f]]) for f in ('tokens', 'simple_keys', 'indents')]
    if any(x[0] != 'vec' for x in (toks, keys, inds)):
        return 'a stack is no longer known'
    if started is None:
        return 'stream_start_produced is undetermined'
    if not started:
        for n, x in (('tokens', toks), ('simple_keys', keys), ('indents', inds)):
            if not zero(models.vlen(x)):
                return '%s filled before the stream start' % n
        if not zero(val.lin(v[fi['flow_level']])):
            return 'flow level set before the stream start'
        return 'ready before the stream start' if ready else None
    K = models.vlen(keys)
    if st.lo(K) < 1:
        return 'simple_keys may be empty'
    if not zero(D.ladd(D.lsub(val.lin(v[fi['flow_level']]), K), D.const(1))):
        return 'simple_keys does not have one entry per flow level'
    SK = P.T[e.ft['simple_keys']]['args'][0]
    tp = val.lin(v[fi['tokens_parsed']])
    L = models.vlen(toks)
    pi, ni = P.field_index(SK, 'possible'), P.field_index(SK, 'token_number')
    for s, k in vec_elems(e, st, keys):
        k = e.expand(k)
        yes, no = s.split(k[3][pi]) if k[3][pi][0] in ('i', 'c', 'and', 'or', 'not', 'in') else ([s], [])
        for q in yes:
            tn = val.lin(k[3][ni])
            if q.hi(D.ladd(D.lsub(tp, tn), D.const(1 if ready else 0))) > 0:
                return 'a possible simple key refers to a token already %s' % ('at the front' if ready else 'taken')
            if q.hi(D.lsub(tn, D.ladd(tp, L))) > 0:
                return 'a possible simple key refers to a token beyond the queue'
    if ready and st.lo(L) < 1:
        return 'a token is announced but the queue may be empty'
    ind = val.lin(v[fi['indent']])
    if zero(models.vlen(inds)):
        if not zero(D.ladd(ind, D.const(1))):
            return 'indent is not -1 although no indentation is open'
        return None
    if st.lo(models.vlen(inds)) < 1:
        return 'indents may or may not be empty'
    if inds[2]:
        first, rest = inds[2][0], ('vec', inds[1], inds[2][1:]) + inds[3:]
    elif zero(inds[3]) and inds[5]:
        first, rest = inds[5][0], inds[:5] + (inds[5][1:],)
    else:
        return 'the outermost indentation is unknown'
    if not (first[0] == 'i' and zero(D.ladd(val.lin(first), D.const(1)))):
        return 'the outermost indentation is not -1'
    for s, x in vec_elems(e, st, rest):
        if s.lo(val.lin(x)) < 0:
            return 'an inner indentation may be negative'
    if st.lo(ind) < 0:
        return 'indent is negative although indentations are open'
    return None


def contract(e, ctx, st, ci, args, dty, line):
    """one scanner step, as far as its callers are concerned"""
    P = e.p
    root, path, v = models.target(e, st, args[0])
    okty, errty = P.T[dty]['args']
    cur = list(v[3])
    out = []
    for variant in ('flat', 'deep', 'fresh'):
        if variant == 'fresh' and st.decide(cur[e.fi['stream_start_produced']]) is True:
            continue
        for ok in (True, False):
            if variant == 'fresh' and ok:
                continue
            s = st.copy()
            n = list(cur)
            inv_value(e, s, n, variant)
            e.put(s, root, path, ('a', e.ST, 0, tuple(n)))
            out.append((('a', dty, 0, (('a', okty, 0, ()),)) if ok else ('a', dty, 1, (e.fresh(errty, 'steperr'),)), s))
    return out


class Res:
    pass


def scanner_type(P):
    k = P.one(NEXT)
    return P.T[P.bodies[k]['locals'][1]]['to']


def engine(P, ST):
    common.reset()
    e = SEng(P)
    e.setup(ST)
    if not P.find(UPDATE):
        raise eng.Anchor('reader::yaml_parser_update_buffer')
    e.overrides = {UPDATE: update}
    if not e.refill:
        raise eng.Anchor('a caller of reader::yaml_parser_update_buffer')
    return e


def merge(R, e):
    R.panics.update({q: w for q, w in e.panics.items() if q not in R.panics})
    R.viol.update(e.viol)
    for f, n in e.seen_fns.items():
        R.fns[f] = R.fns.get(f, 0) + n
    R.skipped |= e.skipped
    for n, c in e.unmodelled.items():
        R.unmod[n] = R.unmod.get(n, 0) + c


def newres():
    R = Res()
    R.panics, R.viol, R.fns, R.skipped, R.unmod, R.inv, R.outs = {}, {}, {}, set(), {}, [], 0
    return R


def chars(P):
    """every scanner step at the level of characters"""
    ST = scanner_type(P)
    R = newres()
    for started in (1, 0):
        e = engine(P, ST)
        e.volatile([n for n in e.ft if n not in ('buffer', 'stream_start_produced', 'read_handler')])
        st = scanner(e, 'flat')
        e.put(st, ('o', 's'), (('f', None, e.fi['stream_start_produced'], None),), val.I(started))
        R.outs += len(e.call_key(P.one(NEXT), [('r', ('o', 's'), ())], st, 0, ()))
        merge(R, e)
    return R


ENTRIES = ('fetch_next_token', 'fetch_more_tokens', 'scan', 'peek', 'peek_mut', 'skip_token')


def tokens(P):
    """every operation of the scanner at the level of tokens"""
    ST = scanner_type(P)
    G = graph.Graph(P)
    E = effects.Effects(P, G, {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == P.T[ST]['path']})
    names = [n for n, t in P.fields(ST)]
    T = {names.index(n) for n in TFIELDS}
    R = newres()
    R.E, R.G = E, G
    loose = [n for n in names if n not in TFIELDS]
    for fn in ENTRIES:
        key = P.one(r'^scanner::Scanner::<R>::%s$' % fn)
        for variant in ('flat', 'deep', 'fresh'):
            for avail in (None,) if fn == 'fetch_next_token' else (False, True):
                if variant == 'fresh' and avail:
                    continue
                if fn in ('skip_token',) and not avail or fn == 'fetch_more_tokens' and avail:
                    continue
                e = engine(P, ST)
                e.volatile(loose)
                e.UNROLL, e.FOLD, e.levels = 1, 1, True
                e.skip = {k for k in P.bodies if P.bodies[k]['local'] and not (E.w[k] & T)
                          and any(E.refers(t) for t in P.bodies[k]['locals'][1:P.bodies[k]['argc'] + 1])}
                if fn != 'fetch_next_token':
                    e.overrides[NEXT] = contract
                st = scanner(e, variant, avail)
                outs = e.call_key(key, [('r', ('o', 's'), ())], st, 0, ())
                merge(R, e)
                R.outs += len(outs)
                for v, s in outs:
                    ready = s.decide(s.mem[('o', 's')][3][e.fi['token_available']]) is True \
                        if fn != 'fetch_next_token' else False
                    b = inv_broken(e, s, ready)
                    res = e.vname(v[1], v[2]) if v[0] == 'a' and e.T[v[1]].get('enum') else '-'
                    R.inv.append((fn, variant, avail, res, b))
    return R
