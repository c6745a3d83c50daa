"""The reader: from the bytes of a BufRead to the characters of the buffer.

The stream is abstract: every call may fail, be interrupted, end the input or
hand out any non-empty piece of it.  Ghost values follow one activation:
 bal       bytes taken from the stream less those the characters stored stand for
 pend      the character decoded last, until it is stored
 io        outcome of the last stream operation (ok, retry, fail, end)
 bad       the bytes just decoded are malformed in any continuation
 b0 b1 b2  the next bytes of the stream
"""
import common
import dom as D
import eng
import models
import val
from checks import scan
from state import State

# what YAML allows in a stream (spec 1.2 rule c-printable)
PRINT = ((0x09, 0x0a), (0x0d, 0x0d), (0x20, 0x7e), (0x85, 0x85), (0xa0, 0xd7ff), (0xe000, 0xfffd),
         (0x10000, 0x10ffff))
SUR = ((0xd800, 0xdfff),)


def put(st, k, v):
    st.ghost = dict(st.ghost)
    st.ghost[k] = v


def lead_chars(dom):
    """characters whose UTF-8 form starts with one of these bytes"""
    out = []
    for b in D.elems(D.inter(dom, ((0, 0xf4),))):
        if b < 0x80:
            out.append((b, b))
        elif 0xc2 <= b < 0xe0:
            out.append(((b & 31) << 6, ((b & 31) << 6) + 63))
        elif 0xe0 <= b < 0xf0:
            out.append((max((b & 15) << 12, 0x800), ((b & 15) << 12) + 0xfff))
        elif 0xf0 <= b:
            out.append((max((b & 7) << 18, 0x10000), min(((b & 7) << 18) + 0x3ffff, 0x10ffff)))
    return D.inter(D.iset(*out), D.CHARS)


class REng(scan.SEng):
    UNROLL = 1

    def cb_strict(self, ctx):
        return False

    def finish(self, ctx, exits):
        return eng.Eng.finish(self, ctx, exits)

    def exit_key(self, st):
        if st.ghost.get('f0') is None:
            return None
        return tuple(st.range_of(val.lin(st.ghost['f%d' % i])) for i in range(3))

    def start(self, st):
        self.src = {}
        self.texts = {}
        self.pos = {}
        self.group = 0
        self.endian = {}
        self.detected = []
        self.unknown = {}
        self.stores = set()
        put(st, 'bal', val.I(0))
        put(st, 'pend', None)
        put(st, 'io', 'ok')
        put(st, 'bad', False)
        put(st, 'u16', False)
        self.bytes_from(st, [])

    def bytes_from(self, st, keep):
        """the next bytes: those in `keep`, then unknown ones"""
        if st.ghost.get('at0') and st.ghost.get('b0') is not None:
            for i in range(3):
                put(st, 'f%d' % i, st.ghost['b%d' % i])
            put(st, 'at0', False)
        ks = list(keep)[:3]
        if ks and ks[-1][2] and ks[-1][2][0][0] in self.pos:
            g, n = self.pos[ks[-1][2][0][0]]
        else:
            self.group += 1
            g, n = self.group, -1
        while len(ks) < 3:
            n += 1
            s = D.fresh(((0, 255),), 'byte')
            self.pos[s] = (g, n)
            ks.append(('i', 0, ((s, 1),)))
        for i, x in enumerate(ks):
            put(st, 'b%d' % i, x)

    def taken(self, st, n):
        self.balance(st, n)
        if not n[1] and n[0] <= 3:
            self.bytes_from(st, [st.ghost['b%d' % i] for i in range(n[0], 3)])
        else:
            self.bytes_from(st, [])

    def balance(self, st, n):
        b = D.ladd(val.lin(st.ghost['bal']), n)
        put(st, 'bal', val.I(0) if st.lo(b) == 0 == st.hi(b) else val.from_lin(b))

    def flag(self, ctx, what, line):
        self.viol.setdefault((ctx.body['path'], 'reading', what), (line, list(ctx.chain)[-4:]))

    def decoded(self, ctx, st, c, u16, line):
        if st.ghost['pend'] is not None:
            self.flag(ctx, 'a decoded character is not stored', line)
        put(st, 'pend', val.from_lin(c))
        put(st, 'u16', u16)
        put(st, 'bad', False)

    def cb_push(self, ctx, st, v, c, line):
        p = st.ghost['pend']
        self.stores.add((ctx.body['path'], line))
        if p is None:
            self.flag(ctx, 'stores a character that was not just decoded', line)
        else:
            l = val.lin(p)
            d = D.lsub(l, val.lin(c)) if c[0] == 'i' else None
            if d is None or not (st.lo(d) == 0 == st.hi(d)):
                self.flag(ctx, 'stores another character than the one decoded', line)
            if not D.subset(st.range_of(l), PRINT):
                self.flag(ctx, 'a character outside the printable set is accepted', line)
            w = val.lin(models.width(self, st, l, models.W16 if st.ghost['u16'] else models.W8))
            if st.ghost['u16']:
                w = D.lscale(w, 2)
            self.balance(st, D.lscale(w, -1))
            put(st, 'pend', None)
        n = D.derive(v[4], 'push', ((1, D.STEPS),))
        st.assume_le(D.ladd(D.lsub(D.var(v[4]), D.var(n)), D.const(1)))
        return ('cb', v[1], False, v[3], n)

    def put_in(self, st, v, path, i, nv):
        if i == len(path) - 1 and path[i][0] == 'f' and v is not None and v[0] in 'as' and v[1] == self.ST:
            if path[i][2] == self.fi['encoding']:
                self.detect(st, nv)
            elif path[i][2] == self.fi['eof']:
                if st.decide(nv) is not False and st.ghost['io'] != 'end':
                    self.viol.setdefault(('reader', 'reading', 'the end of the input is assumed'), (0, []))
        return scan.SEng.put_in(self, st, v, path, i, nv)

    def detect(self, st, v):
        n = val.lin(st.ghost['bal'])
        nm = self.encname(st, v)
        b = [st.ghost['f%d' % i] for i in range(3)]
        if b[0] is None:
            b = [st.ghost['b%d' % i] for i in range(3)]
        self.detected.append((nm, (st.lo(n), st.hi(n)), tuple(st.range_of(val.lin(x)) for x in b)))
        put(st, 'bal', val.I(0))

    def encoding(self, st):
        v = st.mem.get(('o', 's'))
        if v is None or v[0] != 'a':
            return None
        return self.encname(st, v[3][self.fi['encoding']])

    def encname(self, st, v):
        t = self.ft['encoding']
        l = val.lin(self.discr(v, t))
        if st.lo(l) != st.hi(l):
            return None
        i = self.p.variant_of(t, st.lo(l))
        return self.vname(t, i) if i is not None else None

    def unit(self, ctx, st, v, line):
        """a 16-bit unit: which byte order was used to make it"""
        order = None
        if v[0] == 'i' and v[1] == 0 and len(v[2]) == 2:
            (s, a), (t, b) = v[2]
            if s in self.pos and t in self.pos and self.pos[s][0] == self.pos[t][0] and {a, b} == {1, 256}:
                hi, lo = (s, t) if a == 256 else (t, s)
                d = self.pos[lo][1] - self.pos[hi][1]
                order = {1: 'big', -1: 'little'}.get(d)
        enc = self.encoding(st)
        self.endian.setdefault((enc, order), (ctx.body['path'], line))

    def elem_of(self, st, arg):
        """(element type, slice symbol, array root/path, length) of a slice argument"""
        root, path, v = models.target(self, st, arg)
        L = v[4] if v[0] == 'slice' else models.seq_len(self, st, v)
        return root, path, v, L

    def first_byte(self, st, arg):
        root, path, v = models.target(self, st, arg)
        if v[0] == 'slice':
            if v[3][1] or v[3][0]:
                return None
            base = self.get(st, v[1], v[2])
        else:
            base = v
        if base is None:
            return None
        return self.elem_get(st, base, (0, ()))


def ok(dty, v):
    return ('a', dty, 0, (v,))


def result(e, dty):
    return e.T[dty]['args']


def unit_value(e, ty):
    return ('a', ty, 0, ())


def fill_buf(e, ctx, st, ci, args, dty, line):
    okty, errty = result(e, dty)
    if st.ghost['io'] == 'fail':
        e.flag(ctx, 'reading goes on after a failed read', line)
    out = []
    for io in ('retry', 'fail'):
        s = st.copy()
        put(s, 'io', io)
        out.append((('a', dty, 1, (e.fresh(errty, io),)), s))
    sty = e.T[okty]['to']
    for n in ('end', 'ok'):
        s = st.copy()
        put(s, 'io', n)
        sl = D.fresh(((0, 0),), 'piece')
        r = ('m', D.fresh(((0, 0),), 'pieceroot'))
        s.mem[r] = ('s', sty, sl)
        L = D.derive(sl, 'len', ((0, D.STEPS),))
        s.assume_in(D.var(L), ((0, 0),) if n == 'end' else ((1, D.STEPS),))
        if n == 'ok':
            e.group += 1
            for i in range(3):
                x = e.child(e.T[sty]['to'], sl, ('x', i))
                s.assume_in(val.lin(x), s.range_of(val.lin(s.ghost['b%d' % i])))
                e.pos[x[2][0][0]] = (e.group, i)
                put(s, 'b%d' % i, x)
        out.append((ok(dty, ('r', r, ())), s))
    return out


def consume(e, ctx, st, ci, args, dty, line):
    e.taken(st, val.lin(args[1]))
    return [(unit_value(e, dty), st)]


def read_exact(e, ctx, st, ci, args, dty, line):
    okty, errty = result(e, dty)
    if st.ghost['io'] == 'fail':
        e.flag(ctx, 'reading goes on after a failed read', line)
    bad = st.copy()
    put(bad, 'io', 'fail')
    root, path, v, L = e.elem_of(st, args[1])
    if v[0] == 'slice':
        base, bp, off = v[1], v[2], v[3]
    else:
        base, bp, off = root, path, (0, ())
    arr = e.get(st, base, bp)
    put(st, 'io', 'ok')
    if arr is not None and arr[0] == 'a' and off == (0, ()):
        f = list(arr[3])
        for i in range(len(f)):
            if i < st.lo(L) and i < 3:
                f[i] = st.ghost['b%d' % i]
            elif i < st.hi(L):
                f[i] = e.fresh_int(((0, 255),), 'byte') if not (i < 3) else st.ghost['b%d' % i]
        e.put(st, base, bp, arr[:3] + (tuple(f),))
    else:
        e.unknown.setdefault('read_exact into an unknown place', line)
    e.taken(st, L)
    return [(ok(dty, unit_value(e, okty)), st), (('a', dty, 1, (e.fresh(errty, 'ioerr'),)), bad)]


def other_io(e, ctx, st, ci, args, dty, line):
    e.unknown.setdefault(ci.get('path') or ci['decl'], line)
    return None


def err_kind(e, ctx, st, ci, args, dty, line):
    i = next((i for i, v in enumerate(e.T[dty]['v']) if v['n'] == 'Interrupted'), None)
    if i is None or st.ghost['io'] not in ('retry', 'fail'):
        return None
    if st.ghost['io'] == 'retry':
        return [(('a', dty, i, ()), st)]
    v = e.fresh(dty, 'kind')
    d = e.discr(v, dty)
    st.assume_in(val.lin(d), D.iset(*((x['d'], x['d']) for x in e.T[dty]['v'] if x['n'] != 'Interrupted')))
    return [(v, st)]


def kind_eq(e, ctx, st, ci, args, dty, line):
    vs = [models.target(e, st, a)[2] for a in args]
    ls = [val.lin(e.discr(v, v[1])) for v in vs]
    c = val.cmp('eq', D.lsub(ls[0], ls[1]))
    return [(val.v_not(c) if (ci.get('path') or ci['decl']).endswith('::ne') else c, st)]


def from_utf8(e, ctx, st, ci, args, dty, line):
    root, path, v, L = e.elem_of(st, args[0])
    # the same bytes of a piece are the same text, whichever path led here
    memo = {}
    if v[0] == 'slice' and v[1][0] == 'm':
        unchecked = e.T[dty]['k'] == 'ref'
        memo = e.texts.setdefault((v[:4] if unchecked else v, unchecked), {})
    s = memo.get('text')
    if s is not None:
        k = D.CH[(s[2], 'len')]
        if k in st.dom or any(k == x for f in st.facts for x, _ in f[1]):
            s = None
    s = s or models.new_str(e)
    memo['text'] = s
    n = D.derive(s[2], 'len', ((0, D.STEPS),))
    fb = e.first_byte(st, args[0])
    good = st.copy()
    good.assume_eq(D.lsub(D.var(n), L))
    e.src[s[2]] = fb
    if e.T[dty]['k'] == 'ref':
        return [(models.str_view(e, good, s), good)]
    okty, errty = result(e, dty)
    out = [(ok(dty, models.str_view(e, good, s)), good)]
    nz, _ = st.split(val.cmp('le', D.lsub(D.const(1), L)))
    for q in nz:
        q = q.copy()
        x = memo.get('err') or D.fresh(((0, 0),), 'utf8err')
        memo['err'] = x
        u = D.derive(x, 'upto', ((0, D.STEPS),))
        q.assume_le(D.ladd(D.lsub(D.var(u), L), D.const(1)))
        e.src[x] = fb
        whole = v[0] == 'slice' and v[1][0] != 'm' or v[0] == 'a'
        if whole:
            put(q, 'bad', True)       # exactly the bytes of one character were taken
        out.append((('a', dty, 1, (('s', errty, x),)), q))
    return out


def errsym(e, st, a):
    v = models.target(e, st, a)[2]
    return v[2] if v is not None and v[0] == 's' else None


def valid_up_to(e, ctx, st, ci, args, dty, line):
    x = errsym(e, st, args[0])
    if x is None or (x, 'upto') not in D.CH:
        return None
    return [(('i', 0, ((D.CH[(x, 'upto')], 1),)), st)]


def error_len(e, ctx, st, ci, args, dty, line):
    x = errsym(e, st, args[0])
    if x is None or (x, 'upto') not in D.CH:
        return None
    u = D.var(D.CH[(x, 'upto')])
    out = []
    s = st.copy()
    put(s, 'bad', True)
    out.append((models.some(e, dty, e.fresh_int(((1, 3),), 'badlen')), s))
    at0, later = st.split(val.cmp('eq', u))
    for q in at0:
        q = q.copy()
        fb = e.src.get(x)
        if fb is None or q.assume_in(val.lin(fb), ((0xc2, 0xf4),)):
            out.append((models.none(e, dty), q))
    for q in later:
        out.append((models.none(e, dty), q))
    return out


def chars_next(e, ctx, st, ci, args, dty, line):
    root, path, it = models.target(e, st, args[0])
    if it is None or it[0] != 'it' or it[1] != 'chars' or it[4] != 'c' or it[2][0] != 'S' or it[2][1] is not None:
        return None
    s, off = it[2], it[5]
    L = models.str_len(e, st, s)
    more, end = st.split(val.cmp('le', D.ladd(D.lsub(off, L), D.const(1))))
    out = []
    for q in end:
        q = q.copy()
        if q.assume_eq(D.lsub(off, L)):
            out.append((models.none(e, dty), q))
    fb = e.src.get(s[2])
    c = D.fresh(D.CHARS, 'dec')
    for q, cls in [(q, cls) for q in more for cls, _ in models.W8]:
        q = q.copy()
        if not q.assume_in(D.var(c), (cls,)):
            continue
        if off == (0, ()) and fb is not None:
            if not q.assume_in(D.var(c), lead_chars(q.range_of(val.lin(fb)))):
                continue
        w = val.lin(models.width(e, q, D.var(c), models.W8))
        e.decoded(ctx, q, D.var(c), False, line)
        noff = D.ladd(off, w)
        q.assume_le(D.lsub(noff, L))
        e.put(q, root, path, ('it', 'chars', s, min(it[3] + 1, 2), 'c', noff))
        out.append((models.some(e, dty, val.from_lin(D.var(c))), q))
    return out


def chunks(e, ctx, st, ci, args, dty, line):
    x = D.fresh(((0, 0),), 'chunks')
    n = val.lin(args[1])
    e.src[x] = n[0] if not n[1] else None
    return [(('s', dty, x), st)]


def decode_utf16(e, ctx, st, ci, args, dty, line):
    v = args[0]
    y = D.fresh(((0, 0),), 'u16')
    e.src[y] = None
    if v[0] == 'a' and e.T[v[1]]['k'] == 'array':
        e.src[y] = ('units', v[3])
        e.unit(ctx, st, v[3][0], line)
    elif v[0] == 'a' and len(v[3]) == 2 and v[3][0][0] == 's' and e.src.get(v[3][0][2]) == 2:
        # the units are made from the bytes by the function given to map()
        sty = None
        f = v[3][1]
        sl = D.fresh(((0, 0),), 'chunk')
        e.group += 1
        q = st.copy()
        r = ('m', D.fresh(((0, 0),), 'chunkroot'))
        sty = next(i for i, t in enumerate(e.T) if t['k'] == 'slice' and e.T[t['to']].get('s') == 'u8')
        q.mem[r] = ('s', sty, sl)
        q.assume_in(D.var(D.derive(sl, 'len', ((0, D.STEPS),))), ((2, 2),))
        for i in range(2):
            e.pos[e.child(e.T[sty]['to'], sl, ('x', i))[2][0][0]] = (e.group, i)
        uty = next(i for i, t in enumerate(e.T) if t.get('s') == 'u16')
        for w, q2 in e.call_value(ctx, q, f, [('r', r, ())], uty, line):
            e.unit(ctx, q2, w, line)
        e.src[y] = ('stream',)
    else:
        e.unknown.setdefault('decode_utf16 of an unknown sequence', line)
    return [(('s', dty, y), st)]


def u16_next(e, ctx, st, ci, args, dty, line):
    root, path, v = models.target(e, st, args[0])
    src = e.src.get(v[2]) if v is not None and v[0] == 's' else None
    if src is None:
        e.unknown.setdefault('decode_utf16 of an unknown sequence', line)
        return None
    rty = e.T[dty]['args'][0]
    errty = e.T[rty]['args'][1]
    out = []

    def good(s, dom, eq=None):
        c = D.fresh(D.CHARS, 'dec')
        s.assume_in(D.var(c), dom)
        if eq is not None:
            s.assume_eq(D.lsub(D.var(c), eq))
        e.decoded(ctx, s, D.var(c), True, line)
        out.append((models.some(e, dty, ok(rty, val.from_lin(D.var(c)))), s))

    def fail(s, bad):
        put(s, 'bad', bad)
        out.append((models.some(e, dty, ('a', rty, 1, (e.fresh(errty, 'u16err'),))), s))
    if src[0] == 'stream':
        out.append((models.none(e, dty), st.copy()))
        for d in (((0, 0xd7ff), (0xe000, 0xffff)), ((0x10000, 0x10ffff),)):
            good(st.copy(), d)
        fail(st.copy(), False)
        return out
    u = val.lin(src[1][0])
    sur, plain = st.split(val.v_in(u, SUR))
    for q in plain:
        good(q.copy(), D.inter(q.range_of(u), D.CHARS), u)
    for q in sur:
        if len(src[1]) >= 2:
            good(q.copy(), ((0x10000, 0x10ffff),))
        fail(q.copy(), True)
    return out


def from_bytes(e, ctx, st, ci, args, dty, line):
    v = args[0]
    if v[0] != 'a' or any(x[0] != 'i' for x in v[3]):
        return None
    be = 'from_be' in (ci.get('path') or ci['decl'])
    bits = e.T[dty].get('bits', 64)
    l = (0, ())
    for i, x in enumerate(v[3] if not be else v[3][::-1]):
        l = D.ladd(l, D.lscale(val.lin(x), 256 ** i))
    r = e.p.trange(dty)
    if not D.subset(st.range_of(l), r):
        return [(e.fresh_int(r, 'word'), st)]
    return [(val.from_lin(l), st)]


def array_eq(e, ctx, st, ci, args, dty, line):
    a, b = (models.target(e, st, x)[2] for x in args)
    if a is None or b is None or a[0] != 'a' or b[0] != 'a' or len(a[3]) != len(b[3]):
        return None
    c = None
    for x, y in zip(a[3], b[3]):
        if x[0] != 'i' or y[0] != 'i':
            return None
        t = val.cmp('eq', D.lsub(val.lin(x), val.lin(y)))
        c = t if c is None else val.v_and(c, t)
    if (ci.get('path') or ci['decl']).endswith('::ne'):
        c = val.v_not(c)
    return [(c, st)]


OVERRIDES = {
    r'^std::io::BufRead::fill_buf$': fill_buf,
    r'^std::io::BufRead::consume$': consume,
    r'^std::io::Read::read_exact$': read_exact,
    r'^std::io::(Buf)?Read::': other_io,
    r'^std::io::Error::kind$': err_kind,
    r'^<std::io::ErrorKind as std::cmp::PartialEq>::(eq|ne)$': kind_eq,
    r'^std::str::from_utf8(_unchecked)?$': from_utf8,
    r'^std::str::Utf8Error::valid_up_to$': valid_up_to,
    r'^std::str::Utf8Error::error_len$': error_len,
    r"^<std::str::Chars<.*> as std::iter::Iterator>::next$": chars_next,
    r'^core::slice::<impl \[T\]>::chunks_exact$': chunks,
    r'^std::char::decode_utf16$': decode_utf16,
    r'^<std::char::DecodeUtf16<.*> as std::iter::Iterator>::next$': u16_next,
    r'^core::num::<impl [ui]\d+>::from_[lb]e_bytes$': from_bytes,
    r'^std::array::equality::': array_eq,
}


class Res:
    pass


_cache = {}


def analyse(P):
    if id(P) in _cache:
        return _cache[id(P)]
    ST = scan.scanner_type(P)
    key = P.one(scan.UPDATE)
    R = Res()
    R.exits, R.viol, R.panics, R.endian, R.detected, R.unknown, R.fns, R.unmod, R.outs = [], {}, {}, {}, [], {}, {}, {}, 0
    R.stores = set()
    common.reset()
    e = REng(P)
    e.setup(ST)
    encty = e.ft['encoding']
    R.names = [v['n'] for v in P.T[encty]['v']]
    for i, nm in enumerate(R.names):
        common.reset()
        e = REng(P)
        e.setup(ST)
        if 'offset' in e.fi:
            e.vol[e.fi['offset']] = scan.vol_int(0, D.STEPS)
        e.overrides = OVERRIDES
        st = State()
        v = list(e.expand(e.fresh(ST, 'sc'))[3])
        v[e.fi['encoding']] = val.I(P.T[encty]['v'][i]['d'])
        rt = e.ft['read_handler']
        if P.T[rt].get('enum'):
            j = next(j for j, x in enumerate(P.T[rt]['v']) if x['n'] == 'Some')
            v[e.fi['read_handler']] = e.expand(e.fresh(rt, 'reader'), j)
        v[e.fi['buffer']] = ('cb', (), False, 0, D.fresh(((0, D.STEPS),), 'len'))
        st.mem[('o', 's')] = ('a', ST, 0, tuple(v))
        e.start(st)
        put(st, 'at0', nm == 'Any')
        for i in range(3):
            put(st, 'f%d' % i, None)
        n = e.fresh_int(((1, D.STEPS),), 'length')
        put(st, 'need', n)
        outs = e.call_key(key, [('r', ('o', 's'), ()), n], st, 0, ())
        R.outs += len(outs)
        for r, s in outs:
            R.exits += judge(e, nm, r, s)
        R.viol.update(e.viol)
        R.panics.update(e.panics)
        R.endian.update(e.endian)
        R.detected += e.detected
        R.stores |= e.stores
        R.unknown.update(e.unknown)
        for f, c in e.seen_fns.items():
            R.fns[f] = R.fns.get(f, 0) + c
        for f, c in e.unmodelled.items():
            R.unmod[f] = R.unmod.get(f, 0) + c
    _cache[id(P)] = R
    return R


def not_text(s):
    """the first bytes are neither a byte order mark nor UTF-8"""
    if s.ghost['f0'] is None:
        return False
    a, b = val.lin(s.ghost['f0']), val.lin(s.ghost['f1'])
    for x, y in ((0xff, 0xfe), (0xfe, 0xff)):
        q = s.copy()
        if q.assume_in(a, ((x, x),)) and q.assume_in(b, ((y, y),)):
            return False
    return D.subset(s.range_of(a), ((0xf5, 0xff), (0x80, 0xc1)))


def judge(e, enc, r, s):
    """what is wrong with the exit (None: nothing)"""
    g = s.ghost
    v = s.mem[('o', 's')][3]
    good = e.vname(r[1], r[2]) if r[0] == 'a' else None
    out = []
    if good == 'Ok':
        d = val.lin(g['bal'])
        if not (s.lo(d) == 0 == s.hi(d)):
            out.append('bytes taken from the stream and characters stored differ')
        if g['pend'] is not None:
            out.append('a decoded character is not stored')
        if g['io'] in ('fail', 'retry'):
            out.append('a failed read is not reported')
        b = v[e.fi['buffer']]
        ln = D.lsub(val.lin(g['need']), D.var(b[4]))
        if s.hi(ln) > 0 and s.decide(v[e.fi['eof']]) is not True:
            out.append('returns with fewer characters than requested before the end of the input')
    elif good == 'Err':
        if g['io'] == 'retry':
            out.append('an interrupted read is reported instead of retried')
        elif g['io'] != 'fail' and not g['bad']:
            p = g['pend']
            if p is None:
                if not not_text(s):
                    out.append('well-formed input is rejected')
            elif D.inter(s.range_of(val.lin(p)), PRINT):
                out.append('a printable character is rejected')
    else:
        out.append('unknown outcome')
    return [(enc, good, x) for x in out] or [(enc, good, None)]


# ---- the properties ------------------------------------------------------------
BUFFERED = ('a character outside the printable set is accepted', 'a printable character is rejected')


def base(P, rep):
    R = analyse(P)
    rep.analysed(R.fns)
    rep.say('reader: %d outcomes of a request for characters, %d functions' % (R.outs, len(R.fns)))
    rep.check(R.outs >= 8, 'reader:outcomes', 'only %d outcomes' % R.outs)
    for n, l in R.unknown.items():
        rep.fail('unknown:' + n, 'line %s: %s' % (l, n))
    for n in R.unmod:
        rep.undec('call:' + n, 'unmodelled call')
    oks = {(enc, good) for enc, good, _ in R.exits}
    for enc in R.names:
        for good in ('Ok', 'Err'):
            rep.check((enc, good) in oks, 'reached:%s:%s' % (enc, good), 'no %s outcome for encoding %s' % (good, enc))
    return R


def delivery(P, rep, tier):
    rep.rule = ('The reader is interpreted abstractly over a byte stream that may hand out any non-empty piece, be '
                'interrupted, fail or end at every call: on success the bytes taken are exactly those the stored '
                'characters stand for and enough characters are ready unless the stream has ended; it fails only after '
                'a failed read or malformed bytes. The scanner is interpreted with an exact look-ahead buffer from '
                'every state: it never looks at a position it has not requested, at how much is buffered, or at the '
                'end-of-input flag.')
    R = base(P, rep)
    for enc, good, what in R.exits:
        if what not in BUFFERED:
            rep.check(what is None, 'request:%s:%s:%s' % (enc, good, what or 'ok'), 'with encoding %s, outcome %s: %s' % (
                enc, good, what))
    for (fn, kind, what), (line, chain) in R.viol.items():
        if what not in BUFFERED:
            rep.fail('%s:%s' % (fn, what), 'line %s of %s: %s' % (line, fn, what))
    from checks import nopanic
    A = scan.chars(P)
    rep.analysed(A.fns)
    rep.say('scanner: %d functions interpreted with the look-ahead buffer' % len(A.fns))
    rep.check(len(A.fns) >= 60, 'scanner:functions', 'only %d functions' % len(A.fns))
    for (fn, kind, what), (line, chain) in A.viol.items():
        rep.fail('%s:%s' % (fn, what), 'line %s of %s: %s (%s)' % (line, fn, what, nopanic.show(chain)))
    for k in A.fns:
        b = P.bodies[k]
        if b['local']:
            rep.ok('look-ahead:' + b['path'])
    # nothing but the reader may know that the input has ended
    import effects
    import graph
    ST = scan.scanner_type(P)
    G = graph.Graph(P)
    E = effects.Effects(P, G, {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == P.T[ST]['path']})
    names = [n for n, t in P.fields(ST)]
    up = set(P.find(scan.UPDATE))
    inside = G.reach(up)
    n = 0
    for f in ('eof', 'offset'):
        if f not in names:
            rep.undec('field:' + f, 'the scanner has no such field')
            continue
        i = names.index(f)
        for k in sorted(G.reach(P.find(r'^parser::Parser::<R>::parse$') + P.find(scan.NEXT))):
            b = P.bodies[k]
            if k in inside or not b['local']:
                continue
            n += 1
            rep.check(i not in E.own_r[k], 'reads:%s:%s' % (b['path'], f),
                      '%s reads the field %s, which depends on how the input was delivered' % (b['path'], f))
    rep.say('%d function/field pairs checked' % n)


def printable(P, rep, tier):
    rep.rule = ('At every place where the reader stores a character the set of values it can have is computed and must '
                'lie within the printable set of YAML 1.2; at every exit with an error that is due neither to the '
                'stream nor to malformed bytes the rejected character must lie outside it.')
    R = base(P, rep)
    n = 0
    for enc, good, what in R.exits:
        if what is None:
            rep.ok('exit:%s:%s' % (enc, good))
            n += 1
        elif what in BUFFERED or what == 'well-formed input is rejected':
            rep.fail('exit:%s:%s' % (enc, what), 'with encoding %s: %s' % (enc, what))
    for (fn, kind, what), (line, chain) in R.viol.items():
        if what in BUFFERED or what == 'stores a character that was not just decoded':
            rep.fail('%s:%s' % (fn, what), 'line %s of %s: %s' % (line, fn, what))
    rep.check(R.stores, 'stores', 'no place where a character is stored')
    rep.say('%d places where a character is stored, %d outcomes' % (len(R.stores), n))
    rep.note('printable', [list(map(hex, x)) for x in PRINT])


WANT = {'Utf16Le': ('little', 2, (0xff, 0xfe)), 'Utf16Be': ('big', 2, (0xfe, 0xff)), 'Utf8': (None, 3, (0xef, 0xbb, 0xbf))}


def encodings(P, rep, tier):
    rep.rule = ('Where the encoding is settled from the first bytes: exactly the byte order marks FF FE, FE FF and '
                'EF BB BF are dropped and settle UTF-16 little endian, big endian and UTF-8; anything else is UTF-8 and '
                'loses no byte. Every 16-bit unit decoded is put together in the byte order of the encoding in force.')
    R = base(P, rep)
    seen = set()
    for nm, (lo, hi), first in R.detected:
        at = [D.iset(*x) if x else () for x in first]
        if nm not in WANT:
            rep.fail('detected:%s' % nm, 'the encoding is set to %s' % nm)
            continue
        _, n, bom = WANT[nm]
        isbom = all(D.subset(r, ((b, b),)) for r, b in zip(at, bom))
        key = 'detected:%s:%s' % (nm, 'mark' if isbom else 'none')
        seen.add(key)
        if isbom:
            rep.check((lo, hi) == (n, n), key, 'after the byte order mark of %s, %s to %s bytes are dropped' % (nm, lo, hi))
            continue
        rep.check(nm == 'Utf8', key, '%s is assumed without its byte order mark (first bytes %s)' % (nm, at))
        rep.check((lo, hi) == (0, 0), key + ':kept', 'without byte order mark %s to %s bytes are dropped' % (lo, hi))
        for other, (_, m, mark) in WANT.items():
            rep.check(not all(D.inter(r, ((b, b),)) for r, b in list(zip(at, mark))[:m]), '%s:not %s' % (key, other),
                      'the byte order mark of %s is not recognised (first bytes %s)' % (other, at))
    for k in ('Utf8:mark', 'Utf8:none', 'Utf16Le:mark', 'Utf16Be:mark'):
        rep.check('detected:' + k in seen, 'detected:' + k, 'never detected: %s' % k)
    for (enc, order), (fn, line) in R.endian.items():
        if enc in WANT and WANT[enc][0]:
            rep.check(order == WANT[enc][0], 'order:%s:%s' % (enc, fn),
                      'line %s of %s: 16-bit units of %s are put together %s' % (line, fn, enc, order or 'in no known order'))
        else:
            rep.fail('order:%s:%s' % (enc, fn), 'line %s of %s: 16-bit units decoded with encoding %s' % (line, fn, enc))
    for enc in ('Utf16Le', 'Utf16Be'):
        rep.check(any(q == enc for q, _ in R.endian), 'units:' + enc, 'no 16-bit unit is decoded with encoding ' + enc)
    for enc, good, what in R.exits:
        if what and 'differ' in what:
            rep.fail('bytes:%s' % enc, 'with encoding %s: %s' % (enc, what))
        elif what is None:
            rep.ok('bytes:%s' % enc)
    for (fn, kind, what), (line, chain) in R.viol.items():
        if what.startswith('stores another'):
            rep.fail('%s:%s' % (fn, what), 'line %s of %s: %s' % (line, fn, what))
    rep.say('settled: %s' % ', '.join(sorted(seen)))
