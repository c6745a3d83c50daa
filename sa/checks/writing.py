"""What is written for a scalar reads back as that scalar.

The text is followed character by character (styles.Window).  Everything that
goes to the output buffer is given to a decoder of the style, written from the
rules of the language; what it decodes has to be the text, in order.
"""
import re
import time

import common
import dom as D
import eng
import graph
import match
import models
import val
from checks import flushing
from checks.emitting import OUT
from checks.styles import BREAK, END, PRINTABLE, SPACE, Window, chars
from state import State
from val import I, const, lin

NL = D.iset((10, 10), (13, 13), (0x85, 0x85))
LS = D.iset((0x2028, 0x2029))
NOBREAK = D.minus(D.CHARS, BREAK)
PLAIN_RAW = D.minus(PRINTABLE, BREAK)
# what a reader takes between double quotes as it is
RAW = D.union(D.minus(PLAIN_RAW, D.iset((0x22, 0x22), (0x5C, 0x5C), (0xFEFF, 0xFEFF))), D.iset((9, 9)))
ASCII = D.iset((0, 0x7F))
ESC = {'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 0x1B, ' ': 0x20, '"': 0x22, '/': 0x2F,
       '\\': 0x5C, 'N': 0x85, '_': 0xA0, 'L': 0x2028, 'P': 0x2029}
HEX = {'x': 2, 'u': 4, 'U': 8}
DIGITS = D.iset((48, 57), (65, 70), (97, 102))

LENGTHS = [D.inter(D.CHARS, D.iset(p)) for p in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xFFFF), (0x10000, 0x10FFFF))]
TAGCHARS = D.union(D.iset((48, 57), (65, 90), (97, 122)), chars("-_;/?:@&=+$,.~*'()[]"))


class Writer(Window, eng.Eng):
    UNROLL = 1
    KEEP = 3
    EXITS = 40
    style = None
    unicode = True

    def setup(self):
        self.bad, self.unknown, self.compared = [], [], 0
        self.followed = set()
        self.probe = 0
        self.hooks = {}
        self.digits = {}

    def enter(self, ctx, st, key, args, line):
        h = self.hooks.get(key)
        if h is not None:
            return h(ctx, st, key, args, line)
        return eng.Eng.enter(self, ctx, st, key, args, line)

    # -- the text
    def classes(self, st):
        """(class, characters) the next character of the text may be"""
        g = st.ghost
        p, first, after = g['cls'], g['cls'] is None, g['after']
        if self.style == 'tag':
            return [('c', r) for r in LENGTHS]
        if self.style == 'double':
            return [('nl', D.iset((10, 10))), ('sp', SPACE), ('c', D.minus(D.CHARS, D.iset((10, 10), (32, 32))))]
        r = {'nl': D.iset((10, 10)), 'ls': LS, 'sp': SPACE, 'c': PLAIN_RAW if self.unicode else D.inter(PLAIN_RAW, ASCII)}
        r['c'] = D.minus(r['c'], SPACE)
        if not self.unicode:
            del r['ls']
        if self.style == 'plain':
            for n in ('nl', 'ls'):
                r.pop(n, None)
            if first:
                del r['sp']
        else:
            if p == 'sp':           # analysed as not fit for these styles
                r.pop('nl', None)
                r.pop('ls', None)
            if p == 'brk' and self.style == 'single':
                del r['sp']
        if p == 'brk' and after is not None:
            r = {n: x for n, x in r.items() if n in ('nl', 'ls') or n == after}
        return list(r.items())

    def may_end(self, st):
        g = st.ghost
        if self.style in ('plain', 'literal', 'folded') and g['cls'] == 'sp':
            return False
        return not (g['cls'] == 'brk' and g['after'] not in (None, 'end'))

    def look(self, st, k):
        v = st.mem.get(('o', 'w', k))
        if v is not None:
            return [(v, st)]
        if k and st.mem.get(('o', 'w', k - 1)) is None:
            raise eng.Give('characters are not read in order')
        if k and st.mem[('o', 'w', k - 1)] == I(END):
            return [(I(END), st)]
        first = k == 0 and st.ghost['base'] == 0
        if first:
            L = models.str_len(self, st, ('S', None, self.window))
            some, none = st.split(val.cmp('le', D.lsub(const(1), L)))
        else:
            some, none = [st.copy()], [st.copy()]
        out = []
        for q in none:
            if self.may_end(q):
                q.mem[('o', 'w', k)] = I(END)
                q.ghost = dict(q.ghost, end=True)
                out.append((I(END), q))
        for q in some:
            for n, r in self.classes(q):
                if not r:
                    continue
                brk = n in ('nl', 'ls')
                afters = [q.ghost['after'] if brk and q.ghost['cls'] == 'brk' else None]
                if self.style == 'folded' and brk and afters[0] is None:
                    afters = ['sp', 'c', 'end']
                for a in afters:
                    t = q.copy()
                    c = D.fresh(r, 'ch')
                    self.followed.add(c)
                    v = ('i', 0, ((c, 1),)) if D.size(r) > 1 else I(r[0][0])
                    t.mem[('o', 'w', k)] = v
                    g = t.ghost
                    t.ghost = dict(g, cls='brk' if brk else n, after=a if brk else g['after'])
                    out.append((v, t))
        return out

    def tighten(self, st):
        pass

    def loop_head(self, ctx, bb, st):
        k = ctx.key, bb
        if k not in self.digits:
            bl = ctx.body['blocks']
            inl = [bl[i] for i in ctx.cfg.loop.get(bb, ()) if bl[i]]
            self.digits[k] = not any(b['t'][0] == 'call' and str(b['t'][1].get('path') or b['t'][1].get('decl')).endswith('::next')
                                     for b in inl) and any('from_digit' in str(b['t'][1]) for b in inl if b['t'][0] == 'call') \
                or any(s[0] == '=' and s[2][0] == 'bin' and s[2][1] in ('Shr', 'ShrUnchecked') for b in inl for s in b['s'])
        if st.ghost['lost']:
            return None
        self.UNROLL = 12 if self.digits[k] else 1
        return Window.loop_head(self, ctx, bb, st)

    def flags(self, ctx, st):
        """states that differ in this are kept apart where paths meet"""
        d, ls, out = ctx.depth, ctx.body['locals'], []
        for k, v in st.mem.items():
            if k[0] != 'l' or k[1] != d or v is None:
                continue
            t = self.T[ls[k[2]]]['k']
            if v[0] == 'i' and t in ('bool', 'char'):
                out.append((k[2], v[1] if not v[2] else '?'))
            elif v[0] == 'a' and t == 'tuple':
                out.append((k[2], tuple(x[1] if x[0] == 'i' and not x[2] else '?' for x in v[3])))
        return (tuple(sorted(out, key=repr)), self.exit_key(st))

    def head_key(self, st):
        k = Window.head_key(self, st)
        return k + (self.exit_key(st),) if self.style == 'tag' else k

    def exit_key(self, st):
        w = st.mem.get(('o', 'w', st.ghost['at']))
        if self.style == 'tag':
            bs = w is not None and w != I(END) and self.bytes_of(st, w)
            return bs and len(bs)
        return w is not None and not w[2] and w[1]

    def merge(self, ctx, bb, states):
        if self.style == 'tag':
            parts = {}
            for s in states:
                parts.setdefault(self.exit_key(s), []).append(s)
            states = [s for p in parts.values() for s in eng.Eng.merge(self, ctx, bb, p)]
        else:
            states = eng.Eng.merge(self, ctx, bb, states)
        groups = {}
        for s in states:
            groups.setdefault((match.shape(s), self.head_key(s), self.flags(ctx, s)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) <= self.KEEP:
                out += g
                continue
            res = []
            for s in g:
                j = match.join(self, res[-1], s) if res else None
                if j is None:
                    res.append(s)
                else:
                    self.gc(j)
                    res[-1] = j
            out += res
        return out

    def normalise(self, st):
        """forget the characters that every iterator and the decoder have passed"""
        offs, pinned = [st.ghost['at']], False
        n = 0

        def is_it(v):
            return v[0] == 'it' and v[1] == 'chars' and v[2] == ('S', None, self.window)

        def go(v):
            nonlocal pinned, n
            if v is None or not isinstance(v, tuple) or not v:
                return
            if is_it(v):
                offs.append(v[3])
                n += 1
            elif v[0] == 'a':
                for x in v[3]:
                    go(x)
            elif v[0] == 'r' and v[1][:2] == ('o', 'w'):
                pinned = True
        for v in st.mem.values():
            go(v)
        m = min(offs)
        if not n or pinned or not m:
            return

        def shift(v):
            if v is None:
                return v
            if is_it(v):
                return v[:3] + (v[3] - m,) + v[4:]
            if v[0] == 'a':
                return v[:3] + (tuple(shift(x) for x in v[3]),)
            return v
        mem = {}
        for k, v in st.mem.items():
            if k[:2] == ('o', 'w'):
                if k[2] >= m:
                    mem[('o', 'w', k[2] - m)] = v
            else:
                mem[k] = shift(v)
        st.mem = mem
        st.ghost = dict(st.ghost, base=1, at=st.ghost['at'] - m)
        if st.ghost['cls'] != 'brk' and not self.is_break(st, mem.get(('o', 'w', 0))):
            st.ghost = dict(st.ghost, after=None)

    # -- arithmetic on characters
    def pointwise(self, st, op, la, lb, ty):
        if not lb[1] and len(la[1]) == 1 and la[0] == 0 and la[1][0][1] == 1:
            s, b = la[1][0][0], lb[0]
            lo, hi = st.lo(la), st.hi(la)
            if lo == hi:
                return eng.Eng.pointwise(self, st, op, (lo, ()), lb, ty)
            if op in ('Div', 'Rem') and b > 0 and b & (b - 1) == 0 and lo >= 0:
                op, b = ('Shr', b.bit_length() - 1) if op == 'Div' else ('BitAnd', b - 1)
            if op in ('Shr', 'ShrUnchecked') and b == 0 or op == 'BitAnd' and lo >= 0 and hi <= b and (b + 1) & b == 0:
                return ('i', 0, ((s, 1),))
            if op in ('Shr', 'ShrUnchecked') and lo >= 0 and hi <= 0x10FFFF:
                x = D.derive(s, ('shr', b), ((0, 0x10FFFF >> b),))
                st.dom[x] = ((lo >> b, hi >> b),)
                return ('i', 0, ((x, 1),))
            if op == 'BitAnd' and b == 15 and lo >= 0:
                return ('i', 0, ((D.derive(s, ('and', b), ((0, 15),)), 1),))
        v = eng.Eng.pointwise(self, st, op, la, lb, ty)
        self.follow(la, v)
        return v

    def cast(self, ctx, st, kind, v, ty, fr):
        w = eng.Eng.cast(self, ctx, st, kind, v, ty, fr)
        if v is not None and v[0] == 'i':
            self.follow((0, v[2]), w)
        return w

    def follow(self, l, v):
        if v is not None and v[0] == 'i' and l[1] and all(self.is_followed(x) for x, _ in l[1]):
            self.followed |= {x for x, _ in v[2]}

    def override(self, path):
        if path.endswith('from_digit'):
            return Writer.from_digit
        if re.search(r'<impl char>::to_ascii_(upper|lower)case$', path):
            return Writer.letter_case
        if path.endswith('::encode_utf8'):
            return Writer.encode
        if path.endswith('::next') and 'Bytes' in path:
            return Writer.next_byte
        if path.endswith('::find') and 'Iterator' in path:
            return Writer.find
        if 'Rev<' in path and path.endswith('::next') or path.endswith('::next_back') or re.search(r'Iterator(>)?::(last|nth|nth_back)$', path):
            return Writer.from_end
        if re.search(r'<impl str>::(ends_with|strip_suffix|trim_end_matches|trim_end)$', path):
            return Writer.tail_unknown
        return eng.Eng.override(self, path)

    def from_digit(self, ctx, st, ci, args, dty, line):
        l = self.as_lin(st, args[0])
        if len(l[1]) != 1 or l[1][0][1] != 1 or l[0] or args[1] != I(16) or not D.subset(st.range_of(l), ((0, 15),)):
            return None
        return [(models.some(self, dty, ('i', 0, ((D.derive(l[1][0][0], ('hex',), DIGITS), 1),))), st)]

    def letter_case(self, ctx, st, ci, args, dty, line):
        root, path, v = models.target(self, st, args[0]) if args[0][0] == 'r' else (None, None, args[0])
        if v[0] != 'i':
            return None
        if not v[2]:
            c = chr(v[1])
            return [(I(ord((c.upper() if 'upper' in (ci.get('path') or ci['decl']) else c.lower()) if c.isascii() else c)), st)]
        if len(v[2]) == 1 and v[2][0][1] == 1 and not v[1] and D.subset(st.range_of(lin(v)), DIGITS):
            return [(('i', 0, ((D.derive(v[2][0][0], ('case',), DIGITS), 1),)), st)]
        return None

    def encode(self, ctx, st, ci, args, dty, line):
        v = args[0]
        if v[0] != 'i':
            return None
        if not v[2] and v[1] < 0x110000:
            return [(('cstr', chr(v[1])), st)]
        root = ('o', 'enc', ctx.depth)
        s = models.new_str(self)
        st.mem[root] = s
        st.mem[('o', 'encc', ctx.depth)] = v
        return [(('r', root, ()), st)]

    def next_byte(self, ctx, st, ci, args, dty, line):
        """the bytes of one character"""
        root, path, it = models.target(self, st, args[0])
        if it is None or it[0] != 'it' or it[1] != 'chars' or it[4] != 'b' or it[2][0] != 'S':
            return None
        ks = [k for k, v in st.mem.items() if k[:2] == ('o', 'enc') and v is not None and v[2] == it[2][2]]
        v = st.mem.get(('o', 'encc', ks[0][2])) if ks else None
        if v is None or v[0] != 'i':
            return None
        bs = self.bytes_of(st, v)
        if bs is None:
            raise eng.Give('the bytes of a character')
        k = it[3]
        if k >= len(bs):
            return [(models.none(self, dty), st)]
        self.put(st, root, path, it[:3] + (k + 1,) + it[4:])
        return [(models.some(self, dty, bs[k]), st)]

    def bytes_of(self, st, v):
        r = st.range_of(lin(v))
        n = [i for i, x in enumerate(LENGTHS) if D.subset(r, x)]
        if len(n) != 1 or not r:
            return None
        n = n[0] + 1
        if n == 1:
            return [v]
        if not v[2]:
            return [I(x) for x in chr(v[1]).encode()]
        return [('i', 0, ((D.derive(v[2][0][0], ('byte', n, i), ((0, 255),)), 1),)) for i in range(n)]

    def is_text_it(self, v):
        return v is not None and v[0] == 'it' and v[1] == 'chars' and v[2] == ('S', None, self.window) and v[4] == 'c'

    def find(self, ctx, st, ci, args, dty, line):
        """the first character after here that is not a line break"""
        root, path, it = models.target(self, st, args[0])
        if not self.is_text_it(it) or self.style != 'folded':
            raise eng.Give('a search in the text')
        # what is looked for
        self.probe += 1
        for r, want in ((BREAK, False), (SPACE, True), (D.minus(NOBREAK, SPACE), True)):
            q = st.copy()
            pr = ('o', 'probe', self.probe % 97)
            q.mem[pr] = self.fresh_int(r, 'probe')
            if D.size(r) == 1:
                q.mem[pr] = I(r[0][0])
            boolty = next(i for i, t in enumerate(self.T) if t['k'] == 'bool')
            for v, s in self.call_value(ctx, q, args[1], [('r', pr, ())], boolty, line):
                if s.decide(v) is not want:
                    raise eng.Give('a search for something else than the next line')
        k = it[3]
        if not k or not self.is_break(st, st.mem.get(('o', 'w', k - 1))):
            raise eng.Give('a search from the middle of a line')
        n = 0
        while self.is_break(st, st.mem.get(('o', 'w', k))):
            k += 1
        w = st.mem.get(('o', 'w', k))
        if w is None:
            a = st.ghost['after']
            w = I(END) if a == 'end' else I(32) if a == 'sp' else self.fresh_int(D.minus(PLAIN_RAW, SPACE), 'char')
        if w == I(END):
            return [(models.none(self, dty), st)]
        return [(models.some(self, dty, w), st)]

    def is_break(self, st, v):
        return v is not None and v != I(END) and D.subset(st.range_of(lin(v)), BREAK)

    def from_end(self, ctx, st, ci, args, dty, line):
        """the last two characters of the text"""
        p = ci.get('path') or ci['decl']
        root, path, it = models.target(self, st, args[0])
        if it is None or it[0] != 'it' or not self.about_text(it):
            return None
        if not ('Rev<' in p or p.endswith('::next_back')):
            raise eng.Give('the end of the text')
        n = st.ghost['rev']
        if n >= 2:
            raise eng.Give('more than the last two characters of the text')
        out = []
        t = st.ghost['tail']
        L = models.str_len(self, st, ('S', None, self.window))
        brk = D.union(D.iset((10, 10)), LS)
        for cls, r in ((None, None), ('brk', brk), ('o', D.minus(PLAIN_RAW, SPACE) if n == 0 else PLAIN_RAW)):
            q = st.copy()
            if n == 0:
                x = q.split(val.cmp('le', L))[0 if cls is None else 1]
                if not x or cls is None and q.ghost['cls'] is not None:
                    continue
                q = x[0]
                nt = (cls, '?')
            elif t[0] is None:
                if cls is not None:
                    continue
                nt = t
            else:
                nt = (t[0], cls)
            q.ghost = dict(q.ghost, rev=n + 1, tail=nt)
            out.append((models.none(self, dty) if cls is None else models.some(self, dty, self.fresh_int(r, 'last')), q))
        return out

    def about_text(self, it):
        if self.is_text_it(it):
            return True
        return any(isinstance(x, tuple) and x and (x[0] == 'it' and self.about_text(x) or x == ('S', None, self.window)) for x in it)

    def tail_unknown(self, ctx, st, ci, args, dty, line):
        s = models.strval(self, st, args[0])
        if s[2] is not None and s[2] == self.window:
            raise eng.Give('the end of the text')
        return None

    # -- the output
    def is_buffer(self, ref):
        return ref[0] == 'r' and ref[1] == ('o', 'e') and len(ref[2]) == 1 and ref[2][0][0] == 'f' and ref[2][0][2] == self.bi

    def on_str_push(self, ctx, st, ref, s, v, line):
        if not self.is_buffer(ref):
            return
        if v[0] == 'i':
            self.decode(st, v)
            return
        s = models.strval(self, st, v)
        if s[1] is None:
            ks = [k for k, x in st.mem.items() if k[:2] == ('o', 'enc') and x is not None and x[2] == s[2]]
            if ks and s[2] not in D.UP and st.mem.get(('o', 'encc', ks[0][2])) is not None:
                self.decode(st, st.mem[('o', 'encc', ks[0][2])])
                return
            if s[2] == self.window:
                raise eng.Give('all of the text at once')
            if st.ghost['dec'][0] == 'head':
                raise eng.Give('the header of a block scalar')
            raise eng.Give('a string is written that is not the text')
        t = s[1].replace('\r\n', '\n')
        for c in t:
            self.decode(st, I(ord(c)))

    def fail(self, key, text):
        if (key, text) not in self.bad:
            self.bad.append((key, text))

    def expected(self, st, off=0):
        return st.mem.get(('o', 'w', st.ghost['at'] + off))

    def match(self, st, v, what=None):
        """v is what the reader gets next"""
        w = self.expected(st)
        self.compared += 1
        if w is None or w == I(END):
            self.fail('more', 'more is read back than the text: %s' % (what or 'a character'))
            st.ghost = dict(st.ghost, lost=True)
            return
        if st.decide(val.cmp('eq', D.lsub(lin(v), lin(w)))) is not True:
            self.known(v)
            self.fail('other', 'another character is read back: %s for %s' % (what or self.show(st, v), self.show(st, w)))
            st.ghost = dict(st.ghost, lost=True)
        st.ghost = dict(st.ghost, at=st.ghost['at'] + 1)

    def show(self, st, v):
        r = st.range_of(lin(v))
        f = lambda c: repr(chr(c))[1:-1] if 32 < c < 127 else 'U+%04X' % c
        return ','.join(f(a) if a == b else f(a) + '-' + f(b) for a, b in r[:3]) + ('...' if len(r) > 3 else '')

    def kind(self, st, v):
        r = st.range_of(lin(v))
        if not D.inter(r, BREAK) and not D.inter(r, SPACE):
            return 'c'
        if D.subset(r, NL):
            return 'nl'
        if D.subset(r, LS):
            return 'ls'
        if D.subset(r, SPACE):
            return 'sp'
        return None

    def decode(self, st, v):
        if st.ghost['lost']:
            return
        k = self.kind(st, v)
        if k is None and self.style == 'tag':
            k = 'c'
        if k is None:
            self.known(v)
            self.fail('mixed', 'line breaks or spaces are written as other characters are: %s' % self.show(st, v))
            st.ghost = dict(st.ghost, lost=True)
            return
        d = getattr(self, 'dec_' + self.style)(st, st.ghost['dec'], k, v)
        st.ghost = dict(st.ghost, dec=d)

    def is_followed(self, x):
        while x not in self.followed and x in D.UP:
            x = D.UP[x]
        return x in self.followed or D.DESC[x] == 'w'

    def known(self, v):
        """what is written has to be followed from the text for a verdict"""
        for x, _ in v[2]:
            if not self.is_followed(x):
                raise eng.Give('a character that is not followed from the text is written')

    def lose(self, st, key, text):
        self.fail(key, text)
        st.ghost = dict(st.ghost, lost=True)

    def fold(self, st, d):
        """a line break between two lines is over"""
        if not d[1]:
            self.match(st, I(32), 'a space for a line break')

    def folded_break(self, st, k, v):
        if k == 'ls':
            self.match(st, v)
            return ('B', 1)
        return ('B', 0)

    def more_breaks(self, st, k, v):
        self.match(st, v if k == 'ls' else I(10))
        return ('B', 1)

    def const(self, v):
        return chr(v[1]) if not v[2] else None

    def dec_plain(self, st, d, k, v):
        if d[0] == 'pre':
            if k == 'sp':
                return d
            if k in ('nl', 'ls'):
                self.lose(st, 'start', 'a plain scalar begins with a line break')
                return d
            d = ('N', 0)
        if d[0] == 'N':
            if k in ('nl', 'ls'):
                if d[1]:
                    self.lose(st, 'trail', 'a space before a line break is not read back')
                return self.folded_break(st, k, v)
            self.match(st, v)
            return ('N', 1 if k == 'sp' else 0)
        if k == 'sp':
            return d
        if k in ('nl', 'ls'):
            return self.more_breaks(st, k, v)
        self.fold(st, d)
        self.match(st, v)
        return ('N', 0)

    def dec_single(self, st, d, k, v):
        q = self.const(v) == "'"
        if d[0] == 'pre':
            if k == 'sp':
                return d
            if not q:
                self.lose(st, 'start', 'no opening quote')
            return ('N', 0)
        if d[0] == 'Q':
            if not q:
                self.lose(st, 'quote', 'a quote in the text ends the scalar')
                return d
            self.match(st, v, "'")
            return ('N', 0)
        if not q and D.inter(st.range_of(lin(v)), chars("'")):
            self.lose(st, 'quote', 'a quote is not told from other characters')
            return d
        if d[0] == 'N':
            if k in ('nl', 'ls'):
                if d[1]:
                    self.lose(st, 'trail', 'a space before a line break is not read back')
                return self.folded_break(st, k, v)
            if q:
                return ('Q',)
            self.match(st, v)
            return ('N', 1 if k == 'sp' else 0)
        if k == 'sp':
            return d
        if k in ('nl', 'ls'):
            return self.more_breaks(st, k, v)
        if q:
            # the end, or a quote: a lone line break becomes a space either way
            self.fold(st, d)
            return ('Q',)
        self.fold(st, d)
        self.match(st, v)
        return ('N', 0)

    def dec_double(self, st, d, k, v):
        c = self.const(v)
        if d[0] == 'pre':
            if k == 'sp':
                return d
            if c != '"':
                self.lose(st, 'start', 'no opening quote')
            return ('N', 0)
        if d[0] == 'end':
            self.lose(st, 'end', 'something follows the closing quote')
            return d
        if d[0] == 'E':
            if c in HEX:
                return ('H', HEX[c], 0)
            if c not in ESC:
                self.lose(st, 'escape', 'an escape sequence nobody knows: \\%s' % (c or self.show(st, v)))
                return d
            self.match(st, I(ESC[c]), '\\' + c)
            return ('N', 0)
        if d[0] == 'H':
            self.digit(st, d, v)
            if d[2] + 1 < d[1]:
                return d[:2] + (d[2] + 1,)
            st.ghost = dict(st.ghost, at=st.ghost['at'] + 1)
            return ('N', 0)
        if c != '\\' and c != '"':
            bad = D.inter(st.range_of(lin(v)), chars('\\"'))
            if bad:
                self.lose(st, 'raw', 'a quote or a backslash in the text is written as it is')
                return d
        if d[0] == 'B':
            if k == 'sp':
                return d
            if k in ('nl', 'ls'):
                return self.more_breaks(st, k, v)
            self.fold(st, d)
            d = ('N', 0)
        if k in ('nl', 'ls'):
            if d[1]:
                self.lose(st, 'trail', 'a space before a line break is not read back')
            return self.folded_break(st, k, v)
        if c == '\\':
            return ('E',)
        if c == '"':
            return ('end',)
        ok = RAW if self.unicode else D.inter(RAW, ASCII)
        if not D.subset(st.range_of(lin(v)), ok):
            self.lose(st, 'raw', 'a character that cannot be read, or is not ASCII though that was asked for, is written as it is: %s' %
                      self.showset(D.minus(st.range_of(lin(v)), ok)))
            return d
        self.match(st, v)
        return ('N', 1 if k == 'sp' else 0)

    def showset(self, r):
        return ','.join('U+%04X' % a if a == b else 'U+%04X-%04X' % (a, b) for a, b in r[:3])

    def digit(self, st, d, v):
        """digit number d[2] of d[1] of the number of the character"""
        w = self.expected(st)
        self.compared += 1
        if w is None or w == I(END):
            self.lose(st, 'more', 'more is read back than the text: an escape sequence')
            return
        sh = 4 * (d[1] - 1 - d[2])
        if st.hi(lin(w)) >> (4 * d[1]):
            self.lose(st, 'wide', 'an escape sequence is too short for the character')
            return
        self.nibble(st, w, sh, v)

    def nibble(self, st, w, sh, v):
        """v is the digit for the four bits of w from bit sh on"""
        if not v[2]:
            lo, hi = st.lo(lin(w)) >> sh, st.hi(lin(w)) >> sh
            if lo != hi or chr(v[1]) not in '0123456789abcdefABCDEF' or int(chr(v[1]), 16) != lo & 15:
                self.lose(st, 'digits', 'the digits of an escape sequence are not those of the character')
            return
        if not w[2]:
            raise eng.Give('digits of a known character')
        s = w[2][0][0]
        x = s if sh == 0 else D.derive(s, ('shr', sh), ((0, 0x10FFFF >> sh),))
        good = set()
        for y in (x, D.derive(x, ('and', 15), ((0, 15),))):
            if y == x and st.hi(lin(w)) >> sh > 15:
                continue
            h = D.derive(y, ('hex',), DIGITS)
            good |= {h, D.derive(h, ('case',), DIGITS)}
        if len(v[2]) != 1 or v[1] or v[2][0][1] != 1 or v[2][0][0] not in good:
            self.known(v)
            self.lose(st, 'digits', 'the digits of an escape sequence are not those of the character in order')

    # tags
    def dec_tag(self, st, d, k, v):
        c = self.const(v)
        if d[0] == 'pre':
            if k == 'sp' and d[1] == self.open:
                return d
            if c != d[1][0]:
                self.lose(st, 'start', 'a tag does not begin with %s' % self.open)
                return d
            return ('pre', d[1][1:]) if len(d[1]) > 1 else ('N',)
        if d[0] == 'end':
            self.lose(st, 'end', 'something follows the end of a tag')
            return d
        if d[0] == 'X' and c != '%':
            self.lose(st, 'digits', 'not every byte of a character is written')
            return d
        if d[0] in 'NX' and c == '%':
            return ('H', d[1] if d[0] == 'X' else 0, 0)
        if d[0] == 'N' and c == '>' and self.close:
            return ('end',)
        if d[0] == 'N':
            if not D.subset(st.range_of(lin(v)), TAGCHARS) and not (self.close and c == '!'):
                self.known(v)
                self.lose(st, 'raw', 'a character that a tag cannot hold is written as it is: %s' %
                          self.showset(D.minus(st.range_of(lin(v)), TAGCHARS)))
                return d
            self.match(st, v)
            return d
        w = self.expected(st)
        self.compared += 1
        if w is None or w == I(END):
            self.lose(st, 'more', 'more is read back than the text: an escape sequence')
            return d
        bs = self.bytes_of(st, w)
        if bs is None:
            raise eng.Give('the bytes of a character')
        self.nibble(st, bs[d[1]], 4 - 4 * d[2], v)
        if not d[2]:
            return ('H', d[1], 1)
        if d[1] + 1 < len(bs):
            return ('X', d[1] + 1)
        st.ghost = dict(st.ghost, at=st.ghost['at'] + 1)
        return ('N',)

    # block scalars
    def head(self, st, d, k, v, c):
        if d[0] == 'pre':
            if k == 'sp':
                return d
            if self.const(v) != c:
                self.lose(st, 'start', 'no %s at the start' % c)
            return ('head', ())
        if k == 'nl':
            self.header(st, d[1])
            return ('L', 'start')
        h = self.const(v)
        if h in ('+', '-'):
            return ('head', d[1] + (h,))
        if h != str(self.step):
            self.lose(st, 'hint', 'the indentation of a block scalar is given as %s, not as it is' % (h or self.show(st, v)))
        return ('head', d[1] + ('#',))

    def header(self, st, h):
        keep, strip = '+' in h, '-' in h
        if len(h) > len(set(h)) or keep and strip:
            self.lose(st, 'header', 'the header of the scalar cannot be read')
        w = st.mem.get(('o', 'w', 0))
        if st.ghost['base']:
            raise eng.Give('when the header is written')
        if w is not None and w != I(END) and D.inter(st.range_of(lin(w)), D.union(SPACE, BREAK)) and '#' not in h or \
                w is None and '#' not in h and st.hi(models.str_len(self, st, ('S', None, self.window))) > 0:
            self.lose(st, 'hint', 'a text that begins with a space or a line break is written without its indentation')
        t = st.ghost['tail']
        if t is None:
            if st.hi(models.str_len(self, st, ('S', None, self.window))) > 0:
                raise eng.Give('how the end of the text is looked at')
            t = (None, None)
        if t[0] is None:
            if keep:
                self.lose(st, 'chomp', 'an empty text is written so that a line break is read back')
        elif t[0] == 'o':
            if not strip:
                self.lose(st, 'chomp', 'a text without a line break at its end is not marked with -')
        elif strip:
            self.lose(st, 'chomp', 'line breaks at the end of the text are not read back')
        elif t[1] != 'o' and not keep:
            self.lose(st, 'chomp', 'only one line break is read back at the end of the text')
        st.ghost = dict(st.ghost, tail=None, rev=0)

    def pad(self, st, d):
        """a space at the start of a line: indentation (True) or text (False)"""
        em = st.mem[('o', 'e')][3]
        a, b = lin(em[self.ci]), lin(em[self.ii])
        if st.decide(val.cmp('le', D.ladd(D.lsub(a, b), const(1)))) is True:
            return True
        if st.decide(val.cmp('le', D.lsub(b, a))) is True:
            return False
        if st.decide(val.cmp('le', D.lsub(a, b))) is True or st.decide(val.cmp('le', D.lsub(D.lsub(b, a), const(1)))) is True:
            self.lose(st, 'indent', 'lines are indented by one column too many or too few')
            return True
        return None

    def dec_literal(self, st, d, k, v):
        if d[0] in ('pre', 'head'):
            return self.head(st, d, k, v, '|')
        if k in ('nl', 'ls'):
            self.match(st, v if k == 'ls' else I(10))
            return ('L', 'on')
        if d[0] == 'L':
            p = self.pad(st, d)
            if p is None:
                raise eng.Give('how far a line is indented')
            if k == 'sp' and p:
                return d
            if p:
                if not st.ghost['lost']:
                    self.lose(st, 'indent', 'a line is not indented as far as the others')
                return d
        self.match(st, v)
        return ('N', 0)

    def dec_folded(self, st, d, k, v):
        if d[0] in ('pre', 'head'):
            return self.head(st, d, k, v, '>')
        if k in ('nl', 'ls'):
            if d[0] == 'L':
                self.match(st, v if k == 'ls' else I(10))
                return ('L', 'on')
            if k == 'ls':
                self.match(st, v)
                return ('L', 'on')
            w = self.expected(st)
            if w is None:
                self.lose(st, 'more', 'a line break is written before anything has been read')
                return d
            if self.is_break(st, w):
                nxt = st.ghost['after']
            else:
                x = self.expected(st, 1)
                if x is None:
                    raise eng.Give('what follows a folded line')
                nxt = 'end' if x == I(END) else 'sp' if D.subset(st.range_of(lin(x)), SPACE) else 'c'
            if d[1] or nxt in ('sp', 'end'):
                self.match(st, I(10), 'a line break next to an indented line' if nxt != 'end' else 'a line break')
                return ('L', 'on')
            return ('L', 'fold')
        if d[0] == 'L':
            p = self.pad(st, d)
            if p is None:
                raise eng.Give('how far a line is indented')
            if k == 'sp' and p:
                return d
            if p:
                if not st.ghost['lost']:
                    self.lose(st, 'indent', 'a line is not indented as far as the others')
                return d
            if d[1] == 'fold':
                self.match(st, I(32), 'a space for a line break')
            self.match(st, v)
            return ('N', 1 if k == 'sp' else 0)
        self.match(st, v)
        return ('N', d[1])

    # -- the end
    def finish(self, *a):
        return eng.Eng.finish(self, *a)

    def done(self, st):
        g = st.ghost
        if g['lost']:
            return
        d = g['dec']
        w = self.expected(st)
        if w != I(END) and not (w is None and g['base'] == 0 and g['at'] == 0 and
                                st.hi(models.str_len(self, st, ('S', None, self.window))) <= 0):
            # nothing looked for the end
            if w is None:
                some = [q for v, q in self.look(st, g['at']) if v != I(END)]
                if not some:
                    w = I(END)
            if w != I(END):
                self.fail('less', 'not all of the text is written')
                return
        if self.style == 'double' and d[0] != 'end' or self.style == 'single' and d[0] != 'Q':
            self.fail('end', 'no closing quote')
        if self.style == 'tag' and d[0] != ('end' if self.close else 'N'):
            self.fail('end', 'the end of a tag is missing')
        if self.style == 'plain' and (d[0] == 'B' or d == ('N', 1)):
            self.fail('end', 'the end of the text is not read back')
        if self.style in ('literal', 'folded'):
            if d[0] not in ('L', 'N'):
                self.fail('end', 'the header of the scalar does not end')
                return
            if d == ('L', 'fold'):
                self.fail('end', 'the last line break is not read back')


class Found:
    """the function that writes a scalar in the style found for it"""

    def __init__(self, P, G):
        self.P = P
        self.EM = next((i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == 'emitter::Emitter'), None)
        fl = flushing.flusher(P, G, self.EM)
        if len(fl) != 1:
            raise eng.Give('no single function that flushes the buffer')
        self.flush = fl[0]
        cand = []
        for k, b in P.bodies.items():
            if not b['local'] or self.flush not in G.reach([k]):
                continue
            ls = b['locals'][1:1 + b['argc']]
            if not any(P.T[l]['k'] == 'ref' and P.T[P.T[l]['to']].get('path') == 'emitter::Emitter' for l in ls):
                continue
            for l in ls:
                t = P.T[l]['to'] if P.T[l]['k'] == 'ref' else l
                if self.holds(t):
                    cand.append((len(G.reach([k])), k, t))
        if not cand:
            raise eng.Give('the function that writes a scalar')
        _, self.key, self.AT = min(cand)

    def holds(self, t):
        """the analysis of a scalar: its text and its style"""
        P = self.P
        if P.T[t]['k'] != 'adt' or P.T[t].get('enum') or 'v' not in P.T[t] or not P.T[t].get('local'):
            return False
        fs = [x for n, x in P.fields(t)]
        return any(P.T[x].get('path', '').endswith('ScalarStyle') for x in fs) and \
            sum(P.T[x]['k'] == 'ref' and P.T[P.T[x]['to']]['k'] == 'str' for x in fs) == 1 and \
            any(P.T[x]['k'] == 'bool' for x in fs)


STYLES = {'Plain': 'plain', 'SingleQuoted': 'single', 'DoubleQuoted': 'double', 'Literal': 'literal', 'Folded': 'folded'}


def run(P, F, style, unicode, brk, step=4, e=None):
    common.reset()
    e = e or Writer(P)
    e.setup()
    e.style, e.unicode = STYLES[style], unicode
    e.deadline = time.time() + 60
    e.step = step
    EM = F.EM
    e.bi = flushing.buffer_field(P, EM)
    e.ci, e.ii = P.field_index(EM, 'column'), P.field_index(EM, 'indent')
    st = State()
    st.ghost = {'cls': None, 'after': None, 'tail': None, 'rev': 0, 'base': 0, 'at': 0, 'dec': ('pre',), 'lost': False, 'end': False}
    b = P.bodies[F.key]
    args = []
    for l in b['locals'][1:1 + b['argc']]:
        t = P.T[l]
        to = t['to'] if t['k'] == 'ref' else l
        if P.T[to].get('path') == 'emitter::Emitter':
            em = e.expand(e.fresh(EM, 'em'))
            fs = list(em[3])
            for i, (n, x) in enumerate(P.fields(EM)):
                if n == 'unicode':
                    fs[i] = I(int(unicode))
                elif n == 'indent':
                    fs[i] = e.fresh_int(((1, 1 << 20),), 'indent')
                elif n == 'column':
                    fs[i] = e.fresh_int(((0, 1 << 24),), 'column')
                elif n == 'best_indent':
                    fs[i] = I(step)
                elif P.T[x].get('path', '').endswith('Break'):
                    fs[i] = ('a', x, [y['n'] for y in P.T[x]['v']].index(brk), ())
                elif P.T[x]['k'] == 'adt' and P.T[x].get('path', '').endswith('Encoding'):
                    pass
            st.mem[('o', 'e')] = em[:3] + (tuple(fs),)
            args.append(('r', ('o', 'e'), ()))
        elif to == F.AT:
            an = e.expand(e.fresh(to, 'analysis'))
            fs = list(an[3])
            for i, (n, x) in enumerate(P.fields(to)):
                if P.T[x].get('path', '').endswith('ScalarStyle'):
                    fs[i] = ('a', x, [y['n'] for y in P.T[x]['v']].index(style), ())
                elif P.T[x]['k'] == 'ref':
                    st.mem[('o', 'text')] = e.fresh(P.T[x]['to'], 'text')
                    fs[i] = ('r', ('o', 'text'), ())
            st.mem[('o', 'an')] = an[:3] + (tuple(fs),)
            args.append(('r', ('o', 'an'), ()) if t['k'] == 'ref' else st.mem[('o', 'an')])
        else:
            args.append(e.fresh(l, 'arg'))
    e.window = models.strval(e, st, ('r', ('o', 'text'), ()))[2]

    return go(e, F, F.key, args, st)


def go(e, F, key, args, st):
    P = e.p

    def flush(ctx, st, key, a, line):
        okt, ert = P.T[P.bodies[key]['locals'][0]]['args']
        dty = P.bodies[key]['locals'][0]
        er = st.copy()
        return [(('a', dty, 0, (('a', okt, 0, ()),)), st), (('a', dty, 1, (e.fresh(ert, 'err'),)), er)]
    e.hooks[F.flush] = flush
    n = 0
    for v, s in e.call_key(key, args, st, 0, ()):
        if v[0] == 'a' and e.vname(v[1], v[2]) == 'Err':
            continue
        n += 1
        e.done(s)
    return e, n


def peel(P, l):
    while P.T[l]['k'] == 'ref' or P.T[l].get('path', '').endswith('option::Option'):
        l = P.T[l]['to'] if P.T[l]['k'] == 'ref' else P.T[l]['args'][0]
    return l


def is_tag(P, t):
    t = P.T[t]
    return t['k'] == 'adt' and t.get('local') and not t.get('enum') and 'v' in t and \
        sorted(n for n, x in t['v'][0]['f']) == ['handle', 'suffix'] and \
        all(P.T[x]['k'] == 'ref' for n, x in t['v'][0]['f'])


def find_tag(P, G, F):
    cand = []
    for k, b in P.bodies.items():
        if not b['local'] or F.flush not in G.reach([k]):
            continue
        ls = [peel(P, l) for l in b['locals'][1:1 + b['argc']]]
        if any(is_tag(P, l) for l in ls) and any(P.T[l].get('path') == 'emitter::Emitter' for l in ls):
            cand.append((len(G.reach([k])), k))
    if not cand:
        raise eng.Give('the function that writes a tag')
    return min(cand)[1]


def run_tag(P, F, key, handle, e):
    common.reset()
    e.setup()
    e.style = 'tag'
    e.open, e.close = handle or '!<', not handle
    e.deadline = time.time() + 60
    EM = F.EM
    e.bi = flushing.buffer_field(P, EM)
    e.ci, e.ii = P.field_index(EM, 'column'), P.field_index(EM, 'indent')
    st = State()
    st.ghost = {'cls': None, 'after': None, 'tail': None, 'rev': 0, 'base': 0, 'at': 0, 'dec': ('pre', e.open), 'lost': False, 'end': False}
    b = P.bodies[key]
    args = []

    def make(l):
        t = P.T[l]
        if t['k'] == 'ref':
            to = t['to']
            if P.T[to].get('path') == 'emitter::Emitter':
                st.mem[('o', 'e')] = e.expand(e.fresh(EM, 'em'))
                return ('r', ('o', 'e'), ())
            if is_tag(P, to):
                st.mem[('o', 'an')] = make(to)
                return ('r', ('o', 'an'), ())
        if t.get('path', '').endswith('option::Option'):
            return ('a', l, 1, (make(t['args'][0]),))
        if is_tag(P, l):
            fs = []
            for n, x in P.fields(l):
                if n == 'handle':
                    fs.append(('cstr', handle))
                else:
                    st.mem[('o', 'text')] = e.fresh(P.T[x]['to'], 'text')
                    fs.append(('r', ('o', 'text'), ()))
            return ('a', l, 0, tuple(fs))
        return e.fresh(l, 'arg')
    for l in b['locals'][1:1 + b['argc']]:
        args.append(make(l))
    e.window = models.strval(e, st, ('r', ('o', 'text'), ()))[2]
    if not handle:
        st.assume_le(D.lsub(const(1), models.str_len(e, st, ('S', None, e.window))))
    return go(e, F, key, args, st)


def writing(P, rep, tier):
    """C08"""
    rep.rule = ('abstract interpretation of the functions that write a scalar, the text followed character by character; what '
                'they write runs through a decoder of the style, and what that decodes is compared with the text')
    G = graph.Graph(P)
    try:
        F = Found(P, G)
    except eng.Give as x:
        rep.undec('scalar', str(x))
        return
    fns = {}
    for style in STYLES:
        for uni in (True, False):
            for brk in ('Ln',) if style == 'DoubleQuoted' or tier == 'quick' else ('Ln', 'Cr', 'CrLn'):
                nm = '%s:%s:%s' % (style, 'unicode' if uni else 'ascii', brk)
                try:
                    e = Writer(P)
                    e, n = run(P, F, style, uni, brk, e=e)
                except eng.Give as x:
                    for k, t in e.bad:
                        rep.fail('%s:%s' % (style, k), '%s (%s)' % (t, nm))
                    if not e.bad:
                        rep.undec(nm, str(x))
                    continue
                fns.update(e.seen_fns)
                rep.say('%s: %d results, %d comparisons' % (nm, n, e.compared))
                for k, t in e.bad:
                    rep.fail('%s:%s' % (style, k), '%s (%s)' % (t, nm))
                if not e.bad:
                    rep.check(n > 0, nm, 'no scalar is ever written in this style' if not n else '%d results' % n)
    try:
        key = find_tag(P, G, F)
    except eng.Give as x:
        rep.undec('tag', str(x))
        key = None
    for h in ('', '!', '!e!') if key else ():
        nm = 'tag:%s' % (h or 'verbatim')
        e = Writer(P)
        n = None
        try:
            e, n = run_tag(P, F, key, h, e)
        except eng.Give as x:
            if not e.bad:
                rep.undec(nm, str(x))
        fns.update(getattr(e, 'seen_fns', {}))
        rep.say('%s: %s results, %d comparisons' % (nm, n, e.compared))
        for k, t in e.bad:
            rep.fail('tag:%s' % k, '%s (%s)' % (t, nm))
        if not e.bad and n is not None:
            rep.check(n > 0, nm, 'no tag is ever written' if not n else '%d results' % n)
    rep.analysed(fns)
