"""Which styles the analysis of a scalar allows.

The characters of the string are followed one by one: a window onto the text
holds those already seen by some iterator, and a small automaton over the text
(a ghost value) runs along with the function.  When the function returns, what
the automaton has seen is compared with the flags returned.
"""
import common
import dom as D
import eng
import match
import models
import val
from state import State
from val import I, const, lin

END = -1
BREAK = D.iset((0x0A, 0x0A), (0x0D, 0x0D), (0x85, 0x85), (0x2028, 0x2029))
SPACE = D.iset((0x20, 0x20))
BLANK = D.union(SPACE, D.iset((9, 9)))
BLANKZ = D.union(BREAK, BLANK)
# the characters libyaml calls printable
PRINTABLE = D.iset((0x0A, 0x0A), (0x20, 0x7E), (0xA0, 0xD7FF), (0xE000, 0xFEFE), (0xFF00, 0xFFFD),
                   (0x10000, 0x10FFFF))
ASCII = D.iset((0, 0x7F))


def chars(s):
    return D.iset(*((ord(c), ord(c)) for c in s))


class Window:
    """an engine that follows the characters of one string"""
    auto = None         # the automaton: (classes, start, step)
    once = False        # only the start of the text matters

    def look(self, st, k):
        """reveal character k of the window: list of (value, state)"""
        v = st.mem.get(('o', 'w', k))
        if v is not None:
            return [(v, st)]
        if k and st.mem.get(('o', 'w', k - 1)) is None:
            raise eng.Give('characters are not read in order')
        if k and st.mem[('o', 'w', k - 1)] == I(END):
            return [(I(END), st)]
        states = [(True, st)]
        first = k == 0 and st.ghost['base'] == 0
        L = models.str_len(self, st, ('S', None, self.window))
        if first:
            some, none = st.split(val.cmp('le', D.lsub(const(1), L)))
        else:
            some, none = [st.copy()], [st.copy()]
        out = []
        for q in none:
            q.mem[('o', 'w', k)] = I(END)
            self.feed(q, None)
            if not (self.once and q.ghost['n'] and not q.ghost['seen']):
                out.append((I(END), q))
        for q in some:
            done = q.ghost['was'] in (True, 3)
            for name, r in [('any', D.CHARS)] if done else list(self.sets())[:-1]:
                if not r:
                    continue
                t = q.copy()
                c = D.fresh(r, 'ch')
                t.mem[('o', 'w', k)] = ('i', 0, ((c, 1),))
                self.feed(t, name)
                if self.once and t.ghost['n'] and not t.ghost['seen']:
                    continue    # it can no longer be so
                out.append((('i', 0, ((c, 1),)), t))
        return out

    def feed(self, st, name):
        """the class of the next character is known: the one before it is complete"""
        g = st.ghost
        prev, cur, seen, n = g['prev'], g['cur'], g['seen'], g['n']
        if cur is not None:
            seen = self.auto[2](seen, prev, cur, name, n)
            n = min(n + 1, 4)
        st.ghost = dict(g, prev=cur, cur=name, was=g['seen'], seen=seen, n=n, end=name is None)

    def win_next(self, st, root, path, it, dty):
        out = []
        k = it[3]
        for c, q in self.look(st, k):
            if c == I(END):
                out.append((models.none(self, dty), q))
            else:
                self.put(q, root, path, it[:3] + (k + 1,) + it[4:])
                out.append((models.some(self, dty, c), q))
        return out

    def win_starts(self, st, p):
        if st.ghost['base']:
            return None
        if p[0] == 'char':
            want = [p[1]]
        elif p[1][1] is not None:
            want = [const(ord(c)) for c in p[1][1]]
        else:
            return None
        out = []
        todo = [(st, 0)]
        while todo:
            s, k = todo.pop()
            if k == len(want):
                out.append((val.TRUE, s))
                continue
            for c, q in self.look(s, k):
                if c == I(END):
                    out.append((val.FALSE, q))
                    continue
                eq, ne = q.split(val.cmp('eq', D.lsub(lin(c), want[k])))
                out += [(val.FALSE, x) for x in ne]
                todo += [(x, k + 1) for x in eq]
        return out

    def normalise(self, st):
        """forget the characters every iterator has passed"""
        offs, pinned = [], False

        def go(v):
            nonlocal pinned
            if v is None or not isinstance(v, tuple) or not v:
                return
            if v[0] == 'it' and v[1] == 'chars' and v[2] == ('S', None, self.window):
                offs.append(v[3])
            elif v[0] == 'a':
                for x in v[3]:
                    go(x)
            elif v[0] == 'r' and v[1][:2] == ('o', 'w'):
                pinned = True
        for v in st.mem.values():
            go(v)
        if not offs or pinned:
            return
        m = min(offs)
        if not m:
            return

        def shift(v):
            if v is None:
                return v
            if v[0] == 'it' and v[1] == 'chars' and v[2] == ('S', None, self.window):
                return v[:3] + (v[3] - m,) + v[4:]
            if v[0] == 'a':
                return v[:3] + (tuple(shift(x) for x in v[3]),)
            return v
        mem = {}
        for k, v in st.mem.items():
            if k[:2] == ('o', 'w'):
                if k[2] >= m:
                    mem[('o', 'w', k[2] - m)] = v
            else:
                mem[k] = shift(v)
        st.mem = mem
        st.ghost = dict(st.ghost, base=1)

    def head_key(self, st):
        return tuple(sorted(st.ghost.items(), key=repr))

    def tighten(self, st):
        """a character stays within the class it was found to be of"""
        ks = [k[2] for k in st.mem if k[:2] == ('o', 'w')]
        sets = dict(self.sets())
        for k, n in zip(sorted(ks, reverse=True), (st.ghost['cur'], st.ghost['prev'])):
            v = st.mem[('o', 'w', k)]
            if n is not None and v[0] == 'i' and v[2]:
                c = v[2][0][0]
                st.dom[c] = D.inter(st.dom.get(c) or D.RNG[c], sets[n])

    def sets(self):
        rest = D.CHARS
        for name, r in self.auto[0]:
            yield name, D.inter(rest, r)
            rest = D.minus(rest, r)
        yield 'other', rest
        yield 'any', D.CHARS

    def loop_head(self, ctx, bb, st):
        self.clean(ctx, bb, st)
        self.normalise(st)
        st = eng.Eng.loop_head(self, ctx, bb, st)
        if st is not None:
            self.tighten(st)
        return st

    def merge(self, ctx, bb, states):
        states = eng.Eng.merge(self, ctx, bb, states)
        groups = {}
        for s in states:
            groups.setdefault((match.shape(s), self.head_key(s)), []).append(s)
        out = []
        for g in groups.values():
            if len(g) <= self.KEEP:
                out += g
                continue
            res = []
            for s in g:
                j = match.join(self, res[-1], s) if res else None
                if j is None:
                    res.append(s)
                else:
                    self.gc(j)
                    res[-1] = j
            out += res
        return out


class AEng(Window, eng.Eng):
    UNROLL = 1
    KEEP = 3    # states kept apart when paths meet, for each state of the automaton


# ---- what has to be noticed ---------------------------------------------------------
OPEN1 = chars('#,[]{}&*!|>\'"%@`')
PLAIN = ('flow_plain_allowed', 'block_plain_allowed')


def seen_if(f):
    def step(seen, prev, cur, nxt, n):
        return seen or f(prev, cur, nxt, n == 0)
    return step


def isblank(c):
    # line breaks, and what is not printable, rule these styles out by themselves
    return c is None or c == 'space'


def prefix(seen, prev, cur, nxt, n):
    """the text begins with --- or ..."""
    if n == 0:
        return 1 if cur in ('dash', 'dot') else 0
    if seen in (1, 2) and n < 3:
        return seen + 1 if cur == prev else 0
    return seen


def rules(unicode):
    special = D.compl(PRINTABLE) if unicode else D.union(D.compl(PRINTABLE), D.compl(ASCII))
    sb = [('space', SPACE), ('break', BREAK)]
    ind = [('space', SPACE)]
    yes = lambda x: x is True
    return [
        ('no character at all', [], False, seen_if(lambda p, c, n, f: False), yes, PLAIN[:1]),
        ('a leading space', sb, False, seen_if(lambda p, c, n, f: f and c == 'space'), yes, PLAIN),
        ('a trailing space', sb, False, seen_if(lambda p, c, n, f: n is None and c == 'space'), yes,
         PLAIN + ('block_allowed',)),
        ('a line break', sb, False, seen_if(lambda p, c, n, f: c == 'break'), yes, PLAIN + ('!multiline',)),
        ('a space after a line break', sb, False, seen_if(lambda p, c, n, f: p == 'break' and c == 'space'), yes,
         ('single_quoted_allowed',)),
        ('a space before a line break', sb, False, seen_if(lambda p, c, n, f: p == 'space' and c == 'break'), yes,
         ('single_quoted_allowed', 'block_allowed')),
        ('a character that is not printable' + ('' if unicode else ', or not ASCII'), [('special', D.inter(special, ASCII)), ('foreign', special)], False,
         seen_if(lambda p, c, n, f: c in ('special', 'foreign')), yes, PLAIN + ('single_quoted_allowed', 'block_allowed')),
        ('an indicator at the start', ind + [('opener', OPEN1), ('either', chars('?:-'))], False,
         seen_if(lambda p, c, n, f: f and (c == 'opener' or c == 'either' and isblank(n))), yes, PLAIN),
        ('"?" or ":" at the start', [('either', chars('?:'))], False,
         seen_if(lambda p, c, n, f: f and c == 'either'), yes, PLAIN[:1]),
        ('a flow indicator', [('flow', chars(',?[]{}:'))], False,
         seen_if(lambda p, c, n, f: c == 'flow'), yes, PLAIN[:1]),
        ('":" before a blank', ind + [('colon', chars(':'))], False,
         seen_if(lambda p, c, n, f: c == 'colon' and isblank(n)), yes, PLAIN),
        ('"#" after a blank', ind + [('hash', chars('#'))], False,
         seen_if(lambda p, c, n, f: c == 'hash' and (f or isblank(p))), yes, PLAIN),
        ('a document marker at the start', [('dash', chars('-')), ('dot', chars('.'))], 0, prefix,
         lambda x: x == 3, PLAIN),
    ]


def find(P):
    """the function that analyses a scalar"""
    out = []
    for k, b in P.bodies.items():
        if not b['local'] or not b['path'].startswith('emitter'):
            continue
        ty = b['locals'][0]
        t = P.T[ty]
        if t['k'] == 'adt' and t['path'].endswith('result::Result'):
            ty = t['args'][0]
            t = P.T[ty]
        if t['k'] == 'adt' and not t.get('enum') and 'v' in t and \
                {'flow_plain_allowed', 'block_plain_allowed'} <= {n for n, x in t['v'][0]['f']}:
            if any(P.T[l]['k'] == 'ref' and P.T[P.T[l]['to']]['k'] == 'str' for l in b['locals'][1:b['argc'] + 1]):
                out.append((k, ty))
    if len(out) != 1:
        raise eng.Anchor('the analysis of a scalar (%d candidates)' % len(out))
    return out[0]


def analyse(P, unicode, rule):
    name, classes, start, step, seen, flags = rule
    common.reset()
    e = AEng(P)
    key, ty = find(P)
    b = P.bodies[key]
    st = State()
    e.auto = (classes, start, step)
    e.once = 'start' in name or 'leading' in name
    args = []
    for l in b['locals'][1:b['argc'] + 1]:
        t = P.T[l]
        if t['k'] == 'ref' and P.T[t['to']]['k'] == 'str':
            r, v = (('o', 'text'), e.fresh(t['to'], 'text'))
            st.mem[r] = v
            args.append(('r', r, ()))
            e.window = models.strval(e, st, args[-1])[2]
        elif t['k'] == 'ref':
            v = e.expand(e.fresh(t['to'], 'emitter'))
            fs = list(v[3])
            for i, (n, x) in enumerate(P.fields(t['to'])):
                if n == 'unicode' and unicode is not None:
                    fs[i] = I(int(unicode))
            st.mem[('o', 'e')] = v[:3] + (tuple(fs),)
            args.append(('r', ('o', 'e'), ()))
        else:
            args.append(e.fresh(l, 'arg'))
    st.ghost = {'prev': None, 'was': start, 'cur': None, 'seen': start, 'n': 0, 'end': False, 'base': 0}
    bad, good, und, hits = [], 0, [], 0
    for v, s in e.call_key(key, args, st, 0, ()):
        if v[0] == 'a' and v[1] != ty:
            if e.vname(v[1], v[2]) == 'Err':
                continue
            v = v[3][0]
        end = s.ghost['end']
        L = models.str_len(e, s, ('S', None, e.window))
        empty = s.hi(L) <= 0
        got = s.ghost['seen']
        if name == 'no character at all':
            got = empty
        elif not empty and not end:
            got = True if start is False else 3
        if seen(got):
            hits += 1
            for f in flags:
                want = 1 if f[0] == '!' else 0
                n = f.lstrip('!')
                fi = P.field_index(ty, n)
                x = e.field(v, 0, fi, P.field_type(ty, n))
                if s.decide(x) is not bool(want):
                    if e.tainted(s, x):
                        und.append((name, n))
                    else:
                        bad.append((name, n, want, 'end' if end else 'not read to the end'))
                else:
                    good += 1
        else:
            good += 1
    return bad, good, und, dict(e.seen_fns), hits


# ---- which writer is chosen ------------------------------------------------------------
STYLE = {"'": 'single', '"': 'double', '|': 'literal', '>': 'folded'}


def style_of(opens):
    o = opens - {None}
    if len(o) == 1 and list(o)[0] in STYLE and None not in opens:
        return STYLE[list(o)[0]]
    if o == {'data'}:
        return 'plain'
    return None


def choices(P):
    """every writer of a scalar reached, with what is known there of the scalar and the place"""
    from checks import emitting
    M = emitting.Machine(P)
    e = M.e
    e.loose = None
    writers = {k: style_of(o) for k, o in M.opens.items()}
    writers = {k: s for k, s in writers.items() if s}
    AT = list(M.flagty)[0]
    cand = []
    for k, b in P.bodies.items():
        if not b['local'] or k in writers:
            continue
        r = M.G.reach([k])
        have = {writers[w] for w in writers if w in r}
        tys = [P.T[l]['to'] if P.T[l]['k'] == 'ref' else l for l in b['locals'][1:b['argc'] + 1]]
        if len(have) == 5 and M.EV in tys and any(holds(P, t, AT) for t in tys):
            cand.append((len(r), k))
    if not cand:
        raise eng.Anchor('the function that writes a scalar event')
    key = min(cand)[1]
    got = {}

    def record(e, ctx, st, k, args, b, an, text):
        em = st.mem[('o', 'e')][3]
        fl = val.lin(em[e.fi['flow_level']])
        d = {n: st.decide(an[3][i]) for n, i in M.facts.items()}
        d['flow'] = True if st.lo(fl) > 0 else False if st.hi(fl) <= 0 else None
        d['simple'] = st.decide(em[e.fi['simple_key_context']])
        d['canonical'] = st.decide(em[e.fi['canonical']])
        ln = models.str_len(e, st, ('S', None, text))
        d['empty'] = True if st.hi(ln) <= 0 else False if st.lo(ln) > 0 else None
        bs = [st.decide(a) for a, l in zip(args, b['locals'][1:]) if P.T[l]['k'] == 'bool']
        d['breaks'] = bs[-1] if bs else 'none'
        got.setdefault((writers[k], tuple(sorted(d.items()))), (k, ctx.body['path']))

    def writer(e, ctx, st, k, args, line):
        b = P.bodies[k]
        dty = b['locals'][0]
        strs = [models.strval(e, st, a)[2] for a, l in zip(args, b['locals'][1:]) if
                P.T[l]['k'] == 'ref' and P.T[P.T[l]['to']]['k'] == 'str']
        an = st.mem[('o', 'facts')]
        text = models.strval(e, st, an[3][M.text])[2]
        if text in strs:
            # what is passed on may depend on the context: look at each of them
            em = st.mem[('o', 'e')][3]
            yes, no = st.split(em[e.fi['simple_key_context']])
            for q in yes + no:
                record(e, ctx, q, k, args, b, an, text)
        elif writers[k] != 'plain':
            got.setdefault((writers[k], None), (k, ctx.body['path']))
        return []

    def other(e, ctx, st, k, args, line):
        dty = P.bodies[k]['locals'][0]
        o = st.mem[('o', 'e')]
        fs = list(o[3])
        for i in M.E.w[k]:
            fs[i] = e.fresh(P.fields(e.ET)[i][1], 'other')
        st.mem[('o', 'e')] = o[:3] + (tuple(fs),)
        t = P.T[dty]
        if t['k'] == 'adt' and t['path'].endswith('result::Result'):
            return [(('a', dty, 0, (e.fresh(t['args'][0], 'u'),)), st)]
        return [(e.fresh(dty, 'u'), st)]

    keep = {e.fi[n] for n in ('flow_level', 'simple_key_context', 'canonical')}
    for k, b in P.bodies.items():
        # the rest of what is written does not matter here
        if b['local'] and k not in writers and k != key and M.E.w[k] and not M.E.w[k] & keep and \
                not set(writers) & M.G.reach([k]) and \
                not any(P.T[l]['k'] == 'ref' and P.T[l]['to'] == AT for l in b['locals'][1:b['argc'] + 1]):
            e.skip[k] = other
    for k in writers:
        e.skip[k] = writer
    st = State()
    M.emitter(st, 'BlockSequenceItem', True)
    ev, parts = M.event(st, 'Scalar')
    st.mem[('o', 'ev')] = ev
    M.facts, M.text = {}, None

    def build(t):
        x = P.T[t]
        if t == AT:
            v = e.expand(e.fresh(t, 'analysis'))
            st.mem[('o', 'facts')] = v
            for i, (n, ft) in enumerate(P.fields(t)):
                if P.T[ft]['k'] == 'bool':
                    M.facts[n] = i
                elif P.T[ft]['k'] == 'ref' and P.T[P.T[ft]['to']]['k'] == 'str':
                    M.text = i
            return v
        if x['k'] == 'adt' and x['path'].endswith('option::Option'):
            return ('a', t, 1, (build(x['args'][0]),)) if holds(P, t, AT) else e.fresh(t, 'arg')
        if holds(P, t, AT) and P.fields(t):
            return ('a', t, 0, tuple(build(ft) for _, ft in P.fields(t)))
        return e.fresh(t, 'arg')
    args = []
    for n, l in enumerate(P.bodies[key]['locals'][1:P.bodies[key]['argc'] + 1]):
        t = P.T[l]
        if t['k'] != 'ref':
            args.append(build(l))
        elif t['to'] == e.ET:
            args.append(('r', ('o', 'e'), ()))
        elif t['to'] == M.EV:
            args.append(('r', ('o', 'ev'), ()))
        else:
            st.mem[('o', 'arg%d' % n)] = build(t['to'])
            args.append(('r', ('o', 'arg%d' % n), ()))
    if M.text is None:
        raise eng.Anchor('the text in the analysis of a scalar')
    st.mem[('o', 'v0')] = st.mem[('o', 'e')]
    st.mem[('o', 'itop')] = M.itop
    st.ghost = {'out': (), 'glue': False, 'err': None, 'why': None, 'npush': 0, 'pop': 0, 'ipush': 0, 'ipop': 0,
                'given': False, 'flushed': False, 'tdclear': False, 'structure': False, 'step': ('scalar', 'Scalar')}
    for v, s in e.call_key(key, args, st, 0, ()):
        pass
    return got, key, len(got), dict(e.seen_fns), writers


def holds(P, t, what, depth=4):
    """type t contains a value of type what"""
    if t == what:
        return True
    x = P.T[t]
    if not depth or x['k'] != 'adt':
        return False
    if x['path'].endswith('option::Option'):
        return holds(P, x['args'][0], what, depth - 1)
    if x.get('enum') or 'v' not in x or len(x['v']) != 1:
        return False
    return any(holds(P, ft, what, depth - 1) for _, ft in x['v'][0]['f'])


def wrong(style, d):
    """why this style must not be used"""
    if d['canonical'] is not False and style != 'double':
        return 'in the canonical form'
    if style == 'plain':
        if d['flow'] is not False and d['flow_plain_allowed'] is not True:
            return 'in a flow collection, where the analysis does not allow it'
        if d['flow'] is not True and d['block_plain_allowed'] is not True:
            return 'outside flow collections, where the analysis does not allow it'
        if d['empty'] is not False and (d['flow'] is not False or d['simple'] is not False):
            return 'for an empty scalar in a flow collection or as a key'
    if style == 'single' and d['single_quoted_allowed'] is not True:
        return 'where the analysis does not allow it'
    if style in ('literal', 'folded'):
        if d['block_allowed'] is not True:
            return 'where the analysis does not allow it'
        if d['flow'] is not False:
            return 'in a flow collection'
        if d['simple'] is not False:
            return 'for a key on one line'
    if style in ('plain', 'single') and d['simple'] is not False and d['multiline'] is not False:
        return 'for a scalar of several lines as a key on one line'
    if d['simple'] is not False and d['breaks'] is not False and style in ('plain', 'single', 'double'):
        return 'with line folding for a key on one line'
    return None


JOB = []


def job(i):
    P, tasks = JOB
    t = tasks[i]
    try:
        if t == 'choice':
            return i, choices(P), None
        return i, analyse(P, *t), None
    except eng.Give as g:
        return i, None, str(g)


def styles(P, rep, tier):
    """C09"""
    import multiprocessing
    rep.rule = ('the analysis of a scalar is interpreted abstractly with a window onto its characters: an automaton over the text '
                'notes each feature that rules out a style, and whenever it has been seen the flags returned must rule that '
                'style out; the choice of the style is interpreted for every combination of flags, context and style asked '
                'for, and the writer reached must be one the flags and the context allow')
    key, ty = find(P)
    need = {f.lstrip('!') for r in rules(True) for f in r[5]}
    for n in sorted(need):
        P.field_index(ty, n)
    tasks = ['choice'] + [(None if 'ASCII' not in r[0] and 'printable' not in r[0] else True, r) for r in rules(True)]
    tasks += [(False, r) for r in rules(False) if 'ASCII' in r[0]]
    rep.check(len(tasks) == 15, 'rules', '%d rules' % len(tasks))
    # the automata are functions and cannot be passed to another process: pass their index
    JOB[:] = [P, tasks]
    with multiprocessing.get_context('fork').Pool(min(8, multiprocessing.cpu_count() or 1)) as p:
        res = p.map(job, range(len(tasks)), 1)
    for i, r, why in res:
        t = tasks[i]
        name = 'choice' if t == 'choice' else t[1][0]
        if r is None:
            rep.fail('gave-up:%s' % name, 'the analysis could not establish the property (%s)' % why)
            continue
        if t == 'choice':
            got, fk, n, fns, writers = r
            rep.analysed({P.bodies[k]['path']: c for k, c in fns.items()})
            rep.check(n >= 20 and len({s for s, d in got}) == 5, 'writers', 'styles written: %s' % sorted({s for s, d in got}))
            for (style, d), (k, frm) in sorted(got.items(), key=str):
                if d is None:
                    rep.fail('text:%s' % style, '%s is called by %s with another text than the scalar' % (P.bodies[k]['path'], frm))
                    continue
                d = dict(d)
                w = wrong(style, d)
                rep.check(not w, 'choice:%s:%s' % (style, w or ''),
                          'a scalar is written in %s style %s' % (style, w) if w else '')
            rep.note('choices', len(got))
            rep.say('%d combinations of style, flags and context (%s)' % (len(got), P.bodies[fk]['path']))
            continue
        bad, good, und, fns, hits = r
        rep.analysed({P.bodies[k]['path']: c for k, c in fns.items()})
        for nm, f, want, how in bad:
            rep.fail('flag:%s:%s' % (nm, f), '%s: a scalar with %s is returned with %s %s (%s)' % (
                P.bodies[key]['path'], nm, f, 'unset' if want else 'set', how))
        for nm, f in und:
            rep.undec('flag:%s:%s' % (nm, f), 'the flag depends on something that is not modelled')
        rep.check(hits >= 1, 'hits:%s' % name, 'no outcome in which the scalar has %s' % name)
        if not bad:
            rep.ok('rule:%s' % name, '%d outcomes, %d with the feature' % (good, hits))
        rep.say('%s: %d outcomes' % (name, good))
