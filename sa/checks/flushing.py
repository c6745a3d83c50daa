"""The output buffer: everything in it reaches the writer, once, in the chosen encoding."""
import re
import time

import common
import dom as D
import effects
import eng
import graph
import models
import val
from checks.emitting import OUT
from state import State
from val import I, lin

APPEND = ('push', 'push_str', 'reserve', 'reserve_exact', 'write_str', 'write_char', 'write_fmt', 'extend', 'add_assign', 'add',
          'extend_from_slice', 'append', 'shrink_to_fit', 'try_reserve')


class FEng(eng.Eng):
    STRLIM = 4

    def g(self, st, **kw):
        st.ghost = dict(st.ghost, **kw)

    def override(self, path):
        if re.search(OUT, path):
            return FEng.out
        if path.endswith(('::to_be_bytes', '::to_le_bytes', '::to_ne_bytes')):
            return FEng.to_bytes
        if path.endswith('::next') and 'EncodeUtf16' in path:
            return FEng.next
        return eng.Eng.override(self, path)

    def text(self, st, v):
        """is v the text that was in the buffer: True, False, None (cannot tell)"""
        if v[0] == 'slice':
            w = self.get(st, v[1], v[2])
            if w is None or w[0] != 'S' or w[2] != self.s0:
                return None
            L = models.str_len(self, st, w)
            if st.decide(val.cmp('eq', v[3])) is not True:
                return False
            return st.decide(val.cmp('eq', D.lsub(v[4], L))) is True
        s = models.strval(self, st, v)
        return True if s[2] == self.s0 else None

    def next(self, ctx, st, ci, args, dty, line):
        """one more code unit of the text, or the end"""
        root, path, it = models.target(self, st, args[0])
        if it[0] != 'it' or it[1] != 'chars' or it[4] != 'u' or it[2][0] != 'S' or it[2][2] != self.s0:
            return None
        gh = st.ghost
        if gh['phase'] == 'end':
            return None
        if gh['phase'] == 'run' and gh['toks'] != self.order:
            self.bad_unit(gh['toks'])
        end = st.copy()
        self.g(end, phase='end', toks=())
        first = gh['phase'] is None
        if first and self.empty:
            return [(models.none(self, dty), end)]
        u = D.fresh(((0, 0xFFFF),), 'unit')
        st.mem[('o', 'unit')] = ('i', 0, ((u, 1),))
        self.g(st, phase='run', toks=())
        self.turns += 1
        out = [(models.some(self, dty, ('i', 0, ((u, 1),))), st)]
        return out if first else out + [(models.none(self, dty), end)]

    def bad_unit(self, toks):
        if any(t == '?' for t in toks):
            self.unknown.append('what is written for a code unit')
        else:
            self.bad.append(('unit', 'a UTF-16 code unit is not written as its two bytes in order: %s' % ' '.join(toks or ('nothing',))))

    def half(self, st, v):
        """which half of the current code unit a byte is"""
        if v[0] == 'i' and len(v[2]) == 1 and not v[1] and v[2][0][1] == 1:
            u = st.mem.get(('o', 'unit'))
            for w in ('high', 'low'):
                if u is not None and v[2][0][0] == D.derive(u[2][0][0], w, ((0, 255),)):
                    return w
        return '?'

    def to_bytes(self, ctx, st, ci, args, dty, line):
        v = args[0]
        u = st.mem.get(('o', 'unit'))
        if u is None or v != u:
            return None
        nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
        b = [('i', 0, ((D.derive(u[2][0][0], w, ((0, 255),)), 1),)) for w in ('high', 'low')]
        if nm != 'to_be_bytes':
            b.reverse()
        return [(('a', dty, None, tuple(b)), st)]

    def token(self, st, t, place):
        gh = st.ghost
        if gh['into'] not in (None, place):
            self.unknown.append('two places to collect bytes')
        self.g(st, into=place, toks=(gh['toks'] + (t,))[-5:])
        if gh['phase'] is None:
            self.unknown.append('where the bytes that are written come from')

    def on_push(self, ctx, st, v, el, root, path, line):
        if self.bytevec(v[1]):
            self.token(st, self.half(st, el), (root, path))

    def bytevec(self, t):
        a = self.T[t].get('args')
        return bool(a) and self.T[a[0]]['k'] == 'int' and self.T[a[0]].get('bits', 8) == 8

    def on_extend(self, ctx, st, v, src, root, path, line):
        if not self.bytevec(v[1]):
            return
        for t in self.halves(st, src):
            self.token(st, t, (root, path))

    def halves(self, st, src):
        if src is not None and src[0] in ('r', 'slice'):
            x = models.target(self, st, src)[2] if src[0] == 'r' else self.get(st, src[1], src[2])
            src = x
        if src is not None and src[0] == 'a' and src[2] is None:
            return [self.half(st, x) for x in src[3]]
        if src is not None and src[0] == 'it' and src[1] == 'arr':
            w = self.get(st, src[2][1], src[2][2])
            return [self.half(st, x) for x in w[3]][src[3]:src[4]]
        return ['?']

    def on_clear(self, ctx, st, v, root, path, line):
        if self.bytevec(v[1]):
            self.g(st, stale=False)

    def out(self, ctx, st, ci, args, dty, line):
        nm = (ci.get('path') or ci['decl']).rsplit('::', 1)[-1]
        gh = st.ghost
        if gh['err']:
            self.bad.append(('goes on', 'writing goes on after a write has failed'))
        if nm == 'flush':
            what = None
        elif nm != 'write_all':
            self.bad.append(('partial', '%s need not write everything it is given' % nm))
            what = 'some'
        else:
            what = self.written(st, args[1])
        if what:
            w = gh['wrote']
            self.g(st, wrote=w if what == 'turn' and w[-1:] == ('turn',) else (w + (what,))[-4:])
        okt, ert = self.T[dty]['args']
        er = st.copy()
        self.g(er, err=True)
        v = ('a', okt, 0, ()) if self.T[okt]['k'] != 'int' else self.fresh(okt, 'n')
        return [(('a', dty, 0, (v,)), st), (('a', dty, 1, (self.fresh(ert, 'err'),)), er)]

    def written(self, st, v):
        gh = st.ghost
        t = self.text(st, v) if v[0] == 'slice' or models.target(self, st, v)[2][0] == 'S' else None
        if t is True:
            return 'text'
        if t is False:
            self.bad.append(('all', 'only part of the buffer is written'))
            return 'part'
        root, path, x = models.target(self, st, v) if v[0] == 'r' else (v[1], v[2], self.get(st, v[1], v[2])) \
            if v[0] == 'slice' else (None, None, v)
        if x[0] == 'a' and x[2] is None:
            for h in self.halves(st, x):
                self.token(st, h, 'writer')
            return 'turn'
        if v[0] == 'slice' and x[0] == 'vec':
            whole = st.decide(val.cmp('eq', v[3])) is True and \
                st.decide(val.cmp('eq', D.lsub(v[4], models.vlen(x)))) is True
            if not whole:
                self.bad.append(('all', 'only part of what was encoded is written'))
        if gh['into'] is not None and gh['into'] == (root, path):
            if gh['phase'] is None:
                return '?'
            if gh['phase'] != 'end':
                self.bad.append(('early', 'what is written has not been encoded to its end'))
            if gh['stale'] and self.old:
                self.bad.append(('stale', 'bytes that were written before are written again'))
            return 'units'
        if gh['phase'] == 'end' and x[0] == 'vec' and gh['into'] is None and self.order:
            self.bad.append(('unit', 'the code units of the text are not among what is written'))
            return 'units'
        self.unknown.append('what is written (%s)' % x[0])
        return '?'


def emptied(e, st, b):
    b = models.strval(e, st, b)
    return st.decide(val.cmp('eq', models.str_len(e, st, b))) is True


class Flush:
    def __init__(self, P, key, EM, enc, order, empty, old):
        common.reset()
        self.P = P
        e = self.e = FEng(P)
        e.distinct = True
        e.deadline = time.time() + 40
        e.order, e.old, e.empty = order, old, empty
        e.bad, e.unknown, e.turns = [], [], 0
        st = State()
        st.ghost = {'phase': None, 'toks': (), 'into': None, 'wrote': (), 'err': False, 'stale': True}
        em = e.expand(e.fresh(EM, 'em'))
        fs = list(em[3])
        self.bi = buffer_field(P, EM)
        self.ri = [i for i, (n, t) in enumerate(P.fields(EM)) if is_bytes(P, t)]
        wi = [i for i, (n, t) in enumerate(P.fields(EM)) if P.T[t].get('path', '').endswith('option::Option')
              and P.T[t]['args'] and P.T[P.T[t]['args'][0]]['k'] == 'ref']
        s = models.new_str(e)
        e.s0 = s[2]
        L = models.str_len(e, st, s)
        if empty:
            st.assume_eq(L)
        else:
            st.assume_le(D.lsub((1, ()), L))
        fs[self.bi] = s
        for i in self.ri:
            t = P.fields(EM)[i][1]
            n = D.fresh(((1, D.STEPS),), 'len')
            fs[i] = ('vec', t, (), D.var(n), (models.top_alt(e, P.T[t]['args'][0]),), ()) if old else \
                ('vec', t, (), (0, ()), (), ())
        for i in wi:
            t = P.fields(EM)[i][1]
            fs[i] = ('a', t, 1, (e.fresh(P.T[t]['args'][0], 'writer'),))
        ei = next(i for i, (n, t) in enumerate(P.fields(EM)) if P.T[t].get('path') == 'Encoding')
        et = P.fields(EM)[ei][1]
        vi = [x['n'] for x in P.T[et]['v']].index(enc)
        fs[ei] = ('a', et, vi, ()) if fs[ei][0] != 'i' else I(vi)
        st.mem[('o', 'em')] = em[:3] + (tuple(fs),)
        self.st, self.empty, self.key = st, empty, key
        self.left = False

    def run(self):
        e = self.e
        n = 0
        for v, s in e.call_key(self.key, [('r', ('o', 'em'), ())], self.st, 0, ()):
            n += 1
            gh = s.ghost
            ok = v[0] == 'a' and e.vname(v[1], v[2]) == 'Ok'
            if not ok:
                if not gh['err']:
                    e.bad.append(('fails', 'flushing fails though no write has failed'))
                continue
            if gh['err']:
                e.bad.append(('swallowed', 'a failed write is not reported'))
                continue
            w = gh['wrote']
            want = ('units', 'turn') if e.order else ('text',)
            if '?' in w:
                continue
            if self.empty:
                if w and any(x not in want for x in w):
                    e.bad.append(('empty', 'something is written though the buffer is empty'))
            elif len(w) != 1 or w[0] not in want:
                e.bad.append(('once', 'what is in the buffer is written as %s, not as %s' % (' and '.join(w) or 'nothing', want[0])))
            if w == ('turn',) and gh['phase'] != 'end':
                e.bad.append(('early', 'what is written has not been encoded to its end'))
            em = s.mem[('o', 'em')]
            b = em[3][self.bi]
            if not self.empty and not emptied(e, s, b):
                e.bad.append(('cleared', 'what has been written stays in the buffer'))
            for i in self.ri:
                r = em[3][i]
                if not (r[0] == 'vec' and s.decide(val.cmp('eq', models.vlen(r))) is True):
                    self.left = True
        return n


def flusher(P, G, EM):
    """the innermost function of the emitter that writes and takes nothing else"""
    out = []
    for k, b in P.bodies.items():
        if not b['local'] or b['argc'] != 1:
            continue
        t = P.T[b['locals'][1]]
        if t['k'] != 'ref' or not t.get('m', t.get('mut', True)):
            continue
        if P.T[t['to']].get('path') != P.T[EM]['path']:
            continue
        r = G.reach([k])
        if any(re.search(OUT, c.path) for x in {k} | set(r) for c in G.calls.get(x, ())):
            out.append(k)
    inner = [k for k in out if not any(o in G.reach([k]) and o != k for o in out)]
    return inner


def flushing(P, rep, tier):
    """C17"""
    rep.rule = ('abstract interpretation of the function that flushes the output buffer, for every encoding and for a buffer of '
                'any contents; every other use of the buffer may only append to it (a flow of its mutable borrows)')
    G = graph.Graph(P)
    EM = next((i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == 'emitter::Emitter'), None)
    fl = flusher(P, G, EM) if EM is not None else []
    if len(fl) != 1:
        rep.undec('flush', 'no single function that flushes the buffer')
        return
    fns = {}
    for enc, order in (('Utf8', ()), ('Utf16Le', ('low', 'high')), ('Utf16Be', ('high', 'low'))):
        left = False
        for empty, old in ((False, False), (True, False), (False, True), (True, True)):
            if old and not left:
                continue
            nm = '%s:%s%s' % (enc, 'empty' if empty else 'text', ':old' if old else '')
            try:
                f = Flush(P, fl[0], EM, enc, order, empty, old)
                n = f.run()
            except eng.Give as x:
                rep.undec(nm, str(x))
                continue
            left = left or f.left
            fns.update(f.e.seen_fns)
            for k, t in sorted(set(f.e.bad)):
                rep.fail('%s:%s' % (enc, k), t + ' (%s)' % enc)
            if f.e.unknown and not f.e.bad:
                rep.undec(nm, ', '.join(sorted(set(f.e.unknown))))
            elif not n:
                rep.fail('%s:nothing' % enc, 'flushing never ends well (%s)' % enc)
            elif not f.e.bad:
                rep.ok(nm, '%d results' % n)
    rep.analysed(fns)
    uses(P, G, EM, fl[0], rep)


def uses(P, G, EM, fl, rep):
    """everything else that is done to the buffer"""
    ST = {EM}
    fi = {buffer_field(P, EM)} | {i for i, (n, t) in enumerate(P.fields(EM)) if is_bytes(P, t)}
    inside = {fl} | {k for k in G.reach([fl]) if k in P.bodies and P.bodies[k]['local']}
    # helpers of the flusher that others call as well are not part of it
    for k in list(inside - {fl}):
        if any(k in G.edges[x] for x in P.bodies if x not in inside):
            inside.discard(k)
    n = 0
    todo = {}
    for k in P.bodies:
        b = P.bodies[k]
        if not b['local'] or k in inside:
            continue

        def named(place):
            hits = []
            effects.walk(P, b, place, ST, hits.append)
            return bool(hits) and hits[0] in fi
        refs = set()
        for bb in b['blocks']:
            for s in bb['s']:
                if s[0] != '=':
                    continue
                if named(s[1]) and len(s[1]) > 1:
                    rep.fail('set:%s' % P.bodies[k]['path'], 'the output buffer is overwritten in %s' % b['path'])
                if s[2][0] == 'ref' and s[2][2] and named(s[2][1]) and len(s[1]) == 1:
                    refs.add(s[1][0])
                if s[2][0] == 'use' and s[2][1][0] == 'm' and named(s[2][1][1]):
                    rep.fail('moved:%s' % b['path'], 'the output buffer is moved from in %s' % b['path'])
        if refs:
            todo[k] = refs
    done = set()
    while todo:
        k, refs = todo.popitem()
        b = P.bodies[k]
        grown = True
        while grown:
            grown = False
            for bb in b['blocks']:
                for s in bb['s']:
                    if s[0] != '=' or len(s[1]) != 1 or s[1][0] in refs:
                        continue
                    r = s[2]
                    src = r[1] if r[0] == 'ref' else r[1][1] if r[0] == 'use' and r[1][0] in 'cm' else None
                    if src and src[0] in refs and (r[0] != 'ref' or r[2]):
                        refs.add(s[1][0])
                        grown = True
        for bb in b['blocks']:
            t = bb['t']
            for s in bb['s']:
                if s[0] == '=' and s[1][0] in refs and len(s[1]) > 1:
                    rep.fail('set:%s' % b['path'], 'the output buffer is overwritten in %s' % b['path'])
                elif s[0] == '=' and s[2][0] == 'agg' and any(
                        o[0] in 'cm' and o[1][0] in refs for o in s[2][3]):
                    rep.undec('use:%s' % b['path'], 'the output buffer is lent to an object')
            if t[0] != 'call':
                continue
            for i, o in enumerate(t[2]):
                if o[0] not in 'cm' or o[1][0] not in refs:
                    continue
                c = t[1]
                p = c.get('path') or c['decl']
                nm = p.rsplit('::', 1)[-1]
                n += 1
                if c.get('key') in P.bodies and P.bodies[c['key']]['local']:
                    if (c['key'], i + 1) not in done and c['key'] not in inside:
                        done.add((c['key'], i + 1))
                        todo.setdefault(c['key'], set()).add(i + 1)
                elif nm in APPEND:
                    rep.ok('append:%s:%s' % (b['path'], nm))
                elif nm in ('clear', 'take', 'replace', 'swap', 'truncate', 'drain', 'remove', 'pop', 'retain', 'split_off', 'insert',
                            'insert_str', 'replace_range', 'as_mut_vec', 'from_utf8_lossy', 'set_len', 'resize'):
                    rep.fail('%s:%s' % (nm, b['path']), 'what has not been written is changed by %s in %s' % (nm, b['path']))
                elif nm in ('deref', 'as_str', 'len', 'is_empty', 'as_bytes', 'capacity', 'borrow', 'as_ref', 'chars', 'fmt',
                            'deref_mut', 'as_mut', 'borrow_mut', 'by_ref'):
                    if nm in ('deref_mut', 'as_mut', 'borrow_mut', 'by_ref'):
                        rep.undec('use:%s' % b['path'], 'the output buffer is changed through %s' % nm)
                else:
                    rep.undec('use:%s:%s' % (b['path'], nm), 'the output buffer is given to %s' % p)
    rep.note('uses', n)
    if not n:
        rep.undec('uses', 'nothing is ever put into the buffer')


def buffer_field(P, EM):
    f = [i for i, (n, t) in enumerate(P.fields(EM)) if P.T[t].get('path', '').endswith('string::String')]
    if len(f) != 1:
        raise eng.Anchor('the output buffer')
    return f[0]


def is_bytes(P, t):
    t = P.T[t]
    return models.is_vecty(t) and P.T[t['args'][0]]['k'] == 'int' and P.T[t['args'][0]].get('bits') == 8
