"""The emitter, one event at a time, from every state.

What is written is followed as a ghost value of the state: a sequence of items,
 'W'        spaces and line breaks
 text       constant text
 ('D', x)   the string x of the event (or of its analysis)
 ('F', f, x, b)  all that function f writes, given string x and flag b
Functions that loop over a string are not entered here; what they write is the
business of the character-level analysis (writing.py).
"""
import re

import common
import dom as D
import effects
import eng
import graph
import models
import val
from state import State

MADE = r'^error::Error::emitter$'
OUT = r'(^|::| as )std::io::Write(>)?::(write_all|write|flush|write_fmt)$|^std::io::Write::'


class WEng(eng.Eng):
    STRLIM = 4
    UNROLL = 2
    FOLD = 4
    EXITS = 4000

    def setup(self, ET):
        P = self.p
        self.ET = ET
        self.ft = {n: t for n, t in P.fields(ET)}
        self.fi = {n: i for i, (n, t) in enumerate(P.fields(ET))}
        self.vol = {}
        self.loose = None       # struct whose flags are read anew every time
        self.skip = {}
        self.skipped = set()
        self.errors = {}
        self.writes = 0
        self.viol = {}
        self.mute = False
        self.joinable = set()
        self.structural = set()     # functions that look at or set the state

    def g(self, st, **kw):
        st.ghost = dict(st.ghost, **kw)

    def step_get(self, st, v, el):
        if el[0] == 'f' and v[0] in 'as' and v[1] == self.ET and el[2] in self.vol and el[2] != self.fi['column']:
            return self.vol[el[2]](self, st)
        if el[0] == 'f' and v[0] == 's' and v[1] == self.loose and el[3] is not None and self.T[el[3]]['k'] == 'bool':
            return self.fresh(el[3], 'flag')
        return eng.Eng.step_get(self, st, v, el)

    def put_in(self, st, v, path, i, nv):
        if i < len(path) and path[i][0] == 'f' and v is not None and v[0] in 'as' and v[1] == self.ET \
                and path[i][2] in self.vol:
            if path[i][2] == self.fi['column'] and v[0] == 'a':
                nv = self.fresh_int(((0, D.STEPS),), 'column')
                return eng.Eng.put_in(self, st, v, path, i, nv)
            return v
        return eng.Eng.put_in(self, st, v, path, i, nv)

    def on_panic(self, ctx, what, line, st, taint):
        self.panics.setdefault((ctx.body['path'], what, line), (taint, st.ghost.get('step')))

    def panic_at(self, body, what, line, st, ctx):
        self.panics.setdefault((body['path'], what, line), (False, st.ghost.get('step')))

    def is_buffer(self, ref):
        """a reference to the emitter's output buffer"""
        if ref[0] != 'r' or not ref[2]:
            return False
        el = ref[2][-1]
        return ref[1] == ('o', 'e') and len(ref[2]) == 1 and el[0] == 'f' and el[2] == self.fi['buffer']

    def origin(self, sym):
        return D.label(sym)

    def item(self, st, v):
        """what pushing the value v (char or string) writes"""
        if v[0] == 'i':
            if not v[2]:
                return 'W' if v[1] in (32, 10, 13) else chr(v[1])
            r = st.range_of(val.lin(v))
            if D.subset(r, D.iset((32, 32), (10, 10), (13, 13))):
                return 'W'
            if len(r) == 1 and r[0][0] == r[0][1]:
                return chr(r[0][0])
            return ('D', self.origin(v[2][0][0]))
        s = models.strval(self, st, v)
        if s[1] is not None:
            return 'W' if s[1] and not s[1].strip(' \r\n') else s[1]
        return ('D', self.origin(s[2]))

    def wrote(self, ctx, st, it):
        if it == '' or self.mute:
            if it != '' and it != 'W' and 'opens' not in st.ghost:
                self.g(st, opens=it if isinstance(it, str) else 'data')
            return
        self.writes += 1
        if st.ghost['flushed']:
            self.g(st, flushed=False)
        out = st.ghost['out']
        if it == 'W' and out and out[-1] == 'W':
            return
        if isinstance(it, str) and it != 'W' and st.ghost['glue'] and out and isinstance(out[-1], str) and out[-1] != 'W':
            self.g(st, out=out[:-1] + (out[-1] + it,))
        else:
            out = out + (it,)
            for p in range(2, 8):       # a loop: two rounds stand for more
                if out[-p:] == out[-2 * p:-p] == out[-3 * p:-2 * p]:
                    out = out[:-p]
                    break
            self.g(st, out=out)
        if len(st.ghost['out']) > 60:
            raise eng.Give('one event writes without bound in %s' % ctx.body['path'])
        self.g(st, glue=True)

    def on_str_push(self, ctx, st, ref, s, v, line):
        if self.is_buffer(ref):
            self.wrote(ctx, st, self.item(st, v))

    def enter(self, ctx, st, key, args, line):
        if key in self.skip:
            return self.skip[key](self, ctx, st, key, args, line)
        return eng.Eng.enter(self, ctx, st, key, args, line)

    def elt(self, v):
        a = self.T[v[1]].get('args')
        return a[0] if a else None

    def on_push(self, ctx, st, v, el, root, path, line):
        t = self.elt(v)
        if v[1] == self.ft['states']:
            st.mem[('o', 'push%d' % st.ghost['npush'])] = el
            self.g(st, npush=st.ghost['npush'] + 1)
        elif v[1] == self.ft['indents']:
            st.mem[('o', 'ipush%d' % st.ghost['ipush'])] = el
            self.g(st, ipush=st.ghost['ipush'] + 1)

    def on_pop(self, ctx, st, v, el, root, path, line):
        if v[1] == self.ft['states']:
            if el is None:
                self.g(st, pop=st.ghost['pop'] + 100)
            elif st.ghost['npush']:
                self.g(st, npush=st.ghost['npush'] - 1)
                st.mem.pop(('o', 'push%d' % st.ghost['npush']), None)
            else:
                self.g(st, pop=st.ghost['pop'] + 1)
        elif v[1] == self.ft['indents']:
            if el is None:
                self.g(st, ipop=st.ghost['ipop'] + 100)
            elif st.ghost['ipush']:
                self.g(st, ipush=st.ghost['ipush'] - 1)
                st.mem.pop(('o', 'ipush%d' % st.ghost['ipush']), None)
            else:
                self.g(st, ipop=st.ghost['ipop'] + 1)

    def on_clear(self, ctx, st, v, root, path, line):
        if v[1] in (self.ft['states'], self.ft['indents']):
            self.g(st, pop=st.ghost['pop'] + 1000)
        if v[1] == self.ft['tag_directives']:
            self.g(st, tdclear=True)

    def loop_head(self, ctx, bb, st):
        # the event has been dealt with, there is not another one
        if st.ghost.get('given') and ctx.depth == 0:
            st.ghost['rounds'] = st.ghost.get('rounds', 0) + 1
            if st.ghost['rounds'] < 4:
                self.clean(ctx, bb, st)
                return st
        return eng.Eng.loop_head(self, ctx, bb, st)

    def head_key(self, st):
        o = st.mem.get(('o', 'e'))
        if o is None or o[0] != 'a':
            return None
        v0 = st.mem.get(('o', 'v0'))
        return tuple(st.decide(x[3][self.fi[n]]) for x in (o, v0) if x is not None and x[0] == 'a'
                     for n in ('whitespace', 'indention'))

    def exit_key(self, st):
        if self.loose is None or self.EXITS != 1:
            return None
        # which tag is to be written, and why
        out = []

        def go(v):
            if v is None or v[0] != 'a':
                return
            if v[1] == self.tagopt:
                out.append((v[2], tuple(x[1] for f in v[3] if f[0] == 'a' for x in f[3] if x[0] == 'cstr')))
                return
            for x in v[3]:
                go(x)
        for k in sorted((k for k in st.mem if k[0] == 'l'), key=repr):
            go(st.mem[k])
        ev = st.mem.get(('o', 'ev'))
        for d in ev[3] if ev is not None else ():
            if d is not None and d[0] == 'a':
                out += [st.decide(x) for x, (n, t) in zip(d[3], self.p.fields(d[1], d[2]) or ()) if self.T[t]['k'] == 'bool']
        return tuple(out)

    def join_exits(self, ctx, states, d):
        self.EXITS = 1 if self.loose is not None and ctx.key in self.joinable else 4000
        return eng.Eng.join_exits(self, ctx, states, d)



def result(e, dty, ok, v):
    return ('a', dty, 0 if ok else 1, (v,))


def made(e, ctx, st, ci, args, dty, line):
    txt = args[0][1] if args and args[0][0] == 'cstr' else '?'
    e.errors.setdefault((ctx.body['path'], txt), line)
    e.g(st, err='made', why=txt, structure=ctx.key in e.structural)
    return [(e.fresh(dty, 'made'), st)]


def unit_ty(e, dty):
    return ('a', e.p.T[dty]['args'][0], 0, ())


def output(e, ctx, st, ci, args, dty, line):
    """the writer of the caller: takes everything, or fails"""
    bad = st.copy()
    e.g(st, sent=st.ghost['sent'] or 'all')
    e.g(bad, err='io')
    errty = e.p.T[dty]['args'][1]
    return [(result(e, dty, True, unit_ty(e, dty)), st), (result(e, dty, False, e.fresh(errty, 'ioerr')), bad)]


def emitter_type(P):
    ks = P.find(r'^emitter::Emitter::<.*>::emit$')
    if len(ks) != 1:
        raise eng.Anchor('Emitter::emit')
    return P.T[P.bodies[ks[0]]['locals'][1]]['to'], ks[0]


def supplier(P, ET):
    """the function that hands emit() the next event that is due"""
    EV = P.adt('event::Event')
    out = []
    for k, b in P.bodies.items():
        if b['local'] and b['argc'] == 1 and P.T[b['locals'][1]].get('to') == ET:
            t = P.T[b['locals'][0]]
            if t['k'] == 'adt' and t['path'].endswith('option::Option') and t['args'] == [EV]:
                out.append(k)
    if len(out) != 1:
        raise eng.Anchor('the function of the emitter returning Option<Event>')
    return out[0]


def loops_over_string(P, k):
    """the function has a loop and a string among its parameters"""
    b = P.bodies[k]
    if not P.cfg(k).heads:
        return False
    for l in b['locals'][1:b['argc'] + 1]:
        t = P.T[l]
        while t['k'] == 'ref':
            t = P.T[t['to']]
        if t['k'] == 'str' or t['k'] == 'adt' and t['path'].endswith(('string::String', 'lib::TagDirective', 'TagDirective')):
            return True
    return False


class Out:
    __slots__ = ('s0', 'kind', 'ws', 'ok', 'err', 'why', 'out', 'push', 'pop', 'ipush', 'ipop', 'state', 'st',
                 'ipushv', 'obj', 'flushed', 'tdclear', 'seen', 'bad')


KINDS = ('StreamStart', 'StreamEnd', 'DocumentStart', 'DocumentEnd', 'Alias', 'Scalar', 'SequenceStart',
         'SequenceEnd', 'MappingStart', 'MappingEnd')


def fresh_option_name(e, ev, variant, fname, name):
    t = e.p.field_type(ev[1], fname, variant)
    v = e.p.field_index(ev[1], fname, variant)
    return v, t


def skip_of(self, e, key, writes, raises, fields, errs):
    """the effect of a function that is not entered"""
    P = e.p
    b = P.bodies[key]

    def f(e, ctx, st, key, args, line):
        e.skipped.add(key)
        dty = b['locals'][0]
        strs, flag = [], None
        for a, l in zip(args, b['locals'][1:b['argc'] + 1]):
            t = P.T[l]
            while t['k'] == 'ref':
                t = P.T[t['to']]
            if t['k'] == 'str' or t['k'] == 'adt' and t['path'].endswith('string::String'):
                strs.append(e.item(st, a))
            elif t['k'] == 'bool':
                flag = a
        bad = st.copy()
        if writes:
            self.at_writer(ctx, st, key, strs, flag, line)
            fl = st.decide(flag) if flag is not None else None
            e.wrote(ctx, st, ('F', key, tuple(strs), fl))
        o = st.mem.get(('o', 'e'))
        if o is not None:
            for q in (st, bad):
                fs = list(q.mem[('o', 'e')][3])
                for i in fields:
                    if i not in e.vol:
                        fs[i] = e.fresh(P.fields(e.ET)[i][1], 'skipped')
                        if P.fields(e.ET)[i][0] == 'open_ended':
                            q.setdom(fs[i][2][0][0], ((0, 2),))
                if writes and key in self.contract:
                    fs[e.fi['whitespace']], fs[e.fi['indention']] = self.contract[key]
                q.mem[('o', 'e')] = o[:3] + (tuple(fs),)
        t = P.T[dty]
        if not (t['k'] == 'adt' and t['path'].endswith('result::Result')):
            return [(e.fresh(dty, 'skipped'), st)]
        okt, ert = t['args']
        v = e.fresh(okt, 'skipped')
        if v[0] == 's':
            D.LABEL.setdefault(v[2], 'of:' + (strs[0][1] if strs and isinstance(strs[0], tuple) and strs[0][1] else '?'))
            if self.flags(key):
                st.mem[('o', 'flags')] = v
            elif v[0] == 's':
                for i, (n, x) in enumerate(P.fields(okt) or ()):
                    if n == 'suffix':
                        c = e.child(x, v[2], (0, i))
                        l = models.str_len(e, st, models.strval(e, st, c))
                        if l[1]:
                            st.setdom(l[1][0][0], ((1, D.STEPS),))
        out = [(result(e, dty, True, v), st)]
        if writes and self.io or not writes and raises:
            e.g(bad, err='io' if writes else 'content', why=b['path'])
            out.append((result(e, dty, False, e.fresh(ert, 'skippederr')), bad))
        return out
    return f


class Machine:
    """the analysis of emit() for one event from one state"""

    def __init__(self, P, io=False):
        common.reset()
        self.P = P
        self.io = io
        self.chosen = {}
        self.contract = {}
        self.opens = {}     # what a writer writes first
        self.vsym = None
        e = self.e = WEng(P)
        ET, self.kemit = emitter_type(P)
        e.setup(ET)
        if not P.find(MADE):
            raise eng.Anchor('Error::emitter')
        G = self.G = graph.Graph(P)
        E = self.E = effects.Effects(P, G, {i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'] == P.T[ET]['path']})
        mk = set(P.find(MADE))
        raises = {k for k in P.bodies if mk & G.reach([k])}
        bi = e.fi['buffer']
        flushers = {k for k, x in G.ext.items() if P.bodies[k]['local'] and any(re.search(OUT, y) for y in x)
                    and not P.bodies[k]['path'].startswith('document')}
        self.flushers = flushers
        if not flushers:
            raise eng.Anchor('the function that hands the output to the writer')
        core = {e.fi[n] for n in ('state', 'states', 'events', 'tag_directives', 'indents')}
        self.strfns = {k for k, b in P.bodies.items() if b['local'] and loops_over_string(P, k)
                       and b['path'].startswith('emitter') and not (E.w[k] & core)}
        self.flagty = {self.flags(k) for k in self.strfns} - {None}
        self.flagty = {self.flags(k) for k in self.strfns} - {None}
        if len(self.flagty) != 1:
            raise eng.Anchor('the analysis of a scalar')
        self.strfns = {k for k in self.strfns if bi in E.w[k] or self.flags(k) or self.tagfn(k)}
        for k in self.strfns:
            e.skip[k] = skip_of(self, e, k, bi in E.w[k], k in raises, E.w[k], None)
        for k in flushers:
            e.skip[k] = self.flush
        sf = {e.fi['state'], e.fi['states']}
        e.structural = {k for k in P.bodies if (E.w[k] | E.r[k]) & sf}
        # choices made between two writes: what led to them need not be remembered
        e.joinable = {k for k, b in P.bodies.items() if b['local'] and b['path'].startswith('emitter') and
                      not (E.w[k] & {bi, e.fi['state'], e.fi['states']}) and
                      any(P.T[l]['k'] == 'ref' and P.T[l]['to'] == list(self.flagty)[0]
                          for l in b['locals'][1:b['argc'] + 1])}
        tt = {P.T[P.bodies[k]['locals'][0]]['args'][0] for k in P.bodies if P.bodies[k]['local'] and self.tagfn(k)}
        e.tagopt = [i for i, t in enumerate(P.T) if t['k'] == 'adt' and t['path'].endswith('option::Option')
                    and t['args'][0] in tt]
        if len(e.tagopt) != 1:
            raise eng.Anchor('the resolved tag')
        e.tagopt = e.tagopt[0]
        sup = supplier(P, ET)
        e.skip[sup] = self.supply
        e.overrides = {MADE: made}
        for n in ('line', 'column', 'buffer', 'raw_buffer', 'best_width', 'encoding', 'unicode',
                  'write_handler', 'anchors', 'last_anchor_id'):
            if n not in e.fi:
                raise eng.Anchor('field %s of the emitter' % n)
            t = e.ft[n]
            if P.trange(t) is not None and P.T[t]['k'] == 'int':
                lo = -1 if n == 'best_width' else 0
                e.vol[e.fi[n]] = (lambda lo: lambda e, st: e.fresh_int(((lo, D.STEPS),), 'vol'))(lo)
            else:
                e.vol[e.fi[n]] = (lambda t: lambda e, st: e.fresh(t, 'vol'))(t)
        self.ES = P.adt('emitter::EmitterState')
        self.EV = P.adt('event::Event')
        self.ED = P.adt('event::EventData')
        self.states = [v['n'] for v in P.T[self.ES]['v']]
        (v0, st0), = e.call_key(P.one(r'^emitter::Emitter::<.*>::new$'), [], State(), 0, ())
        self.initial = self.sname(st0, v0[3][e.fi['state']])
        self.new = v0
        self.contracts()

    def at_writer(self, ctx, st, key, strs, flag, line):
        """a scalar, or tag, is about to be written"""
        e = self.e
        an = st.mem.get(('o', 'flags'))
        if an is None or ('D', 'value') not in strs or e.loose is not None:
            return
        self.choices(ctx, st, key, an, flag, line)
        # what decided the choice of the style has served its purpose
        o = set()
        val.desc_syms(an[2], o)
        for s in o & set(st.dom):
            del st.dom[s]
        st.facts = frozenset(f for f in st.facts if not any(s in o for s, _ in f[1]))

    def choices(self, ctx, st, key, an, flag, line):
        e, P = self.e, self.P
        fs = {n: i for i, (n, t) in enumerate(P.fields(an[1]))}
        g = lambda n: st.decide(e.field(an, 0, fs[n], P.fields(an[1])[fs[n]][1])) if n in fs else None
        em = st.mem[('o', 'e')][3]
        fl = val.lin(em[e.fi['flow_level']])
        d = {n: g(n) for n in fs if P.T[P.fields(an[1])[fs[n]][1]]['k'] == 'bool'}
        d['flow'] = True if st.lo(fl) > 0 else False if st.hi(fl) <= 0 else None
        d['simple'] = st.decide(em[e.fi['simple_key_context']])
        d['canonical'] = st.decide(em[e.fi['canonical']])
        ln = models.str_len(e, st, ('S', None, self.vsym)) if self.vsym is not None else None
        d['empty'] = None if ln is None else True if st.hi(ln) <= 0 else False if st.lo(ln) > 0 else None
        d['breaks'] = st.decide(flag) if flag is not None else None
        self.chosen.setdefault((key, tuple(sorted(d.items(), key=str))), line)

    def tagfn(self, k):
        """resolves a tag against directives: (string, list of directives) -> Result<struct>"""
        P = self.P
        b = P.bodies[k]
        t = P.T[b['locals'][0]]
        if not (t['k'] == 'adt' and t['path'].endswith('result::Result') and P.T[t['args'][0]]['k'] == 'adt'):
            return False
        for l in b['locals'][1:b['argc'] + 1]:
            x = P.T[l]
            while x['k'] == 'ref':
                x = P.T[x['to']]
            if x['k'] == 'slice' and P.T[x['to']].get('path', '').endswith('TagDirective'):
                return True
        return False

    def flags(self, k):
        """returns a struct of several flags (what is known of a scalar)"""
        P = self.P
        ty = P.bodies[k]['locals'][0]
        t = P.T[ty]
        if t['k'] == 'adt' and t['path'].endswith('result::Result'):
            ty = t['args'][0]
            t = P.T[ty]
        if t['k'] == 'adt' and not t.get('enum') and 'v' in t and \
                sum(1 for n, x in t['v'][0]['f'] if P.T[x]['k'] == 'bool') >= 3:
            return ty
        return None

    def contracts(self):
        """what the functions that are not entered leave in whitespace and indention"""
        e, P = self.e, self.P
        for k in sorted(self.strfns):
            if e.fi['buffer'] not in self.E.w[k]:
                continue
            st = State()
            self.emitter(st, self.states[1], True)
            args = []
            for l in P.bodies[k]['locals'][1:P.bodies[k]['argc'] + 1]:
                t = P.T[l]
                if t['k'] == 'ref' and t['to'] == e.ET:
                    args.append(('r', ('o', 'e'), ()))
                else:
                    args.append(e.fresh(l, 'arg'))
            st.ghost = {'out': (), 'glue': False, 'flushed': False, 'step': ('writer', P.bodies[k]['path'])}
            h = e.skip.pop(k)
            e.mute = True
            ws, ind, op = set(), set(), set()
            for v, s in e.call_key(k, args, st, 0, ()):
                if v[0] == 'a' and e.vname(v[1], v[2]) == 'Err':
                    continue
                o = s.mem[('o', 'e')][3]
                ws.add(s.decide(o[e.fi['whitespace']]))
                ind.add(s.decide(o[e.fi['indention']]))
                op.add(s.ghost.get('opens'))
            self.opens[k] = op
            e.mute = False
            e.skip[k] = h
            f = lambda x: val.I(1 if x == {True} else 0) if x in ({True}, {False}) else e.fresh(e.ft['whitespace'], 'any')
            self.contract[k] = (f(ws), f(ind))

    def sname(self, st, v):
        if v == self.__dict__.get('top'):
            return 'TOP'
        if v[0] != 'i':
            return '?'
        r = st.range_of(val.lin(v))
        x = [self.e.vname(self.ES, self.P.variant_of(self.ES, q)) for q in D.elems(r)]
        return x[0] if len(x) == 1 else '?'

    def flush(self, e, ctx, st, key, args, line):
        dty = e.p.bodies[key]['locals'][0]
        bad = st.copy()
        e.g(st, glue=True, flushed=True)
        e.g(bad, err='io', why='write')
        if not self.io:
            return [(result(e, dty, True, unit_ty(e, dty)), st)]
        return [(result(e, dty, True, unit_ty(e, dty)), st),
                (result(e, dty, False, e.fresh(e.p.T[dty]['args'][1], 'ioerr')), bad)]

    def supply(self, e, ctx, st, key, args, line):
        dty = e.p.bodies[key]['locals'][0]
        if st.ghost['given']:
            return [(models.none(e, dty), st)]
        e.g(st, given=True)
        root, path, v = models.target(e, st, args[0])
        nx = e.expand(e.fresh(self.EV, 'next'))
        st.mem[('o', 'next')] = nx
        n = D.fresh(((0, D.STEPS),), 'queued')
        e.put(st, ('o', 'e'), (('f', None, e.fi['events'], None),),
              ('vec', e.ft['events'], (nx,), D.var(n), (models.top_alt(e, self.EV),), ()))
        return [(models.some(e, dty, st.mem[('o', 'ev')]), st)]

    def event(self, st, kind):
        """an event of this kind with unknown contents; the names of its parts"""
        P, e = self.P, self.e
        vi = [v['n'] for v in P.T[self.ED]['v']].index(kind)
        fs = []
        parts = {}
        for n, t in P.fields(self.ED, vi) or ():
            v = e.fresh(t, n)
            if v[0] == 's' or v[0] == 'S':
                sym = v[2]
                D.LABEL[sym] = n
            parts[n] = v
            fs.append(v)
        data = ('a', self.ED, vi, tuple(fs))
        o = list(e.expand(e.fresh(self.EV, 'event'))[3])
        o[P.field_index(self.EV, 'data')] = data
        return ('a', self.EV, 0, tuple(o)), parts

    def emitter(self, st, s0, depth):
        P, e = self.P, self.e
        v = list(e.expand(e.fresh(e.ET, 'em'))[3])
        vi = [x['n'] for x in P.T[self.ES]['v']].index(s0)
        v[e.fi['state']] = val.I(P.T[self.ES]['v'][vi]['d'])
        self.top = e.fresh(self.ES, 'TOP')
        n = D.fresh(((0, D.STEPS),), 'n')
        v[e.fi['states']] = ('vec', e.ft['states'], (), D.var(n), (models.top_alt(e, self.ES),), (self.top,) if depth else ())
        it = P.T[e.ft['indents']]['args'][0]
        self.itop = e.fresh_int(((-1, D.STEPS),), 'ITOP')
        m = D.fresh(((0, D.STEPS),), 'm')
        el = D.fresh(((-1, D.STEPS),), 'ind')
        alt = (('i', 0, ((el, 1),)), frozenset([el]), (), ())
        v[e.fi['indents']] = ('vec', e.ft['indents'], (), D.var(m), (alt,), (self.itop,) if depth else ())
        v[e.fi['column']] = e.fresh_int(((0, D.STEPS),), 'column')
        for n, lo, hi in (('indent', -1, D.STEPS), ('best_indent', 2, 9), ('flow_level', 0, D.STEPS), ('open_ended', 0, 2)):
            v[e.fi[n]] = e.fresh_int(((lo, hi),), n)
        v[e.fi['events']] = ('vec', e.ft['events'], (), (0, ()), (), ())
        lb = e.fresh(e.ft['line_break'], 'line_break')
        v[e.fi['line_break']] = lb
        if s0 == self.initial:
            for n in ('best_indent', 'indent'):
                v[e.fi[n]] = e.fresh_int(P.trange(e.ft[n]), n)
        else:
            brk = [x['d'] for x in P.T[e.ft['line_break']]['v'] if x['n'] != 'Any']
            st.setdom(lb[2][0][0], D.iset(*((d, d) for d in brk)))
        old = e.expand(e.fresh(P.T[e.ft['tag_directives']]['args'][0], 'oldtag'))
        self.old = set()
        val.syms(old, self.old, set())
        k = D.fresh(((0, D.STEPS),), 'ntd')
        v[e.fi['tag_directives']] = ('vec', e.ft['tag_directives'], (), D.var(k), ((old, frozenset(self.old), (), ()),), ())
        st.mem[('o', 'e')] = ('a', e.ET, 0, tuple(v))

    def run(self, s0, kind, depth, fix=None, precise=False):
        """all outcomes of emit(event of this kind) from state s0"""
        e, P = self.e, self.P
        e.loose = None if precise else list(self.flagty)[0]
        st = State()
        ev, parts = self.event(st, kind)
        self.parts = parts
        self.vsym = parts['value'][2] if 'value' in parts else None
        self.emitter(st, s0, depth)
        if fix:
            ev = fix(self, st, ev, kind, parts) or ev
        st.mem[('o', 'ev')] = ev
        st.mem[('o', 'v0')] = st.mem[('o', 'e')]
        st.mem[('o', 'itop')] = self.itop
        st.ghost = {'out': (), 'glue': False, 'err': None, 'why': None, 'npush': 0, 'pop': 0, 'ipush': 0, 'ipop': 0,
                    'given': False, 'flushed': False, 'tdclear': False, 'structure': False, 'step': (s0, kind)}
        res = []
        for v, s in e.call_key(self.kemit, [('r', ('o', 'e'), ()), ev], st, 0, ()):
            x = Out()
            x.s0, x.kind, x.st = s0, kind, s
            x.ok = v[0] == 'a' and e.vname(v[1], v[2]) == 'Ok'
            g = s.ghost
            x.err, x.why = g['err'], g['why']
            x.out = g['out']
            x.pop, x.ipop = g['pop'], g['ipop']
            x.push = tuple(self.sname(s, s.mem[('o', 'push%d' % i)]) for i in range(g['npush']))
            x.ipush = g['ipush']
            x.ipushv = [s.mem[('o', 'ipush%d' % i)] for i in range(g['ipush'])]
            x.obj = s.mem[('o', 'e')]
            x.state = self.sname(s, x.obj[3][e.fi['state']])
            x.flushed = g['flushed']
            x.tdclear = g['tdclear']
            res.append(x)
        return res


# ---- the documented behaviour --------------------------------------------------------
NODES = ('Alias', 'Scalar', 'SequenceStart', 'MappingStart')
# state -> (indicators before a node, state to return to), per way of writing the node
FIRST = {'FlowSequenceFirstItem': ('[', 'SequenceEnd'), 'FlowMappingFirstKey': ('{', 'MappingEnd'),
         'BlockSequenceFirstItem': ('', 'SequenceEnd'), 'BlockMappingFirstKey': ('', 'MappingEnd')}
POS = {
    'DocumentContent': [('', 'DocumentEnd', None)],
    'FlowSequenceFirstItem': [('[', 'FlowSequenceItem', None)],
    'FlowSequenceItem': [(',', 'FlowSequenceItem', None)],
    'FlowMappingFirstKey': [('{', 'FlowMappingSimpleValue', True), ('{?', 'FlowMappingValue', False)],
    'FlowMappingKey': [(',', 'FlowMappingSimpleValue', True), (',?', 'FlowMappingValue', False)],
    'FlowMappingSimpleValue': [(':', 'FlowMappingKey', None)],
    'FlowMappingValue': [(':', 'FlowMappingKey', None)],
    'BlockSequenceFirstItem': [('-', 'BlockSequenceItem', None)],
    'BlockSequenceItem': [('-', 'BlockSequenceItem', None)],
    'BlockMappingFirstKey': [('', 'BlockMappingSimpleValue', True), ('?', 'BlockMappingValue', False)],
    'BlockMappingKey': [('', 'BlockMappingSimpleValue', True), ('?', 'BlockMappingValue', False)],
    'BlockMappingSimpleValue': [(':', 'BlockMappingKey', None)],
    'BlockMappingValue': [(':', 'BlockMappingKey', None)],
}
CLOSE = {'FlowSequenceFirstItem': '[]', 'FlowSequenceItem': ']', 'FlowMappingFirstKey': '{}', 'FlowMappingKey': '}',
         'BlockSequenceFirstItem': '', 'BlockSequenceItem': '', 'BlockMappingFirstKey': '', 'BlockMappingKey': ''}
ENDS = {s: ('SequenceEnd' if 'Sequence' in s else 'MappingEnd') for s in CLOSE}
DEEP = set(POS) - {'DocumentContent'}
# a block scalar may have been written last
LOOSE = {'BlockSequenceItem', 'BlockMappingKey', 'BlockMappingValue', 'BlockMappingSimpleValue', 'DocumentEnd'}
ALLOWED = {'StreamStart': {'StreamStart'}, 'FirstDocumentStart': {'DocumentStart', 'StreamEnd'},
           'DocumentStart': {'DocumentStart', 'StreamEnd'}, 'DocumentEnd': {'DocumentEnd'}, 'End': set()}
for _s in POS:
    ALLOWED[_s] = set(NODES)
    if _s in ENDS:
        ALLOWED[_s].add(ENDS[_s])


def encode(out):
    """the items written as one string; names of data in brackets"""
    r = []
    nm = lambda d: d[3:] if d and d.startswith('of:') else d
    for it in out:
        if it == 'W':
            r.append(' ')
        elif isinstance(it, str):
            r.append(it)
        elif it[0] == 'D':
            r.append('<%s>' % nm(it[1]))
        else:
            r.append('<<%s>>' % ','.join(nm(x[1]) if isinstance(x, tuple) and x[1] else 'W' if x == 'W' else str(x)
                                         for x in it[2]))
    return ''.join(r)


def M_WS(M, key):
    """the writer ends with white space whenever it says so"""
    return key in M.contract and M.contract[key][0] == val.I(1)


class Step:
    """one (state, kind) pair: runs the analysis and compares with the documentation"""

    def __init__(self, M, s0, kind, given, precise):
        self.M, self.s0, self.kind, self.given, self.precise = M, s0, kind, given, precise
        self.bad = []
        self.good = 0

    def fail(self, key, text):
        self.bad.append(('%s:%s:%s' % (self.s0, self.kind, key), text))

    def fix(self, M, st, ev, kind, parts):
        P, e = M.P, M.e
        vi = [x['n'] for x in P.T[M.ED]['v']].index(kind)
        di = P.field_index(M.EV, 'data')
        d = ev[3][di]
        fs = list(d[3])

        def opt(n, some):
            i, t = P.field_index(M.ED, n, vi), P.field_type(M.ED, n, vi)
            if some:
                p = e.fresh(P.T[t]['args'][0], n)
                D.LABEL[p[2]] = n
                fs[i] = ('a', t, 1, (p,))
            else:
                fs[i] = ('a', t, 0, ())
        if kind in NODES and kind != 'Alias' and self.given is not None:
            opt('anchor', self.given)
            opt('tag', self.given)
        if kind == 'DocumentStart':
            i = P.field_index(M.ED, 'tag_directives', vi)
            t = P.field_type(M.ED, 'tag_directives', vi)
            vi2, vt = P.field_index(M.ED, 'version_directive', vi), P.field_type(M.ED, 'version_directive', vi)
            if self.given in (True, 'version'):
                fs[vi2] = ('a', vt, 1, (e.expand(e.fresh(P.T[vt]['args'][0], 'version')),))
            else:
                fs[vi2] = ('a', vt, 0, ())
            if self.given in (True, 'tags'):
                TD = P.T[t]['args'][0]
                x = e.expand(e.fresh(TD, 'directive'))
                o = set()
                val.syms(x, o, set())
                for (n, _), f in zip(P.fields(TD), x[3]):
                    if f[0] in 'sS':
                        D.LABEL[f[2]] = n
                n = D.fresh(((1, D.STEPS),), 'ndir')
                fs[i] = ('vec', t, (), D.var(n), ((x, frozenset(o), (), ()),), ())
            else:
                fs[i] = ('vec', t, (), (0, ()), (), ())
        o = list(ev[3])
        o[di] = d[:3] + (tuple(fs),)
        return ('a', M.EV, 0, tuple(o))

    def run(self):
        M, e = self.M, self.M.e
        outs = M.run(self.s0, self.kind, self.s0 in DEEP, self.fix, self.precise)
        allowed = self.kind in ALLOWED[self.s0]
        if not allowed:
            for x in outs:
                if x.ok:
                    self.fail('accepted', 'the event %s is accepted in state %s' % (self.kind, self.s0))
                self.good += 1
            if not outs:
                self.fail('none', 'no outcome for %s in state %s' % (self.kind, self.s0))
            return
        if not any(x.ok for x in outs):
            self.fail('rejected', 'the event %s is never accepted in state %s' % (self.kind, self.s0))
        for x in outs:
            if x.ok:
                self.accepted(x)
            elif x.err in ('made', 'content'):
                self.rejected(x)
            self.good += 1

    def flag(self, x, obj, n):
        return x.st.decide(x.st.mem[('o', obj)][3][self.M.e.fi[n]])

    def part(self, x, n):
        M, P = self.M, self.M.P
        d = x.st.mem[('o', 'ev')][3][P.field_index(M.EV, 'data')]
        return d[3][P.field_index(M.ED, n, d[2])]

    def rejected(self, x):
        """an emitter error for an event that fits here must be about its contents"""
        if x.st.ghost.get('structure'):
            self.fail('rejected:%s' % x.why, 'the event %s is rejected in state %s (%s)' % (self.kind, self.s0, x.why))
        elif not self.given and self.kind in ('DocumentStart', 'DocumentEnd', 'SequenceStart', 'MappingStart', 'StreamStart',
                                              'StreamEnd', 'SequenceEnd', 'MappingEnd'):
            self.fail('rejected:%s' % x.why, 'a plain %s is rejected in state %s (%s)' % (self.kind, self.s0, x.why))
        elif self.kind == 'Scalar' and not self.given:
            f = [x.st.decide(self.part(x, n)) for n in ('plain_implicit', 'quoted_implicit')]
            if f != [False, False]:
                self.fail('rejected:%s' % x.why, 'a scalar without tag but with an implicit flag is rejected (%s)' % x.why)

    # -- what is written
    def spaced(self, x):
        """every token is set off from what precedes it where the syntax needs it"""
        st = x.st
        ws, ind = self.flag(x, 'v0', 'whitespace'), self.flag(x, 'v0', 'indention')
        sep0 = ws is True and (self.s0 not in LOOSE or ind is True)
        prev = 'W' if sep0 else None
        for j, it in enumerate(x.out):
            if it == 'W':
                prev = 'W'
                continue
            if it[0] == 'F':
                prev = it
                continue
            if it == '\ufeff':
                continue
            need = True
            if isinstance(it, str):
                need = it[0] not in ',]}>' and not (it[0] == ':' and self.s0.endswith('SimpleValue') and j == 0)
                if it in ('[]', '{}'):
                    need = True
            elif it[1] and isinstance(prev, str) and prev[-1] in '&*':
                need = False
            if need and prev != 'W' and not (isinstance(prev, str) and prev[-1] in '[{'):
                self.fail('space:%s' % (it if isinstance(it, str) else it[1]),
                          '%s in state %s: %r is written directly after %r' % (self.kind, self.s0, it, prev))
            prev = it
        # what is left for the next event
        ws1, ind1 = self.flag(x, 'e', 'whitespace'), self.flag(x, 'e', 'indention')
        if x.out and x.out[-1] != '\ufeff':
            sep = prev == 'W' or isinstance(prev, str) and prev[-1] in '[{'
        else:
            sep = sep0 or ws is not True and ws1 is ws
            if not sep and self.s0 in LOOSE and x.state in LOOSE | {'TOP'}:
                sep = True      # unchanged
        nxt = x.state
        loose = nxt in LOOSE or nxt == 'TOP' and self.s0 not in ('FlowSequenceItem',)
        if not sep and ws1 is not False and not (loose and ind1 is False) and x.out and x.out[-1] != '\ufeff' and not (
                isinstance(prev, tuple) and prev[0] == 'F' and (ws1 is False or ind1 is False or M_WS(self.M, prev[1]))):
            self.fail('whitespace', '%s in state %s ends with %r, but is noted to end with white space' % (
                self.kind, self.s0, x.out[-1] if x.out else None))

    def accepted(self, x):
        txt = encode(x.out)
        self.spaced(x)
        bare = txt.replace(' ', '')
        k = self.kind
        if k in NODES:
            self.node(x, bare)
        elif k in ('SequenceEnd', 'MappingEnd'):
            self.close(x, bare)
        elif k == 'StreamStart':
            self.expect(x, 'FirstDocumentStart', (), 0)
            if bare not in ('', '\ufeff'):
                self.fail('text', 'the start of the stream writes %r' % bare)
            if not (self.flag(x, 'e', 'whitespace') is True is self.flag(x, 'e', 'indention')):
                self.fail('fresh', 'the start of the stream is not noted to be the start of a line')
        elif k == 'StreamEnd':
            self.expect(x, 'End', (), 0)
            if not x.flushed:
                self.fail('flush', 'the stream ends without handing all output to the writer')
            self.dots(x, bare, self.openended(x) == ((2, 2),), self.openended(x) != ((2, 2),) and not D.inter(self.openended(x), ((2, 2),)))
        elif k == 'DocumentEnd':
            self.expect(x, 'DocumentStart', (), 0)
            if not x.flushed:
                self.fail('flush', 'a document ends without handing all output to the writer')
            im = x.st.decide(self.part(x, 'implicit'))
            self.dots(x, bare, im is False, im is True)
            oe = x.st.range_of(val.lin(x.obj[3][self.M.e.fi['open_ended']]))
            if not bare and D.inter(oe, ((0, 0),)):
                self.fail('open', 'a document ended implicitly is not noted to be open')
            if bare and oe != ((0, 0),):
                self.fail('open', 'a document ended explicitly is noted to be open')
        elif k == 'DocumentStart':
            self.document(x, bare)

    def openended(self, x):
        return x.st.range_of(val.lin(x.st.mem[('o', 'v0')][3][self.M.e.fi['open_ended']]))

    def dots(self, x, bare, must, mustnot):
        if bare not in ('', '...'):
            self.fail('text', '%s in state %s writes %r' % (self.kind, self.s0, bare))
        elif bare and not must:
            self.fail('dots', '%s in state %s writes "..." although nothing requires it' % (self.kind, self.s0))
        elif not bare and not mustnot:
            self.fail('dots', '%s in state %s does not write "..." although it is required' % (self.kind, self.s0))

    def document(self, x, bare):
        e, M, P = self.M.e, self.M, self.M.P
        self.expect(x, 'DocumentContent', (), 0)
        ver = self.part(x, 'version_directive')
        vd = x.st.range_of(val.lin(e.discr(ver, P.field_type(M.ED, 'version_directive', x.st.mem[('o', 'ev')][3][P.field_index(M.EV, 'data')][2]))))
        m = re.fullmatch(r'(\.\.\.)?(%YAML1\.[12])?((?:%TAG<handle><<prefix>>)*)(---)?', bare)
        if not m:
            self.fail('text', 'the start of a document writes %r' % bare)
            return
        if bool(m.group(2)) != (vd == ((1, 1),)) or len(vd) != 1 or vd[0][0] != vd[0][1]:
            self.fail('version', 'the version directive is %swritten' % ('' if m.group(2) else 'not '))
        if m.group(2) and vd == ((1, 1),):
            V = e.expand(e.field(ver, 1, 0, P.T[P.field_type(M.ED, 'version_directive', x.st.mem[('o', 'ev')][3][P.field_index(M.EV, 'data')][2])]['args'][0]))
            mi = x.st.range_of(val.lin(V[3][P.field_index(V[1], 'minor')]))
            ma = x.st.range_of(val.lin(V[3][P.field_index(V[1], 'major')]))
            if ma != ((1, 1),) or mi != ((int(m.group(2)[-1]),) * 2,):
                self.fail('version', 'version %s.%s is written as %s' % (ma, mi, m.group(2)))
        if bool(m.group(3)) != (self.given in (True, 'tags')):
            self.fail('tags', 'tag directives are %swritten' % ('' if m.group(3) else 'not '))
        directives = bool(m.group(2)) or bool(m.group(3))
        oe = self.openended(x)
        must = directives and not D.inter(oe, ((0, 0),))
        mustnot = not directives or oe == ((0, 0),)
        if bool(m.group(1)) and not must or not m.group(1) and not mustnot:
            self.fail('dots', 'directives %s an open document: "..." is %swritten' % (
                'after' if directives else 'missing, with', '' if m.group(1) else 'not '))
        im, ca = x.st.decide(self.part(x, 'implicit')), self.flag(x, 'v0', 'canonical')
        bare_ok = im is True and ca is False and self.s0 == 'FirstDocumentStart' and not directives
        if not m.group(4) and not bare_ok:
            self.fail('marker', 'the document start marker is missing (implicit %s, canonical %s, directives %s, %s)' % (
                im, ca, directives, self.s0))
        if m.group(4) and bare_ok:
            self.fail('marker', 'the document start marker is written for an implicit first document')
        td = models.as_vec(e, x.st, x.obj[3][e.fi['tag_directives']])
        if td[0] == 'vec':
            o = set()
            for el in td[2] + td[5] + tuple(a[0] for a in td[4]):
                val.syms(el, o, set())
            if o & M.old or td[0] != 'vec':
                self.fail('scope', 'tag directives of an earlier document stay in force')
        else:
            self.fail('scope', 'what tag directives are in force after the start of a document is not known')

    def expect(self, x, state, push, pop):
        if x.state != state or x.push != tuple(push) or x.pop != pop:
            self.fail('next', '%s in state %s leads to %s, pushing %s and popping %d (expected %s, %s, %d)' % (
                self.kind, self.s0, x.state, list(x.push), x.pop, state, list(push), pop))

    def level(self, x, d, key='level'):
        e = self.M.e
        l = D.lsub(val.lin(x.obj[3][e.fi['flow_level']]), val.lin(x.st.mem[('o', 'v0')][3][e.fi['flow_level']]))
        if not (x.st.lo(l) == d == x.st.hi(l)):
            self.fail(key, '%s in state %s changes the flow level by %s to %s (expected %d)' % (
                self.kind, self.s0, x.st.lo(l), x.st.hi(l), d))

    def close(self, x, bare):
        e = self.M.e
        first = self.s0 in FIRST
        flow = self.s0.startswith('Flow')
        can = self.flag(x, 'v0', 'canonical')
        want = CLOSE[self.s0]
        if flow and not first and bare == ',' + want:
            if can is not True:
                self.fail('comma', 'a comma is written before %s outside the canonical form' % want)
        elif bare != want:
            self.fail('text', '%s in state %s writes %r (expected %r)' % (self.kind, self.s0, bare, want))
        self.expect(x, 'TOP', (), 1)
        self.level(x, 0 if first else -1 if flow else 0)
        ind = x.obj[3][e.fi['indent']]
        old = x.st.mem[('o', 'v0')][3][e.fi['indent']]
        if first:
            if x.ipop or x.ipush or not self.same(x, ind, old):
                self.fail('indent', 'an empty collection changes the indentation')
        elif x.ipop != 1 or x.ipush or not self.same(x, ind, x.st.mem[('o', 'itop')]):
            self.fail('indent', 'the end of a collection does not restore the indentation before it')

    def same(self, x, a, b):
        l = D.lsub(val.lin(a), val.lin(b))
        return x.st.lo(l) == 0 == x.st.hi(l)

    def node(self, x, bare):
        M, e, st = self.M, self.M.e, x.st
        k = self.kind
        anchor, tag = r'(&<anchor>)', r'(!<<<tag>>>|<tag>(?:<<tag>>)?)'
        if k == 'Alias':
            body = r'\*<anchor>'
        else:
            a = anchor if self.given else '()'
            t = tag if self.given else '()'
            if k == 'Scalar':
                body = a + '(?:' + t + r'|(!))?<<value>>' if self.given else a + t + r'(!)?<<value>>'
            else:
                body = a + t + ('?' if self.given else '')
        for pre, ret, simple in POS[self.s0]:
            m = re.fullmatch(re.escape(pre) + body, bare)
            back = x.push[0] if k in ('SequenceStart', 'MappingStart') and x.push else x.state
            if m and back == ret:
                break
        else:
            self.fail('text', '%s in state %s writes %r and continues with %s' % (k, self.s0, bare, x.state))
            return
        can = self.flag(x, 'v0', 'canonical')
        vi = st.mem[('o', 'v0')][3]
        no = 1 if self.s0.startswith('Flow') and self.s0 in FIRST else 0
        self.level(x, no)
        # indentation
        ind, old = x.obj[3][e.fi['indent']], vi[e.fi['indent']]
        if self.s0 in FIRST:
            d = D.lsub(val.lin(ind), val.lin(old))
            if x.ipush != 1 or x.ipop or not self.same(x, x.ipushv[0], old):
                self.fail('indent', 'the first entry of a collection does not keep the indentation around it')
            elif st.lo(val.lin(ind)) < 0 or st.lo(d) < 0:
                self.fail('indent', 'a collection is indented less than what it is in')
            elif st.lo(d) < 1 and not (self.s0 == 'BlockSequenceFirstItem' and
                                       self.flag(x, 'v0', 'mapping_context') is True and self.flag(x, 'v0', 'indention') is False):
                self.fail('indent', 'a collection is not indented more than what it is in')
        elif x.ipush or x.ipop or not self.same(x, ind, old):
            self.fail('indent', '%s in state %s changes the indentation' % (k, self.s0))
        # one line keys
        if simple is not None and self.s0.startswith('Flow') and can is not False and simple:
            self.fail('simple', 'a key is written without "?" in the canonical form')
        if simple:
            if k == 'Alias' and x.out[-1] != 'W':
                self.fail('simple', 'an alias as a key is not set off from the ":" that follows')
            if k in ('SequenceStart', 'MappingStart') and self.nextkind(x) != (('SequenceEnd',) if k[0] == 'S' else ('MappingEnd',)):
                self.fail('simple', 'a collection that is not empty is written as a key without "?"')
        if k in ('SequenceStart', 'MappingStart'):
            q = 'Sequence' if k[0] == 'S' else 'Mapping'
            fl, bl = 'Flow%sFirst%s' % (q, 'Item' if q[0] == 'S' else 'Key'), 'Block%sFirst%s' % (q, 'Item' if q[0] == 'S' else 'Key')
            if x.state not in (fl, bl):
                self.fail('next', '%s in state %s leads to %s' % (k, self.s0, x.state))
            if x.push != (ret,) or x.pop:
                self.fail('next', '%s in state %s pushes %s and pops %d' % (k, self.s0, list(x.push), x.pop))
            lv = val.lin(x.obj[3][e.fi['flow_level']])
            sty = self.part(x, 'style')
            sr = st.range_of(val.lin(sty)) if sty[0] == 'i' else ()
            names = {e.vname(self.styty(x), M.P.variant_of(self.styty(x), q)) for q in D.elems(sr)}
            empty = self.nextkind(x) == (q + 'End',)
            if x.state == bl:
                if st.hi(lv) > 0:
                    self.fail('style', 'a block collection is written inside a flow collection')
                if can is not False:
                    self.fail('style', 'a block collection is written in the canonical form')
                if 'Flow' in names:
                    self.fail('style', 'a collection of flow style is written in block style')
                if (q + 'End') in self.nextkind(x):
                    self.fail('style', 'an empty collection is written in block style')
            elif st.lo(lv) <= 0 and can is not True and names != {'Flow'} and not empty:
                self.fail('style', 'a collection of block style is written in flow style without need')
            mc = self.flag(x, 'e', 'mapping_context')
            if self.s0 in ('DocumentContent', 'FlowSequenceFirstItem', 'FlowSequenceItem', 'BlockSequenceFirstItem',
                           'BlockSequenceItem') and mc is not False:
                self.fail('context', 'a sequence that is not in a mapping may be written without indentation')
        else:
            if x.state != ret or x.push or x.pop:
                self.fail('next', '%s in state %s leads to %s, pushing %s and popping %d' % (
                    k, self.s0, x.state, list(x.push), x.pop))
        if self.given and k != 'Alias':
            if not m.group(2):
                f = [st.decide(self.part(x, n)) for n in (('plain_implicit', 'quoted_implicit') if k == 'Scalar' else ('implicit',))]
                if can is not False or True not in f:
                    self.fail('tag', 'the tag of a %s is not written (implicit %s, canonical %s)' % (k, f, can))

    def styty(self, x):
        P, M = self.M.P, self.M
        d = x.st.mem[('o', 'ev')][3][P.field_index(M.EV, 'data')]
        return P.field_type(M.ED, 'style', d[2])

    def nextkind(self, x):
        e, P, M = self.M.e, self.M.P, self.M
        nx = x.st.mem.get(('o', 'next'))
        d = nx[3][P.field_index(M.EV, 'data')]
        r = x.st.range_of(val.lin(e.discr(d, M.ED)))
        return tuple(e.vname(M.ED, P.variant_of(M.ED, q)) for q in D.elems(r))


def tasks(M):
    out = []
    for s0 in M.states:
        for k in KINDS:
            gs = (None,)
            if k in ALLOWED.get(s0, ()) and (k in NODES and k != 'Alias' or k == 'DocumentStart'):
                gs = (False, True) if k in NODES else (False, True, 'version', 'tags')
            out += [(s0, k, g, False) for g in gs]
    # the decisions on the style of a scalar do not depend on anchors and tags
    heavy = lambda t: -(t[1] == 'Scalar') * 3 - (t[1].endswith('Start')) - bool(t[2])
    return sorted(out, key=heavy)


MACHINE = []


def work(t):
    M = MACHINE[0]
    S = Step(M, *t)
    M.e.panics = {}
    M.e.seen_fns = {}
    try:
        S.run()
    except eng.Give as g:
        S.fail('gave-up', 'the analysis could not establish the property (%s)' % g)
    return t, S.bad, S.good, dict(M.e.panics), dict(M.e.seen_fns), [M.P.bodies[k]['path'] for k in M.e.skipped]


def sweep(P):
    """one event from every state of the emitter"""
    import multiprocessing
    M = Machine(P)
    MACHINE[:] = [M]
    ts = tasks(M)
    with multiprocessing.get_context('fork').Pool(min(8, multiprocessing.cpu_count() or 1)) as p:
        return M, p.map(work, ts, 1)


def events(P, rep, tier):
    """C06"""
    rep.rule = ('Emitter::emit is interpreted abstractly for one event of every kind from every state; whether the event is '
                'accepted, the text of the indicators, anchors and tags written and the white space between them, the state '
                'that follows, what is pushed on and popped off the stack of states, the indentation and the flow level are '
                'compared with the documented grammar of events and with the YAML syntax of the node positions')
    M, res = sweep(P)
    pairs, n = set(), 0
    for t, bad, good, pan, seen, sk in sorted(res, key=lambda r: str(r[0])):
        s0, kind, given, _ = t
        pairs.add((s0, kind))
        n += good
        rep.analysed({P.bodies[k]['path']: c for k, c in seen.items()})
        for key, text in bad:
            rep.fail(key, text)
        if not bad:
            rep.ok('%s:%s:%s' % (s0, kind, given), '%d outcomes' % good)
        if not good:
            rep.fail('%s:%s:outcome' % (s0, kind), 'no outcome of %s in state %s' % (kind, s0))
    known = set(ALLOWED)
    rep.check(set(M.states) == known, 'states', 'the states of the emitter are %s' % ', '.join(sorted(set(M.states) ^ known)))
    rep.check(M.initial == 'StreamStart', 'initial', 'a new emitter is in state %s' % M.initial)
    rep.check(len(pairs) == len(known) * len(KINDS), 'pairs', '%d pairs of state and event analysed' % len(pairs))
    rep.check(n >= 2000, 'coverage', 'only %d outcomes' % n)
    rep.note('outcomes', n)
    rep.note('not_entered', sorted({x for r in res for x in r[5]}))
    rep.assume += ['functions that loop over the characters of a string are not entered here: what they write counts as '
                   'the text of that string (their own behaviour is the subject of other properties)',
                   'the history is one without an earlier error of the emitter or of the writer']
    rep.say('%d outcomes of %d pairs of state and event' % (n, len(pairs)))
