"""The settings of the emitter: what the public functions make of them, and what they are once a stream has begun."""
import common
import dom as D
import eng
import val
from state import State
from val import I, const, lin

SELF = ('r', ('o', 'e'), ())
MAX = (1 << 31) - 1


def find(P, n):
    return P.one(r'^emitter::Emitter::<.*>::%s$' % n)


def is_(st, v, l):
    return st.decide(val.cmp('eq', D.lsub(lin(v), l))) is True


def within(st, v, lo, hi):
    """the state, restricted to lo <= v <= hi; None if it cannot be"""
    q = st.copy()
    if lo is not None and not q.assume_le(D.lsub(const(lo), lin(v))):
        return None
    if hi is not None and not q.assume_le(D.lsub(lin(v), const(hi))):
        return None
    return q


def unit_names(P, t):
    return {x['n']: x['d'] for x in P.T[t]['v']}


def setters(P, rep):
    em = P.T[P.bodies[find(P, 'emit')]['locals'][1]]['to']
    ft = dict(P.fields(em))
    fi = {n: P.field_index(em, n) for n in ('canonical', 'best_indent', 'best_width', 'unicode', 'line_break', 'encoding')}
    cases = {'canonical': ('set_canonical', [(None, None, None)]), 'unicode': ('set_unicode', [(None, None, None)]),
             'line_break': ('set_break', [(None, None, None)]), 'encoding': ('set_encoding', [(None, None, None)]),
             'best_indent': ('set_indent', [(2, 9, None), (None, 1, 2), (10, None, 2)]),
             'best_width': ('set_width', [(0, None, None), (None, -1, -1)])}
    fns = {}
    for f, (fn, ranges) in sorted(cases.items()):
        common.reset()
        e = eng.Eng(P)
        key = find(P, fn)
        lt = P.bodies[key]['locals']
        names = unit_names(P, lt[2]) if P.T[lt[2]].get('enum') else {None: None}
        n = 0
        for nm, d in sorted(names.items(), key=repr):
            st = State()
            o = e.expand(e.fresh(em, 'em'))
            if f == 'encoding':
                fs = list(o[3])
                fs[fi[f]] = I(unit_names(P, ft[f])['Any'])
                o = o[:3] + (tuple(fs),)
            st.mem[('o', 'e')] = o
            arg = e.fresh(lt[2], 'arg') if nm is None else I(d)
            st.mem[('o', 'arg')] = arg        # kept, for the comparison
            outs = e.call_key(key, [SELF, arg], st, 0, ())
            rep.check(bool(outs), '%s:returns' % fn, '%s never returns' % fn)
            for v, s in outs:
                got = s.mem[('o', 'e')]
                for lo, hi, want in ranges:
                    q = s if lo is None and hi is None else within(s, arg, lo, hi)
                    if q is None:
                        continue
                    n += 1
                    l = lin(arg) if want is None else const(want)
                    g = got[3][fi[f]]
                    if g[0] != 'i':
                        ok = g == arg or q.decide(g) is not None and q.decide(g) == q.decide(arg)
                    else:
                        ok = arg[0] == 'i' and is_(q, g, l)
                    rep.check(ok, '%s:%s..%s' % (fn, lo, hi),
                              '%s(%s) sets %s to %s' % (fn, nm or '%s..%s' % ('' if lo is None else lo, '' if hi is None else hi), f,
                                                        'what is given' if ok and want is None else want if ok else 'something else'))
                for g, i in fi.items():
                    if g == f:
                        continue
                    same = got[3][i] == o[3][i]
                    rep.check(same, '%s:only:%s' % (fn, g), '%s also changes %s' % (fn, g) if not same else 'unchanged')
        rep.check(n > 0, '%s:cases' % fn, '%d cases' % n)
        for k in e.panics:
            rep.fail('%s:panic' % fn, '%s can panic' % fn)
        fns.update(e.seen_fns)
    return fns


def begin(P, rep, tier):
    em = P.T[P.bodies[find(P, 'emit')]['locals'][1]]['to']
    ft = dict(P.fields(em))
    fi = {n: P.field_index(em, n) for n in ('best_indent', 'best_width', 'line_break', 'encoding', 'buffer')}
    evt = P.bodies[find(P, 'emit')]['locals'][2]
    datat = dict(P.fields(evt))['data']
    var = [i for i, x in enumerate(P.T[datat]['v']) if x['n'] == 'StreamStart'][0]
    E, B = unit_names(P, ft['encoding']), unit_names(P, ft['line_break'])
    enc = {d: n for n, d in E.items()}
    low = -(1 << 31)
    one = (2, 2), 2, (5, MAX), None
    runs = [(x, y, 'Any') + one for x in E for y in E] + [('Any', 'Any', b) + one for b in B if b != 'Any']
    # (range of the indentation, what it becomes), (range of the width, what it becomes: None is what it was)
    for r, i in [((low, 1), 2), ((10, MAX), 2)] + [((k, k), k) for k in range(2, 10)]:
        for w, x in (((low, -1), MAX), ((0, 2 * i), 80), ((2 * i + 1, MAX), None)):
            runs.append(('Any', 'Utf8', 'Any', r, i, w, x))
    fns = {}
    for setting, given, brk, ri, wi, rw, ww in runs:
        common.reset()
        e = eng.Eng(P)
        (v0, s0), = e.call_key(find(P, 'new'), [], State(), 0, ())
        fs = list(v0[3])
        ind, wid = (e.fresh_int((r,), 'n') if r[0] < r[1] else I(r[0]) for r in (ri, rw))
        fs[fi['best_indent']], fs[fi['best_width']] = ind, wid
        fs[fi['encoding']], fs[fi['line_break']] = I(E[setting]), I(B[brk])
        wh = P.field_index(em, 'write_handler')
        fs[wh] = e.fresh(ft['write_handler'], 'writer')
        st = s0
        st.mem[('o', 'e')] = v0[:3] + (tuple(fs),)
        st.mem[('o', 'arg')], st.mem[('o', 'arg2')] = ind, wid        # kept, for the comparison
        ev = list(e.expand(e.fresh(evt, 'event'))[3])
        ev[P.field_index(evt, 'data')] = ('a', datat, var, (I(E[given]),))
        outs = e.call_key(find(P, 'emit'), [SELF, ('a', evt, 0, tuple(ev))], st, 0, ())
        nm = '%s:%s:%s' % (setting, given, brk)
        want = setting if setting != 'Any' else given if given != 'Any' else 'Utf8'
        wbrk = brk if brk != 'Any' else 'Ln'
        n = 0
        for v, s in outs:
            if v[0] == 'a' and e.vname(v[1], v[2]) == 'Err' or v[0] != 'a' and v != I(0):
                if want == 'Utf8':
                    rep.fail('begin:error', 'a stream cannot be begun (%s)' % nm)
                continue
            g = s.mem[('o', 'e')][3]
            n += 1
            rep.check(is_(s, g[fi['encoding']], const(E[want])), 'begin:encoding:%s' % nm,
                      'encoding set to %s, %s by the event: %s is used' % (setting, given, want))
            rep.check(is_(s, g[fi['line_break']], const(B[wbrk])), 'begin:break:%s' % nm, 'line break %s: %s is used' % (brk, wbrk))
            rep.check(is_(s, g[fi['best_indent']], const(wi)), 'begin:indent:%s..%s' % ri,
                      'an indentation setting of %s to %s: %s is used' % (ri + (wi,)))
            rep.check(is_(s, g[fi['best_width']], lin(wid) if ww is None else const(ww)), 'begin:width:%s..%s:%s' % (rw + (wi,)),
                      'a width setting of %s to %s with an indentation of %s: %s is used' % (rw + (wi, ww or 'the same')))
            t = g[fi['buffer']]
            mark = '' if want == 'Utf8' else '\ufeff'
            if t[0] != 'S' or t[1] is None:
                rep.undec('begin:mark:%s' % nm, 'what is written')
            else:
                rep.check(t[1] == mark, 'begin:mark:%s' % nm, 'what is written first in %s: %r' % (want, t[1]))
        rep.check(n > 0, 'begin:%s' % nm, '%d outcomes' % n)
        fns.update(e.seen_fns)
    return fns


def settings(P, rep, tier):
    """C22"""
    rep.rule = ('the functions that change settings and the first event of a stream are evaluated for symbolic settings; what is '
                'stored is compared, range by range, with what was asked for')
    fns = setters(P, rep)
    fns.update(begin(P, rep, tier))
    rep.analysed(fns)
