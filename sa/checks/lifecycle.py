"""Rules on what the state of the objects is at the end of an operation."""
import common
import dom as D
import eng
import val
from state import State


def strip(e, st, v):
    """a comparable description of a value in state st, None if unknown"""
    if v is None:
        return None
    k = v[0]
    if k == 'i':
        r = st.range_of(val.lin(v))
        xs = [x for _, x in zip(range(2), D.elems(r))]
        return ('i', xs[0]) if len(xs) == 1 else None
    if k == 'S':
        return ('S', v[1]) if v[1] is not None else None
    if k == 'cstr':
        return ('cstr', v[1])
    if k == 'vec':
        n = st.range_of(v[3])
        tot = (len(v[2]) + len(v[5]), list(D.elems(n))[0]) if n == ((0, 0),) else None
        if tot is None:
            return None
        xs = [strip(e, st, x) for x in v[2] + v[5]]
        return None if any(x is None for x in xs) else ('vec', tuple(xs))
    if k == 'a':
        fs = [strip(e, st, x) for x in v[3]]
        return None if any(x is None for x in fs) else ('a', e.T[v[1]].get('path', v[1]), v[2] or 0, tuple(fs))
    if k == 'cb':
        return ('cb',) + tuple(repr(x) for x in v[1:]) if False else buf(e, st, v)
    return None


def buf(e, st, v):
    ln = v[4] if len(v) > 4 else None
    if not v[1]:
        try:
            if st.range_of(v[3] if isinstance(v[3], tuple) else (v[3], ())) == ((0, 0),):
                return ('vec', ())
        except Exception:
            return None
    return None


def flatten(e, st, v, name, out):
    """named leaves of a struct of this crate"""
    if v is not None and v[0] == 's' and e.T[v[1]]['k'] == 'adt' and not e.T[v[1]].get('enum') and e.T[v[1]].get('local'):
        v = e.expand(v)
    if v is not None and v[0] == 'a' and e.T[v[1]]['k'] == 'adt' and not e.T[v[1]].get('enum') \
            and e.T[v[1]].get('local'):
        for i, (n, t) in enumerate(e.p.fields(v[1])):
            flatten(e, st, v[3][i], name + '.' + n if name else n, out)
    else:
        out[name] = strip(e, st, v)
        out.setdefault('', {})[name] = v


def reset(P, rep, tier):
    rep.rule = ('For the scanner, the parser and the emitter: the constructor is evaluated; reset() is evaluated on an '
                'object about which nothing is known; every field must end with the value the constructor gives it. '
                'Fields are enumerated from the type, so none can be forgotten.')
    n = 0
    for what, pat in (('scanner', 'scanner::Scanner'), ('parser', 'parser::Parser'), ('emitter', 'emitter::Emitter')):
        common.reset()
        e = eng.Eng(P)
        (v0, s0), = e.call_key(P.one(r'^%s::<.*>::new$' % pat), [], State(), 0, ())
        want = {}
        flatten(e, s0, v0, '', want)
        wraw = want.pop('')
        st = State()
        ty = v0[1]
        st.mem[('o', 'x')] = e.expand(e.fresh(ty, 'any'))
        outs = e.call_key(P.one(r'^%s::<.*>::reset$' % pat), [('r', ('o', 'x'), ())], st, 0, ())
        rep.check(bool(outs), '%s:returns' % what, '%s reset never returns' % what)
        for v, s in outs:
            got = {}
            flatten(e, s, s.mem[('o', 'x')], '', got)
            graw = got.pop('')
            for f in sorted(set(want) | set(got)):
                n += 1
                if want.get(f) is None and f in wraw and not any(x for x in ()):
                    rep.undec('%s.%s' % (what, f), 'the constructor leaves it undetermined')
                    continue
                rep.check(got.get(f) == want.get(f), '%s.%s' % (what, f),
                          'after reset() the field %s of the %s is %s, a new one has %s' % (
                              f, what, 'not determined' if got.get(f) is None else got.get(f), want.get(f)))
        rep.analysed(e.seen_fns)
        for k, q in list(e.panics.items())[:5]:
            rep.fail('%s:panic' % what, 'reset of the %s can panic (%s)' % (what, k))
    rep.say('%d fields compared' % n)
    rep.check(n >= 50, 'coverage', 'only %d fields were compared' % n)
