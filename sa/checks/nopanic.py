"""No input makes the reader, the scanner or the parser panic."""
import common
import graph
from checks import parsertab, reading, scan
from state import State

_scan = {}


def scanned(P):
    if id(P) not in _scan:
        _scan[id(P)] = (scan.chars(P), scan.tokens(P))
    return _scan[id(P)]


def show(chain):
    return ' > '.join('%s:%s' % (f.split('::')[-1], l) for f, l in chain)


def scanner_panics(P, rep):
    A, B = scanned(P)
    known_b = {P.bodies[k]['path'] for k in B.fns} - {P.bodies[k]['path'] for k in B.skipped}
    known_a = {P.bodies[k]['path'] for k in A.fns}
    for site, (taint, chain) in sorted(list(A.panics.items()) + list(B.panics.items()), key=str):
        fn, what, line = site
        if site in A.panics and fn in known_b and site not in B.panics:
            continue
        if site in B.panics and fn in known_a and site not in A.panics:
            continue
        key = '%s:%s' % (fn, what)
        if taint:
            rep.undec(key, 'depends on an unmodelled call (%s)' % show(chain))
        else:
            rep.fail(key, 'line %s of %s can panic (%s): %s' % (line, fn, what, show(chain)))
    for what, variant, avail, res, broken in B.inv:
        k = '%s/%s%s -> %s' % (what, variant, '' if avail is None else '/ready' if avail else '/not ready', res)
        rep.check(broken is None, 'invariant:' + k, 'after %s: %s' % (k, broken))
    common.reset()
    e = scan.engine(P, scan.scanner_type(P))
    for v, s in e.call_key(P.one(r'^scanner::Scanner::<R>::new$'), [], State(), 0, ()):
        s.mem[('o', 's')] = v
        b = scan.inv_broken(e, s)
        started = s.decide(v[3][e.fi['stream_start_produced']])
        rep.check(b is None and started is False, 'invariant:new', 'a new scanner: %s' % (b or 'already started'))
    for f, n in (('scanner steps at the level of characters', A.outs), ('at the level of tokens', B.outs)):
        rep.say('%s: %d outcomes' % (f, n))
    rep.check(A.outs >= 10 and B.outs >= 40, 'scanner:outcomes', 'only %d and %d outcomes' % (A.outs, B.outs))
    for f in known_a | known_b:
        rep.ok('no panic:' + f)
    rep.analysed(A.fns)
    rep.analysed(B.fns)
    for R in (A, B):
        for n in R.unmod:
            rep.undec('call:' + n, 'unmodelled call')
    return A, B


def stacks(T, rep):
    """least depth of the stacks of return states and of marks each parser state needs"""
    names = {v['n'] for v in T.e.T[T.e.PS]['v']}
    for what in ('states', 'marks'):
        need = {s: 0 for s in names}
        why = {}
        for _ in range(60):
            ch = False

            def up(s, n, x):
                nonlocal ch
                if n > need[s]:
                    need[s] = n
                    why[s] = x
                    ch = True
            for x in T.outs:
                if not x.ok and what == 'marks':
                    up(x.s0, x.mpop0, x)
                if what == 'states':
                    up(x.s0, x.pop, x)
                    if not x.ok:
                        if 'TOP' not in x.state:
                            up(x.s0, max([need.get(q, 0) for q in x.state] or [0]) - len(x.push) + x.pop, x)
                        continue
                    for q in x.state:
                        if q != 'TOP':
                            up(x.s0, need[q] - len(x.push) + x.pop, x)
                    for i, c in enumerate(x.push):
                        for q in c:
                            if q != 'TOP':
                                up(x.s0, need[q] - i + x.pop, x)
                else:
                    up(x.s0, x.mpop0, x)
                    if not x.ok and 'TOP' in x.state:
                        continue
                    n = max([need[q] for q in x.state if q != 'TOP'] or [0])
                    for c in x.push:
                        n += max([need[q] for q in c if q != 'TOP'] or [0])
                    up(x.s0, n - x.dmarks, x)
            if not ch or max(need.values()) > 8:
                break
        for s in sorted(names):
            rep.check(need[s] <= 8, 'parser:%s:%s' % (what, s), 'the stack of %s can be popped while empty in state %s' % (what, s))
        rep.check(need[T.initial] == 0, 'parser:%s:start' % what,
                  'the stack of %s can be popped while empty: the initial state %s would need %d entries' % (
                      what, T.initial, need[T.initial]))
        rep.say('parser, depth of the stack of %s needed: %s' % (what, ', '.join(
            '%s %d' % (s, need[s]) for s in sorted(names) if need[s])))


def parser_panics(P, rep):
    T = parsertab.extract(P)
    for (fn, what, line), v in sorted(T.panics.items(), key=str):
        rep.fail('%s:%s' % (fn, what), 'line %s of %s can panic (%s)' % (line, fn, what))
    rep.check(len(T.outs) > 100, 'parser:outcomes', 'only %d parser outcomes' % len(T.outs))
    rep.say('parser: %d outcomes from %d states' % (len(T.outs), len(T.e.T[T.e.PS]['v'])))
    stacks(T, rep)
    rep.analysed(T.fns)
    for f in {P.bodies[k]['path'] for k in T.fns}:
        rep.ok('no panic:' + f)
    for n in T.unmodelled:
        rep.undec('call:' + n, 'unmodelled call')
    return T


def reader_panics(P, rep):
    R = reading.analyse(P)
    for (fn, what, line), (taint, chain) in sorted(R.panics.items(), key=str):
        (rep.undec if taint else rep.fail)('%s:%s' % (fn, what), 'line %s of %s can panic (%s): %s' % (
            line, fn, what, show(chain)))
    rep.check(R.outs >= 8, 'reader:outcomes', 'only %d reader outcomes' % R.outs)
    rep.say('reader: %d outcomes' % R.outs)
    rep.analysed(R.fns)
    for f in {P.bodies[k]['path'] for k in R.fns}:
        rep.ok('no panic:' + f)
    for n in list(R.unknown) + list(R.unmod):
        rep.undec('call:' + n, 'unmodelled call')
    return R


ROOTS = (r'^parser::Parser::<R>::(parse|new|set_input|set_encoding)$',
         r'^<parser::Parser<R> as std::iter::Iterator>::next$',
         r'^scanner::Scanner::<R>::(new|scan|set_input|set_encoding)$',
         r'^<scanner::Scanner<R> as std::iter::Iterator>::next$')


def panic_sites(b):
    n = 0
    for bl in b['blocks']:
        t = bl['t']
        if t[0] == 'assert':
            n += 1
        elif t[0] == 'call' and any(x in str(t[1]) for x in ('panic', 'unwrap', 'expect', 'Index')):
            n += 1
    return n


def coverage(P, rep, seen):
    G = graph.Graph(P)
    roots = [k for r in ROOTS for k in P.find(r)]
    rep.check(len(roots) >= 6, 'roots', 'only %d entry points found' % len(roots))
    paths = {P.bodies[k]['path'] for k in seen}
    n = 0
    for k in sorted(G.reach(roots)):
        b = P.bodies[k]
        if not b['local'] or b['path'] in paths:
            n += b['local']
            continue
        if panic_sites(b):
            rep.undec('reach:' + b['path'], 'reachable in the call graph, entered by no analysis')
    rep.say('%d functions of the crate reachable from the entry points were analysed' % n)
    rep.check(n >= 100, 'coverage', 'only %d functions analysed' % n)


def nopanic(P, rep, tier):
    rep.rule = ('Every step of the reader, the scanner and the parser is interpreted abstractly from every state its '
                'invariant allows, with the input open; every panicking construct (assertion, unwrap, index, slice, '
                'arithmetic overflow, unreachable) must be infeasible, and every exit must re-establish the invariant. '
                'A site of the scanner counts as safe if it is infeasible with an exact look-ahead buffer or with '
                'exact token, key and indentation stacks. The depths of the parser stacks are inferred from its '
                'transition table.')
    rep.assume += ['fewer than 2^31 characters of input (counters do not overflow)',
                   'an input has been set; allocation does not fail',
                   'calls in an order the types permit but the documentation forbids (setting the input twice) are not inputs']
    R = reader_panics(P, rep)
    A, B = scanner_panics(P, rep)
    T = parser_panics(P, rep)
    coverage(P, rep, set(R.fns) | set(A.fns) | set(B.fns) | set(T.fns))
