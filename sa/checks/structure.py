"""Whole-program rules on the call graph, the types and the effects."""
import re
import eng
import graph

# what a user calls
API = (r'^(scanner::Scanner|parser::Parser|emitter::Emitter|document::Document|error::Error|event::Event)::<?[^:]*>?(::)?'
       r'[a-z_0-9]+$')
READ = r'^(scanner::Scanner|parser::Parser)::<.*>::[a-z_0-9]+$|as std::iter::Iterator>::next$|^document::Document::load$'


def publics(P, pat=None):
    ks = [k for k, b in P.bodies.items() if b['local'] and b['pub'] and '{closure' not in b['path']
          and not re.search(r' as std::(fmt|cmp|clone|hash|error)::', b['path'])]
    if pat:
        ks = [k for k in ks if re.search(pat, P.bodies[k]['path'])]
    return sorted(ks)


def need_api(P):
    for a in (r'^scanner::Scanner::<.*scan$', r'^parser::Parser::<.*::parse$', r'^document::Document::load$',
              r'^document::Document::dump$', r'^emitter::Emitter::<.*::emit$'):
        if not P.find(a):
            raise eng.Anchor(a)


# ---- bounded call depth --------------------------------------------------------
def recursion(P, rep, tier):
    rep.rule = ('The call graph over every function of the crate (and the generic library code instantiated by it) has '
                'no cycle: the call depth, and so the stack used, does not depend on the input.  No type of the crate '
                'contains itself, so dropping, cloning or comparing a value does not recurse either.')
    need_api(P)
    G = graph.Graph(P)
    roots = publics(P)
    nodes = G.reach(roots)
    rep.analysed({P.bodies[k]['path']: 1 for k in nodes})
    byroot = {}
    for r in roots:
        byroot[r] = G.reach([r])
    n = 0
    for comp in G.sccs(nodes):
        names = sorted(P.bodies[k]['path'] for k in comp)
        if not any(P.bodies[k]['local'] for k in comp):
            # a loop inside library code cannot come back to the crate: its
            # own iteration is bounded by its own contract
            continue
        via = sorted({P.bodies[r]['path'] for r in roots if comp[0] in byroot[r]})
        n += 1
        for v in via:
            rep.fail('recursion below %s' % v, 'the call depth of %s is not bounded: %s call each other' % (
                v, ', '.join(names[:6])))
    for r in roots:
        if not any(set(c) & byroot[r] and any(P.bodies[k]['local'] for k in c) for c in G.sccs(byroot[r])):
            rep.ok('no recursion below %s' % P.bodies[r]['path'])
    # types that contain themselves
    tg = {}
    for i, t in enumerate(P.T):
        out = set()
        if t['k'] == 'adt':
            for v in t.get('v') or ():
                out |= {f[1] for f in v['f']}
            out |= set(t.get('args') or ())
        elif t['k'] in ('tuple', 'closure'):
            out |= {f if isinstance(f, int) else f[1] for f in t['f']}
        elif t['k'] in ('array', 'slice'):
            out.add(t['to'])
        tg[i] = out

    class TG:
        edges = tg
    for comp in graph.Graph.sccs(TG, set(tg)):
        loc = [P.T[i]['s'] for i in comp if P.T[i]['k'] == 'adt' and P.T[i].get('local')]
        if loc:
            rep.fail('recursive type %s' % sorted(loc)[0], 'values of type %s contain values of the same type: '
                     'dropping, cloning and comparing them recurses as deep as the data' % sorted(loc)[0])
    for i, t in enumerate(P.T):
        if t['k'] == 'adt' and t.get('local'):
            rep.ok('type %s does not contain itself' % t['s'])
    rep.note('call_graph', {'functions': len(nodes), 'edges': sum(len(G.edges[k]) for k in nodes),
                            'roots': [P.bodies[r]['path'] for r in roots]})
    # calls that leave the graph: only library code and the caller's own
    # reader and writer
    ind = sorted({P.bodies[k]['path'] for k in nodes if P.bodies[k]['local'] and '<indirect>' in G.ext[k]})
    for f in ind:
        rep.undec('indirect call in %s' % f, 'a call through a function pointer')
    rep.say('call graph: %d functions, %d edges, %d entry points, %d recursive groups' % (
        len(nodes), sum(len(G.edges[k]) for k in nodes), len(roots), n))
    rep.check(len(roots) > 40 and len(nodes) > 200, 'coverage', 'the call graph is too small to be complete')


# ---- no hidden inputs ----------------------------------------------------------
IMPURE = [
    (r'\bstd::(time|env|thread|process|fs|net|os)\b', 'the environment'),
    (r'\bcore::sync\b|\bstd::sync\b|\bcore::cell\b|\bstd::cell\b|LocalKey', 'shared mutable state'),
    (r'RandomState|hash_map|hash_set|HashMap|HashSet|\bDefaultHasher\b', 'hash order, which is random'),
    (r'\bstd::io::(stdin|stdout|stderr|_print|_eprint|Stdin|Stdout|Stderr)\b|std::io::stdio', 'the standard streams'),
    (r'::as_ptr\b|::as_mut_ptr\b|::addr\b|expose_provenance|ptr::eq\b|fmt::Pointer|addr_eq', 'addresses'),
    (r'::capacity\b|::shrink_to|size_of_val\b|::spare_capacity', 'the capacity of a buffer'),
    (r'\bstd::any::|type_name\b|TypeId', 'compiler-chosen identities'),
    (r'catch_unwind|set_hook|panicking::panicking\b|\bbacktrace\b|Backtrace|panic::Location', 'the panic machinery'),
    (r'\bcore::arch\b|\bstd::arch\b|is_x86_feature', 'the processor'),
    (r'\brand::|getrandom', 'random numbers'),
]


def purity(P, rep, tier):
    rep.rule = ('Effect analysis over everything reachable from the public functions: no function of the crate calls '
                'anything that reads the environment, shared state, addresses, capacities, hash order or time; the '
                'crate has no mutable statics, no thread-locals, no interior mutability; no pointer becomes an '
                'integer.  So the outcome of every call is a function of its arguments and of what the reader and '
                'writer given by the caller return.')
    need_api(P)
    G = graph.Graph(P)
    roots = publics(P)
    nodes = G.reach(roots)
    loc = [k for k in nodes if P.bodies[k]['local']]
    rep.analysed({P.bodies[k]['path']: 1 for k in loc})
    sites = 0
    virt = {}
    for k in sorted(loc):
        b = P.bodies[k]
        bad = False
        for c in G.calls[k]:
            sites += 1
            if c.ci.get('local') and c.key:
                continue
            names = [c.path, c.ci.get('dfull', ''), c.ci.get('decl', '')]
            names += [P.T[t]['s'] for t in c.ci.get('targs') or () if not P.T[t].get('local')]
            if c.ci.get('kind') == 'virtual' or c.ci.get('trait') and c.key is None:
                virt.setdefault(c.ci.get('decl'), 0)
                virt[c.ci['decl']] += 1
            for pat, what in IMPURE:
                m = [n for n in names if n and re.search(pat, n)]
                if m:
                    bad = True
                    rep.fail('effect:%s:%s' % (b['path'], c.path), '%s depends on %s: it calls %s' % (
                        b['path'], what, c.path))
        for i, bl in enumerate(b['blocks']):
            if bl is None:
                continue
            for s in bl['s']:
                x = str(s)
                if 'Expose' in x or 'PtrToInt' in x:
                    bad = True
                    rep.fail('address:%s' % b['path'], '%s turns an address into a number' % b['path'])
                if "'static'" in x or "'tls'" in x:
                    bad = True
                    rep.fail('static:%s' % b['path'], '%s uses a static or thread-local variable' % b['path'])
        if not bad:
            rep.ok('effects of %s' % b['path'])
    for it in P.items:
        if it[0] in ('static', 'static mut', 'foreign'):
            loc = '%s:%s' % (it[2][0].split('/')[-1], it[1])
            rep.fail('item:%s' % loc, 'the crate has a %s %s: its results may depend on earlier calls' % (it[0], it[1]))
    # interior mutability hidden in types
    for t in P.T:
        if t['k'] == 'adt' and t.get('local'):
            for v in t.get('v') or ():
                for n, ft in v['f']:
                    s = P.T[ft]['s']
                    if re.search(r'\b(Cell|RefCell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Mutex|RwLock|Atomic\w+|Rc|Arc|'
                                 r'HashMap|HashSet)\b', s):
                        rep.fail('field:%s.%s' % (t['path'], n), 'field %s of %s is shared, interiorly mutable or '
                                 'randomly ordered (%s)' % (n, t['path'], s))
            rep.ok('fields of %s' % t['s'])
    rep.note('call_sites', sites)
    rep.note('calls_into_caller_supplied_code', virt)
    rep.say('%d functions, %d call sites, %d types' % (len(loc), sites, sum(
        1 for t in P.T if t['k'] == 'adt' and t.get('local'))))
    rep.check(len(G.calls) > 300 and sites > 1000, 'coverage', 'too few call sites were found')


# ---- unsafe code ---------------------------------------------------------------
ALLOWED = ('from_utf8_unchecked',)


def view(e, st, v):
    """(root, path, offset, length) of a byte slice"""
    import models
    if v[0] == 'slice':
        return (v[1], v[2], v[3], v[4])
    root, path, x = models.target(e, st, v)
    if x is not None and x[0] == 'slice':
        return (x[1], x[2], x[3], x[4])
    return (root, path, (0, ()), None)


def unsafety(P, rep, tier):
    rep.rule = ('Every unsafe block of the crate is found; every unsafe operation in it must be an unchecked conversion '
                'of bytes to text whose argument is shown to be a prefix of validated bytes, no longer than the '
                'validator reported as valid.  No raw pointer is dereferenced, there are no mutable statics, foreign '
                'items, transmutes or unsafe functions of the crate itself.')
    need_api(P)
    G = graph.Graph(P)
    loc = sorted(k for k in P.bodies if P.bodies[k]['local'])
    rep.analysed({P.bodies[k]['path']: 1 for k in loc})
    blocks = {(it[2][0], it[2][1]) for it in P.items if it[0] == 'unsafe'}
    rep.note('unsafe_blocks', sorted('%s' % f.split('/')[-1] for f, l in blocks))
    rep.note('bodies', len(loc))
    for it in P.items:
        if it[0] in ('static mut', 'foreign'):
            rep.fail('item:%s' % it[1], 'the crate declares a %s item %s' % (it[0], it[1]))
    users = {}
    ncalls = 0
    for k in loc:
        b = P.bodies[k]
        ok = True
        for i, bl in enumerate(b['blocks']):
            if bl is None:
                continue
            for s in bl['s'] + [bl['t']]:
                if s[0] == '=' and deref_raw(P, b, s):
                    ok = False
                    rep.fail('raw:%s' % b['path'], '%s dereferences a raw pointer' % b['path'])
                if s[0] == '=' and isinstance(s[2], list) and s[2][:2] == ['cast', 'Transmute'] \
                        and not box_transmute(P, b, s):
                    ok = False
                    rep.fail('transmute:%s' % b['path'], '%s reinterprets a value as another type' % b['path'])
        for c in G.calls[k]:
            ncalls += 1
            if not c.ci.get('unsafe') and not c.ci.get('intr'):
                continue
            if c.path.startswith(('std::fmt::Arguments', 'core::fmt::')):
                continue        # generated by format_args!
            if c.path.rsplit('::', 1)[-1] in ALLOWED and not c.ci.get('local'):
                users.setdefault(k, []).append(c)
                continue
            ok = False
            rep.fail('unsafe:%s:%s' % (b['path'], c.path), '%s uses the unsafe operation %s' % (b['path'], c.path))
        if ok:
            rep.ok('safe operations only:%s' % b['path'])
    for k in sorted(users):
        why = prove_utf8(P, G, k, 0)
        rep.check(why is None, 'validated:%s' % P.bodies[k]['path'], '%s treats bytes as text that were not validated '
                  '(%s)' % (P.bodies[k]['path'], why))
    rep.note('unchecked_conversions', {P.bodies[k]['path']: len(v) for k, v in users.items()})
    rep.note('call_sites', ncalls)
    rep.say('%d functions, %d call sites, %d unsafe blocks, %d unchecked conversions' % (
        len(loc), ncalls, len(blocks), sum(map(len, users.values()))))
    rep.check(ncalls > 1000, 'coverage', 'too few call sites were found')


def ltype(b, l):
    t = b['locals'][l]
    return t if isinstance(t, int) else t.get('t') if isinstance(t, dict) else t[0]


def deref_raw(P, b, s):
    bad = []

    def place(p):
        t = ltype(b, p[0])
        for e in p[1:]:
            if e == '*':
                x = P.T[t]
                if x['k'] == 'ptr':
                    bad.append(p)
                if x['k'] in ('ref', 'ptr'):
                    t = x['to']
                else:
                    return
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'c'):
                x = P.T[t]
                if 'to' not in x:
                    return
                t = x['to']
            elif e[0] == 'v':
                pass
            else:
                return

    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], int) and len(x) > 1 and not isinstance(x[1], int):
                place(x)
                return
            for y in x:
                walk(y)
    # pointers obtained from a Box are fine: they come from a box transmute
    boxed = set()
    for bl in b['blocks']:
        if bl is None:
            continue
        for q in bl['s']:
            if q[0] == '=' and isinstance(q[2], list) and q[2][0] == 'cast' and 'Transmute' in str(q[2][1]) and box_transmute(P, b, q):
                boxed.add(q[1][0])
    walk(s[1])
    walk(s[2])
    return [p for p in bad if p[0] not in boxed]


def box_transmute(P, b, s):
    """Transmute that rustc generates to reach into a Box or to branch on a
    pointer-sized flag"""
    src = s[2][2]
    frm = s[2][4] if len(s[2]) > 4 else None
    to = s[2][3]
    names = ' '.join(P.T[t]['s'] for t in (frm, to) if isinstance(t, int))
    if s[2][1] != 'Transmute':
        return True
    return 'NonNull' in names or 'Unique' in names or isinstance(to, int) and P.T[to]['s'] == 'usize' and \
        isinstance(frm, int) and P.T[frm]['k'] == 'ptr' or alignment_check(P, frm, to)


def alignment_check(P, frm, to):
    """*const () as usize: the debug assertion rustc puts on pointer uses"""
    return isinstance(frm, int) and isinstance(to, int) and {P.T[frm]['k'], P.T[to]['k']} <= {'ptr', 'int'}


def prove_utf8(P, G, key, depth):
    import common
    import dom as D
    import val
    common.reset()
    e = eng.Eng(P)
    hits = []

    def validate(e, ctx, st, ci, args, dty, line):
        w = view(e, st, args[0])
        r = e.fresh(dty, 'utf8')
        errty = P.T[dty]['args'][1]
        ev = e.fresh(errty, 'utf8err')
        bad = st.copy()
        bad.ghost = dict(bad.ghost)
        bad.ghost[('err', ev[2])] = w
        import models
        okv = models.str_view(e, st, models.new_str(e))
        return [(('a', dty, 0, (okv,)), st), (('a', dty, 1, (ev,)), bad)]

    def valid_up_to(e, ctx, st, ci, args, dty, line):
        import models
        root, path, v = models.target(e, st, args[0])
        n = e.fresh_int(((0, D.STEPS),), 'valid')
        w = st.ghost.get(('err', v[2])) if v is not None and v[0] == 's' else None
        if w is not None:
            st.ghost = dict(st.ghost)
            st.ghost[('len', n[2][0][0])] = w
        return [(n, st)]

    def unchecked(e, ctx, st, ci, args, dty, line):
        import models
        w = view(e, st, args[0])
        why = 'the length of the argument is not derived from a validation of the same bytes'
        if w[3] is not None:
            for k, x in st.ghost.items():
                if k[0] == 'len' and x[:3] == w[:3]:
                    d = D.lsub(w[3], (0, ((k[1], 1),)))
                    if st.decide(val.cmp('le', d)) is True:
                        why = None
        hits.append(why)
        if why:
            raise eng.Give(why)
        return [(models.str_view(e, st, models.new_str(e)), st)]
    e.overrides = {r'^(std|core)::str::(converts::)?from_utf8$': validate,
                   r'valid_up_to$': valid_up_to,
                   r'from_utf8_unchecked$': unchecked}
    from state import State
    st = State()
    b = P.bodies[key]
    args = [e.fresh(ltype(b, i + 1), 'arg') for i in range(b['argc'])]
    try:
        e.call_key(key, args, st, 0, ())
    except eng.Give as g:
        if str(g).startswith('time:'):
            raise
        hits.append(str(g))
    why = 'never reached' if not hits else next((h for h in hits if h), None)
    if why is None:
        return None
    callers = [k for k in P.bodies if key in G.edges[k] and k != key and P.bodies[k]['local']]
    if depth < 3 and callers and not b['pub']:
        for c in callers:
            w = prove_utf8(P, G, c, depth + 1)
            if w is not None:
                return why
        return None
    return why
