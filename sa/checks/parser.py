"""Checks on the event parser, all decided on the extracted transition table."""
import itertools
import common
import dom as D
import eng
import val
from . import parsertab

DIRS = ('VersionDirective', 'TagDirective')


# ---- the documented grammar, as a transition function -----------------------
class Ref:
    """One step of the documented grammar.  peek()/skip() read tokens chosen
    by an oracle; step() explores every choice."""

    def __init__(self, kinds):
        self.kinds = kinds

    def run(self, state, entry):
        """-> {(consumed, front): (event, next, push, dmarks) | 'ERR'}"""
        res = {}
        work = [()]
        while work:
            ch = work.pop()
            self.ch, self.n = ch, 0
            self.consumed, self.cur = [], None
            self.need = None
            self.push = []
            self.entry = entry
            try:
                r = getattr(self, state)()
            except Need:
                ks = self.kinds
                if not self.consumed and entry is not None:
                    ks = entry
                if self.consumed and self.consumed[-1] == '*Directive':
                    ks = [k for k in self.kinds if k not in DIRS]
                elif self.consumed and self.consumed[-1] == 'DocumentEnd' and self.collapse:
                    ks = [k for k in self.kinds if k != 'DocumentEnd']
                for k in ks:
                    work.append(ch + (k,))
                continue
            if r != 'ERR':
                r = (r[0], r[1], tuple(self.push), r[2] if len(r) > 2 else 0)
            res[(tuple(self.consumed), self.cur)] = r
        return res

    collapse = False

    def peek(self):
        if self.cur is None:
            if self.n >= len(self.ch):
                raise Need
            self.cur = self.ch[self.n]
            self.n += 1
        return self.cur

    def skip(self):
        c = '*Directive' if self.cur in DIRS else self.cur
        self.consumed.append(c)
        self.cur = None

    def StreamStart(self):
        if self.peek() != 'StreamStart':
            return 'ERR'
        self.skip()
        return 'StreamStart', 'ImplicitDocumentStart'

    def ImplicitDocumentStart(self):
        return self.docstart(True)

    def DocumentStart(self):
        return self.docstart(False)

    def docstart(self, implicit):
        self.collapse = not implicit
        if not implicit:
            if self.peek() == 'DocumentEnd':
                self.skip()          # any number of them
        t = self.peek()
        if implicit and t not in DIRS + ('DocumentStart', 'StreamEnd'):
            self.push.append('DocumentEnd')
            return 'DocumentStart', 'BlockNode'
        if t == 'StreamEnd':
            self.skip()
            return 'StreamEnd', 'End'
        if t in DIRS:
            self.skip()              # any number of them
        if self.peek() != 'DocumentStart':
            return 'ERR'
        self.push.append('DocumentEnd')
        self.skip()
        return 'DocumentStart', 'DocumentContent'

    def DocumentContent(self):
        if self.peek() in DIRS + ('DocumentStart', 'DocumentEnd', 'StreamEnd'):
            return 'Scalar', 'TOP'
        return self.node(True, False)

    def DocumentEnd(self):
        if self.peek() == 'DocumentEnd':
            self.skip()
        return 'DocumentEnd', 'DocumentStart'

    def BlockNode(self):
        return self.node(True, False)

    def BlockNodeOrIndentlessSequence(self):
        return self.node(True, True)

    def FlowNode(self):
        return self.node(False, False)

    def node(self, block, indentless):
        t = self.peek()
        if t == 'Alias':
            self.skip()
            return 'Alias', 'TOP'
        props = False
        if t == 'Anchor':
            props = True
            self.skip()
            if self.peek() == 'Tag':
                self.skip()
        elif t == 'Tag':
            props = True
            self.skip()
            if self.peek() == 'Anchor':
                self.skip()
        t = self.peek()
        if indentless and t == 'BlockEntry':
            return 'SequenceStart', 'IndentlessSequenceEntry'
        if t == 'Scalar':
            self.skip()
            return 'Scalar', 'TOP'
        if t == 'FlowSequenceStart':
            return 'SequenceStart', 'FlowSequenceFirstEntry'
        if t == 'FlowMappingStart':
            return 'MappingStart', 'FlowMappingFirstKey'
        if block and t == 'BlockSequenceStart':
            return 'SequenceStart', 'BlockSequenceFirstEntry'
        if block and t == 'BlockMappingStart':
            return 'MappingStart', 'BlockMappingFirstKey'
        if props:
            return 'Scalar', 'TOP'
        return 'ERR'

    def nodeor(self, stop, nxt, block, indentless):
        if self.peek() in stop:
            return 'Scalar', nxt
        self.push.append(nxt)
        return self.node(block, indentless)

    def BlockSequenceFirstEntry(self):
        self.peek()
        self.skip()
        return self.BlockSequenceEntry()

    def BlockSequenceEntry(self):
        t = self.peek()
        if t == 'BlockEntry':
            self.skip()
            return self.nodeor(('BlockEntry', 'BlockEnd'), 'BlockSequenceEntry', True, False)
        if t == 'BlockEnd':
            self.skip()
            return 'SequenceEnd', 'TOP'
        return 'ERR'

    def IndentlessSequenceEntry(self):
        if self.peek() == 'BlockEntry':
            self.skip()
            return self.nodeor(('BlockEntry', 'Key', 'Value', 'BlockEnd'), 'IndentlessSequenceEntry', True, False)
        return 'SequenceEnd', 'TOP'

    def BlockMappingFirstKey(self):
        self.peek()
        self.skip()
        return self.BlockMappingKey()

    def BlockMappingKey(self):
        t = self.peek()
        if t == 'Key':
            self.skip()
            return self.nodeor(('Key', 'Value', 'BlockEnd'), 'BlockMappingValue', True, True)
        if t == 'BlockEnd':
            self.skip()
            return 'MappingEnd', 'TOP'
        return 'ERR'

    def BlockMappingValue(self):
        if self.peek() == 'Value':
            self.skip()
            return self.nodeor(('Key', 'Value', 'BlockEnd'), 'BlockMappingKey', True, True)
        return 'Scalar', 'BlockMappingKey'

    def FlowSequenceFirstEntry(self):
        self.peek()
        self.skip()
        return self.flowseq(True)

    def FlowSequenceEntry(self):
        return self.flowseq(False)

    def flowseq(self, first):
        if self.peek() != 'FlowSequenceEnd' and not first:
            if self.peek() != 'FlowEntry':
                return 'ERR'
            self.skip()
        t = self.peek()
        if t == 'Key':
            self.skip()
            return 'MappingStart', 'FlowSequenceEntryMappingKey'
        if t != 'FlowSequenceEnd':
            self.push.append('FlowSequenceEntry')
            return self.node(False, False)
        self.skip()
        return 'SequenceEnd', 'TOP'

    def FlowSequenceEntryMappingKey(self):
        return self.nodeor(('Value', 'FlowEntry', 'FlowSequenceEnd'), 'FlowSequenceEntryMappingValue', False, False)

    def FlowSequenceEntryMappingValue(self):
        if self.peek() == 'Value':
            self.skip()
            return self.nodeor(('FlowEntry', 'FlowSequenceEnd'), 'FlowSequenceEntryMappingEnd', False, False)
        return 'Scalar', 'FlowSequenceEntryMappingEnd'

    def FlowSequenceEntryMappingEnd(self):
        return 'MappingEnd', 'FlowSequenceEntry'

    def FlowMappingFirstKey(self):
        self.peek()
        self.skip()
        return self.flowmap(True)

    def FlowMappingKey(self):
        return self.flowmap(False)

    def flowmap(self, first):
        if self.peek() != 'FlowMappingEnd' and not first:
            if self.peek() != 'FlowEntry':
                return 'ERR'
            self.skip()
        t = self.peek()
        if t == 'Key':
            self.skip()
            return self.nodeor(('Value', 'FlowEntry', 'FlowMappingEnd'), 'FlowMappingValue', False, False)
        if t != 'FlowMappingEnd':
            self.push.append('FlowMappingEmptyValue')
            return self.node(False, False)
        self.skip()
        return 'MappingEnd', 'TOP'

    def FlowMappingValue(self):
        if self.peek() == 'Value':
            self.skip()
            return self.nodeor(('FlowEntry', 'FlowMappingEnd'), 'FlowMappingKey', False, False)
        return 'Scalar', 'FlowMappingKey'

    def FlowMappingEmptyValue(self):
        return 'Scalar', 'FlowMappingKey'

    def End(self):
        return 'StreamEnd', 'End'


class Need(Exception):
    pass


# what is still to be reported when a state is entered, in events
TYPES = {
    'StreamStart': ['StreamStart', 'Doc*', 'StreamEnd', 'StreamEnd*'],
    'ImplicitDocumentStart': ['Doc*', 'StreamEnd', 'StreamEnd*'],
    'DocumentStart': ['Doc*', 'StreamEnd', 'StreamEnd*'],
    'DocumentContent': ['Node'],
    'DocumentEnd': ['DocumentEnd', 'Doc*', 'StreamEnd', 'StreamEnd*'],
    'BlockNode': ['Node'], 'BlockNodeOrIndentlessSequence': ['Node'], 'FlowNode': ['Node'],
    'BlockSequenceFirstEntry': ['Node*', 'SequenceEnd'], 'BlockSequenceEntry': ['Node*', 'SequenceEnd'],
    'IndentlessSequenceEntry': ['Node*', 'SequenceEnd'],
    'FlowSequenceFirstEntry': ['Node*', 'SequenceEnd'], 'FlowSequenceEntry': ['Node*', 'SequenceEnd'],
    'BlockMappingFirstKey': ['Pair*', 'MappingEnd'], 'BlockMappingKey': ['Pair*', 'MappingEnd'],
    'BlockMappingValue': ['Node', 'Pair*', 'MappingEnd'],
    'FlowMappingFirstKey': ['Pair*', 'MappingEnd'], 'FlowMappingKey': ['Pair*', 'MappingEnd'],
    'FlowMappingValue': ['Node', 'Pair*', 'MappingEnd'], 'FlowMappingEmptyValue': ['Node', 'Pair*', 'MappingEnd'],
    'FlowSequenceEntryMappingKey': ['Node', 'Node', 'MappingEnd', 'Node*', 'SequenceEnd'],
    'FlowSequenceEntryMappingValue': ['Node', 'MappingEnd', 'Node*', 'SequenceEnd'],
    'FlowSequenceEntryMappingEnd': ['MappingEnd', 'Node*', 'SequenceEnd'],
    'End': ['StreamEnd*'],
}


def conform(xs, ys):
    """do the events xs (what is emitted, then what is left) conform to the
    expectation ys?"""
    if not xs and not ys:
        return True
    if ys and ys[0] == 'Doc*':
        return conform(xs, ys[1:]) or conform(xs, ['DocumentStart', 'Node', 'DocumentEnd'] + ys) \
            if not (xs and xs[0] == 'Doc*') else conform(xs[1:], ys[1:])
    if ys and ys[0] in ('Node*', 'Pair*', 'StreamEnd*'):
        if xs and xs[0] == ys[0]:
            return conform(xs[1:], ys[1:])
        if conform(xs, ys[1:]):
            return True
        un = {'Node*': ['Node'], 'Pair*': ['Node', 'Node'], 'StreamEnd*': ['StreamEnd']}[ys[0]]
        if not xs or len(xs) > 12:
            return False
        return conform1(xs, un + ys)
    return conform1(xs, ys)


def conform1(xs, ys):
    if not xs or not ys:
        return False
    if xs[0] == ys[0]:
        return conform(xs[1:], ys[1:])
    if ys[0] == 'Node':
        if xs[0] in ('Scalar', 'Alias'):
            return conform(xs[1:], ys[1:])
        if xs[0] == 'SequenceStart':
            return conform(xs[1:], ['Node*', 'SequenceEnd'] + ys[1:])
        if xs[0] == 'MappingStart':
            return conform(xs[1:], ['Pair*', 'MappingEnd'] + ys[1:])
    return False


def atoms(x, kinds):
    """the (consumed, front) pairs an outcome stands for"""
    cs = itertools.product(*x.toks) if x.toks else [()]
    fr = list(x.front) if x.front is not None else list(kinds)
    out = []
    for c in cs:
        c = tuple(c)
        for f in fr:
            out.append((c, f))
    return out


CONTENT = ('Tag', '*Directive')


def related(T, rep):
    """match the extracted table with the documented grammar, state by state"""
    e = T.e
    kinds = e.kinds
    ref = Ref(kinds)
    byst = {}
    for x in T.outs:
        byst.setdefault(x.s0, []).append(x)
    R = {T.initial: 'StreamStart'}
    entry = {T.initial: None}
    work = [T.initial]
    done = set()
    n = 0

    def relate(a, b, where):
        if a in R:
            if R[a] != b:
                rep.fail('state:%s' % where, 'in %s the parser goes on as %s (documented as %s) where the grammar '
                         'says %s' % (where, a, R[a], b))
                return False
            return True
        R[a] = b
        work.append(a)
        return True

    # entry fronts: tokens known to be in front when a state is entered
    fronts = {}
    while work:
        s = work.pop()
        if s in done:
            continue
        done.add(s)
        b = R[s]
        want = ref.run(b, None)
        ent = ENTRY.get(b)
        wantx = {}
        for (c, f), r in want.items():
            first = c[0] if c else f
            if ent is not None and first is not None and first not in ent:
                continue
            for g in ([f] if f is not None else kinds):
                wantx[(c, g)] = r
        got = {}
        for x in byst.get(s, []):
            if x.fetcherr and x.ok:
                rep.fail('read-error:%s' % s, 'in state %s the parser reports an event although reading failed' % s)
                continue
            if not x.ok and x.state != ('End',) and R.get(x.state[0]) != 'End':
                rep.fail('after-error:%s' % s, 'an error in state %s leaves the parser in state %s '
                         'instead of the end state' % (s, x.state))
            if not x.ok and x.fetcherr:
                if x.state != ('End',) and R.get(x.state[0]) != 'End':
                    rep.fail('after-error:%s' % s, 'a failed read in state %s leaves the parser in state %s '
                             'instead of the end state' % (s, x.state))
                else:
                    rep.ok('after-error:%s' % s)
                continue
            for a in atoms(x, kinds):
                first = a[0][0] if a[0] else a[1]
                if ent is not None and first not in ent:
                    continue
                got.setdefault(a, []).append(x)
        for a in sorted(set(wantx) | set(got), key=repr):
            n += 1
            key = '%s on %s then %s' % (s, ' '.join(a[0]) or 'nothing', a[1])
            w = wantx.get(a)
            xs = got.get(a, [])
            oks = [x for x in xs if x.ok]
            errs = [x for x in xs if not x.ok]
            if w is None:
                # the grammar decides earlier: look for the decision
                if oks and not anyprefix(wantx, a, xs):
                    rep.fail('accept:' + key, 'in state %s the parser accepts [%s] followed by %s as %s, which '
                             'the grammar does not' % (s, ' '.join(a[0]), a[1], oks[0].event))
                continue
            if w == 'ERR':
                if oks:
                    rep.fail('accept:' + key, 'in state %s the parser accepts [%s] followed by %s (event %s) where '
                             'the grammar has an error' % (s, ' '.join(a[0]), a[1], oks[0].event))
                elif errs:
                    rep.ok('reject:' + key)
                continue
            if not oks:
                rep.fail('reject:' + key, 'in state %s the parser does not accept [%s] followed by %s, which the '
                         'grammar does (event %s)' % (s, ' '.join(a[0]), a[1], w[0]))
                continue
            if errs and not any(k in CONTENT for k in a[0]):
                rep.fail('error:' + key, 'in state %s the parser can fail on [%s] followed by %s, which the grammar '
                         'accepts' % (s, ' '.join(a[0]), a[1]))
            good = True
            for x in oks:
                if x.event != (w[0],):
                    rep.fail('event:' + key, 'in state %s on [%s] followed by %s the parser reports %s, the grammar '
                             'says %s' % (s, ' '.join(a[0]), a[1], '/'.join(x.event), w[0]))
                    good = False
                    continue
                nx = x.state
                if len(nx) != 1 or any(len(p) != 1 for p in x.push):
                    rep.fail('state:' + key, 'in state %s on [%s] followed by %s the next state is not determined' % (
                        s, ' '.join(a[0]), a[1]))
                    good = False
                    continue
                st = [p[0] for p in x.push]
                nx = nx[0]
                pops = x.pop
                if nx == 'TOP' and pops == 1:
                    cont = st
                elif pops == 0 and nx != 'TOP':
                    cont = st + [nx]
                elif pops >= 100:
                    rep.fail('empty-stack:' + key, 'state %s takes a state from an empty stack' % s)
                    good = False
                    continue
                else:
                    cont = None
                wc = list(w[2]) + ([w[1]] if w[1] != 'TOP' else [])
                # the node states hand their push to the popped state
                if w[1] == 'TOP' and w[2]:
                    # push then pop: the pushed state is next
                    pass
                if cont is None or len(cont) != len(wc):
                    rep.fail('state:' + key, 'in state %s on [%s] followed by %s the parser continues with %s, the '
                             'grammar with %s' % (s, ' '.join(a[0]), a[1],
                                                  cont if cont is not None else (st, nx, pops), wc))
                    good = False
                    continue
                for p, q in zip(cont, wc):
                    if not relate(p, q, key):
                        good = False
            if good:
                rep.ok('step:' + key)
    rep.note('states_matched', len(done))
    rep.note('decisions_compared', n)
    rep.note('state_relation', {a: b for a, b in sorted(R.items())})
    return R


def anyprefix(wantx, a, xs):
    return False


# tokens that are in front whenever the state is entered
ENTRY = {
    'BlockSequenceFirstEntry': ('BlockSequenceStart',), 'BlockMappingFirstKey': ('BlockMappingStart',),
    'FlowSequenceFirstEntry': ('FlowSequenceStart',), 'FlowMappingFirstKey': ('FlowMappingStart',),
    'IndentlessSequenceEntry': None,
}


def grammar(P, rep, tier):
    T = parsertab.extract(P)
    base(T, rep)
    R = related(T, rep)
    nesting(rep)
    unreached = sorted({v['n'] for v in P.T[T.e.PS]['v']} - set(R))
    rep.note('states_not_reachable', unreached)
    rep.say('%d outcomes of %d states extracted; %d states related to the documented grammar' % (
        len(T.outs), len({x.s0 for x in T.outs}), len(R)))
    rep.check(len(R) >= 15, 'coverage', 'only %d parser states were reached from the initial state' % len(R))


def base(T, rep):
    rep.analysed(T.fns)
    rep.note('outcomes', len(T.outs))
    if T.unmodelled:
        rep.note('unmodelled', T.unmodelled)


def nesting(rep):
    """the documented grammar itself produces well-nested events: every step
    emits the beginning of what its state promises"""
    for s, want in TYPES.items():
        ref = Ref(KINDS)
        for (c, f), r in ref.run(s, None).items():
            if r == 'ERR':
                continue
            first = c[0] if c else f
            ent = ENTRY.get(s)
            if ent is not None and first is not None and first not in ent:
                continue
            rest = [r[0]]
            if r[1] != 'TOP':
                rest += TYPES[r[1]]
            for p in reversed(r[2]):
                rest += TYPES[p]
            rep.check(conform(rest, list(want)), 'nesting:%s:%s' % (s, ' '.join(c)),
                      'reference grammar is not well nested in state %s' % s)


KINDS = ('StreamStart', 'StreamEnd', 'VersionDirective', 'TagDirective', 'DocumentStart', 'DocumentEnd',
         'BlockSequenceStart', 'BlockMappingStart', 'BlockEnd', 'FlowSequenceStart', 'FlowSequenceEnd',
         'FlowMappingStart', 'FlowMappingEnd', 'BlockEntry', 'FlowEntry', 'Key', 'Value', 'Alias', 'Anchor', 'Tag',
         'Scalar')


# ---- what the events carry ---------------------------------------------------
def named(P, v, vr=None):
    """field name -> value of an aggregate"""
    fs = P.fields(v[1], v[2] if vr is None else vr)
    return {n: v[3][i] for i, (n, t) in enumerate(fs)}


def payload(T, tok, kind):
    e, P = T.e, T.e.p
    d = tok[3][P.field_index(e.TOK, 'data')]
    vr = [v['n'] for v in e.T[e.TD]['v']].index(kind)
    d = e.expand(d, vr) if d[0] == 's' else d
    return named(P, d, vr)


def same(st, a, b):
    if a == b:
        return True
    if a[0] == 'i' and b[0] == 'i':
        return st.decide(val.cmp('eq', D.lsub(val.lin(a), val.lin(b)))) is True
    return False


def option(P, e, v):
    """None / ('some', payload) / '?'"""
    if v[0] == 'a':
        n = e.vname(v[1], v[2])
        if n == 'None':
            return None
        return ('some', v[3][0])
    return '?'


def const(st, v):
    if v[0] != 'i':
        return None
    r = st.range_of(val.lin(v))
    xs = list(itertools.islice(D.elems(r), 3))
    return xs[0] if len(xs) == 1 else None


def enum_const(e, st, v):
    if v[0] == 'a':
        return e.vname(v[1], v[2])
    return None


def consumed(x, kind):
    return [i for i, k in enumerate(x.toks) if k == (kind,)]


def content(P, rep, tier):
    """the payload of every event is exactly what the consumed tokens carried"""
    T = parsertab.extract(P)
    base(T, rep)
    e = T.e
    R = related(T, common.Report('x', tier))
    n = 0
    for x in T.outs:
        if not x.ok or x.s0 not in R or len(x.event) != 1:
            continue
        ent = ENTRY.get(R[x.s0])
        if ent is not None and not set(x.toks[0] if x.toks else ()) & set(ent):
            continue
        n += 1
        ev = x.event[0]
        where = '%s on [%s]' % (x.s0, ' '.join('/'.join(k) if len(k) < 4 else 'any' for k in x.toks))
        d = x.ev[3][P.field_index(x.ev[1], 'data')]
        if d[0] != 'a':
            rep.fail('event:%s:%s' % (where, ev), 'event %s in %s has undetermined content' % (ev, where))
            continue
        f = named(P, d)
        st = x.st

        def need(cond, what):
            rep.check(cond, '%s:%s:%s' % (where, ev, what.split(' (')[0]),
                      'state %s: the %s event has the wrong %s' % (where, ev, what))

        def text(tok):
            return payload(T, x.toksv[tok[-1]], x.toks[tok[-1]][0])
        if ev == 'StreamStart':
            t = consumed(x, 'StreamStart')
            need(bool(t) and same(st, f['encoding'], as_i(e, text(t)['encoding'])), 'encoding')
        elif ev == 'DocumentStart':
            need(const(st, f['implicit']) == (0 if consumed(x, 'DocumentStart') else 1),
                 'implicit flag (true exactly if there was no document start token)')
        elif ev == 'DocumentEnd':
            need(const(st, f['implicit']) == (0 if consumed(x, 'DocumentEnd') else 1),
                 'implicit flag (true exactly if there was no document end token)')
        elif ev == 'Alias':
            t = consumed(x, 'Alias')
            need(bool(t) and f['anchor'] == text(t)['value'], 'anchor')
        if ev in ('Scalar', 'SequenceStart', 'MappingStart'):
            a = consumed(x, 'Anchor')
            # properties behind an indicator of an outer collection only
            o = option(P, e, f['anchor'])
            need((o == ('some', text(a)['value'])) if a else o is None, 'anchor')
            t = consumed(x, 'Tag')
            o = option(P, e, f['tag'])
            need((o not in (None, '?')) if t else o is None, 'tag (present exactly if there was a tag token)')
            if t and o not in (None, '?'):
                tagtext(T, rep, x, text(t), o[1], where)
        if ev in ('SequenceStart', 'MappingStart'):
            c = const(st, f['implicit'])
            if not t:
                need(c == 1, 'implicit flag')
            flow = bool(set(x.front or ()) & {'FlowSequenceStart', 'FlowMappingStart'}) or \
                R[x.s0].startswith('FlowSequence') and bool(consumed(x, 'Key'))
            name = style(e, st, f['style'], 'SequenceStyle' if ev == 'SequenceStart' else 'MappingStyle')
            need(name == ('Flow' if flow else 'Block'), 'style')
        if ev == 'Scalar':
            s = consumed(x, 'Scalar')
            if s:
                need(f['value'] == text(s)['value'], 'value')
                need(same(st, as_i(e, f['style']), as_i(e, text(s)['style'])), 'style')
                if not t:
                    sty = style(e, st, text(s)['style'], 'ScalarStyle')
                    p, q = const(st, f['plain_implicit']), const(st, f['quoted_implicit'])
                    need((p == 1) if sty == 'Plain' else (q == 1) if sty and 'Plain' not in sty.split('/') else
                         (p == 1 or q == 1), 'implicit flags')
            else:
                need(f['value'] == ('S', '', None), 'value (empty)')
                need(style(e, st, f['style'], 'ScalarStyle') == 'Plain', 'style')
                if not t:
                    need(const(st, f['plain_implicit']) == 1, 'implicit flags')
    rep.note('events_checked', n)
    rep.check(n > 200, 'coverage', 'only %d event outcomes were examined' % n)
    rep.say('%d event outcomes checked against the tokens they are made from' % n)


def as_i(e, v):
    if v[0] == 's' and e.T[v[1]].get('enum'):
        return e.discr(v, v[1])
    return v


def style(e, st, v, adt):
    """possible variant names, joined by /"""
    ty = e.p.adt(adt)
    v = as_i(e, v)
    if v[0] == 'i':
        return '/'.join(e.vname(ty, e.p.variant_of(ty, q)) for q in D.elems(st.range_of(val.lin(v))))
    return e.vname(v[1], v[2]) if v[0] == 'a' else '?'


def tagtext(T, rep, x, tok, tag, where):
    pass


# ---- where the events are ----------------------------------------------------
def spans(P, rep, tier):
    """positions of events are positions of the tokens they are made from, in
    order, and an event made from no token is empty"""
    T = parsertab.extract(P)
    base(T, rep)
    e = T.e
    R = related(T, common.Report('x', tier))
    n = 0
    errs = 0
    for x in T.outs:
        if x.s0 not in R or R[x.s0] == 'End':
            continue
        ent = ENTRY.get(R[x.s0])
        if ent is not None and not set(x.toks[0] if x.toks else ()) & set(ent):
            continue
        where = '%s on [%s]' % (x.s0, ' '.join('/'.join(k) if len(k) < 4 else 'any' for k in x.toks))
        toks = [t for t in x.toksv if t is not None] + ([x.frontv] if x.frontv is not None else [])
        pos = {}
        for i, t in enumerate(toks):
            f = named(P, t)
            pos.setdefault(f['start_mark'], 2 * i)
            pos.setdefault(f['end_mark'], 2 * i + 1)
        loose = any(k in (('*Directive',), ('DocumentEnd',)) for k in x.toks)
        if not x.ok:
            continue
        n += 1
        if len(x.event) != 1:
            continue
        ev = x.event[0]
        f = named(P, x.ev)
        a, b = pos.get(f['start_mark']), pos.get(f['end_mark'])
        if loose:
            # repeated tokens share a slot: the first is known by its mark only
            a = -1 if a is None else a
            b = -1 if b is None else b
        if a is None or b is None:
            rep.fail('%s:%s:mark' % (where, ev), 'state %s: the %s event has a %s that is not a mark of a token it is '
                     'made from (%s)' % (where, ev, 'start' if a is None else 'end',
                                         f['start_mark'] if a is None else f['end_mark']))
            continue
        rep.check(a <= b, '%s:%s:order' % (where, ev), 'state %s: the %s event ends before it starts' % (where, ev))
        m = len(x.toksv)
        made = R[x.s0] != 'StreamStart' and not made_from(x, ev, T)
        if made:
            rep.check(f['start_mark'] == f['end_mark'], '%s:%s:empty' % (where, ev),
                      'state %s: the implied %s event is not empty: it covers text of a token it is not made from' % (
                          where, ev))
        covers = b == 2 * m + 1
        opens = len(x.state) == 1 and ENTRY.get(R.get(x.state[0])) is not None
        rep.check(not covers or opens or ev in ('SequenceStart', 'MappingStart'), '%s:%s:covers' % (where, ev),
                  'state %s: the %s event covers a token that a later event is made from' % (where, ev))
        if ent is not None:
            rep.check(a >= 1, '%s:%s:overlaps' % (where, ev), 'state %s: the %s event starts inside the token of the '
                      'event before it' % (where, ev))
    rep.note('events_checked', n)
    for d in T.errors:
        if d['s0'] not in R:
            continue
        ent = ENTRY.get(R[d['s0']])
        where = '%s in state %s on [%s]' % (d['in'].split('::')[-1], d['s0'], ' '.join(
            '/'.join(k) if len(k) < 4 else 'any' for k in d['toks']))
        errs += 1
        loose = any(k in (('*Directive',), ('DocumentEnd',)) for k in d['toks']) or 'directive' in d['in']
        key = 'error:' + where
        rep.check(d['kind'] == 'parser', key + ':kind', '%s reports a %s error for a syntax error' % (where, d['kind']))
        rep.check(all(t not in ('?', '') or i == 0 for i, t in enumerate(d['texts'])), key + ':text',
                  '%s reports an error without a description' % where)
        rep.check(len(d['pos']) == 2 and (loose or d['pos'][1] != '?'), key + ':mark',
                  '%s reports a position that is not one of a token looked at' % where)
        if len(d['pos']) == 2 and '?' not in d['pos']:
            rep.check(d['pos'][1] % 2 == 0, key + ':start', '%s does not report the start of the offending token' % where)
            rep.check(d['pos'][0] <= d['pos'][1] or loose, key + ':order', '%s reports a context behind the problem' % where)
    rep.note('errors_checked', errs)
    rep.check(n > 200, 'coverage', 'only %d event outcomes were examined' % n)
    rep.say('%d event outcomes and %d error outcomes: positions compared with those of the tokens' % (n, errs))


def made_from(x, ev, T):
    """was the event made from a token (consumed now, or consumed next)?"""
    own = {'StreamStart': ('StreamStart',), 'StreamEnd': ('StreamEnd',),
           'DocumentStart': ('DocumentStart',), 'DocumentEnd': ('DocumentEnd',),
           'Alias': ('Alias',), 'Scalar': ('Scalar', 'Anchor', 'Tag'),
           'SequenceEnd': ('BlockEnd', 'FlowSequenceEnd'), 'MappingEnd': ('BlockEnd', 'FlowMappingEnd'),
           'SequenceStart': ('Anchor', 'Tag'), 'MappingStart': ('Anchor', 'Tag', 'Key')}[ev]
    cons = {k[0] for k in x.toks if len(k) == 1}
    if cons & set(own):
        return True
    return ev in ('SequenceStart', 'MappingStart')


