"""Whole-program call graph over the dumped bodies."""


class Call:
    __slots__ = ('src', 'bb', 'ci', 'args', 'dest', 'line', 'key', 'path')

    def __init__(self, src, bb, t):
        self.src, self.bb = src, bb
        self.ci, self.args, self.dest = t[1], t[2], t[3]
        self.key = self.ci.get('key')
        self.path = self.ci.get('path') or self.ci.get('dfull') or '?'
        self.line = t[5]


def types_in(body):
    return {l if isinstance(l, int) else l[0] for l in body['locals']}


class Graph:
    def __init__(self, P):
        self.P = P
        self.calls = {}
        self.edges = {}
        self.ext = {}
        self.drops = {}
        for k, b in P.bodies.items():
            cs, out, ext = [], set(), set()
            dr = set()
            for i, bl in enumerate(b['blocks']):
                if bl is None:
                    continue
                t = bl['t']
                if t[0] in ('call', 'tailcall'):
                    if not isinstance(t[1], dict):
                        ext.add('<indirect>')
                        continue
                    c = Call(k, i, t)
                    cs.append(c)
                    if c.key is not None and c.key in P.bodies:
                        out.add(c.key)
                    else:
                        ext.add(c.path)
                elif t[0] == 'drop':
                    dr.add(i)
            for ty in self.mentioned(b):
                x = P.T[ty]
                if x['k'] == 'closure' and x.get('inst') in P.bodies:
                    out.add(x['inst'])
                elif x['k'] == 'fndef':
                    f = x.get('fn') or {}
                    if f.get('key') in P.bodies:
                        out.add(f['key'])
                    elif f.get('path'):
                        ext.add(f['path'])
            # a closure's own environment is not a call of itself
            own = b['path'] if '{closure' in b['path'] else None
            if own:
                out = {o for o in out if o != k or any(c.key == k for c in cs)}
            self.calls[k], self.edges[k], self.ext[k], self.drops[k] = cs, out - {None}, ext, dr

    def mentioned(self, b):
        seen, work = set(), []

        def push(x):
            if isinstance(x, int) and x not in seen:
                seen.add(x)
                work.append(x)
        for l in b['locals']:
            push(l if isinstance(l, int) else l.get('t') if isinstance(l, dict) else l[0])
        while work:
            t = self.P.T[work.pop()]
            if t['k'] in ('ref', 'ptr', 'slice', 'array'):
                push(t['to'])
            for a in t.get('args') or ():
                push(a)
            if t['k'] in ('tuple',):
                for a in t['f']:
                    push(a)
        # constants of function type
        st = [bl for bl in b['blocks'] if bl]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if 't' in x and isinstance(x['t'], int) and len(x) <= 4 and self.P.T[x['t']]['k'] in ('fndef', 'closure'):
                    seen.add(x['t'])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return seen

    def reach(self, roots, stop=()):
        seen = set()
        work = [r for r in roots]
        while work:
            k = work.pop()
            if k in seen or k in stop:
                continue
            seen.add(k)
            work.extend(self.edges.get(k, ()))
        return seen

    def path(self, roots, goal):
        """a shortest call path from a root to a function satisfying goal"""
        prev = {r: None for r in roots}
        work = list(roots)
        while work:
            nxt = []
            for k in work:
                if goal(k):
                    out = []
                    while k is not None:
                        out.append(self.P.bodies[k]['path'])
                        k = prev[k]
                    return out[::-1]
                for q in sorted(self.edges.get(k, ())):
                    if q not in prev:
                        prev[q] = k
                        nxt.append(q)
            work = nxt
        return None

    def sccs(self, nodes):
        index, low, on, stack, out = {}, {}, set(), [], []
        for r in sorted(nodes):
            if r in index:
                continue
            work = [(r, iter(sorted(self.edges.get(r, ()))))]
            index[r] = low[r] = len(index)
            stack.append(r)
            on.add(r)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in nodes:
                        continue
                    if w not in index:
                        index[w] = low[w] = len(index)
                        stack.append(w)
                        on.add(w)
                        work.append((w, iter(sorted(self.edges.get(w, ())))))
                        break
                    if w in on:
                        low[v] = min(low[v], index[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in self.edges.get(v, ()):
                            out.append(comp)
        return out
