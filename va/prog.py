"""The analysed program: MIR facts of /repo's crate (and of the reference bodies
of std's higher-order functions), indexed."""
import json

UNIT = ('tup', ())
TRUE = ('b', True)
FALSE = ('b', False)


class Fn:
    __slots__ = ('d', 'key', 'crate', 'tys', 'blocks', 'nargs', 'locals', 'name', 'loops', 'preds',
                 'loop_of', 'file', 'line', 'kind', 'gens', 'assigned', 'prom', 'vnames', 'live')

    def __init__(self, d, crate, tys, key=None):
        self.d = d
        self.key = key or d['key']
        self.crate = crate
        self.tys = tys
        self.blocks = d['blocks']
        self.nargs = d['nargs']
        self.locals = d['locals']
        self.name = d.get('name', '')
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.kind = d.get('kind', 'promoted')
        self.gens = d.get('gens', [])
        self.loops = None
        self.vnames = None
        self.live = None
        self.prom = {}

    def named(self, l):
        v = self.vnames
        if v is None:
            v = self.vnames = {p['l'] for _, p in self.d.get('vars', []) if not p['p']}
        return l in v

    def where(self, ln=None):
        return '%s:%s' % (self.file, ln if ln else self.line)


def succs_of(t):
    k = t['k']
    if k in ('goto', 'drop', 'assert'):
        return [t['t']]
    if k == 'call':
        return [t['t']] if t['t'] is not None else []
    if k == 'switch':
        return [x[1] for x in t['ts']] + [t['o']]
    return []


def compute_loops(fn):
    """Natural loops (header -> body), over the non-cleanup CFG."""
    n = len(fn.blocks)
    succ = [succs_of(b['t']) for b in fn.blocks]
    order, seen = [], set()
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for s in succ[b]:
            preds[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    loops = {}
    for b in order:
        for s in succ[b]:
            x = b
            while True:
                if x == s:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y not in body:
                            body.add(y)
                            st.extend(preds[y])
                    break
                if x == 0:
                    break
                x = idom[x]
    fn.loops = loops
    fn.preds = preds
    # locals assigned somewhere in each loop
    fn.assigned = {}
    for h, body in loops.items():
        a = set()
        for b in body:
            for s in fn.blocks[b]['s']:
                if s['k'] == '=' and not s['p']['p']:
                    a.add(s['p']['l'])
            t = fn.blocks[b]['t']
            if t['k'] == 'call' and not t['d']['p']:
                a.add(t['d']['l'])
        fn.assigned[h] = a


def _uses_place(p, use, whole_def=False):
    if not (whole_def and not p['p']):
        use.add(p['l'])
    for e in p['p']:
        if isinstance(e, dict) and 'x' in e:
            use.add(e['x'])


def _walk_places(x, use, addr):
    if isinstance(x, dict):
        if x.get('k') in ('ref', 'rawptr', 'addr') and 'p' in x and isinstance(x['p'], dict):
            if '*' not in x['p']['p']:
                addr.add(x['p']['l'])
        if 'l' in x and 'p' in x and isinstance(x['p'], list):
            _uses_place(x, use)
            return
        for v in x.values():
            _walk_places(v, use, addr)
    elif isinstance(x, list):
        for v in x:
            _walk_places(v, use, addr)


def compute_live(fn):
    """locals that are live on entry to each block; locals whose address is taken stay live"""
    n = len(fn.blocks)
    gen, kill = [], []
    addr = set()
    for b in fn.blocks:
        g, k = set(), set()

        def use(x):
            u = set()
            _walk_places(x, u, addr)
            for l in u:
                if l not in k:
                    g.add(l)
        for s in b['s']:
            if s['k'] == '=':
                use(s['r'])
                if s['p']['p']:
                    use(s['p'])
                else:
                    k.add(s['p']['l'])
            elif s['k'] == 'setd':
                use(s['p'])
        t = b['t']
        if t['k'] == 'call':
            use(t['a'])
            use(t['f'])
            if t['d']['p']:
                use(t['d'])
            else:
                k.add(t['d']['l'])
        elif t['k'] == 'switch':
            use(t['x'])
        elif t['k'] == 'drop':
            use(t['p'])
        elif t['k'] == 'return':
            if 0 not in k:
                g.add(0)
        elif t['k'] == 'assert':
            use({a: v for a, v in t.items() if a not in ('t',)})
        gen.append(g)
        kill.append(k)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            for x in succs_of(fn.blocks[i]['t']):
                out |= live[x]
            new = gen[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                ch = True
    fn.live = [frozenset(x | addr) for x in live]


class Prog:
    def __init__(self, files):
        self.fns = {}
        self.adts = {}
        self.impls = []          # (trait, self type struct, crate, items, derived)
        self.by_trait = {}       # (trait, method) -> [Fn]
        self.raw = {}
        self.cg = {}
        self._rec = None
        self._diag = None
        for f in files:
            d = f if isinstance(f, dict) else json.load(open(f))
            self.raw[d['crate']] = d
            self._canon_dedup(d)
            tys = d['tys']
            for x in d['fns']:
                fn = Fn(x, d['crate'], tys)
                self.fns[fn.key] = fn
                for i, p in enumerate(x.get('promoted', [])):
                    pf = Fn(dict(p, name='promoted'), d['crate'], tys, key='%s::promoted%d' % (fn.key, i))
                    fn.prom[i] = pf
                if x.get('impl_trait') and x['kind'] == 'fn':
                    self.by_trait.setdefault((x['impl_trait'], x['name']), []).append(fn)
            for k, v in d['adts'].items():
                if k not in self.adts or v.get('local'):
                    self.adts[k] = dict(v, crate=d['crate'])
            for im in d['impls']:
                self.impls.append(dict(im, crate=d['crate']))
        self.model_adts = {k for k, v in self.adts.items() if v['crate'] == 'models' and v.get('local')}
        self.items = {}
        for fn in self.fns.values():
            if fn.kind == 'const':
                self.items[fn.d['path']] = fn

    def callees(self, fn):
        """keys of the local functions and closures that fn mentions (resolved statically)"""
        c = self.cg.get(fn.key)
        if c is None:
            c = set()

            def walk(x):
                if isinstance(x, dict):
                    f = x.get('fn')
                    if isinstance(f, dict):
                        k = f.get('key')
                        if k in self.fns and (f.get('rk') == 'item' or 'tr' not in f):
                            c.add(k)
                    if 'closure' in x and isinstance(x['closure'], str) and x['closure'] in self.fns:
                        c.add(x['closure'])
                    for v in x.values():
                        walk(v)
                elif isinstance(x, list):
                    for v in x:
                        walk(v)
            walk(fn.blocks)
            for p in fn.prom.values():
                walk(p.blocks)
            self.cg[fn.key] = c
        return c

    def recursive(self):
        """a set of functions that cuts every cycle of the static call graph (closures belong to their parents);
        for each cycle the function that the rest of the program calls is preferred"""
        if self._rec is not None:
            return self._rec
        g = {}
        for k, f in self.fns.items():
            if f.kind == 'const':
                continue
            g[k] = set(self.callees(f))
        def sccs(nodes):
            index, low, on, st, out, n = {}, {}, set(), [], [], [0]
            for root in nodes:
                if root in index:
                    continue
                work = [(root, iter(sorted(g.get(root, ())))) ]
                index[root] = low[root] = n[0]; n[0] += 1
                st.append(root); on.add(root)
                while work:
                    v, it = work[-1]
                    for w in it:
                        if w not in nodes:
                            continue
                        if w not in index:
                            index[w] = low[w] = n[0]; n[0] += 1
                            st.append(w); on.add(w)
                            work.append((w, iter(sorted(g.get(w, ())))))
                            break
                        elif w in on:
                            low[v] = min(low[v], index[w])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[v])
                        if low[v] == index[v]:
                            c = set()
                            while True:
                                w = st.pop(); on.discard(w); c.add(w)
                                if w == v:
                                    break
                            if len(c) > 1 or v in g.get(v, ()):
                                out.append(c)
            return out
        rec = set()
        work = sccs(set(g))
        while work:
            c = work.pop()
            ext = {w for k in g if k not in c for w in g[k] if w in c}
            cands = [k for k in c if self.fns[k].kind != 'closure'] or list(c)
            self_loop = [k for k in cands if k in g[k]]
            if self_loop:
                cut = self_loop
            else:
                def score(k):
                    left = sum(len(x) for x in sccs(c - {k}))
                    return (left, k not in ext, -sum(k in g[x] for x in c), k)
                cut = [min(cands, key=score)]
            rec |= set(cut)
            work += sccs(c - set(cut))
        self._rec = rec
        return rec

    def static_closure(self, key):
        seen, todo = {key}, [key]
        while todo:
            for y in self.callees(self.fns[todo.pop()]):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen

    def field_writes(self, fn):
        """fields of local types that fn assigns or borrows mutably (flow-insensitive), with their types;
        and whether it calls a method of a local trait through a vtable with a mutable receiver"""
        out, dynmut = set(), False

        def lastf(p):
            for e in reversed(p['p']):
                if isinstance(e, dict) and 'f' in e:
                    o = e['o']
                    if o in self.adts and self.adts[o].get('local'):
                        return '%s.%s' % (o, e['f'])
                    return None
            return None
        for b in fn.blocks:
            for st in b['s']:
                if st['k'] != '=':
                    continue
                f = lastf(st['p'])
                if f:
                    out.add(f)
                r = st['r']
                if r['k'] == 'ref' and r.get('m'):
                    f = lastf(r['p'])
                    if f:
                        out.add(f)
            t = b['t']
            if t['k'] == 'call':
                f = lastf(t['d'])
                if f:
                    out.add(f)
                c = t['f'].get('c')
                if c and 'fn' in c and c['fn'].get('tr') and c['fn'].get('rk') != 'item' and t['at'] and \
                        fn.tys[t['at'][0]]['k'] == 'refmut' and (c['fn']['tr'], c['fn']['tm']) in self.by_trait \
                        and not c['fn']['tr'].startswith('std::'):
                    dynmut = True
        return out, dynmut

    def diagnostics(self):
        """functions of the graph that cannot change anything but plain counters and return nothing:
        their calls have no effect on the properties"""
        if self._diag is None:
            self._diag = set()
            for fn in self.fns.values():
                if fn.kind != 'fn' or fn.crate == 'models' or not fn.nargs:
                    continue
                rt = fn.tys[fn.locals[0]]
                if rt['k'] != 'tuple' or rt['a']:
                    continue
                ts = [fn.tys[fn.locals[i + 1]] for i in range(fn.nargs)]
                if not all(t['k'] in ('ref', 'refmut') and fn.tys[t['a'][0]]['k'] == 'adt' and
                           fn.tys[t['a'][0]]['d'] == 'engine::DCG' for t in ts[:1]) or fn.nargs != 1:
                    continue
                ok = True
                for k in self.static_closure(fn.key):
                    g = self.fns[k]
                    w, d = self.field_writes(g)
                    if d:
                        ok = False
                    for f in w:
                        if not self.prim_field(f):
                            ok = False
                if ok:
                    self._diag.add(fn.key)
        return self._diag

    def prim_field(self, f):
        adt, _, n = f.rpartition('.')
        a = self.adts[adt]
        if not adt.endswith('::DCG'):
            return False
        for v in a['variants']:
            for x, ti in v['fields']:
                if x == n:
                    return self.raw[a['crate']]['tys'][ti]['k'] == 'prim'
        return False

    def _canon_dedup(self, d):
        pass

    def loops(self, fn):
        if fn.loops is None:
            compute_loops(fn)
        return fn.loops

    def live(self, fn):
        if fn.live is None:
            compute_live(fn)
        return fn.live

    def tyname(self, fn, i):
        return fn.tys[i]['s']

    def find(self, trait=None, self_has=None, name=None, path=None):
        out = []
        for fn in self.fns.values():
            if fn.crate != 'adapton' and trait is None and path is None:
                pass
            if name is not None and fn.name != name:
                continue
            if path is not None and fn.d.get('path') != path:
                continue
            if trait is not None and fn.d.get('impl_trait') != trait:
                continue
            if self_has is not None:
                s = fn.d.get('impl_self')
                if s is None or self_has not in fn.tys[s]['s']:
                    continue
            out.append(fn)
        return out
