"""Names in the collection library: which names each operation allocates at, what its memo thunks compare."""
from rules_lib import *
from absint import St, Frame
from paths import Path

MAXNODES = 4000


class Alloc:
    """the allocations of one execution case of an operation, with those of the calls, callbacks and thunk bodies below it"""

    def __init__(self, ctx, u):
        self.ctx, self.u, self.n = ctx, u, 0
        # how deep calls are unrolled, and how often one function is on a chain of calls
        self.deep, self.again, self.most = (9, 3, 10 * MAXNODES) if ctx.tier == 'thorough' else (6, 2, MAXNODES)

    def nodes(self, p, scope, chain, known=None):
        d = Den(self.u, p.st.facts, 4, known)
        if d.infeasible:
            return None
        return self.events(d, p.st.events, scope, chain, ())

    def events(self, d, evs, scope, chain, loop):
        out, sc = [], scope
        for e in evs:
            k = e[0]
            if k == 'scope':
                sc = sc + ((e[1],) + tuple(d.N(x) for x in e[2]),)
            elif k == 'scope-end':
                sc = sc[:-1]
            elif k == 'iter':
                out.append(('sub', self.events(d, e[3], sc, chain, loop + (e[1],)) and [self.events(d, e[3], sc, chain, loop + (e[1],))]))
            elif k == 'call':
                n, key, a = e[1], e[2], e[3]
                if n == 'cell':
                    out.append(('own', (sc, d.N(a[0]), n, tuple(d.N(x) for x in a[1:]), loop)))
                elif n == 'thunk':
                    nc = d.N(a[0])
                    if nc[0] == 'agg' and nc[2] == 'Nominal':
                        nm = nc[3][0][1]
                        out.append(('own', (sc, nm, n, tuple(d.N(x) for x in a[1:2] + a[3:]), loop)))
                    if a[2][0] == 'clo' and len(chain) < self.deep:
                        s = self.run(lambda: self.apply(d, a[2], a[3:5]), d, sc, chain + (a[2][1],))
                        if s:
                            out.append(('sub', s))
                elif key in self.ctx.P.fns and n[:2] in ('F:', 'M:') and chain.count(key) < self.again and len(chain) < self.deep:
                    s = self.run(lambda: self.inline(d, key, a), d, sc, chain + (key,))
                    if s:
                        out.append(('sub', s))
        return out

    def run(self, get, d, scope, chain):
        self.n += 1
        if self.n > self.most:
            return None
        self.u.I.nstates = 0
        try:
            ps = get()
        except (Budget, RecursionError):
            return None
        alts = [self.nodes(p, scope, chain, d.raw) for p in ps]
        return [a for a in alts if a]

    def apply(self, d, clo, args):
        return self.u.closure(clo, args, d.raw)

    def inline(self, d, key, args):
        st = St()
        st.facts.update(d.raw)
        I = self.u.I
        fn = self.ctx.P.fns[key]
        full = []
        for i, a in enumerate(args):
            t = fn.tys[fn.locals[i + 1]] if i < fn.nargs else None
            if t is not None and t['k'] in ('ref', 'refmut') and a[0] != 'ref':
                a = ('ref', (('O', a), ()))
            full.append(a)
        lid = I.lab(None, 'unroll', (key, tuple(args)))
        return [Path(k, v, s) for k, v, s in I.run(fn, full, st, lid, {}, ())]


def flat(nodes):
    """all allocations below, of any case"""
    for k, x in nodes:
        if k == 'own':
            yield x
        else:
            for alt in x:
                yield from flat(alt)


def clashes(nodes):
    """pairs of allocations at one name that can happen in one execution"""
    groups = [[x] if k == 'own' else [y for alt in x for y in flat(alt)] for k, x in nodes]
    seen = {}
    for i, g in enumerate(groups):
        for a in g:
            for j, b in seen.get(a[:2], ()):
                if j != i and a[2:4] != b[2:4]:
                    yield b, a
        for a in g:
            seen.setdefault(a[:2], []).append((i, a))
    for k, x in nodes:
        if k == 'sub':
            for alt in x:
                yield from clashes(alt)


def name_known(t):
    """is the name built from components of the input and constants only (so that equal terms are equal names)?"""
    if type(t) is not tuple or not t:
        return True
    if t[0] in ('any', 'mem', 'proj', 'clo', 'opaque', 'undef', 'some', 'hashof', 'fn'):
        return False
    return all(name_known(x) for x in t[1:] if type(x) is tuple) if type(t[0]) is str else all(name_known(x) for x in t)


def invariant(t):
    return name_known(t) and not has_join(t)


def has_join(t):
    if type(t) is not tuple:
        return False
    if t and t[0] in ('join', 'J', 'lv', 'any', 'mem'):
        return True
    return any(has_join(x) for x in t)


def show_alloc(a):
    sc = ''.join('%s/' % ':'.join(show(x) if type(x) is tuple else x for x in s) for s in a[0])
    return '%s at %s%s' % (a[2], sc, show(a[1]))


def lib_fns(ctx):
    for k, f in sorted(ctx.P.fns.items()):
        if f.kind == 'fn' and f.blocks and (f.d.get('path') or '').startswith('catalog::') and 'bitstring' not in k:
            yield f
        elif f.kind != 'closure' and f.blocks and f.d.get('file', '').startswith('src/catalog/') and f.kind == 'fn' \
                and not (f.d.get('path') or '').startswith('catalog::'):
            yield f


def g_lib_names(ctx, rep):
    """no operation, with the folds and callbacks it runs, allocates two different nodes at one name of one namespace"""
    n = 0
    for f in lib_fns(ctx):
        u = lib_unit(ctx, rep, f)
        if not u:
            continue
        A_ = Alloc(ctx, u)
        for p in u.rets:
            nodes = A_.nodes(p, (), (f.key,))
            if not nodes:
                continue
            al = list(flat(nodes))
            if not al:
                continue
            n += 1
            bad = None
            for a, b in clashes(nodes):
                if name_known(a[1]):
                    bad = (a, b)
                    break
            rep.ob('names', bad is None, u.describe(), '%s, and %s' % (show_alloc(bad[0])[:200], show_alloc(bad[1])[:200]) if bad else
                   '%s: %d allocations' % (u.name.split('::')[-1], len(al)), p)
            d = Den(u, p.st.facts, 4)
            for lp in p.loops(True):
                sets = [{d.N(e.raw[3][0]) for e in it.events('call') if e.a[0] == 'cell'} for it in lp.iters]
                for nm in set.intersection(*sets) if sets else ():
                    if invariant(nm):
                        rep.ob('names', False, u.describe(), 'every iteration of a loop allocates a cell at %s' % show(nm)[:200], p)
    if not n:
        rep.missing('operations of the library that allocate')


# ------------------------------------------------------------------ memo thunks
def raw_events(evs, kinds):
    for e in evs:
        if e[0] == 'iter':
            yield from raw_events(e[3], kinds)
        elif e[0] in kinds:
            yield e


def parts_of(t):
    """the components of a tuple of arguments"""
    if t[0] == 'tup':
        for x in t[1]:
            yield from parts_of(x)
    else:
        yield t


def hidden_ok(f, u, x, applied):
    """may x be an argument that the engine does not compare?  None: not known"""
    if x[0] in ('clo', 'fn', 'fnval') or x == UNIT:
        return True
    if x[0] == 'p':
        if x in applied:
            return True
        i = x[1][3:]
        if x[1].startswith('arg') and i.isdigit() and int(i) <= f.nargs:
            s = param_ty(f, int(i) - 1)
            if s.startswith(('std::rc::Rc<', 'std::boxed::Box<', 'std::sync::Arc<', '&')) or 'dyn ' in s or 'fn(' in s:
                return None
            return False
        return None
    return False if clean(x) and x[0] in ('call', 'con', 'tup', 'agg', 'int', 'str', 'op') else None


MEMO = ('list_map_lazy', 'list_filter_lazy', 'list_filter_eager', 'list_map_eager', 'list_map_eager2', 'list_reverse',
        'tree_fold_seq', 'tree_fold_up', 'tree_fold_up_nm_dn', 'tree_of_list_rec')


def g_lib_thunks(ctx, rep):
    """what a memo thunk computes depends on its program point and compared arguments only; names of the input guide memoisation"""
    n, sites = 0, {}
    for f in lib_fns(ctx):
        u = lib_unit(ctx, rep, f)
        if not u:
            continue
        applied = set()
        for p in u.rets:
            for e in raw_events(p.st.events, ('user',)):
                applied.add(e[1])
                if e[1][0] == 'fnval':
                    applied.add(e[1][1])
        for p in u.rets:
            d = None
            for e in raw_events(p.st.events, ('call',)):
                if e[1] != 'thunk' or len(e[3]) < 5:
                    continue
                d = d or Den(u, p.st.facts, 4)
                if d.infeasible:
                    break
                n += 1
                nc, pp, clo, arg, spur = (d.N(x) for x in e[3][:5])
                for x in parts_of(spur):
                    ok = hidden_ok(f, u, x, applied)
                    if ok is not None:
                        rep.ob('compared', ok, u.describe(), 'the thunk %s takes %s as an argument that the engine does not compare' % (
                            show(nc)[:80], show(x)[:120]) if not ok else 'hidden argument %s' % show(x)[:60], p)
                if clo[0] != 'clo':
                    continue
                for x in clo[2]:
                    while x[0] == 'ref':
                        x = d.N(('mem', x[1], 'v'))
                    ok = hidden_ok(f, u, x, applied)
                    if ok is not None:
                        rep.ob('compared', ok, u.describe(), 'the function of the thunk %s captures %s, which the engine does not compare' % (
                            show(nc)[:80], show(x)[:120]) if not ok else 'captures %s' % show(x)[:60], p)
                point(rep, u, d, p, pp, clo, arg, spur, sites)
    for sym, ss in sorted(sites.items()):
        meanings = {}
        for m, (u, p) in ss:
            meanings.setdefault(m, (u, p))
        one = len(meanings) == 1
        ms = sorted(meanings, key=repr)
        u, p = meanings[ms[-1]]
        rep.ob('program-point', one, u.describe(), 'thunks of the program point %s compute %s' % (sym, ' and '.join(show(m)[:160] for m in ms)), p)
    for name in MEMO:
        f = lib_fn(ctx, rep, COLL + name)
        u = f and lib_unit(ctx, rep, f)
        if u:
            memoised(rep, f, u)
    if n < 10:
        rep.missing('at least 10 memo thunks in the library (found %d)' % n)


def point(rep, u, d, p, pp, clo, arg, spur, sites):
    """record what a thunk of this program point computes from its arguments"""
    if pp[0] != 'agg' or not pp[3] or pp[3][0][1][0] != 'str':
        return
    sym = pp[3][0][1][1]

    def sy(t, tag):
        if t[0] == 'tup':
            return ('tup', tuple(sy(x, '%s%d.' % (tag, i)) for i, x in enumerate(t[1])))
        return ('p', '$' + tag)
    try:
        ps = u.closure(clo, (sy(arg, 'a'), sy(spur, 'h')), {})
    except Budget:
        return
    if len(ps) != 1 or ps[0].kind != 'ret':
        return
    q = ps[0]
    v = u.I.deep(q.st, q.rawval)
    if v[0] == 'tup' and all(x[0] == 'call' and x[1][:3] == 'out' for x in v[1]):
        v = v[1][0][2][0]
    if v[0] == 'call' and type(v[1]) is str and v[1][:2] in ('F:', 'M:'):
        sites.setdefault(str(sym), []).append((v, (u, p)))


def memoised(rep, f, u):
    """where the input has a name, recursion goes through thunks named after it"""
    for p in u.rets:
        d = Den(u, p.st.facts, 4)
        if d.infeasible:
            continue
        named = [x for x in (A(i + 1) for i in range(f.nargs)) if d.facts.get(('var', d.N(x))) == ('is', 'Name')]
        if len(named) != 1:
            continue
        nm = part(named[0], 'Name', 'nm')
        direct = [e for e in raw_events(p.st.events, ('call',)) if e[2] == f.key]
        rep.ob('memoised', not direct, u.describe(), 'on a name, calls itself without a memo thunk' if direct else 'on a name', p)
        for e in raw_events(p.st.events, ('call',)):
            if e[1] == 'thunk' and len(e[3]) >= 5:
                nc = d.N(e[3][0])
                if clean(nc):
                    rep.ob('memoised', nc[2] == 'Nominal' and mentions(nc, nm), u.describe(), 'a thunk is allocated with %s, not with a name made from %s' % (
                        show(nc)[:100], show(nm)[:60]), p)
