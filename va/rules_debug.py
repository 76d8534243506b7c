"""The debugging modes of the engine: checking the marks of the graph, and dumping the graph."""
from vocab import *
from canon import show, subterms, mentions
from paths import Loop, Ev
from roles import param_of

IO = ('std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::fmt::Write::write_fmt')


def locarg(f):
    return P(param_of(f, 'Rc<engine::Loc>'))


def visits(sc, f):
    """the locations that the recursive part f of the checker is called on in this scope"""
    i = param_of(f, 'Rc<engine::Loc>') - 1
    return [e.a[2][i] for e in sc.events('call') if e.a[1] == f.key and len(e.a[2]) > i]


def same(sc, a, b):
    return a == b or sc.eq(a, b) is True


def unvisited(scope, coll, skip, ok):
    """why some elements of coll are not dealt with at the end of scope; None if all are"""
    why = 'no pass over ' + short(coll)
    for loops, done in passes(scope, coll):
        bad, after = None, scope.items.index(done)
        for l in loops:
            for sc, e in classes(l, coll):
                E = e.a[1]
                up = sc.parent
                while up is not None and not own_next(up, coll):
                    up = up.parent
                if up is not None:
                    continue              # a search among the elements, for one of them
                if skip(sc, E) or ok(sc, E, dot(E, 'loc')) or remembered(scope, sc, E, after, ok):
                    continue
                bad = 'not when ' + conds(sc)
        if bad is None:
            return None
        why = bad
    return why


def remembered(scope, sc, E, after, ok):
    for p in sc.own('push'):
        v = p.a[1]
        if not mentions(v, E):
            continue
        rest = scope.items[after:]
        done = [x for x in rest if isinstance(x, Ev) and x.k == 'done' and (mentions(x.a[0], v) or x.a[0] == ('vec', None, ()))]
        ls = [s for l in rest if isinstance(l, Loop) for s, _ in classes(l, value=v)]
        if done and all(ok(s, E, dot(E, 'loc')) for s in ls):
            return True
    return False


def walks(u):
    """does the recursive part go on to the dependents or to the dependencies of its location?"""
    L = locarg(u.fn)
    out = set()
    for p in u.paths:
        for x in visits(p, u.fn):
            for c in ('preds', 'succs'):
                if any(y[0] == 'elem' and y[1] == dot(N(L), c) for y in subterms(x)):
                    out.add(c)
    return out


def check_excuse(u, p, L, up):
    """the inconsistency that a failure of the checker reports"""
    for f, vs in p.facts.items():
        if f[0] == 'has' and False in vs:
            return 'a location that is not in the graph'
        if f[0] == 'var' and vs == {('is', 'Err')} and f[1][0] == 'call':
            return 'the writer failed'
        if f[0] == 'var' and f[1][0] == 'entry' and vs & {('is', 'Clean'), ('is', 'Dirty')}:
            s = next(iter(vs))[1]
            if s == ('Clean' if up else 'Dirty'):
                return 'a location that must be both clean and dirty'
        if f == ('var', N(L)) and up and vs == {('is', 'Pure')}:
            return 'a constant that is marked'
        if f[0] == 'var' and f[1][0] == 'node' and f[1][1] != L and up and vs & {('is', 'Mut'), ('is', 'Pure')}:
            return 'a dependent that is not a computation'
        b, fl = field_place(f)
        if fl == 'dirty' and b[0] == 'elem' and field_place(b[1])[1] == 'succs':
            src = field_place(b[1])[0]
            if up and vs == {False} and p.eq(dot(b, 'loc'), L) is True and p.kindof(dot(b, 'effect')) == 'Observe' and src != N(L):
                return 'an unmarked dependency on a marked location'
            if not up and vs == {True} and src == N(L):
                return 'a marked dependency of a running computation'
    for x in reversed(p.items):
        if isinstance(x, Ev) and x.k == 'done':
            if field_place(x.a[0])[1] == 'succs' and searched_all(u, p, x.a[0]):
                return 'a back edge without its edge'
            break
    return None


def g_debug_checks(ctx, rep):
    """the checker inspects all of the graph, and fails only on inconsistent marks"""
    recs = ctx.role('CHECKER')
    roots = [ctx.P.fns[k] for k in sorted(ctx.P.diagnostics()) if any(r.key in ctx.P.static_closure(k) for r in recs)
             and any(k in ctx.P.callees(f) for g, f in ctx.P.fns.items() if g not in ctx.P.diagnostics() and g.startswith('adapton'))]
    if len(recs) < 2 or not roots:
        rep.missing('the checker of the graph')
        return
    down = up = None
    for f in recs:
        u = rep.use(ctx.unit(f, opaque=('CHECKER',), panics=True))
        w = walks(u)
        L = locarg(f)
        rep.ob('checker-walks', len(w) == 1, u.name, 'goes on to %s of its location' % ('/'.join(sorted(w)) or 'nothing'))
        if 'preds' in w:
            up = f
            for p in u.rets:
                def ok(sc, E, pl):
                    return any(same(sc, x, pl) for x in visits(sc, f)) and any(
                        found_edge(sc, E2, 'Observe', L) and sc.is_true(dot(E2, 'dirty')) for E2 in elems(sc, succs(pl)))
                why = unvisited(p, preds(L), lambda sc, E: sc.kind_not_(dot(E, 'effect'), 'Observe'), ok)
                if p.kindof(N(L)) == 'Pure':
                    why = None
                rep.ob('checker-demands-marks', why is None, u.name, why or 'every observer is marked and checked', p)
        elif 'succs' in w:
            down = f
            for p in u.rets:
                def ok2(sc, E, sl):
                    return any(same(sc, x, sl) for x in visits(sc, f)) and any(
                        same(sc, dot(E2, 'loc'), sl) and sc.is_false(dot(E2, 'dirty')) for E2 in elems(sc, succs(L)))
                why = unvisited(p, succs(L), lambda sc, E: False, ok2) if p.kindof(N(L)) == 'Comp' else None
                rep.ob('checker-demands-clean', why is None, u.name, why or 'every dependency is clean and checked', p)
        for p in u.panics:
            e = check_excuse(u, p, L, 'preds' in w)
            rep.ob('checker-fails-rightly', e is not None, u.name, e or 'fails on a consistent graph', p)
    for f in roots:
        u = rep.use(ctx.unit(f, opaque=('CHECKER',), panics=True))
        on, dump = ('flag', 'check_dcg_is_wf'), ('flag', 'write_dcg')
        for p in u.paths:
            calls = [e for e in p.events('call') if any(e.a[1] == r.key for r in recs)]
            io = io_events(p)
            if p.kind != 'ret':
                ok = any(f2[0] == 'var' and vs == {('is', 'Err')} for f2, vs in p.facts.items())
                rep.ob('checker-fails-rightly', ok, u.name, 'the writer failed' if ok else 'fails on a consistent graph', p)
                continue
            if not p.is_true(on):
                rep.ob('checker-off', not calls, u.name, 'nothing is checked when checking is off', p)
            else:
                keys = [e for e in p.own('done') if e.a[0] == ('table',)]
                fr = [e for e in p.own('done') if e.a[0] == STACK]
                rep.ob('checker-visits-all', bool(keys) and bool(fr), u.name, 'all running computations and all locations', p)
                why = unchecked(p, up)
                rep.ob('checker-visits-marked', why is None, u.name, why or 'every location with a marked dependency is checked', p)
                for l in p.loops():
                    for sc, e in classes(l, STACK):
                        if not dumps(l):
                            rep.ob('checker-visits-frame', down is not None and dot(e.a[1], 'loc') in visits(sc, down), u.name,
                                   'every running computation is checked', p)
                    if dumps(l):
                        continue
                    for it in l.iters:
                        for sc in it.scopes():
                            for e in sc.own('next'):
                                b, fl = field_place(e.a[0])
                                if fl == 'succs' and b[0] == 'node':
                                    d = dot(e.a[1], 'dirty')
                                    if not sc.is_false(d):
                                        rep.ob('checker-visits-marked', up is not None and b[1] in visits(sc, up), u.name,
                                               'the source of a marked dependency is checked', p)
                                    else:
                                        rep.ob('checker-visits-marked', not visits(sc, up) if up else True, u.name,
                                               'an unmarked dependency demands nothing', p)
            if not p.is_true(dump):
                rep.ob('dump-off', not io, u.name, 'nothing is written when dumping is off', p)
            for e in graph_mutations(p):
                rep.ob('debug-changes-nothing', False, u.name, 'changes %s' % short(e.a[0]), p)
            if io:
                dumped(rep, u, p)
        rep.ob('debug-changes-nothing', f.key in ctx.P.diagnostics(), u.name, 'can write only the counters of the dumps')
    for n in ('cell', 'thunk', 'set', 'force'):
        for f in ctx.impls('Adapton', n):
            if f.tys[f.d['impl_self']]['s'] == 'engine::DCG':
                rep.ob('checker-called', any(r.key in ctx.P.static_closure(f.key) for r in roots), f.d['path'],
                       'the operation checks the graph')


def unchecked(p, up):
    """why the marked dependencies of some location of the table are not checked; None if all are"""
    why = 'no pass over the table'
    for loops, done in passes(p, ('table',)):
        bad = None
        for l in loops:
            for sc, e in classes(l, ('table',)):
                loc = e.a[1]
                loc = dict(loc[1:])[0] if loc[0] == 'agg' else loc[1][0] if loc[0] == 'tup' else loc
                if not sc.kind_not_(N(loc), 'Comp') and not all_marked(sc, loc, up):
                    bad = 'not when ' + (conds(sc) or 'a location is passed over')
        if bad is None:
            return None
        why = bad
    return why


def all_marked(sc, loc, up):
    if up is None:
        return False
    if any(e in sc.own('call') and e.a[1] == up.key and loc in visits(sc, up) for e in sc.events('call')):
        return True
    c = succs(loc)

    def fine(s, e):
        return s.is_false(dot(e.a[1], 'dirty')) or loc in visits(s, up)
    for loops, done in passes(sc, c):
        if all(fine(s, e) for l in loops for s, e in classes(l, c)):
            return True
    seen = [(s, e) for l in sc.loops() for s, e in classes(l, c)]
    return any(loc in visits(s, up) for s, e in seen) and all(fine(s, e) for s, e in seen)


def io_events(sc):
    return [e for e in sc.events('dyn') if e.a[0] in IO]


def dumps(l):
    """does this loop write?"""
    return any(io_events(sc) for it in l.iters for sc in it.scopes())


def text_of(e):
    return ' '.join(str(x[1]) for x in subterms(e.a[1]) if x[0] in ('const', 'str'))


def itself(x, t):
    """is t itself a part of x, rather than something that leads to a part of it?"""
    if x == t:
        return True
    return type(x) is tuple and bool(x) and x[0] not in ('.', 'node', 'elem', 'p', 'last') and any(itself(y, t) for y in x)


def shown(scope, coll, ok):
    """why some element of coll is left out by every pass over it; None if none is"""
    why = 'no pass over ' + short(coll)
    for loops, done in passes(scope, coll):
        bad = [sc for l in loops for sc, e in classes(l, coll) if sc.parent is scope and not ok(sc, e.a[1])]
        if not bad:
            return None
        why = conds(bad[0]) or 'some are passed over'
    return why


def dumped(rep, u, p):
    """the dump shows every frame, location and dependency, and tells the marked ones apart"""
    io_of = lambda sc: [x for x in sc.own('dyn') if x.a[0] in IO]

    def told(sc, *ts):
        return any(all(itself(x.a[1], t) for t in ts) for x in io_of(sc))

    def frame(sc, E):
        return told(sc, dot(E, 'loc')) and shown(sc, dot(E, 'succs'), lambda s, F: told(s, dot(E, 'loc'), dot(F, '0', 'loc'))) is None

    def location(sc, E):
        loc = E[1][0] if E[0] == 'tup' else E
        if sc.kind_not_(N(loc), 'Comp'):
            return told(sc, loc)
        return shown(sc, succs(loc), lambda s, F: told(s, loc, dot(F, 'loc'))) is None
    for what, c, ok in (('running computation', STACK, frame), ('location', ('table',), location)):
        why = shown(p, c, ok)
        rep.ob('dump-complete', why is None, u.name, why and 'a %s is not shown: %s' % (what, why) or 'every %s is shown' % what, p)
    red, other = set(), set()
    for l in p.loops():
        for it in l.iters:
            for sc in it.scopes():
                for e in sc.own('next'):
                    io = [x for x in sc.events('dyn') if x.a[0] in IO]
                    own = [x for x in sc.own('dyn') if x.a[0] in IO]
                    b, fl = field_place(e.a[0])
                    if fl == 'succs' and (own or dumps(l)) and b[0] == 'node':
                        ok = [x for x in own if itself(x.a[1], b[1]) and itself(x.a[1], dot(e.a[1], 'loc'))]
                        rep.ob('dump-complete', bool(ok), u.name, 'a dependency is shown with its source and target', p)
                        d = dot(e.a[1], 'dirty')
                        for x in ok:
                            if sc.is_true(d):
                                red.add(text_of(x))
                            elif sc.is_false(d):
                                other.add(text_of(x))
                    elif e.a[0] == ('table',) and e.a[1][0] == 'tup' and len(e.a[1][1]) == 2:
                        n = e.a[1][1][1]
                        if sc.kindof(n) not in ('Mut', 'Pure') and any(io_events(s2) for i2 in l.iters for s2 in i2.scopes()):
                            rep.ob('dump-complete', any(field_place(x.a[0]) == (n, 'succs') for x in sc.events('done')), u.name,
                                   'the dependencies of a location are shown', p)
                    elif e.a[0] == STACK and io:
                        rep.ob('dump-complete', any(mentions(x.a[1], dot(e.a[1], 'loc')) for x in own), u.name, 'a frame is shown', p)
    rep.ob('dump-marks', not (red & other), u.name, 'marked dependencies are shown apart', p)
