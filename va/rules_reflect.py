"""Obligations on reflection: the reflected graph mirrors the graph."""
from rules_more import *

RF = ('EVAL', 'VALIDATE', 'PARSE')


def r_of(t):
    """x if t is the reflection of x"""
    if type(t) is tuple and t and t[0] == 'call' and t[1].split('::')[-1] == 'reflect' and len(t[2]) == 1:
        return t[2][0]
    return None


def parsed(t):
    """x if t is the value read from the debug text of x"""
    if type(t) is tuple and t and t[0] == 'call' and t[1] == 'PARSE' and len(t[2]) == 1:
        return t[2][0]
    return None


def reflect_impl(ctx, self_ty):
    fs = []
    for f in ctx.impls('Reflect', 'reflect'):
        st = f.tys[f.d['impl_self']]['s'].replace('std::vec::', '').replace('std::rc::', '')
        if st == self_ty or self_ty.endswith('*') and st.startswith(self_ty[:-1]):
            fs.append(f)
    return fs[0] if len(fs) == 1 else None


def runit(ctx, rep, self_ty):
    f = reflect_impl(ctx, self_ty)
    if f is None:
        rep.missing('a reflection of ' + self_ty)
        return None
    u = rep.use(ctx.unit(f, opaque=RF))
    for p in u.rets + u.panics:
        bad = list(graph_mutations(p)) + list(p.events('user'))
        rep.ob('reflect-pure', not bad, whr(u), 'reflection changes nothing and runs nothing', p)
    rep.ob('reflect-total', bool(u.rets) and not u.panics, whr(u), 'a reflection is always given')
    return u


def maps_all(rep, rule, u, p, coll, val, good, what):
    """val is the vector of good(x) for all x in coll, in order"""
    ps = list(passes(p, coll))
    if not rep.ob(rule, len(ps) == 1, whr(u), '%s: one complete pass over %s' % (what, show(coll)), p):
        return
    ok = type(val) is tuple and val and val[0] == 'vec' and val[1] is None
    if not rep.ob(rule, ok, whr(u), '%s: a vector is built from nothing: %s' % (what, show(val)[:60]), p):
        return
    n = 0
    for l in ps[0][0]:
        for sc, e in classes(l, coll):
            n += 1
            pu = [x for x in sc.events('push')]
            rep.ob(rule, len(pu) == 1 and good(pu[0].a[1], e.a[1]), whr(u), '%s: every element is reflected: %s' % (
                what, ', '.join(show(x.a[1])[:80] for x in pu) or 'skipped when ' + conds(sc)), p)
    rep.ob(rule, (n > 0) == bool(val[2]), whr(u), '%s: nothing else is in the vector' % what, p)


def g_reflect(ctx, rep):
    """every part of the graph is reflected as what it is"""
    A = P(1)
    cp = closure_props(ctx)
    for f in ctx.role('PARSE'):
        w = [x for x in cp[f.key][0] if x.startswith('engine::')]
        rep.ob('reflect-pure', not w, f.d['path'], 'reading the debug text of a value changes nothing in the engine: %s' % w[:3])
    if not ctx.role('PARSE'):
        rep.missing('the function that reads the debug text of a value')
    u = runit(ctx, rep, 'engine::Path')
    if u:
        seen = set()
        for p in u.rets:
            k = p.kindof(A)
            seen.add(k)
            v = p.val
            if k == 'Empty':
                rep.ob('reflect-path', v == ('vec', None, ()), whr(u), 'the root namespace has no names', p)
            else:
                ok = v[0] == 'vec' and r_of(v[1]) == dot(A, 'Child.0') and len(v[2]) == 1 and v[2][0][1] == dot(A, 'Child.1')
                rep.ob('reflect-path', ok, whr(u), 'a child namespace is its parent\'s names followed by its own: ' + show(v)[:90], p)
        rep.ob('reflect-path', seen >= {'Empty', 'Child'}, whr(u), 'both kinds of namespace')
    u = runit(ctx, rep, 'engine::Loc')
    if u:
        seen = set()
        for p in u.rets:
            a = agg(p.val, 'Loc')
            if not rep.ob('reflect-loc', bool(a) and r_of(a['path']) == dot(A, 'path'), whr(u), 'a location\'s namespace is reflected', p):
                continue
            k = p.kindof(dot(A, 'id'))
            seen.add(k)
            if k == 'Nominal':
                rep.ob('reflect-loc', a['name'] == dot(A, 'id', 'Nominal.0'), whr(u), 'a nominal location is told by its name', p)
            else:
                h = name_parts(a['name'])[0]
                rep.ob('reflect-loc', h is not None and mentions(a['name'], dot(A, 'id', 'Structural.0')), whr(u),
                       'a structural location is told by its hash: ' + show(a['name'])[:80], p)
        rep.ob('reflect-loc', seen >= {'Nominal', 'Structural'}, whr(u), 'both kinds of location')
    u = runit(ctx, rep, 'engine::Effect')
    if u:
        want = {'Observe': 'Force', 'Allocate': 'Alloc'}
        got = {}
        for p in u.rets:
            got.setdefault(p.kindof(A), set()).add(variant(p.val))
        for k, v in want.items():
            rep.ob('reflect-effect', got.get(k) == {v}, whr(u, k), 'effect %s is told as %s: %s' % (k, v, got.get(k)))
    u = runit(ctx, rep, 'engine::Succ')
    if u:
        for p in u.rets:
            a = agg(p.val, 'Succ') or {}
            ok = a.get('dirty') == dot(A, 'dirty') and r_of(a.get('loc')) == dot(A, 'loc') and r_of(a.get('effect')) == dot(A, 'effect')
            rep.ob('reflect-edge', ok, whr(u), 'an edge is told with its mark, target and effect: ' + show(p.val)[:120], p)
    u = runit(ctx, rep, 'engine::Frame')
    if u:
        for p in u.rets:
            a = agg(p.val, 'Frame') or {}
            rep.ob('reflect-frame', r_of(a.get('loc')) == dot(A, 'loc') and r_of(a.get('succs')) == dot(A, 'succs'), whr(u),
                   'a frame is told with its location and edges', p)
    for ty, good, what in (('Vec<engine::Succ>', lambda v, e: r_of(v) == e, 'edges'),
                           ('Vec<(engine::Succ*', lambda v, e: r_of(v) in (dot(e, '0'), tup(e)[0] if tup(e) else None), 'edges of a frame'),
                           ('Vec<engine::Pred>', lambda v, e: r_of((agg(v, 'Pred') or {}).get('loc')) == dot(e, 'loc')
                            and r_of((agg(v, 'Pred') or {}).get('effect')) == dot(e, 'effect'), 'dependents'),
                           ('Vec<Rc<engine::Loc>>', lambda v, e: r_of(v) == e, 'locations')):
        u = runit(ctx, rep, ty)
        if u:
            for p in u.rets:
                maps_all(rep, 'reflect-all', u, p, A, p.val, good, what)
    u = runit(ctx, rep, 'engine::Node*')
    if u:
        seen = set()
        for p in u.rets:
            k = p.kindof(A)
            seen.add(k)
            v = p.val
            rep.ob('reflect-node', variant(v) == {'Comp': 'Comp', 'Mut': 'Ref', 'Pure': 'Pure'}.get(k), whr(u, k), 'a %s node is told as %s' % (
                k, variant(v)), p)
            if not variant(v) or not v[3]:
                continue
            a = dict(v[3][0][1][3]) if v[3][0][1][0] == 'agg' else {}
            if k in ('Comp', 'Mut'):
                rep.ob('reflect-node', r_of(a.get('preds')) == dot(A, 'preds'), whr(u, k), 'with its dependents', p)
            if k == 'Comp':
                rep.ob('reflect-node', r_of(a.get('succs')) == dot(A, 'succs'), whr(u, k), 'with its dependencies', p)
                rep.ob('reflect-node', a.get('prog_pt') == dot(A, 'producer', 'prog_pt'), whr(u, k), 'with its program point', p)
                r = p.kindof(dot(A, 'res'))
                s = some_of(a.get('value'))
                ok = is_none(a.get('value')) if r == 'None' else s is not None and parsed(s) == ('some', dot(A, 'res')) if r == 'Some' \
                    else mentions(a.get('value'), dot(A, 'res'))
                rep.ob('reflect-node', ok, whr(u, k), 'with its result, if it has one: ' + show(a.get('value'))[:60], p)
            else:
                rep.ob('reflect-node', parsed(a.get('value')) == dot(A, 'val'), whr(u, k), 'with its content', p)
        rep.ob('reflect-node', seen >= {'Comp', 'Mut', 'Pure'}, whr(u, 'kinds'), 'all kinds of node')
    u = runit(ctx, rep, 'engine::DCG')
    if u:
        T = ('table',)
        n = 0
        for p in u.rets:
            a = agg(p.val, 'DCG') or {}
            rep.ob('reflect-graph', r_of(a.get('path')) == PATH, whr(u, 'path'), 'the current namespace is told', p)
            if r_of(a.get('stack')) != STACK:
                maps_all(rep, 'reflect-graph', u, p, STACK, a.get('stack'), lambda v, e: r_of(v) == e, 'stack')
            ps = list(passes(p, T))
            if not rep.ob('reflect-graph', len(ps) == 1, whr(u, 'table'), 'one complete pass over the table of locations', p):
                continue
            for l in ps[0][0]:
                for sc, e in classes(l, T):
                    n += 1
                    ins = [x for x in sc.events('insert')]
                    kv = tup(e.a[1])
                    if kv is None and e.a[1] and type(e.a[1][0]) is tuple:
                        kv = e.a[1]
                    ok = len(ins) == 1 and kv is not None and r_of(ins[0].a[1]) == kv[0] and r_of(ins[0].a[2]) == kv[1]
                    rep.ob('reflect-graph', ok, whr(u, 'table'), 'every location is told with its node: ' + (
                        ', '.join(show(x.a[1])[:40] + ' -> ' + show(x.a[2])[:40] for x in ins) or 'skipped when ' + conds(sc)), p)
        rep.ob('reflect-graph', n > 0, whr(u, 'table'), 'the case is analysed')
    u = runit(ctx, rep, 'std::option::Option<T>')
    if u:
        for p in u.rets:
            ok = is_none(p.val) if p.kindof(A) == 'None' else some_of(p.val) is not None and r_of(some_of(p.val)) == ('some', A)
            rep.ob('reflect-option', ok, whr(u), 'an option is told as what it holds', p)
    f = ctx.fn('engine::reflect_dcg::dcg_reflect_now')
    if rep.need(f, 'dcg_reflect_now'):
        u = rep.use(ctx.unit(f, opaque=RF))
        seen = set()
        for p in u.rets:
            s = some_of(p.val)
            eng = is_dcg(p)
            seen.add(bool(eng))
            rep.ob('reflect-now', (s is not None and r_of(s) == ('G',)) if eng else is_none(p.val), whr(u),
                   'the graph in use is told, or none if there is none: ' + show(p.val)[:60], p)
            rep.ob('reflect-pure', not list(graph_mutations(p)), whr(u), 'and not changed', p)
        rep.ob('reflect-now', seen == {True, False}, whr(u), 'both kinds of engine')
    for nm, want in (('succs_of_node', {'Comp': 'Comp.0', 'Ref': None, 'Pure': None}),
                     ('preds_of_node', {'Comp': 'Comp.0', 'Ref': 'Ref.0', 'Pure': None})):
        f = ctx.fn('reflect::' + nm)
        if not rep.need(f, nm):
            continue
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            k = p.kindof(A)
            ks = [k] if k else [x for x in want if not p.kind_not_(A, x)]
            for k in ks:
                w = want.get(k)
                ok = is_none(p.val) if w is None else some_of(p.val) == dot(A, w, nm.split('_')[0])
                rep.ob('reflect-query', ok, whr(u, k), 'the %s of a %s node: %s' % (nm.split('_')[0], k, show(p.val)[:60]), p)


# ------------------------------------------------------------------ counts of effects in traces
COUNT_OF = {'LocFresh': 'alloc_fresh', 'ContentSame': 'alloc_nochange', 'ContentDiff': 'alloc_change', 'CleanRec': 'clean_rec',
            'Dirty': 'dirty'}


def trace_case(p, T):
    """the kind of the effect at the root of trace T, on this path"""
    e = dot(T, 'effect')
    k = p.kindof(e)
    if k == 'Alloc':
        a = p.kindof(dot(e, 'Alloc.0'))
        if a == 'LocExists':
            return p.kindof(dot(e, 'Alloc.0', 'LocExists.0'))
        return a
    if k == 'Force':
        return p.kindof(dot(e, 'Force.0')) or 'Force'
    return k


def same(p, a, b):
    return a == b or variant(a) is not None and p.kindof(b) == variant(a)


CHANGES = ('LocFresh', 'ContentDiff', 'CompCacheMiss', 'Dirty')


def g_trace_counts(ctx, rep):
    """counting the effects of a trace counts every effect of every kind once, for the role in which it happened"""
    top = ctx.fn('reflect::trace::trace_count')
    rec = ctx.fn('reflect::trace::trace_count_rec')
    if not (rep.need(top, 'trace_count') and rep.need(rec, 'trace_count_rec')):
        return
    u = rep.use(ctx.unit(top))
    coll = P(1)
    roots = {rec.key}          # what counts one event, in whatever function it stands
    for p in u.rets:
        for l in loops_over(p, coll):
            for sc, e in classes(l, coll):
                roots |= {x.a[1] for x in sc.events('call') if e.a[1] in x.a[2] and x.a[1] in ctx.P.fns}
    for p in u.rets:
        c = agg(p.val, 'TraceCount')
        calls = [e for e in p.events('call')]
        if not rep.ob('counts-from-zero', c is not None or bool(calls), whr(u), 'the counts are returned', p):
            continue
        if c is not None:
            zero = lambda t: t == ('int', 0) or tup(t) is not None and all(zero(x) for x in tup(t))
            rep.ob('counts-from-zero', all(zero(t) for f, t in c.items() if f != 'total_updates'), whr(u), 'the counts start at zero', p)
        for l in loops_over(p, coll):
            for sc, e in classes(l, coll):
                cs = [x for x in sc.events('call')]
                ok = len(cs) == 1 and cs[0].a[1] in roots and any(variant(x) == 'Editor' for x in cs[0].a[2]) and e.a[1] in cs[0].a[2]
                rep.ob('counts-every-event', ok, whr(u), 'each event of the trace is counted once, as the editor\'s', p)
        rep.ob('counts-every-event', ('done', coll) in [(x.k, x.a[0]) for x in p.items if x.k == 'done'], whr(u), 'all events are counted', p)
    rep.ob('counts-every-event', any(loops_over(p, coll) for p in u.rets), whr(u), 'events are counted')

    todo, seen = [ctx.P.fns[k] for k in sorted(roots)], set()
    while todo:
        f = todo.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        u = rep.use(ctx.unit(f))
        R, T, C = counter_params(f)
        if not rep.ob('counts-shape', None not in (R, T, C), whr(u), 'a role, a trace and the counts are given'):
            continue
        ext = dot(T, 'extent')
        below = {}
        for p in u.rets:
            case, role = trace_case(p, T), p.kindof(R)
            # delegation of the whole trace
            deleg = [e for e in p.own('call') if T in e.a[2]]
            for e in deleg:
                g = ctx.P.fns.get(e.a[1])
                if g is not None:
                    todo.append(g)
            ws = [e for e in p.events('write') if e.a[0] is not None and C in list(subterms(e.a[0]))]
            if deleg:
                rep.ob('counts-once', len(deleg) == 1 and not ws and same(p, arg_of(deleg[0], R, f, ctx), R), whr(u, str(case)),
                       'what is delegated is counted there, once, in the same role', p)
                continue
            incs = []
            for e in ws:
                fs = []
                b = e.a[0]
                while type(b) is tuple and b and b[0] == '.':
                    fs.append(b[2])
                    b = b[1]
                ok = b == C and e.a[1] == ('op', 'Add', e.a[0], ('int', 1))
                rep.ob('counts-by-one', ok, whr(u, str(case)), 'a count grows by one: %s := %s' % (show(e.a[0]), show(e.a[1])[:60]), p)
                fs.reverse()
                incs.append(tuple(fs))
            idx = {'Editor': '0', 'Archivist': '1'}.get(role)
            if case in COUNT_OF and (case != 'Dirty' or f.key not in roots) and not (f.key not in roots and case != 'Dirty'):
                F = COUNT_OF[case]
                good = len(incs) == 1 and incs[0][0] == F and (len(incs[0]) == 1 or str(incs[0][1]) == idx)
                rep.ob('counts-kind', good, whr(u, '%s %s' % (role, case)), 'this effect is counted once, as %s, in its role; counted: %s' % (F, incs), p)
            elif case == 'CleanEval' and f.key in roots:
                rep.ob('counts-kind', len(incs) == 1 and incs[0][0] in ('reeval_change', 'reeval_nochange'), whr(u, '%s %s' % (role, case)),
                       'a re-evaluation is counted once: %s' % (incs,), p)
                if incs and incs[0][0] in ('reeval_change', 'reeval_nochange'):
                    kinds = [[trace_case(sc, e.a[1]) for l in ls for sc, e in classes(l, ext)] for ls, _ in passes(p, ext)]
                    if incs[0][0] == 'reeval_nochange':
                        ok = any(all(k is not None and k not in CHANGES for k in ks) for ks in kinds)
                    else:
                        ok = any(trace_case(sc, e.a[1]) in CHANGES for l in p.loops() for sc, e in classes(l, ext)) or \
                            any(trace_case(p, e.a[1]) in CHANGES for e in p.own('next') if e.a[0] == ext)     # a search that ends at it
                    rep.ob('counts-change', ok, whr(u, '%s %s' % (role, case)), 'a re-evaluation counts as one without change exactly if nothing '
                           'in it was allocated afresh or changed, evaluated or marked: as %s' % incs[0][0], p)
            else:
                ok = not incs or case in ('CompCacheHit', 'CompCacheMiss', 'Force') and role == 'Editor' and incs == [('total_archivist',)]
                rep.ob('counts-kind', ok, whr(u, '%s %s' % (role, case)), 'this effect is not counted as another: %s' % (incs,), p)
            # what is below
            n = 0
            for l in loops_over(p, ext):
                cls = list(classes(l, ext))
                if not any(list(sc.events('call')) for sc, e in cls):
                    continue
                n += 1
                for sc, e in cls:
                    cs = [x for x in sc.events('call')]
                    ok = len(cs) == 1 and e.a[1] in cs[0].a[2] and C0(cs[0].a[2], C)
                    if ok:
                        g = ctx.P.fns.get(cs[0].a[1])
                        r = arg_of(cs[0], R, f, ctx)
                        want = 'Archivist' if case in ('CompCacheHit', 'CompCacheMiss', 'Force') and f.key in roots else role
                        ok = g is not None and (r == R and (want == role) or variant(r) is not None and variant(r) == want)
                        if g is not None:
                            todo.append(g)
                    rep.ob('counts-below', ok, whr(u, '%s %s' % (role, case)), 'each effect within this one is counted once, in its role', p)
            rep.ob('counts-below', n <= 1, whr(u, '%s %s' % (role, case)), 'what is within is counted once', p)
            empty = p.is_false(('nonempty', ext))
            below.setdefault((role, case), []).append(n == 1 or empty)
        if f.key in roots:
            kinds = ('LocFresh', 'ContentSame', 'ContentDiff', 'RefGet', 'CompCacheHit', 'CompCacheMiss', 'Dirty', 'Debug')
            for role, ks in (('Editor', kinds), ('Archivist', kinds + ('Remove', 'CleanEdge', 'CleanEval', 'CleanRec'))):
                for k in ks:
                    ok = any(p.kindof(R) in (role, None) and trace_case(p, T) in (k, None) for p in u.rets)
                    rep.ob('counts-total', ok, whr(u, '%s %s' % (role, k)), 'such an effect of the %s is counted' % role.lower())
        for (role, case), vs in below.items():
            rep.ob('counts-below', any(vs), whr(u, '%s %s' % (role, case)), 'what is within this effect is counted too')
    rep.ob('counts-shape', len(seen) >= 1, 'reflect::trace', 'functions that count: %d' % len(seen))




def C0(args, C):
    return any(a == C or any(x == C for x in subterms(a)) for a in args)


def loops_over(p, coll):
    return [x for x in p.items if isinstance(x, Loop) and any(True for _ in classes(x, coll))]


def counter_params(f):
    R = T = C = None
    for i in range(f.nargs):
        s = f.tys[f.locals[i + 1]]['s'].split('::')[-1]
        if s == 'Role':
            R = P(i + 1)
        elif s == 'Trace':
            T = P(i + 1)
        elif s == 'TraceCount':
            C = P(i + 1)
    return R, T, C


def arg_of(e, R, f, ctx):
    """the role that a call of a counting function passes"""
    g = ctx.P.fns.get(e.a[1])
    if g is None:
        return None
    R2 = counter_params(g)[0]
    if R2 is None:
        return None
    return e.a[2][int(R2[1][3:]) - 1]
