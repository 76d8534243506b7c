"""Work is not repeated: marking, validation and recording pass each dependency once."""
from rules_engine import *


def g_once(ctx, rep):
    """marking passes a dependency only when it marks it; validation asks marked dependencies only, and clears them"""
    n = 0
    for u in graph_units(ctx, rep) + role_unit(ctx, rep, 'DIRTY', 'dirties'):
        for p in u.rets:
            for sc in p.scopes():
                n += mark_progress(ctx, rep, u, p, sc)
    rep.ob('mark-progress', n >= 3, 'engine', 'places from which marking goes on: %d' % n)
    for u in role_unit(ctx, rep, 'VALIDATE', 'validates'):
        validate_once(ctx, rep, u)
    for name in ('force', 'force_cycle'):
        u = op(ctx, rep, name)
        if not u:
            continue
        L = dot(P(art_param(u.fn)), 'art', 'Loc.0')
        k = 0
        for p in loc_paths(u, L):
            if succ_pushes(p):
                k += 1
                rep.ob('record-once', len(succ_pushes(p)) == 1 and not dup_witness(p, L), whr(u),
                       'a demand that repeats an earlier one of the same computation is not recorded again', p)
                rep.ob('record-once', False in nonempty_vals(p) or any(e.a[0] == TOPSUCCS for e in p.events('done')), whr(u),
                       'a demand is recorded only after all the recorded dependencies were looked at', p)
                for sc in p.scopes():
                    for e in sc.own('next'):
                        if e.a[0] == TOPSUCCS:
                            E = e.a[1]
                            ok = sc.eq(dot(E, '0', 'loc'), L) is False or sc.kind_not_(dot(E, '0', 'effect'), OBS) or sc.kind_not_(dot(E, '1'), 'None')
                            rep.ob('record-once', ok or bool(dup_witness(p, L)), whr(u),
                                   'each recorded dependency is compared with the demand: not when ' + conds(sc)[:160], p)
        rep.ob('record-once', k > 0, whr(u), 'demands that are recorded: %d' % k)


def mark_progress(ctx, rep, u, p, sc):
    n = 0
    evs = sc.own()
    for c, T in dirty_calls(ctx, sc):
        if c not in evs:
            continue
        # a dependent of some location: X.loc, where X is one of its recorded dependents
        if type(T) is not tuple or T[0] != '.' or T[2] != 'loc' or T[1][0] != 'elem' or field_place(T[1][1])[1] != 'preds':
            continue
        n += 1
        marks = []
        for e in sc.events('write'):
            L, E = edge_place(e.a[0])
            if L == T and e.a[1] == TRUE:
                marks.append((e, E))
        before = [E for e, E in marks if e in evs and evs.index(e) < evs.index(c)]
        rep.ob('mark-first', bool(before), whr(u), 'a dependency is marked before the marking goes on to what depends on it', p)
        rep.ob('mark-progress', any(sc.is_false(dot(E, 'dirty')) for e, E in marks), whr(u),
               'the marking goes on only past a dependency that was not marked yet: ' + conds(sc)[:200], p)
    return n


def validate_once(ctx, rep, u):
    w = whr(u)
    L = P(param_of(u.fn, 'Rc<engine::Loc>'))
    S = param_of(u.fn, 'Vec<engine::Succ>') or param_of(u.fn, 'std::vec::Vec<engine::Succ>')
    if S is None:
        rep.missing('the list of dependencies that is validated')
        return
    S = P(S)
    n = 0
    for p in u.rets:
        if role_calls(p, 'EVAL'):
            continue
        clears = [e for e in p.events('write') if edge_place(e.a[0])[0] == L and e.a[1] == FALSE]
        for l in p.loops():
            for sc, e in classes(l, S):
                E = e.a[1]
                for d in clean_calls(sc, deep=False):
                    rep.ob('validate-only-marked', any(sc.is_true(dot(X, 'dirty')) for X in elems(sc, succs(L))), w,
                           'only marked dependencies are asked', p)
                bits = bit_of(sc, E, L)
                if not any(sc.is_true(dot(X, 'dirty')) for X in bits):
                    continue
                n += 1
                inside = [x for x in sc.events('write') if x.a[1] == FALSE and edge_place(x.a[0])[0] == L
                          and edge_place(x.a[0])[1] in bits]
                inner = {id(x) for x in sc.events('write')}
                later = [x for x in clears if id(x) not in inner and x.scope is not sc and not same_loop(l, x)]
                rep.ob('validate-clears-all', bool(inside or later), w,
                       'a marked dependency that did not change is marked no more afterwards: ' + conds(sc)[:200], p)
    rep.ob('validate-clears-all', n > 0, w, 'marked dependencies that did not change: %d' % n)


def same_loop(l, e):
    sc = e.scope
    while sc is not None:
        if any(sc is it for it in l.iters):
            return True
        sc = getattr(sc, 'parent', None)
    return False
