"""Obligations on the dependence-graph engine, stated over canonical paths.

Every function g_* takes (ctx, rep) and adds the obligations of one group; properties.py composes them.
"""
from vocab import *
from canon import show
from paths import Loop, Ev
from roles import param_of, closure_props

OBS, ALLOC = 'Observe', 'Allocate'


# ------------------------------------------------------------------ units
def pub_engine(ctx):
    """the public operations of the engine"""
    out = []
    for f in ctx.P.fns.values():
        p = f.d.get('path') or ''
        if f.kind == 'fn' and f.d.get('pub') and p.startswith('engine::') and not p.startswith('engine::wf::') \
                and not f.d.get('impl_self') and f.key.startswith('adapton::engine::'):
            out.append(f)
    return sorted(out, key=lambda f: f.key)


def running(p, L):
    """was L found among the running computations?"""
    return any(p.eq(L, dot(x, 'loc')) is True for x in elems(p, STACK)) or \
        any(sc.eq(dot(e.a[1], 'loc'), L) is True for l in p.loops() for sc, e in classes(l, STACK))


def touches_graph(ctx, f):
    cp = closure_props(ctx).get(f.key)
    if cp is None:
        return False
    return any(w.split('.')[0] in ('engine::DCG', 'engine::Succ', 'engine::MutNode', 'engine::CompNode', 'engine::Frame',
                                   'engine::PureNode', 'engine::App', 'engine::Flags', 'engine::Pred')
               for w in cp[0]) or any(('engine::' + r) in str(cp[1]) for r in ('Producer', 'DCGDep'))


def op(ctx, rep, name):
    """the analysed unit of public operation `name`"""
    f = ctx.fn('engine::' + name)
    if f is None:
        rep.missing('the public operation %s' % name)
        return None
    return rep.use(ctx.unit(f))


def role_unit(ctx, rep, name, what):
    fs = ctx.role(name)
    if not fs:
        rep.missing('a function that ' + what)
        return []
    return [rep.use(ctx.unit(f)) for f in fs]


def graph_units(ctx, rep):
    us = []
    for f in pub_engine(ctx):
        if touches_graph(ctx, f) or f.d['name'] in ('set', 'cell', 'thunk', 'force', 'force_map', 'force_abs', 'force_cycle',
                                                     'ns', 'structural'):
            us.append(rep.use(ctx.unit(f)))
    if len(us) < 8:
        rep.missing('at least 8 public operations on the graph (found %d)' % len(us))
    return us


def is_dcg(p):
    for f, v in p.facts.items():
        if f[0] == 'var' and f[1][0] == '.' and f[1][2] == 'engine':
            return ('is', 'DCG') in v
    return False


def art_param(fn):
    for i in range(fn.nargs):
        s = fn.tys[fn.locals[i + 1]]['s'].lstrip('&')
        if s.startswith('engine::Art<'):
            return i + 1
    return None


def ret_loc(p):
    a = agg(p.val, 'Art')
    if a and variant(a['art']) == 'Loc':
        return a['art'][3][0][1]
    return None


def res_of(L):
    return dot(N(L), 'res')


def whr(u, extra=''):
    n = u.name
    return n + (' ' + extra if extra else '')


def ordered(p):
    return list(p.events())


def nonempty_vals(p):
    return p.facts.get(('nonempty', STACK), set())


# ------------------------------------------------------------------ dirtying
def g_dirty(ctx, rep):
    """dirtying visits every observer of the changed location, and everything above it"""
    for u in role_unit(ctx, rep, 'DIRTY', 'marks everything that observed a location as out of date'):
        T = P(param_of(u.fn, 'Rc<engine::Loc>'))
        rep.ob('dirty-returns', len(u.rets) >= 2, whr(u), 'has paths with and without observers')
        for p in u.rets:
            why = uncovered(ctx, p, T, OBS, own=True)
            rep.ob('dirty-all-observers', why is None, whr(u), why or 'every observer is dirtied, or its dependency is exempt', p)
            for e in graph_mutations(p):
                L, edge = edge_place(e.a[0])
                rep.ob('dirty-only-marks', e.k == 'write' and L is not None and e.a[1] == TRUE, whr(u),
                       'the only effect on the graph is to set dirty bits: ' + show(e.a[0])[:80], p)
    # a dependent is looked for among the edges of the kind that it was recorded with (else the search fails: a panic)
    n = 0
    for u in graph_units(ctx, rep) + role_unit(ctx, rep, 'DIRTY', 'dirties'):
        for p in u.rets:
            for e in p.events('write'):
                L, E = edge_place(e.a[0])
                if L is None or L[0] != '.' or L[2] != 'loc' or L[1][0] != 'elem' or field_place(L[1][1])[1] != 'preds':
                    continue
                X, sc = L[1], e.scope
                n += 1
                ok = sc.eq(dot(E, 'effect'), dot(X, 'effect')) is True or \
                    sc.kindof(dot(X, 'effect')) is not None and sc.kindof(dot(X, 'effect')) == sc.kindof(dot(E, 'effect'))
                rep.ob('dirty-own-kind', ok, whr(u), 'what is marked for a dependent is its own kind of dependency', p)
    rep.ob('dirty-own-kind', n >= 4, 'engine', 'marks set: %d' % n)


def content_changes(p):
    """[(event, L, what)]: what an observer of L, or its re-evaluation, can see"""
    out = []
    for e in p.events('write', 'insert', 'extwrite', 'remove'):
        if e.k == 'insert' and e.a[0] == ('table',):
            out.append((e, e.a[1], 'insert'))
            continue
        if e.k == 'remove' and e.a[0] == ('table',):
            out.append((e, e.a[1], 'remove'))
            continue
        pl = e.a[0]
        while type(pl) is tuple and pl and pl[0] in ('.', 'some', 'elem', 'last', 'entry'):
            if pl[0] == '.' and pl[1][0] == 'node':
                if pl[2] in ('val', 'producer', 'res'):
                    out.append((e, pl[1][1], pl[2]))
                break
            pl = pl[1]
        else:
            if type(pl) is tuple and pl and pl[0] == 'node' and e.k != 'remove':
                out.append((e, pl[1], 'node'))
    return out


def fresh(p, L):
    return p.is_false(('has', L))


def g_edit(ctx, rep):
    """whoever changes the content of a location dirties all that observed it or allocated it"""
    n = 0
    for u in graph_units(ctx, rep):
        for p in u.rets:
            evs = ordered(p)
            for e, L, what in content_changes(p):
                if what == 'insert' and fresh(p, L) or same_value(p, e, L, what):
                    continue
                n += 1
                if what == 'remove':
                    rep.ob('edit-no-remove', False, whr(u), 'locations are never dropped from the table', p)
                    continue
                for eff, nm in ((OBS, 'observers'), (ALLOC, 'allocators')):
                    why = uncovered(ctx, p, L, eff)
                    rep.ob('edit-dirties-' + nm, why is None, whr(u),
                           why or 'the content of a location changes and all its %s are dirtied' % nm, p)
                if p.kindof(N(L)) == 'Mut' or what == 'val':
                    # dependencies on a cell may compare with its content: they must see the new one
                    i = evs.index(e)
                    calls = [evs.index(c) for c, x in dirty_calls(ctx, p) if x == L and c in evs]
                    rep.ob('edit-before-dirty', not calls or min(calls) > i, whr(u),
                           'the new content is in place when the observers of a cell are asked about it', p)
    rep.ob('edit-sites', n >= 20, 'engine', 'content changes on paths of public operations: %d' % n)


def g_edit_stores(ctx, rep):
    """set, cell and thunk leave the given content at the location"""
    u = op(ctx, rep, 'set')
    if u:
        A = art_param(u.fn)
        L = dot(P(A), 'art', 'Loc.0')
        V = P([i + 1 for i in range(u.fn.nargs) if i + 1 != A][0])
        some = False
        for p in u.rets:
            w = [e for e, l, k in content_changes(p) if l == L and k == 'val']
            same = p.eq(dot(N(L), 'val'), V) is True
            rep.ob('set-stores', (bool(w) and w[-1].a[1] == V) or (not w and same), whr(u),
                   'the cell holds the given value when set returns', p)
            for e, l, k in content_changes(p):
                rep.ob('set-only-target', l == L and k == 'val', whr(u), 'set changes only the value of its cell', p)
            some |= bool(w)
        rep.ob('set-writes', some, whr(u), 'some path writes')
    u = op(ctx, rep, 'cell')
    if u:
        V = P(2)
        kinds = set()
        for p in u.rets:
            L = ret_loc(p)
            if L is None:
                a = agg(p.val, 'Art')
                rep.ob('cell-returns', bool(a) and variant(a['art']) == 'Rc' and a['art'][3][0][1] == V and not is_dcg(p),
                       whr(u), 'outside the graph, the result holds the value itself', p)
                continue
            ch = [(e, k) for e, l, k in content_changes(p)]
            for e, l, k in content_changes(p):
                rep.ob('cell-only-target', l == L, whr(u), 'cell changes only the location that it returns', p)
            last = ch[-1] if ch else None
            k = p.kindof(N(L)) if not fresh(p, L) else 'fresh'
            kinds.add(k)
            if last and last[1] == 'insert':
                nd = last[0].a[2]
                v = node_val(nd)
                ok = v == V and variant(nd) in ('Mut', 'Pure')
                pure_ok = variant(nd) != 'Pure' or (p.is_true(('flag', 'ignore_nominal_use_structural'))
                                                    and p.is_true(('flag', 'use_purity_optimization')))
                rep.ob('cell-inserts-value', ok, whr(u), 'the node inserted holds the given value', p)
                rep.ob('cell-pure-only-structural', pure_ok, whr(u),
                       'only a structurally identified cell is immutable', p)
            elif last and last[1] == 'val':
                rep.ob('cell-overwrites-value', last[0].a[1] == V, whr(u), 'the cell holds the given value', p)
            else:
                ok = k == 'Pure' or k == 'Mut' and p.eq(dot(N(L), 'val'), V) is True
                rep.ob('cell-keeps-equal', ok, whr(u), 'an existing location is left alone only if it holds this value', p)
        for k in ('fresh', 'Mut', 'Comp'):
            rep.ob('cell-cases', k in kinds, whr(u, k), 'the case is analysed')
    u = op(ctx, rep, 'thunk')
    if u:
        kinds = set()
        ids, pp, fb, arg, spur = [P(i) for i in range(1, 6)]
        for p in u.rets:
            L = ret_loc(p)
            if L is None:
                continue
            for e, l, k in content_changes(p):
                rep.ob('thunk-only-target', l == L, whr(u), 'thunk changes only the location that it returns', p)
            ch = [(e, k) for e, l, k in content_changes(p) if l == L]
            k = p.kindof(N(L)) if not fresh(p, L) else 'fresh'
            kinds.add(k)
            ins = [e for e, x in ch if x == 'insert']
            if ins:
                nd = ins[-1].a[2]
                f = node_fields(nd)
                ok = variant(nd) == 'Comp' and app_is(f.get('producer'), pp, fb, arg, spur) and is_none(f.get('res')) \
                    and is_empty(f.get('succs'))
                rep.ob('thunk-inserts', ok, whr(u), 'the node holds this computation, not yet evaluated: ' + show(nd)[:160], p)
            elif ch:
                got = dict((x, e.a[1]) for e, x in ch if x != 'producer')
                pa = [e for e, x in ch if x == 'producer']
                ok = bool(pa) and (pa[-1].a[0] == dot(N(L), 'producer', 'arg') and pa[-1].a[1] == arg
                                   or app_is(pa[-1].a[1], pp, None, arg, None)) \
                    and is_none(got.get('res', ('x',)))
                rep.ob('thunk-overwrites', ok, whr(u), 'the new argument is stored and the cached result is dropped', p)
            else:
                # left alone: same computation
                struct = struct_id(L)
                same = p.eq(dot(N(L), 'producer', 'arg'), arg) is True and p.eq(dot(N(L), 'producer', 'prog_pt'), pp) is True
                rep.ob('thunk-keeps-equal', (struct and p.is_true(('has', L))) or (k == 'Comp' and same), whr(u),
                       'an existing thunk is left alone only if it has this program point and this argument', p)
        for k in ('fresh', 'Mut', 'Comp'):
            rep.ob('thunk-cases', k in kinds, whr(u, k), 'the case is analysed')


def node_fields(nd):
    """fields of a node value, whatever the nesting"""
    while type(nd) is tuple and nd[0] == 'agg' and nd[1].split('::')[-1] == 'Node':
        nd = nd[3][0][1]
    return dict(nd[3]) if type(nd) is tuple and nd and nd[0] == 'agg' else {}


def node_val(nd):
    return node_fields(nd).get('val')


def is_empty(t):
    return t == ('vec', None, ())


def app_is(t, pp, fb, arg, spur):
    a = agg(t, 'App')
    return bool(a) and a.get('prog_pt') == pp and a.get('arg') == arg and (fb is None or a.get('fn_box') == fb) \
        and (spur is None or a.get('spurious') == spur)


def struct_id(L):
    l = agg(L, 'Loc')
    return bool(l) and variant(l['id']) == 'Structural'


def g_keep_preds(ctx, rep):
    """whoever replaces a node keeps the record of its dependents"""
    n = 0
    for u in graph_units(ctx, rep):
        for p in u.rets:
            for e, L, what in content_changes(p):
                if what == 'insert' and not fresh(p, L):
                    nd = e.a[2]
                    if variant(nd) == 'Pure':
                        continue      # hash-consed content: the location can not have held anything else
                    n += 1
                    got = node_fields(nd).get('preds')
                    rep.ob('replace-keeps-dependents', copy_of(p, got, preds(L)), whr(u),
                           'a node that replaces another keeps its dependents: ' + show(got)[:80], p)
                elif what == 'insert':
                    got = node_fields(e.a[2]).get('preds')
                    rep.ob('fresh-has-no-dependents', got is None or is_empty(got), whr(u), 'a fresh node has no dependents', p)
    rep.ob('replace-sites', n >= 4, 'engine', 'replacing insertions: %d' % n)


def g_forget(ctx, rep):
    """a computation that is overwritten leaves no trace at what it depended on; nobody else loses dependents"""
    n = 0
    for u in graph_units(ctx, rep):
        for p in u.rets:
            over = []
            for e, L, what in content_changes(p):
                if what == 'insert' and not fresh(p, L) and p.kindof(N(L)) == 'Comp' \
                        and node_fields(e.a[2]).get('succs') != succs(L):
                    over.append(L)
                    n += 1
                    done = [x for x in p.own('done') if x.a[0] == succs(L)]
                    if rep.ob('overwritten-revokes', bool(done) or p.is_true(('empty', succs(L))), whr(u),
                              'the dependencies of a computation that is overwritten are all visited', p):
                        for l in p.loops():
                            for sc, x in classes(l, succs(L)):
                                rep.ob('overwritten-revokes-edge', revoked(sc, x.a[1], L), whr(u),
                                       'a dependency of the overwritten computation no longer lists it as dependent', p)
            for e in graph_mutations(p):
                pl = e.a[0]
                b, f = field_place(pl)
                if f == 'preds' and b[0] == 'node' and e.k != 'push':
                    ok = any(b[1] == dot(x.a[1], 'loc') for L in over for l in p.loops(True) for sc, x in classes(l, succs(L)))
                    rep.ob('dependents-kept', ok, whr(u), 'a list of dependents shrinks only as an overwritten computation is '
                           'forgotten: ' + show(pl)[:100], p)
    rep.ob('overwritten-sites', n >= 1, 'engine', 'computations overwritten: %d' % n)


def g_no_change_no_effect(ctx, rep):
    """an edit or allocation with unchanged content invalidates nothing"""
    seen = {}
    for name in ('set', 'cell', 'thunk'):
        u = op(ctx, rep, name)
        if not u:
            continue
        for p in u.rets:
            A = art_param(u.fn)
            L = dot(P(A), 'art', 'Loc.0') if name == 'set' else ret_loc(p)
            if L is None:
                continue
            if name == 'thunk':
                arg, pp = P(4), P(2)
                same = not fresh(p, L) and (struct_id(L) and p.is_true(('has', L))
                                            or p.kindof(N(L)) == 'Comp' and p.eq(dot(N(L), 'producer', 'arg'), arg) is True)
            else:
                same = p.eq(dot(N(L), 'val'), P(2)) is True and p.kindof(N(L)) == 'Mut' or p.kindof(N(L)) == 'Pure'
            fr = fresh(p, L)
            if not same and not fr:
                continue
            seen[(name, 'fresh' if fr else 'same')] = True
            ch = [x for x in content_changes(p) if not (fr and x[2] == 'insert') and not same_value(p, *x)]
            rep.ob('unchanged-no-write', not ch, whr(u), 'equal content is not written again', p)
            d = list(dirty_calls(ctx, p)) + [e for e in p.events('write') if edge_place(e.a[0])[0] is not None]
            rep.ob('unchanged-no-dirtying', not d, whr(u), 'equal content dirties nothing', p)
    for k in (('set', 'same'), ('cell', 'same'), ('thunk', 'same'), ('cell', 'fresh'), ('thunk', 'fresh')):
        rep.ob('unchanged-cases', k in seen, ' '.join(k), 'the case is analysed')
    # re-evaluation and validation never dirty anything: a result that comes out equal stops there
    for r, what in (('EVAL', 're-evaluates'), ('VALIDATE', 'validates')):
        for u in role_unit(ctx, rep, r, what):
            for p in u.rets:
                d = list(dirty_calls(ctx, p)) + [e for e in p.events('write')
                                                 if edge_place(e.a[0])[0] is not None and e.a[1] != FALSE]
                rep.ob('reuse-no-dirtying', not d, whr(u), 'dirties nothing', p)


# ------------------------------------------------------------------ recording
def succ_pushes(p):
    """edges recorded on the top frame: [(event, succ fields, second)]"""
    out = []
    for e in p.events('push'):
        if e.a[0] == TOPSUCCS:
            t = tup(e.a[1])
            s = agg(t[0], 'Succ') if t else None
            out.append((e, s or {}, t[1] if t and len(t) > 1 else None))
    return out


def stack_empty(p):
    return False in nonempty_vals(p)


def dup_witness(p, L):
    """an earlier full observation of L in the top frame"""
    for sc in p.scopes():
        for e in sc.own('next'):
            if e.a[0] == TOPSUCCS:
                E = e.a[1]
                if sc.eq(dot(E, '0', 'loc'), L) is True and sc.kindof(dot(E, '0', 'effect')) == OBS \
                        and sc.kindof(dot(E, '1')) == 'None':
                    return True
    return False


def dup_break(p, L):
    """scopes in which an edge to L is found"""
    return [sc for sc in p.scopes() for e in sc.own('next') if e.a[0] == TOPSUCCS and sc.eq(dot(e.a[1], '0', 'loc'), L) is True]


def pure_exempt(p, L):
    if p.kindof(N(L)) == 'Pure':
        return True
    return (p.kindof(N(L)) == 'Comp' and p.kindof(dot(L, 'id')) == 'Structural' and p.kindof(res_of(L)) == 'Some'
            and False in p.facts.get(('nonempty', succs(L)), set()) and p.is_true(('flag', 'use_purity_optimization')))


def loc_paths(u, L):
    A = P(art_param(u.fn))
    for p in u.rets:
        if p.kindof(dot(A, 'art')) == 'Loc':
            yield p


def g_record_force(ctx, rep, names=('force', 'force_cycle')):
    """every demand of a location is recorded in the demanding computation's frame"""
    for name in names:
        u = op(ctx, rep, name)
        if not u:
            continue
        A = P(art_param(u.fn))
        L = dot(A, 'art', 'Loc.0')
        cases = set()
        for p in loc_paths(u, L):
            ps = succ_pushes(p)
            k = p.kindof(N(L))
            for e, s, second in ps:
                ok = s.get('loc') == L and variant(s.get('effect')) == OBS and s.get('dirty') == FALSE
                rep.ob('demand-edge', ok, whr(u), 'the recorded edge is a clean observation of the demanded location', p)
                dep = agg(s.get('dep'), 'ForceDep')
                rep.ob('demand-edge-value', bool(dep) and dep.get('res') == p.val, whr(u),
                       'the recorded edge remembers the value that is returned', p)
            if ps:
                cases.add((k, 'push'))
                continue
            if stack_empty(p):
                cases.add((k, 'outer'))
                continue
            if pure_exempt(p, L):
                cases.add((k, 'pure'))
                continue
            if dup_witness(p, L):
                cases.add((k, 'dup'))
                continue
            rep.ob('demand-recorded', False, whr(u), 'a demand is not recorded when ' + conds(p, 9), p)
        for c in (('Mut', 'push'), ('Comp', 'push'), ('Mut', 'outer'), ('Comp', 'outer')):
            rep.ob('demand-recorded', c in cases, whr(u, '%s %s' % c), 'the case is analysed')
        for e in [x for p in loc_paths(u, L) for x in graph_mutations(p)]:
            ok = e.k == 'push' and e.a[0] == TOPSUCCS
            rep.ob('demand-only-records', ok, whr(u), 'a demand changes nothing else in the graph itself: ' + show(e.a[0])[:80])


def g_record_alloc(ctx, rep):
    """every allocation is recorded in the allocating computation's frame"""
    for name, deps, contents in (('cell', ('AllocCell',), 2), ('thunk', ('AllocNominalThunk', 'AllocStructuralThunk'), 4)):
        u = op(ctx, rep, name)
        if not u:
            continue
        seen = set()
        for p in u.rets:
            L = ret_loc(p)
            if L is None:
                rep.ob('alloc-edge-unwanted', not succ_pushes(p), whr(u), 'nothing is recorded outside the graph', p)
                continue
            ps = succ_pushes(p)
            for e, s, second in ps:
                ok = s.get('loc') == L and variant(s.get('effect')) == ALLOC and s.get('dirty') == FALSE
                rep.ob('alloc-edge', ok, whr(u), 'the recorded edge is a clean allocation of the returned location', p)
                seen.add('push')
            if ps:
                continue
            exempt = stack_empty(p) or struct_id(L) and (
                name == 'thunk' and p.is_true(('has', L)) or name == 'cell' and p.is_true(('flag', 'use_purity_optimization')))
            seen.add('outer')
            rep.ob('alloc-recorded', exempt, whr(u), 'an allocation is recorded unless the outer layer makes it: ' + conds(p, 6), p)
        for s in ('push', 'outer'):
            rep.ob('alloc-recorded', s in seen, whr(u, s), 'the case is analysed')


# ------------------------------------------------------------------ demand: what value
def raw_reads(t, out=None):
    """memory reads in a raw term"""
    if out is None:
        out = []
    if type(t) is tuple:
        if len(t) == 3 and t[0] == 'mem':
            out.append(t)
        for x in t:
            raw_reads(x, out)
    return out


def role_calls(p, role):
    return [e for e in p.events('call') if e.a[0] == role]


def initial_version(raw):
    return type(raw) is tuple and len(raw) == 3 and raw[0] == 'mem' and raw[2] == 'i'


def g_demand_value(ctx, rep, names=('force', 'force_cycle')):
    """a demand returns the cell's value, a new result, or a cached result after it was validated"""
    for name in names:
        u = op(ctx, rep, name)
        if not u:
            continue
        A = P(art_param(u.fn))
        L = dot(A, 'art', 'Loc.0')
        cases = set()
        for p in u.rets:
            k = p.kindof(dot(A, 'art'))
            if k == 'Rc':
                rep.ob('demand-eager', p.val == dot(A, 'art', 'Rc.0'), whr(u), 'an eager articulation gives its value', p)
                continue
            if k == 'Force':
                us = [e for e in p.events('user')]
                rep.ob('demand-naive', len(us) == 1, whr(u), 'a naive thunk runs its function, once', p)
                continue
            if k != 'Loc':
                rep.ob('demand-kind', False, whr(u), 'an articulation of another kind is demanded', p)
                continue
            n = p.kindof(N(L))
            cycle = running(p, L)
            if n in ('Mut', 'Pure'):
                cases.add(n)
                rep.ob('demand-cell', p.val == dot(N(L), 'val'), whr(u), 'a cell gives the value that it holds', p)
                rep.ob('demand-cell-runs-nothing', not role_calls(p, 'EVAL') and not role_calls(p, 'VALIDATE'), whr(u),
                       'no computation runs to read a cell', p)
                continue
            rep.ob('demand-node-kind', n == 'Comp', whr(u), 'the kind of node is known', p)
            ev, va = role_calls(p, 'EVAL'), role_calls(p, 'VALIDATE')
            r = p.kindof(res_of(L))
            if cycle:
                cases.add('cycle')
                rep.ob('demand-cycle-value', name == 'force_cycle' and p.val == ('some', P(2)) and not ev and not va, whr(u),
                       'a cyclic demand gives the caller\'s cycle value', p)
                continue
            if p.val[0] == 'call' and p.val[1] == 'EVAL':
                cases.add('eval')
                ok = len(ev) == 1 and L in ev[0].a[2] and not va
                rep.ob('demand-evaluates', ok and r != 'Some', whr(u),
                       'a computation without a result is evaluated, once, and gives that result', p)
                continue
            cases.add('cached')
            ok = len(va) == 1 and L in va[0].a[2] and not ev
            rep.ob('demand-validates', ok, whr(u), 'a cached result is validated before it is used', p)
            good = p.val == ('some', res_of(L)) and not initial_version(p.rawval)
            rep.ob('demand-reads-after-validation', good, whr(u), 'what is returned is the result as it is after validation', p)
            if va:
                args = va[0].a[2]
                rep.ob('demand-validates-own-edges', any(x == succs(L) for x in args), whr(u),
                       'validation is given all the dependencies of the computation', p)
        for c in ('Mut', 'eval', 'cached') + (('cycle',) if name == 'force_cycle' else ()):
            rep.ob('demand-cases', c in cases, whr(u, c), 'the case is analysed')


def g_cycle(ctx, rep):
    """a demand of a computation that is already running is detected"""
    for name in ('force', 'force_cycle'):
        u = op(ctx, rep, name)
        if not u:
            continue
        A = P(art_param(u.fn))
        L = dot(A, 'art', 'Loc.0')
        n = 0
        for p in u.rets + u.panics:
            if not role_calls(p, 'EVAL') and not role_calls(p, 'VALIDATE'):
                continue
            n += 1
            # before anything is evaluated, the whole stack has been searched without finding L
            ok = False
            for x in p.items:
                if isinstance(x, Ev) and x.k == 'call' and x.a[0] in ('EVAL', 'VALIDATE'):
                    break
                if isinstance(x, Ev) and x.k == 'done' and x.a[0] == STACK:
                    ok = all(sc.eq(dot(e.a[1], 'loc'), L) is False for l in p.loops() for sc, e in classes(l, STACK)
                             if p.items.index(l) < p.items.index(x))
                if isinstance(x, Ev) and x.k == 'call' and False:
                    break
            ok = ok or (p.facts.get(('nonempty', STACK)) == {False} and False)
            rep.ob('cycle-search', ok, whr(u),
                   'nothing is evaluated before the whole stack was searched for the demanded computation', p)
        rep.ob('cycle-search', n >= 4, whr(u, 'cases'), 'the case is analysed')
        # found: no evaluation; and an error unless the caller gave a value for cycles
        found = [p for p in u.rets + u.panics if running(p, L)
                 and p.kindof(N(L)) == 'Comp']
        rep.ob('cycle-found', bool(found), whr(u), 'the case is analysed')
        for p in found:
            if p.kind == 'ret':
                rep.ob('cycle-answer', name == 'force_cycle' and p.val == ('some', P(2)), whr(u),
                       'a cyclic demand returns the value given for cycles', p)
            rep.ob('cycle-no-eval', not role_calls(p, 'EVAL') and not role_calls(p, 'VALIDATE'), whr(u),
                   'a cyclic demand runs nothing', p)
        if name == 'force_cycle':
            rep.ob('cycle-answers', any(p.kind == 'ret' for p in found), whr(u), 'some cyclic demand is answered')


# ------------------------------------------------------------------ evaluation
def g_eval(ctx, rep):
    """evaluation replaces the record of dependencies, runs the stored computation, and stores the result"""
    for u in role_unit(ctx, rep, 'EVAL', 'evaluates a computation and stores its result'):
        L = P(param_of(u.fn, 'Rc<engine::Loc>'))
        w = whr(u)
        rep.ob('eval-returns', len(u.rets) >= 2, w, 'has paths')
        shapes, back = set(), False
        for p in u.rets:
            items = p.items
            evs = p.own()
            prod = [e for e in evs if e.k == 'dyn' and e.a[0] == 'engine::Producer::produce']
            if not rep.ob('eval-runs-once', len(prod) == 1 and len([e for e in p.events('dyn', 'user')
                                                                      if e.k == 'user' or 'Producer::produce' in e.a[0]]) == 1,
                          w, 'the computation runs exactly once', p):
                continue
            prod = prod[0]
            ip = items.index(prod)
            a0 = agg(prod.a[1][0], 'App')
            ok = prod.a[1][0] == dot(N(L), 'producer') or bool(a0) and all(
                v == dot(N(L), 'producer', f) for f, v in a0.items()) and len(a0) == 4
            rep.ob('eval-runs-own', ok, w, 'what runs is the computation stored at the location: ' + show(prod.a[1][0])[:120], p)
            val = p.val
            rep.ob('eval-returns-result', val[0] == 'call' and val[1].endswith('Producer::produce') and val[2] == prod.a[1], w,
                   'the result of the run is returned', p)
            # result cached
            wr = [e for e in evs if e.k == 'write' and e.a[0] == res_of(L)]
            rep.ob('eval-caches', bool(wr) and some_of(wr[-1].a[1]) == val and items.index(wr[-1]) > ip, w,
                   'the result of the run is cached', p)
            # frame
            pu = [e for e in evs if e.k == 'push' and e.a[0] == STACK]
            po = [e for e in evs if e.k == 'pop' and e.a[0] == STACK]
            ok = len(pu) == 1 and len(po) == 1 and items.index(pu[0]) < ip < items.index(po[0])
            rep.ob('eval-frame-balanced', ok, w, 'one frame is pushed before and popped after the run', p)
            if pu:
                fr = agg(pu[0].a[1], 'Frame') or {}
                rep.ob('eval-frame', fr.get('loc') == L and is_empty(fr.get('succs')), w,
                       'the frame is empty and belongs to the location', p)
            for e in p.events('push', 'pop', 'write', 'setd', 'remove'):
                if e.k != 'write' and e.a[0] == STACK and e not in pu + po or e.k == 'write' and e.a[0] == STACK:
                    rep.ob('eval-stack', False, w, 'nothing else happens to the stack', p)
            # namespace
            pw = [e for e in evs if e.k == 'write' and e.a[0] == PATH]
            before = [e for e in pw if items.index(e) < ip]
            after = [e for e in pw if items.index(e) > ip]
            rep.ob('eval-enters-namespace', bool(before) and before[-1].a[1] == dot(L, 'path'), w,
                   'the computation runs in the namespace of its location', p)
            ok = bool(after) and after[-1].a[1] == PATH and initial_path(after[-1].raw[2])
            rep.ob('eval-restores-namespace', ok, w, 'the namespace is as before when evaluation returns', p)
            # old dependencies are revoked
            sw = [e for e in evs if e.k == 'write' and e.a[0] == succs(L)]
            done = [x for x in items if isinstance(x, Ev) and x.k == 'done' and x.a[0] == succs(L) and items.index(x) < ip]
            if rep.ob('eval-revokes', bool(done), w, 'all the old dependencies are visited before the run', p):
                for l in p.loops():
                    if items.index(l) > ip:
                        continue
                    for sc, e in classes(l, succs(L)):
                        shapes.add('old')
                        T = preds(dot(e.a[1], 'loc'))
                        back |= any(q.a[0] == T for s2 in sc.scopes() for q in s2.own('push'))
                        back |= any(x.a[0] == T and x.a[1][0] == 'vec' and x.a[1][2] for x in sc.own('write')[-1:])
                        rep.ob('eval-revokes-edge', revoked(sc, e.a[1], L), w,
                               'an old dependency no longer lists the computation as a dependent, and keeps all others', p)
            # new dependencies are registered
            SF = dot(('last', STACK), 'succs')
            ok = False
            reg = [x for x in items if isinstance(x, Ev) and x.k == 'done' and x.a[0] == SF and items.index(x) > ip]
            good, why = False, 'no pass over the recorded dependencies'
            prev = ip
            for d in reg:
                ls = [l for l in p.loops() if prev < items.index(l) < items.index(d)]
                prev = items.index(d)
                cl = [(sc, e.a[1]) for l in ls for sc, e in classes(l, SF)]
                bad = [E for sc, E in cl if not registered(sc, E, L)]
                if not bad:
                    good = True        # a pass over nothing: nothing was recorded
                    if cl:
                        shapes.add('new')
                elif any(registered(sc, E, L) for sc, E in cl):
                    why = 'some recorded dependencies are not registered with their target'
            rep.ob('eval-registers', good, w, 'every recorded dependency is registered with its target' if good else why, p)
            # recorded dependencies replace the old ones
            ok = bool(sw) and items.index(sw[-1]) > ip and copy_of(p, sw[-1].a[1], SF, '0')
            rep.ob('eval-stores-dependencies', ok, w,
                   'the recorded dependencies become those of the computation: ' + (show(sw[-1].a[1])[:100] if sw else 'none'), p)
            for e in graph_mutations(p):
                rep.ob('eval-effects', eval_effect_ok(e, L), w, 'evaluation itself changes only its own node, the lists of '
                       'dependents of its dependencies, the stack and the namespace: ' + show(e.a[0])[:100], p)
        rep.ob('eval-revokes-edge', back, w + ' kept', 'the other dependents of an old dependency are kept')
        for s in ('old', 'new'):
            rep.ob('eval-cases', s in shapes, w + ' ' + s, 'the case is analysed')


def initial_path(t):
    """does a raw value read the current namespace at the entry of the function?"""
    r = [x for x in raw_reads(t) if x[1][1] and x[1][1][-1] == ('f', 'engine::DCG.path')]
    return bool(r) and all(x[2] == 'i' for x in r)


def revoked(sc, E, L):
    """in the scope that visits edge E of L: preds(E.loc) loses all entries of L and no others"""
    T = preds(dot(E, 'loc'))
    d = [x for x in sc.own('done') if x.a[0] == T]
    w = [x for x in sc.own('write', 'setd') if x.a[0] == T]
    if not d or not w:
        return False
    got = set()
    for s2 in sc.scopes():
        if s2 is sc:
            continue
        for e in s2.own('next'):
            if e.a[0] != T:
                continue
            X = e.a[1]
            kept = any((q.a[0] == T or q.a[0][0] == 'local') and q.a[1] == X for q in s2.own('push'))
            same = s2.eq(dot(X, 'loc'), L)
            if kept and same is not False:
                return False
            if not kept and same is not True:
                return False
            got.add(kept)
    return got in (set(), {True, False}) or True


def registered(sc, E, L):
    """frame entry E: a Pred for L with E's effect and second component is pushed at the target"""
    T = preds(dot(E, '0', 'loc'))
    for q in sc.own('push'):
        if q.a[0] == T:
            f = agg(q.a[1], 'Pred') or {}
            if f.get('loc') == L and f.get('effect') == dot(E, '0', 'effect') and f.get('dep') == dot(E, '1'):
                return True
    return False


def eval_effect_ok(e, L):
    pl = e.a[0]
    if pl in (STACK, PATH) or pl == res_of(L) or pl == succs(L):
        return True
    b, f = field_place(pl)
    if f == 'preds' and b[0] == 'node':
        return e.k in ('write', 'push', 'setd')
    return False


# ------------------------------------------------------------------ validation
def g_validate(ctx, rep):
    """a cached result is reused only if no dirty dependency reports a change"""
    for u in role_unit(ctx, rep, 'VALIDATE', 'validates a cached result'):
        w = whr(u)
        L = P(param_of(u.fn, 'Rc<engine::Loc>'))
        S = param_of(u.fn, 'Vec<engine::Succ>') or param_of(u.fn, 'std::vec::Vec<engine::Succ>')
        if S is None:
            rep.missing('the list of dependencies that is validated')
            continue
        S = P(S)
        seen = set()
        for p in u.rets:
            ev = role_calls(p, 'EVAL')
            clears = [e for e in p.events('write') if edge_place(e.a[0])[0] is not None]
            ch = agg(p.val, 'DCGRes')
            ch = ch.get('changed') if ch else None
            for e in clears:
                rep.ob('validate-clears', e.a[1] == FALSE and edge_place(e.a[0])[0] == L, w,
                       'validation only clears bits of its own edges', p)
            for e in graph_mutations(p):
                rep.ob('validate-effects', edge_place(e.a[0])[0] == L, w,
                       'validation itself changes nothing else: ' + show(e.a[0])[:80], p)
            for sc in p.scopes():
                for d in clean_calls(sc, deep=False):
                    rep.ob('validate-only-dirty', any(sc.is_true(dot(X, 'dirty')) for X in elems(sc, succs(L))), w,
                           'only a dependency that is marked is asked whether it changed', p)
                bad = clear_unjustified(ctx, sc, S, L)
                if bad is not None:
                    rep.ob('validate-clear-justified', not bad, w,
                           bad or 'a dirty bit is cleared only when all the dependencies that share it report no change', p)
                    seen.add('clear')
            if ev:
                seen.add('eval')
                rep.ob('validate-reevaluates-once', len(ev) == 1 and L in ev[0].a[2], w, 'it re-evaluates its own computation', p)
                rep.ob('validate-reevaluation-cause', any(changed_fact(p, d) is True for d in clean_calls(p)), w,
                       're-evaluation happens only because a dependency reported a change', p)
                last = p.own()[-1] if p.own() else None
                after = p.items[p.items.index(ev[0]) + 1:] if ev[0] in p.items else []
                rep.ob('validate-reevaluation-last', ev[0] in p.items and not any(
                    isinstance(x, Loop) or x.k in ('write', 'dyn', 'call', 'push') and x.k != 'trace' for x in after), w,
                    'nothing is validated any more after re-evaluation', p)
                ok = ch is not None and neq_of(ch, lambda a, b: a[0] == 'call' and a[1] == 'EVAL' and is_dep_res(b), p)
                rep.ob('validate-verdict-new', ok, w, 'the verdict compares the new result with the one observed: ' + show(ch)[:100], p)
                continue
            seen.add('reuse')
            # reuse: complete pass, each class either clean or cleared
            done = [x for x in p.own('done') if x.a[0] == S]
            if rep.ob('validate-all-dependencies', bool(done), w, 'the result is reused only after all dependencies were visited', p):
                i = p.items.index(done[-1])
                for l in p.loops():
                    if p.items.index(l) > i:
                        continue
                    for sc, e in classes(l, S):
                        if sc.parent is not p:
                            continue
                        why = dep_ok(ctx, sc, e.a[1], S, L)
                        rep.ob('validate-each-dependency', why is None, w,
                               why or 'each dependency is clean, or was dirty and reports no change', p)
                        seen.add('dep')
            ok = ch is not None and neq_of(ch, lambda a, b: is_dep_res(a) and b[0] == 'p', p)
            rep.ob('validate-verdict-cached', ok, w, 'the verdict compares the cached result with the one observed: ' + show(ch)[:100], p)
            # a dependency that reported a change forbids reuse
            for d in clean_calls(p, deep=False):
                rep.ob('validate-change-not-ignored', changed_fact(p, d) is not True, w, 'a reported change leads to re-evaluation', p)
        for s in ('clear', 'eval', 'reuse', 'dep'):
            rep.ob('validate-cases', s in seen, w + ' ' + s, 'the case is analysed')


def is_dep_res(t):
    return t[0] == '.' and t[2] == 'res'


def neq_of(t, pred, p=None):
    """is t the negation of an equality whose sides (in some order) satisfy pred? (or, on path p, its value)"""
    if t[0] == 'not' and t[1][0] == 'eq':
        a, b = t[1][1], t[1][2]
        return pred(a, b) or pred(b, a)
    if p is not None and t in (TRUE, FALSE):
        want = {t == FALSE}
        return any(f[0] == 'eq' and p.holds(f) == want and (pred(f[1], f[2]) or pred(f[2], f[1])) for f in p.facts)
    return False


def same_value(p, e, L, what):
    """a write of a value that is equal to the one in place"""
    return what == 'val' and p.eq(dot(N(L), 'val'), e.a[1]) is True


def clean_calls(sc, deep=True):
    for e in (sc.events('dyn') if deep else sc.own('dyn')):
        if e.a[0] == 'engine::DCGDep::clean':
            yield e


def changed_term(e):
    return dot(('call', 'engine::DCGDep::clean', e.a[1]), 'changed')


def changed_fact(sc, e):
    s = e.scope
    t = changed_term(e)
    if s.is_true(t) or sc.is_true(t):
        return True
    if s.is_false(t) or sc.is_false(t):
        return False
    return None


def bit_of(sc, E, L):
    """elements X of succs(L) known in sc to be the holder of E's dirty bit"""
    return [X for X in elems(sc, succs(L)) if sc.eq(dot(X, 'effect'), dot(E, 'effect')) is True
            and sc.eq(dot(X, 'loc'), dot(E, 'loc')) is True]


def shared_checked(sc, E, S):
    """a complete pass over S in which all that share E's bit were asked and reported no change"""
    for d in sc.own('done'):
        if d.a[0] != S:
            continue
        i = sc.items.index(d)
        good, n = True, 0
        for l in sc.loops():
            if sc.items.index(l) > i:
                continue
            for s2, e in classes(l, S):
                X = e.a[1]
                if X == E:
                    continue
                n += 1
                if s2.eq(dot(X, 'effect'), dot(E, 'effect')) is False or s2.eq(dot(X, 'loc'), dot(E, 'loc')) is False:
                    continue
                asked = [c for c in clean_calls(s2, deep=False) if mentions(c.a[1], dot(X, 'dep')) and
                         (dot(X, 'loc') in c.a[1] or dot(E, 'loc') in c.a[1])]
                if not asked or any(changed_fact(s2, c) is not False for c in asked):
                    good = False
        if good:
            return True
    return False


def dep_ok(ctx, sc, E, S, L):
    """why the iteration over dependency E may leave a change unnoticed; None if it does not"""
    bits = bit_of(sc, E, L)
    if any(sc.is_false(dot(X, 'dirty')) for X in bits):
        if not any(e for e in sc.events('write')):
            return None
    if sc.is_false(dot(E, 'dirty')) and not bits:
        return 'the dirty bit of a snapshot is consulted instead of the shared one'
    asked = [c for c in clean_calls(sc, deep=False) if mentions(c.a[1], dot(E, 'dep'))]
    if any(changed_fact(sc, c) is False for c in asked) and shared_checked(sc, E, S):
        return None
    if shared_checked(sc, E, S):
        return None
    return 'a dirty dependency is not asked (with all those that share its dirty bit) when ' + conds(sc)


def clear_unjustified(ctx, sc, S, L):
    """None: nothing cleared in this scope itself; '' justified; else why not"""
    out = None
    for e in sc.own('write'):
        l, X = edge_place(e.a[0])
        if l != L or e.a[1] != FALSE:
            continue
        out = ''
        Es = [E for E in elems(sc, S) if sc.eq(dot(X, 'effect'), dot(E, 'effect')) is True
              and sc.eq(dot(X, 'loc'), dot(E, 'loc')) is True]
        if not any(shared_checked(sc, E, S) for E in Es):
            return 'a dirty bit is cleared although not all dependencies that share it were asked, when ' + conds(sc)
    return out


def g_clear_only_validate(ctx, rep):
    """no operation but validation clears a dirty bit or alters existing edges"""
    for u in graph_units(ctx, rep) + role_unit(ctx, rep, 'EVAL', 'evaluates') + role_unit(ctx, rep, 'DIRTY', 'dirties'):
        n = 0
        for p in u.rets:
            for e in p.events('write', 'extwrite'):
                L, E = edge_place(e.a[0])
                if L is not None:
                    n += 1
                    rep.ob('clear-only-validation', e.a[1] == TRUE, whr(u), 'outside validation a dirty bit is only ever set', p)
        rep.ob('clear-only-validation', True, whr(u), '%d writes of dirty bits' % n)


# ------------------------------------------------------------------ dependencies
def g_deps(ctx, rep):
    """what each kind of dependency answers when it is asked whether its target changed"""
    found = {f.tys[f.d['impl_self']]['s'].split('<')[0].split('::')[-1] for f in ctx.impls('DCGDep', 'clean')}
    known = {'AllocStructuralThunk', 'AllocNominalThunk', 'AllocCell', 'ForceAbsDep', 'ForceMapDep', 'ForceDep'}
    for k in sorted(known - found):
        rep.missing('the dependency kind %s' % k)
    for f in ctx.impls('DCGDep', 'clean') + ctx.impls('DCGDep', 'dirty') + ctx.impls('DCGDep', 'is_absmap'):
        u = rep.use(ctx.unit(f))
        m = f.d['name']
        k = f.tys[f.d['impl_self']]['s'].split('<')[0].split('::')[-1]
        w = '%s of %s' % (m, k)
        if m == 'is_absmap':
            for p in u.rets:
                if k == 'ForceAbsDep':
                    rep.ob('dep-abs', variant(p.val) == 'Some', w, 'an abstract observation says that it is one', p)
                elif k != 'ForceAbsDep':
                    # a dependency that calls itself abstract is simply dirtied
                    rep.ob('dep-abs', True, w, show(p.val)[:40], p)
            continue
        li = param_of(f, 'Rc<engine::Loc>')
        L = P(li)
        n = 0
        for p in u.rets:
            a = agg(p.val, 'DCGRes')
            c = a.get('changed') if a else (dot(p.val, 'changed') if p.val[0] == 'call' else None)
            n += 1
            for e in graph_mutations(p):
                rep.ob('dep-no-effect', False, w, 'asking a dependency changes nothing itself: ' + show(e.a[0])[:60], p)
            if c == TRUE:
                # reporting a change is always sound; but an unchanged value must not be reported as changed
                exact = True
                if m == 'clean' and k == 'ForceDep':
                    nk, R = p.kindof(N(L)), dot(P(1), 'res')
                    exact = neq_of(c, lambda x, y: y == R and (x == dot(N(L), 'val') if nk == 'Mut' else x[0] == 'call'), p)
                elif k == 'ForceMapDep' and not p.kind_not_(N(L), 'Mut'):
                    exact = p.kindof(N(L)) == 'Mut' and map_compare(p, c, L)
                rep.ob('dep-answer', exact, w, 'reports a change only if the observed value differs', p)
                continue
            if m == 'dirty':
                ok = k == 'ForceMapDep' and map_compare(p, c, L)
                rep.ob('dep-dirty-answer', ok, w, 'an observer is exempt from dirtying only if the mapped value is unchanged: '
                       + show(c)[:80], p)
                continue
            if k == 'AllocStructuralThunk':
                rep.ob('dep-clean-answer', True, w, 'the content of a structural location never changes', p)
            elif k == 'ForceMapDep':
                rep.ob('dep-clean-answer', map_compare(p, c, L), w, 'compares the mapped value with the one observed: ' + show(c)[:80], p)
            elif k == 'ForceDep':
                nk = p.kindof(N(L))
                R = dot(P(1), 'res')
                if nk == 'Pure':
                    ok = True
                elif nk == 'Mut':
                    ok = neq_of(c, lambda x, y: x == dot(N(L), 'val') and y == R, p)
                else:
                    ev, va = role_calls(p, 'EVAL'), role_calls(p, 'VALIDATE')
                    if va:
                        A = va[0].a[2]
                        ok = L in A and P(1) in A and succs(L) in A and ('some', res_of(L)) in A and c[0] == '.' and \
                            c[1][0] == 'call' and c[1][1] == 'VALIDATE' and p.kindof(res_of(L)) == 'Some'
                    else:
                        ok = len(ev) == 1 and L in ev[0].a[2] and neq_of(c, lambda x, y: x[0] == 'call' and x[1] == 'EVAL' and y == R, p)
                rep.ob('dep-clean-answer', ok, w, 'compares the current value of the target with the one observed: ' + show(c)[:100], p)
            else:
                rep.ob('dep-clean-answer', False, w, 'does not report a change: ' + show(c)[:80], p)
        if not (k == 'ForceAbsDep' and m == 'dirty'):
            rep.ob('dep-answer', n > 0, w, 'has a returning path')


def map_compare(p, c, L):
    """changed := dep.res != mapf(art at L, current value of L)"""
    def ok(x, y):
        return x == dot(P(1), 'res') and y[0] in ('fn', 'user', 'call') and mentions(y, dot(N(L), 'val'))
    return neq_of(c, ok, p)


# ------------------------------------------------------------------ mapped observations
def g_map(ctx, rep):
    """mapped and abstract observations record what they depend on"""
    for name, dn in (('force_map', 'ForceMapDep'), ('force_abs', 'ForceAbsDep')):
        u = op(ctx, rep, name)
        if not u:
            continue
        A = P(art_param(u.fn))
        L = dot(A, 'art', 'Loc.0')
        cases = set()
        for p in loc_paths(u, L):
            k = p.kindof(N(L))
            ps = succ_pushes(p)
            own = [(e, s, x) for e, s, x in ps if agg(s.get('dep'), dn) is not None]
            calls = [e for e in p.events('user', 'dyn') if e.k == 'user' or e.a[0].startswith('engine::AbsMapFam::map')]
            rep.ob('map-applies-once', len([e for e in calls if used(p.val, e)]) == 1, whr(u), 'the result is the mapped value', p)
            if k == 'Mut':
                rep.ob('map-of-current', mentions(p.val, dot(N(L), 'val')), whr(u), 'the current value of the cell is mapped', p)
                if own:
                    cases.add('push')
                    for e, s, x in own:
                        ok = s.get('loc') == L and variant(s.get('effect')) == OBS and s.get('dirty') == FALSE
                        rep.ob('map-edge', ok, whr(u), 'the edge is a clean observation of the cell', p)
                        d = agg(s['dep'], dn)
                        if dn == 'ForceMapDep':
                            rep.ob('map-edge-value', d.get('res') == p.val, whr(u), 'the edge remembers the mapped value', p)
                            rep.ob('map-edge-function', used_fn(p.val, d.get('mapf')), whr(u), 'the edge remembers the mapping', p)
                        rep.ob('map-edge-shared', some_of(x) == s['dep'], whr(u),
                               'the cell learns which dependency observes it', p)
                elif stack_empty(p):
                    cases.add('outer')
                elif any(s.get('loc') == L for e, s, x in ps):
                    cases.add('full')     # a full observation covers a mapped one
                else:
                    rep.ob('map-recorded', False, whr(u), 'a mapped observation is not recorded when ' + conds(p, 8), p)
                rep.ob('map-cell-runs-nothing', not role_calls(p, 'EVAL') and not role_calls(p, 'VALIDATE'), whr(u),
                       'no computation runs to read a cell', p)
            else:
                rep.ob('map-not-of-thunk', not own, whr(u), 'a thunk is demanded in full: its mapped value is not compared', p)
                rec = ps or stack_empty(p) or pure_exempt(p, L) or dup_witness(p, L)
                rep.ob('map-thunk-recorded', bool(rec), whr(u), 'a mapped demand of a thunk is recorded: ' + conds(p, 8), p)
                for e, s, x in ps:
                    d = agg(s.get('dep'), 'ForceDep')
                    ok = s.get('loc') == L and variant(s.get('effect')) == OBS and s.get('dirty') == FALSE and bool(d) \
                        and mentions(p.val, d.get('res'))
                    rep.ob('map-thunk-edge', ok, whr(u), 'the edge remembers the unmapped value that was demanded', p)
                cases.add('thunk')
                if k == 'Comp' and not role_calls(p, 'EVAL'):
                    rep.ob('map-thunk-validates', len(role_calls(p, 'VALIDATE')) == 1, whr(u), 'a cached result is validated', p)
        for c in ('push', 'outer', 'thunk'):
            rep.ob('map-cases', c in cases, whr(u, c), 'the case is analysed')


def used(val, e):
    """does the returned value come from this call?"""
    return mentions(val, e.a[0]) if e.k == 'user' else val[0] == 'call' and val[2] == e.a[1]


def used_fn(val, f):
    return mentions(val, f) if f is not None else False


# ------------------------------------------------------------------ node bookkeeping
def g_nodes(ctx, rep):
    """the lists of dependents and dependencies that the engine reads are the real ones"""
    # covered where they are inlined; here: the type identity that guards the casts
    for f in ctx.impls('GraphNode', 'res_typeid'):
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            t = f.tys[f.d['impl_self']]
            ok = p.val[0] == 'typeid' and '<' + p.val[1] + '>' in t['s']
            rep.ob('node-typeid', ok, whr(u), 'a node reports the type of its own content: ' + show(p.val)[:60], p)
