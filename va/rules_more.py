"""Further obligations on the engine: scoping, borrows, traces, casts, identity, laziness, engine management."""
from rules_engine import *
from canon import subterms, mentions
from paths import canon_facts, Ev
import copy

GUARD_FIELD = {'user': 4, 'dyn': 5, 'call': 5}


def all_units(ctx, rep):
    """every public operation of the engine, and the functions identified by role"""
    us = graph_units(ctx, rep)
    for r, what in (('EVAL', 'evaluates'), ('VALIDATE', 'validates')):
        us = us + role_unit(ctx, rep, r, what)
    return us


# ------------------------------------------------------------------ namespaces
def final_write(p, place):
    w = [e for e in p.events('write') if e.a[0] == place]
    return w[-1] if w else None


def g_scoping(ctx, rep):
    """ns and structural change the naming context for their body only"""
    for name in ('ns', 'structural'):
        u = op(ctx, rep, name)
        if not u:
            continue
        place = PATH if name == 'ns' else ('flag', 'ignore_nominal_use_structural')
        seen = set()
        for p in u.rets:
            us = [e for e in p.events('user')]
            if not rep.ob('scope-runs-body', len(us) == 1 and us[0] in p.items, whr(u), 'the body runs exactly once', p):
                continue
            body = P(u.fn.nargs)
            rep.ob('scope-runs-body', us[0].a[0] == ('fnval', body) and mentions(p.val, us[0].a[0]), whr(u),
                   'what runs is the body and its result is returned: ' + show(p.val)[:80], p)
            if not is_dcg(p):
                rep.ob('scope-naive', not list(graph_mutations(p)), whr(u), 'without a graph there is no context to change', p)
                seen.add('naive')
                continue
            seen.add('dcg')
            i = p.items.index(us[0])
            before = [e for e in p.events('write') if e.a[0] == place and e in p.items and p.items.index(e) < i]
            after = [e for e in p.events('write') if e.a[0] == place and e in p.items and p.items.index(e) > i]
            if name == 'ns':
                ch = before[-1].a[1] if before else None
                ok = bool(ch) and variant(ch) == 'Child' and ch[3][0][1] == PATH and ch[3][1][1] == P(1) \
                    and all_initial(before[-1].raw[2])
                rep.ob('scope-enters', ok, whr(u), 'the body runs in the child of the current namespace with the given name', p)
            else:
                rep.ob('scope-enters', bool(before) and before[-1].a[1] == TRUE, whr(u), 'the body runs with structural identity', p)
            ok = bool(after) and after[-1].a[1] == place and all_initial(after[-1].raw[2])
            rep.ob('scope-restores', ok, whr(u), 'the context is as before when the operation returns', p)
            for e in graph_mutations(p):
                rep.ob('scope-changes-only-context', e.a[0] == place, whr(u), 'nothing else is changed: ' + show(e.a[0])[:60], p)
        for s in ('dcg', 'naive'):
            rep.ob('scope-cases', s in seen, whr(u, s), 'the case is analysed')
    # nobody else changes it, except for a computation's own extent
    for u in all_units(ctx, rep):
        if u.fn.d['name'] in ('ns', 'structural'):
            continue
        for p in u.rets:
            for place in (PATH, ('flag', 'ignore_nominal_use_structural')):
                w = final_write(p, place)
                rep.ob('scope-others', w is None or w.a[1] == place and all_initial(w.raw[2]), whr(u),
                       'the naming context is as before when the operation returns', p)
    for f in pub_engine(ctx):
        pass


def all_initial(t):
    """every read in the raw term is of the memory as it was when the function was entered"""
    rs = raw_reads(t)
    return bool(rs) and all(r[2] == 'i' for r in rs if any(x[0] == 'f' and (x[1].endswith('DCG.path') or 'Flags.' in x[1])
                                                            for x in r[1][1]))


def g_eval_context(ctx, rep):
    """a computation runs where it was allocated, on a frame of its own"""
    g_eval(ctx, rep)


def g_outer_only(ctx, rep):
    """only the outer layer can change the content of a cell by `set`"""
    u = op(ctx, rep, 'set')
    if not u:
        return
    n = 0
    for p in u.rets + u.panics:
        for e in graph_mutations(p):
            n += 1
            vals = nonempty_vals(p)
            rep.ob('outer-only', vals == {False}, whr(u), 'set has an effect only if no computation is running', p)
    for p in u.rets:
        rep.ob('outer-only', nonempty_vals(p) == {False}, whr(u), 'set returns only if no computation is running', p)
    rep.ob('outer-only', n > 0, whr(u, 'cases'), 'the case is analysed')


# ------------------------------------------------------------------ borrows
def guards_of(e):
    return e.raw[GUARD_FIELD[e.k]]


def bare_globals_shared(g):
    (root, proj), mode = g[1], g[2]
    return mode == 'shr' and root[0] == 'O' and root[1][0] == 'static' and not proj


def is_mapping(u, e):
    """the mapping of a mapped observation: a pure function of a value"""
    nm = u.fn.d['name']
    if e.k == 'user':
        return nm in ('force_map', 'clean', 'dirty') and (e.a[0] == ('fnval', P(2)) or mentions(e.a[0], dot(P(1), 'mapf')))
    return e.k == 'dyn' and e.a[0].startswith('engine::AbsMapFam::')


def g_borrow(ctx, rep):
    """no part of the engine is borrowed when foreign code runs"""
    us = all_units(ctx, rep) + [rep.use(ctx.unit(f)) for m in ('clean',) for f in ctx.impls('DCGDep', m)]
    n = 0
    dk = {f.key for f in ctx.role('DIRTY')}
    for u in us:
        for p in u.rets + u.panics:
            for e in p.events('user', 'dyn', 'call', 'conflict'):
                if e.k == 'conflict':
                    rep.ob('borrow-conflict', False, whr(u), 'a part of the engine is borrowed twice: ' + show(e.a[0])[:80], p)
                    continue
                if e.k == 'dyn' and e.a[0].split('::')[-1] in ('res_typeid', 'producer_typeid', 'force_typeid', 'dirty', 'is_absmap',
                                                               'debug_string', 'copy', 'reflect', 'eq', 'hash_seeded', 'prog_pt'):
                    continue
                if e.k == 'call' and e.a[1] in dk:
                    continue
                if e.k == 'dyn' and e.a[0].startswith('std::iter::') and not any(x[0] in ('clo', 'fn') for a in e.a[2:] for x in subterms(a)):
                    continue            # steps of an iterator of std
                if is_mapping(u, e):
                    continue
                n += 1
                bad = [g for g in guards_of(e) if not bare_globals_shared(g)]
                rep.ob('borrow-free', not bad, whr(u), 'nothing of the engine is borrowed when %s runs' %
                       ('the given function' if e.k == 'user' else e.a[0]), p)
    rep.ob('borrow-free', n >= 30, 'engine', 'calls out of the engine: %d' % n)


def g_stack_balanced(ctx, rep):
    """every frame that is pushed is popped, by every operation"""
    for u in graph_units(ctx, rep):
        for p in u.rets:
            for e in p.events('push', 'pop', 'insert', 'remove', 'setd', 'write'):
                rep.ob('stack-untouched', e.a[0] != STACK, whr(u), 'operations leave the stack of running computations alone', p)


# ------------------------------------------------------------------ traces
def trace_kind(e):
    """(delta, effect name or None)"""
    for x in subterms(e.a[1]):
        if x[0] == 'agg' and x[1].endswith('trace::Effect'):
            return e.a[0], x[2]
    return e.a[0], None


def g_traces(ctx, rep):
    """begin and end marks of effects match on every path"""
    us = all_units(ctx, rep) + role_unit(ctx, rep, 'DIRTY', 'dirties')
    for f in ctx.impls('DCGDep', 'clean') + ctx.impls('DCGDep', 'dirty'):
        us.append(rep.use(ctx.unit(f)))
    total = 0
    for u in us:
        if u.fn.d['name'] in ('debug_begin', 'debug_end'):
            continue
        for p in u.rets:
            for sc in p.scopes():
                d, low, bad = 0, 0, False
                for e in sc.own('trace'):
                    if e.a[0] is None:
                        bad = True
                        continue
                    total += 1
                    d += e.a[0]
                    low = min(low, d)
                    bad |= any(x == 'bad' for x in subterms_flat(e.a[1]))
                rep.ob('trace-balanced', d == 0 and low >= 0 and not bad, whr(u),
                       'effects that begin end, in order, on every path', p)
    rep.ob('trace-balanced', total >= 40, 'engine', 'trace marks: %d' % total)


def subterms_flat(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            st.extend(x)
        else:
            yield x


def trace_effects(sc):
    return [trace_kind(e)[1] for e in sc.events('trace') if trace_kind(e)[1]]


def g_trace_events(ctx, rep):
    """the trace tells what happened: which effect, on which location"""
    for name, L in (('force', dot(P(1), 'art', 'Loc.0')), ('force_cycle', dot(P(1), 'art', 'Loc.0'))):
        u = op(ctx, rep, name)
        if not u:
            continue
        for p in loc_paths(u, L):
            k = p.kindof(N(L))
            if running(p, L):
                continue
            tr = [t for e in p.events('trace') for t in sorted(set(force_cases(e)))]
            if k in ('Mut', 'Pure'):
                want = 'RefGet'
            elif role_calls(p, 'EVAL'):
                want = 'CompCacheMiss'
            else:
                want = 'CompCacheHit'
            rep.ob('trace-force', tr == [want], whr(u), 'a demand is traced as %s: %s' % (want, tr), p)
    for name in ('cell', 'thunk'):
        u = op(ctx, rep, name)
        if not u:
            continue
        for p in u.rets:
            L = ret_loc(p)
            if L is None or struct_id(L):
                continue
            tr = [alts(e) for e in p.events('trace')]
            tr = [[x[0] for x in a] for a in tr if any(x and x[0][2] == 'Alloc' for x in a)]
            rep.ob('trace-alloc', len(tr) == 1 and all(x[2] == 'Alloc' for x in tr[0]), whr(u), 'an allocation is traced once', p)
            if len(tr) != 1:
                continue
            case = {x[2] for t in tr[0] for x in subterms(t) if x[0] == 'agg' and x[1].endswith('trace::AllocCase')}
            kind = {x[2] for t in tr[0] for x in subterms(t) if x[0] == 'agg' and x[1].endswith('trace::AllocKind')}
            rep.ob('trace-alloc-case', case == ({'LocFresh'} if fresh(p, L) else {'LocExists'}), whr(u),
                   'a fresh allocation is traced as fresh, another is not: %s' % case, p)
            rep.ob('trace-alloc-kind', kind == {'RefCell' if name == 'cell' else 'Thunk'}, whr(u), 'the kind of node is told: %s' % kind, p)


def alts(e):
    """the effects that a trace mark may push, by alternative"""
    v = e.a[1]
    if type(v) is tuple and v and v[0] == 'alt':
        v = v[1]
    else:
        v = (v,)
    return [[x for x in subterms(a) if x[0] == 'agg' and x[1].endswith('trace::Effect')] for a in v]


def force_cases(e):
    return [x[2] for x in subterms(e.a[1]) if x[0] == 'agg' and x[1].endswith('trace::ForceCase')]


# ------------------------------------------------------------------ casts
def strip(t):
    return t.replace('std::boxed::', '').replace(', std::alloc::Global', '').lstrip('&*').replace('mut ', '').replace('const ', '').strip()


def g_casts(ctx, rep):
    """a reference of unknown type is used at a type only after the type was checked"""
    fs = {f.key: f for f in pub_engine(ctx)}
    for r in ('EVAL', 'VALIDATE', 'DIRTY'):
        for f in ctx.role(r):
            fs[f.key] = f
    for f in ctx.P.fns.values():
        tr = (f.d.get('impl_trait') or '').split('<')[0].split('::')[-1]
        if f.kind != 'closure' and f.key.startswith('adapton::engine') and tr in ('Producer', 'Force', 'PartialEq', 'DCGDep', 'GraphNode'):
            fs[f.key] = f
    n = 0
    for f in sorted(fs.values(), key=lambda f: f.key):
        u = ctx.unit(f)
        hit = False
        for p in u.rets + u.panics:
            for sc in p.scopes():
                for e in sc.own('cast'):
                    src, dst = strip(e.a[0]), strip(e.a[1])
                    if src == dst or dst == '()':
                        continue
                    hit = True
                    n += 1
                    ok = cast_guarded(sc, e, src, dst)
                    rep.ob('cast-checked', ok, '%s in %s' % (dst, e.raw[4][0].split('::', 1)[-1]),
                           'the cast from %s is made only after a comparison of type identities' % src, p)
        if hit:
            rep.use(u)
    rep.ob('cast-checked', n >= 5, 'engine', 'unchecked casts: %d' % n)
    for tr, m, want in (('GraphNode', 'res_typeid', None), ('Producer', 'producer_typeid', 'self'), ('Force', 'force_typeid', 'self')):
        fs = ctx.impls(tr, m)
        if not fs:
            rep.missing('%s::%s' % (tr, m))
        for f in fs:
            u = rep.use(ctx.unit(f))
            st = f.tys[f.d['impl_self']]['s']
            for p in u.rets:
                t = p.val[1] if p.val[0] == 'typeid' else None
                ok = t is not None and (t == st if want else '<' + t + '>' in st)
                rep.ob('cast-identity', ok, whr(u), 'the type identity given is that of the object: ' + show(p.val)[:60], p)


def cast_guarded(sc, e, src, dst):
    v = e.a[2]
    for x in unwraps(v):
        for f in sc_facts(sc):
            if f[0] != 'eq' or not sc.is_true(f):
                continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if a[0] == 'dyntypeid' and a[2] == x and b[0] == 'typeid':
                    m = a[1].split('::')[-1]
                    inner = dst
                    while inner.startswith('Box<') and inner.endswith('>'):
                        inner = inner[4:-1]
                    if m == 'res_typeid' and inner == 'engine::Node<%s>' % b[1]:
                        return True
                    if m in ('producer_typeid', 'force_typeid') and inner == b[1]:
                        return True
    return False


def unwraps(v):
    yield v
    while type(v) is tuple and v and v[0] in ('ref', 'deref', 'box'):
        v = v[1]
        yield v


# ------------------------------------------------------------------ names
def hash_inputs(t):
    """the terms that are hashed to give t"""
    return t[1:] if type(t) is tuple and t and t[0] == 'hashof' else None


def name_parts(t):
    a = agg(t, 'Name')
    return (a['hash'], a['symbol']) if a else (None, None)


def g_names(ctx, rep):
    """names are determined by how they were built, and names built differently are different"""
    made = {}
    spec = {'name_unit': 0, 'name_pair': 2, 'name_of_hash64': 1, 'name_of_usize': 1, 'name_of_isize': 1, 'name_of_string': 1,
            'name_of_str': 1, 'name_fork': 1, 'name_fork3': 1, 'name_fork4': 1}
    for nm, n in spec.items():
        u = op(ctx, rep, nm)
        if not u:
            continue
        rep.ob('name-total', len(u.rets) >= 1 and not u.panics, whr(u), 'a name is always built')
        for p in u.rets:
            rep.ob('name-deterministic', not any(x[0] in ('unknown', 'rand', 'any') for x in subterms(p.val)) and
                   not list(p.events('user', 'dyn')), whr(u), 'the name depends on nothing but the arguments: ' + show(p.val)[:120], p)
            if nm == 'name_unit':
                for k, f in sorted(ctx.P.fns.items()):      # a constant, or what a static is initialised with
                    if p.val[0] == 'static' and p.val[1] in k and f.blocks or p.val[0] == 'agg' and f is u.fn:
                        for q in rep.use(ctx.unit(f)).rets:
                            s = name_parts(q.val)[1]
                            if s and s[0] == 'agg':
                                rep.ob('name-unit', made.setdefault(nm, (s[2], None))[0] == s[2], k, 'the unit name has one symbol', q)
                continue
            vs = tup(p.val) or (p.val,)
            want = {'name_fork': 2, 'name_fork3': 3, 'name_fork4': 4}.get(nm, 1)
            rep.ob('name-count', len(vs) == want, whr(u), 'gives %d names' % want, p)
            for v in vs:
                h, s = name_parts(v)
                if not rep.ob('name-built', s is not None and s[0] == 'agg', whr(u), 'a name with a symbol: ' + show(v)[:100], p):
                    continue
                for i in range(1, n + 1):
                    rep.ob('name-hash-depends', mentions(h, P(i)), whr(u), 'the hash depends on argument %d' % i, p)
                    if nm != 'name_of_hash64':
                        rep.ob('name-symbol-depends', mentions(s, P(i)), whr(u), 'the symbol contains argument %d' % i, p)
                        rep.ob('name-symbol-keeps', kept_whole(s, P(i)), whr(u), 'the symbol determines argument %d: %s' % (i, show(s)[:100]), p)
                if nm == 'name_of_hash64':
                    rep.ob('name-hash64', h == P(1), whr(u), 'the name has the given hash', p)
                else:
                    rep.ob('name-hash-hashed', h[0] == 'hashof', whr(u), 'the hash is computed from the arguments: ' + show(h)[:80], p)
            if len(vs) > 1:
                hs = [name_parts(v)[0] for v in vs]
                ss = [sym_shape(name_parts(v)[1]) for v in vs]
                rep.ob('name-fork-distinct', len(set(hs)) == len(hs) and len(set(ss)) == len(ss), whr(u),
                       'the names are pairwise different', p)
                pre = any(a != b and inside(a, b) for a in ss for b in ss)
                rep.ob('name-fork-independent', not pre, whr(u), 'no name is an ancestor of another', p)
            else:
                h, s = name_parts(p.val)
                if s and s[0] == 'agg':
                    made[nm] = (s[2], h)
            if nm == 'name_pair':
                h, s = name_parts(p.val)
                parts = [x for _, x in s[3]] if s and s[0] == 'agg' else []
                ok = len(parts) == 2 and mentions(parts[0], P(1)) and not mentions(parts[0], P(2)) and mentions(parts[1], P(2)) \
                    and not mentions(parts[1], P(1))
                rep.ob('name-pair-ordered', ok, whr(u), 'a pair keeps its two components apart, in order', p)
                flat = [x for x in subterms(h) if x in (dot(P(1), 'hash'), dot(P(2), 'hash'), P(1), P(2))]
                rep.ob('name-pair-hash', bool(flat) and not any(x[0] == 'op' for x in subterms(h)), whr(u),
                       'the hash of a pair distinguishes the order of its components', p)
    vs = {}
    for nm, (v, h) in made.items():
        vs.setdefault(v, []).append(nm)
    for v, ns in vs.items():
        rep.ob('name-constructors-distinct', len(ns) == 1 or set(ns) == {'name_of_string', 'name_of_str'}, 'engine',
               'symbols of kind %s come from one constructor: %s' % (v, ns))
    rep.ob('name-string-str', made.get('name_of_str', (0,))[0] == made.get('name_of_string', (1,))[0], 'engine',
           'a string literal and a string give the same name')


LOSSY_OPS = ('BitAnd', 'BitOr', 'Rem', 'Div', 'Shl', 'Shr', 'Mul')
NARROW = ('u8', 'u16', 'u32', 'i8', 'i16', 'i32', 'f32', 'f64', 'bool', 'char')
LOSSY_CALLS = ('trim', 'lowercase', 'uppercase', 'truncate', 'replace', 'len', 'is_empty', 'chars', 'bytes', 'count', 'split',
               'strip', 'abs', 'rem_euclid', 'div_euclid', 'signum')
FORMAT_CALLS = ('new_debug', 'new_display', 'type_name_of_val', 'size_of_val', 'discriminant')    # nobody promises that they tell values apart


def kept_whole(t, x, hashed=False):
    """does t contain x other than through something that loses part of it?"""
    if t == x:
        return True
    if type(t) is not tuple or not t:
        return False
    if hashed and t[0] == 'call' and type(t[1]) is str and t[1].split('::')[-1] in FORMAT_CALLS:
        return False
    if t[0] == 'op' and t[1] in LOSSY_OPS or t[0] == 'cast' and t[1] in NARROW or t[0] in ('hashof', 'eq', 'len')[hashed:]:
        return False
    if t[0] == 'call' and type(t[1]) is str and t[1].split('::')[-1].split('<')[0].startswith(LOSSY_CALLS):
        return False
    return any(kept_whole(y, x, hashed) for y in t[1:] if type(y) is tuple) or any(
        kept_whole(z, x, hashed) for y in t[1:] if type(y) is tuple and (not y or type(y[0]) is tuple) for z in y)


def sym_shape(s):
    return s


def inside(a, b):
    return mentions(b, a)


# ------------------------------------------------------------------ identity of locations
def g_identity(ctx, rep):
    """the location of an allocation is the pair of the current namespace and the name (or the content)"""
    for name, deps in (('cell', {'val': 2}), ('thunk', {'pp': 2, 'arg': 4})):
        u = op(ctx, rep, name)
        if not u:
            continue
        seen = set()
        for p in u.rets:
            a = agg(p.val, 'Art')
            if not rep.ob('identity-art', bool(a), whr(u), 'an articulation is returned', p):
                continue
            k = variant(a['art'])
            if not is_dcg(p):
                seen.add('naive')
                if name == 'cell':
                    rep.ob('identity-naive', k == 'Rc' and a['art'][3][0][1] == P(2), whr(u), 'without a graph a cell is its value', p)
                else:
                    f = agg(a['art'][3][0][1], 'NaiveThunk') or {}
                    ok = k == 'Force' and f.get('fn_box') == P(3) and f.get('arg') == P(4) and f.get('spurious') == P(5) \
                        and f.get('prog_pt') == P(2)
                    rep.ob('identity-naive', ok, whr(u), 'without a graph a thunk is its function and argument', p)
                    rep.ob('identity-naive-lazy', not list(p.events('user')), whr(u), 'a thunk does not run when it is created', p)
                continue
            choice = p.kindof(P(1)) if name == 'thunk' else 'Nominal'
            struct = p.is_true(('flag', 'ignore_nominal_use_structural'))
            if choice == 'Eager':
                seen.add('eager')
                us = list(p.events('user'))
                ok = k == 'Rc' and len(us) == 1 and us[0].a[0] == ('fnval', P(3)) and us[0].a[1] == (P(4), P(5)) \
                    and mentions(p.val, us[0].a[0])
                rep.ob('identity-eager', ok, whr(u), 'an eager thunk is the value of its function', p)
                continue
            if choice == 'Naive':
                seen.add('choice-naive')
                f = agg(a['art'][3][0][1], 'NaiveThunk') or {}
                ok = k == 'Force' and f.get('fn_box') == P(3) and f.get('arg') == P(4) and f.get('spurious') == P(5)
                rep.ob('identity-naive', ok, whr(u), 'a naive thunk is its function and argument', p)
                continue
            L = ret_loc(p)
            l = agg(L, 'Loc') if L is not None else None
            if not rep.ob('identity-loc', bool(l), whr(u), 'a location is returned', p):
                continue
            rep.ob('identity-path', l['path'] == PATH, whr(u), 'the location is in the current namespace', p)
            rep.ob('identity-hash', mentions(l['hash'], l['id']) or all(mentions(l['hash'], x) for x in [l['id'][3][0][1]]),
                   whr(u), 'the hash of a location depends on its name or content', p)
            if choice == 'Nominal' and not struct:
                seen.add('nominal')
                n = P(1) if name == 'cell' else dot(P(1), 'Nominal.0')
                rep.ob('identity-name', variant(l['id']) == 'Nominal' and l['id'][3][0][1] == n, whr(u),
                       'the location has the given name', p)
            else:
                seen.add('structural')
                ok = variant(l['id']) == 'Structural' and hash_inputs(l['id'][3][0][1]) is not None
                rep.ob('identity-structural', ok and (struct or choice == 'Structural'), whr(u),
                       'otherwise the location is named by a hash: ' + show(l['id'])[:80], p)
                for w, i in deps.items():
                    rep.ob('identity-structural-content', kept_whole(l['id'], P(i), True), whr(u), 'the hash is that of the whole %s: %s' % (
                        w, show(l['id'])[:140]), p)
        for s in ('naive', 'nominal', 'structural') + (('eager', 'choice-naive') if name == 'thunk' else ()):
            rep.ob('identity-cases', s in seen, whr(u, s), 'the case is analysed')
    u = op(ctx, rep, 'put')
    if u:
        for p in u.rets:
            a = agg(p.val, 'Art')
            rep.ob('identity-put', bool(a) and variant(a['art']) == 'Rc' and a['art'][3][0][1] == P(1), whr(u),
                   'put gives an immutable articulation of the value', p)


def g_memo(ctx, rep):
    """a cached computation is reused only for the same function and the same argument"""
    u = op(ctx, rep, 'thunk')
    if not u:
        return
    pp, arg = P(2), P(4)
    n = 0
    for p in u.rets:
        L = ret_loc(p)
        if L is None or fresh(p, L):
            continue
        ch = [(e, w) for e, l, w in content_changes(p) if l == L]
        if any(w == 'insert' for e, w in ch):
            continue
        if struct_id(L):
            continue
        n += 1
        if p.kindof(N(L)) == 'Comp':
            prod = dot(N(L), 'producer')
            rep.ob('memo-type', any(f[0] == 'eq' and p.is_true(f) and any(x[0] == 'dyntypeid' and x[2] == prod for x in f[1:])
                                    for f in p.facts), whr(u), 'an existing thunk is kept only if its producer has the same type', p)
            rep.ob('memo-function', p.eq(dot(prod, 'prog_pt'), pp) is True, whr(u),
                   'an existing thunk is kept only if it has the same program point', p)
            kept = not any(w in ('res', 'producer') for e, w in ch)
            if kept:
                rep.ob('memo-argument', p.eq(dot(prod, 'arg'), arg) is True, whr(u),
                       'the cached result is kept only if the argument is equal', p)
            else:
                rep.ob('memo-invalidated', any(w == 'res' and is_none(e.a[1]) for e, w in ch), whr(u),
                       'the cached result of another argument is dropped', p)
    rep.ob('memo-function', n >= 4, whr(u, 'cases'), 'the case is analysed')


# ------------------------------------------------------------------ laziness
def g_lazy(ctx, rep):
    """editing and allocating run no computation"""
    for f in pub_engine(ctx):
        nm = f.d['name']
        if nm in ('force', 'force_cycle', 'force_map', 'force_abs', 'ns', 'structural'):
            continue
        if nm not in ('set', 'cell', 'thunk', 'put', 'thunk_map') and not nm.startswith('name_'):
            continue
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            if nm == 'thunk' and p.kindof(P(1)) == 'Eager':
                continue
            run = [e for e in p.events('user')] + [e for e in p.events('dyn') if e.a[0].split('::')[-1] in ('produce', 'clean', 'force')
                                                   ] + role_calls(p, 'EVAL') + role_calls(p, 'VALIDATE')
            # the mapping of a mapped observation is consulted when its cell changes
            run = [e for e in run if not (e.k == 'user' and nm in ('set', 'cell', 'thunk') and 'mapf' in show(e.a[0]))]
            rep.ob('lazy', not run, whr(u), 'no computation runs before it is demanded', p)
    for u in role_unit(ctx, rep, 'DIRTY', 'dirties'):
        for p in u.rets:
            run = role_calls(p, 'EVAL') + role_calls(p, 'VALIDATE') + [e for e in p.events('dyn') if e.a[0].split('::')[-1]
                                                                      in ('produce', 'clean', 'force')]
            rep.ob('lazy', not run, whr(u), 'dirtying runs no computation', p)


# ------------------------------------------------------------------ engine management
def g_manage(ctx, rep):
    """installing an engine gives back the one it replaces; a new graph engine is empty"""
    ENG = ('.', ('static', 'engine::GLOBALS'), 'engine')
    fresh_dcg = 0
    for nm, want in (('use_engine', 'arg'), ('init_engine', 'arg'), ('init_dcg', 'DCG'), ('init_naive', 'Naive')):
        u = op(ctx, rep, 'manage::' + nm)
        if not u:
            continue
        for p in u.rets:
            w = [e for e in p.events('write') if e.a[0] == ENG]
            rep.ob('manage-installs', len(w) == 1, whr(u), 'exactly one engine is installed', p)
            rep.ob('manage-returns-old', p.val == ENG and initial_engine(p.rawval), whr(u),
                   'the engine that was in use is returned: ' + show(p.val)[:60], p)
            others = [e for e in p.events(*MUTATORS) if e.k != 'unknown_hof' and e not in w
                      and (e.a[0][0] in ('static',) or mentions(e.a[0], ('static', 'engine::GLOBALS')))]
            rep.ob('manage-only-installs', not others, whr(u), 'nothing else changes', p)
            if not w:
                continue
            v = w[-1].a[1]
            if want == 'arg':
                rep.ob('manage-installs-given', v == P(1), whr(u), 'the given engine is installed', p)
            else:
                rep.ob('manage-installs-given', variant(v) == want, whr(u), 'an engine of this kind is installed', p)
            if want == 'DCG' and variant(v) == 'DCG':
                fresh_dcg += 1
                d = agg(v[3][0][1], 'DCG') or {}
                ok = d.get('table', ('x',))[0] == 'newmap' and is_empty(d.get('stack')) and variant(d.get('path')) == 'Empty'
                rep.ob('manage-fresh', ok, whr(u), 'a new graph engine has no locations, no running computation, and the root namespace', p)
    rep.ob('manage-fresh', fresh_dcg > 0, 'engine::manage', 'the case is analysed')
    for nm, kind in (('engine_is_naive', 'Naive'), ('engine_is_dcg', 'DCG')):
        u = op(ctx, rep, 'manage::' + nm)
        if not u:
            continue
        for p in u.rets:
            k = None
            for f, v in p.facts.items():
                if f == ('var', ENG) and len(v) == 1:
                    k = next(iter(v))[1]
            rep.ob('manage-kind', p.val == ('b', k == kind), whr(u), 'tells the kind of engine in use', p)


def initial_engine(t):
    rs = [r for r in raw_reads(t) if any(x[0] == 'f' and x[1].endswith('Globals.engine') for x in r[1][1])]
    return bool(rs) and all(r[2] == 'i' for r in rs)


def g_mapped_thunk(ctx, rep):
    """a mapped thunk demands what it maps and applies the mapping, at every demand"""
    from lib import LibUnit
    f = ctx.fn('engine::thunk_map')
    if f is None:
        return
    u = rep.use(LibUnit(ctx, f))
    i = art_param(f)
    other = P(1 + (i == 1))
    for p in u.rets:
        for t in subterms(p.val):
            a = agg(t, 'NaiveThunk')
            clo = a and a.get('fn_box')
            if not clo or clo[0] != 'clo':
                continue
            demand = ('call', 'force', (P(i),))
            for q in u.closure(clo, (a.get('arg'), a.get('spurious'))):
                if q.kind != 'ret':
                    continue
                us = list(q.events('user', 'dyn'))
                fs = [e for e in q.events('call') if e.a[0] == 'force']
                ok = q.val[0] == 'call' and q.val[2] == (demand,) and mentions(q.val[1], other) and len(us) == 1 and len(fs) == 1
                rep.ob('mapped-thunk', ok, whr(u), 'each demand of a mapped thunk demands what it maps, once, and gives what '
                       'the mapping makes of it: ' + show(q.val)[:120], q)
                rep.ob('mapped-thunk-effects', not list(q.events('write', 'push', 'insert', 'remove', 'setd')), whr(u),
                       'a demand of a mapped thunk keeps nothing', q)


def g_naive(ctx, rep):
    """without a graph: a cell is its value, a thunk is recomputed at each demand"""
    for name in ('force', 'force_cycle', 'force_map', 'force_abs'):
        u = op(ctx, rep, name)
        if not u:
            continue
        A = P(art_param(u.fn))
        art = dot(A, 'art')
        seen = set()
        for p in u.rets:
            k = p.kindof(art)
            if k == 'Loc':
                continue
            seen.add(k)
            rep.ob('naive-no-graph', not list(graph_mutations(p)) and not role_calls(p, 'EVAL') and not role_calls(p, 'VALIDATE'),
                   whr(u), 'outside the graph, a demand has no effect on it', p)
            runs = [e for e in p.events('user') if mentions(e.a[0], dot(art, 'Force.0')) or 'fn_box' in show(e.a[0])]
            if k == 'Rc':
                val = dot(art, 'Rc.0')
                rep.ob('naive-value', (p.val == val) if name in ('force', 'force_cycle') else mentions(p.val, val), whr(u),
                       'a value is given as it is (or mapped)', p)
                rep.ob('naive-runs', not runs, whr(u), 'no thunk runs', p)
            elif k == 'Force':
                # demanded through the thunk's own method
                dy = [e for e in p.events('dyn') if 'Force::force' in e.a[0]]
                rep.ob('naive-runs', len(runs) + len(dy) == 1, whr(u), 'a naive thunk runs exactly once per demand', p)
                src = runs[0].a[0] if runs else None
                rep.ob('naive-value', mentions(p.val, src) if src else any(p.val == ('call', e.a[0], e.a[1]) or mentions(p.val, e.a[1][0]) for e in dy),
                       whr(u), 'its result is given (or mapped)', p)
            if name in ('force_map', 'force_abs') and p.val[0] == 'call':
                # the mapping gets what was asked to be mapped: this articulation (or argument), and its value
                ar = p.val[2]
                v = ar[-1] if ar else ('none',)
                good = v == dot(art, 'Rc.0') if k == 'Rc' else v[0] == 'call' and mentions(v, dot(art, 'Force.0'))
                good = good and all(x[0] == 'p' for x in ar[:-1])
                rep.ob('naive-mapped', good, whr(u), 'the mapping is applied to the articulation that was demanded and its '
                       'value: ' + show(p.val)[:120], p)
        for s in ('Rc', 'Force'):
            rep.ob('naive-cases', s in seen, whr(u, s), 'the case is analysed')
    for f in ctx.impls('Force', 'force'):
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            us = list(p.events('user', 'dyn'))
            ok = len(us) == 1 and us[0].k == 'user' and us[0].a[0] == ('fnval', dot(P(1), 'fn_box')) \
                and us[0].a[1] == (dot(P(1), 'arg'), dot(P(1), 'spurious')) and mentions(p.val, us[0].a[0])
            rep.ob('naive-thunk', ok, whr(u), 'a naive thunk applies its own function to its own argument: ' +
                   (show(us[0].a[1])[:80] if us else 'nothing'), p)
    for f in ctx.impls('Producer', 'produce'):
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            us = [e for e in p.events('user', 'dyn')]
            ok = len(us) == 1 and us[0].k == 'user' and us[0].a[0] == ('fnval', dot(P(1), 'fn_box')) \
                and us[0].a[1] == (dot(P(1), 'arg'), dot(P(1), 'spurious')) and mentions(p.val, us[0].a[0])
            rep.ob('producer-runs', ok, whr(u), 'a computation applies its own function to its own argument: ' +
                   (show(us[0].a[1])[:80] if us else 'nothing'), p)


# ------------------------------------------------------------------ traces of the engine's own work
def marks(e):
    """[(effect, location or None, edge or None)] that a trace mark records, for each alternative"""
    v = e.a[1]
    alt = v[1] if type(v) is tuple and v and v[0] == 'alt' else (v,)
    return [m for a in alt for m in marks_of(a)]


def marks_of(a):
    out = []
    if True:
        for t in subterms(a):
            g = agg(t, 'Trace') if t[0] == 'agg' else None
            if g is None or 'effect' not in g:
                continue
            eff, L, E = variant(g['effect']), None, None
            for x in subterms(g.get('edge')):
                ed = agg(x, 'Edge') if x[0] == 'agg' else None
                if ed and 'succ' in ed:
                    L, E = reflected(ed.get('loc')), reflected(ed.get('succ'))
                    L = some_of(L) if type(L) is tuple and some_of(L) is not None else L
            out.append((eff, L, E))
    return out


def reflected(t):
    if type(t) is tuple and t and t[0] == 'call' and t[1].split('::')[-1] == 'reflect' and len(t[2]) == 1:
        return t[2][0]
    return None


def same_edge(sc, a, b):
    while type(a) is tuple and a and a[0] == 'upd':      # with the change of its mark
        a = a[1]
    if a == b:
        return True
    g = agg(a, 'Succ') if type(a) is tuple and a and a[0] == 'agg' else None
    if g:                                                # a copy of it
        eff = g.get('effect')
        return sc.eq(g.get('loc'), dot(b, 'loc')) is True and (
            sc.eq(eff, dot(b, 'effect')) is True or variant(eff) is not None and sc.kindof(dot(b, 'effect')) == variant(eff))
    return type(a) is tuple and sc.eq(dot(a, 'effect'), dot(b, 'effect')) is True and sc.eq(dot(a, 'loc'), dot(b, 'loc')) is True


def g_trace_graph(ctx, rep):
    """each edge that is dirtied, cleaned or removed, and each re-evaluation, is recorded as such"""
    seen = set()
    us = all_units(ctx, rep) + role_unit(ctx, rep, 'DIRTY', 'dirties') + [u for r in ('EVAL', 'VALIDATE') for u in role_unit(ctx, rep, r, r)]
    for u in {u.fn.key: u for u in us}.values():
        w = whr(u)
        for p in u.rets:
            for sc in p.scopes():
                mk = [(e, m) for e in sc.own('trace') for m in marks(e)]
                ds = {n: [m for e, m in mk if m[0] == n] for n in ('Dirty', 'CleanEdge', 'Remove')}
                wr = {TRUE: [], FALSE: []}
                for e in sc.own('write'):
                    L, E = edge_place(e.a[0])
                    if L is not None and e.a[1] in wr and not (sc.is_true if e.a[1] == TRUE else sc.is_false)(dot(E, 'dirty')):
                        wr[e.a[1]].append((L, E))
                for n, v, what in (('Dirty', TRUE, 'marked'), ('CleanEdge', FALSE, 'found clean')):
                    for L, E in wr[v]:
                        seen.add(n)
                        rep.ob('trace-' + n, len(ds[n]) == 1 and ds[n][0][1] == L and same_edge(sc, ds[n][0][2], E), w,
                               'a dependency that is %s is recorded so, once: %s' % (what, [show(m[2])[:60] for m in ds[n]]), p)
                    if not wr[v]:
                        rep.ob('trace-' + n, not ds[n], w, 'nothing is recorded as %s that is not' % what, p)
                # removal: the visit of an edge whose target forgets its dependent
                rm = [(b, f) for e in sc.own('write', 'setd') for b, f in [field_place(e.a[0])]
                      if f == 'preds' and b[0] == 'node' and type(b[1]) is tuple and b[1][0] == '.' and b[1][2] == 'loc'
                      and succ_edge(b[1][1])]
                for X in {b[1][1] for b, f in rm}:
                    seen.add('Remove')
                    rep.ob('trace-Remove', len(ds['Remove']) == 1 and same_edge(sc, ds['Remove'][0][2], X), w,
                           'a dependency that is removed is recorded so, once: %s' % [show(m[2])[:60] for m in ds['Remove']], p)
                if not rm:
                    rep.ob('trace-Remove', not ds['Remove'], w, 'nothing is recorded as removed that is not', p)
                # re-evaluation during validation
                if u.fn in ctx.role('VALIDATE'):
                    tr = [x for x in sc.own('trace', 'call') if x.k == 'trace' or x.a[0] == 'EVAL']
                    for i, x in enumerate(tr):
                        if x.k == 'call':
                            seen.add('CleanEval')
                            ok = 0 < i < len(tr) - 1 and any(m[0] == 'CleanEval' for y in tr[:i] for m in marks(y)) \
                                and tr[i - 1].k == 'trace' and tr[i - 1].a[0] == 1 and tr[i + 1].k == 'trace' and tr[i + 1].a[0] == -1
                            rep.ob('trace-CleanEval', ok, w, 'a re-evaluation runs inside its own record', p)
                    if not any(x.k == 'call' for x in tr):
                        rep.ob('trace-CleanEval', not any(m[0] == 'CleanEval' for e, m in mk), w, 'nothing is recorded as re-evaluated '
                               'that is not', p)
    for n in ('Dirty', 'CleanEdge', 'Remove', 'CleanEval'):
        rep.ob('trace-graph-cases', n in seen, 'engine ' + n, 'the case is analysed')


def g_trace_within(ctx, rep):
    """what happens because of an effect lies within its record"""
    seen = set()
    roles = {f.key: r for r in ('EVAL', 'VALIDATE', 'DIRTY') for f in ctx.role(r)}

    def walk(u, p, sc, op):
        op = list(op)
        w = whr(u)
        for x in sc.items:
            if not isinstance(x, Ev):
                for it in x.iters:
                    walk(u, p, it, op)
                continue
            if x.k == 'trace':
                if u.fn.d['name'] in ('cell', 'thunk') and any(m[0] == 'Remove' for m in marks(x)):
                    rep.ob('trace-within', any(m[0] == 'Alloc' for ms in op for m in ms), w,
                           'what is removed because of an allocation is recorded within the record of that one', p)
                if x.a[0] == 1:
                    op.append(marks(x))
                elif x.a[0] == -1 and op:
                    op.pop()
            elif x.k == 'call' and roles.get(x.a[1]) == 'DIRTY':
                D = [t for t in x.a[2] if type(t) is tuple and t and t[0] == '.' and t[2] == 'loc'
                     and type(t[1]) is tuple and t[1] and t[1][0] == 'elem' and field_place(t[1][1])[1] == 'preds']
                for t in D:
                    seen.add('Dirty')
                    rep.ob('trace-within', any(m[0] == 'Dirty' and m[1] == t for ms in op[-1:] for m in ms), w,
                           'what is marked because of a marked dependency is recorded within the record of that one', p)
                if not D and u.fn.key not in roles and u.fn.d['name'] in ('cell', 'thunk'):
                    seen.add('Alloc')
                    rep.ob('trace-within', any(m[0] == 'Alloc' for ms in op for m in ms), w,
                           'what is marked because of an allocation is recorded within the record of that one', p)
            elif x.k == 'call' and roles.get(x.a[1]) in ('EVAL', 'VALIDATE'):
                seen.add(roles[x.a[1]])
                rep.ob('trace-within', any(m[0] in ('Force', 'CleanEval') for ms in op[-1:] for m in ms), w,
                       'what a demand brings about is recorded within the record of the demand', p)
            elif x.k == 'dyn' and x.a[0].endswith('DCGDep::clean'):
                seen.add('CleanRec')
                rep.ob('trace-within', any(m[0] == 'CleanRec' for ms in op[-1:] for m in ms), w,
                       'what the validation of a computation brings about is recorded within its record', p)
    us = all_units(ctx, rep) + role_unit(ctx, rep, 'DIRTY', 'dirties') + role_unit(ctx, rep, 'VALIDATE', 'VALIDATE')
    for u in {u.fn.key: u for u in us}.values():
        for p in u.rets:
            walk(u, p, p, [])
    for n in ('Dirty', 'Alloc', 'EVAL', 'VALIDATE', 'CleanRec'):
        rep.ob('trace-graph-cases', n in seen, 'engine ' + n, 'the case is analysed')


def succ_edge(t):
    """is t an element of a list of dependencies of a node?"""
    return type(t) is tuple and t and t[0] == 'elem' and field_place(t[1])[1] == 'succs'


def alternatives(p, e):
    """[(what a trace mark pushes, the path with the conditions under which it does)], as far as these can hold on p"""
    v = e.raw[2]
    if not (type(v) is tuple and v and v[0] == 'alt'):
        yield e.a[1], p
        return
    for a, fs in zip(e.a[1][1], v[2]):
        for fz in fs:
            cf = canon_facts(list(fz))
            if any(f in p.facts and not (p.facts[f] & x) for f, x in cf.items()):
                continue
            q = copy.copy(p)
            q.facts = {**p.facts, **{f: p.facts.get(f, x) & x for f, x in cf.items()}}
            yield a, q


def g_trace_edges(ctx, rep):
    """each demand and allocation is recorded with its own source, target, kind, and whether it repeats an earlier one"""
    flags = set()
    for name in ('force', 'force_cycle', 'force_map', 'force_abs', 'cell', 'thunk'):
        u = op(ctx, rep, name)
        if not u:
            continue
        demand = name.startswith('force')
        A = P(art_param(u.fn)) if demand else None
        for p in u.rets:
            L = dot(A, 'art', 'Loc.0') if demand else ret_loc(p)
            if L is None or demand and p.kindof(dot(A, 'art')) != 'Loc':
                continue
            for e in p.own('trace'):
                for a, q in alternatives(p, e):
                    trace_edge(rep, u, name, p, q, L, a, flags)
            if demand and name not in ('force', 'force_cycle'):
                if p.kindof(N(L)) in ('Mut', 'Pure') and not running(p, L):
                    tr = [t for e in p.events('trace') for t in sorted(set(force_cases(e)))]
                    rep.ob('trace-force', tr == ['RefGet'], whr(u), 'a mapped demand of a cell is traced as RefGet: %s' % tr, p)
    for n in ('cell', 'thunk'):
        for f in ('ContentSame', 'ContentDiff'):
            rep.ob('trace-alloc-changed', (n, f) in flags, 'engine::' + n, 'the case %s is analysed' % f)
    for u in role_unit(ctx, rep, 'VALIDATE', 'VALIDATE'):
        own = {e.a[2][-1] for p in u.rets for e in p.events('call') if e.a[0] == 'EVAL'}
        for p in u.rets:
            for sc in p.scopes():
                for e in sc.own('trace'):
                    for eff, src, E in marks(e):
                        if eff not in ('CleanRec', 'CleanEval') or type(E) is not tuple:
                            continue
                        if src is not None and src[0] != 'agg' and own:
                            rep.ob('trace-' + eff, src in own, whr(u), 'it is recorded for the computation that is validated: %s' %
                                   show(src)[:60], p)
                        asked = [(s2, x.a[1][-1]) for s2 in [sc] + [z for q in sc.loops() for z in deep(q)] for x in s2.own('dyn')
                                 if x.a[0].endswith('DCGDep::clean')]
                        if asked:
                            ok = any(T == dot(E, 'loc') or s2.eq(T, dot(E, 'loc')) is True for s2, T in asked)
                            rep.ob('trace-' + eff, ok, whr(u), 'it is recorded for the dependency that is validated: %s' % show(E)[:60], p)


def deep(loop):
    for it in loop.iters:
        yield it
        for q in it.loops():
            yield from deep(q)


def trace_edge(rep, u, name, p, q, L, a, flags):
    w, demand = whr(u), name.startswith('force')
    for eff, src, E in marks_of(a):
        if eff not in ('Force', 'Alloc'):
            continue
        rep.ob('trace-edge-kind', eff == ('Force' if demand else 'Alloc'), w, 'the kind of effect is recorded: %s' % eff, p)
        flag = {x[2] for x in subterms(a) if x[0] == 'agg' and x[1].endswith('trace::ChangeFlag')}
        if len(flag) == 1 and not struct_id(L):
            if name == 'cell':
                same = q.kindof(N(L)) == 'Mut' and q.eq(dot(N(L), 'val'), P(2)) is True
                diff = q.kindof(N(L)) == 'Comp' or q.eq(dot(N(L), 'val'), P(2)) is False
            else:
                same = q.kindof(N(L)) == 'Comp' and q.eq(dot(N(L), 'producer', 'arg'), P(4)) is True
                diff = q.kindof(N(L)) == 'Mut' or q.eq(dot(N(L), 'producer', 'arg'), P(4)) is False
            if q.kindof(N(L)) != 'Pure':
                flag = next(iter(flag))
                rep.ob('trace-alloc-changed', same and not diff if flag == 'ContentSame' else diff and not same, w,
                       'an allocation is recorded as changed exactly if the content changes: %s' % flag, p)
                flags.add((name, flag))
        if type(src) is not tuple or type(E) is not tuple or agg(E, 'Succ') is None:
            continue
        g = agg(E, 'Succ')
        ne = nonempty_vals(q)
        ok = src == dot(TOP, 'loc') and ne != {False} or src[0] == 'agg' and src[2] == 'None' and ne != {True}
        rep.ob('trace-edge-source', ok, w, 'the source is the running computation, if one runs: %s' % show(src)[:60], p)
        to = reflected(g.get('loc'))
        rep.ob('trace-edge-target', (to if to is not None else g.get('loc')) == L, w, 'the target is the location: %s' %
               show(g.get('loc'))[:80], p)
        rep.ob('trace-edge-effect', variant(g.get('effect')) == eff, w, 'the recorded dependency has the kind of the effect', p)
        rep.ob('trace-edge-clean', g.get('dirty') == FALSE, w, 'what happens now is not out of date', p)
        dup = g.get('is_dup')
        if dup in (TRUE, FALSE) and demand:
            seen = dup_witness(p, L)
            mapped = name in ('force_map', 'force_abs') and p.kindof(N(L)) not in ('Comp', 'Pure')
            if mapped:
                rep.ob('trace-edge-again', dup == FALSE or seen, w, 'a demand is recorded as a repetition only if it is one', p)
            else:
                rep.ob('trace-edge-again', seen == (dup == TRUE), w, 'a demand is recorded as a repetition exactly if the '
                       'running computation made it before: %s' % show(dup), p)
        elif not demand:
            rep.ob('trace-edge-again', dup == FALSE, w, 'an allocation is not recorded as a repetition', p)


def g_trace_sessions(ctx, rep):
    """recording starts when none is under way, ends with what was recorded, and debugging marks nest"""
    def unit(path):
        f = ctx.fn(path)
        if f is None:
            rep.missing('the operation %s' % path)
            return None
        return rep.use(ctx.unit(f, traces=True))
    tstat = ('static', 'engine::TRACES')
    u = unit('engine::reflect_dcg::dcg_reflect_begin')
    if u:
        for p in u.rets:
            wr = [e for e in p.events('write', 'push', 'pop') if mentions(e.a[0], tstat)]
            rep.ob('trace-begin-alone', p.kindof(tstat) == 'None' and len(wr) == 1 and wr[0].k == 'write', whr(u),
                   'a recording starts only when none is under way', p)
            st = [g for e in wr for x in subterms(e.a[1]) if x[0] == 'agg' for g in [agg(x, 'TraceSt')] if g]
            one = [x for g in st for x in subterms(g['stack']) if x[0] == 'vec']
            ok = len(st) == 1 and {len(x[2]) for x in one} == {0, 1} and len(one) == 2
            rep.ob('trace-begin-empty', ok, whr(u), 'it starts with one level, without records', p)
        rep.ob('trace-begin-total', bool(u.rets), whr(u), 'a recording can start')
    u = unit('engine::reflect_dcg::dcg_reflect_end')
    if u:
        for p in u.rets:
            pops = [e for e in p.events('pop') if mentions(e.a[0], tstat)]
            wr = [e for e in p.events('write') if mentions(e.a[0], tstat)]
            ok = len(pops) == 1 and p.val == pops[0].a[1] or not pops and mentions(p.val, tstat)
            rep.ob('trace-end-result', ok, whr(u), 'what was recorded is returned: ' + show(p.val)[:80], p)
            ok = bool(wr) and variant(wr[-1].a[1]) == 'None' and wr[-1].a[0] == tstat
            rep.ob('trace-end-stops', ok, whr(u), 'recording stops', p)
        rep.ob('trace-end-total', bool(u.rets), whr(u), 'a recording can end')
    for name, d in (('debug_begin', 1), ('debug_effect', 0), ('debug_end', -1)):
        f = ctx.fn('engine::reflect_dcg::' + name)
        if f is None:
            rep.missing('the operation ' + name)
            continue
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            tr = list(p.events('trace'))
            rep.ob('trace-debug', len(tr) == 1 and tr[0].a[0] == d and not list(graph_mutations(p)), whr(u),
                   'a debugging mark %s' % {1: 'begins an extent', 0: 'stands alone', -1: 'ends an extent'}[d], p)
            if d >= 0 and len(tr) == 1:
                fx = [x for x in subterms(tr[0].a[1]) if x[0] == 'agg' and x[1].endswith('trace::Effect')]
                ok = len(fx) == 1 and fx[0][2] == 'Debug' and [v for k, v in fx[0][3]] == [P(1), P(2)]
                rep.ob('trace-debug-content', ok, whr(u), 'it carries its name and message: %s' % [show(x)[:80] for x in fx], p)
        rep.ob('trace-debug', bool(u.rets), whr(u), 'it can be made')
