"""Outside effects and sources of irreproducibility: clocks, randomness, addresses, hash-map order, threads,
files, output and the environment, over every function of the crate's MIR."""
import re
from vocab import *
from canon import show

# what a run may not depend on, whoever asks
AMBIENT = [
    (r'^std::time::|^std::thread::(current|spawn|park|sleep|Builder|scope)|^std::process::|^std::net::|^std::sync::'
     r'|^core::sync::|^std::intrinsics::atomic', 'clocks, threads, processes and shared state'),
    (r'RandomState|BuildHasher|::hasher$|getrandom|^rand::|^core::arch::', 'randomness'),
    (r'::as_ptr$|::as_mut_ptr$|::into_raw$|::addr$|::expose_provenance|Argument.*::new_pointer|fmt::Pointer|::addr_of'
     r'|::strong_count$|::weak_count$|Weak<|::data_ptr$', 'addresses and reference counts'),
    (r'std::any::type_name|std::panic::Location|std::backtrace', 'names of types and places in the source'),
]
ORDER = r'HashMap.*(IntoIterator>::into_iter|::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if))$' \
        r'|HashSet.*(IntoIterator>::into_iter|::(iter|drain|retain|union|difference|intersection))$'
OUTPUT = r'^std::io::_?e?print|^std::io::(Write|stdout|stderr|stdin|Read)|^std::fs::|^std::os::|io::(Stdout|Stderr|BufWriter)'
ENV = r'^std::env::'
def mentions_fn(f):
    """paths of all the functions that f calls or takes as values"""
    out = []

    def walk(x, ln):
        if isinstance(x, dict):
            v = x.get('fn')
            if isinstance(v, dict):
                for q in (v.get('rp'), v.get('p')):
                    if q:
                        out.append((q, ln))
            ln = x.get('ln') or ln
            for y in x.values():
                walk(y, ln)
        elif isinstance(x, list):
            for y in x:
                walk(y, ln)
    walk(f.blocks, f.line)
    for p in f.prom.values():
        walk(p.blocks, f.line)
    return out


def known_keys(ctx):
    """functions that are known and documented to depend on something outside the program"""
    r = set()
    for f in crate_fns(ctx):
        p = f.d.get('path') or ''
        if p == 'engine::thunk_map' or p.startswith('engine::thunk_map::'):
            # the identity of the mapped function, which has no other: equal addresses only make calls share a thunk
            r.add((f.key, 'addresses and reference counts'))
        if f.name == 'empty' and f.file.endswith('trie.rs'):
            # a message when a trie is asked for that is deeper than tries can be
            r.add((f.key, 'output'))
    return r


def crate_fns(ctx):
    for f in ctx.P.fns.values():
        if f.crate == 'adapton' and f.blocks and not f.d.get('test') and '/.rustup/' not in f.file and not f.file.startswith('/rustc'):
            yield f


def helpers_of(ctx, keys):
    """functions only reached from the given ones: parts of them"""
    callers = {}
    for f in crate_fns(ctx):
        for k in ctx.P.callees(f):
            callers.setdefault(k, set()).add(f.key)
    out = set(keys)
    while True:
        more = {k for k, cs in callers.items() if k not in out and cs <= out and ctx.P.fns[k].crate == 'adapton'}
        if not more:
            return out
        out |= more


def g_effects(ctx, rep):
    diag = ctx.P.diagnostics()
    dclo = set()
    for k in diag:
        dclo |= ctx.P.static_closure(k)
    # parts of the debugging modes: functions that only they call
    quiet = helpers_of(ctx, diag) | {k for k in dclo if ctx.P.fns[k].crate == 'adapton' and inside(ctx, k, 'wf::')}
    kk = known_keys(ctx)
    exempt = {}
    for k, w in kk:
        exempt.setdefault(w, set()).add(k)
    exempt = {w: helpers_of(ctx, ks) for w, ks in exempt.items()}
    n = 0
    io_fns, env_fns = {}, {}
    for f in crate_fns(ctx):
        n += 1
        name = f.d.get('path') or f.name
        refs = mentions_fn(f)
        eqs = any(q.endswith('PartialEq>::eq') or q == 'std::cmp::PartialEq::eq' for q, _ in refs)
        bad = None
        for q, ln in refs:
            for pat, what in AMBIENT:
                if re.search(pat, q) and f.key not in exempt.get(what, ()) and not re.search('LocalKey', q):
                    bad = (q, ln, what)
            if q.endswith('::ptr_eq') and not eqs:
                bad = (q, ln, 'addresses')
            if re.search(ORDER, q) and f.key not in quiet and not reflects(f):
                bad = (q, ln, 'the order of a hash map')
            if re.search(OUTPUT, q):
                io_fns[f.key] = (q, ln)
            if re.search(ENV, q):
                env_fns[f.key] = (q, ln)
        for c, ln in casts(f):
            if f.key not in exempt.get('addresses and reference counts', ()):
                bad = (c, ln, 'addresses')
        rep.ob('no-ambient', bad is None, f.where(bad[1] if bad else None),
               '%s: depends on %s through %s' % (name, bad[2], bad[0]) if bad else 'depends on nothing outside the program')
    ops = [f for f in operations(ctx) if f.key not in quiet]
    for f in ops:
        where = f.d.get('path') or f.name
        clo = closure_without(ctx, f.key, quiet)
        out = [k for k in clo if k in io_fns and k not in exempt.get('output', ())]
        rep.ob('no-output', not out, where, 'writes by way of %s (%s)' % (ctx.P.fns[out[0]].d.get('path'), io_fns[out[0]][0])
               if out else 'writes nothing, unless a debugging mode does')
        if is_new(f):
            continue
        env = [k for k in closure_without(ctx, f.key, quiet | news(ctx)) if k in env_fns] 
        rep.ob('no-environment', not env, where, 'reads the environment in %s' % ctx.P.fns[env[0]].d.get('path')
               if env else 'does not read the environment')
    rep.need(ops, 'the operations of the engine')
    flags(ctx, rep)


def reflects(f):
    return (f.d.get('path') or '').endswith('::reflect') or 'reflect::' in (f.d.get('path') or '')


def casts(f):
    for b in f.blocks:
        for s in b['s']:
            r = s.get('r') or {}
            if r.get('k') == 'cast' and 'Expose' in str({k: v for k, v in r.items() if isinstance(v, str)}):
                yield 'a cast of a pointer to a number', s.get('ln') or b['t'].get('ln') or f.line


def inside(ctx, k, mod):
    return mod in (ctx.P.fns[k].d.get('path') or '')


def is_new(f):
    return f.name in ('new', 'init_dcg') or 'engine::manage' in (f.d.get('path') or '')


def news(ctx):
    return {f.key for f in crate_fns(ctx) if is_new(f) and f.file.endswith('engine.rs')}


def closure_without(ctx, key, skip):
    seen, todo = {key}, [key]
    while todo:
        for y in ctx.P.callees(ctx.P.fns[todo.pop()]):
            if y not in seen and y not in skip:
                seen.add(y)
                todo.append(y)
    return seen


def operations(ctx):
    """what programs call: functions of the engine, the macros and the library, and their trait methods"""
    out = []
    for f in crate_fns(ctx):
        p = f.d.get('path') or ''
        if f.kind != 'fn' or 'wf::' in p or 'reflect' in p or f.name == 'fmt' or 'parse_val' in p:
            continue
        if f.file.endswith(('engine.rs', 'macros.rs', 'collections.rs', 'trie.rs', 'bitstring.rs')):
            out.append(f)
    return out


DOCUMENTED = [('ADAPTON_NO_PURITY', 'use_purity_optimization', False), ('ADAPTON_STRUCTURAL', 'ignore_nominal_use_structural', True),
              ('ADAPTON_CHECK_DCG', 'check_dcg_is_wf', True), ('ADAPTON_WRITE_DCG', 'write_dcg', True),
              ('ADAPTON_GMLOG_DCG', 'gmlog_dcg', True)]


def flags(ctx, rep):
    for f in ctx.impls('Adapton', 'new'):
        if f.tys[f.d['impl_self']]['s'] != 'engine::DCG':
            continue
        u = rep.use(ctx.unit(f, opaque=()))
        for p in u.rets:
            st = agg(p.val)
            if st is None or agg(st.get('flags')) is None:
                continue
            fl = agg(st['flags'])
            for fact in p.facts:
                for x in subterms(fact):
                    if x[0] == 'call' and 'env::var' in str(x[1]):
                        names = [y[1] for y in subterms(x) if y[0] == 'str']
                        rep.ob('mode-set', all(n in [d[0] for d in DOCUMENTED] for n in names), u.name,
                               'the modes depend on the documented variables only: %s' % ', '.join(names))
            for var, field, on in DOCUMENTED:
                v = fl.get(field)
                got = None
                for fact, vs in p.facts.items():
                    if ('env::var(str(%s))' % var) in show(fact):
                        got = True if vs <= {('is', 'Ok')} else False if vs <= {('is', 'Err')} else None
                if v not in (TRUE_, FALSE_):
                    continue                       # computed in a way that is not read here
                want = on if got else not on
                if got is None:
                    rep.ob('mode-set', False, u.name, '%s is %s, whether or not %s is set' % (field, v[1], var), p)
                else:
                    rep.ob('mode-set', v[1] == want, u.name, '%s is %s when %s is %s' % (field, v[1], var, 'set' if got else 'not set'), p)
            rep.ob('starts-empty', st.get('table') == ('newmap',), u.name, 'a new engine has no locations: %s' % short(st.get('table')), p)
            rep.ob('starts-empty', st.get('stack') in (('vec', None, ()),), u.name, 'a new engine runs nothing: %s' % short(st.get('stack')), p)


TRUE_, FALSE_ = ('b', True), ('b', False)


def agg(t):
    if isinstance(t, tuple) and t and t[0] == 'agg':
        return dict(t[3])
    return None


CELLS = re.compile(r'\bstd::(cell|sync)::(?!Arc\b)|\bcore::cell::')


def closures_with_state(ctx, rep, files, what):
    """a function value that keeps state of its own gives different results at different calls"""
    n = 0
    for f in crate_fns(ctx):
        if f.d.get('kind') != 'closure' or not f.file.startswith(files):
            continue
        n += 1
        bad = None
        for c in f.d.get('captures', []):
            ty = f.tys[c[2]]['s'] if len(c) > 2 else ''
            if CELLS.search(ty) and not ty.startswith('&') and 'engine::DCG' not in ty:
                bad = (c[0], ty)
        rep.ob('no-state-in-functions', bad is None, f.where(None), '%s keeps state between its calls: %s of type %s' % (
            f.d.get('path'), bad[0], bad[1]) if bad else 'keeps no state')
    rep.need(n, what)


def g_state_engine(ctx, rep):
    closures_with_state(ctx, rep, ('src/engine.rs', 'src/macros.rs'), 'closures of the engine')


def g_state_library(ctx, rep):
    closures_with_state(ctx, rep, 'src/catalog', 'closures of the library')


def g_state(ctx, rep):
    """what outlives an operation is in the engine, in the trace under way, and in the counter of fresh names"""
    items = {}

    def walk(tys, x):
        if isinstance(x, dict):
            for k in ('item', 'static'):
                if k in x and 't' in x:
                    items[x[k]] = tys[x['t']]['s']
            for y in x.values():
                walk(tys, y)
        elif isinstance(x, list):
            for y in x:
                walk(tys, y)
    for f in ctx.P.fns.values():
        if f.crate != 'adapton' or f.d.get('test'):
            continue
        walk(f.tys, f.blocks)
        for p in f.prom.values():
            walk(f.tys, p.blocks)
    n = 0
    for it, ty in sorted(items.items()):
        local = '::{constant#' in it and '*const ' in ty
        t = ty.split('*const ')[-1] if local else ty
        if not local and not re.search(r'^[&*]', t) or it.startswith(('std::', 'core::')):
            continue
        n += 1
        ok = not CELLS.search(t) and not t.startswith('*mut') or 'engine::Globals' in t or 'engine::TraceSt' in t or \
            it.startswith('macros::') and re.fullmatch(r'std::cell::(Ref)?Cell<usize>', t) is not None
        rep.ob('known-state', ok, it, 'state that outlives the operations, outside the engine: ' + t if not ok else 'known, or constant')
    rep.need(n, 'the global state')
    for name, a in ctx.P.adts.items():
        if not a.get('local'):
            continue
        for v in a['variants']:
            for fd in v['fields']:
                ty = ctx.P.raw[a['crate']]['tys'][fd[1]]['s']
                if name == 'engine::Engine':
                    continue
                rep.ob('values-have-no-state', not CELLS.search(ty), '%s.%s' % (name, fd[0]),
                       'a value with hidden state: %s' % ty if CELLS.search(ty) else 'a plain value')
