"""Operations fail only on misuse.

Every path of an operation that ends in an explicit failure (panic, unwrap, assertion, unreachable code) has, among the
facts that led there, one that the operation's contract excludes (misuse), or one that contradicts an invariant of the graph
which other groups establish.
"""
import re
from vocab import *
from canon import show, subterms, mentions
from paths import Loop
from rules_names import *


def target_locs(u):
    """the locations that an operation is asked to work on"""
    out = set()
    for i in range(u.fn.nargs):
        s = u.fn.tys[u.fn.locals[i + 1]]['s']
        if 'Rc<engine::Loc>' in s and 'Vec' not in s:
            out.add(P(i + 1))
        if s.lstrip('&').startswith('engine::Art<'):
            out.add(dot(P(i + 1), 'art', 'Loc.0'))
        if 'engine::EnumArt<' in s:
            out.add(dot(P(i + 1), 'Loc.0'))
        if 'engine::AbsArt<' in s:
            out.add(dot(P(i + 1), 'art', 'Loc.0'))
    return out


def stack_after_user(p):
    """raw facts about the stack after code of the user has run"""
    for f, v in p.st.facts.items():
        for x in subterms(f):
            if x[0] == 'mem' and len(x) == 3 and type(x[2]) is tuple and len(x[2]) == 3 and x[2][2] == 'u' \
                    and type(x[1]) is tuple and any(type(q) is tuple and q[:2] == ('f', 'engine::DCG.stack') for q in x[1][1]):
                yield f, v
                break


def last_search(p):
    """the collection that was searched, without success, right before the failure"""
    for x in reversed(p.items):
        if x.k == 'done':
            return x.a[0]
        if x.k not in ('trace', 'cast'):
            return None
    return None


def used_before(p, T):
    """has the computation on top of the stack an edge to the location already?"""
    for f, vs in p.facts.items():
        if f[0] == 'eq' and True in vs and any(y in T and TOPSUCCS in subterms(x) for x, y in ((f[1], f[2]), (f[2], f[1]))):
            return True
    for x in p.items:
        if isinstance(x, Loop):
            for sc, e in classes(x, TOPSUCCS):
                if any(sc.eq(dot(e.a[1], *fs), L) is True for L in T for fs in (('loc',), ('0', 'loc'), (0, 'loc'))):
                    return True
    return False


def from_preds(q, base=None):
    """is the location that of a back edge (of the node `base`), read in place or from a list that was made of them?"""
    while q[0] == '.' and q[2] in ('loc', '0', 0):
        q = q[1]
    if q[0] not in ('elem', 'last', 'entry'):
        return False
    c = q[1]
    fp = field_place(c)
    if fp[1] == 'preds':
        return base is None or fp[0] == base
    if c[0] != 'vec':
        return False
    ps = [x for x in subterms(c) if x[0] == '.' and x[2] == 'preds']
    return bool(ps) and (base is None or base in [x[1] for x in ps]) or not ps


def excuse(ctx, u, p, role=None):
    name = u.fn.d['name']
    T = target_locs(u)
    if any(running(p, t) for t in T):
        return 'cyclic demand'
    for f, vs in p.facts.items():
        k = f[0]
        if k == 'has' and False in vs:
            return 'dangling articulation: ' + show(f)
        if k == 'eq' and False in vs and any(y[0] in ('dyntypeid', 'typeid') for y in f[1:]):
            return 'type mismatch'
        if k == 'eq' and False in vs and any(x[0] == '.' and x[2] == 'prog_pt' or x[0] == 'call' and 'prog_pt' in str(x[1]) for x in f[1:]):
            return 'another function at the name'
        if k == 'eq' and True in vs:
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if a[0] == '.' and a[2] == 'loc' and a[1][0] == 'elem':
                    if a[1][1] == STACK and (b in T):
                        return 'cyclic demand'
                if from_preds(a, N(b)):
                    return 'an edge from a node to itself'
        if k == 'var':
            x = f[1]
            if ('is', 'Err') in vs and x[0] == 'call':
                return 'the writer failed'
            kinds = {v[1] if v[0] == 'is' else v for v in vs}
            if x[0] == 'node':
                if len(vs) > 1:
                    return 'changed by the computation that it ran'
                kind = next(iter(kinds))
                if x[1] in T:
                    if name in ('set', 'set_') and kind != 'Mut':
                        return 'not a cell'
                    if role in ('EVAL', 'VALIDATE') and kind != 'Comp':
                        return 'not a computation'
                    if role == 'DIRTY' and kind == 'Pure':
                        return 'not subject to change'
                else:
                    q = x[1]
                    if q[0] == '.' and q[2] == 'loc' and q[1][0] in ('elem', 'last'):
                        c = field_place(q[1][1])[1] if q[1][1] != STACK else 'stack'
                        if c in ('preds', 'stack') and kind != 'Comp':
                            return 'an observer or allocator that is not a computation'
                        if kind == 'Pure':
                            return 'an edge to a constant'
                    elif from_preds(q) and kind != 'Comp':
                        return 'an observer or allocator that is not a computation'
                    elif kind == 'Pure' or isinstance(kind, tuple):
                        return 'an edge to a constant'
            if x[0] == '.' and x[2] == 'res' and x[1][0] == 'node' and len(vs) > 1:
                return 'changed by the computation that it ran'
            if x[0] == '.' and x[2] == 'engine' and kinds == {'Naive'}:
                if name == 'set' or any(dot(P(i + 1), 'art') == g[1] and ('is', 'Loc') in w for i in range(u.fn.nargs)
                                        for g, w in p.facts.items() if g[0] == 'var'):
                    return 'an articulation of the other engine'
            if name == 'set' and x == dot(P(1), 'art') and kinds & {'Rc', 'Force'}:
                return 'not a cell of the graph'
        if name == 'set' and f == ('nonempty', STACK) and True in vs:
            return 'set inside a computation'
        if k == '.' and f[2] == 'dirty' and True in vs and TOPSUCCS in subterms(f):
            return 'reallocated after it was used by the same computation'
    for f, v in stack_after_user(p):
        if f[0] == 'nonempty' and v is False or f[0] == 'eq' and v is False:
            return 'stack discipline'
    c = last_search(p)
    b, fl = field_place(c) if c is not None else (None, None)
    if fl == 'succs' and b[0] == 'node' and searched_all(u, p, c):
        return 'a back edge without its edge'
    if used_before(p, T) and any(p.holds(('var', dot(N(L), 'res'))) == {('is', 'None')} for L in T):
        return 'reallocated after it was used by the same computation'
    return None


OPS = ('cell', 'put', 'thunk', 'set', 'force', 'force_map', 'force_cycle', 'ns', 'structural')


def g_misuse(ctx, rep):
    """every failing path of an operation is excused by misuse or by a broken invariant"""
    us = [(r, f) for r in ('EVAL', 'VALIDATE', 'DIRTY') for f in ctx.role(r)]
    pub = [f for f in pub_engine(ctx)]
    us += [(None, f) for f in pub]
    have = {f.d['name'] for f in pub}
    for n in OPS:
        if n not in have:
            rep.missing('the public operation ' + n)
    np = 0
    for r, f in us:
        u = rep.use(ctx.unit(f, panics=True))
        rep.ob('misuse-can-succeed', bool(u.rets) or f.d.get('ret_never'), u.name, 'the operation can succeed')
        for p in u.panics:
            np += 1
            e = excuse(ctx, u, p, r)
            rep.ob('misuse-only', e is not None, '%s: %s' % (u.name, p.val[2].replace('adapton::', '')), e or 'fails although nothing is wrong', p)
    rep.notes.append('failing paths of the engine: %d' % np)


# ------------------------------------------------------------------ the library
DERIVED = ('std::clone::Clone', 'std::cmp::PartialEq', 'std::cmp::Eq', 'std::hash::Hash', 'std::fmt::Debug')


def built_variants(ctx):
    """the (type, variant) pairs that the crate builds, other than by copying one"""
    if getattr(ctx, '_built', None) is None:
        out = set()
        for k, f in ctx.P.fns.items():
            if not f.blocks or (f.d.get('impl_trait') or '').split('<')[0] in DERIVED:
                continue
            for b in f.blocks:
                for st in b['s']:
                    r = st.get('r') or {}
                    if r.get('k') == 'agg' and r.get('adt'):
                        out.add((r['adt'], r.get('v')))
            for t in ctors_in(f.blocks, ctx.P.adts):
                out.add(t)
        ctx._built = out
    return ctx._built


def ctors_in(x, adts):
    """constructors used as functions"""
    if isinstance(x, dict):
        p = x.get('p')
        if isinstance(p, str) and '::' in p:
            t, _, v = re.sub(r'::<[^<>]*>', '', p).rpartition('::')
            if t in adts:
                yield t, v
        for v in x.values():
            yield from ctors_in(v, adts)
    elif isinstance(x, list):
        for v in x:
            yield from ctors_in(v, adts)


def lib_excuse(ctx, f, p):
    ty = None
    if f.d.get('impl_self') is not None:
        ty = f.tys[f.d['impl_self']]['s'].split('<')[0]
    for k, vs in p.facts.items():
        if k[0] == 'var':
            for v in vs:
                if v[0] == 'is' and v[1] == 'Nil' and f.d['name'] == 'list_pop' and not any(
                        g[0] == 'var' and w & {('is', 'Cons'), ('is', 'Art'), ('is', 'Rc')} for g, w in p.facts.items()):
                    return 'popping an empty list'
                if v[0] == 'is' and ty and k[1] == P(1) and v[1] in variants_of(ctx, ty) and (ty, v[1]) not in built_variants(ctx):
                    return 'a constructor that nothing builds: ' + v[1]
                if v[0] == 'is' and owners(ctx, v[1]) and not owners(ctx, v[1]) & {t for t, n in built_variants(ctx) if n == v[1]}:
                    return 'a constructor that nothing builds: ' + v[1]
                if f.d['name'] == 'split_atomic' and k[1] == P(1) and v[0] == 'is' and v[1] not in ('Nil', 'Leaf'):
                    return 'not an atomic trie'
        if k[0] == 'eq' and False in vs and f.d['name'] == 'prepend' and P(1) in k and \
                p.facts.get(('eq', ('int', 0), P(1))) == {False} and p.facts.get(('eq', ('int', 1), P(1))) == {False}:
            return 'not a bit'
        if any(x[0] == 'call' and x[1] == REC for x in subterms(k)) and 'is_empty' in str(k):
            return 'an element whose level exceeds the greatest level'
    return None


def owners(ctx, v):
    return {t for t, a in ctx.P.adts.items() if any(x['name'] == v for x in a['variants'])}


def variants_of(ctx, ty):
    return [v['name'] for v in ctx.P.adts[ty]['variants']] if ty in ctx.P.adts else ()


def g_lib_failures(ctx, rep):
    """the operations of the collection library fail only where their contract says so"""
    n = 0
    fs = list(lib_fns(ctx)) + [f for k, f in sorted(ctx.P.fns.items()) if f.blocks and f.kind == 'fn' and 'bitstring' in k]
    for f in fs:
        if (f.d.get('impl_trait') or '').split('<')[0] in DERIVED:
            continue
        u = lib_unit(ctx, rep, f, panics=True)
        if not u:
            continue
        n += 1
        w = f.d.get('path') or f.key
        for p in u.panics:
            e = lib_excuse(ctx, f, p)
            case = '/'.join(sorted(v[1] for k, vs in p.facts.items() if k[0] == 'var' and k[1] == P(1) for v in vs if v[0] == 'is'))
            rep.ob('library-fails-only-on-misuse', e is not None, w + (' ' + case if case else ''), e or 'fails although nothing is wrong', p)
        for p in u.rets:
            d = None
            for e in raw_events(p.st.events, ('call',)):
                if e[1] != 'thunk' or len(e[3]) < 5:
                    continue
                d = d or Den(u, p.st.facts, 4)
                if d.infeasible:
                    break
                nc, pp, clo, arg, spur = (d.N(x) for x in e[3][:5])
                if clo[0] == 'clo':
                    for q in u.closure(clo, [arg, spur], p.st.facts):
                        if q.kind != 'ret':
                            rep.ob('library-fails-only-on-misuse', lib_excuse(ctx, f, q) is not None, w, 'the thunk %s fails' % show(nc)[:60], q)
    rep.ob('library-fails-only-on-misuse', n >= 60, 'catalog', 'operations analysed: %d' % n)


# ------------------------------------------------------------------ recursion ends
NOT_SUB = ('hd', 'nm', 'lev', 'x', 'bs', 'meta')


def smaller(t):
    """is t a proper part of what the function was given (what an articulation in it holds included), or what is left of it?"""
    if type(t) is not tuple or not t:
        return False
    if t[0] == 'call' and type(t[1]) is str:
        if t[1].startswith('part:'):
            return t[1].split('.')[-1] not in NOT_SUB
        if t[1].startswith('out') and t[2] and t[2][0][0] == 'call':        # what a call on a part gave back
            return any(smaller(x) for x in t[2][0][2])
        return any(smaller(x) for x in t[2]) if t[1].split('::')[-1] in ('force', 'clone') else False
    if t[0] == '.':
        return len(t) > 2 and (t[1][0] in ('p', '.') or smaller(t[1]))
    if t[0] == 'op':
        return t[1] in ('Div', 'Shr', 'Sub') and t[3][0] == 'int' and t[3][1] >= (2 if t[1] == 'Div' else 1)
    return t[0] not in ('p', 'agg', 'int', 'b', 'str', 'tup')


def own_names(f):
    p = f.d.get('path') or f.key
    tr = f.d.get('impl_trait') or p.rpartition('::')[0]
    return ('F:' + p, 'M:%s::%s' % (tr.split('<')[0].split('::')[-1], f.d['name']))


def g_lib_recursion(ctx, rep):
    """every recursive call of the collection library is made on a proper part of what the function was given"""
    n = 0
    for f in lib_fns(ctx):
        if (f.d.get('impl_trait') or '').split('<')[0] in DERIVED:
            continue
        u = lib_unit(ctx, rep, f, panics=True)
        if not u:
            continue
        names = own_names(f)
        w = f.d.get('path') or f.key

        def check(d, terms, how, p):
            k = 0
            for t0 in terms:
                for t in subterms(t0):
                    if t[0] == 'call' and t[1] in names and t[2]:
                        k += 1
                        rep.ob('recursion-ends', any(smaller(d.N(x)) for x in t[2]), w,
                               'goes on%s with a part of what it was given: %s' % (how, show(t)[:140]), p)
            return k
        for p in u.rets + u.panics:
            d = Den(u, p.st.facts, 4)
            evs = [e for e in raw_events(p.st.events, ('call',))]
            terms = list(p.facts) + [('call', e[1], tuple(d.N(x) for x in e[3])) for e in evs] + ([p.val] if p.kind == 'ret' else [])
            n += check(d, terms, '', p)
            if d.infeasible:
                continue
            for e in evs:
                if e[1] == 'thunk' and len(e[3]) >= 5:
                    nc, pp, clo, arg, spur = (d.N(x) for x in e[3][:5])
                    if clo[0] == 'clo':
                        for q in u.closure(clo, [arg, spur], p.st.facts):
                            dq = Den(u, q.st.facts, 4)
                            n += check(dq, list(q.facts) + [('call', x[1], tuple(dq.N(y) for y in x[3])) for x in raw_events(q.st.events, ('call',))]
                                       + ([q.val] if q.kind == 'ret' else []), ' in its thunk', q)
    rep.ob('recursion-ends', n >= 40, 'catalog', 'recursive calls analysed: %d' % n)
