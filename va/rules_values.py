"""Obligations on the library's own values: equality, hashing, copies."""
from rules_reflect import *

# fields that no comparison can look at (functions and the data that identity ignores by design)
OPAQUE_FIELDS = {'fn_box', 'spurious', 'phantom'}
# hash of the other fields, decided by the rules on names and locations
DERIVED_FIELDS = {('engine::Loc', 'hash')}
SKIP_TYPES = ('engine::DCG', 'engine::NaiveThunk', 'engine::wf::', 'parse_val::')
NAMING = ('engine::Name', 'engine::Loc', 'engine::ArtId', 'engine::NameSym', 'engine::Path', 'engine::NameChoice', 'macros::ProgPt')


def self_type(f):
    return f.tys[f.d['impl_self']]['s'].split('<')[0]


def value_impls(ctx, trait, name, only=None):
    """{type: method} for the types of the library"""
    out = {}
    for f in ctx.P.fns.values():
        d = f.d
        if f.kind == 'closure' or d.get('name') != name or not d.get('impl_self') or not f.key.startswith('adapton'):
            continue
        if (d.get('impl_trait') or '').split('<')[0] != trait:
            continue
        t = self_type(f)
        if t.startswith(SKIP_TYPES) or only is not None and t not in only:
            continue
        out[t] = f
    return out


def other(t):
    """the same part of the other value"""
    if t == P(1):
        return P(2)
    if type(t) is tuple:
        return tuple(other(x) for x in t)
    return t


def eq_facts(p):
    """pairs known equal, pairs known different on a path of a comparison that answers `ans`"""
    def split(a, b):
        x, y = tup(a), tup(b)
        if x is not None and y is not None and len(x) == len(y):
            for i, j in zip(x, y):
                yield from split(i, j)
        else:
            yield (a, b)
    facts = dict(p.facts)
    outs = []
    if p.val in (TRUE, FALSE):
        outs.append((p.val == TRUE, facts))
    else:
        v, neg = p.val, False
        while v[0] == 'not':
            v, neg = v[1], not neg
        for b in (True, False):
            outs.append((b != neg, dict(facts, **{}) if False else {**facts, v: {b}}))
    for ans, fs in outs:
        eqs, nes = set(), set()
        for f, v in fs.items():
            if f[0] in ('eq', 'ptreq') and len(v) == 1:
                b = next(iter(v))
                prs = list(split(f[1], f[2]))
                if b is True:
                    for a, c in prs:
                        eqs.add((a, c))
                        eqs.add((c, a))
                elif b is False and f[0] == 'eq':
                    nes.add(prs[0] if len(prs) == 1 else (f[1], f[2]))
        yield ans, fs, eqs, nes


def feasible(p, eqs):
    k1, k2 = p.kindof(P(1)), p.kindof(P(2))
    for a, b in eqs:
        if a[0] == 'discr' and b[0] == 'discr' and a[1] == P(1) and b[1] == P(2) and k1 and k2 and k1 != k2:
            return False
    return True


def kinds_equal(p, eqs, adt):
    """the constructor both values have on this path: (known to be the same?, set of constructors)"""
    ks = [v['name'] for v in adt['variants']]
    k1, k2 = p.kindof(P(1)), p.kindof(P(2))
    same = any(a[0] == 'discr' and a[1] == P(1) and b[0] == 'discr' and b[1] == P(2) for a, b in eqs) or (k1 and k1 == k2)
    poss = {k for k in ks if not p.kind_not_(P(1), k)} & {k for k in ks if not p.kind_not_(P(2), k)}
    return bool(same) or len(ks) == 1, poss


def field_term(adt, k, f):
    return dot(P(1), f) if adt['kind'] == 'struct' else dot(P(1), k + '.' + f)


def compared(t, eqs):
    """is part t of the first value known to equal the same part of the second?"""
    if (t, other(t)) in eqs:
        return True
    # a boxed thunk is compared part by part, together with its type
    sub = {a[2] for a, b in eqs if a[0] == '.' and a[1] == t and b == other(a)}
    ids = any(('typeid' in (a[0], b[0]) or 'dyntypeid' in (a[0], b[0])) for a, b in eqs)
    return ids and sub >= {'prog_pt', 'arg', 'id'}


def g_eq(ctx, rep, only=None):
    """two values are equal exactly if they have the same constructor and equal parts"""
    impls = value_impls(ctx, 'std::cmp::PartialEq', 'eq', only)
    n = 0
    for t, f in sorted(impls.items()):
        adt = ctx.P.adts.get(t)
        if not adt:
            continue
        u = rep.use(ctx.unit(f))
        w = t
        for p in u.rets:
            for ans, fs, eqs, nes in eq_facts(p):
                if not feasible(p, eqs):
                    continue
                n += 1
                same, poss = kinds_equal(p, eqs, adt)
                if ans:
                    if not rep.ob('eq-constructor', same, w, 'equal values have the same constructor', p):
                        continue
                    for k in poss:
                        for fl in next(v for v in adt['variants'] if v['name'] == k)['fields']:
                            if fl[0] in OPAQUE_FIELDS or (t, fl[0]) in DERIVED_FIELDS:
                                continue
                            ok = compared(field_term(adt, k, fl[0]), eqs)
                            rep.ob('eq-parts', ok, '%s.%s' % (w + ('::' + k if k != t.split('::')[-1] else ''), fl[0]),
                                   'equal values have equal parts', p)
                else:
                    k1, k2 = p.kindof(P(1)), p.kindof(P(2))
                    ok = any(other(a) == b or other(b) == a or a[0] in ('typeid', 'dyntypeid') for a, b in nes) \
                        or (k1 and k2 and k1 != k2) or not poss or not same and len(poss) > 1 and bool(nes)
                    rep.ob('eq-different', ok, w, 'values that differ have a different constructor or a different part', p)
        rep.ob('eq-total', not u.panics, w, 'a comparison gives an answer')
    rep.ob('eq-parts', n >= (8 if only else 30), 'comparisons', 'the case is analysed (%d outcomes)' % n)


def g_eq_names(ctx, rep):
    """names, locations and namespaces are equal exactly if they were built from equal parts"""
    g_eq(ctx, rep, NAMING)


def parts_of(t):
    """maximal projections of the value that a hashed term is made of"""
    out = set()

    def walk(x):
        if type(x) is not tuple or not x:
            return
        if x == P(1):
            out.add(x)
            return
        if x[0] == '.' or x[0] in ('some', 'discr'):
            y = x
            while type(y) is tuple and y and y[0] in ('.', 'some'):
                y = y[1]
            if y == P(1):
                out.add(x)
                return
            if x[0] == 'discr' and x[1] == P(1):
                out.add(x)
                return
        for z in x:
            walk(z)
    walk(t)
    return out


def covered(t, eqs, k, adtname):
    if t[0] == 'discr':
        return True
    x = t
    while True:
        if (x, other(x)) in eqs:
            return True
        if x[0] == '.' and (adtname, x[2].split('.')[-1]) in DERIVED_FIELDS and x[1] == P(1):
            return True
        if x[0] == '.' and x[1] != P(1):
            x = x[1]
            continue
        return False


def g_hash_eq(ctx, rep, only=None):
    """equal values have equal hashes"""
    eqi = value_impls(ctx, 'std::cmp::PartialEq', 'eq', only)
    hai = value_impls(ctx, 'std::hash::Hash', 'hash', only)
    n = 0
    for t, f in sorted(hai.items()):
        if t not in eqi or t not in ctx.P.adts:
            continue
        u, v = rep.use(ctx.unit(f)), rep.use(ctx.unit(eqi[t]))
        for p in u.rets:
            k = p.kindof(P(1))
            hs = [e.a[-1] for e in p.events('hash')]
            odd = [e for e in p.events('user', 'unknown_hof')]
            rep.ob('hash-function', not odd and not any(x[0] in ('rand', 'unknown') for h in hs for x in subterms(h)), t,
                   'the hash is a function of the value', p)
            for h in hs:
                for part in parts_of(h):
                    n += 1
                    bad = None
                    for q in v.rets:
                        for ans, fs, eqs, nes in eq_facts(q):
                            if not ans or not feasible(q, eqs) or k and q.kind_not_(P(1), k) or k and q.kind_not_(P(2), k):
                                continue
                            if not covered(part, eqs, k, t):
                                bad = q
                    rep.ob('hash-agrees', bad is None, t + ('::' + k if k else ''),
                           'what is hashed is equal for equal values: ' + show(part), bad or p)
    rep.ob('hash-agrees', n >= (6 if only else 30), 'hashes', 'the case is analysed (%d parts)' % n)


def g_hash_names(ctx, rep):
    """equal names, locations and namespaces have equal hashes"""
    g_hash_eq(ctx, rep, NAMING)


def is_copy(p, t, x):
    """is term t a copy of x (under the path's facts)?"""
    if t == x:
        return True
    if type(t) is not tuple or not t:
        return False
    if t[0] == 'agg':
        if t[2] != t[1].split('::')[-1] and p.kindof(x) != t[2]:
            return False
        for n, v in t[3]:
            f = n if t[2] == t[1].split('::')[-1] else t[2] + '.' + n
            y = ('some', x) if t[2] == 'Some' else dot(x, f)
            if not is_copy(p, v, y):
                return False
        return True
    if t[0] == 'box':
        return is_copy(p, t[1], x)
    if t[0] == 'call' and t[1].split('::')[-1] in ('copy', 'clone') and t[2] and t[2][0] == x:
        return True
    return False


def g_clone(ctx, rep):
    """a copy equals its original"""
    n = 0
    for f in sorted(ctx.P.fns.values(), key=lambda f: f.key):
        d = f.d
        if f.kind == 'closure' or not d.get('impl_self') or not f.key.startswith('adapton::'):
            continue
        tr = (d.get('impl_trait') or '').split('<')[0]
        if not (tr == 'std::clone::Clone' and d['name'] == 'clone' or tr in ('engine::Producer', 'engine::Force') and d['name'] == 'copy'):
            continue
        if self_type(f) in ('engine::DCG', 'engine::Engine'):
            continue
        u = rep.use(ctx.unit(f))
        for p in u.rets:
            n += 1
            rep.ob('copy-equal', is_copy(p, p.val, P(1)), self_type(f), 'a copy has the parts of the original: ' + show(p.val)[:100], p)
    rep.ob('copy-equal', n >= 20, 'copies', 'the case is analysed (%d)' % n)
