"""Obligations on the collection library: pattern matching, and operations that compute what they mean."""
from rules_reflect import *
from lib import LibUnit, ELIMS, CASES
from den import *
from den import call as dcall
from absint import Budget

COLL, TRIE = 'catalog::collections::', 'catalog::trie::'


def A(i):
    return ('p', 'arg%d' % i)


def lib_unit(ctx, rep, fn, opaque=(), panics=False):
    k = ('lib', fn.key, tuple(sorted(opaque)), panics)
    if k not in ctx.units:
        try:
            ctx.units[k] = LibUnit(ctx, fn, opaque, max_states=60000, panics=panics)
        except Budget:
            ctx.units[k] = None
    u = ctx.units[k]
    if u is not None:
        rep.use(u)
    return u


def lib_fn(ctx, rep, name, required=True):
    f = ctx.fn(name)
    if f is None and required:
        rep.missing('the operation %s' % name)
    return f


REC = L + 'tree_of_list_rec'
KNOWN_CALLS = ('part:', 'out', 'force', 'cell', 'put', 'fork', 'name_', 'M:', 'thunk')


def clean(t):
    """is the term made of what the caller gave and known operations only?"""
    if type(t) is not tuple:
        return True
    if not t:
        return True
    if type(t[0]) is not str:
        return all(clean(x) for x in t)
    k = t[0]
    if k in ('any', 'mem', 'proj', 'clo', 'vec', 'opaque', 'undef', 'some', 'hashof', 'hasher', 'fn'):
        return False
    if k == 'p':
        return True
    if k == 'eff':
        return all(clean(x) for x in t[1]) if type(t[1]) in (tuple, frozenset) else True
    if k == 'call':
        n = t[1]
        if type(n) is str:
            if n.startswith('F:') and n not in EQS and n != REC and ('List', n) not in SEQS and ('Tree', n) not in SEQS:
                return False
            if n == 'force' and t[2][0][0] == 'call' and t[2][0][1] == 'thunk':
                return False
            if not n.startswith(KNOWN_CALLS) and not n.startswith('F:'):
                return False
        return all(clean(x) for x in t[2])
    return all(clean(x) for x in t[1:])


def value(u, d, p):
    return d.N(u.I.deep(p.st, p.rawval))


def total(f):
    """a display function that never fails: what it does not understand, it shows as it is"""
    def g(x):
        try:
            return f(x)
        except Exception:
            return repr(x)[:400]
    return g


@total
def show_seq(s):
    return '[' + ', '.join(show_atom(a) for a in s) + ']'


@total
def show_atom(a):
    if a[0] == 'eff':
        return show_eff(a[1])
    if a[0] == 'e':
        return show(a[1])
    if a[0] in ('S', 'L'):
        return '%s..' % show(a[1])
    if a[0] in ('map', 'filt'):
        return '%s(%s, %s)' % ({'map': 'map', 'filt': 'filter'}[a[0]], show(a[1]), show_atom(a[2]))
    if a[0] == 'rev':
        return 'rev(%s)' % show_atom(a[1])
    if a[0] == 'op':
        return '%s(%s)' % (a[1], ', '.join(show_seq(x) for x in a[2:]))
    return str(a)


@total
def show_eff(t):
    if type(t) is frozenset:
        return '{%s}' % ' | '.join(sorted(show_eff(x) for x in t))
    if type(t) is tuple and t and type(t[0]) is tuple and t[0] and t[0][0] in ('e', 'S', 'L', 'op', 'filt', 'rev'):
        return show_seq(t)
    if type(t) is tuple and t and t[0] in ('eff', 'nil'):
        return '%s' % show_eff(t[1])
    return show(t) if type(t) is tuple else str(t)


def paths_of(rep, rule, u):
    """returning paths with their denotations; a panic where the caller did nothing wrong is reported"""
    for p in u.rets:
        d = Den(u, p.st.facts)
        if not d.infeasible:
            yield p, d


# ------------------------------------------------------------------ operations on sequences
SEQ_FNS = [
    # function, family of the result, meaning
    ('list_map_lazy', 'List', sp_map), ('list_map_eager', 'List', sp_map), ('list_map_eager2', 'List', sp_map),
    ('list_filter_lazy', 'List', sp_filter), ('list_filter_eager', 'List', sp_filter),
    ('list_reverse', 'List', sp_reverse), ('list_append', 'List', sp_append),
    ('list_merge', 'List', sp_merge), ('list_merge_wrapper', 'List', sp_merge),
    ('list_name_op', 'List', sp_second), ('list_name_art_op', 'List', sp_second),
    ('list_nil', 'List', lambda d: []), ('list_cons', 'List', lambda d, x, l: [('e', x)] + list(d.seq(l))),
    ('list_push', 'List', lambda d, l, x: [('e', x)] + list(d.seq(l))),
    ('list_name', 'List', sp_second), ('list_art', 'List', lambda d, a: list(d.seq(dcall('force', a)))),
    ('ListIntro::singleton', 'List', lambda d, x: [('e', x)]), ('ListIntro::name_art', 'List', sp_second),
    ('list_of_tree', 'List', sp_list_of_tree), ('filter_list_of_tree', 'List', sp_filter_tree),
    ('filter_tree_of_tree', 'Tree', sp_filter_tree), ('eager_tree_of_tree', 'Tree', sp_leaves),
    ('prune_tree_of_tree', 'Tree', sp_leaves), ('bin_arts_niltest', 'Tree', None),
    ('mergesort_list_of_tree', 'List', sp_sorted), ('mergesort_list_of_tree2', 'List', sp_sorted),
    ('mergesort_list_of_tree3', 'List', sp_sorted),
]
MEANING = {'sp_map': 'the function applied to every element, in order', 'sp_filter': 'the elements that satisfy the predicate, in order',
           'sp_reverse': 'the elements in reverse order before the accumulator', 'sp_append': 'the elements of the first list, then of the second',
           'sp_merge': 'the merge of the two lists', 'sp_second': 'the elements of the list it is given',
           'sp_list_of_tree': 'the leaves in the direction asked for', 'sp_filter_tree': 'the leaves that satisfy the predicate, in order',
           'sp_leaves': 'the leaves, in order', 'sp_sorted': 'the leaves, sorted'}


def g_lib_sequences(ctx, rep):
    """every list and tree operation yields the elements that it means, in order, for every constructor of its arguments"""
    for name, fam, spec in SEQ_FNS:
        if spec is None:
            continue
        f = lib_fn(ctx, rep, COLL + name)
        u = f and lib_unit(ctx, rep, f)
        if not u:
            continue
        for p, d in paths_of(rep, name, u):
            args = [A(i + 1) for i in range(f.nargs)]
            dirs = dir_args(f, d, args)
            for d in both_dirs(u, p, d, dirs):
                seq_one(rep, u, p, d, name, fam, spec, args)


def param_ty(f, i):
    return f.tys[f.locals[i + 1]]['s']


def dir_args(f, d, args):
    return [a for i, a in enumerate(args) if d.case(a) is None and param_ty(f, i).endswith('Dir2')]


def both_dirs(u, p, d, dirs):
    if not dirs:
        return [d]
    out = []
    for k in ('Left', 'Right'):
        e = Den(u, {**p.st.facts, ('var', dirs[0]): ('is', k)})
        if not e.infeasible:
            out.append(e)
    return out


def seq_one(rep, u, p, d, name, fam, spec, args):
            args = [d.N(a) for a in args]
            try:
                want = tuple(spec(d, *args))
                got = d.seq(u.I.deep(p.st, p.rawval), fam)
            except Undecided as e:
                rep.notes.append('%s: undecided: %s' % (name, str(e)[:120]))
                return
            if not (clean(want) and clean(got)):
                rep.notes.append('%s: undecided result %s' % (name, show_seq(got)[:160]))
                return
            rep.ob('sequence', got == want, u.describe(), 'yields %s instead of %s (%s)' % (
                show_seq(got)[:300], show_seq(want)[:300], MEANING.get(spec.__name__, 'its meaning')) if got != want
                else '%s: %s' % (name, show_seq(got)[:120]), p)


# ------------------------------------------------------------------ folds and searches
EQ_FNS = [(COLL + 'list_fold', L + 'list_fold'), (COLL + 'tree_fold_seq', L + 'tree_fold_seq'), (COLL + 'tree_fold_up', L + 'tree_fold_up'),
          (COLL + 'tree_fold_up_nm_dn', L + 'tree_fold_up_nm_dn'), (COLL + 'list_pop', L + 'list_pop'),
          (TRIE + 'trie_fold', TR + 'trie_fold'), (COLL + 'ListElim::is_empty', 'M:ListElim::is_empty'),
          (COLL + 'ListElim::is_name', 'M:ListElim::is_name'), (COLL + 'TreeElim::is_empty', 'M:TreeElim::is_empty'),
          (COLL + 'TreeElim::is_nil', 'M:TreeElim::is_nil')]
EQ_IMPLS = [('trie::TrieElim', 'catalog::trie::Trie', 'find', 'M:TrieElim::find'),
            ('trie::TrieElim', 'catalog::trie::Trie', 'is_empty', 'M:TrieElim::is_empty'),
            ('trie::SetElim', 'Set', 'fold', 'M:SetElim::fold'),
            ('collections::MapElim', 'catalog::collections::List', 'find', 'M:MapElim::find')]


def g_lib_equations(ctx, rep):
    """every fold, search and test satisfies its defining equation in every constructor case, memoised or not"""
    todo = [(lib_fn(ctx, rep, a), b) for a, b in EQ_FNS]
    for tr, ty, m, b in EQ_IMPLS:
        f = ctx.impl(tr, ty, m)
        if f is None:
            rep.missing('%s::%s for %s' % (tr, m, ty))
        todo.append((f, b))
    for f, name in todo:
        u = f and lib_unit(ctx, rep, f)
        if not u:
            continue
        for p, d in paths_of(rep, name, u):
            args = [d.N(A(i + 1)) for i in range(f.nargs)]
            want = EQS[name](d, *args)
            if want is None:
                continue
            want = d.N(want)
            got = value(u, d, p)
            b = d.truth(got)
            if b is not None:
                got = TRUE if b else FALSE
            if got == ('call', name, tuple(args)) or not (clean(got) and clean(want)):
                continue
            rep.ob('equation', got == want, u.describe(), 'gives %s instead of %s' % (show(got)[:300], show(want)[:300]) if got != want
                   else '%s: %s' % (name[2:], show(got)[:160]), p)


# ------------------------------------------------------------------ pattern matching
def g_lib_match(ctx, rep):
    """every eliminator applies exactly the handler of the value's constructor to its components, forcing articulations first"""
    n = 0
    for tr, ms in ELIMS.items():
        for m, na in ms.items():
            for f in ctx.impls(tr.split('::', 1)[1], m):
                if f.kind == 'closure' or not f.blocks:
                    continue
                n += 1
                u = lib_unit(ctx, rep, f)
                if not u:
                    continue
                match_one(rep, u, f, tr, m, na)
    if n < 9:
        rep.missing('at least 9 eliminators of the concrete types (found %d)' % n)


def match_one(rep, u, f, tr, m, na):
    fam = FAM.get(f.tys[f.d['impl_self']]['s'].split('<')[0])
    if fam is None:
        return
    extra = [A(2 + i) for i in range(na)]
    nh = f.nargs - 1 - na
    hs = [A(2 + na + i) for i in range(nh)]
    names = [c for c, _ in CASES[tr]][:nh]
    for p, d in paths_of(rep, m, u):
        x = d.N(A(1))
        c = d.case(x)
        if c is None:
            continue
        got = value(u, d, p)
        fs = PARTS[fam].get(c, ())
        if c in names:
            fl = dict(CASES[tr])[c]
            hd = hs[names.index(c)]
            if fl == ('self',):
                ok = got in (d.N(user(hd, x, *extra)), d.N(user(hd, ('con', fam, c, ()), *extra)))
            else:
                ok = got == d.N(user(hd, *([d.elem(x, c, g) for g in fl] + extra)))
        elif c == 'Art':
            inner = dcall('force', d.elem(x, c, 'art'))
            nm = 'M:%s::%s' % (tr.split('::')[-1], m)
            ok = got == d.N(('call', nm, (inner,) + tuple(extra) + tuple(hs)))
        else:
            continue
        if not ok and not clean(got):
            continue
        rep.ob('match', ok, u.describe(), '%s gives %s' % (c, show(got)[:300]) if not ok else '%s of %s: %s' % (m, c, show(got)[:140]), p)
    for p in u.panics:
        d = Den(u, p.st.facts)
        c = d.case(d.N(A(1)))
        if d.infeasible or c is None or (fam, c) == ('List', 'Tree'):
            continue
        rep.ob('match', False, u.describe(), '%s panics' % c, p)


INTRO_OF = {'catalog::collections::ListIntro': 'List', 'catalog::collections::TreeIntro': 'Tree', 'catalog::trie::TrieIntro': 'Trie'}


def g_lib_intro(ctx, rep):
    """every introduction form builds its constructor from its arguments, in order"""
    n = 0
    for nm, (fam, case, fs) in INTRO.items():
        tr, m = nm[2:].split('::')
        for f in ctx.impls('::' + tr, m):
            ty = FAM.get(f.tys[f.d['impl_self']]['s'].split('<')[0])
            if ty is None or f.kind == 'closure':
                continue
            u = lib_unit(ctx, rep, f)
            if not u:
                continue
            n += 1
            for p, d in paths_of(rep, nm, u):
                got = value(u, d, p)
                want = ('con', ty, case, tuple(A(i + 1) for i in range(f.nargs)))
                if got[0] == 'con' or clean(got):
                    rep.ob('intro', got == want, u.describe(), 'builds %s' % show(got)[:200], p)
    if n < 15:
        rep.missing('at least 15 introduction forms (found %d)' % n)


# ------------------------------------------------------------------ monoids, tree building, vectors
def g_lib_trees(ctx, rep):
    """monoid_of_tree combines every leaf once, in order; tree_of_list keeps every element of the list, in order"""
    f = lib_fn(ctx, rep, COLL + 'monoid_of_tree')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'monoid', u):
            v = value(u, d, p)
            if v[0] != 'call' or v[1] != L + 'tree_fold_up' or len(v[2]) != 5:
                continue
            t, nil, leaf, bn, nm = v[2]
            want = [(nil, (), A(2)), (leaf, (X,), X), (bn, (LEVV, XL, XR), user(A(3), XL, XR)), (nm, (NMV, LEVV, XL, XR), user(A(3), XL, XR))]
            rep.ob('monoid', t == A(1), u.describe(), 'folds %s' % show(t)[:100], p)
            for (c, a, w), what in zip(want, ('nil', 'leaf', 'bin', 'name')):
                try:
                    outs = outcomes(d, c, a) if c[0] == 'clo' else []
                except Undecided:
                    continue
                for e, g in outs:
                    if clean(g):
                        rep.ob('monoid', g == e.N(w), u.describe(), 'the %s case gives %s instead of %s' % (what, show(g)[:120], show(e.N(w))[:120]), p)
    f = lib_fn(ctx, rep, COLL + 'tree_of_list_rec')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'tree_of_list_rec', u):
            v = value(u, d, p)
            if v[0] != 'tup' or len(v[1]) != 2:
                continue
            both(rep, u, p, d, REC, v[1][0], v[1][1], A(1), d.N(A(3)), d.N(A(2)))
    f = lib_fn(ctx, rep, COLL + 'tree_of_list')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'tree_of_list', u):
            v = value(u, d, p)
            if v[0] == 'call' and v[1] == 'out0' and v[2][0][0] == 'call' and v[2][0][1] == REC:
                r = v[2][0]
                rest = dcall('out1', r)
                left = d.facts.get(dcall('M:ListElim::is_empty', rest))
                if left is None:
                    left = d.facts.get(dcall('M:ListElim::is_name', rest))
                rep.ob('tree-of-list', d.facts.get(dcall('M:ListElim::is_empty', rest)) is True, u.describe(),
                       'returns the tree without having checked that no element of the list is left over', p)
                both(rep, u, p, d, REC, v, rest, A(1), ('con', 'Tree', 'Nil', ()), d.N(A(2)), True)


def both(rep, u, p, d, REC, tree, rest, dir, tree0, list0, drop=False):
    """the leaves of the tree, then the rest of the list, are those given (leaves reversed when listing from the right)"""
    out = []
    k = d.case(dir)
    for kk in ([k] if k else ['Left', 'Right']):
        def flat(t, l):
            s = list(leaves(t, kk))
            # elements nearest the rest come last
            return norm(s + list(d.seq(l)), kk)

        def leaves(t, kk):
            s = list(d.seq(t, 'Tree'))
            return s if kk == 'Left' else d.rev(s)

        def norm(s, kk):
            for _ in range(20):
                for i in range(len(s) - 1):
                    a, b = s[i], s[i + 1]
                    a1 = a[1] if a[0] == 'rev' and kk == 'Right' else a if kk == 'Left' else None
                    if a1 is None or a1[0] != 'L' or b[0] != 'S':
                        continue
                    x, y = a1[1], b[1]
                    if x[0] == 'call' and x[1] == 'out0' and y[0] == 'call' and y[1] == 'out1' and x[2] == y[2] \
                            and x[2][0][0] == 'call' and x[2][0][1] == REC:
                        r = x[2][0][2]
                        if r[0] != dir and d.case(r[0]) != kk:
                            raise Undecided('the recursion changes direction')
                        s[i:i + 2] = list(leaves(r[2], kk)) + list(d.seq(r[1]))
                        break
                else:
                    return s
            return s
        try:
            if drop:
                x = tree[2][0]
                s = norm([('L', tree) if kk == 'Left' else ('rev', ('L', tree)), ('S', dcall('out1', x))], kk)
            else:
                s = flat(tree, rest)
            want = list(leaves(tree0, kk)) + list(d.seq(list0))
        except Undecided:
            continue
        if clean(tuple(s)) and clean(tuple(want)):
            rep.ob('tree-of-list', s == want, u.describe(), '%s: the leaves and the rest of the list are %s instead of %s' % (
                kk, show_seq(s)[:300], show_seq(want)[:300]) if s != want else '%s: %s' % (kk, show_seq(s)[:160]), p)


def g_lib_vectors(ctx, rep):
    """vec_of_list, list_of_vec and list_gen keep every element and name, in order"""
    NE = 'catalog::collections::NameElse'
    f = lib_fn(ctx, rep, COLL + 'vec_of_list')
    u = f and lib_unit(ctx, rep, f)
    if u:
        met, unmet, other = [], [], False
        for p in u.rets:
            vec_paths(rep, u, p, NE)
            at, read = limit_met(p)
            other = other or read
            last = [x for x in p.own('elim')]
            case = last[-1].a[1] if last else None
            if at is not True and (case == 'Nil' or case is None and ends_at_nil(u, p)):
                continue
            if at is True:
                met.append(p)
            else:
                unmet.append(p)
        if not other:
            for p in unmet:
                rep.ob('vector-limit', False, u.describe(), 'the vector ends before the list does, without as many elements as are asked for', p)
            rep.ob('vector-limit', bool(met), u.describe(), 'the vector can end with as many elements as are asked for', met[0] if met else None)
            zero = [p for p in met if p.val[0] == 'vec' and not p.val[2] and not any(isinstance(x, Loop) for x in p.items) and
                    not any(e.a[1] == 'Nil' for e in p.own('elim'))]
            if met:
                rep.ob('vector-limit', bool(zero), u.describe(), 'when no element is asked for, the vector is empty (as the number of '
                       'elements is compared before the first is appended)', zero[0] if zero else None)
    f = lib_fn(ctx, rep, COLL + 'list_demand')
    v = lib_fn(ctx, rep, COLL + 'vec_of_list')
    u = f and v and lib_unit(ctx, rep, f, (v.key,))
    if u:
        for p, d in paths_of(rep, 'list_demand', u):
            got = value(u, d, p)
            if got[0] == 'call' and got[1] == L + 'vec_of_list':
                want = ('call', L + 'vec_of_list', (A(1), some(A(2))))
                rep.ob('vector', got == want, u.describe(), 'calls vec_of_list with %s' % show(got)[:160], p)


def ends_at_nil(u, p):
    """does this path leave its loop after the list has ended? The iterations that no other path goes on from
    are those that stop the loop, and each of them meets Nil"""
    def key(sc):
        return frozenset((f, frozenset(map(repr, v))) for f, v in sc.facts.items()), tuple(map(repr, sc.items))

    def iters(q):
        return {key(it): it for l in q.loops() for it in l.iters}
    mine = iters(p)
    for q in u.rets:
        if q is not p:
            for k in iters(q):
                mine.pop(k, None)
    return bool(mine) and all(any(e.a[1] == 'Nil' for e in it.own('elim')) for it in mine.values())


def limit_met(p):
    """whether this path knows that its vector has as many elements as asked for (True, False, None), and
    whether it compares the limit with anything else than the number of its elements"""
    at, other = None, False

    def count(t):
        return t[0] == 'len' or t[0] == 'int'
    for f, vals in p.facts.items():
        if not mentions(f, A(2)) or f == ('var', A(2)):
            continue
        if f[0] not in ('eq', 'lt') or len(f) != 3 or len(vals) != 1:
            other = True
            continue
        a, b = f[1], f[2]
        v = next(iter(vals))
        if mentions(a, A(2)):
            a, b, flip = b, a, True
        else:
            flip = False
        if f[0] == 'eq' and count(a) and b[0] == 'op' and b[1] in ('Add', 'Sub') and b[2] == ('some', A(2)) and b[3][0] == 'int' and b[3][1]:
            at = at or False
            continue
        if mentions(a, A(2)) or not count(a) or b[0] in ('call', 'op', 'len', 'bin'):
            other = True
        elif f[0] == 'eq':
            at = True if v else (at or False)
        elif not flip:
            at = (at or False) if v else True
        elif not v:
            at = at or False
    return at, other


def vec_paths(rep, u, p, NE):
    def scan(sc, last):
        for x in sc.items:
            if isinstance(x, Loop):
                for it in x.iters:
                    scan(it, None)
            elif x.k == 'elim':
                if last is not None:
                    finish(last, sc)
                last = [x, []]
            elif x.k == 'push' and last is not None:
                last[1].append(x)
        if last is not None:
            finish(last, sc)

    def finish(last, sc):
        e, pushes = last
        X, case = e.a[0], e.a[1]
        vals = [q.raw[2] for q in pushes]
        X = e.raw[1]
        want = {'Nil': [], 'Cons': [('agg', NE, 'Else', ((NE + '.0', part(X, 'Cons', 'hd')),))],
                'Name': [('agg', NE, 'Name', ((NE + '.0', part(X, 'Name', 'nm')),))]}.get(case)
        if want is None or any(v[0] != 'agg' for v in vals):
            return
        rep.ob('vector', vals == want, u.describe(), 'for %s, %s is appended' % (case, ', '.join(show(v) for v in vals)[:200] or 'nothing'), sc)
    scan(p, None)


def g_lib_build(ctx, rep):
    """list_gen and list_of_vec put one cons (or name) per index or element, the first at the head"""
    NE = 'catalog::collections::NameElse'
    for name in ('list_gen', 'list_of_vec'):
        f = lib_fn(ctx, rep, COLL + name)
        u = f and lib_unit(ctx, rep, f)
        if not u:
            continue
        for p in u.rets:
            for lp in p.loops():
                for it in lp.iters:
                    nx = [e for e in it.own('next')]
                    ops = [e for e in it.own('op') if e.a[0] in ('ListIntro::cons', 'ListIntro::name')]
                    if len(nx) != 1 or any(isinstance(x, Loop) for x in it.items):
                        continue
                    el = nx[0].a[1]
                    if name == 'list_gen':
                        el = nx[0].raw[3]
                    conses = [e.raw[2][0] for e in ops if e.a[0] == 'ListIntro::cons']
                    if name == 'list_gen':
                        rng = el[2] if el[0] == 'any' and len(el) > 2 else None
                        if rng is None or rng[0] != 'in' or any(not mentions(c, el) for c in conses):
                            continue
                        ok = len(conses) == 1 and conses[0] == ('call', ('fnval', A(2)), (el,))
                        rep.ob('build', ok, u.describe(), 'an iteration conses %s' % (', '.join(show(c) for c in conses)[:160] or 'nothing'), it)
                        if ok:
                            rep.ob('build', rng[1:3] == (('int', 0), A(1)) and 'rev' in rng[3:], u.describe(),
                                   'the elements are generated for the indices %s' % show(rng)[:100], it)
                    else:
                        kind = it.kindof(el)
                        if kind not in ('Else', 'Name') or mentions(nx[0].a[0], ('len',)):
                            continue
                        heads = [(e.a[0].split('::')[1], e.a[1][0]) for e in ops]
                        fld = [h for _, h in heads if mentions(h, el)]
                        if len(fld) != len(heads):
                            continue
                        want = ['cons'] if kind == 'Else' else ['name']
                        rep.ob('build', [h for h, _ in heads] == want, u.describe(),
                               'an element of kind %s is added with %s' % (kind, ', '.join(h for h, _ in heads) or 'nothing'), it)
                if lp.done is not None and name == 'list_of_vec':
                    pass
            if name == 'list_of_vec':
                for e in p.own('done'):
                    c = e.a[0]
                    if c in (A(1), ('rev', A(1))):
                        rep.ob('build', c != A(1), u.describe(), 'the vector is consumed from its first element, so the list is reversed', p)


# ------------------------------------------------------------------ maps and sets
def g_lib_maps(ctx, rep):
    """maps as lists, sets as maps and sets as tries apply the underlying operations with the right arguments"""
    MI, ME = 'M:MapIntro::', 'M:MapElim::'
    x2 = ('tup', (A(2), A(3)))
    simple = [
        ('collections::MapIntro', 'catalog::collections::List', 'empty', ('con', 'List', 'Nil', ())),
        ('collections::MapIntro', 'catalog::collections::List', 'update', ('con', 'List', 'Cons', (x2, A(1)))),
        ('collections::SetIntro', 'Map', 'empty', dcall(MI + 'empty')),
        ('collections::SetIntro', 'Map', 'add', dcall(MI + 'update', A(1), A(2), UNIT)),
        ('collections::SetIntro', 'Map', 'remove', dcall('out0', dcall(ME + 'remove', A(1), A(2)))),
        ('collections::SetIntro', 'Map', 'union', dcall(ME + 'append', A(1), A(2))),
        ('trie::SetIntro', 'Set', 'add', dcall('M:TrieIntro::extend', dcall('name_unit'), A(1), A(2))),
        ('trie::TrieIntro', 'catalog::trie::Trie', 'singleton', None),
    ]
    for tr, ty, m, want in simple:
        f = ctx.impl(tr, ty, m)
        u = f and lib_unit(ctx, rep, f)
        if not u or want is None:
            continue
        for p, d in paths_of(rep, m, u):
            got = value(u, d, p)
            if clean(got):
                rep.ob('map', got == want, u.describe(), 'gives %s instead of %s' % (show(got)[:200], show(want)[:200]), p)
    for n, want in (('map_empty', dcall(MI + 'empty')), ('map_update', dcall(MI + 'update', A(1), A(2), A(3))),
                    ('map_find', dcall(ME + 'find', A(1), A(2))), ('map_fold', dcall(ME + 'fold', A(1), A(2), A(3)))):
        f = lib_fn(ctx, rep, COLL + n)
        u = f and lib_unit(ctx, rep, f)
        if not u:
            continue
        for p, d in paths_of(rep, n, u):
            got = value(u, d, p)
            if clean(got):
                rep.ob('map', got == want, u.describe(), 'gives %s instead of %s' % (show(got)[:200], show(want)[:200]), p)
    # membership: the key was found
    for tr, ty, m, find, nargs in (('collections::SetElim', 'Map', 'is_mem', ME + 'find', 2), ('trie::SetElim', 'Set', 'mem', 'M:TrieElim::find', 3)):
        f = ctx.impl(tr, ty, m)
        if f is None:
            rep.missing('%s::%s' % (tr, m))
            continue
        u = lib_unit(ctx, rep, f)
        if not u:
            continue
        for p, d in paths_of(rep, m, u):
            got = value(u, d, p)
            fs = [(g, v) for g, v in d.facts.items() if g[0] == 'var' and g[1][0] == 'call' and g[1][1] == find]
            if got not in (TRUE, FALSE) or len(fs) != 1:
                continue
            (g, v), = fs
            ok = (v == ('is', 'Some') or v[0] == 'not' and 'None' in v[1]) == (got == TRUE) and g[1][2][:2] == (A(1), A(2))
            rep.ob('member', ok, u.describe(), 'answers %s when %s is %s' % (show(got), show(g[1])[:120], v[1]), p)
    # folds over the entries
    K, V, ACC, OTH = (('p', '$' + s) for s in ('k', 'v', 'acc', 'oth'))
    cases = [('collections::SetElim', 'Map', 'fold', ME + 'fold', (K, UNIT, ACC), user(A(3), K, ACC)),
             ('collections::MapElim', 'catalog::collections::List', 'fold', L + 'list_fold', (('tup', (K, V)), ACC), user(A(3), K, V, ACC))]
    for tr, ty, m, fold, a, want in cases:
        f = ctx.impl(tr, ty, m)
        if f is None:
            rep.missing('%s::%s for %s' % (tr, m, ty))
            continue
        u = lib_unit(ctx, rep, f)
        if not u:
            continue
        for p, d in paths_of(rep, m, u):
            got = value(u, d, p)
            if got[0] != 'call' or got[1] != fold or got[2][2][0] != 'clo':
                continue
            rep.ob('map-fold', got[2][:2] == (A(1), A(2)), u.describe(), 'folds over %s from %s' % (show(got[2][0])[:80], show(got[2][1])[:80]), p)
            try:
                outs = outcomes(d, got[2][2], a)
            except Undecided:
                continue
            for e, g in outs:
                if clean(g):
                    rep.ob('map-fold', g == e.N(want), u.describe(), 'combines an entry into %s' % show(g)[:160], p)
    # the intersection keeps the elements found in both
    f = ctx.impl('collections::SetIntro', 'Map', 'inter')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'inter', u):
            got = value(u, d, p)
            if not (got[0] == 'call' and got[1] == 'out0' and got[2][0][0] == 'call' and got[2][0][1] == ME + 'fold'):
                continue
            m, init, clo = got[2][0][2]
            if init[0] != 'tup' or clo[0] != 'clo':
                continue
            rep.ob('intersection', {m, init[1][1]} == {A(1), A(2)} and init[1][0] == dcall(MI + 'empty'), u.describe(),
                   'folds over %s with %s' % (show(m), show(init)[:100]), p)
            try:
                outs = outcomes(d, clo, (K, UNIT, ('tup', (ACC, OTH))))
            except Undecided:
                continue
            for e, g in outs:
                found = e.facts.get(('var', dcall(ME + 'find', OTH, K)))
                if found is None or not clean(g):
                    continue
                yes = found == ('is', 'Some') or found[0] == 'not' and 'None' in found[1]
                want = ('tup', (dcall(MI + 'update', ACC, K, UNIT) if yes else ACC, OTH))
                rep.ob('intersection', g == want, u.describe(), 'an element that is %s the other set gives %s' % (
                    'in' if yes else 'not in', show(g)[:160]), p)
    # tries
    f = ctx.impl('trie::TrieIntro', 'catalog::trie::Trie', 'empty')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'empty', u):
            try:
                s = d.seq(u.I.deep(p.st, p.rawval), 'Trie')
            except Undecided:
                continue
            if clean(s):
                rep.ob('trie', s == (), u.describe(), 'the empty trie holds %s' % show_seq(s)[:200], p)
    f = ctx.impl('trie::TrieElim', 'catalog::trie::Trie', 'split_atomic')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'split', u):
            try:
                s, w = d.seq(u.I.deep(p.st, p.rawval), 'Trie'), d.seq(A(1), 'Trie')
            except Undecided:
                continue
            if clean(s) and clean(w):
                rep.ob('trie', s == w, u.describe(), 'the split trie holds %s instead of %s' % (show_seq(s)[:200], show_seq(w)[:200]), p)
    f = lib_fn(ctx, rep, TRIE + 'trie_of_list')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'trie_of_list', u):
            got = value(u, d, p)
            if got[0] != 'call' or got[1] != L + 'list_fold' or got[2][2][0] != 'clo':
                continue
            rep.ob('trie', got[2][0] == A(1) and got[2][1][0] == 'call' and got[2][1][1] == 'M:TrieIntro::empty', u.describe(),
                   'folds over %s from %s' % (show(got[2][0])[:80], show(got[2][1])[:80]), p)
            try:
                outs = outcomes(d, got[2][2], (X, R))
            except Undecided:
                continue
            for e, g in outs:
                if g[0] == 'call' and g[1] == 'M:TrieIntro::extend':
                    rep.ob('trie', g[2][1:] == (R, X), u.describe(), 'adds an element as %s' % show(g)[:120], p)


# ------------------------------------------------------------------ levels
def g_lib_levels(ctx, rep):
    """trees built from lists are heap-ordered by levels that depend on the element or name alone; levels are ordered numbers"""
    ZERO, MAXV = dcall('M:Level::zero'), dcall('M:Level::max_val')
    seen = set()

    def root(t):
        """a bound of the level of tree t, as a term"""
        if t == A(3):
            return A(4)
        if t[0] == 'con' and t[2] in ('Leaf', 'Nil'):
            return ZERO
        if t[0] == 'con' and t[2] == 'Bin':
            return t[3][0]
        if t[0] == 'con' and t[2] == 'Name':
            return t[3][1]
        if t[0] == 'con' and t[2] == 'Art':
            a = t[3][0]
            return root(a[2][-1]) if a[0] == 'call' and a[1] in ('cell', 'put') else None
        if t[0] == 'call' and t[1] == 'out0' and t[2][0][0] == 'call' and t[2][0][1] == REC:
            return t[2][0][2][4]
        return None

    def lte(d, a, b):
        return a == b or a == ZERO or b == MAXV or (a, b) == (A(4), A(5)) or d.facts.get(dcall('M:Level::lte', a, b)) is True

    def bounded(u, d, p, a, b, what):
        if a is None or b is None or not (clean(a) and clean(b)):
            rep.notes.append('%s: undecided level (%s)' % (u.describe(), what))
            return
        rep.ob('level-order', lte(d, a, b), u.describe(), '%s: %s at most %s' % (what, show(a)[:100], show(b)[:100]), p)

    f = lib_fn(ctx, rep, COLL + 'tree_of_list_rec')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'levels', u):
            v = value(u, d, p)
            if v[0] != 'tup' or len(v[1]) != 2:
                continue
            bounded(u, d, p, root(v[1][0]), A(5), 'the tree that is returned')
            for t in {x for x in subterms(v)}:
                if t[0] == 'con' and t[1] == 'Tree' and t[2] in ('Bin', 'Name'):
                    seen.add(t[2])
                    lev, l, r = t[3][-3:]
                    for c in (l, r):
                        bounded(u, d, p, root(c), lev, 'the level of a subtree')
                    own = part(A(2), 'Cons', 'hd') if t[2] == 'Bin' else part(A(2), 'Name', 'nm')
                    if clean(lev):
                        ok = mentions(lev, own) and not any(mentions(lev, A(i)) for i in (1, 3, 4, 5)) and not any(
                            x[0] == 'call' and x[1].startswith('part:') and x != own for x in subterms(lev))
                        rep.ob('level-own', ok, u.describe(), 'the level of a node is that of its element or name: %s' % show(lev)[:140], p)
                elif t[0] == 'call' and t[1] == REC and len(t[2]) == 5:
                    seen.add('rec')
                    bounded(u, d, p, root(t[2][2]), t[2][3], 'the tree so far')
                    bounded(u, d, p, t[2][3], t[2][4], 'the levels of a recursive call')
        for s in ('Bin', 'Name', 'rec'):
            rep.ob('level-cases', s in seen, u.describe(), 'the case %s is analysed' % s)
    f = lib_fn(ctx, rep, COLL + 'tree_of_list')
    u = f and lib_unit(ctx, rep, f)
    if u:
        for p, d in paths_of(rep, 'levels', u):
            for t in subterms(value(u, d, p)):
                if t[0] == 'call' and t[1] == REC and len(t[2]) == 5:
                    bounded(u, d, p, root(t[2][2]), t[2][3], 'the initial tree')
                    rep.ob('level-greatest', t[2][4] == MAXV, u.describe(), 'the whole list is consumed: its bound is %s' % show(t[2][4])[:80], p)
    for f in ctx.impls('TreeElim', 'lev_of_tree'):
        if f.kind == 'closure' or not f.blocks:
            continue
        fam = FAM.get(f.tys[f.d['impl_self']]['s'].split('<')[0])
        u = lib_unit(ctx, rep, f, tuple(g.key for g in ctx.impls('collections::Level', 'new')))
        if not u or fam is None:
            continue
        for p, d in paths_of(rep, 'levels', u):
            x = d.N(A(1))
            c, got = d.case(x), value(u, d, p)
            want = {'Name': 'lev', 'Bin': 'lev', 'Leaf': 'x'}.get(c)
            if c == 'Nil':
                ok = got in (('int', 0), ZERO)
            elif want:
                want = d.elem(x, c, want)
                ok = got == (dcall('M:Level::new', want) if c == 'Leaf' else want)
            else:
                continue
            if clean(got):
                rep.ob('level-of-tree', ok, u.describe(), 'the level of a tree is that of its root: of %s, %s' % (c, show(got)[:120]), p)
    # the levels themselves
    vals = {}
    for f in ctx.impls('collections::Level', 'zero'):
        ty = f.tys[f.d['impl_self']]['s']
        for m in ('zero', 'bits', 'inc', 'add', 'lte', 'max_val', 'max'):
            g = ctx.impl('collections::Level', ty, m) or (ctx.fn(COLL + 'Level::max') if m == 'max' else None)
            u = g and lib_unit(ctx, rep, g)
            if not u:
                continue
            for p, d in paths_of(rep, 'levels', u):
                vals.setdefault(ty, {}).setdefault(m, []).append((u, p, d, value(u, d, p)))
    if 'usize' not in vals:
        rep.missing('numbers as levels')
        return
    V = vals['usize']
    num = lambda t: t[1] if t[0] == 'int' else 2 ** 64 - 1 if t[0] == 'call' and t[1].endswith('usize>::max_value') else None  # noqa: E731
    bits = max([num(v) or 0 for u, p, d, v in V.get('bits', ())] or [0])
    for m, ok, what in (
            ('zero', lambda d, v: num(v) == 0 if num(v) is not None else None, 'the least level is 0'),
            ('max_val', lambda d, v: num(v) >= bits + 65 if num(v) is not None else None, 'no level of an element or name exceeds the greatest'),
            ('inc', lambda d, v: plus(v, A(1)), 'the next level is greater'),
            ('add', lambda d, v: v in addn(A(1), A(2)) if arithmetic(v) else None, 'levels are added'),
            ('lte', lambda d, v: v == ('not', ('lt', A(2), A(1))) if d.truth(v) is None and clean(v) else None, 'levels are ordered as numbers'),
            ('max', lambda d, v: greater(d, v), 'the greater of two levels')):
        for u, p, d, v in V.get(m, ()):
            r = ok(d, v)
            if r is not None:
                rep.ob('level-numbers', r, u.describe(), '%s: %s' % (what, show(v)[:120]), p)


def arithmetic(t):
    if t[0] in ('p', 'int'):
        return True
    return (t[0] == 'call' and type(t[1]) is str and t[1].startswith('std::ops::') and all(arithmetic(x) for x in t[2])
            or t[0] == 'op' and all(arithmetic(x) for x in t[2:]))


def addn(a, b):
    return [t for x, y in ((a, b), (b, a)) for t in (dcall('std::ops::Add::add', x, y), ('op', 'Add', x, y))]


def plus(v, a):
    if v == a:
        return False
    for n in [x for x in subterms(v) if x[0] == 'int']:
        if v in addn(a, n):
            return n[1] > 0
    return None


def greater(d, v):
    for a, b in ((A(1), A(2)), (A(2), A(1))):
        t = d.facts.get(dcall('M:Level::lte', a, b))
        if t is not None:
            return v == (b if t else a) if v in (a, b) else None
    return False if v in (A(1), A(2)) else None
