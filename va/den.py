"""What the terms of the collection library denote, with names, cells, memo thunks and namespaces erased.

N(t) rewrites a term with the meaning of the engine operations (a forced cell is its content, a forced thunk is its
function applied to its arguments) and of pattern matching; seq(t) is the sequence of elements that a list or a tree
denotes.  Sequences are tuples of atoms:
   ('e', x) an element;  ('S', t) the elements of list t;  ('L', t) the leaves of tree t
   ('n', x) a name (only when names are wanted)
   ('map', f, atom), ('filt', f, atom), ('rev', atom), ('op', name, args...)
"""

from canon import mentions
from prog import TRUE, FALSE

L = 'F:catalog::collections::'
TR = 'F:catalog::trie::'
PARTS = {
    'List': {'Cons': ('hd', 'tl'), 'Name': ('nm', 'tl'), 'Art': ('art',), 'Tree': ('tree', 'dir', 'tl')},
    'Tree': {'Leaf': ('x',), 'Bin': ('lev', 'l', 'r'), 'Name': ('nm', 'lev', 'l', 'r'), 'Art': ('art',)},
    'Trie': {'Nil': ('bs',), 'Leaf': ('bs', 'x'), 'Bin': ('bs', 'l', 'r'), 'Root': ('meta', 't'), 'Name': ('nm', 't'), 'Art': ('art',)},
}
FAM = {'catalog::collections::List': 'List', 'catalog::collections::Tree': 'Tree', 'catalog::trie::Trie': 'Trie'}
INTRO = {
    'M:ListIntro::nil': ('List', 'Nil', ()), 'M:ListIntro::cons': ('List', 'Cons', ('hd', 'tl')),
    'M:ListIntro::name': ('List', 'Name', ('nm', 'tl')), 'M:ListIntro::art': ('List', 'Art', ('art',)),
    'M:TreeIntro::nil': ('Tree', 'Nil', ()), 'M:TreeIntro::leaf': ('Tree', 'Leaf', ('x',)),
    'M:TreeIntro::bin': ('Tree', 'Bin', ('lev', 'l', 'r')), 'M:TreeIntro::name': ('Tree', 'Name', ('nm', 'lev', 'l', 'r')),
    'M:TreeIntro::art': ('Tree', 'Art', ('art',)),
    'M:TrieIntro::nil': ('Trie', 'Nil', ('bs',)), 'M:TrieIntro::leaf': ('Trie', 'Leaf', ('bs', 'x')),
    'M:TrieIntro::bin': ('Trie', 'Bin', ('bs', 'l', 'r')), 'M:TrieIntro::root': ('Trie', 'Root', ('meta', 't')),
    'M:TrieIntro::name': ('Trie', 'Name', ('nm', 't')), 'M:TrieIntro::art': ('Trie', 'Art', ('art',)),
}
UNIT = ('tup', ())
LEFT, RIGHT = (('agg', 'catalog::collections::Dir2', d, ()) for d in ('Left', 'Right'))
NONE = ('agg', 'std::option::Option', 'None', ())


def some(x):
    return ('agg', 'std::option::Option', 'Some', (('std::option::Option.0', x),))


def call(n, *a):
    return ('call', n, a)


def part(x, case, f):
    return ('call', 'part:%s.%s' % (case, f), (x,))


def cons(fam, case, *a):
    """the constructor `case` of a family, whoever builds it"""
    return ('con', fam, case, a)


class Undecided(Exception):
    pass


class Den:
    def __init__(self, unit, facts, depth=0, known=None):
        self.u, self.raw, self.depth = unit, facts, depth
        self.memo, self.smemo = {}, {}
        self.facts, self.infeasible = {}, False
        self.unfold = True
        self.eqs = EQS
        pend = dict(facts)
        kinds = {}
        for f, v in facts.items():
            if f[0] == 'var':
                kinds[f] = v
        self.facts = kinds
        nf = {}
        for f, v in pend.items():
            g = self.fact(f)
            if g in nf and nf[g] != v and type(v) is bool:
                self.infeasible = True
            nf[g] = v
        self.facts = nf
        self.memo = {}
        old = {self.fact(f) for f in known} if known else ()
        for f, v in nf.items():
            if f in old:
                continue
            if f[0] == 'var' and type(v) is tuple:
                x = f[1]
                c = self.case(x, False)
                if c is not None and ((v[0] == 'is') != (c == v[1] if v[0] == 'is' else c not in v[1])):
                    self.infeasible = True
            elif type(v) is bool:
                b = self.truth(f, False)
                if b is not None and b != v:
                    self.infeasible = True

    def fact(self, f):
        if f[0] == 'var':
            return ('var', self.N(f[1]))
        return self.N(f)

    # ------------------------------------------------------------ values
    def N(self, t):
        if type(t) is not tuple:
            return t
        if type(t) is frozenset:
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.n(t)
        return r

    def n(self, t):
        if not t or type(t[0]) is not str:
            return tuple(self.N(x) for x in t)
        k = t[0]
        if k == 'ref':
            return self.N(('mem', t[1], 'v'))
        if k == 'mem':
            root, proj = t[1]
            if root[0] == 'O':
                return self.project(self.N(root[1]), proj)
            return t
        if k == 'agg':
            fam = FAM.get(t[1])
            fs = tuple(self.N(x[1]) for x in t[3])
            if fam:
                return ('con', fam, t[2], fs)
            return ('agg', t[1], t[2], tuple((x[0], y) for x, y in zip(t[3], fs)))
        if k == 'con':
            return ('con', t[1], t[2], tuple(self.N(x) for x in t[3]))
        if k == 'clo':
            return t[:2] + (tuple(self.N(x) for x in t[2]),) + t[3:]
        if k == 'call':
            n, a = t[1], t[2]
            if type(n) is tuple:
                n = tuple(self.N(x) for x in n)
                if n[0] == 'fnval' and n[1][0] in ('clo', 'fn'):
                    r = self.apply(n[1], a)
                    if r is not None:
                        return r
                return ('call', n, tuple(self.N(x) for x in a))
            a = tuple(self.N(x) for x in a)
            return self.ncall(n, a)
        if k == 'not':
            x = self.N(t[1])
            return ('not', x)
        return (k,) + tuple(self.N(x) for x in t[1:])

    def project(self, x, proj):
        v = None
        for e in proj:
            if e[0] == 'v':
                v = e[1]
                continue
            if e[0] != 'f':
                x = ('proj', e, x)
                continue
            name, i = e[1].rsplit('.', 1)
            if name == 'tup' and x[0] == 'tup' and int(i) < len(x[1]):
                x = x[1][int(i)]
            elif name == 'tup':
                x = call('out' + i, x)
            elif name in FAM and v in PARTS[FAM[name]]:
                x = self.ncall('part:%s.%s' % (v, PARTS[FAM[name]][v][int(i)]), (x,), FAM[name])
            elif x[0] == 'agg' and x[1] == name and (v is None or x[2] == v):
                x = dict(x[3]).get(e[1], ('proj', e, x))
            else:
                x = call('part:%s.%s' % (v or name.split('::')[-1], i), x)
            v = None
        return x

    def ncall(self, n, a, fam=None):
        if n.startswith('part:'):
            case, f = n[5:].split('.')
            x = a[0]
            if x[0] == 'con' and x[2] == case:
                fs = PARTS[x[1]].get(case, ())
                if f in fs:
                    return x[3][fs.index(f)]
            return ('call', n, a)
        if n[:3] == 'out' and a[0][0] == 'tup' and n[3:].isdigit() and int(n[3:]) < len(a[0][1]):
            return a[0][1][int(n[3:])]
        if n in INTRO:
            fam, case, _ = INTRO[n]
            return ('con', fam, case, a)
        if n == 'force':
            x = a[0]
            if x[0] == 'call':
                if x[1] == 'cell':
                    return x[2][1]
                if x[1] == 'put':
                    return x[2][0]
                if x[1] == 'thunk':
                    r = self.run_thunk(x)
                    if r is not None:
                        return r
            return ('call', n, a)
        e = self.eqs.get(n) if self.unfold else None
        if e is not None:
            r = e(self, *a)
            if r is not None:
                return self.N(r)
        return ('call', n, a)

    def run_thunk(self, x):
        a = x[2]
        if len(a) < 5:
            return None
        nc, pp, clo, arg, spur = a[:5]
        return self.apply(clo, (arg, spur))

    def apply(self, clo, args):
        """a closure applied: its result if it has exactly one outcome"""
        if clo[0] == 'fn':
            return None
        if clo[0] != 'clo' or self.depth > 6:
            return None
        try:
            ps = [p for p in self.u.closure(clo, args, self.raw)]
        except Exception:
            return None
        rets = [p for p in ps if p.kind == 'ret']
        if len(ps) != 1 or len(rets) != 1:
            return None
        p = rets[0]
        return self.N(self.u.I.deep(p.st, p.rawval))

    def case(self, x, facts=True):
        """the constructor of a value, if known"""
        x = self.N(x)
        if x[0] == 'con':
            return x[2]
        if x[0] == 'agg':
            return x[2]
        if facts:
            v = self.facts.get(('var', x))
            if v and v[0] == 'is':
                return v[1]
        return None

    def truth(self, t, facts=True):
        """a Boolean value, if known"""
        t = self.N(t)
        if t in (TRUE, FALSE):
            return t[1]
        if t[0] == 'not':
            b = self.truth(t[1], facts)
            return None if b is None else not b
        if facts:
            v = self.facts.get(t)
            if type(v) is bool:
                return v
            if t[0] == 'eq':
                v = self.facts.get(('eq', t[2], t[1]))
                if type(v) is bool:
                    return v
        if t[0] == 'eq' and t[1] == t[2]:
            return True
        if t[0] == 'call' and t[1] in EMPTY and self.depth < 4:
            try:
                s = self.seq(t[2][0], EMPTY[t[1]])
            except Undecided:
                return None
            if not s:
                return True
            if any(a[0] == 'e' for a in s):
                return False
        return None

    def elem(self, x, case, f):
        return self.N(part(self.N(x), case, f))

    # ------------------------------------------------------------ sequences
    def seq(self, t, fam='List', names=False):
        k = (t, fam, names)
        r = self.smemo.get(k)
        if r is None:
            r = self.smemo[k] = tuple(self.s(self.N(t), fam, names))
        return r

    def s(self, t, fam, names):
        q = 'S' if fam == 'List' else 'L'
        S = lambda x: list(self.seq(x, fam, names))                   # noqa: E731
        c = self.case(t)
        pt = lambda f: self.elem(t, c, f)                             # noqa: E731
        if c == 'Nil':
            return []
        if c == 'Cons':
            return [('e', pt('hd'))] + S(pt('tl'))
        if c == 'Leaf':
            return [('e', pt('x'))]
        if c == 'Name' and fam == 'List':
            return ([('n', pt('nm'))] if names else []) + S(pt('tl'))
        if c == 'Name' and fam == 'Trie':
            return S(pt('t'))
        if c == 'Root':
            return S(pt('t'))
        if c in ('Name', 'Bin'):
            return S(pt('l')) + ([('n', pt('nm'))] if names and c == 'Name' else []) + S(pt('r'))
        if c == 'Art':
            return S(call('force', pt('art')))
        if c is not None:
            raise Undecided('constructor %s' % c)
        for e in EMPTY_OF[fam]:
            if self.facts.get(('call', e, (t,))) is True and not names:
                return []
        if t[0] == 'call' and type(t[1]) is str:
            sp = SEQS.get((fam, t[1]))
            if sp is not None and not names:
                return list(sp(self, *t[2]))
        if t[0] == 'call' and t[1] == 'force' and t[2][0][0] == 'call' and t[2][0][1] == 'thunk':
            raise Undecided('a thunk with several outcomes')
        return [(q, t)]

    def rev(self, s):
        return [rev1(a) for a in reversed(s)]


def rev1(a):
    if a[0] == 'e':
        return a
    if a[0] == 'rev':
        return a[1]
    return ('rev', a)


def lift(tag, f, s, one):
    """map or filter over a sequence"""
    out = []
    for a in s:
        if a[0] == 'e':
            out += one(a[1])
        elif a[0] == 'n':
            out.append(a)
        elif a[0] == 'rev':
            out.append(('rev', (tag, f, a[1])))
        else:
            out.append((tag, f, a))
    return out


EMPTY = {'M:ListElim::is_empty': 'List', 'M:TreeElim::is_empty': 'Tree', 'M:TreeElim::is_nil': 'Tree', 'M:TrieElim::is_empty': 'Trie'}
EMPTY_OF = {'List': ('M:ListElim::is_empty',), 'Tree': ('M:TreeElim::is_empty', 'M:TreeElim::is_nil'), 'Trie': ('M:TrieElim::is_empty',)}


# ------------------------------------------------------------------ meanings of lists
def user(f, *a):
    return ('call', ('fnval', f), a)


def sp_map(d, l, f):
    return lift('map', f, d.seq(l), lambda x: [('e', d.N(user(f, x)))])


def sp_filter(d, l, f):
    def one(x):
        b = d.truth(user(f, x))
        return [('e', x)] if b else [] if b is False else [('filt', f, ('e', x))]
    return lift('filt', f, d.seq(l), one)


def sp_reverse(d, l, r):
    return d.rev(d.seq(l)) + list(d.seq(r))


def sp_append(d, a, b):
    return list(d.seq(a)) + list(d.seq(b))


def sp_id(d, l, *_):
    return list(d.seq(l))


def sp_second(d, n, l):
    return list(d.seq(l))


def le(d, x, y):
    """x <= y, if known"""
    for f, pos in ((('lt', y, x), False), (('le', x, y), True), (('ge', y, x), True), (('gt', x, y), False)):
        v = d.facts.get(f)
        if type(v) is bool:
            return v == pos
    return True if d.facts.get(('lt', x, y)) is True else None


def sp_merge(d, n1, a, n2, b):
    return merge(d, list(d.seq(a)), list(d.seq(b)))


def merge(d, A, B):
    out = []
    while A and B and A[0][0] == 'e' and B[0][0] == 'e':
        v = le(d, A[0][1], B[0][1])
        if v is None:
            break
        if v:
            out.append(A[0])
            A = A[1:]
        else:
            out.append(B[0])
            B = B[1:]
    if not A or not B:
        return out + A + B
    return out + [('op', 'merge', tuple(A), tuple(B))]


# folds: what a closure does to the sequence it is given
X, R, NMV, LEVV, XL, XR = ((('p', '$' + n)) for n in ('x', 'r', 'n', 'lev', 'l', 'r2'))


def outcomes(d, clo, args):
    """(den, value) for every outcome of a closure"""
    out = []
    for p in d.u.closure(clo, args, d.raw):
        if p.kind != 'ret':
            raise Undecided('a callback that can panic')
        e = Den(d.u, p.st.facts, d.depth + 1, d.raw)
        if e.infeasible:
            continue
        out.append((e, e.N(d.u.I.deep(p.st, p.rawval))))
    if not out:
        raise Undecided('a callback without outcome')
    return out


def tests(e, x):
    """{predicate: answer} known about x in an outcome"""
    return {f[1][1]: b for f, b in e.facts.items() if type(b) is bool and f[0] == 'call' and type(f[1]) is tuple and f[2] == (x,)}


def step(d, clo, args, fam, res):
    """how a callback extends the sequence of its result argument: 'id', 'push', 'snoc', ('filt', pred), or another known effect"""
    kinds, conds = set(), {}
    for e, v in outcomes(d, clo, args):
        s = e.seq(v, fam)
        base = e.seq(res, fam)
        if s == base:
            k = 'id'
        elif s == (('e', X),) + base:
            k = 'push'
        elif s == base + (('e', X),):
            k = 'snoc'
        else:
            k = ('eff', s)
        kinds.add(k)
        for f, b in tests(e, X).items():
            conds.setdefault(f, set()).add((b, k))
    return classify(kinds, conds, 'id')


def classify(kinds, conds, skip):
    if len(kinds) == 1:
        return kinds.pop()
    for f, bs in conds.items():
        if bs == {(True, 'push'), (False, skip)}:
            return ('filt', f)
        if bs == {(True, skip), (False, 'push')}:
            return ('eff', ('not', f))
    return ('eff', frozenset(kinds))


def apply_step(k, s, base):
    """fold of a step over the elements of s (the last first)"""
    if k == 'id':
        return list(base)
    if k == 'push':
        return list(s) + list(base)
    if k[0] == 'filt':
        return [('filt', k[1], a) for a in s] + list(base)
    if k == 'snoc':
        return list(base) + [rev1(a) for a in reversed(s)]
    return [('op', 'fold', (('eff', k[1]),), tuple(s), tuple(base))]


def sp_list_fold(d, l, res, body):
    if body[0] != 'clo':
        raise Undecided('an unknown callback')
    k = step(d, body, (X, R), 'List', R)
    return apply_step(k, d.seq(l), d.seq(res))


def sp_tree_fold_seq(d, tree, dir, res, leaf, bin, name):
    if any(c[0] != 'clo' for c in (leaf, bin, name)):
        raise Undecided('an unknown callback')
    k = step(d, leaf, (X, R), 'List', R)
    for b in (step(d, bin, (LEVV, R), 'List', R), step(d, name, (NMV, LEVV, R), 'List', R)):
        if b != 'id':
            k = ('eff', (k, b))
    c = d.case(dir)
    if c is None:
        raise Undecided('an unknown direction')
    s = list(d.seq(tree, 'Tree'))
    if c == 'Left':
        s = d.rev(s)
    return apply_step(k, s, d.seq(res))


def hom(d, nil, leaf, bin, name, fam, pre=()):
    """tree_fold_up with constructor-like callbacks: what happens to the leaves; pre: arguments before the others"""
    kinds, conds = set(), {}
    for e, v in outcomes(d, nil, pre):
        s = e.seq(v, fam)
        if s:
            kinds.add(('nil', s))
    for e, v in outcomes(d, leaf, pre + (X,)):
        s = e.seq(v, fam)
        k = 'push' if s == (('e', X),) else 'drop' if s == () else ('eff', s)
        kinds.add(k)
        for f, b in tests(e, X).items():
            conds.setdefault(f, set()).add((b, k))
    return classify(kinds, conds, 'drop')


def binop(d, c, args, fam):
    """what a binary callback does with the sequences of its two results"""
    out = set()
    for e, v in outcomes(d, c, args):
        a, b = list(e.seq(XL, fam)), list(e.seq(XR, fam))
        s = list(e.seq(v, fam))
        if s == a + b:
            out.add('cat')
            if fam == 'List' and not (a and b):
                out.add('merge?')
        elif fam == 'List' and s == merge(e, a, b):
            out.add('merge')
        elif s == b + a:
            out.add('swap')
        else:
            out.add(('eff', tuple(s)))
    return out


def sp_up(fam):
    def sp(d, tree, nil, leaf, bin, name):
        if any(c[0] != 'clo' for c in (nil, leaf, bin, name)):
            raise Undecided('an unknown callback')
        return up(d, tree, hom(d, nil, leaf, bin, name, fam),
                  binop(d, bin, (LEVV, XL, XR), fam) | binop(d, name, (NMV, LEVV, XL, XR), fam))
    return sp


def sp_up_dn(fam):
    def sp(d, tree, nm, nil, leaf, bin, name):
        if any(c[0] != 'clo' for c in (nil, leaf, bin, name)):
            raise Undecided('an unknown callback')
        M = ('p', '$m')
        return up(d, tree, hom(d, nil, leaf, bin, name, fam, (M,)),
                  binop(d, bin, (M, LEVV, XL, XR), fam) | binop(d, name, (M, NMV, LEVV, XL, XR), fam))
    return sp


def up(d, tree, leaf, ops):
    s = list(d.seq(tree, 'Tree'))
    if leaf == 'push':
        pass
    elif leaf == 'drop':
        s = []
    elif leaf[0] == 'filt':
        s = [('filt', leaf[1], a) for a in s]
    else:
        s = [('op', 'leaves', (('eff', leaf),), tuple(s))]
    ops = set(ops)
    if 'merge?' in ops and ops <= {'merge', 'merge?', 'cat'} and 'merge' in ops:
        ops = {'merge'}
    ops.discard('merge?')
    if ops == {'cat'}:
        return s
    if ops == {'swap'}:
        return [rev1(a) for a in reversed(s)]
    if ops == {'merge'}:
        return [('op', 'sorted', tuple(s))]
    return [('op', 'combine', (('eff', frozenset(ops)),), tuple(s))]


def sp_list_of_tree(d, tree, dir):
    c = d.case(dir)
    if c is None:
        raise Undecided('an unknown direction')
    s = list(d.seq(tree, 'Tree'))
    return s if c == 'Left' else d.rev(s)


def sp_leaves(d, tree, *_):
    return list(d.seq(tree, 'Tree'))


def sp_filter_tree(d, tree, pred):
    return [('filt', pred, a) for a in d.seq(tree, 'Tree')]


def sp_sorted(d, tree, *_):
    return [('op', 'sorted', d.seq(tree, 'Tree'))]


SEQS = {
    ('List', 'M:ListIntro::singleton'): lambda d, x: [('e', x)], ('List', 'M:ListIntro::name_art'): sp_second,
    ('List', L + 'list_map_lazy'): sp_map, ('List', L + 'list_map_eager'): sp_map, ('List', L + 'list_map_eager2'): sp_map,
    ('List', L + 'list_filter_lazy'): sp_filter, ('List', L + 'list_filter_eager'): sp_filter,
    ('List', L + 'list_reverse'): sp_reverse, ('List', L + 'list_append'): sp_append,
    ('List', L + 'list_merge'): sp_merge, ('List', L + 'list_merge_wrapper'): sp_merge,
    ('List', L + 'list_name_op'): sp_second, ('List', L + 'list_name_art_op'): sp_second,
    ('List', L + 'list_fold'): sp_list_fold,
    ('List', L + 'tree_fold_seq'): sp_tree_fold_seq,
    ('List', L + 'tree_fold_up'): sp_up('List'), ('Tree', L + 'tree_fold_up'): sp_up('Tree'),
    ('List', L + 'tree_fold_up_nm_dn'): sp_up_dn('List'), ('Tree', L + 'tree_fold_up_nm_dn'): sp_up_dn('Tree'),
    ('List', L + 'list_of_tree'): sp_list_of_tree, ('List', L + 'filter_list_of_tree'): sp_filter_tree,
    ('Tree', L + 'filter_tree_of_tree'): sp_filter_tree, ('Tree', L + 'eager_tree_of_tree'): sp_leaves,
    ('Tree', L + 'prune_tree_of_tree'): sp_leaves,
    ('List', L + 'mergesort_list_of_tree'): sp_sorted, ('List', L + 'mergesort_list_of_tree2'): sp_sorted,
    ('List', L + 'mergesort_list_of_tree3'): sp_sorted,
}


# ------------------------------------------------------------------ defining equations
def eq_list_fold(d, l, res, body):
    c = d.case(l)
    e = lambda f: d.elem(l, c, f)                                     # noqa: E731
    if c == 'Nil':
        return res
    if c == 'Cons':
        return user(body, e('hd'), call(L + 'list_fold', e('tl'), res, body))
    if c == 'Name':
        return call(L + 'list_fold', e('tl'), res, body)
    if c == 'Art':
        return call(L + 'list_fold', call('force', e('art')), res, body)


def eq_fold_seq(d, t, dir, res, leaf, bin, name):
    c = d.case(t)
    e = lambda f: d.elem(t, c, f)                                     # noqa: E731
    F = L + 'tree_fold_seq'
    if c == 'Nil':
        return res
    if c == 'Leaf':
        return user(leaf, e('x'), res)
    if c == 'Art':
        return call(F, call('force', e('art')), dir, res, leaf, bin, name)
    if c in ('Bin', 'Name'):
        k = d.case(dir)
        if k is None:
            return None
        a, b = (e('l'), e('r')) if k == 'Left' else (e('r'), e('l'))
        r = call(F, a, dir, res, leaf, bin, name)
        r = user(bin, e('lev'), r) if c == 'Bin' else user(name, e('nm'), e('lev'), r)
        return call(F, b, dir, r, leaf, bin, name)


def eq_fold_up(d, t, nil, leaf, bin, name):
    c = d.case(t)
    e = lambda f: d.elem(t, c, f)                                     # noqa: E731
    F = L + 'tree_fold_up'
    if c == 'Nil':
        return user(nil)
    if c == 'Leaf':
        return user(leaf, e('x'))
    if c == 'Art':
        return call(F, call('force', e('art')), nil, leaf, bin, name)
    if c in ('Bin', 'Name'):
        a, b = (call(F, e(s), nil, leaf, bin, name) for s in 'lr')
        return user(bin, e('lev'), a, b) if c == 'Bin' else user(name, e('nm'), e('lev'), a, b)


def eq_fold_dn(d, t, nm, nil, leaf, bin, name):
    c = d.case(t)
    e = lambda f: d.elem(t, c, f)                                     # noqa: E731
    F = L + 'tree_fold_up_nm_dn'
    if c == 'Nil':
        return user(nil, nm)
    if c == 'Leaf':
        return user(leaf, nm, e('x'))
    if c == 'Art':
        return call(F, call('force', e('art')), nm, nil, leaf, bin, name)
    if c == 'Bin':
        return user(bin, nm, e('lev'), call(F, e('l'), nm, nil, leaf, bin, name), call(F, e('r'), NONE, nil, leaf, bin, name))
    if c == 'Name':
        return user(name, nm, e('nm'), e('lev'), call(F, e('l'), nm, nil, leaf, bin, name),
                    call(F, e('r'), some(e('nm')), nil, leaf, bin, name))


def eq_trie_fold(F):
    def eq(d, t, res, f):
        c = d.case(t)
        e = lambda g: d.elem(t, c, g)                                 # noqa: E731
        if c == 'Nil':
            return res
        if c == 'Leaf':
            return user(f, e('x'), res)
        if c == 'Bin':
            return call(F, e('r'), call(F, e('l'), res, f), f)
        if c in ('Root', 'Name'):
            return call(F, e('t'), res, f)
        if c == 'Art':
            return call(F, call('force', e('art')), res, f)
    return eq


def undecided(d, k, x, y):
    """nothing on the path tells the two cases apart: no answer is right for both (else: the test is not recognised)"""
    return None if any(mentions(f, k) for f in d.facts) else ('either', x, y)


def eq_trie_find(d, t, x, i):
    c = d.case(t)
    e = lambda g: d.elem(t, c, g)                                     # noqa: E731
    F = 'M:TrieElim::find'
    if c == 'Nil':
        return NONE
    if c == 'Leaf':
        b = d.truth(('eq', e('x'), x))
        return undecided(d, x, some(e('x')), NONE) if b is None else some(e('x')) if b else NONE
    if c == 'Bin':
        b = bit0(d, i)
        at = lambda s: call(F, e(s), x, ('op', 'Shr', i, ('int', 1)))  # noqa: E731
        return undecided(d, i, at('l'), at('r')) if b is None else at('r' if b else 'l')
    if c in ('Root', 'Name'):
        return call(F, e('t'), x, i)
    if c == 'Art':
        return call(F, call('force', e('art')), x, i)


def bit0(d, i):
    for f in (('op', 'Rem', i, ('int', 2)), ('op', 'BitAnd', i, ('int', 1))):
        for z, pos in ((0, False), (1, True)):
            b = d.facts.get(('eq', ('int', z), f))
            if b is None:
                b = d.facts.get(('eq', f, ('int', z)))
            if type(b) is bool and (z == 0 or f[1] == 'BitAnd'):
                return b == pos
    return None


def eq_empty(F, fam, nil_only=False):
    def eq(d, t):
        c = d.case(t)
        e = lambda g: d.elem(t, c, g)                                 # noqa: E731
        if c is None:
            return None
        if c == 'Nil':
            return TRUE
        if c == 'Art':
            return call(F, call('force', e('art')))
        if fam == 'List':
            return FALSE if c == 'Cons' else call(F, e('tl')) if c == 'Name' else None
        if fam == 'Trie':
            return FALSE if c in ('Leaf', 'Bin') else call(F, e('t'))
        if c == 'Leaf' or nil_only:
            return FALSE
        a, b = d.truth(call(F, e('l'))), d.truth(call(F, e('r')))
        if a is False or b is False:
            return FALSE
        if a:
            return call(F, e('r'))
        if b:
            return call(F, e('l'))
        return ('and', call(F, e('l')), call(F, e('r')))
    return eq


def eq_is_name(d, t):
    c = d.case(t)
    if c in ('Nil', 'Cons'):
        return FALSE
    if c == 'Name':
        return TRUE
    if c == 'Art':
        return call('M:ListElim::is_name', call('force', d.elem(t, c, 'art')))


def eq_map_find(d, t, k):
    c = d.case(t)
    e = lambda g: d.elem(t, c, g)                                     # noqa: E731
    F = 'M:MapElim::find'
    if c == 'Nil':
        return NONE
    if c == 'Cons':
        a, b = call('out0', e('hd')), call('out1', e('hd'))
        v = d.truth(('eq', d.N(a), k))
        x, y = some(d.N(b)), call(F, e('tl'), k)
        return undecided(d, k, x, y) if v is None else x if v else y
    if c == 'Name':
        return call(F, e('tl'), k)
    if c == 'Art':
        return call(F, call('force', e('art')), k)


def eq_pop(d, t):
    c = d.case(t)
    e = lambda g: d.elem(t, c, g)                                     # noqa: E731
    if c == 'Cons':
        return ('tup', (e('hd'), e('tl')))
    if c == 'Name':
        r = call(L + 'list_pop', e('tl'))
        return ('tup', (call('out0', r), call('out1', r)))
    if c == 'Art':
        return call(L + 'list_pop', call('force', e('art')))


EQS = {
    L + 'list_fold': eq_list_fold, L + 'tree_fold_seq': eq_fold_seq, L + 'tree_fold_up': eq_fold_up,
    L + 'tree_fold_up_nm_dn': eq_fold_dn, TR + 'trie_fold': eq_trie_fold(TR + 'trie_fold'),
    'M:SetElim::fold': eq_trie_fold('M:SetElim::fold'), 'M:TrieElim::find': eq_trie_find,
    'M:TrieElim::is_empty': eq_empty('M:TrieElim::is_empty', 'Trie'),
    'M:ListElim::is_empty': eq_empty('M:ListElim::is_empty', 'List'), 'M:ListElim::is_name': eq_is_name,
    'M:TreeElim::is_empty': eq_empty('M:TreeElim::is_empty', 'Tree'),
    'M:TreeElim::is_nil': eq_empty('M:TreeElim::is_nil', 'Tree', True),
    'M:MapElim::find': eq_map_find, L + 'list_pop': eq_pop,
}
