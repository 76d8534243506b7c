"""The graph vocabulary: what the rules say about nodes, edges and frames."""
from paths import Loop, Ev
from canon import show, subterms, mentions
from roles import param_of

TRUE = ('b', True)
FALSE = ('b', False)
NONE = None
STACK = ('stack',)
TOP = ('last', STACK)
TOPSUCCS = ('.', TOP, 'succs')
PATH = ('path',)


def P(i):
    return ('p', 'arg%d' % i)


def N(L):
    return ('node', L)


def dot(t, *fs):
    for f in fs:
        t = ('.', t, f)
    return t


def preds(L):
    return ('.', N(L), 'preds')


def succs(L):
    return ('.', N(L), 'succs')


def elems(sc, coll):
    """the elements of coll that scope sc (with what encloses it) talks about"""
    out = set()
    for f in sc_facts(sc):
        for x in subterms(f):
            if x[0] == 'elem' and len(x) == 3 and x[1] == coll:
                out.add(x)
    for e in sc.events():
        for a in e.a:
            for x in subterms(a):
                if x[0] == 'elem' and len(x) == 3 and x[1] == coll:
                    out.add(x)
    return sorted(out, key=repr)


def boolv(t):
    return t[1] if type(t) is tuple and t and t[0] == 'b' else None


def is_none(t):
    return type(t) is tuple and t[0] == 'agg' and t[2] == 'None'


def some_of(t):
    """x if t is Some(x)"""
    if type(t) is tuple and t[0] == 'agg' and t[2] == 'Some':
        return t[3][0][1]
    return None


def agg(t, name):
    """fields of a struct value of the given type (last segment) or None"""
    if type(t) is tuple and t and t[0] == 'agg' and t[1].split('::')[-1] == name:
        return dict(t[3])
    return None


def variant(t):
    return t[2] if type(t) is tuple and t and t[0] == 'agg' else None


def tup(t):
    return t[1] if type(t) is tuple and t and t[0] == 'tup' else None


def field_place(pl):
    """(base, field) of a place term"""
    if type(pl) is tuple and pl and pl[0] == '.':
        return pl[1], pl[2]
    return None, None


def edge_place(pl):
    """L if pl is field `dirty` of an edge of node L: N[L].succs[*].dirty"""
    b, f = field_place(pl)
    if f == 'dirty' and b and b[0] in ('elem', 'last', 'entry') and b[1][0] == '.' and b[1][2] == 'succs' \
            and b[1][1][0] == 'node':
        return b[1][1][1], b
    return None, None


def node_place(pl):
    """(L, field) if pl is a field of the table's entry for L"""
    b, f = field_place(pl)
    if b and b[0] == 'node':
        return b[1], f
    return None, None


def dirty_calls(ctx, scope):
    """events that transitively dirty the observers of a location: (event, location)"""
    for f in ctx.role('DIRTY'):
        i = param_of(f, 'Rc<engine::Loc>')
        for e in scope.events('call'):
            if e.a[1] == f.key:
                yield e, e.a[2][i - 1]


def calls_dirty(ctx, scope, L):
    return any(x == L for _, x in dirty_calls(ctx, scope))


def own_next(scope, coll):
    return [e for e in scope.own('next') if e.a[0] == coll]


def classes(loop, coll=None, value=None):
    """the scopes inside a loop in which an element of coll (or the element `value`) is visited"""
    for it in loop.iters:
        for sc in it.scopes():
            for e in sc.own('next'):
                if coll is not None and e.a[0] == coll or value is not None and e.a[1] == value:
                    yield sc, e
                    break


def passes(scope, coll):
    """complete passes over coll at this level: lists of loops that end in exhaustion of coll"""
    loops = []
    for x in scope.items:
        if isinstance(x, Loop):
            loops.append(x)
        elif x.k == 'done' and x.a[0] == coll:
            yield [l for l in loops if any(True for _ in classes(l, coll))], x
            loops = []


def copy_of(scope, t, coll, part=None):
    """is the list t, as far as this path tells, the list coll (or the list of that component of its entries)?"""
    if part is None and t == coll:
        return True
    if t[0] != 'vec' or t[1] is not None:
        return False
    for ls, _ in passes(scope, coll):
        seen = [(sc, e.a[1] if part is None else dot(e.a[1], part)) for l in ls for sc, e in classes(l, coll)]
        es = {E for _, E in seen}
        if not seen and not t[2]:
            return True
        if seen and all(x[1] in es for x in t[2]) and all(
                any(x[1] == E and all(sc.facts.get(f) == {v} for f, v in x[2] or ()) for x in t[2]) for sc, E in seen):
            return True
    return False


def found_edge(sc, E, effect, T):
    return sc.kindof(dot(E, 'effect')) == effect and sc.eq(dot(E, 'loc'), T) is True


def edge_handled(ctx, sc, ploc, dep, T, effect):
    """is the edge ploc --effect--> T dirty (with everything above it) at the end of scope sc?"""
    for E in elems(sc, succs(ploc)):
        if not found_edge(sc, E, effect, T):
            continue
        writes = [e for e in sc.events('write') if e.a[0] == dot(E, 'dirty') and e.a[1] == TRUE]
        if writes and calls_dirty(ctx, sc, ploc):
            return True
        if sc.is_true(dot(E, 'dirty')) and not any(e.a[0] == dot(E, 'dirty') and e.a[1] != TRUE for e in sc.events('write')):
            return True
    if effect == 'Observe' and dep is not None:
        for d in (dep, ('some', dep)):
            # only the dependency's own judgement can exempt an edge, and only if it is not an abstract map
            f = dot(('call', 'engine::DCGDep::dirty', (d, ('G',), T)), 'changed')
            for g in sc_facts(sc):
                if g[0] == '.' and g[2] == 'changed' and g[1][0] == 'call' and g[1][1] == 'engine::DCGDep::dirty' \
                        and g[1][2][0] == d and g[1][2][-1] == T and sc.is_false(g):
                    m = [h for h in sc_facts(sc) if h[0] == 'var' and h[1][0] == 'call'
                         and h[1][1] == 'engine::DCGDep::is_absmap' and h[1][2][0] == d]
                    if m and sc.kindof(m[0][1]) == 'None':
                        return True
    return False


def sc_facts(sc):
    inner = []
    while sc is not None:
        for f in sc.facts:
            if not any(s.rebinds(f) for s in inner):
                yield f
        inner.append(sc)
        sc = sc.parent


def pred_handled(ctx, scope, sc, E, T, effect, after):
    """a dependent E of T, visited in scope sc (inside `scope`, before item index `after`)"""
    if edge_handled(ctx, sc, dot(E, 'loc'), dot(E, 'dep'), T, effect):
        return True
    # or remembered, and handled in a later loop
    for p in sc.own('push'):
        v = p.a[1]
        parts = tup(v) or (v,)
        if dot(E, 'loc') in parts:
            ploc = dot(E, 'loc')
            dep = dot(E, 'dep') if dot(E, 'dep') in parts else None
        elif E in parts:
            ploc, dep = dot(E, 'loc'), dot(E, 'dep')
        else:
            continue
        done = [x for x in scope.items[after:] if isinstance(x, Ev) and x.k == 'done' and mentions(x.a[0], v)]
        if not done:
            # possibly nothing was remembered on this path
            done = [x for x in scope.items[after:] if isinstance(x, Ev) and x.k == 'done' and x.a[0] == ('vec', None, ())]
            if not done:
                continue
        bad = False
        for l in scope.items[after:]:
            if isinstance(l, Loop):
                for s2, _ in classes(l, value=v):
                    if not edge_handled(ctx, s2, ploc, dep, T, effect):
                        bad = True
        if not bad:
            return True
    return False


def uncovered(ctx, scope, T, effect, own=False):
    """why some dependents of T with this effect may be left clean at the end of scope; None if all are covered"""
    if not own and effect == 'Observe' and calls_dirty(ctx, scope, T):
        return None
    coll = preds(T)
    why = 'no pass over the dependents recorded at %s' % short(T)
    for loops, done in passes(scope, coll):
        bad = None
        for l in loops:
            for sc, e in classes(l, coll):
                E = e.a[1]
                if sc.kind_not_(dot(E, 'effect'), effect):
                    continue
                if not pred_handled(ctx, scope, sc, E, T, effect, scope.items.index(done)):
                    bad = 'a dependent with effect %s is skipped when %s' % (effect, conds(sc))
        if bad is None:
            return None
        why = bad
    return why


def conds(sc, n=6):
    out = []
    for f, vs in sc.facts.items():
        out.append('%s=%s' % (show(f), '/'.join(str(b[1]) if type(b) is tuple else str(b) for b in vs)))
    return ', '.join(sorted(out)[:n])[:400]


def short(t):
    s = show(t)
    return s if len(s) < 60 else s[:57] + '...'


MUTATORS = ('write', 'extwrite', 'push', 'pop', 'insert', 'remove', 'setd', 'unknown_hof')


def graph_mutations(scope):
    """events that change the graph (not locals, traces or counters)"""
    for e in scope.events(*MUTATORS):
        if e.k == 'unknown_hof':
            continue
        pl = e.a[0]
        if in_graph(pl):
            yield e


def in_graph(pl):
    while type(pl) is tuple and pl:
        if pl[0] in ('node', 'table', 'stack', 'path', 'flag', 'flags', 'G'):
            return pl != ('G',)
        if pl[0] in ('.', 'elem', 'last', 'entry', 'some', 'hask', 'upd', 'proj'):
            pl = pl[1]
            continue
        return False
    return False


def untagged(t):
    """the term, whichever iteration its elements are of"""
    if type(t) is not tuple:
        return t
    if t and t[0] == 'elem':
        return ('elem', untagged(t[1]))
    return tuple(untagged(x) for x in t)


def found_effects(u, c):
    """effects of the edges that searches of this collection stop at"""
    c, out = untagged(c), set()
    for p in u.rets:
        for sc in p.scopes():
            own = next((e.a[1] for e in sc.own('next')), None)
            for f, vs in sc.facts.items():
                if f[0] != 'var' or f[1][0] != '.' or f[1][2] != 'effect' or untagged(f[1][1]) != ('elem', c):
                    continue
                if sc is not p and f[1][1] == own:
                    continue                    # passed over
                if any(g[0] == 'eq' and ws == {True} and any(x == dot(f[1][1], 'loc') for x in g[1:]) for g, ws in sc.facts.items()):
                    out |= set(vs)
    return out


def searched_all(u, p, c):
    """was every edge that the search passed over another one (to another target, or of another effect)?"""
    last = [i for i, x in enumerate(p.items) if isinstance(x, Ev) and x.k == 'done' and x.a[0] == c][-1]
    found = None
    if not last or not isinstance(p.items[last - 1], Loop):
        return True
    for sc in p.items[last - 1].iters:
        for e in sc.own('next'):
            if e.a[0] != c:
                continue
            other, same, kinds = False, False, set()
            for f, vs in sc.facts.items():
                if not mentions(f, e.a[1]):
                    continue
                names = [y[2] for y in subterms(f) if y[0] == '.' and len(y) == 3]
                if f[0] == 'eq' and ('loc' in names or 'effect' in names):
                    other = other or False in vs
                    same = same or 'loc' in names and True in vs
                elif f[0] == 'var' and 'effect' in names:
                    kinds |= set(vs)
            if not other and kinds:
                if found is None:
                    found = found_effects(u, c)
                other = not same or bool(found) and not kinds & found
            if not other:
                return False
    return True
