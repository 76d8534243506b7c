"""Paths through a unit: facts, events and outcome in canonical terms, with loops made explicit."""
from canon import Canon, show, mentions, subterms

CANON = Canon()


class Ev:
    __slots__ = ('k', 'a', 'raw', 'idx', 'scope')

    def __init__(self, k, a, raw, idx, scope):
        self.k, self.a, self.raw, self.idx, self.scope = k, a, raw, idx, scope

    def __repr__(self):
        return self.k + ' ' + '  '.join(show(x) for x in self.a)


def heads(t):
    """the elements that a term is made of"""
    st = [t]
    while st:
        x = st.pop()
        if type(x) is not tuple or not x:
            continue
        if x[0] == 'elem' and len(x) == 3:
            yield x
        else:
            st.extend(x)


class Loop:
    """all the iteration classes of one loop, and whether it ran to exhaustion"""
    k = 'loop'

    def __init__(self, header, scope):
        self.header, self.scope = header, scope
        self.iters, self.done = [], None
        self.idx = None

    def colls(self):
        s = {e.a[0] for it in self.iters for e in it.evs if e.k == 'next' and e.own}
        if self.done is not None:
            s.add(self.done)
        return s


class Scope:
    def __init__(self, facts, raw, parent=None, path=None):
        self.facts = facts            # canonical fact -> set of values, this scope only
        self.parent = parent
        self.path = path or self
        self.items = []
        self.bound = None
        self.build(raw)

    def build(self, raw):
        cur = None
        for i, e in enumerate(raw):
            k = e[0]
            if k == 'iter':
                if cur is None or cur.header != e[1]:
                    cur = Loop(e[1], self)
                    cur.idx = len(self.items)
                    self.items.append(cur)
                cur.iters.append(Scope(canon_facts(dict_pairs(e[2])), e[3], self, self.path))
                continue
            ev = canon_event(e, len(self.items), self)
            cur = None
            if ev is not None:
                self.items.append(ev)
        # attach 'done' to the preceding loop
    def holds(self, f):
        """values known for fact f here: True/False/('is', v)/('not', vs) or None"""
        s = self
        while s is not None:
            v = s.facts.get(f)
            if v:
                return v
            if s.rebinds(f):
                return None
            s = s.parent
        return None

    def rebinds(self, f):
        """is f about an element that this scope enumerates? Outside, it would be about another one"""
        if self.parent is None:
            return False
        b = self.bound
        if b is None:
            b = self.bound = [h for x in self.items if isinstance(x, Ev) and x.k == 'next' for h in heads(x.a[1])]
        return bool(b) and any(x in b for x in subterms(f))

    def is_true(self, f):
        v = self.holds(f)
        return v is not None and v == {True}

    def is_false(self, f):
        v = self.holds(f)
        return v is not None and v == {False}

    def kindof(self, t):
        """the variant t is known to have here"""
        if t[0] == 'agg':
            return t[2]
        v = self.holds(('var', t))
        if v and len(v) == 1:
            x = next(iter(v))
            if x[0] == 'is':
                return x[1]
        return None

    def kind_not_(self, t, name):
        """is t known not to have this variant?"""
        if t[0] == 'agg':
            return t[2] != name
        v = self.holds(('var', t))
        if v and len(v) == 1:
            x = next(iter(v))
            if x[0] == 'is':
                return x[1] != name
            return name in x[1]
        return False

    def eq(self, a, b):
        if a == b:
            return True
        for f in (('eq', a, b), ('eq', b, a)):
            v = self.holds(f)
            if v == {True}:
                return True
            if v == {False}:
                return False
        return None

    def events(self, *kinds):
        """events in this scope and in the iterations of its loops, in order"""
        for x in self.items:
            if isinstance(x, Loop):
                for it in x.iters:
                    yield from it.events(*kinds)
            elif not kinds or x.k in kinds:
                yield x

    def own(self, *kinds):
        return [x for x in self.items if isinstance(x, Ev) and (not kinds or x.k in kinds)]

    def loops(self, deep=False):
        for x in self.items:
            if isinstance(x, Loop):
                yield x
                if deep:
                    for it in x.iters:
                        yield from it.loops(True)

    def scopes(self):
        yield self
        for x in self.items:
            if isinstance(x, Loop):
                for it in x.iters:
                    yield from it.scopes()

    def all_facts(self):
        out = dict(self.facts)
        if self.parent:
            for k, v in self.parent.all_facts().items():
                out.setdefault(k, v)
        return out


def dict_pairs(fs):
    return list(fs)


def canon_facts(pairs):
    out = {}
    for t, v in pairs:
        c = CANON(t)
        if c[0] == 'not' and type(v) is bool:
            c, v = c[1], not v
        if type(v) is tuple and v[0] == 'not':
            v = ('not', frozenset(v[1]))
        out.setdefault(c, set()).add(v)
    return out


def canon_event(e, idx, scope):
    k = e[0]
    C = CANON
    if k == 'write' or k == 'extwrite':
        return Ev(k, (C.place(e[1]), C(e[2]), C(e[3])), e, idx, scope)
    if k == 'push':
        return Ev(k, (C.place(e[1]), C(e[2])), e, idx, scope)
    if k == 'pop':
        return Ev(k, (C.place(e[1]), C(e[2])), e, idx, scope)
    if k == 'insert':
        return Ev(k, (C.place(e[1]), C(e[2]), C(e[3])), e, idx, scope)
    if k == 'remove':
        return Ev(k, (C.place(e[1]), C(e[2])), e, idx, scope)
    if k == 'call':
        return Ev('call', (e[1], e[2], C(e[3])), e, idx, scope)
    if k == 'dyn':
        return Ev('dyn', (e[1] + '::' + e[2], C(e[3])), e, idx, scope)
    if k == 'user':
        return Ev('user', (C(e[1]), C(e[2])), e, idx, scope)
    if k == 'next':
        return Ev('next', (C(e[2]), C(e[3])), e, idx, scope)
    if k == 'done':
        return Ev('done', (C(e[2]),), e, idx, scope)
    if k == 'trace':
        return Ev('trace', (e[1], C(e[2])), e, idx, scope)
    if k in ('setd',):
        return Ev('setd', (C.place(e[1]), e[2]), e, idx, scope)
    return Ev(k, tuple(C(x) if type(x) is tuple else x for x in e[1:]), e, idx, scope)


class Path(Scope):
    def __init__(self, kind, val, st):
        self.kind, self.st = kind, st
        self.rawval = val
        self.val = CANON(val) if kind == 'ret' else (val[0], CANON(val[1])) + tuple(val[2:])
        super().__init__(canon_facts(st.facts.items()), st.events)




def dump(sc, ind='  ', cut=150):
    out = []
    for x in sc.items:
        if isinstance(x, Loop):
            for it in x.iters:
                out.append(ind + 'ITER {' + ', '.join('%s=%s' % (show(f), '/'.join(str(b[1]) if type(b) is tuple else str(b) for b in v)) for f, v in it.facts.items()) + '}')
                out += dump(it, ind + '   ', cut)
        else:
            out.append((ind + repr(x))[:cut])
    return out
