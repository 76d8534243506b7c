"""Canonical view of what the abstract interpreter reports.

Terms are rewritten into a small vocabulary that does not depend on where a value is read from
(which parameter or global holds the graph), on labels, or on the shape of the loops that visited it:

  ('node', L)          the graph's table entry for location L
  ('has', L)           whether the table has an entry for L
  ('G',)               the graph itself;  ('stack',) ('path',) ('flag', f) its parts
  ('.', b, f)          field f of b (node-kind projections are dropped: a MutNode.preds is node.preds)
  ('some', b)          payload of an Option known to be Some
  ('elem', c)          an element of collection c;  ('last', c) its last element;  ('entry', c, k)
"""
import functools

GFIELDS = {'engine::DCG.table', 'engine::DCG.stack', 'engine::DCG.path', 'engine::DCG.flags', 'engine::DCG.cnt'}
NODES = {'Mut', 'Comp', 'Pure'}


def short(f):
    """engine::Succ.loc -> loc"""
    return f.split('.')[-1]


class Canon:
    def __init__(self):
        self.memo = {}
        self.tags = {}

    def __call__(self, t):
        if type(t) is not tuple:
            if type(t) is frozenset:
                return frozenset(self(x) for x in t)
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.c(t)
        return r

    def tag(self, lab):
        """a small number for each program point that enumerates a collection"""
        def base(x):
            if type(x) is tuple:
                if len(x) > 2 and x[0] in ('@', '@o', '@v'):
                    return ('@', x[1], x[2])
                return tuple(base(y) for y in x)
            return x
        return self.tags.setdefault(base(lab), len(self.tags))

    def seq(self, ts):
        return tuple(self(x) for x in ts)

    def place(self, p):
        root, proj = p
        # the graph may be reached through any parameter or global
        for i, e in enumerate(proj):
            if e[0] == 'f' and e[1] in GFIELDS:
                return self.proj(('G',), proj[i:])
        if root[0] == 'O':
            if root[1][0] == 'static':
                base = ('static', root[1][1])
                if root[1][1].endswith('GLOBALS'):
                    names = [e[1] for e in proj if e[0] == 'f']
                    if names and short(names[-1]) == '0' and 'Engine' in names[-1]:
                        return ('G',)
            else:
                base = self(root[1])
        elif root[0] == 'L':
            base = ('local', root[2]) if len(root) > 2 else ('local',)
        else:
            base = self(root)
        return self.proj(base, proj)

    def proj(self, b, proj):
        i, n = 0, len(proj)
        while i < n:
            e = proj[i]
            k = e[0]
            if k == 'f':
                name = e[1]
                if name == 'engine::DCG.table':
                    if i + 1 < n and proj[i + 1][0] == 'k':
                        L = self(proj[i + 1][1])
                        i += 2
                        if i < n and proj[i][0] == 'has':
                            b = ('has', L)
                            i += 1
                        else:
                            b = ('node', L)
                        continue
                    b = ('table',)
                elif name == 'engine::DCG.stack':
                    b = ('stack',)
                elif name == 'engine::DCG.path':
                    b = ('path',)
                elif name == 'engine::DCG.cnt':
                    b = ('cnt',)
                elif name.startswith('engine::Flags.'):
                    b = ('flag', short(name))
                elif name == 'engine::DCG.flags':
                    b = ('flags',)
                elif name.startswith('engine::Node.'):
                    pass
                elif name.startswith('tup.'):
                    b = ('.', b, short(name))
                else:
                    b = self.field(b, short(name))
            elif k == 'v':
                nx = proj[i + 1] if i + 1 < n else None
                if e[1] in NODES and nx and nx[0] == 'f' and nx[1].startswith('engine::Node.'):
                    i += 2
                    continue
                if e[1] == 'Some' and nx and nx[0] == 'f' and short(nx[1]) == '0':
                    b = ('some', b)
                    i += 2
                    continue
                if nx and nx[0] == 'f':
                    b = self.field(b, e[1] + '.' + short(nx[1]))
                    i += 2
                    continue
            elif k == 'e':
                b = ('elem', b, self.tag(e[1:]))
            elif k == 'last':
                b = ('last', b)
            elif k == 'k':
                b = ('entry', b, self(e[1]))
            elif k == 'has':
                b = ('hask', b)
            elif k == 'x':
                pass
            else:
                b = ('proj', b) + tuple(self(x) for x in e)
            i += 1
        return b

    def field(self, b, f):
        if b[0] == 'agg':
            for n, x in b[3]:
                if n == f or n == f.split('.')[-1] and f.split('.')[0] == b[2]:
                    return x
        return ('.', b, f)

    def c(self, t):
        if not t:
            return t
        k = t[0]
        if type(k) is not str:
            return self.seq(t)
        if k in ('@', '@o', '@v') and len(t) > 1:
            return ('@',)
        if k == 'mem':
            return self.place(t[1])
        if k == 'ref':
            return self.place(t[1])
        if k == 'agg':
            return ('agg', t[1], t[2], tuple((short(n), self(x)) for n, x in t[3]))
        if k == 'upd':
            b = self(t[1])
            if b in (('G',), ('table',), ('stack',)):
                return b
            return ('upd', b) + self.seq(t[2:])
        if k == 'call':
            nm = t[1] if type(t[1]) is str else ('fn',) + (self(t[1]),)
            return ('call', nm, self.seq(t[2]))
        if k == 'elemof' or (k == 'elem' and len(t) == 3):
            return ('elem', self(t[1]), self.tag(t[2:]))
        if k == 'p':
            return ('G',) if len(t) > 2 else ('p', t[1])
        if k == 'clo':
            return ('clo', t[1], self.seq(t[2]))
        return (k,) + self.seq(t[1:])


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if x:
                yield x
                st.extend(x)
        elif type(x) is frozenset:
            st.extend(x)


def mentions(t, x):
    return any(y == x for y in subterms(t))


def show(t):
    if type(t) is not tuple:
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if type(k) is not str:
        return '(' + ', '.join(show(x) for x in t) + ')'
    if k == '.':
        return show(t[1]) + '.' + t[2]
    if k == 'node':
        return 'N[' + show(t[1]) + ']'
    if k == 'elem':
        return show(t[1]) + ('[*%s]' % (t[2] if len(t) > 2 else ''))
    if k == 'last':
        return show(t[1]) + '[last]'
    if k == 'some':
        return show(t[1]) + '!'
    if k == 'p':
        return t[1]
    if k in ('G', 'stack', 'path', 'table'):
        return k
    if k == 'flag':
        return 'flag.' + t[1]
    if k == 'b':
        return str(bool(t[1]))
    if k == 'agg':
        n = t[1].split('::')[-1]
        h = n if t[2] == n else n + '::' + str(t[2])
        return h + ('{' + ', '.join('%s:%s' % (a, show(b)) for a, b in t[3]) + '}' if t[3] else '')
    if k == 'eq':
        return '(%s == %s)' % (show(t[1]), show(t[2]))
    if k == 'not':
        return '!' + show(t[1])
    if k == 'var':
        return 'kind(%s)' % show(t[1])
    if k == 'call':
        n = t[1] if type(t[1]) is str else show(t[1])
        return '%s(%s)' % ('::'.join(n.split('::')[-2:]), ', '.join(show(x) for x in t[2]))
    if k == 'clo':
        return 'closure(%s)' % t[1].split('::', 1)[-1]
    if k == 'tup':
        return '(' + ', '.join(show(x) for x in t[1]) + ')'
    if k == 'static':
        return t[1].split('::')[-1]
    return k + '(' + ', '.join(show(x) for x in t[1:]) + ')'
