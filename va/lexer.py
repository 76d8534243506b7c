"""A byte-at-a-time abstraction of a tokeniser's MIR, compared with the grammar's own automaton.
The byte being read is a set of bytes that branches split exactly; text gathered so far is known relative
to the grammar's current lexeme.  What is not understood makes the comparison undecided."""

ALL = frozenset(range(256))
NEW = 'new'


def rng(a, b):
    return frozenset(range(ord(a), ord(b) + 1))


DIGIT = rng('0', '9')
ALPHA = rng('a', 'z') | rng('A', 'Z') | {ord('_')}
PUNCT = {':': ('Colon', None), ',': ('Comma', None), '{': ('Left', 'Brace'), '[': ('Left', 'Bracket'), '(': ('Left', 'Paren'),
         '}': ('Right', 'Brace'), ']': ('Right', 'Bracket'), ')': ('Right', 'Paren')}
ENDS = frozenset(map(ord, ' ,)]}:'))
TEXT = frozenset(range(32, 127)) - {ord('"'), ord('\\')}

CLASSES = {
    'is_ascii_digit': DIGIT, 'is_ascii_lowercase': rng('a', 'z'), 'is_ascii_uppercase': rng('A', 'Z'),
    'is_ascii_alphabetic': rng('a', 'z') | rng('A', 'Z'), 'is_ascii_alphanumeric': rng('a', 'z') | rng('A', 'Z') | DIGIT,
    'is_ascii_whitespace': frozenset((9, 10, 12, 13, 32)), 'is_ascii': frozenset(range(128)),
}


def punct(c):
    v, b = PUNCT[c]
    return ('tok', v, b)


class Undecided(Exception):
    pass


class Wrong(Exception):
    pass


def spec_classes(state):
    """the bytes that may come next in the given state of the grammar, grouped by what they mean"""
    k = state[0]
    if k == 'START':
        yield frozenset((32,))
        for c in PUNCT:
            yield frozenset((ord(c),))
        yield frozenset((ord('"'),))
        yield frozenset((ord('-'),))
        yield DIGIT
        yield ALPHA
    elif k == 'STR':
        yield frozenset((ord('"'),))
        yield TEXT
    elif k == 'NUM':
        yield DIGIT
        if state[2]:
            for c in sorted(ENDS):
                yield frozenset((c,))
    elif k == 'ID':
        yield DIGIT | ALPHA
        for c in sorted(ENDS | frozenset(map(ord, '([{'))):
            yield frozenset((c,))


def spec_step(state, lex, cls):
    """(state, lexeme, emissions) after a byte of class cls"""
    b = min(cls)
    c = chr(b)
    k = state[0]
    if k == 'STR':
        if c == '"':
            return ('START',), (), (('str', lex),)
        return ('STR',), lex + (NEW,), ()
    if k == 'NUM' and cls == DIGIT:
        return ('NUM', state[1], True), lex + (NEW,), ()
    if k == 'ID' and cls == DIGIT | ALPHA:
        return ('ID',), lex + (NEW,), ()
    out = spec_end(state, lex)
    if c == ' ':
        return ('START',), (), out
    if c in PUNCT:
        return ('START',), (), out + (punct(c),)
    if c == '"':
        return ('STR',), (), out
    if c == '-':
        return ('NUM', 'isize', False), (NEW,), out
    if cls == DIGIT:
        return ('NUM', 'usize', True), (NEW,), out
    return ('ID',), (NEW,), out


def spec_end(state, lex):
    k = state[0]
    if k == 'NUM':
        return (('num', state[1], lex),)
    if k == 'ID':
        return (('ident', lex),)
    return ()


class St:
    """one path of the implementation: frames of (function, environment, destination, continuation)"""
    __slots__ = ('frames', 'bb', 'set', 'out', 'want')

    def __init__(self, frames, bb, bset, out, want):
        self.frames, self.bb, self.set, self.out, self.want = frames, bb, bset, out, want

    def copy(self, bset=None):
        return St([(f, dict(e), d, n) for f, e, d, n in self.frames], self.bb, self.set if bset is None else bset, self.out, self.want)


def narrow(v, who, to):
    if type(v) is tuple:
        if len(v) == 2 and v[0] == 'b' and v[1] == who:
            return ('b', to)
        return tuple(narrow(x, who, to) for x in v)
    return v


class Lexer:
    def __init__(self, prog, fn):
        self.prog = prog
        self.fn = fn
        self.steps = 0

    # -- values ----------------------------------------------------------------------------------------------
    def get(self, st, place, fi=None):
        return self.read(st, self.addr(st, place, fi))

    def addr(self, st, place, fi=None):
        """(frame, local, projection) with references resolved"""
        fi = len(st.frames) - 1 if fi is None else fi
        cur = (fi, place['l'], ())
        ps = place['p']
        for i, e in enumerate(ps):
            if e == '*':
                v = self.read(st, cur)
                if v[0] == 'ref':
                    cur = v[1]
                elif v[0] == 'box':
                    cur = (0, v[1], ())
                elif v[0] in ('b', 'int'):
                    cur = ('val', v, ())
                else:
                    raise Undecided('dereference of %s' % (v[0],))
            elif isinstance(e, dict) and 'v' in e:
                cur = cur[:2] + (cur[2] + (('v', e['v']),),)
            elif isinstance(e, dict) and 'f' in e:
                if e.get('o') in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop'):
                    continue
                cur = cur[:2] + (cur[2] + (('f', e['f']),),)
            else:
                raise Undecided('projection %s' % (e,))
        return cur

    def read(self, st, a):
        fi, l, proj = a
        if fi == 'val':
            return l
        env = st.frames[fi][1]
        if l not in env:
            raise Undecided('unset local %s' % (l,))
        v = env[l]
        for k, n in proj:
            if k == 'v':
                if v[0] == 'agg' and v[2] != n:
                    raise Undecided('downcast')
                continue
            if v[0] == 'agg':
                d = dict(v[3])
                if n not in d:
                    raise Undecided('field')
                v = d[n]
            else:
                raise Undecided('field %s of %s' % (n, v[0]))
        return v

    def write(self, st, a, val):
        fi, l, proj = a
        if fi == 'val':
            raise Undecided('store through a copy')
        env = st.frames[fi][1]
        if not proj:
            env[l] = val
            return
        env[l] = self.upd(env.get(l), proj, val)

    def upd(self, v, proj, val):
        if not proj:
            return val
        k, n = proj[0]
        if k == 'v':
            return self.upd(v, proj[1:], val)
        if v is None or v[0] != 'agg':
            raise Undecided('store into %s' % (v and v[0],))
        fs = [(x, self.upd(y, proj[1:], val) if x == n else y) for x, y in v[3]]
        return ('agg', v[1], v[2], tuple(fs))

    def operand(self, st, x):
        if 'c' in x:
            c = x['c']
            if 'bits' in c:
                return ('int', int(c['bits']))
            if c.get('fn'):
                return ('fn', c['fn'].get('key') or c['fn'].get('dk'))
            return ('unk',)
        p = x.get('mv') or x.get('cp')
        v = self.get(st, p)
        if 'mv' in x and not p['p'] and v[0] not in ('ref',):
            st.frames[-1][1].pop(p['l'], None)
        return v

    # -- conditions over the byte ----------------------------------------------------------------------------
    def binop(self, o, a, b):
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            r = {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}.get(o)
            if r is None:
                r = {'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(o)
            if r is None:
                return ('unk',)
            return ('int', int(r))
        if b[0] == 'len' and a[0] == 'int':
            o = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(o, o)
            a, b = b, a
        if a[0] == 'len' and b[0] == 'int':
            w, n = a[1], b[1]
            if not any(x in ('L', 'K', '?') for x in w):
                return self.binop(o, ('int', len(w)), b)
            # any length from the number of its items up
            lo = len(w)
            if n < lo:
                return ('int', int(o in ('Gt', 'Ge', 'Ne')))
            if n == lo and o in ('Lt', 'Ge'):
                return ('int', int(o == 'Ge'))
            return ('any',)
        if b[0] == 'b' and a[0] == 'int':
            o = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(o, o)
            a, b = b, a
        if a[0] == 'b' and b[0] == 'int':
            n = b[1]
            f = {'Eq': lambda x: x == n, 'Ne': lambda x: x != n, 'Lt': lambda x: x < n, 'Le': lambda x: x <= n,
                 'Gt': lambda x: x > n, 'Ge': lambda x: x >= n}.get(o)
            if f:
                return self.cond(a[1], frozenset(x for x in ALL if f(x)))
        if a[0] == 'b' and b[0] == 'b' and a == b:
            if o in ('Eq', 'Le', 'Ge'):
                return ('int', 1)
            if o in ('Ne', 'Lt', 'Gt'):
                return ('int', 0)
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if a[0] == 'int' and b[0] == 'cond':
                a, b = b, a
            if a[0] == 'cond' and b[0] == 'int':
                if o == 'BitAnd':
                    return a if b[1] else ('int', 0)
                if o == 'BitOr':
                    return ('int', 1) if b[1] else a
            if a[0] == 'cond' and b[0] == 'cond':
                s, t = a[1], b[1]
                return ('cond', s & t if o == 'BitAnd' else s | t if o == 'BitOr' else s ^ t)
        return ('unk',)

    def cond(self, who, t):
        """is the byte in t?"""
        if who == NEW:
            return ('cond', t)
        if who <= t:
            return ('int', 1)
        if not (who & t):
            return ('int', 0)
        return ('ocond', who, t)

    def rvalue(self, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, r['x'])
        if k == 'cast':
            if r['ck'] == 'BoxDerefTransmute':
                p = r['x'].get('cp') or r['x'].get('mv')
                v = self.get(st, {'l': p['l'], 'p': []})
                if v[0] != 'box':
                    raise Undecided('box')
                return ('ref', (0, v[1], ()))
            v = self.operand(st, r['x'])
            if r['ck'] == 'IntToInt':
                to = self.fn.tys[r['t']]['s']
                if v[0] == 'b' and to in ('char', 'u8', 'u32', 'u16', 'u64', 'usize', 'i32', 'i64', 'isize'):
                    return v
                if v[0] == 'int':
                    return v
                return ('unk',)
            if r['ck'].startswith('PointerCoercion'):
                return v
            return ('unk',)
        if k == 'bin':
            a, b = self.operand(st, r['a']), self.operand(st, r['b'])
            return self.binop(r['o'], a, b)
        if k == 'un':
            v = self.operand(st, r['x'])
            if r['o'] == 'Not' and v[0] == 'int':
                return ('int', 1 - v[1]) if v[1] in (0, 1) else ('unk',)
            if r['o'] == 'Not' and v[0] == 'cond':
                return ('cond', ALL - v[1])
            if r['o'] == 'Not' and v[0] == 'ocond':
                return ('ocond', v[1], ALL - v[2])
            return ('unk',)
        if k == 'discr':
            v = self.get(st, r['p'])
            if v[0] == 'agg':
                return ('discr', v[1], v[2])
            return ('unk',)
        if k == 'agg':
            if r.get('array'):
                return ('arr', tuple(self.item(self.operand(st, x)) for x in r['xs']))
            if r.get('adt'):
                return ('agg', r['adt'], r['v'], tuple(zip(r['fs'], [self.operand(st, x) for x in r['xs']])))
            if 'closure' in r:
                return ('clo', r['closure'])
            if not r.get('closure'):
                return ('agg', '', '', tuple((str(i), self.operand(st, x)) for i, x in enumerate(r['xs'])))
            return ('unk',)
        if k in ('ref', 'rawptr', 'addr'):
            return ('ref', self.addr(st, r['p']))
        return ('unk',)

    def item(self, v):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'agg':
            return v
        if v[0] == 'int':
            return ('int', v[1])
        raise Undecided('item %s' % (v[0],))

    # -- emissions -------------------------------------------------------------------------------------------
    def token(self, v):
        if v[0] != 'agg':
            raise Undecided('token')
        fs = dict(v[3])
        if v[2] in ('Colon', 'Comma'):
            return ('tok', v[2], None)
        x = fs.get('0')
        if x is None:
            raise Undecided('token')
        if v[2] in ('Left', 'Right') and x[0] == 'agg':
            return ('tok', v[2], x[2])
        if v[2] == 'Ident' and x[0] == 'str':
            return ('ident', x[1])
        if v[2] == 'Const' and x[0] == 'agg':
            y = dict(x[3]).get('0')
            if x[2] == 'String' and y and y[0] == 'str':
                return ('str', y[1])
            if x[2] in ('Num', 'Nat') and y and y[0] == 'parsed':
                return ('num', y[1], y[2])
        raise Undecided('token %s' % (v,))

    # -- running ---------------------------------------------------------------------------------------------
    def run(self):
        """Explore the product with the grammar: yields (state, class of the byte or None, set of bytes, what happened, tokens made, tokens due)"""
        st = St([(self.fn, {1: ('in', False, None)}, None, None)], 0, ALL, (), ())
        seen = set()
        work = [(st, None, None, ('START',), ())]
        while work:
            st, before, cls, sp, lex = work.pop()
            for what, s in self.until_pop(st):
                n = min(len(s.out), len(s.want))
                if what != 'pop' or s.out[:n] != s.want[:n] or len(s.out) > n or len(s.want) - n > 3:
                    yield before, cls, s.set, what, s.out, s.want, False
                    continue
                if cls is not None:
                    yield before, cls, s.set, what, s.out, s.want, True
                s.out, s.want = (), s.want[n:]
                self.rename(s, lex)
                lex2 = ('L',) if lex else ()
                key = (self.freeze(s), sp, lex2)
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) > 4000:
                    raise Undecided('too many states')
                if sp[0] in ('START', 'ID') or sp[0] == 'NUM' and sp[2]:
                    e = s.copy(frozenset())
                    e.want = e.want + spec_end(sp, lex2)
                    self.feed(e, None)
                    for w2, s2 in self.until_pop(e, at_end=True):
                        yield sp, None, frozenset(), w2, s2.out, s2.want, w2 == 'ret' and s2.out == s2.want
                for c in spec_classes(sp):
                    sp2, lx2, em = spec_step(sp, lex2, c)
                    b = s.copy(c)
                    b.want = b.want + em
                    self.feed(b, ('b', NEW))
                    work.append((b, sp, c, sp2, lx2))

    def rename(self, s, lex):
        """the byte just read becomes an old one; text equal to the grammar's lexeme is known as such"""
        old = s.set
        fresh = not lex or lex[0] != 'L'

        def g(w):
            if type(w) is not tuple:
                return w
            if lex and w == lex:
                return ('L',)
            out = []
            for x in w:
                if x == NEW:
                    out.append(('old', old))
                elif x == 'L':
                    out.append('K' if fresh else '?')
                else:
                    out.append(x)
            if len(out) > 3:
                out = ['?']
            return tuple(out)

        def v(x):
            if type(x) is tuple:
                if x == ('b', NEW):
                    return ('b', old)
                if x and x[0] == 'cond':
                    if old <= x[1]:
                        return ('int', 1)
                    if not (old & x[1]):
                        return ('int', 0)
                    return ('unk',)
                if x and x[0] in ('vec', 'str', 'arr'):
                    return (x[0], g(x[1]))
                if x and x[0] == 'parsed':
                    return (x[0], x[1], g(x[2]))
                return tuple(v(y) for y in x)
            return x
        s.frames = [(f, {l: v(x) for l, x in e.items()}, d, n) for f, e, d, n in s.frames]
        s.want = tuple((w[0],) + tuple(g(x) if type(x) is tuple else x for x in w[1:]) for w in s.want)

    def freeze(self, s):
        fr = []
        for f, e, d, n in s.frames:
            bb = s.bb if f is s.frames[-1][0] and (f, e, d, n) is s.frames[-1] else n
            fr.append((f.key, tuple(sorted(((str(k), v) for k, v in e.items()), key=lambda x: x[0])), str(d), n))
        return (tuple(fr), s.bb, s.want)

    def feed(self, s, v):
        """complete the pop that s is waiting at"""
        f, e, d, n = s.frames[-1]
        t = f.blocks[s.bb]['t']
        val = ('agg', 'Option', 'None', ()) if v is None else ('agg', 'Option', 'Some', (('0', v),))
        self.popdone(s, t, val)

    def popdone(self, s, t, val):
        name = t['f']['c']['fn']['p'].split('::')[-1]
        if name == 'peek':
            cell = self.inaddr(s, t)
            v = self.read(s, cell)
            byte = val[3][0][1] if val[2] == 'Some' else None
            self.write(s, cell, ('in', v[1], byte if byte is not None else 'end'))
        self.write(s, self.addr(s, t['d']), val)
        s.bb = t['t']

    def inaddr(self, s, t):
        x = t['a'][0]
        p = x.get('mv') or x.get('cp')
        v = self.get(s, p)
        if v[0] == 'ref':
            return self.deref(s, v)
        return None

    def deref(self, s, v):
        a = v[1]
        while True:
            x = self.read(s, a)
            if x[0] == 'ref':
                a = x[1]
            else:
                return a

    def until_pop(self, st, at_end=False):
        """run st to its next read of a new byte (or its end), splitting on the byte's set"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            while True:
                self.steps += 1
                if self.steps > 400000:
                    raise Undecided('budget')
                f, env, d, n = s.frames[-1]
                b = f.blocks[s.bb]
                r = self.block(s, b, at_end)
                if r == 'go':
                    continue
                if r in ('pop', 'ret', 'fail'):
                    out.append((r, s))
                elif isinstance(r, list):
                    work.extend(r)
                break
        return out

    def stmts(self, s, b):
        env = s.frames[-1][1]
        for x in b['s']:
            k = x['k']
            if k == '=':
                v = self.rvalue(s, x['r'])
                a = self.addr(s, x['p'])
                if not x['p']['p']:
                    env[x['p']['l']] = v
                else:
                    self.write(s, a, v)
            elif k == 'dead':
                env.pop(x['l'], None)
            elif k in ('live', 'nop', 'fake'):
                pass
            elif k == 'setd':
                raise Undecided('set discriminant')

    def block(self, s, b, at_end):
        t = b['t']
        k = t['k']
        self.stmts(s, b)
        if k == 'goto':
            s.bb = t['t']
            return 'go'
        if k == 'drop':
            s.bb = t['t']
            return 'go'
        if k == 'assert':
            if t['m'].startswith(('Misaligned', 'NullPointer')):
                s.bb = t['t']
                return 'go'
            v = self.operand(s, t['x'])
            if v[0] == 'int':
                if v[1] == int(t['e']):
                    s.bb = t['t']
                    return 'go'
                return 'fail'
            raise Undecided('assertion')
        if k == 'switch':
            return self.switch(s, t)
        if k == 'return':
            f, env, d, n = s.frames[-1]
            v = env.get(0, ('agg', '', '', ()))
            if len(s.frames) == 1:
                if v[0] == 'vec':
                    if v[1] == () or v[1] == ('toks',):
                        return 'ret'
                raise Undecided('result')
            s.frames.pop()
            self.write(s, d, v)
            s.bb = n
            return 'go'
        if k == 'call':
            return self.call(s, t, at_end)
        if k == 'unreachable':
            raise Undecided('unreachable')
        raise Undecided(k)

    def switch(self, s, t):
        v = self.operand(s, t['x'])
        if v[0] == 'int':
            for x, to in t['ts']:
                if int(x) == v[1]:
                    s.bb = to
                    return 'go'
            s.bb = t['o']
            return 'go'
        if v[0] == 'discr':
            i = self.variant(v)
            for x, to in t['ts']:
                if int(x) == i:
                    s.bb = to
                    return 'go'
            s.bb = t['o']
            return 'go'
        if v[0] == 'cond':
            return self.split(s, [(v[1] if x == '1' else ALL - v[1], to) for x, to in t['ts']], t['o'])
        if v[0] == 'ocond':
            return self.osplit(s, v[1], [(v[2] if x == '1' else ALL - v[2], to) for x, to in t['ts']], t['o'])
        if v[0] == 'any':
            out = []
            for to in [to for _, to in t['ts']] + [t['o']]:
                y = s.copy()
                y.bb = to
                out.append(y)
            return out
        if v[0] == 'b':
            if v[1] == NEW:
                return self.split(s, [(frozenset((int(x),)), to) for x, to in t['ts'] if int(x) < 256], t['o'])
            if len(v[1]) == 1:
                n = min(v[1])
                for x, to in t['ts']:
                    if int(x) == n:
                        s.bb = to
                        return 'go'
                s.bb = t['o']
                return 'go'
            return self.osplit(s, v[1], [(frozenset((int(x),)), to) for x, to in t['ts'] if int(x) < 256], t['o'])
        raise Undecided('branch on %s' % (v[0],))

    def split(self, s, cases, other):
        out = []
        rest = s.set
        for c, to in cases:
            m = rest & c
            if m:
                y = s.copy(m)
                y.bb = to
                out.append(y)
            rest = rest - c
        if rest:
            y = s.copy(rest)
            y.bb = other
            out.append(y)
        return out

    def osplit(self, s, who, cases, other):
        """split on what an earlier byte was"""
        out = []
        rest = who
        for c, to in cases + [(ALL, other)]:
            m = rest & c
            if m:
                y = s.copy()
                y.frames = [(f, {l: narrow(v, who, m) for l, v in e.items()}, d, n) for f, e, d, n in y.frames]
                y.bb = to
                out.append(y)
            rest = rest - c
        return out

    def variant(self, v):
        if v[1] in ('Option', 'std::option::Option'):
            return {'None': 0, 'Some': 1}[v[2]]
        d = self.prog.adts.get(v[1])
        if d:
            for i, x in enumerate(d['variants']):
                if x['name'] == v[2]:
                    return i
        raise Undecided('variant of %s' % (v[1],))

    def call(self, s, t, at_end):
        fn = t['f'].get('c', {}).get('fn')
        if not fn:
            v = self.operand(s, t['f']) if 'c' not in t['f'] else ('unk',)
            g = self.prog.fns.get(v[1]) if v[0] in ('fn', 'clo') else None
            if g is None or len(s.frames) > 6 or t['t'] is None:
                raise Undecided('indirect call')
            args = [self.operand(s, x) for x in t['a']]
            if v[0] == 'clo':
                args = [('unk',)] + args
            s.frames.append((g, {i + 1: x for i, x in enumerate(args)}, self.addr(s, t['d']), t['t']))
            s.bb = 0
            return 'go'
        name = fn['p'].split('::')[-1]
        full = fn['p']
        # reads of the input
        if name in ('pop', 'next', 'peek') and t['a']:
            x = t['a'][0]
            p = x.get('mv') or x.get('cp')
            v = self.get(s, p)
            a = self.deref(s, v) if v[0] == 'ref' else None
            if a is not None:
                iv = self.read(s, a)
                if iv[0] == 'in':
                    if (name == 'pop') != (iv[1] is True):
                        raise Wrong('the text is read from its end')
                    if iv[2] is not None:
                        byte = iv[2]
                        if name != 'peek':
                            self.write(s, a, ('in', iv[1], None))
                        val = ('agg', 'Option', 'None', ()) if byte == 'end' else ('agg', 'Option', 'Some', (('0', byte),))
                        self.write(s, self.addr(s, t['d']), val)
                        s.bb = t['t']
                        return 'go'
                    if at_end:
                        # nothing is left, however often it is asked
                        self.popdone(s, t, ('agg', 'Option', 'None', ()))
                        return 'go'
                    return 'pop'
        key = fn.get('key')
        if key in self.prog.fns and fn.get('local') and t['t'] is not None:
            g = self.prog.fns[key]
            if len(s.frames) > 6:
                raise Undecided('depth')
            args = [self.operand(s, x) for x in t['a']]
            d = self.addr(s, t['d'])
            s.frames.append((g, {i + 1: x for i, x in enumerate(args)}, d, t['t']))
            s.bb = 0
            return 'go'
        if t['t'] is None:
            return 'fail'
        args = [self.operand(s, x) for x in t['a']]
        v = self.prim(s, name, full, args, t)
        self.write(s, self.addr(s, t['d']), v)
        s.bb = t['t']
        return 'go'

    def prim(self, s, name, full, args, t):
        a = args[0] if args else None
        cell = self.deref(s, a) if a is not None and a[0] == 'ref' else None
        v = self.read(s, cell) if cell else a
        if name in ('new', 'with_capacity') and ('Vec' in full or 'String' in full):
            return ('str' if 'String' in full else 'vec', ())
        if name == 'new_uninit':
            h = ('h', s.frames[-1][0].key, s.bb)
            return ('box', h)
        if name == 'box_assume_init_into_vec_unsafe' and a[0] == 'box':
            w = s.frames[0][1].pop(a[1], None)
            if not w or w[0] != 'arr':
                raise Undecided('vec')
            return ('vec', w[1])
        if name in ('len', 'is_empty') and v and v[0] == 'in':
            return ('unk',)
        if name in ('deref_mut', 'deref', 'as_str', 'as_ref', 'as_mut', 'as_mut_slice', 'by_ref', 'borrow') and cell:
            return ('ref', cell)
        if name in ('into_iter', 'iter', 'chars', 'bytes', 'peekable', 'copied', 'cloned') and v[0] == 'in':
            return v
        if name == 'rev' and v[0] == 'in':
            raise Undecided('rev')
        if name == 'reverse' and v[0] == 'in' and v[2] is None:
            self.write(s, cell, ('in', not v[1], None))
            return ('agg', '', '', ())
        if name == 'push' and cell and v[0] == 'in':
            x = args[1]
            if v[1] is True and v[2] is None and x[0] == 'b' and x[1] == NEW:
                self.write(s, cell, ('in', True, x))
                return ('agg', '', '', ())
            raise Undecided('text put back')
        if name == 'push' and cell and v[0] in ('vec', 'str'):
            x = args[1]
            if v[0] == 'vec' and x[0] == 'agg' and x[1].endswith('Tok'):
                if v[1] not in ((), ('toks',)):
                    raise Undecided('tokens')
                s.out = s.out + (self.token(x),)
                self.write(s, cell, ('vec', ('toks',)))
                return ('agg', '', '', ())
            self.write(s, cell, (v[0], v[1] + (self.item(x),)))
            return ('agg', '', '', ())
        if name in ('is_empty', 'len') and v and v[0] in ('vec', 'str') and 'toks' not in v[1]:
            if name == 'len':
                return ('len', v[1])
            return ('int', 0) if v[1] else ('int', 1)
        if name == 'clear' and cell and v[0] in ('vec', 'str'):
            self.write(s, cell, (v[0], ()))
            return ('agg', '', '', ())
        if name in ('into_iter', 'iter', 'clone', 'to_string', 'to_owned', 'cloned', 'copied', 'into', 'from') and v and v[0] in ('vec', 'str') and 'toks' not in v[1]:
            return v
        if name == 'take' and full.startswith('std::mem') and v and v[0] in ('vec', 'str'):
            self.write(s, cell, (v[0], ()))
            return v
        if name in ('collect', 'from_iter') and v[0] in ('vec', 'str'):
            return ('str', v[1])
        if name in ('from_str_radix', 'parse') and v[0] == 'str':
            if name == 'from_str_radix' and args[1] != ('int', 10):
                return ('parsed?', 'in radix %s' % (args[1][1],), v[1]) if args[1][0] == 'int' else ('unk',)
            ty = 'isize' if 'isize' in full else 'usize' if 'usize' in full else None
            if name == 'parse':
                ga = t['f']['c']['fn'].get('ga', [])
                ty = self.fn.tys[ga[0]]['s'] if ga else None
            return ('parsed?', ty, v[1])
        if name in ('unwrap', 'expect') and a[0] == 'parsed?':
            return ('parsed', a[1], a[2])
        if name in ('unwrap', 'expect') and a[0] == 'agg' and a[2] == 'Some':
            return dict(a[3])['0']
        if name in CLASSES and v[0] == 'b':
            return self.cond(v[1], CLASSES[name])
        if name in ('eq', 'ne') and len(args) == 2:
            y = self.read(s, self.deref(s, args[1])) if args[1][0] == 'ref' else args[1]
            if v[0] in ('b', 'int') and y[0] in ('b', 'int'):
                return self.binop('Eq' if name == 'eq' else 'Ne', v, y)
        if name == 'clone' and v[0] in ('b', 'int'):
            return v
        if name == 'from' and v[0] in ('b', 'int') and 'char' in full + str(t.get('dt')):
            return v
        raise Undecided('call of %s' % full)

