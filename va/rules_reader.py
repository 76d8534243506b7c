"""The reader of debug text (parse_val): from tokens to reflected values, and from values to names.
Every path of each of its parts is compared with the grammar of derived debug text."""
from vocab import *
from canon import show
import roles
import lexer

PARTS = ('R_VALUE', 'R_VALUES', 'R_FIELDS', 'R_NAME', 'R_NAMEOPT', 'R_PATH', 'R_LEX', 'R_TOKENS')
T = P(1)
EMPTY = ('vec', None, ())


def last(s):
    return ('last', s)


def popped(s):
    return ('popped', s)


def A(ty, v, *fs):
    return ('agg', ty, v, tuple((str(i), f) for i, f in enumerate(fs)))


def right(b):
    return A('parse_val::Tok', 'Right', A('parse_val::BalTok', b))


def val(v, *fs):
    return A('reflect::Val', v, *fs)


def name_str(s):
    """the name that name_of_string gives to s"""
    return ('agg', 'engine::Name', 'Name', (('hash', ('hashof', ('hasher', (s,)))), ('symbol', A('engine::NameSym', 'String', s))))


class Norm:
    """terms up to rebuilding a value from its own parts, and a stream from its first token and its rest"""

    def __init__(self, ctx, p):
        self.p = p
        self.keys = {f.key: roles.reader_kind(f) for f in ctx.role('READER')}

    def __call__(self, t):
        if type(t) is not tuple or not t:
            return t
        if type(t[0]) is not str:
            return tuple(self(x) for x in t)
        t = (t[0],) + tuple(self(x) if type(x) is tuple else x for x in t[1:])
        if t[0] == 'call' and type(t[1]) is str:
            n = t[1]
            if n.startswith('R_'):
                return ('call', n[2:], t[2])
            if n.startswith('rec:') and n[4:] in self.keys:
                return ('call', self.keys[n[4:]], t[2])
            for k, kind in self.keys.items():
                if n == k:
                    return ('call', kind, t[2])
        if t[0] == 'some':
            return ('.', t[1], 'Some.0')
        if t[0] == 'agg' and t[3]:
            bases = set()
            for n, x in t[3]:
                if type(x) is tuple and x and x[0] == '.' and x[2] == '%s.%s' % (t[2], n):
                    bases.add(x[1])
                else:
                    bases.add(None)
            if len(bases) == 1 and None not in bases and self.p.kindof(next(iter(bases))) == t[2]:
                return next(iter(bases))
        if t[0] == 'vec' and t[1] and t[1][0] == 'popped' and len(t[2]) == 1:
            x, s = t[2][0][1], t[1][1]
            if x == last(s) or x[0] == 'agg' and not x[3] and self.p.kindof(last(s)) == x[2]:
                return s
        return t


def loops(p):
    return any(True for _ in p.loops())


def g_reader(ctx, rep):
    fs = {roles.reader_kind(f): f for f in ctx.role('READER')}
    for k in ('VALUE', 'VALUES', 'FIELDS', 'NAME', 'NAMEOPT'):
        if k not in fs:
            rep.missing('the part of the reader that reads ' + k.lower())
            return
    for k, rule in (('VALUE', value), ('VALUES', values), ('FIELDS', fields), ('NAME', name), ('NAMEOPT', name), ('PATH', path), ('TOKENS', tokens)):
        if k not in fs:
            continue
        u = rep.use(ctx.unit(fs[k], opaque=PARTS, panics=True))
        seen = set()
        for p in u.rets + u.panics:
            rule(ctx, rep, u, p, Norm(ctx, p), seen, k)
        if k in ('NAME', 'NAMEOPT'):
            for v in SYMS:
                rep.ob('reads-name', v in seen, u.name, '%s is read as a name' % v)
        if k == 'VALUE':
            for v in ('Const', 'Vec', 'Tuple', 'Constr', 'Struct', 'Name', 'Art'):
                rep.ob('reads-value', v in seen, u.name, '%s is read' % v)


    for f in reads(ctx):
        u = rep.use(ctx.unit(f, opaque=('R_LEX', 'R_TOKENS')))
        for p in u.rets:
            v = Norm(ctx, p)(p.val)
            if not any(x[0] == 'call' and x[1] in ('TOKENS', 'LEX') for x in subterms(v) if len(x) > 1):
                continue
            ok = v[0] == 'call' and v[1] == 'TOKENS' and v[2][0][0] == 'call' and v[2][0][1] == 'LEX'
            rep.ob('reads-all', ok, u.name, 'the value is what the tokens of the text give: %s' % short(v), p)
            x = v[2][0][2][0] if ok else None
            ts = {y[1] for y in subterms(x) if y[0] == 'const' and len(y) > 2 and str(y[2]).startswith('&[u8')} if ok else ()
            rep.ob('reads-all', ok and mentions(x, P(1)) and 'new_display' not in str(x) and all(t == PLAIN for t in ts), u.name,
                   'the text is the debug text of the value', p)
    if 'LEX' in fs:
        lexemes(ctx, rep, fs['LEX'])


# the compiled template of "{:?}", apart from its argument
PLAIN = 'b"\\xc0\\x00"'


def reads(ctx):
    """the public functions that read a value"""
    return [f for f in ctx.P.fns.values() if f.crate == 'adapton' and '::parse_val::' in f.key and f.d.get('pub')
            and f.kind == 'fn' and f.tys[f.locals[0]]['s'] == 'reflect::Val']


def lexemes(ctx, rep, f):
    """the tokeniser, a byte at a time, against the tokens of derived debug text"""
    due = {}
    try:
        for before, cls, at, what, out, want, ok in lexer.Lexer(ctx.P, f).run():
            due.setdefault((before, cls), []).append((ok, at, what, out, want))
    except lexer.Wrong as e:
        rep.ob('reads-tokens', False, f.key, str(e))
        return
    except lexer.Undecided:
        bad = [x for v in due.values() for x in v if not x[0]]
        if not bad:
            return
    for (before, cls), rs in sorted(due.items(), key=str):
        bad = [r for r in rs if not r[0]]
        text = 'at the end of the text' if cls is None else 'on %s' % chars(bad[0][1] if bad else cls)
        text += ', in %s' % {'START': 'no token', 'STR': 'a string', 'NUM': 'a number', 'ID': 'an identifier'}[before[0]] if before else ''
        if bad:
            _, _, what, out, want = bad[0]
            text += ': makes %s%s, where the text has %s' % (toks(out), {'ret': ' and returns', 'fail': ' and fails', 'pop': ''}[what], toks(want))
        rep.ob('reads-tokens', not bad, f.key, text)


def chars(s):
    s = sorted(s)
    t = ''.join(chr(x) for x in s[:40])
    return "%r" % t


def toks(ts):
    return ', '.join('%s(%s)' % (t[0], ' '.join(str(x) for x in t[1:] if x is not None)) for t in ts) or 'no token'


def case(p, s):
    """what is known of the first token of stream s: (variant, balanced token)"""
    if p.is_false(('nonempty', s)):
        return 'end', None
    k = p.kindof(last(s))
    b = p.kindof(dot(last(s), k + '.0')) if k in ('Left', 'Right') else None
    return k, b


def call(k, *args):
    return ('call', k, args)


def pr(x, i):
    return ('.', x, str(i))


def refused(rep, u, p, why):
    rep.ob('refuses', p.kind != 'ret', u.name, 'text is refused when %s' % why, p)


def value(ctx, rep, u, p, nm, seen, _):
    if loops(p):
        return
    k, b = case(p, T)
    if k is None:
        return
    if k in ('end', 'Comma', 'Colon', 'Right'):
        return refused(rep, u, p, 'no value is there, but %s' % k)
    rest = popped(T)
    want = None
    if k == 'Const':
        want, seen_as = (val('Const', dot(last(T), 'Const.0')), rest), 'Const'
    elif k == 'Left' and b in ('Bracket', 'Paren'):
        c = call('VALUES', rest, EMPTY, right(b))
        seen_as = 'Vec' if b == 'Bracket' else 'Tuple'
        want = (val(seen_as, pr(c, 0)), pr(c, 1))
    elif k == 'Ident':
        i = dot(last(T), 'Ident.0')
        k2, b2 = case(p, rest)
        if k2 in ('end', 'Comma', 'Right'):
            want, seen_as = (val('Constr', name_str(i), EMPTY), rest), 'Constr'
        elif k2 == 'Left' and b2 == 'Paren':
            c = call('VALUES', popped(rest), EMPTY, right('Paren'))
            v = val('Constr', name_str(i), pr(c, 0))
            n = call('NAMEOPT', v)
            got = kind_of(p, nm, n)
            if got == 'Some':
                want, seen_as = (val('Name', dot(n, 'Some.0')), pr(c, 1)), 'Name'
            elif got == 'None':
                want, seen_as = (v, pr(c, 1)), 'Constr'
            elif p.kind == 'ret':
                rep.ob('reads-value', tells_names(nm(p.val)), u.name, 'a constructor with arguments may be a name: %s' % short(p.val), p)
                return
        elif k2 == 'Left' and b2 == 'Brace':
            c = call('FIELDS', popped(rest), EMPTY, right('Brace'))
            fs = pr(c, 0)
            if p.kind == 'ret':
                got = nm(p.val)
                a = got[1][0] if tup(got) else None
                art = art_of(p, nm, fs, i)
                if art is None:
                    return
                if art:
                    inner = ('.', pr(elem(p, nm, fs, 0), 1), 'Struct.1')
                    ok = variant(a) == 'Art' and art_parts(nm, a, inner) and got[1][1] == pr(c, 1)
                    seen.add('Art')
                    rep.ob('reads-value', ok, u.name, 'an articulation is read with its path and name: %s' % short(got), p)
                else:
                    seen.add('Struct')
                    ok = got == ('tup', (val('Struct', name_str(i), fs), pr(c, 1)))
                    rep.ob('reads-value', ok, u.name, 'a struct is read with its name and fields: %s' % short(got), p)
            return
    if want is None:
        return
    rep.ob('reads-value', p.kind == 'ret' and nm(p.val) == nm(('tup', want)), u.name,
           '%s: read as %s' % (seen_as, short(nm(p.val)) if p.kind == 'ret' else 'a failure'), p)
    if p.kind == 'ret':
        seen.add(seen_as)


def tells_names(t):
    return any(x[0] == 'call' and x[1] == 'NAMEOPT' for x in subterms(t) if len(x) > 1)


def kind_of(p, nm, t):
    """the variant of t, whose calls are named by kind"""
    for f, vs in p.facts.items():
        if f[0] == 'var' and nm(f[1]) == t and len(vs) == 1:
            x = next(iter(vs))
            return x[1] if x[0] == 'is' else None
    return None


def elem(p, nm, coll, i):
    return ('proj', coll, 'ci', i, False)


def strfact(p, nm, x, side):
    """the strings that x is known to be / not to be equal to"""
    out = {True: set(), False: set()}
    for f, vs in p.facts.items():
        if f[0] != 'eq' or len(vs) != 1:
            continue
        for a, b in ((f[1], f[2]), (f[2], f[1])):
            if nm(a) == x:
                s = literal(b)
                if s is not None:
                    out[next(iter(vs))].add(s)
    return out[side]


def literal(t):
    """the text of a string constant, or of a name made of one"""
    if t[0] == 'str':
        return t[1]
    a = agg(t, 'Name')
    if a and variant(a['symbol']) == 'String':
        for x in subterms(a['symbol']):
            if x[0] == 'str':
                return x[1]
    return None


def art_of(p, nm, fs, i):
    """is the struct with name i and fields fs known to be (True) or not to be (False) an articulation?"""
    f0 = elem(p, nm, fs, 0)
    inner = pr(f0, 1)
    ws = ('.', inner, 'Struct.1')
    no = False
    known = 0
    for x, s in ((i, 'Art'), (pr(f0, 0), 'art'), (('.', inner, 'Struct.0'), 'Loc'),
                 (pr(elem(p, nm, ws, 0), 0), 'path'), (pr(elem(p, nm, ws, 1), 0), 'id')):
        if s in strfact(p, nm, x, False):
            no = True
        if s in strfact(p, nm, x, True):
            known += 1
    for c, n in ((fs, 1), (ws, 2)):
        for f, vs in p.facts.items():
            if f[0] == 'eq' and len(vs) == 1:
                for a, b in ((f[1], f[2]), (f[2], f[1])):
                    if nm(a) == ('len', c) and b == ('int', n):
                        if next(iter(vs)):
                            known += 1
                        else:
                            no = True
    k = kind_of(p, nm, inner)
    if k == 'Struct':
        known += 1
    elif k:
        no = True
    return False if no else True if known == 8 else None


def art_parts(nm, a, ws):
    f = dict(a[3])
    loc = agg(f['0'], 'Loc')
    return loc is not None and loc['path'] == call('PATH', pr(elem(None, nm, ws, 0), 1)) and \
        loc['name'] == call('NAME', pr(elem(None, nm, ws, 1), 1))


def is_bal(p):
    for f in (('eq', last(T), P(3)), ('eq', P(3), last(T))):
        if p.is_true(f):
            return True
        if p.is_false(f):
            return False
    return None


def values(ctx, rep, u, p, nm, seen, _):
    if loops(p):
        return
    k, b = case(p, T)
    if k == 'end':
        return refused(rep, u, p, 'it ends within a sequence')
    e = is_bal(p)
    if e is True:
        return gives(rep, u, p, nm, 'reads-sequence', ('tup', (P(2), popped(T))), 'the sequence ends at its closing token')
    if e is None and p.kind == 'ret' and nm(p.val) == nm(('tup', (P(2), popped(T)))) and not any(mentions(f, P(3)) for f in p.facts):
        return rep.ob('reads-sequence', False, u.name, 'the sequence ends at any token', p)
    if e is not False:
        return
    if k == 'Comma':
        return gives(rep, u, p, nm, 'reads-sequence', call('VALUES', popped(T), P(2), P(3)), 'a comma separates')
    if p.kind_not_(last(T), 'Comma'):
        v = call('VALUE', T)
        gives(rep, u, p, nm, 'reads-sequence', call('VALUES', pr(v, 1), ('vec', P(2), (('ent', pr(v, 0), None),)), P(3)), 'a value is appended')


def fields(ctx, rep, u, p, nm, seen, _):
    if loops(p):
        return
    k, b = case(p, T)
    if k == 'end':
        return refused(rep, u, p, 'it ends within fields')
    e = is_bal(p)
    if e is True:
        return gives(rep, u, p, nm, 'reads-fields', ('tup', (P(2), popped(T))), 'the fields end at their closing token')
    if e is None and p.kind == 'ret' and nm(p.val) == nm(('tup', (P(2), popped(T)))) and not any(mentions(f, P(3)) for f in p.facts):
        return rep.ob('reads-fields', False, u.name, 'the fields end at any token', p)
    if e is not False:
        return
    if k == 'Comma':
        return gives(rep, u, p, nm, 'reads-fields', call('FIELDS', popped(T), P(2), P(3)), 'a comma separates')
    if k == 'Ident':
        k2, _ = case(p, popped(T))
        if k2 == 'Colon':
            v = call('VALUE', popped(popped(T)))
            f = ('tup', (name_str(dot(last(T), 'Ident.0')), pr(v, 0)))
            gives(rep, u, p, nm, 'reads-fields', call('FIELDS', pr(v, 1), ('vec', P(2), (('ent', f, None),)), P(3)), 'a field is appended')
        else:
            refused(rep, u, p, 'a field has no value')
    elif k:
        refused(rep, u, p, 'a field has no name')


def gives(rep, u, p, nm, rule, want, what):
    rep.ob(rule, p.kind == 'ret' and nm(p.val) == nm(want), u.name, '%s: %s' % (what, short(nm(p.val)) if p.kind == 'ret' else 'failure'), p)


def path(ctx, rep, u, p, nm, seen, _):
    c = dot(P(1), 'Vec.0')
    if p.kindof(P(1)) != 'Vec':
        return
    if p.kind != 'ret':
        rep.ob('reads-path', False, u.name, 'a vector of names is a path', p)
        return
    v = p.val
    for l in p.loops():
        for sc, e in classes(l, c):
            pu = list(sc.events('push'))
            rep.ob('reads-path', len(pu) == 1 and nm(pu[0].a[1]) == call('NAME', nm(e.a[1])), u.name, 'every name is read', p)
    rep.ob('reads-path', len(list(passes(p, c))) == 1, u.name, 'all names are read, in order', p)


def tokens(ctx, rep, u, p, nm, seen, _):
    if p.kind != 'ret' or loops(p):
        return
    v = nm(p.val)
    ok = v[0] == '.' and v[2] == '0' and v[1][0] == 'call' and v[1][1] == 'VALUE' and mentions(v[1], T)
    rep.ob('reads-all', ok, u.name, 'the value is read from the tokens: %s' % short(v), p)
    if ok:
        rep.ob('reads-all', any(f[0] == 'nonempty' and nm(f[1]) == ('.', v[1], '1') and vs == {False} for f, vs in p.facts.items()),
               u.name, 'no token is left over', p)
        rep.ob('reads-all', 'reverse' in str(v[1][2]), u.name, 'the first token is read first', p)


SYMS = ('Unit', 'String', 'Usize', 'Isize', 'Pair', 'ForkL', 'ForkR')


def made(ctx, fn, args, sel=None):
    """the value of a constructor of names, for the given arguments"""
    f = ctx.fn('engine::' + fn)
    if f is None:
        return None
    u = ctx.unit(f, opaque=())
    if len(u.rets) != 1:
        return None
    v = u.rets[0].val
    if sel is not None:
        v = tup(v)[sel] if tup(v) else None
    return subst(v, {P(i + 1): a for i, a in enumerate(args)})


def subst(t, m):
    if type(t) is not tuple:
        return t
    if t in m:
        return m[t]
    return tuple(subst(x, m) for x in t)


def name(ctx, rep, u, p, nm, seen, kind):
    x = P(1)
    k = p.kindof(x)
    opt = kind == 'NAMEOPT'

    def result():
        v = nm(p.val) if p.kind == 'ret' else None
        if v is not None and opt:
            s = some_of(v)
            return s if s is not None else 'none' if is_none(v) else v
        return v
    got = result()
    if k == 'Name':
        rep.ob('reads-name', got == dot(x, 'Name.0'), u.name, 'a name is itself: %s' % short(p.val), p)
        return
    if k != 'Constr':
        if opt and k:
            rep.ob('reads-name', got == 'none', u.name, 'only a constructor is a name', p)
        elif k == 'Const' and p.kindof(dot(x, 'Const.0')) == 'Nat':
            n = dot(x, 'Const.0', 'Nat.0')
            rep.ob('reads-name', got is not None and agg(got, 'Name') is not None and uncast(agg(got, 'Name')['hash']) == n, u.name,
                   'a structural location keeps its hash: %s' % short(p.val), p)
        return
    is_ = strfact(p, nm, dot(x, 'Constr.0'), True)
    not_ = strfact(p, nm, dot(x, 'Constr.0'), False)
    if len(is_) > 1:
        return
    if not is_:
        if set(SYMS) <= not_:
            if opt:
                rep.ob('reads-name', got == 'none', u.name, 'other constructors are no names', p)
            else:
                refused(rep, u, p, 'it is no name')
        return
    v = next(iter(is_))
    if v not in SYMS:
        if v != 'Hash64':
            rep.ob('reads-name', p.kind != 'ret' or got == 'none', u.name, '%s is no name' % v, p)
        return
    args = dot(x, 'Constr.1')
    a = [elem(p, nm, args, i) for i in (0, 1)]
    sub = call(kind, a[0]), call(kind, a[1])
    if opt:
        sub = tuple(('.', s, 'Some.0') for s in sub)
        bad = any(kind_of(p, nm, call(kind, y)) == 'None' for y in a)
    else:
        bad = False
    c = kind_of(p, nm, a[0])
    cc = kind_of(p, nm, dot(a[0], 'Const.0')) if c == 'Const' else None
    payload = dot(a[0], 'Const.0', '%s.0' % cc) if cc else None
    want = None
    if v == 'Unit':
        want = made(ctx, 'name_unit', ())
    elif v == 'Pair':
        want = None if bad else made(ctx, 'name_pair', sub)
    elif v in ('ForkL', 'ForkR'):
        want = None if bad else made(ctx, 'name_fork', sub[:1], 0 if v == 'ForkL' else 1)
    elif v == 'String' and cc == 'String':
        want = made(ctx, 'name_of_string', (payload,))
    elif v == 'Usize' and cc == 'Nat':
        want = made(ctx, 'name_of_usize', (payload,))
    elif v == 'Isize' and cc in ('Nat', 'Num'):
        want = made(ctx, 'name_of_isize', (payload if cc == 'Num' else ('cast', 'isize', payload),))
    if want is None:
        return
    if got == 'none' and short_args(p, nm, args):
        return
    ok = got == nm(want)
    rep.ob('reads-name', ok, u.name, '%s is read as the name that prints so: %s' % (v, short(p.val) if p.kind == 'ret' else 'a failure'), p)
    if ok:
        seen.add(v)


def uncast(t):
    while t[0] == 'cast':
        t = t[2]
    return t


def short_args(p, nm, args):
    """is the constructor known to have too few arguments?"""
    for f, vs in p.facts.items():
        if f[0] == 'nonempty' and nm(f[1]) == args and vs == {False}:
            return True
        if f[0] not in ('eq', 'var') and mentions(nm(f), ('len', args)):
            return True
        if f[0] == 'eq' and mentions(nm(f), ('len', args)):
            return True
    return False
