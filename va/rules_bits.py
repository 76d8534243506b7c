"""Bit strings: what each operation does to the bit that it concerns, and to the others.

Terms are evaluated in a domain that knows one bit position i and a value v, of which it knows the bit at i (both cases are
taken) and nothing else: ('bit', x): only that bit, ('val', x): v with that bit x, ('mask', x): all bits but that one, and x.
What the domain cannot tell is left undecided; a carry or a borrow out of the position is a definite mistake."""
from rules_lib import *

BITS = 'BitString'
POW = 'M:BitString::pow'
WRONG = ('wrong',)
FREE = 'free'          # a condition that depends on other bits, or on the position, only
GREATEST = 30


def one_at(t, pos):
    """is the term 2^pos?"""
    if t[0] == 'cast':
        return one_at(t[2], pos)
    if t[0] == 'call' and (t[1] == POW or str(t[1]).endswith('::pow')) and len(t[2]) == 2:
        return t[2][0] == ('int', 2) and plain(t[2][1]) == pos
    return t[0] == 'op' and t[1] == 'Shl' and t[2] == ('int', 1) and plain(t[3]) == pos


def elsewhere(t, pos):
    """is the term a bit at a fixed distance from pos, or at a fixed position?"""
    t = plain(t)
    if t[0] == 'call' and (t[1] == POW or str(t[1]).endswith('::pow')) and len(t[2]) == 2 and t[2][0] == ('int', 2):
        q = plain(t[2][1])
    elif t[0] == 'op' and t[1] == 'Shl' and t[2] == ('int', 1):
        q = plain(t[3])
    else:
        return False
    return q[0] == 'op' and q[1] in ('Add', 'Sub') and (q[2] == pos and q[3][0] == 'int' and q[3][1] or q[1] == 'Add' and q[3] == pos and
                                                        q[2][0] == 'int' and q[2][1]) or q[0] == 'int'


def plain(t):
    while t[0] == 'cast':
        t = t[2]
    return t


def bits(t, pos, base, b):
    t = plain(t)
    if t == base:
        return ('val', b)
    if one_at(t, pos):
        return ('bit', 1)
    if t == ('int', 0):
        return ('bit', 0)
    if elsewhere(t, pos):
        return ('other',)
    if t[0] == 'op' and len(t) == 3 and t[1] == 'Not' or t[0] == 'call' and t[1] == 'std::ops::Not::not':
        x = bits(t[-1] if t[0] == 'op' else t[2][0], pos, base, b)
        return ('mask', 1 - x[1]) if x and x[0] == 'bit' else None
    if t[0] != 'op' or len(t) != 4:
        return None
    o = t[1]
    if o == 'Shr' and plain(t[3]) == pos and plain(t[2]) == base:
        return ('low', b)
    if o in ('BitAnd', 'Rem') and (t[3] == ('int', 1) if o == 'BitAnd' else t[3] == ('int', 2)):
        x = bits(t[2], pos, base, b)
        return ('num', x[1]) if x and x[0] == 'low' else None
    x, y = bits(t[2], pos, base, b), bits(t[3], pos, base, b)
    if x is None or y is None:
        return None
    if WRONG in (x, y):
        return WRONG
    ks = {x[0], y[0]}
    if 'other' in ks:
        # with another bit: a single other one, or a change of another one
        return ('other',) if ks == {'other'} or 'bit' in ks and o in ('Add', 'Sub') and 0 in (x[-1], y[-1]) or o == 'BitAnd' and 'val' in ks \
            else ('bit', 0) if o == 'BitAnd' and 'bit' in ks else WRONG if 'val' in ks else None
    if o in ('Add', 'Sub'):
        if y[0] != 'bit' and (o == 'Sub' or x[0] != 'bit') or not ks <= {'bit', 'val'}:
            return None
        r = x[1] + y[1] if o == 'Add' else x[1] - y[1]
        return (('val' if 'val' in ks else 'bit'), r) if r in (0, 1) else WRONG
    f = {'BitAnd': lambda a, c: a & c, 'BitOr': lambda a, c: a | c, 'BitXor': lambda a, c: a ^ c}.get(o)
    if f is None or not ks <= {'bit', 'val', 'mask'}:
        return None
    r = f(x[1], y[1])
    if o == 'BitAnd':
        return ('bit' if 'bit' in ks else 'val' if 'val' in ks else 'mask', r)
    if ks == {'bit'}:
        return ('bit', r)
    return ('val', r) if ks == {'bit', 'val'} else None


def holds(f, pos, base, b, given):
    """the truth of a condition, or None"""
    if f[0] == 'not':
        r = holds(f[1], pos, base, b, given)
        return r if r is None or r == FREE else not r
    if f[0] == 'b':
        return f[1]
    if f[0] == 'lt' and f[1] == ('int', 0):
        f = ('not', ('eq', f[1], f[2]))                 # a single bit, or a remainder
        x = bits(f[1][2], pos, base, b)
        return None if x is None or x[0] not in ('bit', 'num') else x[1] != 0
    if f[0] == 'lt' and at_pos(f, pos, 0) is not None:
        vs = {at_pos(f, pos, k) for k in range(GREATEST + 1)}
        return FREE if len(vs) > 1 else vs.pop()
    if f[0] == 'lt' and plain(f[1]) == base and one_at(f[2], pos):
        return False if b else FREE                     # a bit above may be set
    if f[0] == 'lt' and plain(f[2]) == base and one_at(f[1], pos):
        return FREE
    if f[0] != 'eq':
        return None
    x, y = f[1], f[2]
    for p, q in ((x, y), (y, x)):
        if given and plain(p) == given[0] and q[0] == 'int':
            return q[1] == given[1]
    for p, q in ((x, y), (y, x)):
        v = bits(q, pos, base, b)
        if p[0] == 'int' and v and v[0] == 'num':
            return p[1] == v[1]
    for p, q in ((x, y), (y, x)):
        if p[0] == 'int' and plain(q) == pos:
            return FREE if 0 <= p[1] <= GREATEST else False
        if p[0] == 'int' and plain(q) == base:
            return False if p[1] == 0 and b else FREE
    x, y = bits(x, pos, base, b), bits(y, pos, base, b)
    if x and y and ('other',) in (x, y) and {x[0], y[0]} <= {'other', 'bit'}:
        return FREE if x == y or 0 in (x[-1], y[-1]) else False
    if x is None or y is None or x == WRONG or y == WRONG or x[0] != y[0]:
        return None
    return x[1] == y[1]


def at_pos(f, pos, k):
    """a comparison of the position with a number, where the position is k"""
    x, y = plain(f[1]), plain(f[2])
    if {x[0], y[0]} == {'int'} or pos not in (x, y) or 'int' not in (x[0], y[0]):
        return None
    x, y = k if x == pos else x[1], k if y == pos else y[1]
    return x == y if f[0] == 'eq' else x < y


def feasible(d, p, pos, base, b, given):
    """True, False, or None if a condition is undecided"""
    r = True
    at = [(f, vs) for f, vs in p.facts.items() if f[0] in ('eq', 'lt') and at_pos(f, pos, 0) is not None]
    if not any(all(at_pos(f, pos, k) in vs for f, vs in at) for k in range(GREATEST + 1)):
        return False
    sizes = [f for f, vs in p.facts.items() if f[0] in ('eq', 'lt') and base in (plain(f[1]), plain(f[2])) and len(vs) == 1]
    if len(sizes) > 1:
        r = None                                        # conditions that may depend on each other
    for f, vs in p.facts.items():
        h = holds(f, pos, base, b, given)
        if h is None:
            r = None
        elif h == FREE:
            continue
        elif vs != {h} and len(vs) == 1:
            return False
    return r


def g_bits(ctx, rep):
    """each operation of bit strings concerns the bit that it names"""
    fs = {m: [f for f in ctx.impls(BITS, m) if f.blocks and f.kind != 'closure'] for m in ('pow', 'flip', 'is_set', 'prepend', 'length', 'shift_left')}
    for m, l in fs.items():
        if not l:
            rep.missing('BitString::' + m)
        for f in l:
            u = lib_unit(ctx, rep, f)
            if u:
                rep.ob('bits-paths', len(u.rets) > 0, u.describe(), 'paths analysed: %d' % len(u.rets))
                globals()['bits_' + m](ctx, rep, u)


def decided(rep, u, pos, base, givens, want, value_of, what):
    for given in givens:
        for b in (0, 1):
            for p in u.rets:
                ok = feasible(None, p, pos, base, b, given)
                if ok is False:
                    continue
                got = value_of(p, b, given)
                if got is None or ok is None:
                    continue
                rep.ob('bits', got == want(b, given), u.describe(), '%s: when the bit is %d%s, %s' % (
                    what, b, '' if not given else ' and the new one %d' % given[1], show(p.val)[:140]), p)


def bits_flip(ctx, rep, u):
    pos, base = A(1), A(2)
    decided(rep, u, pos, base, (None,), lambda b, g: ('val', 1 - b), lambda p, b, g: bits(p.val, pos, base, b), 'toggles the bit and no other')


def bits_is_set(ctx, rep, u):
    pos, base = A(1), A(2)
    decided(rep, u, pos, base, (None,), lambda b, g: b == 1, lambda p, b, g: holds(p.val, pos, base, b, None), 'tells whether the bit is set')


def struct(t):
    return dict(t[3]) if t[0] == 'agg' and t[1].endswith('::BS') else None


def bits_prepend(ctx, rep, u):
    pos, base = ('.', A(2), 'length'), ('.', A(2), 'value')
    givens = ((A(1), 0), (A(1), 1))
    decided(rep, u, pos, base, givens, lambda b, g: ('val', g[1]),
            lambda p, b, g: (lambda s: bits(s['value'], pos, base, b) if s else None)(struct(p.val)), 'puts the bit in front of the others')
    for p in u.rets:
        s = struct(p.val)
        if s:
            n = s['length']
            rep.ob('bits-length', n in (('op', 'Add', pos, ('int', 1)), ('op', 'Add', ('int', 1), pos)) or n[0] not in ('op', 'int', '.', 'p'),
                   u.describe(), 'the string is one longer: ' + show(n)[:80], p)
        no = [all(p.facts.get(('eq', ('int', k), A(1))) == {False} or p.facts.get(('eq', A(1), ('int', k))) == {False} for k in (0, 1))]
        rep.ob('bits-refused', not any(no), u.describe(), 'what is not a bit is refused', p)


def bits_length(ctx, rep, u):
    for p in u.rets:
        rep.ob('bits-length', p.val == ('.', A(1), 'length') or p.val[0] not in ('.', 'int', 'op'), u.describe(), 'gives the length: ' + show(p.val)[:80], p)


def known(t):
    """made of the string, the distance, numbers and operations on them"""
    t = plain(t)
    if t[0] in ('p', 'int'):
        return True
    if t[0] == '.':
        return known(t[1])
    if t[0] == 'op':
        return all(known(x) for x in t[2:])
    return t[0] == 'call' and str(t[1]).endswith('::pow') and all(known(x) for x in t[2])


def bits_shift_left(ctx, rep, u):
    ln, v, k = ('.', A(1), 'length'), ('.', A(1), 'value'), A(2)
    for p in u.rets:
        s = struct(p.val)
        if not s or not known(s['value']):
            continue
        rep.ob('bits-length', s['length'] == ln, u.describe(), 'the length stays: ' + show(s['length'])[:80], p)
        t = plain(s['value'])

        def shifted(x):
            x = plain(x)
            return x == ('op', 'Shl', v, k) or x[0] == 'op' and x[1] == 'Mul' and v in x[2:] and any(one_at(y, k) for y in x[2:])

        def mask(x):
            x = plain(x)
            return x[0] == 'op' and x[1] == 'Sub' and x[3] == ('int', 1) and one_at(x[2], ln)
        ok = t[0] == 'op' and (t[1] == 'BitAnd' and (shifted(t[2]) and mask(t[3]) or shifted(t[3]) and mask(t[2]))
                               or t[1] == 'Rem' and shifted(t[2]) and one_at(t[3], ln))
        if not ok and (t[0] == 'int' and p.facts or t[0] == 'op' and t[1] == 'Shl' and plain(t[2]) != v):
            continue                                    # cut off before the shift
        if not ok and any(plain(x)[0] == 'op' and plain(x)[1] in ('Shr', 'Not') for x in subterms(t)):
            continue                                    # another way to cut off what leaves the string
        rep.ob('bits-shift', ok, u.describe(), 'the bits move by the distance, and those that leave the string are dropped: ' + show(t)[:140], p)


def exponent(t, r, n):
    """t as a power of the first argument: (h, c) means h * (n / 2) + c"""
    t = plain(t)
    if t == A(1):
        return (0, 1)
    if t == ('int', 1):
        return (0, 0)
    if t[0] == 'op' and t[1] == 'Mul':
        x, y = exponent(t[2], r, n), exponent(t[3], r, n)
        return x and y and (x[0] + y[0], x[1] + y[1])
    if t[0] == 'call' and str(t[1]).endswith('pow') and len(t[2]) == 2 and plain(t[2][0]) == A(1):
        return linear(t[2][1], r, n)
    if t[0] == 'call' and str(t[1]).endswith('pow') and len(t[2]) == 2 and linear(t[2][1], r, n):
        x, e = exponent(t[2][0], r, n), linear(t[2][1], r, n)
        if x and x[0] == 0:
            return (e[0] * x[1], e[1] * x[1])
        if x and e[0] == 0:
            return (x[0] * e[1], x[1] * e[1])
    return None


def linear(t, r, n):
    t = plain(t)
    if t[0] == 'int':
        return (0, t[1])
    if t == A(2):
        return n
    if t[0] != 'op' or len(t) != 4:
        return None
    if t[1] in ('Div', 'Shr') and plain(t[2]) == A(2) and t[3] == ('int', 2 if t[1] == 'Div' else 1):
        return (1, 0) if n[0] else (0, n[1] // 2)
    x, y = linear(t[2], r, n), linear(t[3], r, n)
    if x and y and t[1] in ('Add', 'Sub'):
        k = 1 if t[1] == 'Add' else -1
        return (x[0] + k * y[0], x[1] + k * y[1])
    if x and y and t[1] == 'Mul' and (x[0] == 0 or y[0] == 0):
        return (x[0] * y[1] + x[1] * y[0], x[1] * y[1])
    return None


def bits_pow(ctx, rep, u):
    for p in u.rets:
        num, par, lo, hi = None, set(), 0, None
        for f, vs in p.facts.items():
            if f[0] == 'lt' and len(vs) == 1 and f[1][0] == 'int' and plain(f[2]) == A(2):
                lo, hi = (max(lo, f[1][1] + 1), hi) if True in vs else (lo, f[1][1])
            if f[0] == 'lt' and len(vs) == 1 and f[2][0] == 'int' and plain(f[1]) == A(2):
                lo, hi = (lo, f[2][1] - 1) if True in vs else (max(lo, f[2][1]), hi)
            if f[0] != 'eq' or len(vs) != 1:
                continue
            for x, y in ((f[1], f[2]), (f[2], f[1])):
                if x[0] == 'int' and plain(y) == A(2) and True in vs:
                    num = x[1]
                if x[0] == 'int' and y[0] == 'op' and (y[1], y[3]) in (('Rem', ('int', 2)), ('BitAnd', ('int', 1))) and plain(y[2]) == A(2):
                    par.add(x[1] if True in vs else 1 - x[1])
        if hi is not None and num is None:
            if hi - lo > 8:
                continue
            cases = [(0, k) for k in range(lo, hi + 1) if k % 2 in (par or (0, 1))]
        else:
            cases = [(0, num)] if num is not None else [(2, r) for r in sorted(par or (0, 1))]
        thirds = [x for x in subterms(p.val) if x[0] == 'op' and x[1] == 'Div' and plain(x[2]) == A(2) and x[3][0] == 'int' and x[3][1] != 2]
        for n in cases:
            r = n[1] % 2
            num = n[1] if n[0] == 0 else None
            e = exponent(p.val, r, n)
            if e is None and p.val[0] != 'int' and not (
                    thirds and not any(x[0] == 'op' and x[1] == 'Rem' for f in p.facts for x in subterms(f) if x[0] == 'op' and x[3] == thirds[0][3])):
                continue
            if n[0] and p.val[0] == 'int' and not (p.facts and all(f[0] in ('eq', 'lt') and all(known(x) for x in f[1:3]) for f in p.facts)):
                continue                                # the end of a count
            rep.ob('bits-power', e == n, u.describe(), 'a power is a product of as many factors: of %s, %s' % (
                num if num is not None else 'an odd number' if r else 'an even number', show(p.val)[:120]), p)
