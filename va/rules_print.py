"""Obligations on what values print: the text that reflection reads, and the summary of trace counts."""
import ast
import re
from rules_values import *
from canon import show

NEWS = {'new_debug': 'dbg', 'new_display': 'disp'}


def template(s):
    """the pieces of the compiler's encoding of a format string: literals, and indices of arguments"""
    b = ast.literal_eval(s)
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out
        if c < 0x80:
            out.append(b[i:i + c].decode('utf-8', 'replace'))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode('utf-8', 'replace'))
            i += 2 + n
        elif c >= 0xc0:
            i += (4 if c & 1 else 0) + (2 if c & 2 else 0) + (2 if c & 4 else 0)
            if c & 8:
                nxt = b[i] | b[i + 1] << 8
                i += 2
            out.append(nxt)
            nxt += 1
        else:
            return None
    return None


def arguments(t):
    """the pieces of a fmt::Arguments value"""
    if t[0] != 'call' or not t[1].startswith('std::fmt::Arguments'):
        return None
    a = t[2]
    if t[1].endswith('::from_str') and a[0][0] == 'str':
        return [a[0][1]]
    if not t[1].endswith('::new') or len(a) != 2 or a[0][0] != 'const' or a[1][0] != 'vec' or a[1][1] is not None:
        return None
    tm = template(a[0][1])
    if tm is None:
        return None
    args = []
    for e in a[1][2]:
        x = e[1] if e[0] == 'ent' else None
        if x is None or x[0] != 'call' or x[1].rsplit('::', 1)[-1] not in NEWS:
            return None
        args.append((NEWS[x[1].rsplit('::', 1)[-1]], x[2][0]))
    return [x if type(x) is str else args[x] for x in tm]


def pieces(p):
    """what a path of an `fmt` writes, in order: literal texts and (how, value); None if it is not known"""
    out = []
    for e in p.items:
        k, a = getattr(e, 'k', None), getattr(e, 'a', None)
        if k == 'dyn' and a[0] in ('std::ops::Try::branch', 'std::ops::FromResidual::from_residual'):
            continue
        if k == 'dyn' and a[0] in ('std::fmt::Debug::fmt', 'std::fmt::Display::fmt'):
            out.append(('dbg' if 'Debug' in a[0] else 'disp', a[1][0]))
        elif k == 'extwrite' and type(a[1]) is tuple and a[1][0] == 'call' or k == 'dyn' and a[0].startswith('std::fmt::Write::write_'):
            n, xs = (a[1][1], a[1][2]) if k == 'extwrite' else a
            if n.endswith('::write_fmt'):
                ps = arguments(xs[1])
                if ps is None:
                    return None
                out += ps
            elif n.endswith('::write_str') and xs[1][0] == 'str':
                out.append(xs[1][1])
            elif n.endswith('::write_char') and xs[1][0] in ('char', 'const', 'int'):
                c = xs[1][1]
                if type(c) is int:
                    c = chr(c)
                elif type(c) is str and c[:1] == "'":
                    try:
                        c = ast.literal_eval(c)
                    except (ValueError, SyntaxError):
                        return None
                out.append(c)
            else:
                return None
        elif k in ('call', 'dyn', 'extwrite', 'loop', 'next', 'done') or k is None:
            return None
    return out


def failed(p):
    """a write that failed ended this path"""
    return any(f[0] == 'var' and any(v[0] == 'is' and v[1] in ('Break', 'Err') for v in vs if type(v) is tuple) and 'fmt' in str(f)
               for f, vs in p.facts.items())


def tokens(ps):
    """the tokens of the text: names and punctuation; values between them"""
    out, txt = [], ''
    for x in ps + ['']:
        if type(x) is str:
            txt += x
        else:
            out += re.findall(r'\w+|[^\w\s]', txt)
            txt = ''
            out.append(x)
    return out + re.findall(r'\w+|[^\w\s]', txt)


def paths_by_kind(u, adt):
    for p in u.rets:
        if failed(p):
            continue
        ks = [v['name'] for v in adt['variants'] if not p.kind_not_(P(1), v['name'])]
        yield p, (ks[0] if len(ks) == 1 else None), pieces(p)


def g_printer(ctx, rep):
    """names, locations and articulations print what reading them needs: every part that identifies them, in the form that is read"""
    S = P(1)
    want = {
        'engine::Name': {None: [dot(S, 'symbol')]},
        'engine::Loc': {None: ['Loc', '{', 'path', ':', '[', dot(S, 'path'), ']', ',', 'id', ':', dot(S, 'id'), '}']},
        'engine::Path': {'Empty': [], 'Child': [dot(S, 'Child.0'), ',', dot(S, 'Child.1')]},
        'engine::ArtId': {'Structural': [dot(S, 'Structural.0')], 'Nominal': [dot(S, 'Nominal.0')]},
        'engine::Art': {None: ['Art', '{', 'art', ':', dot(S, 'art'), '}']},
        'engine::EnumArt': {'Rc': [dot(S, 'Rc.0')], 'Loc': [dot(S, 'Loc.0')]},
        'engine::NameSym': {'Unit': ['Unit'], 'Hash64': ['Hash64'], 'String': ['String', '(', dot(S, 'String.0'), ')'],
                            'Usize': ['Usize', '(', dot(S, 'Usize.0'), ')'], 'Isize': ['Isize', '(', dot(S, 'Isize.0'), ')'],
                            'ForkL': ['ForkL', '(', dot(S, 'ForkL.0'), ')'], 'ForkR': ['ForkR', '(', dot(S, 'ForkR.0'), ')'],
                            'Pair': ['Pair', '(', dot(S, 'Pair.0'), ',', dot(S, 'Pair.1'), ')']},
    }
    impls = value_impls(ctx, 'std::fmt::Debug', 'fmt')
    for t, w in sorted(want.items()):
        f, adt = impls.get(t), ctx.P.adts.get(t)
        if not f or not adt or f.d.get('derived'):
            rep.ob('printed-form', t in impls, t, 'a type whose text is read has a debug form')
            continue
        u = rep.use(ctx.unit(f))
        for p, k, ps in paths_by_kind(u, adt):
            k = k if len(adt['variants']) > 1 else None
            if ps is None or k not in w:
                continue                    # written in a way that is not recognised, or a kind with no reading
            got = [x if type(x) is str else x[1] for x in tokens(ps)]
            names = [x for x in w[k] if type(x) is tuple and x in (dot(S, 'Child.1'), dot(S, 'Nominal.0'))]
            got = [next((n for n in names if x == dot(n, 'symbol')), x) for x in got]      # what a name prints
            rep.ob('printed-form', got == w[k], '%s%s' % (t, '::' + k if k else ''),
                   'the text has the form that is read: %s' % ' '.join(x if type(x) is str else show(x) for x in got), p)


def parts_of(t, out):
    """fields of the first argument that a term reads"""
    if type(t) is not tuple:
        return out
    if t and t[0] == '.':
        path, x = [], t
        while type(x) is tuple and x and x[0] == '.':
            path.append(x[2])
            x = x[1]
        if x == P(1):
            out.add('.'.join(reversed(path)))
            return out
    for x in t:
        parts_of(x, out)
    return out


def g_count_text(ctx, rep):
    """the summary of trace counts shows each count under its own label and role, and ratios of that count"""
    t = 'reflect::trace::TraceCount'
    impls, adt = value_impls(ctx, 'std::fmt::Debug', 'fmt'), ctx.P.adts.get(t)
    f = impls.get(t)
    if not f or not adt or f.d.get('derived'):
        return
    fields = [x[0] for x in adt['variants'][0]['fields']]
    total = ('total_updates', 'total_archivist')
    u = rep.use(ctx.unit(f))
    for p in u.rets:
        if failed(p):
            continue
        ps = pieces(p)
        if ps is None:
            continue
        role, label, shown = None, None, set()
        for x in ps:
            if type(x) is str:
                for line in x.split('\n'):
                    m = re.match(r'\s*(\w+):\s*', line)
                    if m:
                        label = m.group(1)
                        if label in ('editor', 'archivist'):
                            role = label
                continue
            fs = parts_of(x[1], set())
            counts = {g for g in fs if g.split('.')[0] not in total}
            if label not in fields or not fs:
                continue
            names = {g.split('.')[0] for g in counts}
            rep.ob('label', names == {label}, t, 'what is shown at %s is that count: %s' % (label, ', '.join(sorted(fs))), p)
            roles = {g.split('.')[1] for g in counts if '.' in g}
            if roles and role:
                rep.ob('role', roles == {'0' if role == 'editor' else '1'}, t, '%s of the %s: %s' % (label, role, ', '.join(sorted(fs))), p)
            if x[1][0] == '.':
                shown |= counts
        for fd in adt['variants'][0]['fields']:
            n = fd[0]
            if n in total:
                continue
            for c in ([n + '.0', n + '.1'] if any(s.startswith(n + '.') for s in shown) else [n]):
                rep.ob('shown', c in shown, t, 'the count %s is shown' % c, p)
