"""Functions identified by what they do, not by name: the cut points of the analysis."""


def dyn_calls(P, fn):
    """(trait, method) pairs that fn calls through a trait without static resolution"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            f = x.get('fn')
            if isinstance(f, dict) and f.get('tr') and f.get('rk') != 'item':
                out.add((f['tr'], f['tm']))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk([b['t'] for b in fn.blocks])
    return out


def closure_props(ctx):
    P = ctx.P
    if not hasattr(ctx, '_cp'):
        base = {}
        for k, f in P.fns.items():
            if f.kind == 'const' or not k.startswith('adapton'):
                continue
            base[k] = (P.field_writes(f)[0], dyn_calls(P, f))
        ctx._cp = {}
        for k in base:
            w, d = set(), set()
            cl = P.static_closure(k)
            for x in cl:
                if x in base:
                    w |= base[x][0]
                    d |= base[x][1]
            ctx._cp[k] = (w, d, cl)
    return ctx._cp


def callers(ctx, key):
    """top-level functions with a static call to key (closures count for their parents)"""
    out = set()
    for k, f in ctx.P.fns.items():
        if f.kind != 'const' and k.startswith('adapton') and k != key and key in ctx.P.callees(f):
            out.add(k.split('::{closure')[0])
    out.discard(key)
    return out


def minimal(ctx, cands):
    cp = closure_props(ctx)
    return {k for k in cands if not any(o != k and o in cp[k][2] and k not in cp[o][2] for o in cands)}


def climb(ctx, keys):
    """a helper with one caller is part of its caller"""
    out = set()
    for k in keys:
        while True:
            cs = callers(ctx, k)
            if len(cs) != 1:
                break
            c = next(iter(cs))
            d = ctx.P.fns[c].d
            if d.get('impl_trait') or d.get('pub') and not c.startswith('adapton::engine::{'):
                break
            k = c
        out.add(k)
    return out


def fns(ctx, keys):
    return [ctx.P.fns[k] for k in sorted(keys)]


def plain(ctx, k):
    f = ctx.P.fns[k]
    return f.kind == 'fn' and k.startswith('adapton::engine::')


def EVAL(ctx):
    """runs a computation's stored closure on the frame stack and stores its result"""
    c = {k for k, (w, d, cl) in closure_props(ctx).items()
         if plain(ctx, k) and ('engine::Producer', 'produce') in d and 'engine::DCG.stack' in w
         and 'engine::CompNode.res' in w}
    return fns(ctx, climb(ctx, minimal(ctx, c)))


def VALIDATE(ctx):
    """decides whether a cached result can be reused: consults the dependencies, may re-evaluate"""
    ev = {f.key for f in ctx.role('EVAL')}
    c = {k for k, (w, d, cl) in closure_props(ctx).items()
         if plain(ctx, k) and ('engine::DCGDep', 'clean') in d and 'engine::Succ.dirty' in w and cl & ev
         and k not in ev}
    return fns(ctx, minimal(ctx, c))


def DIRTY(ctx):
    """marks the edges of everything that observed a location as dirty, transitively"""
    return [ctx.P.fns[k] for k in sorted(ctx.P.recursive()) if plain(ctx, k)
            and 'engine::Succ.dirty' in closure_props(ctx)[k][0]
            and param_of(ctx.P.fns[k], 'Rc<engine::Loc>') is not None
            and 'wf::' not in k]


def param_of(fn, ty):
    """index (1-based) of the only parameter whose type mentions ty directly"""
    r = [i + 1 for i in range(fn.nargs)
         if fn.tys[fn.locals[i + 1]]['s'].replace('std::rc::', '').lstrip('&').replace('mut ', '') == ty]
    return r[0] if len(r) == 1 else None


def PARSE(ctx):
    """reads the debug text of a value as a reflected value"""
    return [f for f in ctx.P.fns.values() if f.kind == 'fn' and f.key.startswith('adapton::parse_val::')
            and f.d.get('pub') and f.d.get('name') == 'parse_val']


def CHECKER(ctx):
    """the recursive parts of the graph checker: they visit the graph from a location on and change nothing"""
    d = ctx.P.diagnostics()
    cl = set()
    for k in d:
        cl |= set(ctx.P.static_closure(k))
    return [ctx.P.fns[k] for k in sorted(ctx.P.recursive()) if k in cl and plain(ctx, k)
            and param_of(ctx.P.fns[k], 'Rc<engine::Loc>') is not None]


def READER(ctx):
    """the parts of the reader of debug text: they read a value, values, fields, a name from tokens or from a value read"""
    out = []
    for f in ctx.P.fns.values():
        if f.kind == 'fn' and f.key.startswith('adapton::parse_val::') and reader_kind(f):
            out.append(f)
    return sorted(out, key=lambda f: f.key)


def _reader(kind):
    return lambda ctx: [f for f in READER(ctx) if reader_kind(f) == kind]


R_VALUE, R_VALUES, R_FIELDS, R_NAME, R_NAMEOPT, R_PATH, R_LEX, R_TOKENS = (
    _reader(k) for k in ('VALUE', 'VALUES', 'FIELDS', 'NAME', 'NAMEOPT', 'PATH', 'LEX', 'TOKENS'))


def reader_kind(f):
    sig = [f.tys[f.locals[i]]['s'].replace('std::vec::', '').replace('std::option::', '').replace('parse_val::', '')
           .replace('engine::', '').replace('reflect::', '').replace('std::string::', '') for i in range(f.nargs + 1)]
    return {('(Val, Vec<Tok>)', 'Vec<Tok>'): 'VALUE',
            ('(Vec<Val>, Vec<Tok>)', 'Vec<Tok>', 'Vec<Val>', 'Tok'): 'VALUES',
            ('(Vec<(Name, Val)>, Vec<Tok>)', 'Vec<Tok>', 'Vec<(Name, Val)>', 'Tok'): 'FIELDS',
            ('Name', '&Val'): 'NAME', ('Option<Name>', '&Val'): 'NAMEOPT', ('Vec<Name>', '&Val'): 'PATH',
            ('Val', 'Vec<Tok>'): 'TOKENS', ('Vec<Tok>', 'Vec<u8>'): 'LEX'}.get(tuple(sig))
