"""Abstract semantics of the std functions that the analysed code calls."""
from prog import UNIT, TRUE, FALSE

OPAQUE_TRAITS = {'std::cmp::PartialEq', 'std::hash::Hash', 'std::clone::Clone', 'std::fmt::Debug', 'reflect::Reflect'}

MODELS = {}
for _n, _m in {
    'std::iter::Iterator::map': 'it_map', 'std::iter::Iterator::filter': 'it_filter',
    'std::iter::Iterator::filter_map': 'it_filter_map', 'std::iter::Iterator::cloned': 'it_cloned',
    'std::iter::Iterator::copied': 'it_cloned', 'std::iter::Iterator::enumerate': 'it_enumerate',
    'std::iter::Iterator::any': 'it_any', 'std::iter::Iterator::all': 'it_all',
    'std::iter::Iterator::find': 'it_find', 'std::iter::Iterator::find_map': 'it_find_map',
    'std::iter::Iterator::position': 'it_position', 'std::iter::Iterator::for_each': 'it_for_each',
    'std::iter::Iterator::fold': 'it_fold', 'std::iter::Iterator::count': 'it_count',
    'std::iter::Extend::extend': 'vec_extend',
    'std::iter::Iterator::rposition': 'it_position', 'std::iter::DoubleEndedIterator::rfind': 'it_find',
    'std::iter::Iterator::skip_while': 'it_skip_while', 'std::iter::Iterator::chain': 'it_chain', 'std::iter::Iterator::zip': 'it_zip',
    'std::iter::Iterator::take': 'it_take', 'std::iter::Iterator::skip': 'it_skip', 'std::iter::Iterator::last': 'it_last',
    'std::cmp::max': 'max', 'std::cmp::min': 'min', 'std::cmp::Ord::max': 'max', 'std::cmp::Ord::min': 'min',
    'std::cmp::Ord::cmp': 'compare',
    'std::vec::Vec::<T, A>::append': 'vec_append', 'std::vec::Vec::<T, A>::retain': 'vec_retain',
    'std::vec::Vec::<T, A>::retain_mut': 'vec_retain',
    'std::option::Option::<T>::map': 'opt_map', 'std::option::Option::<T>::and_then': 'opt_and_then',
    'std::option::Option::<T>::filter': 'opt_filter', 'std::option::Option::<T>::or_else': 'opt_or_else',
    'std::option::Option::<T>::or': 'opt_or', 'std::option::Option::<T>::unwrap_or': 'opt_unwrap_or',
    'std::option::Option::<T>::unwrap_or_else': 'opt_unwrap_or_else',
    'std::option::Option::<T>::map_or': 'opt_map_or', 'std::option::Option::<T>::map_or_else': 'opt_map_or_else',
    'std::option::Option::<T>::is_some_and': 'opt_is_some_and',
    'std::option::Option::<T>::is_none_or': 'opt_is_none_or',
    'std::option::Option::<T>::is_some': 'opt_is_some', 'std::option::Option::<T>::is_none': 'opt_is_none',
    'std::option::Option::<T>::unwrap': 'opt_unwrap', 'std::option::Option::<T>::as_ref': 'opt_as_ref',
    'std::option::Option::<T>::as_mut': 'opt_as_mut', 'std::option::Option::<T>::take': 'opt_take',
    'std::option::Option::<T>::ok_or': 'opt_ok_or',
    'std::option::Option::<&T>::cloned': 'opt_cloned', 'std::option::Option::<&T>::copied': 'opt_cloned',
    'std::option::Option::<&mut T>::cloned': 'opt_cloned',
    'std::option::Option::<T>::as_deref': 'opt_as_ref', 'std::option::Option::<T>::as_deref_mut': 'opt_as_mut',
    'std::result::Result::<T, E>::is_ok': 'res_is_ok', 'std::result::Result::<T, E>::is_err': 'res_is_err',
    'std::result::Result::<T, E>::ok': 'res_ok', 'std::result::Result::<T, E>::unwrap': 'res_unwrap',
    'std::result::Result::<T, E>::map': 'res_map',
    'std::iter::Iterator::take_while': 'it_take_while', 'std::iter::Iterator::map_while': 'it_map_while',
    'std::iter::Iterator::inspect': 'it_inspect',
    'std::option::Option::<T>::ok_or_else': 'opt_ok_or_else', 'std::option::Option::<T>::and': 'opt_and',
    'std::option::Option::<T>::zip': 'opt_zip', 'std::option::Option::<T>::replace': 'opt_replace',
    'std::option::Option::<T>::inspect': 'opt_inspect',
    'std::option::Option::<T>::get_or_insert_with': 'opt_get_or_insert_with',
    'std::result::Result::<T, E>::map_err': 'res_map_err', 'std::result::Result::<T, E>::and_then': 'res_and_then',
    'std::result::Result::<T, E>::unwrap_or': 'res_unwrap_or', 'std::result::Result::<T, E>::unwrap_or_else': 'res_unwrap_or_else',
}.items():
    MODELS[_n] = 'models::' + _m
for _p in ('core::bool::<impl bool>::', 'std::bool::<impl bool>::', 'bool::'):
    MODELS[_p + 'then'] = 'models::bool_then'
    MODELS[_p + 'then_some'] = 'models::bool_then_some'


def model(f):
    return MODELS.get(f['p'])


H = {}


def h(*names):
    def d(fn):
        for n in names:
            H[n] = fn
        return fn
    return d


def lookup(f):
    x = H.get(f['p'])
    if x is None and f.get('rp'):
        x = H.get(f['rp'])
    return x, f['p']


def ret(v, st):
    return [('ret', v, st)]


def some(v):
    return ('agg', 'std::option::Option', 'Some', (('std::option::Option.0', v),))


NONE = ('agg', 'std::option::Option', 'None', ())


def place_of(I, st, a):
    """the place that pointer a points to, through pointers to pointers"""
    n = 0
    while a[0] == 'ref':
        r, p = a[1]
        v = I.read(st, r, p)
        if v[0] == 'ref' and n < 8:
            a = v
            n += 1
            continue
        if v[0] == 'guard':
            return v[1]
        return a[1]
    if a[0] == 'guard':
        return a[1]
    if a[0] == 'mem' and I.ver(st, a[1]) == a[2]:
        return a[1]
    return (('O', a), ())


# ------------------------------------------------------------------ pointers
@h('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
   'std::borrow::Borrow::borrow', 'std::borrow::BorrowMut::borrow_mut', 'std::vec::Vec::<T, A>::as_slice',
   'std::vec::Vec::<T, A>::as_mut_slice', 'std::string::String::as_str', 'std::boxed::Box::<T>::as_ref',
   'std::boxed::Box::<T, A>::leak')
def deref(I, fr, st, f, args, t, lid):
    return ret(('ref', place_of(I, st, args[0])), st)


@h('std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned')
def clone(I, fr, st, f, args, t, lid):
    a = args[0]
    r, p = place_of(I, st, a)
    v = I.read(st, r, p)
    if I.inline_clone and f.get('local') and f.get('key') in I.prog.fns:
        return NotImplemented
    return ret(v, st)


@h('std::rc::Rc::<T>::new', 'std::boxed::Box::<T>::new', 'std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new',
   'std::hint::must_use', 'std::convert::identity', 'std::cell::RefCell::<T>::into_inner', 'std::convert::Into::into',
   'std::boxed::Box::<T>::from', 'std::hint::black_box', 'std::vec::Vec::<T, A>::into_boxed_slice')
def ident(I, fr, st, f, args, t, lid):
    return ret(args[0], st)


@h('std::convert::From::from')
def from_(I, fr, st, f, args, t, lid):
    if f.get('ga') and I.tystr(fr.fn, f['ga'][0], fr.subst) == 'std::string::String':
        return ret(('call', 'to_string', (I.deep(st, args[0]),)), st)
    return NotImplemented


@h('std::rc::Rc::<T, A>::ptr_eq')
def ptr_eq(I, fr, st, f, args, t, lid):
    a, b = I.deep(st, args[0]), I.deep(st, args[1])
    if a == b:
        return ret(('ptreq', a, b), st)
    a, b = sorted((a, b), key=repr)
    return ret(('ptreq', a, b), st)


@h('std::mem::replace')
def replace(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0]) if args[0][0] != 'ref' else args[0][1]
    old = I.read(st, *pl)
    I.write(st, pl, args[1], lid)
    return ret(old, st)


@h('std::mem::take')
def take(I, fr, st, f, args, t, lid):
    pl = args[0][1] if args[0][0] == 'ref' else place_of(I, st, args[0])
    old = I.read(st, *pl)
    ty = fr.fn.tys[t['dt']]
    if ty['d'] == 'std::vec::Vec':
        v = ('vec', None, ())
    elif ty['d'] == 'std::option::Option':
        v = NONE
    elif ty['k'] == 'bool':
        v = FALSE
    else:
        v = ('default', ty['s'])
    I.write(st, pl, v, lid)
    return ret(old, st)


@h('std::vec::Vec::<T, A>::split_off')
def split_off(I, fr, st, f, args, t, lid):
    if args[1] != ('int', 0):
        return NotImplemented
    pl = place_of(I, st, args[0])
    old = I.read(st, *pl)
    I.write(st, pl, ('vec', None, ()), lid)
    return ret(old, st)


@h('std::option::Option::<T>::replace')
def opt_replace(I, fr, st, f, args, t, lid):
    pl = args[0][1] if args[0][0] == 'ref' else place_of(I, st, args[0])
    old = I.read(st, *pl)
    I.write(st, pl, some(args[1]), lid)
    return ret(old, st)


@h('std::option::Option::<T>::insert')
def opt_insert(I, fr, st, f, args, t, lid):
    pl = args[0][1] if args[0][0] == 'ref' else place_of(I, st, args[0])
    I.write(st, pl, some(args[1]), lid)
    return ret(('ref', (pl[0], pl[1] + (('v', 'Some'), ('f', 'std::option::Option.0')))), st)


@h('std::mem::swap')
def swap(I, fr, st, f, args, t, lid):
    p1 = args[0][1] if args[0][0] == 'ref' else place_of(I, st, args[0])
    p2 = args[1][1] if args[1][0] == 'ref' else place_of(I, st, args[1])
    a, b = I.read(st, *p1), I.read(st, *p2)
    I.write(st, p1, b, lid)
    I.write(st, p2, a, I.lab(fr.fid, t['t'], 'swap') if t['t'] is not None else lid)
    return ret(UNIT, st)


@h('std::mem::drop')
def drop(I, fr, st, f, args, t, lid):
    I.release(st, args[0])
    return ret(UNIT, st)


@h('std::mem::forget')
def forget(I, fr, st, f, args, t, lid):
    return ret(UNIT, st)


# ------------------------------------------------------------------ RefCell, thread locals
def borrow(I, fr, st, args, lid, mode):
    pl = place_of(I, st, args[0])
    for g in st.guards:
        if g[1] == pl and (mode == 'mut' or g[2] == 'mut'):
            st.ev(('conflict', pl, mode, g[2], fr.fn.key))
    g = ('@', lid, 'g')
    st.guards = st.guards + ((g, pl, mode),)
    return ret(('guard', pl, g, mode), st)


@h('std::cell::RefCell::<T>::borrow_mut')
def borrow_mut(I, fr, st, f, args, t, lid):
    return borrow(I, fr, st, args, lid, 'mut')


@h('std::cell::RefCell::<T>::borrow')
def borrow_shr(I, fr, st, f, args, t, lid):
    return borrow(I, fr, st, args, lid, 'shr')


@h('std::cell::RefCell::<T>::replace')
def refcell_replace(I, fr, st, f, args, t, lid):
    return replace(I, fr, st, f, args, t, lid)


@h('std::cell::Cell::<T>::get')
def cell_get(I, fr, st, f, args, t, lid):
    return ret(I.read(st, *place_of(I, st, args[0])), st)


@h('std::cell::Cell::<T>::set')
def cell_set(I, fr, st, f, args, t, lid):
    I.write(st, place_of(I, st, args[0]), args[1], lid)
    return ret(UNIT, st)


@h('std::thread::LocalKey::<T>::with')
def with_(I, fr, st, f, args, t, lid):
    key = args[0]
    while key[0] == 'ref':
        key = I.read(st, *key[1])
    name = key[1] if key[0] == 'item' else repr(key)
    ty = key[2] if key[0] == 'item' else ''
    if 'TraceSt' in ty and not I.inline_traces:
        return trace_effect(I, fr, st, args, t, lid, name)
    g = ('ref', (('O', ('static', name)), ()))
    clo = args[1]
    fv = clo
    while fv[0] == 'ref':
        fv = I.read(st, *fv[1])
    if fv[0] == 'clo':
        return I.call_closure(fr, st, fv, clo, [g], lid)
    return I.apply(fr, st, fv, None, [g], t, lid)


def mentions_static(t, name):
    return t == ('static', name) or type(t) in (tuple, frozenset) and any(mentions_static(x, name) for x in t)


def trace_effect(I, fr, st, args, t, lid, name):
    """an update of the optional trace: one event (net change of depth, what was pushed)"""
    s = st.copy()
    base = len(s.events)
    g = ('ref', (('O', ('static', name)), ()))
    fv = args[1]
    while fv[0] == 'ref':
        fv = I.read(s, *fv[1])
    effs = {}
    if fv[0] == 'clo':
        for kind, v, s2 in I.call_closure(fr, s, fv, args[1], [g], lid):
            if kind != 'ret':
                continue
            delta, pushed = 0, []
            for e in s2.events[base:]:
                if e[0] in ('push', 'pop') and e[1][0] == ('O', ('static', name)):
                    inner = any(x[0] in ('last', 'e', 'k') for x in e[1][1])
                    if e[0] == 'push' and not inner:
                        delta += 1
                    elif e[0] == 'pop' and not inner:
                        delta -= 1
                    elif e[0] == 'push':
                        pushed.append(e[2])
                elif e[0] == 'write' and e[1][0] == ('O', ('static', name)):
                    lf = [x[1] for x in e[1][1] if x[0] == 'f']
                    if lf and lf[-1].endswith('Trace.extent'):
                        pushed.append(('attach',))
                elif e[0] in ('user', 'dyn', 'call'):
                    pushed.append(('bad', e[0]))
            if delta or pushed:
                effs.setdefault((delta, tuple(pushed)), set()).add(frozenset(
                    (f, v) for f, v in s2.facts.items() if st.facts.get(f) != v and not mentions_static(f, name)))
    if not effs:
        return ret(UNIT, st)
    if len(effs) == 1:
        d, p = next(iter(effs))
        st.ev(('trace', d, p, ('@', lid, 's')))
    elif len({d for d, _ in effs}) == 1:
        # the same mark, with contents that depend on what is not decided yet
        alts = sorted(effs, key=repr)
        st.ev(('trace', alts[0][0], ('alt', tuple(p for _, p in alts), tuple(tuple(sorted(effs[a], key=repr)) for a in alts)), ('@', lid, 's')))
    else:
        st.ev(('trace', None, tuple(sorted(effs, key=repr)), ('@', lid, 's')))
    return ret(UNIT, st)


# ------------------------------------------------------------------ comparison, hashing
@h('std::cmp::PartialEq::eq')
def eq(I, fr, st, f, args, t, lid):
    if I.inline_eq and f.get('local') and f.get('key') in I.prog.fns and I.inline_eq(f):
        return NotImplemented
    return ret(I.mk_eq(st, args[0], args[1]), st)


@h('std::cmp::PartialEq::ne')
def ne(I, fr, st, f, args, t, lid):
    return ret(I.mk_not(I.mk_eq(st, args[0], args[1])), st)


@h('std::cmp::PartialOrd::lt')
def lt(I, fr, st, f, args, t, lid):
    return ret(I.mk_lt(I.deep(st, args[0]), I.deep(st, args[1])), st)


@h('std::cmp::PartialOrd::gt')
def gt(I, fr, st, f, args, t, lid):
    return ret(I.mk_lt(I.deep(st, args[1]), I.deep(st, args[0])), st)


@h('std::cmp::PartialOrd::le')
def le(I, fr, st, f, args, t, lid):
    return ret(I.mk_not(I.mk_lt(I.deep(st, args[1]), I.deep(st, args[0]))), st)


@h('std::cmp::PartialOrd::ge')
def ge(I, fr, st, f, args, t, lid):
    return ret(I.mk_not(I.mk_lt(I.deep(st, args[0]), I.deep(st, args[1]))), st)


@h('std::any::TypeId::of')
def typeid(I, fr, st, f, args, t, lid):
    return ret(('typeid', I.tystr(fr.fn, f['ga'][0], fr.subst)), st)


@h('std::hash::DefaultHasher::new', 'std::hash::SipHasher::new', 'std::collections::hash_map::DefaultHasher::new')
def hasher_new(I, fr, st, f, args, t, lid):
    return ret(('hasher', ()), st)


@h('std::hash::Hash::hash', 'core::hash::impls::<impl std::hash::Hash for u64>::hash')
def hash_(I, fr, st, f, args, t, lid):
    if I.inline_hash and f.get('local') and f.get('key') in I.prog.fns and I.inline_hash(f):
        return NotImplemented
    pl = place_of(I, st, args[1])
    hv = I.read(st, *pl)
    x = I.deep(st, args[0])
    items = hv[1] if hv[0] == 'hasher' else (('hstate', hv),)
    nv = ('hasher', items + (x,))
    if pl[0][0] == 'L':
        I.store_put(st, pl[0], pl[1], nv)
    else:
        I.store_put(st, pl[0], pl[1], nv)
        st.ev(('hash', pl, x))
    return ret(UNIT, st)


@h('std::hash::Hasher::finish')
def hasher_finish(I, fr, st, f, args, t, lid):
    hv = I.read(st, *place_of(I, st, args[0]))
    return ret(('hashof', hv), st)


# ------------------------------------------------------------------ Vec, slices
@h('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity')
def vec_new(I, fr, st, f, args, t, lid):
    return ret(('vec', None, ()), st)


def as_vec(v):
    return v if v[0] == 'vec' else ('vec', v, ())


@h('std::vec::Vec::<T, A>::push')
def vec_push(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    old = I.read(st, *pl)
    x = args[1]
    v = as_vec(old)
    ent = ('ent', x, None)
    nv = v if ent in v[2] else ('vec', v[1], v[2] + (ent,))
    dx = I.deep(st, x)
    st.ev(('push', pl, dx, ('@', lid, 's'), x))
    I.write(st, pl, nv, lid, silent=True)
    return ret(UNIT, st)


@h('std::vec::Vec::<T, A>::pop')
def vec_pop(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    old = I.read(st, *pl)
    in_loop = pl[0][0] == 'L' and any(m[0] == fr.fid for m in st.marks)
    out = []
    ne = I.nonempty(I.deep(st, old))
    if in_loop and old[0] == 'vec':
        # a work list: an arbitrary entry of it
        s0 = st.copy()
        s0.ev(('done', ('@', lid, 'i'), I.deep(st, old)))
        I.store_put(s0, pl[0], pl[1], ('vec', None, ()))
        out.append(('ret', NONE, s0))
        out += yield_vec(I, fr, st, old, pl, lid, 'val', lambda x: some(x))
        return out
    for val, s in I.fork(st, ne):
        if not val:
            out.append(('ret', NONE, s))
            continue
        old = I.read(s, *pl)
        if old[0] == 'vec' and old[2]:
            x = old[2][-1][1]
            nv = ('vec', old[1], old[2][:-1])
            if not nv[2] and nv[1]:
                nv = nv[1]
        else:
            x = I.read(s, pl[0], pl[1] + (('last',),))
            nv = ('popped', I.deep(s, old))
        s.ev(('pop', pl, I.deep(s, x), ('@', lid, 's')))
        I.write(s, pl, nv, lid, silent=True)
        out.append(('ret', some(x), s))
    return out


@h('std::vec::Vec::<T, A>::clear', 'std::vec::Vec::<T, A>::truncate')
def vec_clear(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    if len(args) > 1 and args[1] != ('int', 0):
        I.write(st, pl, ('truncated', I.deep(st, I.read(st, *pl)), I.deep(st, args[1])), lid)
    else:
        I.write(st, pl, ('vec', None, ()), lid)
    return ret(UNIT, st)


@h('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::collections::HashMap::<K, V, S, A>::len')
def vec_len(I, fr, st, f, args, t, lid):
    v = I.deep(st, I.read(st, *place_of(I, st, args[0])))
    if v[0] == 'vec' and not v[1] and not v[2]:
        return ret(('int', 0), st)
    return ret(('len', v), st)


@h('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def vec_is_empty(I, fr, st, f, args, t, lid):
    v = I.deep(st, I.read(st, *place_of(I, st, args[0])))
    return ret(I.mk_not(I.nonempty(v)), st)


@h('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def slice_last(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    v = I.deep(st, I.read(st, *pl))
    out = []
    for val, s in I.fork(st, I.nonempty(v)):
        out.append(('ret', some(('ref', (pl[0], pl[1] + (('last',),)))) if val else NONE, s))
    return out


@h('core::slice::<impl [T]>::split_last', 'core::slice::<impl [T]>::split_last_mut')
def split_last(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    v = I.deep(st, I.read(st, *pl))
    out = []
    for val, s in I.fork(st, I.nonempty(v)):
        out.append(('ret', some(('tup', (('ref', (pl[0], pl[1] + (('last',),))), ('ref', (('O', ('call', 'init', (v,))), ()))))) if val else NONE, s))
    return out


@h('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def slice_first(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    v = I.deep(st, I.read(st, *pl))
    out = []
    for val, s in I.fork(st, I.nonempty(v)):
        out.append(('ret', some(('ref', (pl[0], pl[1] + (I.index_elem(fr, st, pl[0], pl[1], ('int', 0), ('g', 0, lid)),)))) if val else NONE, s))
    return out


@h('std::ops::Try::branch', 'std::ops::FromResidual::from_residual')
def try_(I, fr, st, f, args, t, lid):
    if not I.tystr(fr.fn, f['ga'][0], fr.subst).startswith('std::option::Option'):
        return NotImplemented
    m = 'models::opt_branch' if f['p'].endswith('branch') else 'models::opt_from_residual'
    return I.inline(fr, st, I.prog.fns[m], None, args, t, lid)


@h('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def slice_get(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    v = I.deep(st, I.read(st, *pl))
    e = I.index_elem(fr, st, pl[0], pl[1], I.deep(st, args[1]), ('g', 0, lid))
    out = []
    if e[0] == 'last':
        # get(len-1): in bounds when the vector is not empty
        for val, s in I.fork(st, I.nonempty(v)):
            out.append(('ret', some(('ref', (pl[0], pl[1] + (e,)))) if val else NONE, s))
        return out
    c = ('inbounds', v, I.deep(st, args[1]))
    for val, s in I.fork(st, c):
        out.append(('ret', some(('ref', (pl[0], pl[1] + (e,)))) if val else NONE, s))
    return out


@h('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    iv = I.deep(st, args[1])
    if iv[0] == 'agg' and iv[1].endswith('RangeFull'):
        return ret(('ref', pl), st)
    if iv[0] == 'agg':
        return NotImplemented
    ty = fr.fn.tys[f['ga'][0]]['s'] if f.get('ga') else ''
    if 'HashMap' in ty:
        e = ('k', iv)
    else:
        e = I.index_elem(fr, st, pl[0], pl[1], iv, ('g', 0, lid))
    return ret(('ref', (pl[0], pl[1] + (e,))), st)


@h('std::slice::<impl [T]>::to_vec', 'core::slice::<impl [T]>::to_vec')
def to_vec(I, fr, st, f, args, t, lid):
    return ret(I.read(st, *place_of(I, st, args[0])), st)


# ------------------------------------------------------------------ iteration
@h('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::collections::HashMap::<K, V, S, A>::iter',
   'std::collections::HashMap::<K, V, S, A>::iter_mut')
def iter_(I, fr, st, f, args, t, lid):
    kind = 'map' if 'HashMap' in f['p'] else 'ref'
    return ret(('it', kind, place_of(I, st, args[0])), st)


@h('std::collections::HashMap::<K, V, S, A>::keys')
def keys_(I, fr, st, f, args, t, lid):
    return ret(('it', 'mapkeys', place_of(I, st, args[0])), st)


@h('std::collections::HashMap::<K, V, S, A>::values', 'std::collections::HashMap::<K, V, S, A>::values_mut')
def values_(I, fr, st, f, args, t, lid):
    return ret(('it', 'mapvalues', place_of(I, st, args[0])), st)


@h('std::vec::Vec::<T, A>::drain')
def drain(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    v = I.read(st, *pl)
    rg = I.deep(st, args[1])
    if rg[0] == 'agg' and rg[1].endswith('RangeFull'):
        I.write(st, pl, ('vec', None, ()), lid)
        return ret(('it', 'val', v), st)
    return NotImplemented


@h('std::iter::IntoIterator::into_iter')
def into_iter(I, fr, st, f, args, t, lid):
    a = args[0]
    ty = fr.fn.tys[f['ga'][0]] if f.get('ga') else None
    if ty is not None and ty['k'] == 'param' and ty['s'] in fr.subst:
        s = fr.subst[ty['s']]
    else:
        s = ty['s'] if ty else ''
    if a[0] in ('it',) or (a[0] == 'agg' and a[1] in I.prog.model_adts):
        return ret(a, st)
    if a[0] == 'agg' and 'Range' in a[1]:
        return ret(a, st)
    if a[0] in ('ref', 'guard') or s.startswith('&'):
        pl = place_of(I, st, a)
        v = I.read(st, *pl)
        if v[0] == 'it' or (v[0] == 'agg' and v[1] in I.prog.model_adts):
            return ret(a, st)
        return ret(('it', 'map' if 'HashMap' in s else 'ref', pl), st)
    if s.startswith('std::option::Option'):
        return ret(('it', 'opt', a), st)
    if 'HashMap' in s:
        return ret(('it', 'mapval', a), st)
    return ret(('it', 'val', a), st)


@h('std::iter::Iterator::rev')
def rev(I, fr, st, f, args, t, lid):
    a = args[0]
    if a[0] == 'it':
        return ret(a[:3] + ('rev',), st)
    if a[0] == 'agg':
        return ret(('it', 'range', a, 'rev'), st)
    return NotImplemented


@h('std::iter::Iterator::by_ref')
def by_ref(I, fr, st, f, args, t, lid):
    return ret(args[0], st)


@h('std::iter::Iterator::peekable', 'std::iter::Iterator::fuse')
def same_it(I, fr, st, f, args, t, lid):
    return ret(args[0], st) if 'fuse' in f['p'] else NotImplemented


@h('std::iter::Iterator::flat_map', 'std::iter::Iterator::unzip', 'std::iter::Iterator::partition', 'std::iter::Iterator::try_for_each')
def by_type(I, fr, st, f, args, t, lid):
    rt = fr.fn.tys[t['dt']]['s']
    what = f['p'].split('::')[-1]
    if what == 'flat_map':
        # a function that gives an Option
        m = 'it_filter_map' if any(I.tystr(fr.fn, g, fr.subst).startswith('std::option::Option') for g in f['ga']) else None
    elif what == 'try_for_each':
        m = 'it_try_opt' if rt.startswith('std::option::Option') else 'it_try_res' if rt.startswith('std::result::Result') else None
    else:
        m = 'it_' + what if rt.startswith('(std::vec::Vec') else None
    return I.inline(fr, st, I.prog.fns['models::' + m], None, args, t, lid) if m else NotImplemented


@h('any_positive')
def any_positive(I, fr, st, f, args, t, lid):
    if f.get('key') != 'models::any_positive':
        return NotImplemented
    x = ('call', 'counted', (('@', lid, 'n'),))
    st.facts[('nonempty', x)] = True
    return ret(('len', x), st)


@h('index_of')
def index_of(I, fr, st, f, args, t, lid):
    if f.get('key') != 'models::index_of':
        return NotImplemented
    it = I.read(st, *place_of(I, st, args[0]))
    pl = place_of(I, st, args[1])
    x = ('ref', pl) if pl[1] and pl[1][-1][0] == 'e' else I.read(st, *pl)
    if it[0] == 'it' and it[1] in ('ref', 'val') and (len(it) == 3 or 'position' in str(fr.fn.key)):
        if x[0] == 'ref' and x[1][1] and x[1][1][-1][0] == 'e':
            return ret(('idx', x[1][1][-1][1], I.deep(st, I.read(st, x[1][0], x[1][1][:-1]))), st)
        d = I.deep(st, x)
        if d[0] == 'elem':
            return ret(('idx', d[2], d[1]), st)
    return NotImplemented


@h('std::iter::Iterator::collect')
def collect(I, fr, st, f, args, t, lid):
    ty = fr.fn.tys[t['dt']]
    if ty['d'] == 'std::vec::Vec':
        if args[0][0] == 'it' and args[0][1] == 'val' and len(args[0]) == 3:
            return ret(args[0][2], st)
        m = 'models::it_collect_vec'
    elif ty['d'] == 'std::collections::HashMap':
        m = 'models::it_collect_hashmap'
    else:
        return NotImplemented
    fn = I.prog.fns[m]
    return I.inline(fr, st, fn, None, args, t, lid)


def yield_vec(I, fr, st, v, pl, lid, mode, wrap):
    """an arbitrary element of vector value v"""
    out = []
    lab = ('@', lid, 'i')
    elem = ('e', lab)
    base, ents = (v[1], v[2]) if v[0] == 'vec' else (v, ())
    if base is not None:
        s = st.copy()
        item = I.project(s, base, elem)
        s.ev(('next', lab, I.deep(s, base), I.deep(s, item)))
        if mode == 'ref':
            if v[0] == 'vec':
                x = ('ref', (('O', item), ())) if item[0] != 'mem' or True and pl[0][0] == 'L' else ('ref', (pl[0], pl[1] + (elem,)))
            else:
                x = ('ref', (pl[0], pl[1] + (elem,)))
        else:
            x = item
        out.append(('ret', wrap(x), s))
    for n, e in enumerate(ents):
        s = st.copy()

        def ren(y):
            if y[0] == '@':
                return ('@v', y[1], y[2], lid)
            if y[0] == '@v':
                return ('@v', y[1], y[2], lid)
            return None
        from absint import rewrite
        if e[2] is not None:
            val = rewrite(e[1], ren)
            ok = True
            for fct, b in e[2]:
                fct = rewrite(fct, ren)
                if fct[0] == 'var':
                    s.facts[fct] = b
                else:
                    s.facts[fct] = b
        else:
            val = e[1]
        s.ev(('next', lab, ('ents', tuple(I.deep(s, x[1]) for x in ents)), I.deep(s, val)))
        if mode == 'ref':
            bp = (('O', ('bind', lab, n)), ())
            I.store_put(s, bp[0], bp[1], val)
            x = ('ref', bp)
        else:
            x = val
        out.append(('ret', wrap(x), s))
    return out


@h('std::iter::Iterator::next', 'std::iter::DoubleEndedIterator::next_back')
def next_(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    it = I.read(st, *pl)
    lab = ('@', lid, 'i')
    if it[0] == 'agg' and it[1] in I.prog.model_adts:
        for fn in I.prog.by_trait.get(('std::iter::Iterator', 'next'), []):
            si = fn.d.get('impl_self')
            if fn.crate == 'models' and fn.tys[si]['d'] == it[1]:
                return I.inline(fr, st, fn, None, [('ref', pl)], t, lid)
        return NotImplemented
    if it[0] == 'agg' and 'Range' in it[1] or it[0] == 'it' and it[1] == 'range':
        r = it if it[0] == 'agg' else it[2]
        fs = dict((n.split('.')[-1], v) for n, v in r[3])
        lo, hi = I.deep(st, fs.get('start', ('int', 0))), I.deep(st, fs.get('end', ('any', lab, UNIT)))
        out = []
        coll = hi[1] if hi[0] == 'len' and lo == ('int', 0) else ('range', lo, hi)
        s0 = st.copy()
        s0.ev(('done', lab, coll))
        out.append(('ret', NONE, s0))
        s = st.copy()
        x = ('idx', lab, coll) if coll[0] != 'range' else ('any', lab, ('in', lo, hi) + it[3:])
        s.ev(('next', lab, coll, ('elem', coll, lab) if coll[0] != 'range' else x))
        out.append(('ret', some(x), s))
        return out
    if it[0] != 'it':
        if f.get('rk') == 'item' and f.get('local'):
            return NotImplemented
        # an unknown iterator
        s0 = st.copy()
        coll = ('iterof', I.deep(st, it))
        s0.ev(('done', lab, coll))
        s = st.copy()
        x = ('elem', coll, lab)
        s.ev(('next', lab, coll, x))
        return [('ret', NONE, s0), ('ret', some(x), s)]
    kind = it[1]
    out = []
    if kind in ('ref', 'val'):
        v = I.read(st, *it[2]) if kind == 'ref' else it[2]
        while v[0] == 'ref':
            v = I.read(st, *v[1])
        dv = I.deep(st, v)
        if len(it) > 3:
            dv = ('rev', dv)
        if not (v[0] == 'vec' and False):
            s0 = st.copy()
            s0.ev(('done', lab, dv))
            out.append(('ret', NONE, s0))
        if not (v[0] == 'vec' and v[1] is None and not v[2]):
            out += yield_vec(I, fr, st, v, it[2] if kind == 'ref' else None, lid, kind, some)
        return out
    if kind in ('map', 'mapkeys', 'mapvalues', 'mapval'):
        mp = it[2]
        if kind == 'mapval':
            dv = I.deep(st, mp)
            key = ('keyof', dv, lab)
            val = ('valof', dv, lab)
        else:
            dv = I.deep(st, I.read(st, *mp))
            key = ('keyof', dv, lab)
            val = ('ref', (mp[0], mp[1] + (('k', key),)))
        s0 = st.copy()
        s0.ev(('done', lab, dv))
        out.append(('ret', NONE, s0))
        s = st.copy()
        item = {'map': ('tup', (key, val)), 'mapval': ('tup', (key, val)), 'mapkeys': key, 'mapvalues': val}[kind]
        s.ev(('next', lab, dv, I.deep(s, item)))
        out.append(('ret', some(item), s))
        return out
    if kind == 'opt':
        for vn, s in I.fork_variant(st, it[2], 'std::option::Option'):
            if vn == 'None':
                out.append(('ret', NONE, s))
            else:
                x = I.project(s, I.project(s, I.deep(s, it[2]), ('v', 'Some')), ('f', 'std::option::Option.0'))
                I.store_put(s, pl[0], pl[1], ('it', 'opt', NONE))
                out.append(('ret', some(x), s))
        return out
    return NotImplemented


def _model_adt(n):
    return n[len('models::'):] if n.startswith('models::') else n


# ------------------------------------------------------------------ HashMap
@h('std::collections::HashMap::<K, V>::new', 'std::collections::HashMap::<K, V, S>::new')
def map_new(I, fr, st, f, args, t, lid):
    return ret(('newmap',), st)


def has_place(pl, key):
    return (pl[0], pl[1] + (('k', key), ('has',)))


def map_key(I, st, a):
    k = I.deep(st, a)
    return I.rep(st, k)


@h('std::collections::HashMap::<K, V, S, A>::get', 'std::collections::HashMap::<K, V, S, A>::get_mut')
def map_get(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    key = map_key(I, st, args[1])
    c = I.read(st, *has_place(pl, key))
    out = []
    for val, s in I.fork(st, c):
        out.append(('ret', some(('ref', (pl[0], pl[1] + (('k', key),)))) if val else NONE, s))
    return out


@h('std::collections::HashMap::<K, V, S, A>::contains_key')
def map_contains(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    return ret(I.read(st, *has_place(pl, map_key(I, st, args[1]))), st)


@h('std::collections::HashMap::<K, V, S, A>::insert')
def map_insert(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    key = map_key(I, st, args[1])
    st.ev(('insert', pl, key, I.deep(st, args[2]), ('@', lid, 's')))
    I.write(st, (pl[0], pl[1] + (('k', key),)), args[2], lid, silent=True)
    hp = has_place(pl, key)
    cur = I.read(st, *hp)
    old = I.truth(st, cur)
    I.store_put(st, hp[0], hp[1], TRUE)
    return ret(('call', 'HashMap::insert', (key,), ('@', lid, 'r')), st)


@h('std::collections::HashMap::<K, V, S, A>::remove')
def map_remove(I, fr, st, f, args, t, lid):
    pl = place_of(I, st, args[0])
    key = map_key(I, st, args[1])
    st.ev(('remove', pl, key, ('@', lid, 's')))
    old = I.read(st, pl[0], pl[1] + (('k', key),))
    out = []
    for val, s in I.fork(st, I.read(st, *has_place(pl, key))):
        hp = has_place(pl, key)
        I.store_put(s, hp[0], hp[1], FALSE)
        out.append(('ret', some(old) if val else NONE, s))
    return out


# ------------------------------------------------------------------ closures, strings
@h('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once')
def fn_call(I, fr, st, f, args, t, lid):
    fv0 = args[0]
    fv = fv0
    while True:
        if fv[0] == 'ref':
            fv0 = fv
            fv = I.read(st, *fv[1])
        elif fv[0] == 'guard':
            fv = I.read(st, *fv[1])
        else:
            break
    a = args[1]
    xs = list(a[1]) if a[0] == 'tup' else [a]
    if fv[0] == 'clo':
        return I.call_closure(fr, st, fv, fv0, xs, lid)
    if fv[0] == 'fn':
        from absint import _thaw
        return I.call_fn(fr, st, _thaw(fv[2]), fv, xs, t, lid)
    return I.user_call(fr, st, ('fnval', I.deep(st, fv)), xs, t, lid)


@h('std::option::Option::<T>::expect')
def expect(I, fr, st, f, args, t, lid):
    return I.inline(fr, st, I.prog.fns['models::opt_unwrap'], None, args[:1], t, lid)


@h('std::result::Result::<T, E>::expect')
def rexpect(I, fr, st, f, args, t, lid):
    return I.inline(fr, st, I.prog.fns['models::res_unwrap'], None, args[:1], t, lid)


@h('std::string::ToString::to_string')
def to_string(I, fr, st, f, args, t, lid):
    return ret(('call', 'to_string', (I.deep(st, args[0]),)), st)


@h('reflect::Reflect::reflect')
def reflect(I, fr, st, f, args, t, lid):
    if I.inline_reflect:
        return NotImplemented
    return ret(('call', 'reflect', (I.deep(st, args[0]),)), st)


@h('std::intrinsics::transmute', 'core::intrinsics::transmute')
def transmute(I, fr, st, f, args, t, lid):
    f_, t_ = I.tystr(fr.fn, f['ga'][0], fr.subst), I.tystr(fr.fn, f['ga'][1], fr.subst)
    if ('dyn ' in f_ or 'dyn ' in t_) and f_ != t_:
        st.ev(('cast', f_, t_, I.deep(st, args[0]), (fr.fn.key, t['ln'])))
    return ret(args[0], st)
