"""What the macro forms mean: decided on uses of them (models/witness.rs) that are compiled against the tree."""
from rules_names import *
import framework

# witness -> (form, name, function, compared arguments, hidden arguments, result)
# name: 'op' optional name arg1, 'id' the identifier, 'ctr' the counter, 'given' arg1, 'str' structural
THUNKS = {
    'thunk_op': ('thunk!([opt]? f; args)', 'op', 'f2', '23', '', 't'),
    'thunk_op1': ('thunk!([opt]? f; args)', 'op', 'f1', '2', '', 't'),
    'thunk_op3': ('thunk!([opt]? f; args)', 'op', 'f3', '234', '', 't'),
    'thunk_opg': ('thunk!([opt]? f; args)', 'op', 'g2', '23', '', 't'),
    'thunk_opev': ('thunk!([opt]? f; args)', 'op', 'f2', 'e3', '', 't'),
    'thunk_hid': ('thunk!([opt]? f; args ;; args)', 'op', 'f2', '2', '3', 't'),
    'thunk_hid3': ('thunk!([opt]? f; args ;; args)', 'op', 'f3', '2', '34', 't'),
    'thunk_hidev': ('thunk!([opt]? f; args ;; args)', 'op', 'f2', 'e', 'h', 't'),
    'thunk_id': ('thunk!([id] f; args)', 'id', 'f2', '12', '', 't'),
    'thunk_idev': ('thunk!([id] f; args)', 'id', 'f2', 'E2', '', 't'),
    'thunk_arr': ('thunk!(name =>> f, args)', 'given', 'f2', '23', '', 't'),
    'thunk_arrev': ('thunk!(name =>> f, args)', 'given', 'f2', 'e3', '', 't'),
    'thunk_arrhid': ('thunk!(name =>> f, args ;; args)', 'given', 'f2', '2', '3', 't'),
    'thunk_opbody': ('thunk!([opt]? body)', 'op', 'b2', '', '23', 't'),
    'thunk_idbody': ('thunk!([id] body)', 'id', 'b2', '', '12', 't'),
    'thunk_ctrbody': ('thunk!(body)', 'ctr', 'b2', '', '12', 't'),
    'memo_op': ('memo!([opt]? f; args)', 'op', 'f2', '23', '', 'tf'),
    'memo_opg': ('memo!([opt]? f; args)', 'op', 'g2', '23', '', 'tf'),
    'memo_opev': ('memo!([opt]? f; args)', 'op', 'f2', 'e3', '', 'tf'),
    'memo_hid': ('memo!([opt]? f; args ;; args)', 'op', 'f2', '2', '3', 'tf'),
    'memo_hidev': ('memo!([opt]? f; args ;; args)', 'op', 'f2', 'e', 'h', 'tf'),
    'memo_arr': ('memo!(name =>> f, args)', 'given', 'f2', '23', '', 'f'),
    'memo_arrg': ('memo!(name =>> f, args)', 'given', 'g2', '23', '', 'f'),
    'memo_arrev': ('memo!(name =>> f, args)', 'given', 'f2', 'e3', '', 'f'),
    'memo_arrhid': ('memo!(name =>> f, args ;; args)', 'given', 'f2', '2', '3', 'f'),
    'eager_arrt': ('eager!(name =>> f::<T>, args)', 'given', 'p2', '23', '', 'tf'),
    'eager_arr': ('eager!(name =>> f, args)', 'given', 'f2', '23', '', 'tf'),
    'eager_arrg': ('eager!(name =>> f, args)', 'given', 'g2', '23', '', 'tf'),
    'eager_arrev': ('eager!(name =>> f, args)', 'given', 'f2', 'e3', '', 'tf'),
    'eager_strt': ('eager!(f::<T>, args)', 'str', 'p2', '12', '', 'tf'),
    'eager_str': ('eager!(f, args)', 'str', 'f2', '12', '', 'tf'),
    'eager_strg': ('eager!(f, args)', 'str', 'g2', '12', '', 'tf'),
    'eager_strev': ('eager!(f, args)', 'str', 'f2', 'E2', '', 'tf'),
    'eager_arrhid': ('eager!(name =>> f =>> <T>, args ;; args)', 'given', 'p2', '2', '3', 'tf'),
}
for _k, _f in (('thunk_hid', 'g2'), ('thunk_id', 'g2'), ('thunk_arr', 'g2'), ('thunk_arrhid', 'g2'), ('thunk_opbody', 'g2'), ('thunk_idbody', 'g2'),
               ('thunk_ctrbody', 'g2'), ('memo_hid', 'g2'), ('memo_arrhid', 'g2'), ('eager_arrt', 'q2'), ('eager_strt', 'q2'), ('eager_arrhid', 'q2')):
    THUNKS[_k + _f[0]] = THUNKS[_k][:2] + (_f,) + THUNKS[_k][3:]
CELLS = {
    'cell_op': ('cell!([opt]? v)', 'op', ('arg', 2)),
    'cell_opev': ('cell!([opt]? v)', 'op', ('e', 2)),
    'cell_id': ('cell!([id] v)', 'id', ('arg', 1)),
    'cell_idev': ('cell!([id] v)', 'id', ('e', 1)),
    'cell_ctr': ('cell!(v)', 'ctr', ('arg', 1)),
    'cell_ctrev': ('cell!(v)', 'ctr', ('e', 1)),
    'cell_call_1': ('cell_call!(name =>> f, args)', 'given', ('f2', 2, 3)),
    'cell_call_t': ('cell_call!(name =>> f::<T>, args)', 'given', ('p2', 2, 3)),
}
OPAQUE = ('e1', 'f1', 'f2', 'f3', 'g2', 'b2', 'p2', 'q2')


def W(f, *a):
    return ('call', 'F:' + f, a)


def wanted(code):
    return [{'e': W('e1', A(2)), 'h': W('e1', A(3)), 'E': W('e1', A(1))}.get(c) or A(int(c)) for c in code]


def leaves(t):
    """the arguments in a tuple of arguments"""
    if t[0] == 'tup':
        return [x for y in t[1] for x in leaves(y)]
    return [t]


def same_args(a, b):
    return sorted(map(repr, a)) == sorted(map(repr, b))


class Witness:
    def __init__(self, ctx, name, opaque):
        self.name = name
        self.fn = [f for k, f in ctx.P.fns.items() if f.crate == 'witness' and k.split('::')[-1] == name and f.kind == 'fn']
        self.u = LibUnit(ctx, self.fn[0], opaque)

    def cases(self):
        """(path, meaning, raw result, None/'Some'/'None' of the optional name)"""
        for p in self.u.paths:
            d = Den(self.u, p.st.facts, 4)
            if d.infeasible:
                continue
            k = p.st.facts.get(('var', A(1)))
            if p.kind == 'ret' and not clean_macro(plain(self.u.I.deep(p.st, p.rawval))):
                continue
            yield p, d, plain(self.u.I.deep(p.st, p.rawval)) if p.kind == 'ret' else None, k[1] if k and k[0] == 'is' else None


def apply_thunk(w, d, t):
    """what the function of a thunk computes from the thunk's arguments"""
    clo = t[2][2]
    if clo[0] != 'clo':
        return None
    ps = w.u.closure(clo, (t[2][3], t[2][4]), d.raw)
    if len(ps) != 1 or ps[0].kind != 'ret':
        return None
    q = ps[0]
    return plain(w.u.I.deep(q.st, q.rawval))


def tupled(v):
    """a tuple of all the components of one result, as that result"""
    if type(v) is tuple and len(v) == 2 and v[0] == 'tup' and v[1] and all(x[0] == 'call' and x[1] == 'out%d' % i for i, x in enumerate(v[1])):
        return v[1][0][2][0]
    return v


def name_term(kind, case):
    if kind == 'op':
        return part_of_option(A(1))
    if kind == 'id':
        return ('call', 'name_of_str', (('str', 'ident'),))
    return A(1)


def part_of_option(x):
    return ('call', 'part:Some.0', (x,))


def plain(t):
    """the content of an option, and a tuple of all the components of one result, as such"""
    if type(t) is not tuple:
        return t
    if len(t) == 3 and t[0] == 'mem' and t[1][0][0] == 'O' and t[1][1] == (('v', 'Some'), ('f', 'std::option::Option.0')):
        return part_of_option(plain(t[1][0][1]))
    return tupled(tuple(plain(x) for x in t))


def is_counter(ctx, p, nm):
    """a name made from the counter, which the same use has moved on"""
    if nm[0] != 'call' or nm[1] != 'name_of_usize':
        return False
    c = nm[2][0]
    for e in raw_events(p.st.events, ('write',)):
        new = e[2] if len(e) > 2 else None
        old = e[3] if len(e) > 3 else None
        if new is not None and new[0] == 'op' and new[1] == 'Add' and ('int', 1) in new[2:] and old in new[2:] and c in (old, new):
            return True
    return False


def allocs(p):
    return [e for e in raw_events(p.st.events, ('call',)) if e[1] in ('cell', 'put', 'thunk')]


def g_macros(ctx, rep):
    """each form of each macro allocates, demands and forks what its documentation says"""
    facts = list(extract_all())
    if isinstance(facts[2], str):
        rep.ob('macro', False, 'src/macros.rs', 'uses of the documented forms do not compile: %s' % facts[2])
        return
    c2 = framework.Ctx(facts)
    opaque = tuple(f.key for f in c2.P.fns.values() if f.crate == 'witness' and f.kind == 'fn' and f.key.split('::')[-1] in OPAQUE)
    points = {}

    def witness(name):
        w = Witness(c2, name, opaque)
        rep.use(w.u)
        return w

    for name, (form, nk, fn, cmp_, hid, res) in sorted(THUNKS.items()):
        w = witness(name)
        where = '%s in src/macros.rs' % form
        for p, d, v, case in w.cases():
            def ob(ok, text):
                rep.ob('macro', ok, where, text, p)
            if v is None:
                ob(False, 'can panic: %s' % str(p.val)[:100])
                continue
            al = allocs(p)
            t = v if res == 't' else None
            if res == 'f' and v[0] == 'call' and v[1] == 'force':
                t = v[2][0]
            if res == 'tf' and v[0] == 'tup' and len(v[1]) == 2:
                t = v[1][0]
                r = tupled(v[1][1])
                ob(r == ('call', 'force', (t,)), 'the second result is %s, not the value demanded of the thunk' % show(r)[:120])
            if t is None or t[0] != 'call' or t[1] != 'thunk' or len(t[2]) < 5:
                if clean_macro(v):
                    ob(False, 'gives %s, which is not %s' % (show(v)[:160], {'t': 'a thunk', 'f': 'the value of a thunk', 'tf': 'a thunk and its value'}[res]))
                continue
            ob(len(al) == 1, 'allocates %d times' % len(al))
            nc, pp, clo, arg, spur = t[2][:5]
            want = 'Eager' if nk == 'op' and case == 'None' else 'Structural' if nk == 'str' else 'Nominal'
            got = nc[2] if nc[0] == 'agg' else None
            okn = got == want
            if okn and want == 'Nominal':
                nm = nc[3][0][1]
                okn = is_counter(c2, p, nm) if nk == 'ctr' else nm == name_term(nk, case)
            ob(okn, 'the thunk gets %s; expected %s' % (show(nc)[:140], expect_name(nk, want)))
            ob(same_args(leaves(arg), wanted(cmp_)), 'the arguments that are compared are %s' % show(arg)[:140])
            body = not cmp_
            ob(body or set(map(repr, leaves(spur))) <= set(map(repr, wanted(hid))), 'the arguments that are not compared are %s' % show(spur)[:140])
            if not body and clo[0] == 'clo':
                ob(not any(touches_args(x) for x in clo[2]), 'the function captures an argument')
            m = tupled(apply_thunk(w, d, t))
            ob(m == W(fn, *(wanted(cmp_) + wanted(hid))), 'the thunk computes %s' % (show(m)[:160] if m else '?'))
            if pp[0] == 'agg' and clean_macro(pp):
                points.setdefault(pp, {}).setdefault(fn if not body else 'body ' + fn, (where, p))
            else:
                ob(not touches_args(pp), 'the program point depends on an argument: %s' % show(pp)[:140])
    for pp, fs in sorted(points.items(), key=repr):
        rep.ob('macro', len(fs) == 1, sorted(fs.values(), key=lambda x: x[0])[-1][0],
               'thunks of the functions %s have one program point, %s' % (' and '.join(sorted(fs)), show(pp)[:100]), None)

    for name, (form, nk, val) in sorted(CELLS.items()):
        w = witness(name)
        for p, d, v, case in w.cases():
            where = '%s in src/macros.rs' % form
            want = A(val[1]) if val[0] == 'arg' else W('e1', A(val[1])) if val[0] == 'e' else W(val[0], *(A(i) for i in val[1:]))
            if v is None:
                rep.ob('macro', False, where, 'can panic: %s' % str(p.val)[:100], p)
            elif nk == 'op' and case == 'None':
                rep.ob('macro', eq_alloc(v, 'put', (want,)), where, 'without a name gives %s' % show(v)[:140], p)
            elif nk == 'ctr':
                ok = v[0] == 'call' and v[1] == 'cell' and is_counter(c2, p, v[2][0]) and tupled(v[2][1]) == want
                rep.ob('macro', ok, where, 'gives %s' % show(v)[:140], p)
            else:
                rep.ob('macro', eq_alloc(v, 'cell', (name_term(nk, case), want)), where, 'gives %s' % show(v)[:140], p)
            rep.ob('macro', len(allocs(p)) == 1, where, 'allocates %d times' % len(allocs(p)), p)

    I_, J_ = (('call', 'name_of_str', (('str', s),)) for s in ('ident', 'jdent'))
    simple = {
        'get_1': ('get!(a)', lambda c: ('call', 'force', (A(1),))),
        'get_2': ('get!(a, on cycle)', lambda c: ('call', 'force_cycle', (A(1), some(A(2))))),
        'fork_1': ('fork!(n)', lambda c: ('tup', tuple(('call', 'fork2.%d' % i, (A(1),)) for i in (0, 1)))),
        'forko_1': ('forko!(opt)', lambda c: ('tup', (NONE, NONE)) if c == 'None' else
                    ('tup', tuple(some(('call', 'fork2.%d' % i, (part_of_option(A(1)),))) for i in (0, 1)))),
        'let_cell_1': ('let_cell!{x = e; body}', lambda c: ('tup', (('call', 'cell', (I_, A(1))),) * 2)),
        'let_cell_2': ('let_cell!{x = e; y = e; body}', lambda c: ('tup', (('call', 'cell', (I_, A(1))), ('call', 'cell', (J_, A(2)))))),
    }
    for name, (form, want) in sorted(simple.items()):
        w = witness(name)
        for p, d, v, case in w.cases():
            rep.ob('macro', v is not None and v == want(case), '%s in src/macros.rs' % form, 'gives %s' % (show(v)[:160] if v else 'a panic'), p)

    # the binding forms: (name, body arguments) of the thunks behind the results
    lets = {
        'let_thunk_1': ('let_thunk!{x = e; body}', [('t', I_, (1, 2))]),
        'let_thunk_2': ('let_thunk!{x = e; y = e; body}', [('t', I_, (1, 2)), ('t', J_, (2, 1))]),
        'let_memo_1': ('let_memo!{x =(t)= e; body}', [('t', I_, (1, 2)), ('f', I_, (1, 2))]),
        'let_memo_2': ('let_memo!{x =(t)= e; y =(u)= e; body}', [('f', I_, (1, 2)), ('f', J_, (2, 1))]),
    }
    for name, (form, want) in sorted(lets.items()):
        w = witness(name)
        where = '%s in src/macros.rs' % form
        for p, d, v, case in w.cases():
            vs = v[1] if v and len(want) > 1 and v[0] == 'tup' else (v,)
            pps = {}
            for x, (k, nm, args) in zip(vs, want):
                if k == 'f' and x and x[:2] == ('call', 'force'):
                    x = x[2][0]
                elif k == 'f':
                    x = None
                ok = bool(x) and x[:2] == ('call', 'thunk') and x[2][0][0] == 'agg' and x[2][0][2] == 'Nominal' and x[2][0][3][0][1] == nm
                rep.ob('macro', ok, where, 'a result is %s, not %s of the thunk named %s' % (show(x)[:140] if x else show(v)[:140] if v else '?', 'the value' if k == 'f' else 'the articulation', show(nm)), p)
                if ok:
                    m = tupled(apply_thunk(w, d, x))
                    rep.ob('macro', m == W('b2', *(A(i) for i in args)), where, 'the thunk %s computes %s' % (show(nm), show(m)[:140] if m else '?'), p)
                    pps.setdefault(x[2][1], set()).add(args)
            rep.ob('macro', all(len(s) == 1 for s in pps.values()), where, 'two expressions have the same program point', p)
    for name in ('ctr_cells', 'ctr_mixed', 'ctr_thunks'):
        w = witness(name)
        for p, d, v, case in w.cases():
            ns = []
            for e in allocs(p):
                n = plain(e[3][0])
                ns.append(n[3][0][1] if n[0] == 'agg' and n[3] else n)
            rep.ob('macro', len(ns) == 2 and ns[0] != ns[1], 'names from the counter in src/macros.rs',
                   'two uses give %s' % ' and '.join(show(n)[:100] for n in ns), p)


def expect_name(nk, want):
    return {'Eager': 'Eager', 'Structural': 'Structural'}.get(want) or 'the name ' + {
        'op': 'in the option', 'id': 'of the identifier', 'ctr': 'of the counter', 'given': 'given'}[nk]


def clean_macro(t):
    if type(t) is tuple:
        if t and t[0] in ('any', 'proj', 'opaque', 'undef', 'some'):
            return False
        return all(clean_macro(x) for x in t)
    return True


def touches_args(t):
    return type(t) is tuple and (len(t) == 2 and t[0] == 'p' and str(t[1]).startswith('arg') or any(touches_args(x) for x in t))


def eq_alloc(v, op, args):
    return v is not None and v[0] == 'call' and v[1] == op and tuple(tupled(x) for x in v[2]) == args


_all = []


def extract_all():
    if not _all:
        _all.append(framework.extract(witness=True))
    return _all[0]
