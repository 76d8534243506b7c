"""Analysis of the collection library: engine operations and the traits' eliminators are primitives.

The eliminators apply exactly one of their handlers; the state forks over the handlers, with the constructor as a fact on
the eliminated value and its components as symbolic projections.  (That the concrete eliminators do this is decided
separately.)"""
from absint import Interp, St, Frame
from paths import Path

ELIMS = {
    'catalog::collections::ListElim': {'elim': 0, 'elim_arg': 1},
    'catalog::collections::TreeElim': {'elim': 0, 'elim_ref': 0, 'elim_arg': 1, 'full_move': 1},
    'catalog::trie::TrieElim': {'elim': 0, 'elim_ref': 0, 'elim_arg': 1},
}
CASES = {
    'catalog::collections::ListElim': [('Nil', ('self',)), ('Cons', ('hd', 'tl')), ('Name', ('nm', 'tl'))],
    'catalog::collections::TreeElim': [('Nil', ()), ('Leaf', ('x',)), ('Bin', ('lev', 'l', 'r')), ('Name', ('nm', 'lev', 'l', 'r')),
                                       ('Art', ('art',))],
    'catalog::trie::TrieElim': [('Nil', ('bs',)), ('Leaf', ('bs', 'x')), ('Bin', ('bs', 'l', 'r')), ('Root', ('meta', 't')),
                                ('Name', ('nm', 't'))],
}
PURE_TRAITS = ('catalog::collections::ListIntro', 'catalog::collections::TreeIntro', 'catalog::trie::TrieIntro',
               'catalog::collections::Level', 'catalog::bitstring::BitString', 'catalog::collections::MapIntro',
               'catalog::collections::MapElim', 'catalog::collections::ListElim', 'catalog::collections::TreeElim',
               'catalog::trie::TrieElim')
ENGINE_PURE = ('name_unit', 'name_pair', 'name_fork', 'name_fork3', 'name_fork4', 'name_of_str', 'name_of_string', 'name_of_usize',
               'name_of_isize', 'name_of_hash64')
ENGINE_OPS = ('cell', 'put', 'thunk', 'force', 'force_map', 'force_cycle', 'set')


def proj(x, case, f):
    return ('call', 'part:%s.%s' % (case, f), (x,))


class LibInterp(Interp):
    def call_local(self, fr, st, fn, fv, args, t, lid):
        p = fn.d.get('path') or ''
        if p.startswith('engine::'):
            n = p[len('engine::'):]
            if n in ENGINE_PURE:
                k = {'name_fork': 2, 'name_fork3': 3, 'name_fork4': 4}.get(n)
                a = tuple(self.deep(st, x) for x in args)
                if k:
                    return [('ret', ('tup', tuple(('call', 'fork%d.%d' % (k, i), a) for i in range(k))), st)]
                return [('ret', ('call', n, a), st)]
            if n in ENGINE_OPS:
                a = tuple(self.deep(st, x) for x in args)
                st.ev(('call', n, fn.key, a, ('@', lid, 's'), (), ()))
                return [('ret', ('call', n, a), st)]
            if n in ('ns', 'structural'):
                a = tuple(self.deep(st, x) for x in args[:-1])
                st.ev(('scope', n, a, ('@', lid, 's')))
                out = []
                f = args[-1]
                fv0, f2 = f, f
                while f2[0] == 'ref':
                    f2 = self.read(st, *f2[1])
                if f2[0] != 'clo':
                    st.ev(('user', ('fnval', self.deep(st, f2)), (), ('@', lid, 's'), ()))
                    st.ev(('scope-end', n, a, ('@', lid, 's')))
                    return [('ret', ('call', ('fnval', self.deep(st, f2)), ()), st)]
                for kind, v, s in self.call_closure(fr, st, f2, fv0, [], lid):
                    if kind == 'ret':
                        s.ev(('scope-end', n, a, ('@', lid, 's')))
                    out.append((kind, v, s))
                return out
        tr = (fn.d.get('impl_trait') or '').split('<')[0]
        if tr in ELIMS and fn.d['name'] in ELIMS[tr] and fn.key not in fr.chain:
            return self.elim(fr, st, tr, fn.d['name'], args, lid)
        if self.rec and fn.key in self.rec and not (fn.d.get('impl_trait') or '').startswith('std::') or fn.key in fr.chain:
            return self.lib_rec(fr, st, fn, args, t, lid)
        if fn.key in self.opaque:
            return self.lib_rec(fr, st, fn, args, t, lid)
        return super().call_local(fr, st, fn, fv, args, t, lid)

    def lib_rec(self, fr, st, fn, args, t, lid):
        a = tuple(self.deep(st, x) for x in args)
        tr = fn.d.get('impl_trait') or ''
        nm = 'F:' + (fn.d.get('path') or fn.key)
        if tr:
            nm = 'M:%s::%s' % (tr.split('<')[0].split('::')[-1], fn.d['name'])
        st.ev(('call', nm, fn.key, a, ('@', lid, 's'), (), ()))
        r = ('call', nm, a)
        if t is not None:
            dt = fr.fn.tys[t['dt']]
            if dt['k'] == 'tuple' and dt['a']:
                r = ('tup', tuple(('call', 'out%d' % i, (r,)) for i in range(len(dt['a']))))
            elif dt['k'] in ('ref', 'refmut'):
                r = ('ref', (('O', r), ()))
        return [('ret', r, st)]

    def user_call(self, fr, st, what, args, t, lid):
        a = tuple(self.deep(st, x) for x in args)
        w = what[1] if what[0] in ('fnval', 'fnptr') else what
        st.ev(('user', w, a, ('@', lid, 's'), ()))
        return [('ret', ('call', ('fnval', w), a), st)]

    def call_dyn(self, fr, st, f, fv, cands, args, t, lid):
        tr, tm = f['tr'], f['tm']
        if tr in ELIMS and tm in ELIMS[tr]:
            return self.elim(fr, st, tr, tm, args, lid)
        if tr in PURE_TRAITS:
            dflt = self.prog.fns.get(f.get('key'))
            if dflt is not None and dflt.blocks and dflt.key not in fr.chain and not (self.rec and dflt.key in self.rec):
                return self.inline(fr, st, dflt, fv, args, t, lid)
            a = tuple(self.deep(st, x) for x in args)
            nm = '%s::%s' % (tr.split('::')[-1], tm)
            st.ev(('op', nm, a, ('@', lid, 's')))
            r = ('call', 'M:' + nm, a)
            if t is not None and fr.fn.tys[t['dt']]['k'] == 'tuple' and fr.fn.tys[t['dt']]['a']:
                r = ('tup', tuple(('call', 'out%d' % i, (r,)) for i in range(len(fr.fn.tys[t['dt']]['a']))))
            return [('ret', r, st)]
        return super().call_dyn(fr, st, f, fv, cands, args, t, lid)

    def elim(self, fr, st, tr, tm, args, lid):
        x = self.deep(st, args[0])
        na = ELIMS[tr][tm]
        extra = list(args[1:1 + na])
        hs = args[1 + na:]
        cases = CASES[tr][:len(hs)]
        out = []
        known = st.facts.get(('var', x))
        for (case, fs), hv in zip(cases, hs):
            if known is not None and (known[0] == 'is') != (known[1] == case if known[0] == 'is' else case in known[1]):
                continue
            s = st.copy()
            s.facts[('var', x)] = ('is', case)
            s.ev(('elim', x, case, ('@', lid, 's')))
            comps = []
            for c in fs:
                v = x if c == 'self' else proj(x, case, c)
                k = (('O', v), ())
                comps.append(('ref', k) if tm in ('elim', 'elim_ref') and (tr.endswith('ListElim') or tm == 'elim_ref') or c == 'art' else v)
            f2, fv0 = hv, hv
            while f2[0] == 'ref':
                f2 = self.read(s, *f2[1])
            lab = self.lab(lid, 'case', case)
            if f2[0] == 'clo':
                out += self.call_closure(fr, s, f2, fv0, comps + extra, lab)
            elif f2[0] == 'fn':
                out += self.apply(fr, s, f2, None, comps + extra, None, lab)
            else:
                out += self.user_call(fr, s, ('fnval', self.deep(s, f2)), comps + extra, None, lab)
        return out


class LibUnit:
    """a library function (or a closure applied to symbolic arguments) with its paths"""

    def __init__(self, ctx, fn, opaque=(), max_states=300000, panics=False):
        self.ctx, self.fn = ctx, fn
        self.I = I = LibInterp(ctx.P, opaque={f: 'F' for f in opaque}, max_states=max_states)
        I.all_panics = panics
        self.paths = [Path(k, v, s) for k, v, s in I.entry(fn)]
        self.finish()

    def finish(self):
        self.states = self.I.nstates
        for i, p in enumerate(self.paths):
            p.no, p.unit = i, self
        self.rets = [p for p in self.paths if p.kind == 'ret']
        self.panics = [p for p in self.paths if p.kind != 'ret']

    @property
    def name(self):
        return self.fn.d.get('path') or self.fn.key

    def describe(self):
        return '%s (%s)' % (self.name, self.fn.d.get('file', '?'))

    def closure(self, clo, args, facts=None):
        """the paths of applying a closure value (a term of this unit) to arguments"""
        st = St()
        st.facts.update(facts or {})
        I = self.I
        lid = I.lab(None, 'apply', (clo, tuple(args)))
        fr = Frame(self.fn, lid, {}, ())
        k = (('L', lid, 'fn'), ())
        st.store[k] = clo
        out = [Path(kd, v, s) for kd, v, s in I.call_closure(fr, st, clo, ('ref', k), list(args), lid)]
        for i, p in enumerate(out):
            p.no, p.unit = i, self
        return out
