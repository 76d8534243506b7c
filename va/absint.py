"""Path-sensitive typestate dataflow over MIR.

Abstract values are terms (tuples); memory is a map from places to terms with
havoc versions; branch conditions become facts; loops are folded to sets of
iteration classes; calls of local functions are inlined (call-graph
recursion and the roles given by the rules become events).  There is no solver:
a condition is decided only by syntactic facts."""
import re
import sys
from prog import Prog, Fn, succs_of, UNIT, TRUE, FALSE
import stdmap

sys.setrecursionlimit(20000)


def searched(events):
    """the iterations of the loop that was left last"""
    n = len(events)
    while n and events[n - 1][0] != 'iter':
        n -= 1
    m = n
    while m and events[m - 1][0] == 'iter' and events[m - 1][1] == events[n - 1][1]:
        m -= 1
    return events[m:n]


class Budget(Exception):
    pass


def INT(n):
    return ('int', n)


class St:
    __slots__ = ('store', 'hav', 'facts', 'events', 'marks', 'guards')

    def __init__(self):
        self.store = {}
        self.hav = ()
        self.facts = {}
        self.events = ()
        self.marks = ()
        self.guards = ()

    def copy(self):
        s = St()
        s.store = dict(self.store)
        s.hav = self.hav
        s.facts = dict(self.facts)
        s.events = self.events
        s.marks = self.marks
        s.guards = self.guards
        return s

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.events, self.hav, self.guards,
                tuple((m[0], m[1], m[4]) for m in self.marks))

    def key0(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.hav, self.guards)

    def ev(self, e):
        self.events = self.events + (e,)


class Frame:
    __slots__ = ('fn', 'fid', 'subst', 'chain')

    def __init__(self, fn, fid, subst, chain):
        self.fn = fn
        self.fid = fid
        self.subst = subst
        self.chain = chain


def is_lab(t):
    return type(t) is tuple and len(t) > 1 and t[0] in ('@', '@o', '@v')


def contains(t, pred):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if x and pred(x):
                return True
            st.extend(x)
        elif type(x) is frozenset:
            st.extend(x)
    return False


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if type(x) is tuple:
            if x:
                yield x
                st.extend(x)
        elif type(x) is frozenset:
            st.extend(x)


def rewrite(t, f):
    """bottom-out rewriting: f(x) returns a replacement or None"""
    if type(t) is tuple:
        if not t:
            return t
        r = f(t)
        if r is not None:
            return r
        out = tuple([rewrite(x, f) for x in t])
        return out if out != t else t
    if type(t) is frozenset:
        return frozenset(rewrite(x, f) for x in t)
    return t


def pstr(x, d=0):
    """readable rendering of a term"""
    if type(x) is not tuple:
        return str(x)
    if not x:
        return '()'
    k = x[0]
    if type(k) is not str:
        return '[' + ', '.join(pstr(a) for a in x) + ']'
    if k == 'mem':
        return pplace(x[1])
    if k == 'ref':
        return '&' + pplace(x[1])
    if k == 'p':
        return x[1]
    if k == 'b':
        return 'true' if x[1] else 'false'
    if k == 'int':
        return str(x[1])
    if k == 'str':
        return repr(x[1])
    if k == 'agg':
        n = x[1].split('::')[-1]
        fs = ', '.join('%s:%s' % (str(a).split('.')[-1], pstr(b)) for a, b in x[3])
        return '%s::%s{%s}' % (n, x[2], fs) if x[2] != n else '%s{%s}' % (n, fs)
    if k == 'tup':
        return '(' + ', '.join(pstr(a) for a in x[1]) + ')'
    if k == 'eq':
        return '%s == %s' % (pstr(x[1]), pstr(x[2]))
    if k == 'not':
        return '!(%s)' % pstr(x[1])
    if k == 'var':
        return 'variant(%s)' % pstr(x[1])
    if k == 'clo':
        return 'closure(%s)' % x[1].split('::', 1)[-1]
    if k == 'call':
        return '%s(%s)' % (str(x[1]).split('::')[-1], ', '.join(pstr(a) for a in x[2]))
    if k == 'vec':
        return '[%s%s]' % (pstr(x[1]) + '.. ' if x[1] else '', ', '.join(pstr(e[1]) for e in x[2]))
    if k in ('@', '@o', '@v'):
        return ''
    return k + '(' + ', '.join(pstr(a) for a in x[1:]) + ')'


def pplace(p):
    root, proj = p
    if root[0] == 'L':
        s = '_%s' % (root[2],)
    else:
        s = pstr(root[1]) if root[1][0] != 'static' else root[1][1].split('::')[-1]
    for e in proj:
        if e[0] == 'f':
            s += '.' + e[1].split('.')[-1]
        elif e[0] == 'v':
            s += ':' + e[1]
        elif e[0] == 'k':
            s += '[%s]' % pstr(e[1])
        elif e[0] == 'e':
            s += '[*]'
        elif e[0] == 'last':
            s += '[last]'
        else:
            s += '.' + str(e[0])
    return s


TRANSPARENT = {'std::boxed::Box', 'std::ptr::Unique', 'std::ptr::NonNull', 'core::ptr::Unique',
               'core::ptr::NonNull', 'std::ptr::unique::Unique'}
ALIASY = ('k', 'e', 'last')
CMP = {'Lt', 'Le', 'Gt', 'Ge'}


class Interp:
    def __init__(self, prog, opaque=None, user_methods=(), inline_traces=False, max_states=60000,
                 max_depth=40, opaque_api=None):
        self.prog = prog
        self.labels = []
        self.labmap = {}
        self.opaque = opaque or {}          # fn key -> role name: calls become events
        self.opaque_api = opaque_api        # predicate on Fn: calls become events
        self.user_methods = set(user_methods)
        self.inline_traces = inline_traces
        self.all_panics = False     # report every path to a panic, not one for each place
        self.max_states = max_states
        self.nstates = 0
        self.max_depth = max_depth
        self.modcache = {}
        self.reachcache = {}
        self.seen_fns = set()
        self.visited = {}
        self.unknown = set()
        self.rec = prog.recursive()
        self.diag = prog.diagnostics()
        self.diag_seen = set()
        self.joined = {}            # (loop header, place) -> the values that were joined there
        self.inline_clone = False
        self.inline_eq = None
        self.inline_hash = None
        self.inline_reflect = False

    # ---------------------------------------------------------------- labels
    def lab(self, fid, block, tag=''):
        k = (fid, block, tag)
        i = self.labmap.get(k)
        if i is None:
            i = len(self.labels)
            self.labels.append((fid, block, tag))
            self.labmap[k] = i
        return i

    def in_loop(self, lid, fid, body):
        while lid is not None:
            p, b, _ = self.labels[lid]
            if p == fid:
                return b in body
            lid = p
        return False

    def lab_in_loop(self, t, fid, body):
        if t[0] == '@v':
            return self.in_loop(t[3], fid, body)
        return self.in_loop(t[1], fid, body)

    # ---------------------------------------------------------------- types
    def tystr(self, fn, i, subst):
        t = fn.tys[i]
        k = t['k']
        if k == 'param':
            return subst.get(t['s'], t['s'])
        a = t['a']
        if not a:
            return t['s']
        if k == 'adt':
            return '%s<%s>' % (t['d'], ', '.join(self.tystr(fn, x, subst) for x in a))
        if k in ('ref', 'refmut', 'ptr'):
            return {'ref': '&', 'refmut': '&mut ', 'ptr': '*'}[k] + self.tystr(fn, a[0], subst)
        if k == 'tuple':
            return '(%s)' % ', '.join(self.tystr(fn, x, subst) for x in a)
        return t['s']

    def reach(self, field):
        """set of local fields reachable from a field 'Adt.f' by its type"""
        r = self.reachcache.get(field)
        if r is not None:
            return r
        self.reachcache[field] = set()
        adt, _, f = field.rpartition('.')
        out = set()
        a = self.prog.adts.get(adt)
        if a and a.get('local') and a['crate'] in self.prog.raw:
            tys = self.prog.raw[a['crate']]['tys']
            for v in a['variants']:
                for n, ti in v['fields']:
                    if n == f:
                        self._reach_ty(tys, ti, out, set())
        else:
            out.add('*')
        self.reachcache[field] = out
        return out

    def _reach_ty(self, tys, ti, out, seen):
        if ti in seen:
            return
        seen.add(ti)
        t = tys[ti]
        if t['k'] == 'dyn':
            if 'GraphNode' in t['s']:
                for n in ('Mut', 'Comp', 'Pure'):
                    pass
                for adt, a in self.prog.adts.items():
                    if a.get('local') and adt.startswith('engine::') and adt.split('::')[-1] in (
                            'Node', 'MutNode', 'CompNode', 'PureNode', 'Succ', 'Pred'):
                        for v in a['variants']:
                            for n, _ in v['fields']:
                                out.add('%s.%s' % (adt, n))
            return
        if t['k'] == 'adt':
            a = self.prog.adts.get(t['d'])
            if a and a.get('local') and a['crate'] in self.prog.raw:
                ttys = self.prog.raw[a['crate']]['tys']
                for v in a['variants']:
                    for n, x in v['fields']:
                        out.add('%s.%s' % (t['d'], n))
                        self._reach_ty(ttys, x, out, seen if ttys is tys else set())
        for x in t['a']:
            self._reach_ty(tys, x, out, seen)

    def place_reach(self, place):
        for e in reversed(place[1]):
            if e[0] == 'f' and not e[1].startswith(('tup.', 'clo.')):
                return self.reach(e[1])
            if e[0] == 'has':
                return set()
        return None     # unknown: may reach anything

    # ---------------------------------------------------------------- memory
    def affects(self, rec, place, shallow=False):
        kind = rec[1]
        root, proj = place
        if root[0] == 'L':
            return False
        if kind == 'tree':
            r2, p2 = rec[2]
            n = min(len(proj), len(p2))
            if shallow and len(p2) > len(proj):
                return False
            return root == r2 and proj[:n] == p2[:n]
        if kind == 'fields' or kind == 'alias':
            fields = rec[2]
            if kind == 'alias':
                r2, p2 = rec[3]
                if r2 == root and proj[:len(p2)] == p2:
                    return False
            if not self.is_world(root) and not (root[0] == 'O' and root[1][0] == 'p'):
                return False
            for e in proj:
                if e[0] == 'f' and e[1] in fields:
                    return True
                if e[0] == 'has' and any(f in fields for f in self.last_fields(proj)):
                    return True
            if shallow:
                return False
            r = self.place_reach(place)
            return r is None or '*' in r or bool(r & fields)
        if kind == 'multi':
            return any(self.affects((rec[0],) + sp, place, shallow) for sp in rec[2])
        if kind == 'world':
            if not self.is_world(root):
                return False
            for (r2, p2) in rec[2]:
                if root == r2 and proj[:len(p2)] == p2:
                    return False
            return True
        return False

    def last_fields(self, proj):
        return [e[1] for e in proj if e[0] == 'f']

    def is_world(self, root):
        return root[0] == 'O' and (root[1][0] == 'static' or (root[1][0] == 'p' and len(root[1]) > 2 and root[1][2] == 'cell'))

    def ver(self, st, place, at=None, shallow=False):
        hav = st.hav
        n = len(hav)
        if at is not None:
            if at in ('v',):
                return at
            if at == 'i':
                return 'i'
            for i, r in enumerate(hav):
                if r[0] == at:
                    n = i + 1
                    break
            else:
                return at
        for i in range(n - 1, -1, -1):
            if self.affects(hav[i], place, shallow):
                return hav[i][0]
        return 'i'

    def project(self, st, v, e):
        k = v[0]
        if k == 'agg':
            if e[0] == 'v':
                return v if v[2] == e[1] else ('bot',)
            if e[0] == 'f':
                for n, x in v[3]:
                    if n == e[1]:
                        return x
                return ('bot',)
        elif k == 'tup' and e[0] == 'f' and e[1].startswith('tup.'):
            i = int(e[1][4:])
            return v[1][i] if i < len(v[1]) else ('bot',)
        elif k == 'clo' and e[0] == 'f' and e[1].startswith('clo.'):
            i = int(e[1][4:])
            return v[2][i] if i < len(v[2]) else ('bot',)
        elif k == 'arr' and e[0] == 'f':
            return ('bot',)
        elif k == 'upd':
            rest = []
            for suf, x in v[2]:
                if suf[0] == e:
                    if len(suf) == 1:
                        return x
                    rest.append((suf[1:], x))
            b = self.project(st, v[1], e)
            return ('upd', b, tuple(rest)) if rest else b
        elif k == 'vec' and e[0] in ('e', 'last'):
            if e[0] == 'last' and v[2]:
                return v[2][-1][1]
            if v[1]:
                return self.project(st, v[1], e)
            return ('elemof', v, e)
        elif k == 'ref' and e[0] != 'x':
            # a pointer that is used as its pointee (Rc, Box)
            r, p = v[1]
            return self.read(st, r, p + (e,))
        elif k == 'guard':
            r, p = v[1]
            return self.read(st, r, p + (e,))
        elif k == 'mem':
            pl = (v[1][0], v[1][1] + (e,))
            return ('mem', pl, self.ver(st, pl, v[2]))
        elif k == 'bot':
            return v
        return ('mem', (('O', v), (e,)), 'v')

    def read(self, st, root, proj=()):
        store = st.store
        for i in range(len(proj), -1, -1):
            v = store.get((root, proj[:i]))
            if v is not None:
                for e in proj[i:]:
                    v = self.project(st, v, e)
                return v
        deeper = []
        n = len(proj)
        for (r, p), x in store.items():
            if r == root and len(p) > n and p[:n] == proj:
                deeper.append((p[n:], x))
        if root[0] == 'L' and not deeper and not proj:
            return ('undef',)
        pl = (root, proj)
        if root[0] == 'O' and root[1][0] not in ('p', 'static') and not proj and not deeper:
            # whole pointee of an opaque pointer value
            if self.ver(st, pl) == 'i':
                return root[1]
        base = ('mem', pl, self.ver(st, pl))
        if deeper:
            deeper.sort(key=repr)
            return ('upd', base, tuple(deeper))
        return base

    def set_in(self, st, v, proj, x):
        if not proj:
            return x
        e = proj[0]
        k = v[0]
        if k == 'agg' and len(e) > 1 and e[0] in ('v', 'f'):
            if e[0] == 'v':
                if v[2] == e[1]:
                    return self.set_in(st, v, proj[1:], x)
                return v
            return ('agg', v[1], v[2], tuple((n, self.set_in(st, y, proj[1:], x) if n == e[1] else y) for n, y in v[3]))
        if k == 'tup' and e[0] == 'f' and e[1].startswith('tup.'):
            i = int(e[1][4:])
            return ('tup', tuple(self.set_in(st, y, proj[1:], x) if j == i else y for j, y in enumerate(v[1])))
        if k == 'clo' and e[0] == 'f' and e[1].startswith('clo.'):
            i = int(e[1][4:])
            return ('clo', v[1], tuple(self.set_in(st, y, proj[1:], x) if j == i else y for j, y in enumerate(v[2]))) + v[3:]
        if k == 'upd':
            ents = [(s, y) for s, y in v[2] if not (s[:len(proj)] == proj)]
            for j, (s, y) in enumerate(ents):
                if proj[:len(s)] == s:
                    ents[j] = (s, self.set_in(st, y, proj[len(s):], x))
                    return ('upd', v[1], tuple(ents))
            ents.append((proj, x))
            ents.sort(key=repr)
            return ('upd', v[1], tuple(ents))
        return ('upd', v, ((proj, x),))

    def store_put(self, st, root, proj, v):
        store = st.store
        for i in range(len(proj)):
            b = store.get((root, proj[:i]))
            if b is not None:
                store[(root, proj[:i])] = self.set_in(st, b, proj[i:], v)
                return
        n = len(proj)
        dead = [k for k in store if k[0] == root and len(k[1]) > n and k[1][:n] == proj]
        for k in dead:
            del store[k]
        store[(root, proj)] = v

    def write(self, st, place, v, lid, kind='write', silent=False):
        root, proj = place
        heap = root[0] != 'L'
        if heap and not silent:
            old = self.read(st, root, proj)
            st.ev((kind, place, self.deep(st, v), self.deep(st, old), ('@', lid, 's')))
        if heap and any(e[0] in ALIASY for e in proj):
            lf = self.last_fields(proj)
            if lf:
                f = lf[-1]
                self.add_hav(st, (('@', lid, 'w'), 'alias', frozenset([f]), place))
        self.store_put(st, root, proj, v)

    def add_hav(self, st, rec):
        dead = []
        for (r, p) in st.store:
            if r[0] == 'L':
                continue
            if self.affects(rec, (r, p)):
                if rec[1] == 'alias':
                    # an aggregate above or beside the written place: keep what is not the field
                    r2, p2 = rec[3]
                    if r == r2 and p2[:len(p)] == p:
                        continue
                    if not any(e[0] in ALIASY for e in p):
                        continue
                    if not any(e[0] == 'f' and e[1] in rec[2] for e in p):
                        continue
                    if self.keys_differ(st, p, p2):
                        continue
                dead.append((r, p))
        if rec[1] != 'alias':
            for k in dead:
                del st.store[k]
        else:
            for k in dead:
                del st.store[k]
        st.hav = tuple(h for h in st.hav if h[0] != rec[0]) + (rec,)

    def keys_differ(self, st, p1, p2):
        k1 = [e[1] for e in p1 if e[0] == 'k']
        k2 = [e[1] for e in p2 if e[0] == 'k']
        for a, b in zip(k1, k2):
            if self.truth(st, self.mk_eq(st, a, b)) is False:
                return True
        return False

    # ---------------------------------------------------------------- values
    def deep(self, st, v, n=0):
        """replace pointers by what they point to"""
        k = v[0]
        if n > 30:
            return v
        if k in ('ref', 'guard'):
            r, p = v[1]
            return self.deep(st, self.read(st, r, p), n + 1)
        if k == 'agg':
            return ('agg', v[1], v[2], tuple((a, self.deep(st, b, n + 1)) for a, b in v[3]))
        if k == 'tup' or k == 'arr':
            return (k, tuple(self.deep(st, b, n + 1) for b in v[1]))
        if k == 'clo':
            return ('clo', v[1], tuple(self.deep(st, b, n + 1) for b in v[2])) + v[3:]
        if k == 'vec':
            return ('vec', self.deep(st, v[1], n + 1) if v[1] else v[1],
                    tuple(('ent', self.deep(st, e[1], n + 1), e[2]) for e in v[2]))
        if k == 'upd':
            return ('upd', self.deep(st, v[1], n + 1), tuple((s, self.deep(st, x, n + 1)) for s, x in v[2]))
        if k == 'it':
            return v
        if k == 'mem':
            return self.canon(st, v)
        return v

    def canon(self, st, v):
        return v

    def mk_not(self, t):
        if t[0] == 'b':
            return ('b', not t[1])
        if t[0] == 'not':
            return t[1]
        return ('not', t)

    def mk_and(self, a, b):
        if a == FALSE or b == FALSE:
            return FALSE
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        if a == ('not', b) or b == ('not', a):
            return FALSE
        return ('and', a, b)

    def mk_or(self, a, b):
        if a == TRUE or b == TRUE:
            return TRUE
        if a == FALSE:
            return b
        if b == FALSE:
            return a
        if a == ('not', b) or b == ('not', a):
            return TRUE
        return ('or', a, b)

    def fieldless(self, v):
        return v[0] == 'agg' and not v[3]

    def mk_eq(self, st, a, b):
        a = self.deep(st, a)
        b = self.deep(st, b)
        return self.mk_eq0(a, b)

    def mk_eq0(self, a, b):
        if a == b:
            return TRUE
        ka, kb = a[0], b[0]
        CONST = ('int', 'str', 'b')
        if ka in CONST and kb in CONST and ka == kb:
            return FALSE
        if ka == 'b':
            return b if a[1] else self.mk_not(b)
        if kb == 'b':
            return a if b[1] else self.mk_not(a)
        if ka == 'agg' and kb == 'agg' and a[1] == b[1]:
            if a[2] != b[2]:
                return FALSE
            r = TRUE
            for (n1, x), (n2, y) in zip(a[3], b[3]):
                r = self.mk_and(r, self.mk_eq0(x, y))
            return r
        if ka == 'tup' and kb == 'tup' and len(a[1]) == len(b[1]):
            r = TRUE
            for x, y in zip(a[1], b[1]):
                r = self.mk_and(r, self.mk_eq0(x, y))
            return r
        if a == INT(0) and kb == 'len':
            return self.mk_not(self.nonempty(b[1]))
        if b == INT(0) and ka == 'len':
            return self.mk_not(self.nonempty(a[1]))
        if self.fieldless(a) and self.nvar(a[1]) > 1:
            return ('isvar', b, a[1], a[2])
        if self.fieldless(b) and self.nvar(b[1]) > 1:
            return ('isvar', a, b[1], b[2])
        x, y = sorted((a, b), key=repr)
        return ('eq', x, y)

    def nvar(self, adt):
        a = self.prog.adts.get(adt)
        return len(a['variants']) if a else 0

    def variants(self, adt):
        a = self.prog.adts.get(adt)
        return [v['name'] for v in a['variants']] if a else []

    # ---------------------------------------------------------------- facts
    def shallow(self, st, v):
        """v as far as its discriminant is concerned: writes below the place do not change it"""
        if v[0] == 'mem' and v[2] not in ('i', 'v'):
            return ('mem', v[1], self.ver(st, v[1], v[2], True))
        return v

    def variant_of(self, st, v, adt):
        """known variant name or None; second: set of excluded"""
        if v[0] == 'agg':
            return v[2], frozenset()
        if v[0] == 'upd':
            vs = {s[0][1] for s, _ in v[2] if s[0][0] == 'v'}
            if len(vs) == 1:
                return vs.pop(), frozenset()
            v = v[1]
        f = st.facts.get(('var', self.shallow(st, v)))
        if f is None:
            return None, frozenset()
        if f[0] == 'is':
            return f[1], frozenset()
        return None, f[1]

    def truth(self, st, t):
        k = t[0]
        if k == 'b':
            return t[1]
        if k == 'not':
            r = self.truth(st, t[1])
            return None if r is None else (not r)
        if k == 'and':
            a, b = self.truth(st, t[1]), self.truth(st, t[2])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if k == 'or':
            a, b = self.truth(st, t[1]), self.truth(st, t[2])
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if k == 'isvar':
            vn, ex = self.variant_of(st, t[1], t[2])
            if vn is not None:
                return vn == t[3]
            if t[3] in ex:
                return False
            return None
        r = st.facts.get(t)
        if r is not None:
            return r
        if k == 'eq':
            a, b = self.rep(st, t[1]), self.rep(st, t[2])
            if (a, b) != (t[1], t[2]):
                u = self.mk_eq0(a, b)
                if u[0] == 'b':
                    return u[1]
                return st.facts.get(u)
        return None

    def rep(self, st, t):
        """representative of t under the positive equalities of the path"""
        seen = {t}
        work = [t]
        while work:
            x = work.pop()
            for f, val in st.facts.items():
                if val is True and f[0] == 'eq':
                    if f[1] == x and f[2] not in seen:
                        seen.add(f[2])
                        work.append(f[2])
                    elif f[2] == x and f[1] not in seen:
                        seen.add(f[1])
                        work.append(f[1])
        if len(seen) == 1:
            return t
        return min(seen, key=lambda z: (len(repr(z)), repr(z)))

    def assume(self, st, t, val):
        """add the fact; returns False if it contradicts the path"""
        k = t[0]
        if k == 'b':
            return t[1] == val
        if k == 'not':
            return self.assume(st, t[1], not val)
        if k == 'isvar':
            return self.assume_var(st, t[1], t[2], t[3], val)
        if k == 'and' and val:
            return self.assume(st, t[1], True) and self.assume(st, t[2], True)
        if k == 'or' and not val:
            return self.assume(st, t[1], False) and self.assume(st, t[2], False)
        r = self.truth(st, t)
        if r is not None:
            return r == val
        st.facts[t] = val
        if k == 'ptreq' and val:
            self.assume(st, self.mk_eq0(t[1], t[2]), True)
        return True

    def assume_var(self, st, v, adt, name, val):
        vn, ex = self.variant_of(st, v, adt)
        if vn is not None:
            return (vn == name) == val
        if v[0] == 'upd':
            v = v[1]
        if val:
            if name in ex:
                return False
            st.facts[('var', self.shallow(st, v))] = ('is', name)
            return True
        ex = ex | {name}
        left = [x for x in self.variants(adt) if x not in ex]
        if not left:
            return False
        if len(left) == 1:
            st.facts[('var', self.shallow(st, v))] = ('is', left[0])
        else:
            st.facts[('var', self.shallow(st, v))] = ('not', ex)
        return True

    def fork(self, st, t):
        """[(bool, state)] for the feasible outcomes of condition t"""
        r = self.truth(st, t)
        if r is not None:
            return [(r, st)]
        k = t[0]
        if k == 'not':
            return [(not b, s) for b, s in self.fork(st, t[1])]
        if k == 'and':
            out = []
            for b, s in self.fork(st, t[1]):
                if b:
                    out += self.fork(s, t[2])
                else:
                    out.append((False, s))
            return out
        if k == 'or':
            out = []
            for b, s in self.fork(st, t[1]):
                if b:
                    out.append((True, s))
                else:
                    out += self.fork(s, t[2])
            return out
        out = []
        s1 = st.copy()
        if self.assume(s1, t, True):
            out.append((True, s1))
        s2 = st.copy()
        if self.assume(s2, t, False):
            out.append((False, s2))
        return out

    def fork_variant(self, st, v, adt, names=None):
        """[(variant name, state)]"""
        v = self.deep(st, v)
        vn, ex = self.variant_of(st, v, adt)
        if vn is not None:
            return [(vn, st)]
        out = []
        for n in self.variants(adt):
            s = st.copy()
            if self.assume_var(s, v, adt, n, True):
                out.append((n, s))
        return out

    # ---------------------------------------------------------------- places and operands
    def resolve(self, fr, st, p):
        """place -> (root, proj), last_was_transparent"""
        root, proj = ('L', fr.fid, p['l']), ()
        trans = False
        for e in p['p']:
            trans = False
            if e == '*':
                v = self.read(st, root, proj)
                if v[0] == 'ref':
                    root, proj = v[1]
                elif v[0] == 'guard':
                    root, proj = v[1]
                elif v[0] == 'mem' and self.ver(st, v[1]) == v[2]:
                    root, proj = v[1]
                elif v[0] in ('agg', 'tup', 'clo', 'vec', 'upd'):
                    pass        # a box whose content is stored in place
                else:
                    root, proj = ('O', v), ()
            elif e == '?':
                proj = proj + (('?',),)
            elif 'f' in e:
                o = e['o']
                if o in TRANSPARENT:
                    trans = True
                    continue
                if o == 'tuple':
                    proj = proj + (('f', 'tup.%d' % e['i']),)
                elif o.startswith('closure:'):
                    proj = proj + (('f', 'clo.%d' % e['i']),)
                else:
                    proj = proj + (('f', '%s.%s' % (o, e['f'])),)
            elif 'v' in e:
                if e['v'] is not None:
                    proj = proj + (('v', e['v']),)
            elif 'x' in e:
                iv = self.read(st, ('L', fr.fid, e['x']))
                proj = proj + (self.index_elem(fr, st, root, proj, iv, ('ix', fr.fid, e['x'])),)
            elif 'ci' in e:
                proj = proj + (('ci', e['ci'], e['e']),)
            elif 'sub' in e:
                proj = proj + (('sub', tuple(e['sub']), e['e']),)
            # deref of an in-place pointer below
            if proj and proj[-1][0] in ('f', 'e', 'v'):
                pass
        return root, proj, trans

    def index_elem(self, fr, st, root, proj, iv, site):
        if iv[0] == 'idx':
            return ('e', iv[1])
        if iv[0] == 'op' and iv[1] == 'Sub' and iv[3] == INT(1) and iv[2][0] == 'len':
            return ('last',)
        if iv[0] == 'int':
            return ('ci', iv[1], False)
        return ('e', ('@', self.lab(fr.fid, 'ix%s' % (site[2],)), 'x'))

    def operand(self, fr, st, o, want_box=False):
        if 'c' in o:
            return self.const(fr, st, o['c'])
        p = o.get('cp') or o.get('mv')
        if p is None:
            return ('rt', str(o))
        root, proj, trans = self.resolve(fr, st, p)
        v = self.read(st, root, proj)
        if trans or want_box:
            return v if v[0] == 'ref' else ('ref', (root, proj))
        if 'mv' in o and not p['p']:
            st.store.pop((('L', fr.fid, p['l']), ()), None)
        return v

    def const(self, fr, st, c):
        if 'fn' in c:
            f = c['fn']
            return ('fn', f.get('key') or f.get('dk'), _freeze(f), tuple(self.tystr(fr.fn, x, fr.subst) for x in f['ga']))
        if 'promoted' in c:
            base = self.prog.fns.get(fr.fn.key) or fr.fn
            pf = base.prom.get(c['promoted']) if base.prom else None
            if pf is None:
                return ('promoted', fr.fn.key, c['promoted'])
            lid = self.lab(None, 'prom', pf.key)
            res = self.run(pf, [], st.copy(), lid, fr.subst, fr.chain, keep=True)
            for k, v, s in res:
                if k == 'ret':
                    v = self.deep(s, v)
                    st.store[(('O', ('promo', pf.key)), ())] = v
                    return ('ref', (('O', ('promo', pf.key)), ()))
            return ('promoted', fr.fn.key, c['promoted'])
        t = fr.fn.tys[c['t']]
        if 'bits' in c:
            if t['k'] == 'bool':
                return TRUE if c['bits'] == '1' else FALSE
            return INT(int(c['bits']))
        s = c['s']
        if 'item' in c:
            return ('item', c['item'], t['s'])
        if 'static' in c:
            return ('ref', (('O', ('static', c['static'])), ()))
        if t['k'] == 'tuple' and not t['a']:
            return UNIT
        if s.startswith('"') or s.startswith('const "'):
            return ('str', s[s.index('"') + 1:].rstrip('"'))
        if t['k'] in ('fndef', 'closure') and t['k'] == 'closure':
            return ('clo', t['d'], (), ())
        return ('const', s, t['s'])

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dest_ty, lid):
        k = r['k']
        if k == 'use':
            wb = False
            o = r['x']
            if 'cp' in o and dest_ty is not None and dest_ty['k'] == 'adt' and dest_ty['d'] == 'std::boxed::Box':
                wb = True
            return self.operand(fr, st, o, wb)
        if k == 'ref':
            root, proj, trans = self.resolve(fr, st, r['p'])
            return ('ref', (root, proj))
        if k == 'cast':
            v = self.operand(fr, st, r['x'])
            ck = r['ck']
            if ck == 'Transmute' or ck.startswith('PtrToPtr'):
                f, t = self.tystr(fr.fn, r['from'], fr.subst), self.tystr(fr.fn, r['t'], fr.subst)
                if ('dyn ' in f or 'dyn ' in t) and f != t:
                    st.ev(('cast', f, t, self.deep(st, v), (fr.fn.key, r.get('ln', 0))))
                return v
            if ck.startswith(('IntToInt', 'FloatToInt', 'IntToFloat')):
                if v[0] == 'int':
                    return v
                return ('cast', fr.fn.tys[r['t']]['s'], v)
            return v
        if k == 'bin':
            a, b = self.operand(fr, st, r['a']), self.operand(fr, st, r['b'])
            return self.binop(fr, st, r['o'], a, b)
        if k == 'un':
            v = self.operand(fr, st, r['x'])
            if r['o'] == 'Not':
                v = self.deep(st, v)
                ty = None
                if v[0] == 'int':
                    return ('op', 'Not', v)
                return self.mk_not(v)
            if r['o'] == 'PtrMetadata':
                return ('len', self.deep(st, v))
            return ('op', r['o'], self.deep(st, v))
        if k == 'discr':
            root, proj, _ = self.resolve(fr, st, r['p'])
            v = self.deep(st, self.read(st, root, proj))
            t = fr.fn.tys[r['t']]
            adt = t['d']
            vn, ex = self.variant_of(st, v, adt)
            if vn is not None and adt in self.prog.adts:
                for x in self.prog.adts[adt]['variants']:
                    if x['name'] == vn:
                        return INT(x['discr'])
            return ('discr', v, adt)
        if k == 'agg':
            xs = tuple(self.operand(fr, st, x) for x in r['xs'])
            if 'adt' in r:
                names = ['%s.%s' % (r['adt'], n) for n in r['fs']]
                if len(xs) == 1 and r['adt'] in TRANSPARENT:
                    return xs[0]
                return ('agg', r['adt'], r['v'], tuple(zip(names, xs)))
            if 'closure' in r:
                return ('clo', r['closure'], xs, tuple(sorted(fr.subst.items())))
            if 'tuple' in r:
                return ('tup', xs)
            if 'array' in r:
                return ('vec', None, tuple(('ent', x, None) for x in xs))
            return ('agg', '?', '?', tuple(enumerate(xs)))
        if k == 'tls':
            return ('ref', (('O', ('static', r['d'])), ()))
        if k == 'repeat':
            return ('vec', None, (('ent', self.operand(fr, st, r['x']), None),))
        return ('rv', r.get('s', k))

    def binop(self, fr, st, o, a, b):
        ov = o.endswith('WithOverflow')
        if ov:
            o = o[:-len('WithOverflow')]
        a, b = self.deep(st, a), self.deep(st, b)
        r = None
        if o == 'Eq':
            return self.mk_eq0(a, b)
        if o == 'Ne':
            return self.mk_not(self.mk_eq0(a, b))
        if o in CMP:
            if a[0] == 'int' and b[0] == 'int':
                x, y = a[1], b[1]
                return ('b', {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
            if o == 'Lt':
                return self.mk_lt(a, b)
            if o == 'Gt':
                return self.mk_lt(b, a)
            if o == 'Le':
                return self.mk_not(self.mk_lt(b, a))
            return self.mk_not(self.mk_lt(a, b))
        isb = lambda v: v[0] in ('b', 'eq', 'not', 'and', 'or', 'isvar', 'lt', 'nonempty')
        if o in ('BitAnd', 'BitOr') and (isb(a) or isb(b)):
            return self.mk_and(a, b) if o == 'BitAnd' else self.mk_or(a, b)
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y}.get(o)
                if f:
                    r = INT(f())
            except Exception:
                pass
        if r is None:
            r = ('op', o, a, b)
        if ov:
            return ('tup', (r, FALSE))
        return r

    def mk_lt(self, a, b):
        # lengths: 0 < len(v)  <=>  v is not empty
        if a == INT(0) and b[0] == 'len':
            return self.nonempty(b[1])
        if b == INT(1) and a[0] == 'len':
            return self.mk_not(self.nonempty(a[1]))
        return ('lt', a, b)

    def nonempty(self, v):
        if v[0] == 'vec':
            if v[2]:
                return TRUE
            if not v[1]:
                return FALSE
            return self.nonempty(v[1])
        if v[0] == 'upd':
            return self.nonempty(v[1])
        return ('nonempty', v)

    # ---------------------------------------------------------------- loops
    def prewiden(self, fr, st, h):
        fn = fr.fn
        for l in fn.assigned[h]:
            k = (('L', fr.fid, l), ())
            v = st.store.get(k)
            if v is not None and v[0] == 'int':
                t = fn.tys[fn.locals[l]]
                if t['k'] == 'prim':
                    st.store[k] = ('any', ('@', self.lab(fr.fid, h), 'w%d' % l), v)

    def fold(self, fr, st, h, body, mark):
        fid = fr.fid
        m = mark[2]
        hl = ('loop', fr.fn.key, h, fid)
        seg = st.events[m:]
        raw = seg[1:] if seg and seg[0][0] == 'loopiters' else seg
        inl = lambda x: type(x) is tuple and len(x) > 2 and x[0] in ('@', '@v') and self.lab_in_loop(x, fid, body)
        loc_facts = {}
        for f, v in list(st.facts.items()):
            if contains(f, inl):
                loc_facts[f] = v
                del st.facts[f]
        record = ('iter', hl, frozenset(loc_facts.items()), raw)
        st.events = st.events[:m]

        # what is known about a growing vector says nothing about its elements
        hasvec = lambda f: contains(f, lambda x: x[0] == 'vec' and len(x) == 3)
        gfacts = frozenset((f, v) for f, v in loc_facts.items() if not hasvec(f))

        def ren(x):
            if x[0] == 'ent':
                if x[2] is None and contains(x[1], inl):
                    return ('ent', x[1], gfacts)
                return x
            if len(x) > 2 and x[0] == '@' and self.lab_in_loop(x, fid, body):
                return ('@o',) + x[1:]
            if len(x) > 3 and x[0] == '@v' and self.lab_in_loop(x, fid, body):
                return ('@o',) + x[1:]
            return None
        ns = {}
        used = False
        for (r, p), v in st.store.items():
            if contains(v, inl):
                v = rewrite(v, ren)
                if v[0] == 'vec' or contains(v, lambda x: x[0] == 'vec'):
                    v = rewrite(v, lambda x: self.dedup_vec(x))
                used = True
            if contains(p, inl):
                p = rewrite(p, ren)
            ns[(r if not contains(r, inl) else rewrite(r, ren), p)] = v
        st.store = ns
        if used:
            for f, v in gfacts:
                f2 = rewrite(f, ren)
                labs = [x for x in subterms(f2) if is_lab(x) and x[0] == '@o']
                if any(self._store_mentions(st, x) for x in labs):
                    st.facts[f2] = v
        # stale facts
        for f in list(st.facts):
            olds = [x for x in subterms(f) if is_lab(x) and x[0] == '@o']
            if olds and not any(self._store_mentions(st, x) for x in olds):
                del st.facts[f]
        # everything that the body may have changed becomes one record of the header
        n0 = mark[5]
        specs = set()
        nh = list(st.hav[:n0])
        for rec in st.hav[n0:]:
            if contains(rec, inl):
                rec = rewrite(rec, ren)
            if rec[1] == 'multi' and rec[0][1] == self.lab(fid, h):
                specs |= rec[2]
            else:
                specs.add(rec[1:])
        if specs:
            nh.append((('@', self.lab(fid, h), 'H'), 'multi', frozenset(specs)))
        st.hav = tuple(nh)
        # loop-carried integers
        snap = mark[3]
        for l in fr.fn.assigned[h]:
            k = (('L', fid, l), ())
            v = st.store.get(k)
            old = snap.get(k)
            if v is not None and old is not None and v != old and old[0] in ('int', 'any') and \
                    fr.fn.tys[fr.fn.locals[l]]['k'] == 'prim':
                st.store[k] = ('any', ('@', self.lab(fid, h), 'w%d' % l), UNIT)
        return record

    def partition(self, fr, st, h):
        """values of the flags (booleans, bare variants) that the loop assigns"""
        out = []
        for l in sorted(fr.fn.assigned[h]):
            v = st.store.get((('L', fr.fid, l), ()))
            if v is not None and (v[0] == 'b' or (v[0] == 'agg' and not contains(v, is_lab) and len(v[3]) <= 1 and
                                                  all(x[1][0] in ('b', 'agg') for x in v[3]))):
                if fr.fn.named(l):
                    out.append((l, v))
        return tuple(out)

    def join(self, a, b, fid, h):
        """least upper bound of two header states of one loop, in place of a"""
        j = a.copy()
        L = self.lab(fid, h)
        specs = set()
        for k in set(a.store) | set(b.store):
            x, y = a.store.get(k), b.store.get(k)
            if x == y:
                continue
            if k[0][0] == 'O' and k[0][1][0] == 'promo':
                j.store[k] = x if x is not None else y
                continue
            if x is None or y is None:
                if k[0][0] == 'L':
                    j.store.pop(k, None)
                    continue
                x = x if x is not None else self.read(a, *k)
                y = y if y is not None else self.read(b, *k)
            v = self.join_val(x, y, L, k)
            if v is None or (k[0][0] != 'L' and v[0] == 'any'):
                j.store.pop(k, None)
                if k[0][0] != 'L':
                    specs.add(('tree', k))
            else:
                j.store[k] = v
        for f in list(j.facts):
            if b.facts.get(f) != j.facts[f]:
                del j.facts[f]
        if a.hav != b.hav or specs:
            ha = dict((r[0], r) for r in a.hav)
            n = 0
            while n < len(a.hav) and n < len(b.hav) and a.hav[n] == b.hav[n] and a.hav[n][0] != ('@', L, 'H'):
                n += 1
            for r in a.hav[n:] + b.hav[n:]:
                if r[1] == 'multi':
                    specs |= r[2]
                else:
                    specs.add(r[1:])
            rec = (('@', L, 'H'), 'multi', frozenset(specs))
            j.hav = tuple(r for r in a.hav[:n] if r[0] != rec[0]) + (rec,)
            if n < len(a.hav) and a.hav[n][0] == rec[0] and a.hav[n][2] == rec[2]:
                j.hav = a.hav
            else:
                for k in [k for k in j.store if k[0][0] != 'L' and self.affects(rec, k)]:
                    if a.store.get(k) != b.store.get(k):
                        del j.store[k]
        if a.guards != b.guards:
            j.guards = tuple(g for g in a.guards if g in b.guards)
        return j

    def join_val(self, x, y, L, where):
        if x == y:
            return x
        if x[0] == 'vec' or y[0] == 'vec':
            bx, ex = (x[1], x[2]) if x[0] == 'vec' else (x, ())
            by, ey = (y[1], y[2]) if y[0] == 'vec' else (y, ())
            if bx == by:
                ents = list(ex)
                for e in ey:
                    if e not in ents:
                        ents.append(e)
                ents = [e for e in ents if not any(
                    o is not e and o[1] == e[1] and e[2] is not None and (o[2] is None or o[2] < e[2]) for o in ents)]
                ents.sort(key=repr)
                return ('vec', bx, tuple(ents))
        if x[0] == 'tup' and y[0] == 'tup' and len(x[1]) == len(y[1]):
            return ('tup', tuple(self.join_val(a, b, L, (where, i)) for i, (a, b) in enumerate(zip(x[1], y[1]))))
        if x[0] == 'agg' and y[0] == 'agg' and x[1:3] == y[1:3]:
            return ('agg', x[1], x[2], tuple((n, self.join_val(a, b, L, (where, n))) for (n, a), (_, b) in zip(x[3], y[3])))
        if x[0] == 'it' and y[0] == 'it' and x[1] == y[1] == 'val':
            return ('it', 'val', self.join_val(x[2], y[2], L, (where, 'it'))) + x[3:]
        tag = 'j' + repr(where)
        js = self.joined.setdefault((L, tag), set())
        js.add(x)
        js.add(y)
        return ('any', ('@', L, tag), UNIT)

    def dedup_vec(self, x):
        if x[0] != 'vec':
            return None
        ents = []
        for e in x[2]:
            if e not in ents:
                ents.append(e)
        ents.sort(key=repr)
        return ('vec', x[1], tuple(ents))

    def _store_mentions(self, st, lab):
        for v in st.store.values():
            if contains(v, lambda x: x == lab):
                return True
        return False

    # ---------------------------------------------------------------- running
    def run(self, fn, args, st, fid, subst, chain, keep=False):
        """all outcomes of a call: [(kind, value, state)]"""
        prog = self.prog
        loops = prog.loops(fn)
        self.seen_fns.add(fn.key)
        if len(chain) > self.max_depth:
            raise Budget('inlining depth at %s' % fn.key)
        fr = Frame(fn, fid, subst, chain + (fn.key,))
        for i, a in enumerate(args):
            st.store[(('L', fid, i + 1), ())] = a
        out = []
        work = [(0, st)]
        seen = set()
        multi = {b for b in fn.preds if len(fn.preds[b]) > 1}
        outseen = set()
        live = prog.live(fn)
        acc = {}            # loop accumulators: (header, entry, flags) -> [joined state, version]
        parked = []         # states that left a loop, until the loop is stable

        def stale(st):
            for m in st.marks:
                if m[0] == fid and m[4] is not None and acc[m[4][0]][1] != m[4][1]:
                    return True
            return False
        while work or parked:
            if not work:
                depth = max(x[0] for x in parked)
                sel = [x for x in parked if x[0] == depth]
                parked = [x for x in parked if x[0] != depth]
                for _, vs, nb, s2 in sel:
                    if all(acc[v[0]][1] == v[1] for v in vs) and not stale(s2):
                        self.settle(s2, acc, vs, {m[4][0] for m in s2.marks if m[0] == fid and m[4]})
                        s2 = self.enter(fr, s2, nb, loops)
                        work.append((nb, s2))
                continue
            b, st = work.pop()
            if loops and stale(st):
                continue
            self.nstates += 1
            if self.nstates > self.max_states:
                raise Budget('more than %d states, in %s' % (self.max_states, fn.key))
            if b in multi:
                lv = live[b]
                for kk in [x for x in st.store if x[0][0] == 'L' and x[0][1] == fid and type(x[0][2]) is int
                           and x[0][2] not in lv]:
                    del st.store[kk]
                k = (b, st.key())
                if k in seen:
                    continue
                seen.add(k)
            self.visited.setdefault(fn.key, set()).add(b)
            blk = fn.blocks[b]
            for i, s in enumerate(blk['s']):
                self.stmt(fr, st, s, b, i)
            for kind, nb, val, s2 in self.term(fr, st, blk['t'], b):
                if kind == 'go':
                    if not loops:
                        work.append((nb, s2))
                        continue
                    for s3 in self.flags(fr, s2, nb):
                        r = self.edge(fr, s3, nb, loops, acc)
                        if r is None:
                            continue
                        if r[0] == 'park':
                            parked.append((r[1], r[2], nb, s3))
                        else:
                            work.append((nb, r[1]))
                else:
                    vs = tuple(m[4] for m in s2.marks if m[0] == fid and m[4] is not None)
                    if vs:
                        # an outcome from inside a loop: only if the loop state is final
                        out.append((kind, val, s2, vs))
                    else:
                        out.append((kind, val, s2, ()))
        res = []
        for kind, val, s2, vs in out:
            if any(acc[v[0]][1] != v[1] for v in vs):
                continue
            self.settle(s2, acc, vs, ())
            if kind == 'ret' and not keep:
                dead = [k for k in s2.store if k[0][0] == 'L' and k[0][1] == fid]
                for k in dead:
                    del s2.store[k]
            s2.marks = tuple(m for m in s2.marks if m[0] != fid)
            k = (kind, val, s2.key()) if kind == 'ret' else (kind, val[0], val[2:], (tuple(sorted(s2.facts.items(), key=repr)), searched(s2.events)) if self.all_panics else None)
            if k not in outseen:
                outseen.add(k)
                res.append((kind, val, s2))
        return res

    def settle(self, st, acc, vs, open_):
        """put the iteration classes of the loops that were left into the history"""
        left = {v[0] for v in vs if v[0] not in open_}
        if not left:
            return
        out = []
        for e in st.events:
            if e[0] == 'loopiters' and e[1] in left:
                recs, seen, todo = [], set(), [e[1]]
                while todo:
                    k = todo.pop()
                    if k in seen:
                        continue
                    seen.add(k)
                    for src, rs in acc[k][2].items():
                        if src is not None:
                            if acc[src[0]][1] != src[1]:
                                continue
                            todo.append(src[0])
                        for r in rs:
                            if r not in recs:
                                recs.append(r)
                recs.sort(key=repr)
                out += recs
            else:
                out.append(e)
        st.events = tuple(out)

    def enter(self, fr, st, nb, loops):
        """a first arrival at block nb"""
        if nb in loops:
            self.prewiden(fr, st, nb)
            st.marks = st.marks + ((fr.fid, nb, len(st.events), dict(st.store), None, len(st.hav), hash(st.key())),)
        return st

    def flags(self, fr, st, nb):
        """the states at the end of an iteration, by the values of the flags that it set"""
        if not any(m[0] == fr.fid and m[1] == nb for m in st.marks):
            return [st]
        out = [st]
        lv = self.prog.live(fr.fn)[nb]
        for l in sorted(fr.fn.assigned[nb]):
            if l not in lv or fr.fn.tys[fr.fn.locals[l]]['s'] != 'bool' or not fr.fn.named(l):
                continue
            kk = (('L', fr.fid, l), ())
            nxt = []
            for s in out:
                v = s.store.get(kk)
                if v is None or v[0] in ('b', 'any', 'undef'):
                    nxt.append(s)
                    continue
                for x, s2 in self.fork(s, self.deep(s, v)):
                    if s2 is s:
                        s2 = s.copy()
                    s2.store[kk] = ('b', x)
                    nxt.append(s2)
            out = nxt
        return out

    def edge(self, fr, st, nb, loops, acc):
        fid = fr.fid
        left = [m for m in st.marks if m[0] == fid and nb not in loops[m[1]]]
        if left:
            vs = tuple(m[4] for m in st.marks if m[0] == fid and m[4] is not None)
            st.marks = tuple(x for x in st.marks if not any(x is m for m in left))
            # the innermost loop that it left decides when it may go on
            depth = len([m for m in st.marks if m[0] == fid]) + len(left)
            return ('park', depth, vs)
        for m in st.marks:
            if m[0] == fid and m[1] == nb:
                lv = self.prog.live(fr.fn)[nb]
                for kk in [x for x in st.store if x[0][0] == 'L' and x[0][1] == fid and type(x[0][2]) is int
                           and x[0][2] not in lv]:
                    del st.store[kk]
                record = self.fold(fr, st, nb, loops[nb], m)
                key = (nb, m[6], m[2], self.partition(fr, st, nb))
                st.events = st.events + (('loopiters', key),)
                a = acc.get(key)
                if a is None:
                    a = acc[key] = [None, 0, {}]
                src = a[2].setdefault(m[4], [])
                if record not in src:
                    src.append(record)
                if a[0] is None:
                    j = st
                else:
                    old = a[0]
                    j = self.join(old, st, fid, nb)
                    if j.key0() == old.key0():
                        return None
                a[1] += 1
                if a[1] > 60:
                    raise Budget('loop does not converge in %s' % fr.fn.key)
                m2 = m[:4] + ((key, a[1]),) + m[5:]
                j.marks = tuple(m2 if (x[0] == fid and x[1] == nb) else x for x in j.marks)
                a[0] = j
                return ('go', j.copy())
        return ('go', self.enter(fr, st, nb, loops))

    def stmt(self, fr, st, s, b, i):
        k = s['k']
        if k == '=':
            p = s['p']
            dt = fr.fn.tys[fr.fn.locals[p['l']]] if not p['p'] else None
            r = s['r']
            if r['k'] == 'cast':
                r = dict(r, ln=s['ln'])
            v = self.rvalue(fr, st, r, dt, None)
            root, proj, _ = self.resolve(fr, st, p)
            self.write(st, (root, proj), v, self.lab(fr.fid, b, i))
        elif k == 'dead':
            kk = ('L', fr.fid, s['l'])
            for key in [x for x in st.store if x[0] == kk]:
                del st.store[key]
        elif k == 'setd':
            root, proj, _ = self.resolve(fr, st, s['p'])
            st.ev(('setd', (root, proj), s['v']))

    def release(self, st, v):
        ids = {x[2] for x in subterms(v) if x[0] == 'guard' and len(x) > 3}
        if ids:
            st.guards = tuple(g for g in st.guards if g[0] not in ids)

    def term(self, fr, st, t, b):
        k = t['k']
        if k == 'goto':
            return [('go', t['t'], None, st)]
        if k == 'return':
            v = self.read(st, ('L', fr.fid, 0))
            if v[0] == 'undef':
                v = UNIT
            return [('ret', None, v, st)]
        if k == 'drop':
            root, proj, _ = self.resolve(fr, st, t['p'])
            v = self.read(st, root, proj)
            self.release(st, v)
            if root[0] == 'L' and not proj:
                st.store.pop((root, proj), None)
            return [('go', t['t'], None, st)]
        if k == 'assert':
            return [('go', t['t'], None, st)]
        if k == 'switch':
            return self.switch(fr, st, t, b)
        if k == 'call':
            return self.call(fr, st, t, b)
        return []

    def switch(self, fr, st, t, b):
        v = self.operand(fr, st, t['x'])
        v = self.deep(st, v)
        ty = fr.fn.tys[t['ty']]
        if v[0] == 'int' or v[0] == 'b':
            n = str(int(v[1]))
            for x, tb in t['ts']:
                if x == n:
                    return [('go', tb, None, st)]
            return [('go', t['o'], None, st)]
        if v[0] == 'discr':
            adt = v[2]
            a = self.prog.adts.get(adt)
            if a:
                out = []
                for name, s in self.fork_variant(st, v[1], adt):
                    d = next(x['discr'] for x in a['variants'] if x['name'] == name)
                    tb = next((tb for x, tb in t['ts'] if int(x) == d), t['o'])
                    out.append(('go', tb, None, s))
                return out
        if ty['k'] == 'bool':
            out = []
            fb = next((tb for x, tb in t['ts'] if x == '0'), t['o'])
            tb = t['o'] if any(x == '0' for x, _ in t['ts']) else next(tb for x, tb in t['ts'] if x == '1')
            for val, s in self.fork(st, v):
                self.loop_cond(fr, s, v, val, b)
                out.append(('go', tb if val else fb, None, s))
            return out
        out = []
        cur = st
        for x, tb in t['ts']:
            s = cur.copy()
            if self.assume(s, self.mk_eq0(v, INT(int(x))), True):
                out.append(('go', tb, None, s))
            cur = cur.copy()
            if not self.assume(cur, self.mk_eq0(v, INT(int(x))), False):
                return out
        out.append(('go', t['o'], None, cur))
        return out

    def loop_cond(self, fr, st, v, val, b):
        """`while i < xs.len()`: the branch is the next() of the indices"""
        while v[0] == 'not':
            v, val = v[1], not val
        coll = None
        if v[0] == 'lt' and v[1][0] == 'any' and v[2][0] == 'len':
            i, coll = v[1], v[2][1]
        elif v[0] == 'eq':
            for x, y in ((v[1], v[2]), (v[2], v[1])):
                if x[0] == 'any' and y[0] == 'len':
                    i, coll, val = x, y[1], not val
        if coll is None:
            return
        lab = ('@', self.lab(fr.fid, b), 'i')
        st.facts.pop(v, None)
        if val:
            nv = ('idx', lab, coll)
            for k, x in list(st.store.items()):
                if k[0][0] == 'L' and x == i:
                    st.store[k] = nv
            st.ev(('next', lab, coll, ('elem', coll, lab)))
        else:
            st.ev(('done', lab, coll))

    # ---------------------------------------------------------------- calls
    def call(self, fr, st, t, b):
        lid = self.lab(fr.fid, b)
        c = t['f'].get('c')
        args = [self.operand(fr, st, a) for a in t['a']]
        if c is not None and 'fn' in c:
            fv = self.const(fr, st, c)
            f = c['fn']
        else:
            fv = self.operand(fr, st, t['f'])
            f = None
        res = self.apply(fr, st, fv, f, args, t, lid)
        out = []
        for kind, v, s in res:
            if kind == 'ret':
                if t['t'] is None:
                    continue
                root, proj, _ = self.resolve(fr, s, t['d'])
                self.write(s, (root, proj), v, self.lab(fr.fid, b, 'd'))
                out.append(('go', t['t'], None, s))
            else:
                out.append((kind, None, v, s))
        return out

    def name_of(self, f):
        return f['p']

    def apply(self, fr, st, fv, f, args, t, lid):
        fv0 = fv
        while fv[0] == 'ref':
            fv = self.read(st, *fv[1])
        if fv[0] == 'clo':
            return self.call_closure(fr, st, fv, fv0, args, lid)
        if fv[0] == 'fn':
            f = dict(fv[2]) if f is None else f
            f = _thaw(fv[2]) if not isinstance(f, dict) or 'p' not in f else f
            return self.call_fn(fr, st, f, fv, args, t, lid)
        return self.user_call(fr, st, ('fnptr', self.deep(st, fv)), args, t, lid)

    def call_closure(self, fr, st, clo, envref, args, lid):
        fn = self.prog.fns.get(clo[1])
        if fn is None:
            return self.user_call(fr, st, clo, args, None, lid)
        if fn.key in fr.chain and fr.chain.count(fn.key) > 2:
            return self.user_call(fr, st, clo, args, None, lid)
        env_ty = fn.tys[fn.locals[1]]
        fid = self.lab(lid, 'clo', fn.key)
        env = clo
        if env_ty['k'] in ('ref', 'refmut', 'ptr'):
            if envref[0] == 'ref':
                # strip pointers to pointers
                r = envref
                while True:
                    v = self.read(st, *r[1])
                    if v[0] == 'ref':
                        r = v
                    else:
                        break
                env = r
            else:
                k = (('L', fid, 'env'), ())
                st.store[k] = clo
                env = ('ref', k)
        return self.run(fn, [env] + list(args), st, fid, dict(clo[3]) if len(clo) > 3 else {}, fr.chain)

    def call_fn(self, fr, st, f, fv, args, t, lid):
        h, name = stdmap.lookup(f)
        if h is not None:
            r = h(self, fr, st, f, args, t, lid)
            if r is not NotImplemented:
                return r
        m = stdmap.model(f)
        if m is not None:
            fn = self.prog.fns[m]
            return self.inline(fr, st, fn, fv, args, t, lid)
        key = f.get('key')
        fn = self.prog.fns.get(key) if f.get('rk') == 'item' else None
        if fn is None and key in self.prog.fns and 'tr' not in f:
            fn = self.prog.fns[key]
        if fn is not None and fn.kind != 'const':
            return self.call_local(fr, st, fn, fv, args, t, lid)
        if 'tr' in f:
            cands = self.prog.by_trait.get((f['tr'], f['tm']), [])
            # a default method of a local trait
            return self.call_dyn(fr, st, f, fv, cands, args, t, lid)
        return self.extern(fr, st, f, args, t, lid)

    def call_local(self, fr, st, fn, fv, args, t, lid):
        tr = fn.d.get('impl_trait')
        if fn.key in self.diag:
            self.diag_seen.add(fn.key)
            return [('ret', UNIT, st)]
        if fn.key in self.opaque:
            return self.event_call(fr, st, self.opaque[fn.key], fn, args, t, lid)
        if self.opaque_api and self.opaque_api(fn):
            return self.event_call(fr, st, 'api:' + fn.d['path'], fn, args, t, lid)
        if self.rec and fn.key in self.rec:
            return self.event_call(fr, st, 'rec', fn, args, t, lid)
        if fn.key in fr.chain:
            return self.event_call(fr, st, 'rec', fn, args, t, lid)
        return self.inline(fr, st, fn, fv, args, t, lid)

    def inline(self, fr, st, fn, fv, args, t, lid):
        subst = {}
        ga = fv[3] if fv and len(fv) > 3 else ()
        if fn.gens and fn.d.get('impl_self') is not None and fn.d.get('impl_trait') and ga:
            # a trait method: its generics are those of the impl (found from the self type), then its own
            subst = self.unify(fn, ga[0])
            rest = [g for g in fn.gens if g not in subst]
            if rest and len(ga) > len(rest):
                subst.update(zip(rest, ga[len(ga) - len(rest):]))
        elif fn.gens and len(ga) >= len(fn.gens):
            subst = dict(zip(fn.gens, ga[len(ga) - len(fn.gens):]))
        fid = self.lab(lid, 'fn', fn.key)
        return self.run(fn, args, st, fid, subst, fr.chain)

    def unify(self, fn, actual):
        """the impl's generics, from the type that it is called with"""
        marks = {g: '\x01%d\x02' % i for i, g in enumerate(fn.gens)}
        pat = re.escape(self.tystr(fn, fn.d['impl_self'], marks))
        seen = set()
        for i, g in enumerate(fn.gens):
            m = re.escape(marks[g])
            while m in pat:
                pat = pat.replace(m, '(?P=g%d)' % i if i in seen else '(?P<g%d>.+?)' % i, 1)
                seen.add(i)
        r = re.fullmatch(pat, actual) if type(actual) is str else None
        return {g: r.group('g%d' % i) for i, g in enumerate(fn.gens) if i in seen} if r else {}

    def call_dyn(self, fr, st, f, fv, cands, args, t, lid):
        tr, tm = f['tr'], f['tm']
        rt = fr.fn.tys[t['dt']]['s'] if t else ''
        if rt == 'std::any::TypeId':
            return [('ret', ('dyntypeid', '%s::%s' % (tr, tm), self.deep(st, args[0])), st)]
        if len(cands) == 1 and (tr, tm) not in self.user_methods and f.get('rk') in ('virtual', 'unresolved', None) \
                and tr not in stdmap.OPAQUE_TRAITS and cands[0].key not in fr.chain:
            return self.inline(fr, st, cands[0], None, args, t, lid)
        dflt = self.prog.fns.get(f.get('key'))
        dargs = tuple(self.deep(st, a) for a in args)
        raw = tuple(args)
        st.ev(('dyn', tr, tm, dargs, ('@', lid, 's'), st.guards, raw))
        fields, allw = set(), False
        for c in cands:
            a, w = self.mod(c)
            fields |= a
            allw |= w
        if not cands and tr.startswith(('engine::', 'catalog::')):
            allw = tr in ('engine::AbsMapFam',)
        if dflt is not None:
            a, w = self.mod(dflt)
            fields |= a
            allw |= w
        self.havoc_fields(st, fields, lid)
        if allw:
            self.havoc_world(st, lid)
        return [('ret', self.result(fr, st, '%s::%s' % (tr, tm), dargs, t, lid), st)]

    def result(self, fr, st, name, dargs, t, lid, pure=False):
        term = ('call', name, dargs) if pure else ('call', name, dargs, ('@', lid, 'r'))
        if t is not None:
            dt = fr.fn.tys[t['dt']]
            if dt['k'] in ('ref', 'refmut', 'ptr'):
                return ('ref', (('O', term), ()))
            if dt['k'] == 'tuple' and not dt['a']:
                return UNIT
        return term

    def event_call(self, fr, st, role, fn, args, t, lid):
        dargs = tuple(self.deep(st, a) for a in args)
        st.ev(('call', role, fn.key, dargs, ('@', lid, 's'), st.guards, tuple(args)))
        fields, allw = self.mod(fn)
        self.havoc_fields(st, fields, lid)
        if allw:
            self.havoc_world(st, lid)
        return [('ret', self.result(fr, st, role + ':' + fn.key if role == 'rec' else role, dargs, t, lid), st)]

    def havoc_fields(self, st, fields, lid):
        if fields:
            self.add_hav(st, (('@', lid, 'h'), 'fields', frozenset(fields)))

    def havoc_world(self, st, lid):
        excl = frozenset(g[1] for g in st.guards if g[2] == 'mut')
        self.add_hav(st, (('@', lid, 'u'), 'world', excl))

    def user_call(self, fr, st, what, args, t, lid):
        dargs = tuple(self.deep(st, a) for a in args)
        st.ev(('user', what, dargs, ('@', lid, 's'), st.guards))
        self.havoc_world(st, lid)
        for a in args:
            pass
        if t is not None:
            return [('ret', self.result(fr, st, ('user', what), dargs, t, lid), st)]
        return [('ret', ('call', ('user', what), dargs, ('@', lid, 'r')), st)]

    def construct(self, path, args):
        """a constructor that is used as a function"""
        adt, v = path.rsplit('::', 1)
        if path in self.prog.adts:
            adt, v = path, self.prog.adts[path]['variants'][0]['name']
        names = ['%s.%d' % (adt, i) for i in range(len(args))]
        if len(args) == 1 and adt in TRANSPARENT:
            return args[0]
        return ('agg', adt, v, tuple(zip(names, args)))

    def extern(self, fr, st, f, args, t, lid):
        name = f.get('rp') or f['p']
        if t is not None and t['t'] is None:
            return [('panic', (name, tuple(self.deep(st, a) for a in args), fr.fn.key, t['ln']), st)]
        if '{constructor#' in (f.get('dk') or ''):
            return [('ret', self.construct(f['p'], args), st)]
        dargs = tuple(self.deep(st, a) for a in args)
        clos = [a for a in dargs if a[0] == 'clo']
        if clos:
            self.unknown.add(name)
            st.ev(('unknown_hof', name, dargs, ('@', lid, 's')))
            self.havoc_world(st, lid)
        if t is not None:
            for a, ti in zip(args, t['at']):
                ty = fr.fn.tys[ti]
                if ty['k'] == 'refmut' and a[0] == 'ref':
                    root, proj = a[1]
                    v = ('call', name, dargs, ('@', lid, 'm'))
                    if root[0] == 'L':
                        self.store_put(st, root, proj, v)
                    else:
                        self.write(st, a[1], v, lid, kind='extwrite')
        return [('ret', self.result(fr, st, name, dargs, t, lid, pure=True), st)]

    # ---------------------------------------------------------------- MOD summaries
    def mod(self, fn):
        """(fields that a call may write through its arguments, runs user code?)"""
        r = self.modcache.get(fn.key)
        if r is not None:
            return r
        self.modcache[fn.key] = (frozenset(), False)
        sub = Interp(self.prog, self.opaque, self.user_methods, False, self.max_states, self.max_depth, self.opaque_api)
        sub.modcache = self.modcache
        sub.reachcache = self.reachcache
        sub.rec = self.rec
        fields, allw = set(), False
        for kind, v, s in sub.entry(fn):
            a, w = sub.events_mod(s.events)
            fields |= a
            allw |= w
        self.unknown |= sub.unknown
        r = (frozenset(fields), allw)
        self.modcache[fn.key] = r
        return r

    def events_mod(self, evs):
        fields, allw = set(), False
        for e in evs:
            k = e[0]
            if k in ('write', 'push', 'insert', 'remove', 'extwrite', 'pop', 'clear'):
                lf = self.last_fields(e[1][1])
                if lf:
                    fields.add(lf[-1])
            elif k == 'iter':
                a, w = self.events_mod(e[3])
                fields |= a
                allw |= w
            elif k == 'user':
                allw = True
            elif k == 'call':
                fn = self.prog.fns[e[2]]
                a, w = self.mod(fn)
                fields |= a
                allw |= w
            elif k == 'dyn':
                for c in self.prog.by_trait.get((e[1], e[2]), []):
                    a, w = self.mod(c)
                    fields |= a
                    allw |= w
        return fields, allw

    # ---------------------------------------------------------------- entry points
    def param(self, fn, i):
        """symbolic argument number i (1-based)"""
        ty = fn.tys[fn.locals[i]]
        nm = None
        for v, p in fn.d.get('vars', []):
            if p['l'] == i and not p['p']:
                nm = v
                break
        nm = 'arg%d' % i
        cell = 'RefCell' in ty['s']
        t = ('p', nm, 'cell') if cell else ('p', nm)
        if not cell and ty['s'].lstrip('&').replace('mut ', '') == 'engine::DCG':
            t = ('p', nm, 'dcg')
        if ty['k'] in ('ref', 'refmut', 'ptr'):
            inner = fn.tys[ty['a'][0]]
            if inner['k'] in ('ref', 'refmut', 'ptr'):
                return ('ref', (('O', t), ()))
            return ('ref', (('O', t), ()))
        return t

    def entry(self, fn, args=None, st=None):
        st = st or St()
        n = fn.nargs
        if args is None:
            args = [None] * n
        full = []
        for i in range(n):
            a = args[i] if i < len(args) else None
            full.append(a if a is not None else self.param(fn, i + 1))
        if fn.kind == 'closure' and n:
            env_ty = fn.tys[fn.locals[1]]
            caps = fn.d.get('captures', [])
            clo = ('clo', fn.key, tuple(('p', 'cap%d' % i) for i in range(len(caps))), ())
            if args[0] is None:
                if env_ty['k'] in ('ref', 'refmut'):
                    st.store[(('O', ('p', 'env')), ())] = clo
                    full[0] = ('ref', (('O', ('p', 'env')), ()))
                else:
                    full[0] = clo
        return self.run(fn, full, st, self.lab(None, 'entry', fn.key), {}, ())


def _freeze(f):
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in f.items()))


def _thaw(f):
    return {k: (list(v) if isinstance(v, tuple) else v) for k, v in f}
