"""Facts, units, obligations and reports shared by all checks."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)

from prog import Prog                      # noqa: E402
from absint import Interp, Budget          # noqa: E402
from paths import Path, dump               # noqa: E402
from canon import show                     # noqa: E402

DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'mirfacts')
MODELS = os.path.join(VERIF, 'driver', 'target', 'models.json')


class Broken(Exception):
    """the check cannot give an answer (for example: the tree does not compile)"""


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True,
                          check=True).stdout.strip()


def env_for_driver(sr):
    e = dict(os.environ)
    e['LD_LIBRARY_PATH'] = os.path.join(sr, 'lib') + (':' + e['LD_LIBRARY_PATH'] if e.get('LD_LIBRARY_PATH') else '')
    return e


def build_driver():
    """the fact extractor, from the committed sources; a no-op when it is up to date"""
    r = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=os.path.join(VERIF, 'driver'),
                       capture_output=True, text=True)
    if r.returncode or not os.path.exists(DRIVER):
        raise Broken('the fact extractor does not build:\n' + r.stderr[-2000:])


def build_models():
    src = os.path.join(VERIF, 'models', 'models.rs')
    if os.path.exists(MODELS) and os.path.getmtime(MODELS) > max(os.path.getmtime(src), os.path.getmtime(DRIVER)):
        return
    tmp = tempfile.mkdtemp(prefix='vp-models-')
    try:
        e = env_for_driver(sysroot())
        e.update(MIRFACTS_CRATES='models', MIRFACTS_OUT=tmp)
        r = subprocess.run([DRIVER, 'rustc', '--crate-name', 'models', '--crate-type', 'lib', '--edition', '2021',
                            src, '--emit=metadata', '--out-dir', tmp], env=e, capture_output=True, text=True)
        out = os.path.join(tmp, 'models.json')
        if r.returncode or not os.path.exists(out):
            raise Broken('the library models do not compile:\n' + r.stderr[-2000:])
        shutil.copy(out, MODELS + '.tmp%d' % os.getpid())
        os.replace(MODELS + '.tmp%d' % os.getpid(), MODELS)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    build_driver()
    build_models()


def extract(repo=None, witness=False):
    """type-check the current working tree with the compiler and write its MIR down as facts;
    witness: also of models/witness.rs, compiled against the tree (a message if it does not compile)"""
    repo = repo or REPO
    setup()
    tmp = tempfile.mkdtemp(prefix='vp-facts-')
    try:
        e = env_for_driver(sysroot())
        e.update(RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRFACTS_CRATES='adapton', MIRFACTS_OUT=tmp,
                 CARGO_TARGET_DIR=os.path.join(tmp, 'target'))
        e.pop('RUSTC_WRAPPER', None)
        r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '-q'], cwd=repo, env=e,
                           capture_output=True, text=True)
        out = os.path.join(tmp, 'adapton.json')
        if r.returncode or not os.path.exists(out):
            raise Broken('the tree does not compile:\n' + r.stderr[-3000:])
        with open(out) as f:
            a = json.load(f)
        with open(MODELS) as f:
            m = json.load(f)
        if witness:
            return a, m, extract_witness(tmp, e)
        return a, m
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def extract_witness(tmp, e):
    """the facts of the witness crate, or what the compiler says against it"""
    metas = [x for x in glob.glob(os.path.join(tmp, 'target', '**', 'libadapton-*.rmeta'), recursive=True)]
    out = os.path.join(tmp, 'witness.json')
    err = None
    for x in metas:
        r = subprocess.run([DRIVER, 'rustc', '--crate-name', 'witness', '--crate-type', 'lib', '--edition', '2021',
                            os.path.join(VERIF, 'models', 'witness.rs'), '--emit=metadata', '--out-dir', tmp,
                            '--extern', 'adapton=' + x, '-L', 'dependency=' + os.path.dirname(x)],
                           env=dict(e, MIRFACTS_CRATES='witness'), capture_output=True, text=True)
        if not r.returncode and os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        err = r.stderr
    if err is None or 'error' not in err:
        raise Broken('the witness crate cannot be compiled: %s' % err)
    return ' '.join(x for x in err[err.index('error'):].split('\n') if x.strip())[:400]


USER_METHODS = {('engine::Producer', 'produce')}


PURE_ROLES = ('PARSE', 'R_VALUE', 'R_VALUES', 'R_FIELDS', 'R_NAME', 'R_NAMEOPT', 'R_PATH', 'R_LEX', 'R_TOKENS')      # opaque functions that change nothing (closure_props decides that separately)


class Unit:
    """one function analysed with symbolic arguments"""

    def __init__(self, ctx, fn, opaque, api=None, max_states=400000, traces=False, panics=False):
        self.ctx, self.fn = ctx, fn
        I = Interp(ctx.P, opaque=opaque, user_methods=USER_METHODS, max_states=max_states, opaque_api=api, inline_traces=traces)
        I.all_panics = panics
        for k, r in opaque.items():
            if r in PURE_ROLES:
                I.modcache[k] = (frozenset(), False)
        self.paths = [Path(k, v, s) for k, v, s in I.entry(fn)]
        self.states = I.nstates
        self.unknown = sorted(I.unknown)
        for i, p in enumerate(self.paths):
            p.no, p.unit = i, self
        self.rets = [p for p in self.paths if p.kind == 'ret']
        self.panics = [p for p in self.paths if p.kind != 'ret']

    @property
    def name(self):
        return self.fn.d.get('path') or self.fn.key

    def describe(self):
        return '%s (%s)' % (self.name, self.fn.d.get('file', '?'))


class Ctx:
    def __init__(self, facts=None, tier='quick'):
        self.t0 = time.time()
        self.P = Prog(facts or list(extract()))
        self.tier = tier
        self.units = {}
        self.by_path = {}
        for f in self.P.fns.values():
            if f.kind != 'const' and f.d.get('path'):
                self.by_path.setdefault(f.d['path'], []).append(f)
        self._roles = {}

    # ------------------------------------------------------------ anchors
    def fn(self, path):
        fs = [f for f in self.by_path.get(path, ()) if f.kind not in ('const', 'closure')]
        return fs[0] if len(fs) == 1 else None

    def impl(self, trait, self_ty, name):
        """the method of an impl: trait suffix, self type prefix (without generics)"""
        out = []
        for f in self.P.fns.values():
            d = f.d
            if f.kind == 'closure' or d.get('name') != name or not d.get('impl_self'):
                continue
            st = f.tys[d['impl_self']]['s'].split('<')[0]
            tr = d.get('impl_trait') or ''
            if st == self_ty and (tr.split('<')[0].endswith(trait) if trait else not tr):
                out.append(f)
        return out[0] if len(out) == 1 else None

    def impls(self, trait, name):
        return [f for f in self.P.fns.values() if f.kind != 'closure' and f.d.get('name') == name
                and (f.d.get('impl_trait') or '').split('<')[0].endswith(trait)]

    def role(self, name):
        if name not in self._roles:
            import roles
            self._roles[name] = getattr(roles, name)(self)
        return self._roles[name]

    def unit(self, fn, opaque=('EVAL', 'VALIDATE'), api=None, max_states=400000, traces=False, panics=False):
        k = (fn.key, tuple(opaque), api.__name__ if api else None, traces, panics)
        if k not in self.units:
            op = {}
            for r in opaque:
                for f in self.role(r):
                    if f.key != fn.key:
                        op[f.key] = r
            big = 4 if self.tier == 'thorough' else 1
            self.units[k] = Unit(self, fn, op, api, big * max_states, traces, panics)
        return self.units[k]


class Report:
    def __init__(self, ctx, prop):
        self.ctx, self.prop = ctx, prop
        self.obl = {}            # rule -> [discharged, total]
        self.viol = {}           # key -> detail
        self.units = {}
        self.notes = []
        self.samples = []

    def use(self, unit):
        self.units[unit.fn.key] = unit
        return unit

    def ob(self, rule, ok, where, detail='', path=None):
        """one obligation; where: function (and construct) that it concerns"""
        c = self.obl.setdefault(rule, [0, 0])
        c[1] += 1
        if ok:
            c[0] += 1
            if len(self.samples) < 6 and c[0] == 1:
                self.samples.append('%s: %s: %s' % (rule, where, detail))
            return True
        key = '%s @ %s' % (rule, where)
        v = self.viol.setdefault(key, {'rule': rule, 'where': where, 'details': [], 'path': None, 'count': 0})
        v['count'] += 1
        if detail and detail not in v['details'] and len(v['details']) < 4:
            v['details'].append(detail)
        if path is not None and v['path'] is None:
            facts = ['%s = %s' % (show(f), '/'.join(str(b[1]) if type(b) is tuple else str(b) for b in vs))
                     for f, vs in path.facts.items()]
            v['path'] = {'function': path.path.unit.describe(), 'outcome': show(path.path.val)[:300],
                         'conditions': facts[:40], 'events': [x[:300] for x in dump(path.path, cut=300)[:80]]}
        return False

    def missing(self, what):
        """a construct that the property needs does not exist any more"""
        self.ob('anchor', False, what, 'the tree has no construct that does this')
        return None

    def need(self, x, what):
        if not x:
            self.missing(what)
        return x


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                # finding: property=<id> key=<key> :: <what fails>
                body, _, what = line[len('finding:'):].partition(' :: ')
                prop, _, key = body.strip().partition(' key=')
                out.append((prop.replace('property=', '').strip(), key.strip(), what.strip()))
    return out


def run_check(prop, title, spec, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        ctx = Ctx(tier=tier)
        rep = Report(ctx, prop)
        try:
            spec.run(ctx, rep)
        except Budget as e:
            rep.ob('analysis-budget', False, prop, 'the path analysis did not finish: %s' % e)
    except Broken as e:
        print('ERROR: %s' % e)
        return 2
    known = {k: w for p, k, w in known_findings() if p == prop}
    new = {k: v for k, v in rep.viol.items() if k not in known}
    old = [k for k in rep.viol if k in known]
    total = sum(b for a, b in rep.obl.values())
    good = sum(a for a, b in rep.obl.values())
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    units = {k: {'function': u.describe(), 'paths': len(u.paths), 'returning': len(u.rets), 'abstract_states': u.states}
             for k, u in sorted(rep.units.items())}
    cov = {
        'explanation': 'Abstract interpretation of the compiler\'s MIR of the current tree, path-sensitive with loops '
                       'summarised by fixpoint; each rule below is decided on every abstract path of the functions '
                       'listed. ' + ' '.join('%s: %s.' % (g.__name__[2:].replace('_', ' '), (g.__doc__ or '').strip()) for g in spec.groups),
        'obligations': total, 'discharged': good,
        'rules': {k: {'obligations': b, 'discharged': a} for k, (a, b) in sorted(rep.obl.items())},
        'functions_analysed': units,
        'paths_analysed': sum(len(u.paths) for u in rep.units.values()),
        'mir_functions_in_tree': sum(1 for f in ctx.P.fns.values() if f.kind != 'const' and f.key.startswith('adapton')),
        'samples': rep.samples,
        'notes': rep.notes,
        'known_findings_reproduced': old,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3),
          'assumptions': ['the behaviour of std functions is as written down in models/models.rs and va/stdmap.py',
                          'rustc +nightly\'s MIR of the library crate is what the stable build compiles'],
          'violations': [dict(v, key=k) for k, v in sorted(new.items())]}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[k], k))
    if total == 0:
        print('ERROR: no obligations')
        return 2
    for k, v in sorted(new.items()):
        print('  %s: %s%s' % (k, '; '.join(v['details']), ' [%d paths]' % v['count'] if v['count'] > 1 else ''))
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, os.path.join('evidence', prop + '.json')))
        return 1
    print('OK property=%s: %d obligations over %d functions, %d paths (%.1f s)' % (
        prop, total, len(rep.units), cov['paths_analysed'], time.time() - t0))
    return 0
