"""Decide one property from the current source of /repo.

usage: check.py PROPERTY [--tier quick|thorough] [-v]

Exit 0: no violation.  Exit 1: "VIOLATION property=<id> replay=<path>".
Exit 2: the analysis could not find the public interface it is about.
"""
import importlib
import json
import resource
import signal
import os
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
import sys
import time
import traceback
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from drive import *
import alg
import fnmatch
import numpy as np

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class OutOfTime(BaseException):
    pass


# seconds: for a check, for one of its obligations
BUDGET = float(os.environ.get('SA_BUDGET', 720))
EACH = float(os.environ.get('SA_EACH', 150))
END = [time.time() + BUDGET]


class Ob(object):
    def __init__(self, ctx, rule, site, what):
        self.ctx, self.rule, self.site, self.what = ctx, rule, site, what
        self.facts = 0
        self.status = None
        self.detail = []

    def __enter__(self):
        self.t0 = time.time()
        left = END[0] - self.t0
        if left > 1:
            signal.setitimer(signal.ITIMER_REAL, min(left, EACH), .5)
        return self

    def __exit__(self, et, e, tb):
        signal.setitimer(signal.ITIMER_REAL, max(END[0] - time.time(), .01), .5)
        if et is not None:
            if issubclass(et, AnchorLost):
                self.ctx.lost.append('%s: %s' % (self.rule, e))
                self.status = 'lost'
            elif issubclass(et, Unsupported):
                self.undecided('outside the analysed language: %s' % e)
            elif issubclass(et, PyErr):
                self.violation('the analysed code raises %s unconditionally' % e)
            elif issubclass(et, OutOfTime):
                self.undecided('the time budget is spent')
            elif issubclass(et, (KeyboardInterrupt, SystemExit)):
                return False
            else:
                if os.environ.get('SA_TRACE'):
                    traceback.print_exception(et, e, tb)
                self.undecided('analysis error: %s: %s' % (et.__name__, e))
                if self.ctx.verbose:
                    print(''.join(traceback.format_exception(et, e, tb)[-4:]))
        if self.status is None:
            self.status = 'ok' if self.facts else 'undecided'
            if not self.facts:
                self.detail.append('no fact was established')
        self.t = time.time() - self.t0
        self.ctx.done(self)
        return True

    # -- verdicts
    def fact(self, n=1):
        self.facts += n

    def undecided(self, why):
        if self.status != 'violation':
            self.status = 'undecided'
        self.detail.append(why)

    def violation(self, why):
        self.status = 'violation'
        self.detail.append(why)

    def require(self, cond, why):
        """a structural fact: holds or is a violation"""
        if cond:
            self.fact()
        else:
            self.violation(why)

    def eq(self, got, want, assume=True, what='value', setup=None, seed=1,
           tries=None):
        """the two terms denote the same value wherever `assume` holds"""
        for v, n in ((got, 'computed'), (want, 'required')):
            if v is UNDEF:
                self.violation('%s: no %s value' % (what, n))
                return False
        v, w = alg.compare(got, want, assume, setup=setup, seed=seed + self.ctx.seed,
                           tries=tries or (800 if self.ctx.tier == "quick" else 3000))
        return self._judge(v, w, what, got, want)

    def _judge(self, v, w, what, got, want):
        if v == Verdict.EQ:
            self.fact()
            return True
        if v == Verdict.DIFF:
            (path, a, b), va, vb = w
            self.violation('%s differs%s\n    computed: %s\n    required: %s\n'
                           '    separated by a model: computed %s, required %s' % (
                               what, gate(path), cut(a), cut(b), cut(va), cut(vb)))
            return False
        self.undecided('%s: not decided%s\n    computed: %s\n    required: %s' % (
            what, gate(w[0]), cut(w[1]), cut(w[2])))
        return None

    def shape(self, got, want, what='value'):
        sh = shape_of(got)
        if sh is None:
            self.undecided('%s: shape unknown' % what)
            return False
        for s in sh:
            if tuple(s) != tuple(want):
                self.violation('%s has shape %s, required %s' % (what, s, tuple(want)))
                return False
        self.fact()
        return True

    def no_raise(self, run, assume=True, what='call', allowed=()):
        """no exception can escape where `assume` holds"""
        ok = True
        for x in run.raises:
            nm = getattr(x.val, 'name', str(x.val))
            if nm in allowed:
                continue
            c = b_and(assume, x.st.pc)
            r = self.feasible(c)
            if r is False:
                continue
            if r is None:
                self.undecided('%s: cannot exclude %s%s' % (what, nm, where(x.site)))
                ok = False
                continue
            self.violation('%s raises %s%s when %s' % (what, nm, where(x.site), cut(x.st.pc)))
            ok = False
        if run.st.dead and not run.raises:
            self.violation('%s does not return' % what)
            ok = False
        if ok:
            self.fact()
        return ok

    def feasible(self, c, tries=200, setup=None):
        """True (a model is known), False (contradictory gates) or None"""
        if c is False:
            return False
        if c is True:
            return True
        if not any(l is True and consistent(p) and not alg.contradictory(p)
                   for p, l in leaves(c)):
            return False
        rng = np.random.default_rng(7)
        for k in range(tries):
            m = alg.Model(rng, ncoll=2 + k % 2, mode=alg.MODES[k % 8])
            if setup:
                setup(m)
            try:
                with np.errstate(all='ignore'):
                    if m.bool(c):
                        return True
            except (alg.NoModel, np.linalg.LinAlgError, ZeroDivisionError, OverflowError,
                    ValueError):
                continue
        return None

    def asserts(self, run, assume=True, what='call', setup=None):
        """recorded assertions hold where assume does"""
        for c, pc, site in [(a[0], a[1], a[2]) for a in run.st.asserts]:
            bad = b_and(assume, b_and(pc, b_not(c)))
            r = self.feasible(bad, setup=setup)
            if r is False:
                self.fact()
            elif r is True:
                self.violation('%s: assertion%s can fail' % (what, where(site)))


def gate(path):
    return '' if not path else ' when ' + ' and '.join(
        ('' if v else 'not ') + cut(repr(a), 160) for a, v in path[:6])


def cut(x, n=420):
    s = x if isinstance(x, str) else repr(x)
    s = s.replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


def where(site):
    return '' if not site else ' at %s:%s (%s)' % (rel(site[0]), site[1], site[2])


def rel(p):
    r = os.environ.get('SA_REPO', '/repo')
    return os.path.relpath(p, r) if p.startswith('/') else p


def shape_of(v):
    if isinstance(v, Phi):
        out = []
        for _, l in leaves(v):
            s = shape_of(l)
            if s is None:
                return None
            out += s
        return out
    if isinstance(v, (Ar, Mx, BAr)):
        return [tuple(v.shape)]
    if isinstance(v, (Sx, int, float, Fraction)):
        return [()]
    return None


class Ctx(object):
    def __init__(self, prop, tier, verbose=False):
        self.prop, self.tier, self.verbose = prop, tier, verbose
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.prog = Program(os.environ.get('SA_REPO'))
        self.obs = []
        self.lost = []
        self.functions = set()
        self.sites = 0
        self.assumptions = []

    def ob(self, rule, site, what=''):
        if callable(site):
            try:
                site = site()
            except AnchorLost as e:
                self.lost.append('%s: %s' % (rule, e))
                site = ('?', 0, '?')
        return Ob(self, rule, site, what)

    def done(self, o):
        self.obs.append(o)
        if self.verbose:
            print('%-10s %-28s %-44s %5.2fs %s' % (o.status, o.rule, o.site[2][-44:], o.t,
                                                  '' if o.status == 'ok' else o.detail))

    # -- anchors
    def at(self, mod, name):
        r = self.prog.func(mod, name)
        return (r[1].path, r[2].lineno, mod + '.' + name)

    def at_cls(self, c, member=None):
        if isinstance(c, str):
            c = Schema(self.prog).cls(c)
        if member:
            k, e = c.lookup(member)
            if e is None:
                raise AnchorLost('%s.%s' % (c.name, member))
            n = e[1]
            if isinstance(n, dict):
                n = n.get('get') or list(n.values())[0]
            return (k.mod.path, getattr(n, 'lineno', c.node.lineno),
                    '%s.%s.%s' % (c.mod.name, c.name, member))
        return (c.mod.path, c.node.lineno, '%s.%s' % (c.mod.name, c.name))

    def run(self, schema=None, contracts=None):
        r = Run(self.prog, schema or Schema(self.prog), contracts)
        r.I.calls_seen = self.functions
        return r


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN, encoding='utf-8'):
            l = l.strip()
            if l.startswith('known: '):
                f = dict(x.split('=', 1) for x in l[7:].split(' :: ')[0].split())
                if f.get('property') == prop:
                    out.append((f['rule'], f['construct'], l.split(' :: ', 1)[1]))
    return out


def late(sig, frame):
    raise OutOfTime()


def main():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    ctx = Ctx(prop, tier, '-v' in sys.argv)
    mod = importlib.import_module('obl.' + prop.lower())
    # whatever the code has become, answer in time with what is established
    signal.signal(signal.SIGALRM, late)
    END[0] = time.time() + BUDGET
    signal.setitimer(signal.ITIMER_REAL, BUDGET, .5)
    try:
        mod.run(ctx)
    except AnchorLost as e:
        ctx.lost.append(str(e))
    except OutOfTime:
        pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    known = load_known(prop)
    viol, found = [], []
    for o in ctx.obs:
        if o.status == 'violation':
            k = [x for x in known if x[0] == o.rule and x[1] == o.site[2]]
            (found if k else viol).append((o, k))
    out = os.environ.get('SA_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(out, exist_ok=True)
    for o, k in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[0][2]))
    n_ok = sum(o.status == 'ok' for o in ctx.obs)
    und = [o for o in ctx.obs if o.status == 'undecided']
    for o in und:
        print('UNDECIDED %s %s: %s' % (o.rule, o.site[2], cut(o.detail[-1] if o.detail else '')))
    facts = sum(o.facts for o in ctx.obs)
    ev = {
        'property': prop, 'tier': tier, 'seed': ctx.seed, 'level': 'other',
        'coverage': {
            'explanation': mod.__doc__.strip() if mod.__doc__ else prop,
            'obligations': len(ctx.obs), 'discharged': n_ok,
            'facts_established': facts,
            'undecided': ['%s @ %s: %s' % (o.rule, o.site[2], cut(' / '.join(o.detail), 300))
                          for o in und],
            'functions_analysed': len(ctx.functions),
            'functions': sorted('%s:%s %s' % (rel(p), l, q) for p, q, l in ctx.functions
                                if not p.startswith('<')),
            'rules': sorted(set(o.rule for o in ctx.obs)),
            'samples': ['%s @ %s:%s %s' % (o.rule, rel(o.site[0]), o.site[1], o.site[2])
                        for o in ctx.obs[:60]],
            'source_digest': ctx.prog.digest(),
            'known_findings': [k[0][2] for o, k in found],
        },
        'assumptions': ctx.assumptions + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(viol),
    }
    with open(os.path.join(out, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if ctx.lost:
        for l in ctx.lost:
            print('ANCHOR LOST: ' + l)
    if viol:
        rp = os.path.join(out, 'replay-%s.txt' % prop)
        with open(rp, 'w') as f:
            for o, _ in viol:
                f.write('%s:%s: %s\n  rule %s\n  property %s\n' % (
                    rel(o.site[0]), o.site[1], o.site[2], o.rule, prop))
                for d in o.detail:
                    f.write('  %s\n' % d)
                f.write('  reproduce: %s %s --tier %s -v\n\n' % (
                    os.path.abspath(__file__), prop, tier))
        for o, _ in viol:
            print('%s:%s: %s: [%s] %s' % (rel(o.site[0]), o.site[1], o.site[2], o.rule,
                                          cut(o.detail[-1] if o.detail else '', 900)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.stdout.flush()
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %d facts, %d functions, %.1fs' % (
        prop, len(ctx.obs), n_ok, len(und), facts, len(ctx.functions), time.time() - t0))
    return 2 if ctx.lost else 0


if __name__ == '__main__':
    sys.exit(main())
