"""Runner: drives generated cases through the sub-checks of one property.

A property module exposes PROPERTY (id), RULE, ASSUMPTIONS and SUBS, a list of
Sub(name, strategy, fn, quick, thorough).  ``strategy`` yields a JSON-able case;
``fn(case)`` runs the code under test and an oracle, raising Violation when they
disagree, and returns ``(nontrivial, labels)``.  An exception that passes through
code of the repository under test is a violation too (the generators only produce
inputs that the code is documented to accept); any other exception is an error of
the harness, which ends the run with exit status 2.
"""
import os
import sys
import io
import json
import time
import math
import hashlib
import traceback
import contextlib
import multiprocessing as mp
from collections import Counter

from . import env  # noqa: F401
from . import ref

import numpy as np
import hypothesis
from hypothesis import given, settings, strategies as st, HealthCheck, Phase

REPO = env.REPO
VERIF = env.VERIF


class Violation(Exception):
    """The code under test and the oracle disagree."""


class Sub(object):
    def __init__(self, name, strategy, fn, quick, thorough=None, maxshards=8, tmax=None,
                 shrink_s=60.):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*10
        self.maxshards = maxshards
        self.tmax = tmax            # emergency wall clamp (inconclusive, not a failure)
        self.shrink_s = shrink_s


# ------------------------------------------------------------------ assertions
def fail(msg):
    raise Violation(msg)


def check(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:12], precision=9, threshold=20) + ('...' if a.size > 12 else '')


def close(got, want, rtol=1e-7, atol=0., what='value', scale=None):
    """|got-want| <= atol + rtol*scale (scale: max |want| unless given)."""
    if got is None:
        raise Violation('%s: got None, expected %s' % (what, _short(want)))
    got = np.asarray(got)
    if got.dtype == object:
        raise Violation('%s: object array %r' % (what, got))
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        raise Violation('%s: shape %s, expected %s' % (what, got.shape, want.shape))
    if got.size == 0:
        return
    nf = ~np.isfinite(want)
    if not np.array_equal(~np.isfinite(got), nf):
        raise Violation('%s: non-finite pattern differs: got %s expected %s' % (what, _short(got), _short(want)))
    if nf.any():
        g, w = got[nf], want[nf]
        if not np.all((g == w) | (np.isnan(g) & np.isnan(w))):
            raise Violation('%s: non-finite values differ: got %s expected %s' % (what, _short(g), _short(w)))
        if nf.all():
            return
    d = np.abs(got[~nf]-want[~nf])
    sc = np.max(np.abs(want[~nf])) if scale is None else scale
    tol = atol + rtol*sc
    if not np.all(d <= tol):
        k = int(np.argmax(d))
        raise Violation('%s: max |diff| %.6g > tol %.3g (scale %.6g; got %.12g expected %.12g)\n got  %s\n want %s' % (
            what, d.max(), tol, sc, got[~nf][k], want[~nf][k], _short(got), _short(want)))


def same(got, want, what='value'):
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        raise Violation('%s: shape %s, expected %s' % (what, got.shape, want.shape))
    ok = (got == want)
    if got.dtype.kind == 'f' and want.dtype.kind == 'f':
        ok = ok | (np.isnan(got) & np.isnan(want))
    if not np.all(ok):
        raise Violation('%s: differs: got %s expected %s' % (what, _short(got), _short(want)))


def raises(exc, fn, what):
    try:
        with quiet():
            fn()
    except exc:
        return
    except Exception as e:      # a different error on documented-invalid input
        raise Violation('%s: expected %s, got %r' % (what, exc, e))
    raise Violation('%s: expected %s, nothing raised' % (what, exc))


@contextlib.contextmanager
def quiet():
    """Silence the code's own prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


# ------------------------------------------------------------------ strategies
def num(lo, hi, digits=3):
    """Decimal floats lo..hi with given digits: shrink well, no subnormals."""
    m = 10**digits
    return st.integers(int(math.ceil(round(lo*m, 6))), int(math.floor(round(hi*m, 6)))).map(lambda k: k/float(m))


def seeds():
    return st.integers(0, 2**31-1)


def rng(seed):
    """Deterministic expansion of a drawn integer to an array generator."""
    return np.random.RandomState(seed)


# ------------------------------------------------------------------ running
def _through_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(REPO.rstrip('/')+'/'):
            return True
    return False


def run_case(sub, case):
    """-> (nontrivial, labels); raises Violation on a failing case."""
    np.random.seed(12345)
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            r = sub.fn(case)
    except Violation:
        raise
    except ref.Skip as e:
        return False, ('no-verdict: %s' % e,)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if isinstance(e, hypothesis.errors.HypothesisException) or \
           type(e).__module__.startswith('hypothesis'):
            raise
        if _through_repo(e.__traceback__):
            raise Violation('the code raised on a valid input: %s' %
                            ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]).strip())
        if isinstance(e, (AttributeError, TypeError, ValueError, LookupError, ArithmeticError, RuntimeError)):
            # e.g. None, a missing attribute or another shape where a result is documented
            raise Violation('a result could not be examined: %s' %
                            ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:]).strip())
        raise
    if r is None:
        r = (True, ())
    return r


def _canon(case):
    return json.dumps(case, sort_keys=True, default=_jd)


def _jd(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(repr(o))


def _task(args):
    modname, subname, shard, nshard, n, seed, flagname, tmax = args
    import importlib
    mod = importlib.import_module('pbt.'+modname)
    sub = [s for s in mod.SUBS if s.name == subname][0]
    h = hashlib.sha256(('%s|%s|%d|%d' % (mod.PROPERTY, subname, seed, shard)).encode()).digest()
    hseed = int.from_bytes(h[:6], 'big')
    out = dict(sub=subname, shard=shard, n=0, nontrivial=set(), labels=Counter(), samples=[],
               fail=None, error=None, skipped=0, wall=0.)
    t0 = time.time()
    state = dict(best=None, tfail=None, nfail=0)

    def body(case):
        if state['tfail'] is None:
            if os.path.exists(flagname) or (tmax is not None and time.time()-t0 > tmax):
                out['skipped'] += 1
                return
        elif time.time()-state['tfail'] > sub.shrink_s:
            return
        try:
            r = run_case(sub, case)
        except Violation as e:
            c = _canon(case)
            state['nfail'] += 1
            if state['best'] is None or (len(c), c) <= (len(state['best'][0]), state['best'][0]):
                state['best'] = (c, str(e))
            if state['tfail'] is None:
                state['tfail'] = time.time()
                open(flagname, 'w').close()
            raise
        if state['tfail'] is not None:
            return
        out['n'] += 1
        nt, labels = r
        for l in labels:
            out['labels'][l] += 1
        if nt:
            hh = hashlib.sha256(_canon(case).encode()).hexdigest()[:16]
            if hh not in out['nontrivial']:
                out['nontrivial'].add(hh)
                if len(out['samples']) < 1 and len(out['nontrivial']) > 3:
                    out['samples'].append(case)

    test = given(sub.strategy)(body)
    test = settings(max_examples=max(1, n), database=None, deadline=None, report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(hseed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            test()
    except BaseException as e:
        if state['best'] is None:
            out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    if state['best'] is not None:
        out['fail'] = dict(property=mod.PROPERTY, sub=subname, case=json.loads(state['best'][0]),
                           message=state['best'][1], seed=seed, failing_cases_seen=state['nfail'])
    out['wall'] = time.time()-t0
    return out


def load_known():
    """known_findings.txt: KNOWN lines  'property=<id> sub=<name> case=<json> <text>'."""
    known = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('known: '):
                known.append(line[7:])
    return known


def run_property(modname, tier, seed, replay=None, only=None, scale=1.):
    import importlib
    mod = importlib.import_module('pbt.'+modname)
    pid = mod.PROPERTY
    t0 = time.time()
    if replay is not None:
        rp = json.load(open(replay))
        sub = [s for s in mod.SUBS if s.name == rp['sub']][0]
        try:
            run_case(sub, rp['case'])
        except Violation as e:
            print(str(e))
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        print('replay passes')
        return 0

    import tempfile
    import shutil
    workdir = tempfile.mkdtemp(prefix='pbt_%s_' % pid)
    os.environ['PBT_SCRATCH'] = workdir
    flag = os.path.join(workdir, 'stop')
    warm = getattr(mod, 'warmup', None)
    outs = []
    try:
        if warm is not None:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    warm()
            except Exception as e:
                if not _through_repo(e.__traceback__):
                    raise
                # the code under test is broken on the warm-up: let the cases find it
        nproc = min(8, mp.cpu_count())
        tasks = []
        subs = [s for s in mod.SUBS if only is None or s.name in only]
        for s in subs:
            n = int(math.ceil((s.quick if tier == 'quick' else s.thorough)*scale))
            nsh = max(1, min(s.maxshards, nproc, n//4 if n >= 8 else 1))
            tmax = s.tmax if s.tmax is not None else (420. if tier == 'quick' else 7200.)
            for k in range(nsh):
                nk = n//nsh + (1 if k < n % nsh else 0)
                tasks.append((modname, s.name, k, nsh, nk, seed, flag, tmax))
        ctx = mp.get_context('fork')
        with ctx.Pool(nproc, maxtasksperchild=None) as pool:
            for o in pool.imap_unordered(_task, tasks, chunksize=1):
                outs.append(o)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    outs.sort(key=lambda o: (o['sub'], o['shard']))
    errs = [o for o in outs if o['error']]
    fails = [o['fail'] for o in outs if o['fail']]
    nt = {}
    for o in outs:
        nt.setdefault(o['sub'], set()).update(o['nontrivial'])
    persub = {}
    samples = []
    for s in mod.SUBS:
        oo = [o for o in outs if o['sub'] == s.name]
        if not oo:
            continue
        lab = Counter()
        for o in oo:
            lab.update(o['labels'])
        persub[s.name] = dict(cases=sum(o['n'] for o in oo), nontrivial=len(nt.get(s.name, ())),
                              not_run_time_limit=sum(o['skipped'] for o in oo),
                              cpu_s=round(sum(o['wall'] for o in oo), 1),
                              classes=dict(sorted(lab.items())))
        sm = [x for o in oo for x in o['samples']]
        if sm:
            samples.append(dict(sub=s.name, case=json.loads(_canon(sm[0]))))
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(v['cases'] for v in persub.values()),
                            distinct_nontrivial=sum(v['nontrivial'] for v in persub.values()),
                            rule=mod.RULE, samples=samples or ['no non-trivial case reached'],
                            per_subcheck=persub),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time()-t0, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid+'.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=_jd)
    for s, v in persub.items():
        print('%-28s cases %6d nontrivial %6d cpu %6.1fs%s %s' % (
            s, v['cases'], v['nontrivial'], v['cpu_s'],
            ' NOTRUN %d' % v['not_run_time_limit'] if v['not_run_time_limit'] else '', v['classes']))
    if fails:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        fails.sort(key=lambda f: len(_canon(f['case'])))
        f = fails[0]
        rp = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, f['sub']))
        with open(rp, 'w') as fh:
            json.dump(f, fh, indent=1)
        print('sub-check %s: %s' % (f['sub'], f['message']))
        print('case: %s' % _canon(f['case'])[:3000])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if errs:
        for o in errs[:3]:
            sys.stderr.write('HARNESS ERROR in %s/%d:\n%s\n' % (o['sub'], o['shard'], o['error']))
        return 2
    print('OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs' % (
        pid, tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'], ev['wall_s']))
    return 0
