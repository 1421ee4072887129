"""Runtime-monitoring harness: cases, verdicts, evidence, replay.

A check is a set of *sections*.  Each section is a function ``f(c)`` that
draws one workload from ``c.rng``, drives the real sdepy code with it and
lets its monitor (``c.check``, ``c.close``, ...) judge what was observed.
Every case is reproducible from (seed, property, section, index).
"""
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings
import zlib
import multiprocessing as mp
import concurrent.futures as cf

import numpy as np

from . import retain

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# workload multiplier, on top of the number of cases of each section
SCALE = int(os.environ.get('VERIF_SCALE', '5'))
# of a single case, in seconds
CPU_LIMIT = 60
# address space of a worker, in bytes
MEMORY_LIMIT = 6 << 30
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    def __init__(self, mech, msg):
        super().__init__(f'[{mech}] {msg}')
        self.mech, self.msg = mech, msg


class Inconclusive(BaseException):
    pass


class Hang(BaseException):
    pass


class Case:
    """One execution: its random generator, its monitor and its log."""

    def __init__(self, prop, section, index, seed, tier):
        self.prop, self.section, self.index = prop, section, index
        self.seed, self.tier = seed, tier
        self.key = [seed, zlib.crc32(prop.encode()),
                    zlib.crc32(section.encode()), index]
        self.rng = np.random.default_rng(self.key)
        self.events = {}
        self.signature = None
        self.desc = {}

    # -- workload helpers
    def sub_rng(self, k=0):
        return np.random.default_rng(self.key + [7919, k])

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def chance(self, p):
        return bool(self.rng.random() < p)

    def int(self, lo, hi):
        """integer in [lo, hi]"""
        return int(self.rng.integers(lo, hi + 1))

    # -- evidence
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def sig(self, **kw):
        """Structural signature of a non-trivial case."""
        self.signature = json.dumps(kw, sort_keys=True, default=str)
        self.desc.update(kw)

    def note(self, **kw):
        self.desc.update(kw)

    def mutated(self, x):
        """a result has been altered on purpose"""
        retain.mutated(x)

    # -- monitors
    def fail(self, mech, msg):
        raise Violation(mech, msg)

    def check(self, cond, mech, msg='', **kw):
        self.ev('assertions')
        if not bool(cond):
            raise Violation(mech, msg + (' ' + short(kw) if kw else ''))

    def equal(self, a, b, mech, msg=''):
        self.ev('assertions')
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(mech, f'{msg} shape {a.shape} != {b.shape}')
        self.ev('values_compared', a.size)
        try:
            ok = np.array_equal(a, b, equal_nan=True)
        except TypeError:
            ok = np.array_equal(a, b)
        if not ok:
            raise Violation(mech, f'{msg} values differ: '
                            + short(dict(got=a, expected=b)))

    def close(self, a, b, mech, msg='', rtol=1e-9, atol=0., scale=True):
        """Same shape and equal within rounding (atol grows with the
        magnitude of the data if scale)."""
        self.ev('assertions')
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(mech, f'{msg} shape {a.shape} != {b.shape}')
        self.ev('values_compared', a.size)
        if a.size == 0:
            return
        if scale:
            fin = b[np.isfinite(b)]
            if fin.size:
                atol = atol + rtol*float(np.max(np.abs(fin)))
        if not np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            with np.errstate(all='ignore'):
                d = np.abs(a - b)
            bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(
                mech, f'{msg} {int(bad.sum())}/{a.size} values differ, e.g. '
                f'at {i}: got {a[i]!r}, expected {b[i]!r}; max abs diff '
                f'{np.nanmax(d):.3g}')

    def raises(self, exc, f, mech, msg=''):
        """f() must be rejected with one of the exceptions exc."""
        self.ev('assertions')
        self.ev('rejections_requested')
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = f()
        except exc:
            self.ev('rejections_observed')
            return
        except Exception as e:
            raise Violation(mech, f'{msg} expected {exc}, got '
                            f'{type(e).__name__}: {e}')
        raise Violation(mech, f'{msg} was accepted, returning '
                        + short(dict(r=r)))

    # statistical monitors: two-sided z-test with a false alarm
    # probability of about 2.6e-12 per comparison
    Z = 7.0

    def zmean(self, x, mean, std, mech, msg='', slack=0.):
        """x: independent samples with known mean and std (scalars)."""
        self.ev('assertions')
        self.ev('statistical_tests')
        x = np.asarray(x, float).ravel()
        n = x.size
        z = abs(x.mean() - mean)
        tol = self.Z*std/np.sqrt(n) + slack + 1e-12*abs(mean)
        self.ev('statistical_samples', n)
        if not z <= tol:
            raise Violation(mech, f'{msg} sample mean {x.mean():.8g} vs '
                            f'expected {mean:.8g} (n={n}, tolerance {tol:.3g})')


def short(d, n=400):
    with np.printoptions(threshold=12, precision=6, edgeitems=3):
        s = ', '.join(f'{k}={v!r}' for k, v in d.items())
    return s if len(s) < n else s[:n] + '...'


# ---------------------------------------------------------------------

def load_known():
    """known: property=<id> mech=<mechanism> <what fails>"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            line = line.strip()
            if not line.startswith('known:'):
                continue
            f = line.split(None, 3)
            prop = f[1].split('=', 1)[1]
            mech = f[2].split('=', 1)[1]
            out[prop, mech] = f[3] if len(f) > 3 else ''
    return out


def run_case(prop, section, fn, index, seed, tier):
    c = Case(prop, section, index, seed, tier)
    res = dict(section=section, index=index, verdict='held')
    np.random.seed(12345)
    t0 = time.time()
    # cases take milliseconds to seconds: CPU_LIMIT seconds of CPU time
    # mean that a call does not terminate; the wall clock watchdog is
    # inconclusive
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGVTALRM, _hang)
    signal.alarm(300)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            g0 = np.geterr(), np.get_printoptions()
            retain.begin()
            fn(c)
            n, bad = retain.end()
            c.ev('results_retained', n)
            if bad:
                raise Violation(*bad)
            if (np.geterr(), np.get_printoptions()) != g0:
                raise Violation('global-settings', 'numpy error handling or '
                                f'print settings changed: {np.geterr()}')
    except Violation as e:
        res.update(verdict='violated', mech=e.mech, msg=str(e),
                   where=_where(e))
    except Hang as e:
        res.update(verdict='violated', mech='no-termination',
                   msg=f'no result after {CPU_LIMIT} s of CPU time',
                   where=_where(e))
    except (MemoryError, Inconclusive) as e:
        res.update(verdict='inconclusive', msg=repr(e))
    except Exception as e:
        res.update(verdict='violated', mech=f'exception:{section}',
                   msg=f'unexpected {type(e).__name__}: {e}',
                   where=traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    res.update(events=c.events, signature=c.signature,
               desc={k: str(v)[:300] for k, v in c.desc.items()},
               wall=time.time() - t0)
    return res


def _alarm(*args):
    raise Inconclusive('watchdog')


def _hang(*args):
    raise Hang


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}'
                     for f in tb[-4:])


_SECTIONS = {}


def _worker(args):
    prop, seed, tier, jobs, deadline = args
    # an allocation beyond this limit is inconclusive, and does not
    # exhaust the memory of the machine
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = MEMORY_LIMIT if hard < 0 else min(MEMORY_LIMIT, hard)
    resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    out = []
    for section, index in jobs:
        if time.time() > deadline:
            break
        out.append(run_case(prop, section, _SECTIONS[section][0],
                            index, seed, tier))
    return out


class Check:
    """Property check: sections with number of cases per tier."""

    def __init__(self, prop, rule, assumptions=(), required=()):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.required = list(required)  # event counters that must be > 0
        self.sections = {}

    def section(self, quick, thorough=None):
        def deco(f):
            self.sections[f.__name__] = (
                f, quick, thorough if thorough is not None else quick*12)
            return f
        return deco


def run_check(chk, seed, tier, only=None, case=None, wall_limit=None):
    t0 = time.time()
    global _SECTIONS
    retain.install()
    _SECTIONS = chk.sections
    wall_limit = wall_limit or (600. if tier == 'quick' else 3000.)
    deadline = t0 + wall_limit
    jobs = []
    k = 1 if tier == 'quick' else 2
    for name, s in chk.sections.items():
        if only and name != only:
            continue
        n = s[k]*SCALE
        idx = range(n) if case is None else [case]
        jobs += [(name, i) for i in idx]
    nproc = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    # deterministic spread of heavy sections over the workers
    order = np.random.default_rng(0).permutation(len(jobs))
    chunk = max(1, min(25, len(jobs)//(nproc*6) or 1))
    parts = [[jobs[j] for j in order[i:i+chunk]]
             for i in range(0, len(jobs), chunk)]
    results = []
    if nproc == 1 or len(jobs) == 1:
        for p in parts:
            results += _worker((chk.prop, seed, tier, p, deadline))
    else:
        ctx = mp.get_context('fork')
        with cf.ProcessPoolExecutor(nproc, mp_context=ctx) as ex:
            for r in ex.map(_worker, [(chk.prop, seed, tier, p, deadline)
                                      for p in parts]):
                results += r
    return summarize(chk, seed, tier, jobs, results, time.time() - t0,
                     partial=bool(only or case is not None))


def summarize(chk, seed, tier, jobs, results, wall, partial):
    prop = chk.prop
    known = {m: w for (p, m), w in load_known().items() if p == prop}
    results.sort(key=lambda r: (r['section'], r['index']))
    events, per_section, sigs, samples = {}, {}, set(), []
    viol, kf, inconcl = [], {}, []
    for r in results:
        s = per_section.setdefault(r['section'], dict(
            cases=0, distinct=set(), seconds=0.))
        s['cases'] += 1
        s['seconds'] += r['wall']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        if r['signature']:
            sigs.add((r['section'], r['signature']))
            s['distinct'].add(r['signature'])
        if r['verdict'] == 'violated':
            if r['mech'] in known:
                kf.setdefault(r['mech'], []).append(r)
            else:
                viol.append(r)
        elif r['verdict'] == 'inconclusive':
            inconcl.append(r)
    seen = set()
    for r in results:
        if r['section'] not in seen and r['desc'] and r['verdict'] == 'held':
            seen.add(r['section'])
            samples.append(dict(section=r['section'], index=r['index'],
                                case=r['desc'], observed=r['events']))
    for s in per_section.values():
        s['distinct'] = len(s['distinct'])
        s['seconds'] = round(s['seconds'], 2)
    ev = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=len(results), distinct_nontrivial=len(sigs),
            rule=chk.rule, samples=samples or [dict(note='none')],
            observed=events, sections=per_section,
            known_findings_reproduced={m: len(v) for m, v in kf.items()},
        ),
        assumptions=chk.assumptions, wall_s=round(wall, 2),
        violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not partial:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)

    for m, rs in kf.items():
        print(f'KNOWN-FINDING: property={prop} {m}: {known[m]}')
    print(f'{prop} {tier} seed={seed}: {len(results)}/{len(jobs)} cases, '
          f'{len(sigs)} distinct, {events.get("assertions", 0)} assertions, '
          f'{wall:.1f}s')
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        shown = set()
        for r in viol:
            if r['mech'] in shown:
                continue
            shown.add(r['mech'])
            path = os.path.join(VERIF, 'replay',
                                f'{prop}-{r["section"]}-{r["index"]}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier,
                               section=r['section'], index=r['index'],
                               mech=r['mech'], message=r['msg'],
                               where=r.get('where'), case=r['desc']),
                          f, indent=1, default=str)
            print(f'  {r["section"]}#{r["index"]} {r["msg"]}\n'
                  f'    at {r.get("where")}')
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if partial:
        return 0
    # inconclusive: monitors not reached, or not enough cases run
    done = {}
    for r in results:
        if r['verdict'] != 'inconclusive':
            done[r['section']] = done.get(r['section'], 0) + 1
    want = {}
    for name, _ in jobs:
        want[name] = want.get(name, 0) + 1
    for name, n in want.items():
        if done.get(name, 0) < max(1, n//4):
            print(f'INCONCLUSIVE {prop}: section {name} completed '
                  f'{done.get(name, 0)} of {n} cases')
            return 2
    for k in ['assertions'] + chk.required:
        if not events.get(k):
            print(f'INCONCLUSIVE {prop}: no {k} observed')
            return 2
    return 0
